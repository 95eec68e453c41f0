package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- printing a tree (C23) ----
//
// Printing is a recursion over pages. What is written of a leaf are its keys and
// values, of an inner page its children with the separators between them; these
// parts are numbered in the order in which they have to appear, and every path of
// the recursive function must write a prefix of them, all of them if it returns
// no error, and nothing after an error, which it returns.

// cfgPrint breaks the recursion at one function and looks into everything else.
func cfgPrint(P *Program, t *ssa.Function) *Config {
	c := *cfgAPI(P)
	c.Name = "print:" + t.String()
	c.NoMerge = true
	c.Boundary = func(f *ssa.Function) bool {
		if f == t {
			return true
		}
		if !P.cyclic(f) {
			return false
		}
		seen := map[*ssa.Function]bool{t: true}
		var back func(g *ssa.Function) bool
		back = func(g *ssa.Function) bool {
			for _, h := range P.callees(g) {
				if h == f {
					return true
				}
				if !seen[h] {
					seen[h] = true
					if back(h) {
						return true
					}
				}
			}
			return false
		}
		return back(f)
	}
	P.setCfg(&c)
	return &c
}

func callTarget(e *Event) *ssa.Function {
	if c, ok := e.pos.(ssa.CallInstruction); ok {
		return c.Common().StaticCallee()
	}
	return nil
}

// callError: the error the call returned.
func callError(st *State, e *Event, ret *Term, last map[*Term]*Term) *Term {
	var r *Term
	for _, x := range resOf[e] {
		if t := resTypes[x.s]; t == nil || !types.IsInterface(t) {
			continue
		}
		x = substAll(x, last)
		if r == nil || x == ret || st.decide(eqTerm(tNil, x)) != 0 && r != ret {
			r = x
		}
	}
	return r
}

type printParams struct {
	fn           *ssa.Function
	writer, addr int             // positions among the parameters
	entry        map[int]*Term   // what Fprint passes
	steps        map[int][]int64 // how the integers change from page to page
}

func rulePrint(P *Program, r *Report) {
	F := P.btFields()
	f := P.method(pkgBPTree, "BPTree", "Fprint")
	if !F.ok || f == nil {
		r.open("print", "BPTree.Fprint", 0, "not found", "")
		return
	}
	run := P.analyse(cfgRange(P), f, nil)
	if !r.usable(run) {
		return
	}
	h := handleOf(run, "BPTree")
	var writer *Term
	for i, p := range f.Params {
		if types.IsInterface(p.Type()) {
			writer = run.args[i]
		}
	}
	if h == nil || writer == nil {
		r.open("print", shortName(f), f.Pos(), "unexpected signature", "")
		return
	}
	var pp *printParams
	var height *Term
	eachOutcomeAll(r, run, "print", func(j *judge, o *Outcome) {
		if o.panics {
			j.bad("printing panics (%s)", o.pval)
			return
		}
		var calls []*Event
		for _, e := range o.st.log.list() {
			switch e.kind {
			case "call":
				calls = append(calls, e)
			case "loop", "print", "extern":
				j.open("more than a call of the function which prints a page")
				return
			}
		}
		if len(calls) == 0 && o.ret[0] == tNil {
			j.bad("returns no error without having printed anything")
			return
		}
		if len(calls) != 1 || callTarget(calls[0]) == nil {
			j.open("the function which prints a page is not recognised")
			return
		}
		c := calls[0]
		t := callTarget(c)
		p := &printParams{fn: t, writer: -1, addr: -1, entry: map[int]*Term{}, steps: map[int][]int64{}}
		root := h.init(o.st, F.root)
		for i, a := range c.args {
			switch {
			case a == writer:
				p.writer = i
			case a == root:
				p.addr = i
			default:
				p.entry[i] = a
			}
		}
		if p.addr < 0 {
			for i, q := range t.Params {
				if isInt64(q.Type()) {
					j.bad("printing starts at %s instead of the root", c.args[i])
					return
				}
			}
		}
		if p.writer < 0 || p.addr < 0 || len(c.args) != len(t.Params) {
			j.open("the writer or the root is not passed on")
			return
		}
		if x := callError(o.st, c, o.ret[0], nil); x == nil || o.ret[0] != x {
			if x == nil || !(o.st.decide(eqTerm(tNil, x)) == 1 && o.ret[0] == tNil) {
				j.bad("returns %s instead of what printing the root returned", o.ret[0])
				return
			}
		}
		pp, height = p, h.init(o.st, F.height)
	})
	if pp == nil {
		return
	}
	run2 := P.analyse(cfgPrint(P, pp.fn), pp.fn, nil)
	if !r.usable(run2) {
		return
	}
	h2 := handleOf(run2, "BPTree")
	if h2 == nil {
		r.open("print", shortName(pp.fn), pp.fn.Pos(), "the tree is not passed on", "")
		return
	}
	// how the parameters change on the way down
	for _, o := range run2.outs {
		P.printCalls(o.st.log.list(), nil, pp, func(e *Event) {
			for i, a := range e.args {
				if pp.entry[i] == nil || i >= len(run2.args) || !isIntType(pp.fn.Params[i].Type()) {
					continue
				}
				d := sub(a, run2.args[i])
				if d.op == OConst {
					pp.steps[i] = append(pp.steps[i], d.i)
				}
			}
		})
	}
	eachOutcomeAll(r, run2, "print", func(j *judge, o *Outcome) { P.printOutcome(j, o, run2, h2, F, pp, height) })
	r.need("print", 5)
}

func (P *Program) printCalls(es []*Event, in *LoopSum, pp *printParams, f func(e *Event)) {
	for _, e := range es {
		if e.kind == "call" && callTarget(e) == pp.fn {
			f(e)
		}
		if e.loop != nil {
			for _, it := range e.loop.iters {
				P.printCalls(P.ownEvents(e.loop, it), e.loop, pp, f)
			}
		}
	}
}

func (P *Program) printOutcome(j *judge, o *Outcome, run *Run, h *handle, F btFields, pp *printParams, rootHeight *Term) {
	if o.panics {
		j.bad("printing panics (%s)", o.pval)
		return
	}
	st := o.st
	height := h.init(st, F.height)
	addr, writer := run.args[pp.addr], run.args[pp.writer]
	pg := pageBase(addr)
	n := countOf(pg)
	// leaf or not
	leaf := 0
	depth, step := -1, int64(0)
	for i := range run.args {
		for _, s := range pp.steps[i] {
			if s != 1 && s != -1 || leaf != 0 {
				continue
			}
			e := subst(pp.entry[i], rootHeight, height)
			if d := st.decide(eqInt(run.args[i], add(e, mulc(addc(height, -1), s)))); d != 0 {
				leaf, depth, step = d, i, s
			}
		}
	}
	if leaf == 0 {
		if len(st.log.list()) == 0 && o.ret[0] == tNil {
			j.bad("returns no error without having printed anything")
			return
		}
		j.open("it is not recognised what tells leaves from inner pages")
		return
	}
	clean := true
	failed := false
	bad := func(f string, a ...interface{}) {
		failed = true
		if clean {
			j.bad(f, a...)
		} else {
			j.open(f, a...)
		}
	}
	total := mulc(n, 2)
	if leaf == -1 {
		total = addc(total, -1)
	}
	// the parts an event writes
	pageEntry := func(t *Term) (string, *Term) {
		if t.op == OApp && t.s == "raw" && t.args[0].op == OApp && (t.args[0].s == "key" || t.args[0].s == "val") && t.args[0].args[0] == pg {
			return t.args[0].s, t.args[0].args[1]
		}
		return "", nil
	}
	number := func(kind string, i *Term) *Term {
		switch {
		case leaf == 1 && kind == "key":
			return mulc(i, 2)
		case leaf == 1 && kind == "val":
			return addc(mulc(i, 2), 1)
		case leaf == -1 && kind == "key":
			return addc(mulc(i, 2), -1)
		case leaf == -1 && kind == "sub":
			return mulc(i, 2)
		}
		return nil
	}
	type part struct {
		what string
		at   *Term
	}
	parts := func(q *State, e *Event) (ps []part, ok bool) {
		switch e.kind {
		case "print":
			if len(e.args) == 0 || e.args[0] != writer {
				clean = false
				return nil, false
			}
			for k, a := range e.args[1:] {
				kind, i := pageEntry(a)
				if kind == "" {
					if contains(a.String(), "raw(") {
						clean = false
					}
					continue
				}
				if k > 0 && e.args[1].op == OStr && strings.HasSuffix(e.name, "printf") && !printsArg(e.args[1].s, k-1) {
					bad("the %s is not printed by the format %q", map[string]string{"key": "key", "val": "value"}[kind], e.args[1].s)
					return nil, false
				}
				if at := number(kind, i); at != nil {
					ps = append(ps, part{kind, at})
				} else {
					bad("prints the %s of a child", kind)
					return nil, false
				}
			}
			return ps, true
		case "call":
			if callTarget(e) != pp.fn {
				clean = false
				return nil, true
			}
			if e.args[pp.writer] != writer {
				bad("passes on another writer")
				return nil, false
			}
			if sub(e.args[depth], run.args[depth]) != mkInt(step) {
				bad("passes on the depth %s", e.args[depth])
				return nil, false
			}
			a := e.args[pp.addr]
			if a.op == OApp && a.s == "val" && a.args[0] == pg && leaf == -1 {
				return []part{{"sub", number("sub", a.args[1])}}, true
			}
			bad("goes on to the page %s", a)
			return nil, false
		case "extern", "alloc", "free":
			clean = false
		}
		return nil, true
	}
	last := map[*Term]*Term{}
	// errors: a failed write ends the printing and is returned
	errorOf := func(q *State, e *Event) *Term {
		switch {
		case e.kind == "print":
			return substAll(e.res, last)
		case e.kind == "call" && callTarget(e) == pp.fn:
			return callError(q, e, o.ret[0], last)
		}
		return nil
	}
	pos := tZero
	name := func(w string) string {
		return map[string]string{"key": "key", "val": "value", "sub": "child"}[w]
	}
	list := st.log.list()
	for i, e := range list {
		if failed {
			return
		}
		if e.loop != nil {
			ls := e.loop
			type round struct {
				q    *State
				mine []part
			}
			var rounds []round
			for _, it := range ls.iters {
				if it.st == nil || it.st.dead {
					continue
				}
				q := iterState(ls, it)
				if contradictory(q) {
					continue
				}
				var mine []part
				for _, ev := range P.ownEvents(ls, it) {
					if ev.loop != nil {
						j.open("loops within loops")
						return
					}
					ps, ok := parts(q, ev)
					if !ok {
						if !failed {
							j.open("a write of the loop is not recognised")
						}
						return
					}
					mine = append(mine, ps...)
					if x := errorOf(q, ev); x != nil && q.decide(eqTerm(tNil, x)) != 1 {
						bad("goes on after a write which may have failed")
						return
					}
				}
				if len(mine) > 0 {
					for k, p := range mine {
						if sameInt(q, p.at, addc(mine[0].at, int64(k))) != 1 {
							bad("prints the %s at the wrong place (part %s instead of %s)", name(p.what), p.at, addc(mine[0].at, int64(k)))
							return
						}
					}
				}
				rounds = append(rounds, round{q, mine})
			}
			// where round k starts: an expression in k, for all rounds but perhaps the first
			isFirst := eqInt(ls.k, tZero)
			var start *Term
			writes := false
			for _, x := range rounds {
				if len(x.mine) > 0 {
					writes = true
					if start == nil || x.q.decide(isFirst) == -1 {
						start = x.mine[0].at
					}
				}
			}
			if !writes {
				continue
			}
			at := func(k *Term) *Term { return subst(start, ls.k, k) }
			for _, x := range rounds {
				if len(x.mine) == 0 {
					bad("some rounds of the loop print nothing")
					return
				}
				p := x.mine[0]
				if d := x.q.decide(isFirst); d != 1 && sameInt(x.q, p.at, start) != 1 || d != -1 && sameInt(withFact(x.q, isFirst), p.at, pos) != 1 {
					want := start
					if d == 1 {
						want = pos
					}
					bad("prints the %s at the wrong place (part %s instead of %s of the page)", name(p.what), p.at, want)
					return
				}
				if w := int64(len(x.mine)); sameInt(x.q, addc(p.at, w), at(addc(ls.k, 1))) != 1 {
					bad("prints the parts from %s to %s of the page, and those from %s in the next round", p.at, addc(p.at, w-1), at(addc(ls.k, 1)))
					return
				}
			}
			k := P.lastRound(st, ls, list[i+1:])
			last[ls.k] = k
			switch d := st.decide(eqInt(k, tZero)); {
			case d == -1 || sameInt(st, at(tZero), pos) == 1:
				pos = at(k)
			case d == 1:
			default:
				j.open("a loop which may end before its first round")
				return
			}
			continue
		}
		ps, ok := parts(st, e)
		if !ok {
			if !failed {
				j.open("a write is not recognised")
			}
			return
		}
		for _, p := range ps {
			p.at = substAll(p.at, last)
			if sameInt(st, p.at, pos) != 1 {
				bad("prints the %s at the wrong place (part %s instead of %s of the page)", name(p.what), p.at, pos)
				return
			}
			pos = addc(pos, 1)
		}
		if x := errorOf(st, e); x != nil {
			d := st.decide(eqTerm(tNil, x))
			final := true
			for _, e2 := range list[i+1:] {
				if e2.kind == "print" || e2.kind == "call" || e2.loop != nil {
					final = false
				}
			}
			switch {
			case d == 1:
			case !final:
				bad("goes on after a write which may have failed")
				return
			case o.ret[0] != x:
				bad("returns %s after a write which may have failed", o.ret[0])
				return
			}
		}
	}
	// no error: everything is written
	ret := o.ret[0]
	if st.decide(eqTerm(tNil, ret)) != -1 {
		if sameInt(st, pos, total) != 1 && !(holds(st, le(total, pos)) && holds(st, le(pos, total))) {
			bad("returns no error although only %s of %s parts of the page are written", pos, total)
		}
	} else {
		known := false
		for _, e := range list {
			if x := errorOf(st, e); x != nil && (x == ret || st.decide(eqTerm(x, ret)) == 1) {
				known = true
			}
		}
		if !known {
			bad("returns %s which is not the error of a write", ret)
		}
	}
}

func substAll(t *Term, m map[*Term]*Term) *Term {
	for _, k := range sortedTermKeys(m) {
		t = subst(t, k, m[k])
	}
	return t
}

func withFact(q *State, f *Term) *State {
	q = q.clone()
	q.assume(f)
	return q
}

// lastRound: the number of rounds of the loop before the path left it; then are the events which followed.
func (P *Program) lastRound(st *State, ls *LoopSum, then []*Event) *Term {
	for _, f := range st.facts {
		if f.contains(ls.k) {
			return ls.k
		}
	}
	var v *Term
	best := -1
	for _, e := range ls.exitsAt {
		own := P.ownEvents(ls, e)
		if e.settled == nil || len(own) < best || len(own) > len(then) {
			continue
		}
		same := true
		for i, x := range own {
			same = same && x.kind == then[i].kind && x.pos == then[i].pos
		}
		switch {
		case !same:
		case len(own) > best:
			v, best = e.settled, len(own)
		case v != e.settled:
			v = nil
		}
	}
	if v == nil {
		return ls.k
	}
	return v
}

// printsArg: the k-th argument of the format is written out.
func printsArg(format string, k int) bool {
	rs := []rune(format)
	n := 0
	for i := 0; i < len(rs); i++ {
		if rs[i] != '%' {
			continue
		}
		i++
		for i < len(rs) && strings.ContainsRune("+-# 0123456789", rs[i]) {
			i++
		}
		if i >= len(rs) {
			return false
		}
		if rs[i] == '%' {
			continue
		}
		if strings.ContainsRune(".*[", rs[i]) {
			return true // not looked into
		}
		if n == k {
			return strings.ContainsRune("vqsxX", rs[i])
		}
		n++
	}
	return true // surplus arguments are written too
}

// ruleFlush: what a buffered writer holds back is written before printing succeeds, and the error
// of doing so is not dropped.
func ruleFlush(P *Program, r *Report) {
	var roots []*ssa.Function
	for _, f := range P.Funcs {
		if f.Object() != nil && f.Object().Exported() && strings.Contains(f.Name(), "rint") && f.Pkg.Pkg.Path() != pkgProto && f.Synthetic == "" {
			roots = append(roots, f)
		}
	}
	for f := range P.reach(roots...) {
		if f.Pkg == nil || f.Pkg.Pkg.Path() == pkgProto {
			continue
		}
		var made, flushed ssa.Instruction
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				c, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				g := c.Common().StaticCallee()
				if g == nil {
					continue
				}
				switch nm := g.String(); {
				case strings.HasPrefix(nm, "bufio.NewWriter"):
					made = in
				case nm == "(*bufio.Writer).Flush":
					flushed = in
					v := c.Value()
					if v == nil || v.Referrers() == nil || len(*v.Referrers()) == 0 {
						r.bad("flush", shortName(f), in.Pos(), "the error of writing what was buffered is dropped", "")
					} else {
						r.ok("flush", shortName(f))
					}
				}
			}
		}
		for g := range P.reach(f) {
			for _, b := range g.Blocks {
				for _, in := range b.Instrs {
					if c, ok := in.(ssa.CallInstruction); ok && c.Common().StaticCallee() != nil && c.Common().StaticCallee().String() == "(*bufio.Writer).Flush" {
						flushed = in
					}
				}
			}
		}
		if made != nil && flushed == nil {
			given := false // handed on to whoever flushes it
			for _, p := range f.Blocks {
				for _, in := range p.Instrs {
					if rt, ok := in.(*ssa.Return); ok {
						for _, v := range rt.Results {
							given = given || v == made.(ssa.Value)
						}
					}
				}
			}
			if !given {
				r.bad("flush", shortName(f), made.Pos(), "what is buffered is never written", "")
			}
		}
	}
}

func init() {
	register("C23", "Recursion analysis of printing: which parts of a page every path writes, in which order, and what becomes of errors.",
		compose(rulePrint, ruleFlush))
}
