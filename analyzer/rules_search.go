package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- search within a page (C16) ----

// cfgSearch: like cfgAPI, but the searches of the pages themselves are analysed.
func cfgSearch(P *Program) *Config {
	if P.cfgs["search"] == nil {
		m := map[string]Prim{}
		for k, p := range prims(P) {
			if !strings.HasSuffix(k, ".LocateRecord") && !strings.HasSuffix(k, ".LocateChild") {
				m[k] = p
			}
		}
		P.setCfg(&Config{Name: "search", Prims: m, PageObj: true, NoMerge: true,
			Boundary: func(f *ssa.Function) bool { return P.cyclic(f) }})
	}
	return P.cfgs["search"]
}

// sortedKeysOf: what is known about the order of a key and the keys of a page.
type pageOrder struct {
	base  *Term // the page's elements
	n     *Term
	key   *Term // content of the key looked for
	first *Term // elements before it sort below everything
}

const (
	rLT = iota
	rLE
	rEQ
	rGE
	rGT
)

func (o *pageOrder) cmp(i *Term) *Term { return mkCmp(keyOf(o.base, i), o.key) }

func (o *pageOrder) rel(i *Term, r int) *Term {
	c := o.cmp(i)
	switch r {
	case rLT:
		return lt(c, tZero)
	case rLE:
		return le(c, tZero)
	case rEQ:
		return eqInt(c, tZero)
	case rGE:
		return le(tZero, c)
	}
	return lt(tZero, c)
}

type signAt struct {
	i                  *Term
	lt, le, ge, gt, ne bool
}

func (o *pageOrder) known(q *State) []signAt {
	seen := map[*Term]bool{}
	var rs []signAt
	for _, f := range q.facts {
		f.walk(func(t *Term) bool {
			if t.op == OApp && t.s == "cmp" && !seen[t] {
				seen[t] = true
				for n := range t.args {
					k, other := t.args[n], t.args[1-n]
					if other != o.key || k.op != OApp || k.s != "key" || k.args[0] != o.base {
						continue
					}
					i := k.args[1]
					s := signAt{i: i, lt: holds(q, o.rel(i, rLT)), gt: holds(q, o.rel(i, rGT))}
					s.le = s.lt || holds(q, o.rel(i, rLE))
					s.ge = s.gt || holds(q, o.rel(i, rGE))
					s.ne = s.lt || s.gt || q.decide(o.rel(i, rEQ)) == -1
					if s.le || s.ge || s.ne {
						rs = append(rs, s)
					}
				}
			}
			return true
		})
	}
	return rs
}

// impossible: what is known contradicts the order of the page.
func (o *pageOrder) impossible(q *State, ks []signAt) bool {
	if q.dead {
		return true
	}
	for _, a := range ks {
		if a.gt && a.le || a.lt && a.ge {
			return true
		}
		if a.le && holds(q, le(o.n, a.i)) || a.ge && holds(q, lt(a.i, o.first)) {
			return true
		}
		for _, b := range ks {
			if a.ne && b.le && b.ge && sameInt(q, a.i, b.i) == 1 {
				return true
			}
			if a.gt && b.le || a.ge && b.lt {
				if holds(q, le(a.i, b.i)) {
					return true
				}
			} else if a.ge && b.le && holds(q, lt(a.i, b.i)) {
				return true
			}
		}
	}
	return false
}

// is: the element at i is related to the key in this way (positions before the first
// element sort below, those after the last above everything).
func (o *pageOrder) is(q *State, ks []signAt, i *Term, r int) bool {
	if o.impossible(q, ks) {
		return true
	}
	switch r {
	case rLT, rLE:
		if holds(q, lt(i, o.first)) {
			return true
		}
		for _, a := range ks {
			if a.le && (holds(q, lt(i, a.i)) || (a.lt || r == rLE) && holds(q, le(i, a.i))) {
				return true
			}
		}
		if r == rLT && o.differs(q, ks, i) {
			return o.is(q, ks, i, rLE)
		}
	case rGE, rGT:
		if holds(q, le(o.n, i)) {
			return true
		}
		for _, a := range ks {
			if a.ge && (holds(q, lt(a.i, i)) || (a.gt || r == rGE) && holds(q, le(a.i, i))) {
				return true
			}
		}
		if r == rGT && o.differs(q, ks, i) {
			return o.is(q, ks, i, rGE)
		}
	case rEQ:
		for _, a := range ks {
			if a.le && a.ge && sameInt(q, a.i, i) == 1 {
				return true
			}
		}
		return o.is(q, ks, i, rLE) && o.is(q, ks, i, rGE)
	}
	return false
}

func (o *pageOrder) differs(q *State, ks []signAt, i *Term) bool {
	for _, a := range ks {
		if a.ne && sameInt(q, a.i, i) == 1 {
			return true
		}
	}
	return false
}

// orderInv: at the start of every iteration the expression has its initial value or
// the element so far from it is related to the key in these ways.
type orderInv struct {
	ls    *LoopSum
	entry *Term
	start *Term
	next  []*Term // by iteration
	rels  map[[2]int]bool
}

func intPhis(ls *LoopSum) (names []string, clean bool) {
	clean = true
	for _, in := range ls.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		n := p.Comment
		if _, ok := ls.start[n]; !ok {
			n = p.Name()
		}
		if _, ok := ls.start[n]; !ok || !isIntType(p.Type()) {
			clean = false
			continue
		}
		names = append(names, n)
	}
	if len(names) != len(ls.start) {
		clean = false
	}
	return names, clean
}

func hasCmp(t *Term) bool {
	f := false
	t.walk(func(x *Term) bool {
		f = f || x.op == OApp && x.s == "cmp"
		return !f
	})
	return f
}

// orderInvs infers and proves the invariants of a loop.
func (o *pageOrder) orderInvs(ls *LoopSum) (invs []*orderInv, clean bool) {
	names, clean := intPhis(ls)
	addInv := func(get func(m map[string]*Term) *Term) {
		v := &orderInv{ls: ls, entry: get(ls.entry), start: get(ls.start), rels: map[[2]int]bool{}}
		if v.entry == nil || v.start == nil {
			clean = false
			return
		}
		for _, it := range ls.iters {
			n := get(it.next)
			if n == nil || hasCmp(n) {
				clean = false
				return
			}
			v.next = append(v.next, n)
		}
		for d := -1; d <= 1; d++ {
			for r := rLT; r <= rGT; r++ {
				v.rels[[2]int{d, r}] = true
			}
		}
		invs = append(invs, v)
	}
	for _, n := range names {
		n := n
		addInv(func(m map[string]*Term) *Term { return m[n] })
	}
	if len(names) == 2 {
		addInv(func(m map[string]*Term) *Term {
			if a, b := m[names[0]], m[names[1]]; a != nil && b != nil {
				return add(a, b)
			}
			return nil
		})
	}
	for ch := true; ch; {
		ch = false
		for n, it := range ls.iters {
			q0 := iterState(ls, it)
			o.cases(q0, invs, func(v *orderInv) *Term { return v.start }, func(q *State) {
				for _, v := range invs {
					if len(v.rels) == 0 {
						continue
					}
					q2 := q.clone()
					q2.assume(not(eqInt(v.next[n], v.entry)))
					ks := o.known(q2)
					if o.impossible(q2, ks) {
						continue
					}
					for dr := range v.rels {
						if !o.is(q2, ks, addc(v.next[n], int64(dr[0])), dr[1]) {
							delete(v.rels, dr)
							ch = true
						}
					}
				}
			})
		}
	}
	return invs, clean
}

// cases splits a state by which expressions still have their initial values.
func (o *pageOrder) cases(q *State, invs []*orderInv, at func(v *orderInv) *Term, f func(q *State)) {
	if q.dead {
		return
	}
	if len(invs) == 0 {
		if !o.impossible(q, o.known(q)) {
			f(q)
		}
		return
	}
	v := invs[0]
	if len(v.rels) == 0 || at(v) == nil {
		o.cases(q, invs[1:], at, f)
		return
	}
	a := q.clone()
	a.assume(eqInt(at(v), v.entry))
	if !a.dead {
		o.cases(a, invs[1:], at, f)
	}
	b := q.clone()
	b.assume(not(eqInt(at(v), v.entry)))
	if b.dead {
		return
	}
	for d := -1; d <= 1; d++ {
		for r := rLT; r <= rGT; r++ {
			if v.rels[[2]int{d, r}] {
				b.assume(o.rel(addc(at(v), int64(d)), r))
			}
		}
	}
	if !b.dead {
		o.cases(b, invs[1:], at, f)
	}
}

// ends: the loop runs a bounded number of times.
func loopEnds(ls *LoopSum) bool {
	names, _ := intPhis(ls)
	var ms []func(m map[string]*Term) *Term
	for _, a := range names {
		a := a
		ms = append(ms, func(m map[string]*Term) *Term { return m[a] }, func(m map[string]*Term) *Term { return mulc(m[a], -1) })
		for _, b := range names {
			if b := b; b != a {
				ms = append(ms, func(m map[string]*Term) *Term { return sub(m[a], m[b]) })
			}
		}
	}
	for _, m := range ms {
		ok := true
		for _, it := range ls.iters {
			q := iterState(ls, it)
			s := m(ls.start)
			ok = ok && holds(q, lt(m(it.next), s))
		}
		if ok {
			return true
		}
	}
	return len(ls.iters) == 0
}

// sentinelTest: the condition on which a function treats a key as the special one.
func sentinelTest(run *Run, key *Term, name string) (test *Term, other string) {
	for _, o := range run.outs {
		for _, f := range o.st.facts {
			t := f
			if t.op == ONot {
				t = t.args[0]
			}
			m := false
			t.walk(func(x *Term) bool {
				m = m || x.op == OLoad && x.obj != nil && x.obj.kind == ObjGlobal && x.obj.name == name
				return !m
			})
			if !m {
				continue
			}
			if t.op == OEQ && t.args[0].op == OAddr && t.args[1].op == OAddr && (t.args[0].args[0] == key || t.args[1].args[0] == key) {
				test = t
			} else {
				other = t.String()
				if hasCmp(t) || strings.Contains(other, "bytes("+name+")") {
					return nil, "content:" + other
				}
			}
		}
	}
	return
}

func (P *Program) ruleSearch(r *Report, typ, name string, first int64) {
	f := P.method(pkgBPTree, typ, name)
	if f == nil {
		r.open("search", typ+"."+name, 0, "not found", "")
		return
	}
	var n *Term
	var base *Term
	run := P.analyse(cfgSearch(P), f, func(st *State, args []*Term) {
		if o := pageObjOf(args[0]); o != nil {
			q := initialSeq(o.addr)
			base, n = q.args[0].args[0], seqLen(q)
			st.assume(le(mkInt(first+1), n)) // pages are not searched when they are empty (C06); inner pages have two children (C12)
		}
	})
	if !r.usable(run) {
		return
	}
	if n == nil { // memoised
		q := initialSeq(pageObjOf(run.args[0]).addr)
		base, n = q.args[0].args[0], seqLen(q)
	}
	bi := firstBytes(f)
	if bi < 0 || f.Signature.Results().Len() != 2 {
		r.open("search", shortName(f), f.Pos(), "unexpected signature", "")
		return
	}
	var tests [2]*Term
	for i, g := range []string{"MinKey", "MaxKey"} {
		t, other := sentinelTest(run, run.args[bi], g)
		switch {
		case strings.HasPrefix(other, "content:"):
			r.bad("sentinel", shortName(f), f.Pos(), "a key is taken for "+g+" by its content ("+other[8:]+")", "")
			return
		case t == nil && other == "":
			r.bad("sentinel", shortName(f), f.Pos(), "does not distinguish "+g+" from other keys", "")
			return
		case t == nil || other != "":
			r.open("sentinel", shortName(f), f.Pos(), "does not recognise how "+g+" is told from other keys", other)
			return
		}
		tests[i] = t
	}
	invs := map[*LoopSum][]*orderInv{}
	eachOutcomeAll(r, run, "search", func(j *judge, o *Outcome) {
		ord := &pageOrder{base: base, n: n, key: contentTerm(o.st, run.args[bi]), first: mkInt(first)}
		for i, want := range []*Term{tZero, addc(n, -1)} {
			switch d := o.st.decide(tests[i]); {
			case d == -1:
			case d == 0:
				j.bad("may treat %s as an ordinary key", []string{"MinKey", "MaxKey"}[i])
				return
			default:
				if o.panics {
					j.bad("panics for %s", []string{"MinKey", "MaxKey"}[i])
				} else if sameInt(o.st, o.ret[0], want) != 1 || o.st.decide(o.ret[1]) != 1 {
					j.bad("%s designates %s (%s) instead of %s (true)", []string{"MinKey", "MaxKey"}[i], o.ret[0], o.ret[1], want)
				}
				return
			}
		}
		var all []*orderInv
		clean := true
		at := map[*orderInv]*Term{}
		for _, e := range o.st.log.list() {
			if e.kind != "loop" {
				if e.kind == "call" || e.kind == "extern" {
					clean = false
				}
				continue
			}
			ls := e.loop
			is, done := invs[ls]
			if !done {
				var c bool
				is, c = ord.orderInvs(ls)
				if !c {
					is = nil
				}
				invs[ls] = is
				r.Paths += len(ls.iters)
				if c && !loopEnds(ls) {
					r.open("search", shortName(f), f.Pos(), "the search is not known to end", "")
				}
			}
			if is == nil {
				clean = false
				continue
			}
			k, ok := counterAt(o.st, ls)
			if !ok {
				clean = false
				continue
			}
			for _, v := range is {
				all = append(all, v)
				at[v] = subst(v.start, ls.k, k)
			}
		}
		fail := ""
		ord.cases(o.st.clone(), all, func(v *orderInv) *Term { return at[v] }, func(q *State) {
			if fail != "" {
				return
			}
			if o.panics {
				fail = "may panic"
				return
			}
			for _, found := range []bool{true, false} {
				q := q.clone()
				if found {
					q.assume(o.ret[1])
				} else {
					q.assume(not(o.ret[1]))
				}
				ks := ord.known(q)
				if ord.impossible(q, ks) {
					continue
				}
				i := o.ret[0]
				if found {
					if !ord.is(q, ks, i, rEQ) || !holds(q, le(tZero, i)) || !holds(q, lt(i, n)) {
						fail = "reports a key found at " + i.String() + " which is not known to be equal there"
					}
					continue
				}
				for _, c := range []struct {
					at   *Term
					r    int
					what string
				}{{addc(i, -1), rLT, "below"}, {i, rGT, "above"}} {
					if !ord.is(q, ks, c.at, c.r) {
						fail = "reports a key missing and designates " + i.String() + ", but the entry at " + c.at.String() + " is not known to sort " + c.what + " it"
					}
				}
				if !holds(q, le(ord.first, i)) || !holds(q, le(i, n)) {
					fail = "reports a key missing and designates " + i.String() + ", which may be out of range"
				}
			}
		})
		if fail != "" {
			if clean {
				j.bad("%s", fail)
			} else {
				j.open("%s", fail)
			}
		}
	})
	r.need("search", 5)
}

// counterAt: the number of the last iteration of a loop in a state after it.
func counterAt(st *State, ls *LoopSum) (*Term, bool) {
	for _, f := range st.facts {
		if f.contains(ls.k) {
			return ls.k, true
		}
	}
	var val *Term
	for _, e := range ls.exitsAt {
		if e.st == nil {
			continue
		}
		if e.settled != nil {
			if val != nil && val != e.settled {
				return nil, false
			}
			val = e.settled
		}
	}
	if val == nil {
		return ls.k, true
	}
	return val, true
}

// ruleSentinels: the sentinels are buffers of their own, the same in both packages.
func ruleSentinels(P *Program, r *Report) {
	val := map[string]ssa.Value{}
	for _, pk := range []string{pkgBPTree, modRoot} {
		pkg := P.Pkgs[pk]
		if pkg == nil {
			continue
		}
		for _, n := range []string{"MinKey", "MaxKey"} {
			g, _ := pkg.Members[n].(*ssa.Global)
			if g == nil {
				r.open("sentinel", n, 0, "not found in "+pk, "")
				continue
			}
			var sts []*ssa.Store
			for _, f := range append(append([]*ssa.Function{}, P.Funcs...), pkg.Func("init")) {
				if f == nil {
					continue
				}
				for _, b := range f.Blocks {
					for _, in := range b.Instrs {
						if st, ok := in.(*ssa.Store); ok && st.Addr == g {
							sts = append(sts, st)
						}
					}
				}
			}
			if len(sts) == 0 {
				r.bad("sentinel", n, g.Pos(), "is never given a buffer", pk)
				continue
			}
			v := sts[0].Val
			for _, st := range sts[1:] {
				if st.Val != v {
					r.open("sentinel", n, g.Pos(), "is set at several places", pk)
				}
			}
			if pk == modRoot {
				u, ok := v.(*ssa.UnOp)
				if !ok {
					r.bad("sentinel", n, g.Pos(), "is not the one of the tree", pk)
				} else if o, ok := u.X.(*ssa.Global); !ok || o.Name() != n || o.Pkg.Pkg.Path() != pkgBPTree {
					r.bad("sentinel", n, g.Pos(), "is not the one of the tree", pk)
				} else {
					r.ok("sentinel", pk+"."+n)
				}
				continue
			}
			for o, w := range val {
				if w == v {
					r.bad("sentinel", n, g.Pos(), "shares its buffer with "+o, pk)
				}
			}
			val[n] = v
			if u, ok := v.(*ssa.UnOp); ok {
				if o, ok := u.X.(*ssa.Global); ok {
					r.bad("sentinel", n, g.Pos(), "shares its buffer with "+o.Name(), pk)
					continue
				}
			}
			switch size, known := bufferSize(v); {
			case !known:
				r.open("sentinel", n, g.Pos(), "is initialised in a way that is not recognised", pk)
			case size == 0:
				r.bad("sentinel", n, g.Pos(), "has an empty buffer, which other empty keys may share", pk)
			default:
				r.ok("sentinel", pk+"."+n)
			}
		}
	}
	r.need("sentinel", 4)
}

// bufferSize: the size of a new buffer.
func bufferSize(v ssa.Value) (int64, bool) {
	switch v := v.(type) {
	case *ssa.Convert:
		if c, ok := v.X.(*ssa.Const); ok && c.Value != nil && c.Value.Kind() == constant.String {
			return int64(len(constant.StringVal(c.Value))), true
		}
	case *ssa.MakeSlice:
		if c, ok := v.Cap.(*ssa.Const); ok {
			return c.Int64(), true
		}
	case *ssa.Slice:
		if a, ok := v.X.(*ssa.Alloc); ok && a.Heap {
			if at, ok := a.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array); ok {
				return at.Len(), true
			}
		}
	}
	return 0, false
}
