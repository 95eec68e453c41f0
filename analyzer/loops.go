package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loops. A loop whose course is decided by constants is unrolled; every other loop is
// summarised: the state at the start of iteration k is expressed as a function of k
// (invariants, linear inductions, sums, element-wise writes) or, where that fails, by
// unknowns; the guess is validated by one pass over the body (it must reproduce itself),
// and inequalities are kept when they hold on entry and every iteration preserves them.

type gkind uint8

const (
	gOpq gkind = iota // unknown, a function of k
	gInv
	gAff
	gSum
)

type guess struct {
	kind   gkind
	step   *Term // gAff: constant; gSum: function of k
	sticky bool  // stays unknown
}

func (g *guess) value(entry, k, opq *Term) *Term {
	switch g.kind {
	case gInv:
		return entry
	case gAff:
		return add(entry, mul(g.step, k))
	case gSum:
		return add(entry, sumTerm(g.step, k))
	}
	return opq
}

// learn narrows the guess from the increments of the body; it reports a change.
func (g *guess) learn(deltas []*Term, k *Term) bool {
	n := guess{kind: gOpq}
	if len(deltas) > 0 {
		d := deltas[0]
		same := true
		for _, e := range deltas {
			same = same && e == d
		}
		switch {
		case !same || d == nil:
		case d == tZero:
			n.kind = gInv
		case !d.contains(k) && !hasOpq(d, k):
			n.kind, n.step = gAff, d
		default:
			n.kind, n.step = gSum, d
		}
	} else {
		n.kind = gInv
	}
	if g.sticky {
		n = guess{kind: gOpq}
	}
	if n.kind == g.kind && n.step == g.step {
		return false
	}
	if g.kind != gOpq { // a guess which failed is given up
		*g = guess{kind: gOpq, sticky: true}
		return true
	}
	*g = n
	return true
}

func hasOpq(t, k *Term) bool { return t.contains(k) }

// sumTerm is the sum over j in [0,k) of g(j); it is linear in g.
func sumTerm(g, k *Term) *Term {
	l := linOf(g)
	r := mulc(k, l.c)
	for _, a := range sortedAtoms(l) {
		c := l.m[a]
		if !a.contains(k) {
			r = add(r, mulc(mul(a, k), c))
			continue
		}
		b := boundSym(a)
		r = add(r, mulc(sumApp(subst(a, k, b), k), c))
	}
	return r
}

func sumApp(body, n *Term) *Term {
	if n == tZero {
		return tZero
	}
	return mkApp("sum", body, n)
}

// boundSym is a bound variable not used in t.
func boundSym(ts ...*Term) *Term {
	lv := 0
	for _, t := range ts {
		if t == nil {
			continue
		}
		t.walk(func(y *Term) bool {
			if y.op == OSym && strings.HasPrefix(y.s, "ι") {
				if n, err := strconv.Atoi(strings.TrimPrefix(y.s, "ι")); err == nil && n >= lv {
					lv = n + 1
				}
			}
			return true
		})
	}
	return mkSym("ι"+strconv.Itoa(lv), nil)
}

type sliceGuess struct {
	kind  int // 0 parts of one buffer, 1 accumulated by append, 2 unknown
	off   guess
	ln    guess
	quant []*Content // accumulated elements per iteration (in terms of k)
	m     int64
	obj   *Obj
}

type phiGuess struct {
	phi   *ssa.Phi
	name  string
	entry *Term
	num   guess
	sl    *sliceGuess
	live  bool // slice: valid at the head
}

type cellGuess struct {
	sels  []Sel
	entry *Term
	g     guess
	typ   types.Type
}

type objGuess struct {
	o      *Obj
	quant  []*Content // writes of one iteration in terms of k
	cells  map[string]*cellGuess
	havoc  bool
	all    bool
	pats   map[string][]Sel
	seqHav bool
}

type loopRun struct {
	x     *Interp
	fn    *ssa.Function
	L     *Loop
	p     *path
	id    string
	k     *Term
	phis  []*phiGuess
	objs  map[*Obj]*objGuess
	inval bool
	gen   bool
	cands []*Term
	sum   *LoopSum
	round int
}

func (x *Interp) runLoop(fn *ssa.Function, L *Loop, p *path) []exitEdge {
	x.loops++
	if es, ok := x.unroll(fn, L, p); ok {
		return es
	}
	return x.summarize(fn, L, p)
}

const unrollMax = 48

// unroll follows a loop whose course is decided.
func (x *Interp) unroll(fn *ssa.Function, L *Loop, p *path) ([]exitEdge, bool) {
	cur := []*path{{st: p.st.clone(), env: cloneMap(p.env), dfr: p.dfr}}
	var exits []exitEdge
	for i := 0; i < unrollMax; i++ {
		var next []*path
		for _, q := range cur {
			if x.headerForks(fn, L, q) {
				return nil, false
			}
			backs, outs := 0, 0
			for _, e := range x.runRegion(fn, L.Blocks, L.Header, L.Header, []*path{q}) {
				if e.out == nil && e.to == L.Header {
					next = append(next, e.p)
					backs++
				} else {
					exits = append(exits, e)
					if e.out == nil || !e.out.panics {
						outs++
					}
				}
			}
			if backs > 0 && outs > 0 {
				return nil, false
			}
		}
		if len(next) == 0 {
			return exits, true
		}
		if len(next) > 4 {
			return nil, false
		}
		cur = next
	}
	return nil, false
}

// headerForks tells cheaply whether the header's own condition is undecided.
func (x *Interp) headerForks(fn *ssa.Function, L *Loop, p *path) bool {
	b := L.Header
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	if L.Blocks[b.Succs[0]] && L.Blocks[b.Succs[1]] {
		return false
	}
	for _, in := range b.Instrs[:len(b.Instrs)-1] {
		switch in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.DebugRef, *ssa.FieldAddr, *ssa.Convert, *ssa.Field, *ssa.Extract:
		case *ssa.UnOp:
		default:
			if c, ok := in.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "len" {
					continue
				}
			}
			return false
		}
	}
	q := &path{st: p.st.clone(), env: cloneMap(p.env), dfr: p.dfr}
	for _, in := range b.Instrs[:len(b.Instrs)-1] {
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		es := x.exec(fn, in, q)
		if len(es) != 1 || es[0].out != nil {
			return true
		}
		q = es[0].p
	}
	return q.st.decide(x.val(q, br.Cond)) == 0
}

func (x *Interp) summarize(fn *ssa.Function, L *Loop, p *path) []exitEdge {
	id := p.st.fresh(fmt.Sprintf("%s.b%d", shortName(fn), L.Header.Index))
	k := mkApp("k$"+id, x.ks...)
	r := &loopRun{x: x, fn: fn, L: L, p: p, id: id, k: k, objs: map[*Obj]*objGuess{}}
	for _, in := range L.Header.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		g := &phiGuess{phi: ph, name: ph.Comment, entry: p.env[ph]}
		if g.name == "" {
			g.name = ph.Name()
		}
		if _, ok := ph.Type().Underlying().(*types.Slice); ok {
			o, _, _, _ := sliceParts(g.entry)
			g.sl = &sliceGuess{obj: o}
			if o == nil {
				g.sl.kind = 1
			}
		}
		r.phis = append(r.phis, g)
	}
	var backs []*path
	var exits []exitEdge
	stable := false
	for round := 0; round < 24; round++ {
		r.round = round
		head := r.head()
		if dbgLoops {
			println("loop", id, "round", round)
		}
		backs, exits = r.body(head)
		if dbgLoops {
			println("loop", id, "round", round, "backs", len(backs), "exits", len(exits), "steps", x.steps)
		}
		if dbgLoops {
			for k, n := range dbgForks {
				println(n, k)
			}
			dbgForks = map[string]int{}
		}
		if !r.update(head, backs) {
			stable = true
			break
		}
	}
	if !stable {
		panic(tooComplex{"the summary of the loop " + id + " does not settle in " + x.where()})
	}
	backs, exits = r.strengthen(backs, exits)
	return r.finish(backs, exits)
}

func (g *phiGuess) opq(r *loopRun, part string) *Term {
	t := mkApp("phi$"+r.id+":"+g.name+part, r.k)
	if t.typ == nil {
		t.typ = g.phi.Type()
	}
	return t
}

// start is the value of the phi at the start of iteration k.
func (g *phiGuess) start(r *loopRun, st *State) *Term {
	if g.sl != nil {
		switch g.sl.kind {
		case 0:
			o, off, ln, ep := sliceParts(g.entry)
			if ep == r.p.st.epoch {
				ep = st.epoch // kept when it is valid on entry; validated on the way back
			}
			return mkSlice(o, g.sl.off.value(off, r.k, g.opq(r, ".off")), g.sl.ln.value(ln, r.k, natural(g.opq(r, ".len"))), ep)
		case 1:
			o, off, ln, _ := sliceParts(g.entry)
			acc := localObj("acc:"+r.id+":"+g.name, "append", g.phi.Type(), r.x.ks)
			var c *Content
			if o != nil && ln != tZero {
				c = internC(&Content{kind: wCopy, off: tZero, ln: ln, src: o, srcC: st.cont(o), srcOff: off})
			}
			if len(g.sl.quant) > 0 {
				c = mkQuant(c, r.k, g.sl.quant)
			}
			if c != nil {
				st.mem[acc] = c
			} else {
				delete(st.mem, acc)
			}
			return intern(&Term{op: OSlice, obj: acc, args: []*Term{tZero, g.sl.ln.value(ln, r.k, natural(g.opq(r, ".len")))}})
		}
		return g.opq(r, "")
	}
	if isInteger(g.phi.Type()) {
		return g.num.value(g.entry, r.k, g.opq(r, ""))
	}
	if g.num.kind == gInv {
		return g.entry
	}
	return g.opq(r, "")
}

func natural(t *Term) *Term { natTerms[t] = true; return t }

var natTerms = map[*Term]bool{}

// mkQuant adds the writes of the iterations [0,k).
func mkQuant(parent *Content, k *Term, ws []*Content) *Content {
	b := boundOfContents(ws)
	q := make([]*Content, len(ws))
	memo := map[*Term]*Term{}
	for i, w := range ws {
		q[i] = substC(w, k, b, memo)
	}
	return internC(&Content{parent: parent, kind: wQuant, quant: q, k: b, ln: k})
}

func boundOfContents(ws []*Content) *Term {
	var ts []*Term
	for _, w := range ws {
		ts = append(ts, w.val, w.off, w.ln, w.srcOff)
		for _, s := range w.sels {
			ts = append(ts, s.Idx)
		}
		for _, q := range w.quant {
			ts = append(ts, q.val, q.off, q.ln, q.srcOff, w.k)
		}
	}
	return boundSym(ts...)
}

// head builds the state at the start of iteration k.
func (r *loopRun) head() *path {
	q := &path{st: r.p.st.clone(), env: cloneMap(r.p.env), dfr: r.p.dfr}
	st := q.st
	if r.inval {
		st.epoch++
	}
	if r.gen {
		st.gen = mkApp("gen:"+r.id, r.k)
	}
	var os []*objGuess
	for _, og := range r.objs {
		os = append(os, og)
	}
	sort.Slice(os, func(i, j int) bool { return os[i].o.id < os[j].o.id })
	for _, og := range os {
		c := st.cont(og.o)
		if og.havoc {
			var pats [][]Sel
			if !og.all {
				ks := sortedKeys(og.pats)
				for _, pk := range ks {
					pats = append(pats, og.pats[pk])
				}
			}
			tag := mkApp("loop:"+r.id, r.k)
			c = internC(&Content{parent: c, kind: wHavoc, pats: pats, tag: strconv.Itoa(tag.id), k: tag})
		}
		if len(og.quant) > 0 && !og.all {
			c = mkQuant(c, r.k, og.quant)
		}
		if c != nil {
			st.mem[og.o] = c
		}
		if !og.all {
			for _, ck := range sortedKeys(og.cells) {
				cg := og.cells[ck]
				if cg.g.kind == gInv {
					continue
				}
				opq := mkApp("cell$"+r.id+":"+og.o.String()+ck, r.k)
				standsFor[opq] = cg.entry
				v := cg.g.value(cg.entry, r.k, opq)
				st.storeCell(og.o, cg.sels, v)
			}
		}
		if og.seqHav {
			b := mkApp("page", og.o.addr, mkApp("loop:"+r.id, r.k))
			st.seq[og.o] = mkSeq([]*Term{seg(b, tZero, countOf(b))})
		}
	}
	for _, g := range r.phis {
		q.env[g.phi] = g.start(r, st)
	}
	st.addFact(le(tZero, r.k))
	for _, c := range r.cands {
		st.assume(c)
	}
	r.sum = &LoopSum{id: r.id, fn: r.fn, header: r.L.Header, k: r.k, entry: map[string]*Term{}, start: map[string]*Term{}}
	st.log = internE(&Event{parent: r.p.st.log, kind: "loop", name: r.id, loop: r.sum})
	r.sum.at = st.clone()
	return q
}

func (r *loopRun) body(head *path) (backs []*path, exits []exitEdge) {
	x := r.x
	x.ks = append(x.ks[:len(x.ks):len(x.ks)], r.k)
	defer func() { x.ks = x.ks[:len(x.ks)-1] }()
	for _, g := range r.phis {
		r.sum.start[g.name] = head.env[g.phi]
		r.sum.entry[g.name] = g.entry
	}
	q := &path{st: head.st.clone(), env: cloneMap(head.env), dfr: head.dfr}
	for _, e := range x.runRegion(r.fn, r.L.Blocks, r.L.Header, r.L.Header, []*path{q}) {
		if e.out == nil && e.to == r.L.Header {
			backs = append(backs, e.p)
		} else {
			exits = append(exits, e)
		}
	}
	return
}

// newWrites gives the writes of c which are not in base, oldest first.
func newWrites(c, base *Content) []*Content {
	in := map[*Content]bool{}
	for b := base; b != nil; b = b.parent {
		in[b] = true
	}
	var r []*Content
	for ; c != nil && !in[c]; c = c.parent {
		r = append(r, c)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func orphan(c *Content) *Content {
	n := *c
	n.parent, n.id, n.depth = nil, 0, 0
	return internC(&n)
}

// update revises the guesses from one pass; it reports whether anything changed.
var dbgForks = map[string]int{}
var dbgLoops = os.Getenv("PKV_LOOPS") != ""

func (r *loopRun) update(head *path, backs []*path) bool {
	ch := false
	for _, b := range backs {
		if b.st.epoch != head.st.epoch && !r.inval {
			r.inval, ch = true, true
		}
	}
	for _, g := range r.phis {
		if r.updatePhi(g, head, backs) {
			ch = true
			if dbgLoops {
				fmt.Printf("  [%s round %d] phi %s changed: %v %v\n", r.id, r.round, g.name, g.num, g.sl)
			}
			if r.round >= 8 { // give up
				if g.sl != nil {
					g.sl.kind = 2
				} else {
					g.num = guess{kind: gOpq, sticky: true}
				}
			}
		}
	}
	if ch && r.round < 6 {
		return true // what the places written to depend on first
	}
	// memory
	objs := map[*Obj]bool{}
	for o := range r.objs {
		objs[o] = true
	}
	genNow := false
	for _, b := range backs {
		for o := range b.st.mem {
			if b.st.mem[o] != head.st.mem[o] {
				objs[o] = true
			}
		}
		for o, s := range b.st.seq {
			if hs, ok := head.st.seq[o]; ok && hs != s {
				objs[o] = true
			} else if !ok {
				_ = hs
			}
		}
	}
	var os []*Obj
	for o := range objs {
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool { return os[i].id < os[j].id })
	accs := map[*Obj]bool{}
	for _, g := range r.phis {
		if g.sl != nil && g.sl.kind == 1 {
			accs[localObj("acc:"+r.id+":"+g.name, "append", g.phi.Type(), r.x.ks)] = true
		}
	}
	for _, o := range os {
		if accs[o] {
			continue
		}
		// objects allocated by the iteration itself are not carried, unless something refers to them
		if o.kind == ObjLocal && containsK(o, r.k) {
			continue
		}
		_, before := r.p.st.mem[o]
		if !before && o.kind == ObjLocal && r.p.st.cont(o) == nil && !r.existed(o) {
			continue
		}
		if o.kind == ObjView && !before {
			if _, ok := r.p.st.same[o.addr]; !ok && !seenView(r.p.st, o) {
				genNow = true
				continue
			}
		}
		if r.updateObj(o, head, backs) {
			ch = true
			if dbgLoops {
				fmt.Printf("  [%s round %d] obj %s changed\n", r.id, r.round, o)
			}
			if r.round >= 4 { // give up
				og := r.objs[o]
				if og == nil {
					og = &objGuess{o: o, cells: map[string]*cellGuess{}, pats: map[string][]Sel{}}
					r.objs[o] = og
				}
				og.all, og.havoc, og.quant = true, true, nil
			}
		}
	}
	if genNow && !r.gen {
		r.gen, ch = true, true
	}
	return ch
}

func seenView(s *State, o *Obj) bool {
	if o.part != nil {
		o = o.part
	}
	for _, v := range s.views {
		if viewObj(v) == o {
			return true
		}
	}
	_, ok := s.seq[o]
	return ok
}

func containsK(o *Obj, k *Term) bool {
	for _, t := range o.ks {
		if t.contains(k) {
			return true
		}
	}
	return false
}

// existed: the object was allocated before the loop (it may never have been written).
func (r *loopRun) existed(o *Obj) bool {
	for _, t := range r.p.env {
		f := false
		t.walk(func(y *Term) bool {
			if y.obj == o {
				f = true
			}
			return !f
		})
		if f {
			return true
		}
	}
	// reachable from memory
	for _, c := range r.p.st.mem {
		for d := c; d != nil; d = d.parent {
			if d.val != nil {
				f := false
				d.val.walk(func(y *Term) bool {
					if y.obj == o {
						f = true
					}
					return !f
				})
				if f {
					return true
				}
			}
		}
	}
	// objects of callers: allocated under an outer iteration or none
	return true
}

func (r *loopRun) updatePhi(g *phiGuess, head *path, backs []*path) bool {
	s := head.env[g.phi]
	if g.sl == nil {
		var ds []*Term
		for _, b := range backs {
			n := b.env[g.phi]
			if isInteger(g.phi.Type()) {
				ds = append(ds, sub(n, s))
			} else if n == s {
				ds = append(ds, tZero)
			} else {
				ds = append(ds, nil)
			}
		}
		if !isInteger(g.phi.Type()) {
			inv := true
			for _, d := range ds {
				inv = inv && d == tZero
			}
			// first guess: unchanged
			want := gOpq
			if inv {
				want = gInv
			}
			if g.num.kind == want {
				return false
			}
			if g.num.sticky {
				return false
			}
			if g.num.kind == gInv {
				g.num = guess{kind: gOpq, sticky: true}
				return true
			}
			g.num.kind = want
			return true
		}
		return g.num.learn(ds, r.k)
	}
	switch g.sl.kind {
	case 0:
		so, soff, sln, _ := sliceParts(s)
		var d1, d2 []*Term
		same := true
		appended := false
		for _, b := range backs {
			n := b.env[g.phi]
			o, off, ln, ep := sliceParts(n)
			if o != so {
				same = false
				if o != nil && o.kind == ObjLocal && strings.Contains(o.base, ".append@") {
					appended = true
				}
				continue
			}
			if o != nil && o.kind == ObjView && ep != b.st.epoch {
				same = false
			}
			d1 = append(d1, sub(off, soff))
			d2 = append(d2, sub(ln, sln))
		}
		if !same {
			if appended {
				g.sl.kind = 1
			} else {
				g.sl.kind = 2
			}
			g.sl.off, g.sl.ln = guess{}, guess{}
			return true
		}
		c1 := g.sl.off.learn(d1, r.k)
		c2 := g.sl.ln.learn(d2, r.k)
		return c1 || c2
	case 1:
		so, _, sln, _ := sliceParts(s)
		_, _, n0, _ := sliceParts(g.entry)
		var d []*Term
		var qs [][]*Content
		for _, b := range backs {
			n := b.env[g.phi]
			o, off, ln, _ := sliceParts(n)
			if o == so && off == tZero {
				d = append(d, sub(ln, sln))
				qs = append(qs, newWrites(b.st.mem[o], head.st.mem[o]))
				continue
			}
			if o == nil || off != tZero || o.kind != ObjLocal {
				g.sl.kind = 2
				return true
			}
			// a chain of appends to the accumulated slice
			ws, ok := appendChain(b.st, o, so, sln)
			if !ok {
				g.sl.kind = 2
				return true
			}
			d = append(d, sub(ln, sln))
			qs = append(qs, ws)
		}
		ch := g.sl.ln.learn(d, r.k)
		_ = n0
		same := true
		for i := range qs {
			if len(qs[i]) != len(qs[0]) {
				same = false
				break
			}
			for j := range qs[i] {
				if orphan(qs[i][j]) != orphan(qs[0][j]) {
					same = false
				}
			}
		}
		if !same || g.sl.ln.kind != gAff && g.sl.ln.kind != gInv && g.sl.ln.kind != gSum {
			if g.sl.ln.kind == gOpq && !g.sl.ln.sticky && same {
				return true
			}
			g.sl.kind = 2
			return true
		}
		var nq []*Content
		if len(qs) > 0 {
			for _, w := range qs[0] {
				nq = append(nq, orphan(w))
			}
		}
		if !sameContents(nq, g.sl.quant) {
			if g.sl.m > 3 {
				g.sl.kind = 2
				return true
			}
			g.sl.m++
			g.sl.quant = nq
			ch = true
		}
		return ch
	}
	return false
}

func sameContents(a, b []*Content) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// appendChain: o is base (of length bln) with further elements appended.
func appendChain(st *State, o, base *Obj, bln *Term) ([]*Content, bool) {
	var out []*Content
	for depth := 0; depth < 6; depth++ {
		var ws []*Content
		var first *Content
		for c := st.cont(o); c != nil; c = c.parent {
			if c.parent == nil && c.kind == wCopy && c.off == tZero && c.srcOff == tZero {
				first = c
				break
			}
			ws = append([]*Content{c}, ws...)
		}
		if first == nil {
			if bln == tZero || st.decide(eqInt(bln, tZero)) == 1 {
				return append(ws, out...), true
			}
			return nil, false
		}
		out = append(ws, out...)
		if first.src == base && (first.ln == bln) {
			return out, true
		}
		o = first.src
	}
	return nil, false
}

func (r *loopRun) updateObj(o *Obj, head *path, backs []*path) bool {
	og := r.objs[o]
	if og == nil {
		og = &objGuess{o: o, cells: map[string]*cellGuess{}, pats: map[string][]Sel{}}
	}
	ch := false
	for _, b := range backs {
		if hs, ok := head.st.seq[o]; ok && b.st.seq[o] != hs && !og.seqHav {
			og.seqHav, ch = true, true
		}
	}
	if og.all {
		r.objs[o] = og
		return ch
	}
	var qs [][]*Content
	cells := map[string][]*Term{}
	cellSels := map[string][]Sel{}
	bad := false
	for _, b := range backs {
		var q []*Content
		for _, w := range newWrites(b.st.cont(o), head.st.cont(o)) {
			switch {
			case w.kind == wCell && !selHas(w.sels, r.k):
				cellSels[selKey(w.sels)] = w.sels
			case w.kind == wHavoc:
				bad = true
				for _, p := range w.pats {
					r.addPat(og, p, &ch)
				}
				if w.pats == nil {
					if !og.all {
						og.all, og.havoc, ch = true, true, true
					}
				}
			default:
				q = append(q, orphan(w))
			}
		}
		qs = append(qs, q)
	}
	_ = bad
	for ck := range og.cells {
		cellSels[ck] = og.cells[ck].sels
	}
	for _, ck := range sortedKeys(cellSels) {
		ss := cellSels[ck]
		covered := false
		for _, pt := range og.pats {
			if rel := r.p.st.relate(pt, ss, false); rel == relSame || rel == relPrefix {
				covered = true
			}
		}
		if covered {
			if og.cells[ck] != nil {
				delete(og.cells, ck)
				ch = true
			}
			continue
		}
		cg := og.cells[ck]
		if cg == nil {
			typ := selType(o, ss)
			if typ == nil {
				r.addPat(og, ss, &ch)
				continue
			}
			cg = &cellGuess{sels: ss, typ: typ, entry: r.p.st.loadCell(o, ss, typ)}
			cg.g.kind = gInv // what this pass assumed
			og.cells[ck] = cg
			ch = true
		}
		s := head.st.loadCell(o, ss, cg.typ)
		var ds []*Term
		for _, b := range backs {
			n := b.st.loadCell(o, ss, cg.typ)
			if isInteger(cg.typ) {
				ds = append(ds, sub(n, s))
			} else if n == s {
				ds = append(ds, tZero)
			} else {
				ds = append(ds, nil)
			}
		}
		cells[ck] = ds
		if cg.g.kind == gInv {
			inv := true
			for _, d := range ds {
				inv = inv && d == tZero
			}
			if !inv {
				if isInteger(cg.typ) {
					cg.g = guess{kind: gOpq}
					if !cg.g.learn(ds, r.k) {
						_ = cg
					}
					ch = true
				} else {
					delete(og.cells, ck)
					r.addPat(og, ss, &ch)
				}
			}
			continue
		}
		if isInteger(cg.typ) {
			if cg.g.learn(ds, r.k) {
				ch = true
			}
			if cg.g.kind == gInv {
				cg.g = guess{kind: gOpq, sticky: true}
			}
		}
	}
	// element-wise writes
	same := true
	for i := range qs {
		if !sameContents(qs[i], qs[0]) {
			same = false
		}
	}
	ok := same && len(qs) > 0
	if ok {
		for _, w := range qs[0] {
			if !quantOK(w, r.k) {
				ok = false
			}
		}
	}
	any := false
	for _, q := range qs {
		any = any || len(q) > 0
	}
	switch {
	case !any && len(og.quant) == 0:
	case ok && !og.havocBytes():
		if !sameContents(og.quant, qs[0]) {
			if len(og.quant) > 0 && og.pats["tries"] != nil && len(og.pats["tries"]) > 3 {
				ok = false
			} else {
				og.quant = qs[0]
				ch = true
			}
		}
	default:
		ok = false
	}
	if any && !ok {
		og.quant = nil
		for _, q := range qs {
			for _, w := range q {
				if w.kind == wCell {
					r.addPat(og, w.sels, &ch)
				} else if !og.all {
					og.all, og.havoc, ch = true, true, true
				}
			}
		}
	}
	if len(og.cells) > 0 || len(og.quant) > 0 || og.havoc || og.seqHav {
		r.objs[o] = og
	}
	return ch
}

func (og *objGuess) havocBytes() bool { return og.havoc }

func (r *loopRun) addPat(og *objGuess, ss []Sel, ch *bool) {
	// indexes which depend on the iteration stand for every index
	var n []Sel
	for _, s := range ss {
		if s.Idx != nil && s.Idx.contains(r.k) {
			n = append(n, Sel{Field: -1, Idx: mkSym("any", nil)})
		} else {
			n = append(n, s)
		}
	}
	key := selKey(n)
	if og.pats[key] == nil {
		og.pats[key] = n
		og.havoc = true
		*ch = true
	}
}

func selHas(ss []Sel, k *Term) bool {
	for _, s := range ss {
		if s.Idx != nil && s.Idx.contains(k) {
			return true
		}
	}
	return false
}

// quantOK: the write goes to a different place in every iteration.
func quantOK(w *Content, k *Term) bool {
	switch w.kind {
	case wCell:
		if len(w.sels) == 0 || w.sels[0].Field >= 0 {
			return false
		}
		_, b, ok := affineIn(w.sels[0].Idx, k)
		return ok && b != 0
	case wInt, wCopy:
		return w.off.contains(k)
	}
	return false
}

// selType is the type of the cell at sels of o.
func selType(o *Obj, sels []Sel) types.Type {
	if o.typ == nil {
		return nil
	}
	t := o.typ
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		t = u.Elem()
	case *types.Slice:
		if len(sels) == 0 || sels[0].Field >= 0 {
			return nil
		}
		t = u.Elem()
		sels = sels[1:]
	}
	for _, s := range sels {
		switch u := t.Underlying().(type) {
		case *types.Struct:
			if s.Field < 0 || s.Field >= u.NumFields() {
				return nil
			}
			t = u.Field(s.Field).Type()
		case *types.Array:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		default:
			return nil
		}
	}
	return t
}

// strengthen finds inequalities which hold at the start of every iteration.
func (r *loopRun) strengthen(backs []*path, exits []exitEdge) ([]*path, []exitEdge) {
	if len(backs) == 0 {
		return backs, exits
	}
	k := r.k
	var vars []*Term // unknown integers at the head
	entry := map[*Term]*Term{}
	next := func(b *path, v *Term) *Term { return nil }
	_ = next
	type src struct {
		g    *phiGuess
		part int
	}
	from := map[*Term]src{}
	for _, g := range r.phis {
		if g.sl != nil {
			if g.sl.kind == 0 {
				_, off, ln, _ := sliceParts(g.entry)
				if g.sl.off.kind == gOpq {
					v := g.opq(r, ".off")
					vars, entry[v], from[v] = append(vars, v), off, src{g, 1}
				}
				if g.sl.ln.kind == gOpq {
					v := g.opq(r, ".len")
					vars, entry[v], from[v] = append(vars, v), ln, src{g, 2}
				}
			}
			continue
		}
		if isInteger(g.phi.Type()) && g.num.kind == gOpq {
			v := g.opq(r, "")
			vars, entry[v], from[v] = append(vars, v), g.entry, src{g, 0}
		}
	}
	nextOf := func(b *path, v *Term) *Term {
		s := from[v]
		n := b.env[s.g.phi]
		if s.part == 0 {
			return n
		}
		_, off, ln, _ := sliceParts(n)
		if s.part == 1 {
			return off
		}
		return ln
	}
	var cands []*Term
	addc0 := func(t *Term) {
		if t.op == OBool {
			return
		}
		cands = append(cands, t)
	}
	for i, v := range vars {
		e := entry[v]
		addc0(le(e, v))
		addc0(le(v, e))
		addc0(le(tZero, v))
		addc0(le(sub(v, e), k))
		addc0(le(sub(e, v), k))
		for j, w := range vars {
			if i == j {
				continue
			}
			addc0(le(v, w))
			addc0(le(v, addc(w, 1)))
			addc0(le(v, entry[w]))
			addc0(le(entry[w], v))
			if i < j {
				addc0(eq0(sub(add(v, w), add(e, entry[w]))))
				addc0(eq0(sub(sub(v, w), sub(e, entry[w]))))
			}
		}
	}
	// the condition to stay held one iteration earlier
	var bounds []*Term
	for _, b := range backs {
		for _, f := range b.st.facts {
			if f.op == OLE0 && f.contains(k) && !containsAny(f, vars) && !r.p.st.fset[f] {
				bounds = append(bounds, f)
			}
			if f.op == OLE0 && containsAny(f, vars) && !f.args[0].contains2(k, vars) {
				addc0(f)
				addc0(le0(addc(f.args[0], -1)))
			}
		}
	}
	seenB := map[*Term]bool{}
	for _, f := range bounds {
		if seenB[f] {
			continue
		}
		seenB[f] = true
		if r.p.st.decide(subst(f, k, mkInt(-1))) != 1 {
			continue
		}
		all := true
		for _, b := range backs {
			if !b.st.fset[f] && b.st.decide(f) != 1 {
				all = false
				break
			}
		}
		if !all {
			continue
		}
		at := subst(f, k, addc(k, -1))
		if at.op == OBool {
			continue
		}
		r.cands = append(r.cands, at)
	}
	// keep the candidates which hold on entry
	var keep []*Term
	seen := map[*Term]bool{}
	for _, c := range cands {
		if seen[c] {
			continue
		}
		seen[c] = true
		memo := map[*Term]*Term{k: tZero}
		for _, v := range vars {
			memo[v] = entry[v]
		}
		if r.p.st.decide(substM(c, tNone, tNone, memo)) == 1 {
			keep = append(keep, c)
		}
	}
	fixed := r.cands
	for round := 0; round < 10; round++ {
		r.cands = append(append([]*Term{}, fixed...), keep...)
		head := r.head()
		backs, exits = r.body(head)
		var ok []*Term
		for _, c := range keep {
			good := true
			for _, b := range backs {
				memo := map[*Term]*Term{k: addc(k, 1)}
				for _, v := range vars {
					memo[v] = nextOf(b, v)
				}
				if b.st.decide(substM(c, tNone, tNone, memo)) != 1 {
					good = false
					break
				}
			}
			if good {
				ok = append(ok, c)
			}
		}
		if len(ok) == len(keep) {
			break
		}
		keep = ok
	}
	return backs, exits
}

func containsAny(t *Term, vs []*Term) bool {
	for _, v := range vs {
		if t.contains(v) {
			return true
		}
	}
	return false
}

// contains2: t mentions k outside of the given unknowns.
func (t *Term) contains2(k *Term, vs []*Term) bool {
	memo := map[*Term]*Term{}
	for _, v := range vs {
		memo[v] = tZero
	}
	return substM(t, tNone, tNone, memo).contains(k)
}

// finish fills the summary and settles the number of iterations where it is known.
func (r *loopRun) finish(backs []*path, exits []exitEdge) []exitEdge {
	s := r.sum
	s.inval = r.inval
	names := func(p *path) map[string]*Term {
		m := map[string]*Term{}
		for _, g := range r.phis {
			m[g.name] = p.env[g.phi]
		}
		return m
	}
	for _, b := range backs {
		s.iters = append(s.iters, &IterSum{facts: b.st.facts, log: b.st.log, next: names(b), st: b.st, env: b.env})
	}
	// templates of objects allocated in an iteration
	tm := map[string]tmpl{}
	for _, b := range backs {
		for _, o := range sortedObjs(b.st.mem) {
			c := b.st.mem[o]
			if o.kind == ObjLocal && containsK(o, r.k) && c != nil {
				if old, ok := tm[o.base]; ok && old.c != c {
					tm[o.base] = tmpl{o, internC(&Content{kind: wHavoc, tag: "conflict:" + o.base})}
				} else {
					tm[o.base] = tmpl{o, c}
				}
			}
		}
	}
	for i := range exits {
		e := &exits[i]
		st := (*State)(nil)
		if e.out != nil {
			st = e.out.st
		} else {
			st = e.p.st
		}
		s.exitsAt = append(s.exitsAt, &IterSum{facts: st.facts, log: st.log, st: st})
		for n, t := range tm {
			st.tmpl[n] = t
		}
		s.exitsAt[len(s.exitsAt)-1].settled = r.settle(e, st)
	}
	return exits
}

// settle replaces the iteration counter by its value when the exit condition fixes it.
func (r *loopRun) settle(e *exitEdge, st *State) *Term {
	var val *Term
	for _, f := range st.facts {
		if f.op != OLE0 {
			continue
		}
		l := linOf(f.args[0])
		if l.m[r.k] != -1 {
			continue
		}
		t := add(f.args[0], r.k) // t <= k
		if t.contains(r.k) {
			continue
		}
		if st.decide(le(r.k, t)) == 1 {
			val = t
			break
		}
	}
	if val == nil {
		return nil
	}
	memo := map[*Term]*Term{}
	sub1 := func(t *Term) *Term { return substM(t, r.k, val, memo) }
	if e.out != nil {
		for i, t := range e.out.ret {
			e.out.ret[i] = sub1(t)
		}
		if e.out.pval != nil {
			e.out.pval = sub1(e.out.pval)
		}
	} else {
		for _, v := range sortedVals(e.p.env) {
			e.p.env[v] = sub1(e.p.env[v])
		}
	}
	for _, o := range sortedObjs(st.mem) {
		st.mem[o] = substC(st.mem[o], r.k, val, memo)
	}
	for _, o := range sortedObjsT(st.seq) {
		st.seq[o] = sub1(st.seq[o])
	}
	if st.gen != nil {
		st.gen = sub1(st.gen)
	}
	ns := map[*Term]*Term{}
	for _, a := range sortedTermKeys(st.same) {
		b := st.same[a]
		ns[sub1(a)] = sub1(b)
	}
	st.same = ns
	vs := make([]*Term, len(st.views))
	for i, v := range st.views {
		vs[i] = sub1(v)
	}
	st.views = vs
	fs := st.facts
	st.facts, st.fset = nil, map[*Term]bool{}
	for _, f := range fs {
		g := sub1(f)
		if g.op == OBool {
			if g.i == 0 {
				st.dead = true
			}
			continue
		}
		if !st.fset[g] {
			st.fset[g] = true
			st.facts = append(st.facts, g)
		}
	}
	return val
}

func sortedVals(m map[ssa.Value]*Term) []ssa.Value {
	var r []ssa.Value
	for v := range m {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool {
		if r[i].Name() != r[j].Name() {
			return r[i].Name() < r[j].Name()
		}
		return m[r[i]].id < m[r[j]].id
	})
	return r
}

func sortedTermKeys(m map[*Term]*Term) []*Term {
	var r []*Term
	for t := range m {
		r = append(r, t)
	}
	sortTerms(r)
	return r
}
