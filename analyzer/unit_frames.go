package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Rebalancing: the surroundings in which a step of rebalancing is analysed.
//
// A step works on one page of the path from the root to a record, its parent
// and the neighbours under the same parent. Frames write down what holds of
// these before the step: each page of the path is the child of the one before
// at the recorded index, distinct positions hold distinct pages, and the
// leaves are linked in the order of the parent's children.

// pathComp: the type of the components of a path (page, index).
func pathComp(t types.Type) (types.Type, bool) {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil, false
	}
	st, ok := s.Elem().Underlying().(*types.Struct)
	if !ok || st.NumFields() != 2 {
		return nil, false
	}
	if !isInt64(st.Field(0).Type()) {
		return nil, false
	}
	b, ok := st.Field(1).Type().Underlying().(*types.Basic)
	return s.Elem(), ok && b.Kind() == types.Int
}

// stepParams: the positions of the path and of the level among the parameters of a step.
func stepParams(f *ssa.Function) (path, level int, ok bool) {
	path, level = -1, -1
	for i, p := range f.Params {
		if i == 0 && f.Signature.Recv() != nil {
			continue
		}
		if pt, isP := p.Type().Underlying().(*types.Pointer); isP {
			if _, is := pathComp(pt.Elem()); is {
				if path >= 0 {
					return path, level, false
				}
				path = i
				continue
			}
		}
		if b, is := p.Type().Underlying().(*types.Basic); is && b.Kind() == types.Int && level < 0 {
			level = i
			continue
		}
		return path, level, false
	}
	return path, level, path >= 0
}

// steps: the functions which take a pointer to a path.
func (P *Program) steps() (fs []*ssa.Function, odd []*ssa.Function) {
	for _, f := range P.Funcs {
		if f.Signature.Recv() == nil || f.Blocks == nil {
			continue
		}
		if n, ok := derefT(f.Signature.Recv().Type()).(*types.Named); !ok || n.Obj().Name() != "BPTree" {
			continue
		}
		p, _, ok := stepParams(f)
		if p < 0 {
			continue
		}
		if ok {
			fs = append(fs, f)
		} else {
			odd = append(odd, f)
		}
	}
	return
}

// frame: what is known around a step.
type frame struct {
	name  string
	inner bool // the step works on an inner page
	depth int  // 0: on the root, 1: on a child of the root, 2: deeper

	rootSel, hSel, tailSel, headSel, leafsSel, innersSel fieldSel

	bpt           *Obj
	path          *Obj  // the variable holding the path
	n             *Term // length of the path
	lv            *Term // level of the page
	root          *Term // address of the root
	Q, P, N, C    *Term // grandparent, parent, page, child (inner)
	q, p, c, r    *Term // indexes in Q, P, N and (inner) C
	head, tail    *Term
	compT, sliceT types.Type
}

var frameSyms = struct{ Q, q, p, c, r, n, i *Term }{
	mkSym("Q", types.Typ[types.Int64]), mkSym("q", tInt), mkSym("p", tInt), mkSym("c", tInt), mkSym("r", tInt), mkSym("n", tInt), mkSym("i", tInt)}

// listFields: the fields with the addresses of the last and first leaf.
func (P *Program) listFields() (tail, head fieldSel, ok bool) {
	read := func(name string) (fieldSel, bool) {
		p := P.Pkgs[pkgBPTree]
		o := p.Pkg.Scope().Lookup("BPTree")
		if o == nil {
			return fieldSel{}, false
		}
		s, is := o.Type().Underlying().(*types.Struct)
		if !is {
			return fieldSel{}, false
		}
		for i := 0; i < s.NumFields(); i++ {
			n, is := s.Field(i).Type().(*types.Named)
			if !is {
				continue
			}
			t, is := n.Underlying().(*types.Struct)
			if !is {
				continue
			}
			for k := 0; k < t.NumFields(); k++ {
				if t.Field(k).Name() == name && isInt64(t.Field(k).Type()) {
					return fieldSel{[]Sel{{Field: i}, {Field: k}}, t.Field(k).Type()}, true
				}
			}
		}
		return fieldSel{}, false
	}
	tail, ok1 := read("tailAddr")
	head, ok2 := read("headAddr")
	return tail, head, ok1 && ok2
}

func (P *Program) frames(f *ssa.Function) []*frame {
	_, lvl, ok := stepParams(f)
	if !ok {
		return nil
	}
	var rs []*frame
	kind := "leaf"
	if lvl >= 0 {
		kind = "inner"
	}
	for d := 0; d < 3; d++ {
		rs = append(rs, &frame{name: kind + string(rune('0'+d)), inner: lvl >= 0, depth: d})
	}
	return rs
}

func childOf(page, idx *Term) *Term { return valOf(pageBase(page), idx) }

// pageOf: the page and index a child address was read from.
func pageOf(a *Term) (page, idx *Term) {
	if a.op == OApp && a.s == "val" && a.args[0].op == OApp && a.args[0].s == "page" {
		return a.args[0].args[0], a.args[1]
	}
	return nil, nil
}

// setup prepares the state before a step.
func (fr *frame) setup(P *Program, f *ssa.Function) func(st *State, args []*Term) {
	return func(st *State, args []*Term) {
		pi, li, _ := stepParams(f)
		pt := f.Params[pi].Type().Underlying().(*types.Pointer).Elem()
		fr.sliceT = pt
		fr.compT, _ = pathComp(pt)
		fr.bpt = symObj(args[0])
		S := &frameSyms
		fr.root = st.initialCell(fr.bpt, fr.rootSel.sels, fr.rootSel.typ)
		fr.q, fr.p, fr.c, fr.r = S.q, S.p, S.c, S.r
		n := mkInt(int64(fr.depth + 1))
		lv := mkInt(int64(fr.depth))
		if fr.depth == 2 {
			n, lv = S.n, addc(S.n, -1)
			st.assume(le(mkInt(3), n))
		}
		if fr.inner {
			n = S.n
			st.assume(le(mkInt(int64(fr.depth+2)), n))
			if fr.depth == 2 {
				lv = S.i
				st.assume(le(mkInt(2), lv))
				st.assume(le(addc(lv, 2), n))
			}
			args[li] = lv
		}
		fr.n, fr.lv = n, lv
		ob := symObj(mkSym("path", pt))
		if ob.typ == nil {
			ob.typ = fr.compT
		}
		set := func(lv, addr, idx *Term) {
			st.storeCell(ob, []Sel{{Field: -1, Idx: lv}, {Field: 0}}, addr)
			st.storeCell(ob, []Sel{{Field: -1, Idx: lv}, {Field: 1}}, idx)
		}
		in := func(i, page *Term) {
			st.assume(le(tZero, i))
			st.assume(lt(i, countOf(pageBase(page))))
		}
		two := func(page *Term) { st.assume(le(mkInt(2), countOf(pageBase(page)))) }
		switch fr.depth {
		case 0:
			fr.N = fr.root
		case 1:
			fr.P = fr.root
		case 2:
			fr.Q = S.Q
			fr.P = childOf(fr.Q, fr.q)
			set(addc(lv, -2), fr.Q, fr.q)
			in(fr.q, fr.Q)
			two(fr.Q)
		}
		if fr.P != nil {
			set(addc(lv, -1), fr.P, fr.p)
			in(fr.p, fr.P)
			two(fr.P)
			fr.N = childOf(fr.P, fr.p)
		}
		if fr.inner {
			set(lv, fr.N, fr.c)
			in(fr.c, fr.N)
			fr.C = childOf(fr.N, fr.c)
			set(addc(lv, 1), fr.C, fr.r)
			st.assume(le(tZero, fr.r))
		} else {
			set(lv, fr.N, fr.r)
			st.assume(le(tZero, fr.r))
			st.assume(le(fr.r, countOf(pageBase(fr.N))))
			if fr.depth > 0 {
				st.assume(le(tOne, countOf(pageBase(fr.N))))
			}
		}
		fr.path = symObj(args[pi])
		st.storeCell(fr.path, nil, mkSlice(ob, tZero, n, 0))
		// the chain of leaves
		fr.tail = st.initialCell(fr.bpt, fr.tailSel.sels, fr.tailSel.typ)
		fr.head = st.initialCell(fr.bpt, fr.headSel.sels, fr.headSel.typ)
		if !fr.inner && fr.depth == 0 {
			fr.tail, fr.head = fr.root, fr.root
		}
		if !fr.inner && fr.depth == 1 {
			fr.head = childOf(fr.P, tZero)
			fr.tail = childOf(fr.P, addc(countOf(pageBase(fr.P)), -1))
		}
		st.storeCell(fr.bpt, fr.tailSel.sels, fr.tail)
		st.storeCell(fr.bpt, fr.headSel.sels, fr.head)
		for _, a := range []*Term{fr.root, fr.Q, fr.P, fr.N, fr.C} {
			if a != nil {
				st.same[a] = a
			}
		}
	}
}

func isOuter(a *Term) bool { return a.op == OApp && (a.s == "nextleaf" || a.s == "prevleaf") }

// relate compares addresses of the frame.
func (fr *frame) relate(st *State, a, b *Term) int {
	if a == b {
		return 1
	}
	fresh := func(t *Term) bool { return t.op == OApp && t.s == "alloc" }
	if fresh(a) || fresh(b) {
		return -1
	}
	pa, ia := pageOf(a)
	pb, ib := pageOf(b)
	switch {
	case pa != nil && pb != nil:
		if pa != pb {
			if d := fr.relate(st, pa, pb); d != 1 {
				return d
			}
		}
		return sameInt(st, ia, ib)
	case pb != nil:
		a, b, pa, ia, pb, ib = b, a, pb, ib, pa, ia
		fallthrough
	case pa != nil:
		// a child and something else
		if b == fr.root || b == fr.Q {
			return -1
		}
		if !fr.leafUnder(pa) {
			if isOuter(b) || b == fr.head || b == fr.tail {
				return -1
			}
			return 0
		}
		// leaves under the parent, and leaves known by other names
		if isOuter(b) {
			return -1
		}
		n := countOf(pageBase(pa))
		if b == fr.head && sameInt(st, ia, tZero) == -1 || b == fr.tail && sameInt(st, ia, addc(n, -1)) == -1 {
			return -1
		}
		return 0
	}
	outer := func(t *Term) bool { return isOuter(t) || fr.depth == 2 && (t == fr.head || t == fr.tail) }
	if outer(a) && (b == fr.root || b == fr.Q) || outer(b) && (a == fr.root || a == fr.Q) {
		return -1
	}
	if fr.depth == 2 && (a == fr.root && b == fr.Q || a == fr.Q && b == fr.root) {
		return 0
	}
	return 0
}

// refineIndex: children of one page are told apart by their indexes.
func refineIndex(s *State, a, b *Term) *Term {
	pa, ia := pageOf(a)
	pb, ib := pageOf(b)
	if pa == nil || pa != pb {
		return nil
	}
	for _, c := range []*Term{lt(ia, ib), lt(ib, ia)} {
		if s.decide(c) == 0 {
			return c
		}
	}
	return nil
}

// leafUnder: the children of the page are leaves.
func (fr *frame) leafUnder(p *Term) bool { return !fr.inner && p == fr.P }

// word: what the links of a leaf hold before the step.
func (fr *frame) word(s *State, o *Obj, off *Term, width int64) *Term {
	if fr.inner || o.addr == nil || width != 8 || off != tZero && off != mkInt(8) {
		return nil
	}
	next := off != tZero
	decide := func(c *Term) int {
		if s.judging {
			return s.decide(c)
		}
		if s.must(c) {
			return 1
		}
		return -1
	}
	a := o.addr
	if fr.depth == 0 && a == fr.root {
		return fr.root
	}
	if fr.depth == 2 && isOuter(a) && fr.leafUnder(a.args[0]) {
		// the neighbours of the leaves below the parent
		switch {
		case a.s == "prevleaf" && next:
			return childOf(a.args[0], tZero)
		case a.s == "nextleaf" && !next:
			return childOf(a.args[0], addc(countOf(pageBase(a.args[0])), -1))
		}
		return nil
	}
	pa, ia := pageOf(a)
	if pa == nil || !fr.leafUnder(pa) {
		return nil
	}
	n := countOf(pageBase(pa))
	wrap := func(name string, i *Term) *Term {
		if fr.depth == 1 {
			return childOf(pa, i)
		}
		return mkApp(name, pa)
	}
	if next {
		switch decide(lt(addc(ia, 1), n)) {
		case 1:
			return childOf(pa, addc(ia, 1))
		case -1:
			return wrap("nextleaf", tZero)
		}
		return nil
	}
	switch decide(le(tOne, ia)) {
	case 1:
		return childOf(pa, addc(ia, -1))
	case -1:
		return wrap("prevleaf", addc(n, -1))
	}
	return nil
}

// outOfRange: the condition is about the pages of the frame only, and may be violated.
func (fr *frame) outOfRange(st *State, c *Term) bool {
	ok := map[*Term]bool{fr.q: true, fr.p: true, fr.c: true, fr.r: true}
	for _, a := range []*Term{fr.Q, fr.P, fr.N} {
		if a != nil {
			ok[countOf(pageBase(a))] = true
		}
	}
	t := c
	for t.op == ONot {
		t = t.args[0]
	}
	if len(t.args) == 0 {
		return false
	}
	l := linOf(t.args[0])
	if len(t.args) > 1 {
		l = linOf(sub(t.args[0], t.args[1]))
	}
	for a, n := range l.m {
		if n != 0 && !ok[a] {
			return false
		}
	}
	q := st.clone()
	q.assume(not(c))
	return !q.dead && !unsolvable(q)
}

// ownStep: the step is one in its own right, not a part of another one.
func (P *Program) ownStep(f *ssa.Function) bool {
	if _, _, ok := stepParams(f); !ok {
		return false
	}
	var from []*ssa.Function
	for _, g := range P.Funcs {
		for _, h := range P.callees(g) {
			if h == f {
				from = append(from, g)
				break
			}
		}
	}
	if len(from) == 1 && from[0] != f {
		if p, _, _ := stepParams(from[0]); p >= 0 {
			return false
		}
	}
	return true
}

// stepRoot: a step which others call in its own right, or which starts the rebalancing.
func (P *Program) stepRoot(f *ssa.Function) bool {
	if !P.ownStep(f) {
		return false
	}
	if P.cyclic(f) {
		return true
	}
	for _, g := range P.Funcs {
		if p, _, _ := stepParams(g); p >= 0 {
			continue
		}
		for _, h := range P.callees(g) {
			if h == f {
				return true
			}
		}
	}
	return false
}

func (fr *frame) config(P *Program) *Config {
	return &Config{Name: "unit:" + fr.name, Prims: prims(P), PageObj: true, ForkIndex: true, NoMerge: true,
		Boundary: func(f *ssa.Function) bool { return P.cyclic(f) && P.ownStep(f) || P.pureLoop(f) },
		Relate:   fr.relate,
		Ranges:   fr.outOfRange,
		Refine:   refineIndex,
		InitInt:  fr.word,
	}
}

type unitRun struct {
	run *Run
	fr  *frame
	fn  *ssa.Function
}

// unitRuns analyses every step in its frames.
func (P *Program) unitRuns(r *Report) (us []*unitRun) {
	root, ok1 := P.namedField(pkgBPTree, "BPTree", "rootAddr")
	h, ok2 := P.getterField(pkgBPTree, "BPTree", "Height")
	lf, ok3 := P.getterField(pkgBPTree, "BPTree", "NumberOfLeafs")
	nl, ok4 := P.getterField(pkgBPTree, "BPTree", "NumberOfNonLeafs")
	tail, head, ok5 := P.listFields()
	if !(ok1 && ok2 && ok3 && ok4 && ok5) {
		r.open("anchor", "BPTree", 0, "the fields of the tree are not recognised", "")
		return nil
	}
	fs, odd := P.steps()
	for _, f := range odd {
		if P.reach(f) == nil {
			continue
		}
		r.open("anchor", shortName(f), f.Pos(), "a step of rebalancing with unexpected parameters", "")
	}
	for _, f := range fs {
		if !P.stepRoot(f) {
			continue
		}
		for _, fr := range P.frames(f) {
			fr.rootSel, fr.hSel, fr.leafsSel, fr.innersSel, fr.tailSel, fr.headSel = root, h, lf, nl, tail, head
			run := P.analyse(fr.config(P), f, fr.setup(P, f))
			if run.data == nil {
				run.data = fr
			}
			fr = run.data.(*frame)
			if !r.usable(run) {
				continue
			}
			us = append(us, &unitRun{run, fr, f})
		}
	}
	return us
}
