package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
)

// Rules about one step of rebalancing: what is found below the parent (or the
// root) after the step, up to the call which continues with the next level,
// against what was found there before.

// treeView: the pages a step touched, before or after it.
type treeView struct {
	st    *State
	fr    *frame
	after bool
	pages map[*Term]*Term // address -> sequence (before or after)
	leafs map[*Term]bool  // touched pages which are leaves
	fail  string
}

// unitPoint: one way the step ends.
type unitPoint struct {
	u        *unitRun
	j        *judge
	st       *State
	next     []*Event // the continuing calls
	fresh    []*Term
	freed    []*Term
	changed  map[*Term]*Term // page -> final sequence
	leafs    map[*Term]bool
	rest     string // something happens after the first call
	top0     *Term
	top1     *Term
	pos0     []*Term
	pos1     []*Term
	offs0    map[*Term]*Term // page -> position of its first element
	offs1    map[*Term]*Term
	first0   map[*Term]*Term // page -> the key it is reached by
	first1   map[*Term]*Term
	reached0 []*Term
	reached1 []*Term
}

func isStepCall(P *Program, e *Event) bool {
	if e.kind != "call" {
		return false
	}
	f := siteCallee(e)
	if f == nil {
		return false
	}
	p, _, _ := stepParams(f)
	return p >= 0
}

// points lists the ends of a step.
func (P *Program) unitPoints(r *Report, u *unitRun, rule string, f func(pt *unitPoint)) {
	eachOutcome(r, u.run, rule, func(j *judge, o *Outcome) {
		var calls []*Event
		rest := ""
		for _, e := range allEvents(o.st.log) {
			if isStepCall(P, e) {
				calls = append(calls, e)
				continue
			}
			if len(calls) > 0 && (lasting[e.kind] || e.kind == "call" && P.effectful(e)) {
				rest = e.kind + " " + e.name
			}
		}
		sts := []*State{o.st}
		if len(calls) > 0 {
			sts = u.run.snapsAt(calls[0], o)
			if len(sts) == 0 {
				j.open("the state at the call of %s is not known", calls[0].name)
			}
		}
		for _, s := range sts {
			splitCases(j, s, 0, func(q *State) {
				q.judging = true
				pt := &unitPoint{u: u, j: j, st: q, next: calls, rest: rest, changed: map[*Term]*Term{}, leafs: map[*Term]bool{}}
				pt.collect(allEvents(s.log))
				f(pt)
			})
		}
	})
}

// splitCases judges a state, taking cases where a condition matters which the path leaves open.
func splitCases(j *judge, s *State, depth int, f func(q *State)) {
	var c *Term
	func() {
		defer func() {
			if e := recover(); e != nil {
				fo, ok := e.(forkOn)
				if !ok {
					panic(e)
				}
				c = fo.cond
			}
		}()
		f(s.clone())
	}()
	if c == nil {
		return
	}
	if depth > 8 {
		j.open("too many cases")
		return
	}
	for _, g := range []*Term{c, not(c)} {
		q := s.clone()
		q.assume(g)
		if !q.dead && !unsolvable(q) {
			splitCases(j, q, depth+1, f)
		}
	}
}

func (pt *unitPoint) collect(evs []*Event) {
	fr := pt.u.fr
	for _, e := range evs {
		switch e.kind {
		case "alloc":
			if e.name == "page" {
				pt.fresh = append(pt.fresh, e.res)
			}
		case "free":
			if e.name == "page" {
				pt.freed = append(pt.freed, e.args[0])
			}
		case "insert", "remove", "set":
			if e.name == "leafController" {
				pt.leafs[e.args[0]] = true
			}
		}
	}
	for _, ob := range sortedObjsT(pt.st.seq) {
		q := pt.st.seq[ob]
		if ob.addr != nil && ob.part == nil && q != initialSeq(ob.addr) {
			pt.changed[ob.addr] = q
		}
	}
	for _, a := range pt.freed {
		if pt.changed[a] == nil {
			pt.changed[a] = initialSeq(a)
		}
	}
	for a := range pt.changed {
		if pg, _ := pageOf(a); !fr.inner && (pg != nil && fr.leafUnder(pg) || fr.depth == 0 && a == fr.root) {
			pt.leafs[a] = true
		}
	}
	// the pages through which they are reached
	for _, a := range pt.sortedChanged() {
		for n := 0; n < 4 && a != fr.root && !(fr.depth == 2 && a == fr.P); n++ {
			pg, _ := pageOf(a)
			if pg == nil {
				break
			}
			if pt.changed[pg] == nil {
				pt.changed[pg] = initialSeq(pg)
			}
			a = pg
		}
	}
}

func (pt *unitPoint) isFresh(a *Term) bool {
	for _, f := range pt.fresh {
		if f == a {
			return true
		}
	}
	return false
}

func (pt *unitPoint) sortedChanged() []*Term {
	var as []*Term
	for a := range pt.changed {
		as = append(as, a)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	return as
}

// canon: the touched page an address designates, if any.
func (pt *unitPoint) canon(a *Term) (*Term, int) {
	if c := pt.st.same[a]; c != nil {
		a = c
	}
	if pt.changed[a] != nil {
		return a, 1
	}
	unknown := 0
	for _, b := range pt.sortedChanged() {
		switch pt.u.fr.relate(pt.st, a, b) {
		case 1:
			return b, 1
		case 0:
			if pt.isFresh(b) {
				continue
			}
			if pa, ia := pageOf(a); pa != nil {
				if pb, ib := pageOf(b); pa == pb {
					if pt.st.must(lt(ia, ib)) || pt.st.must(lt(ib, ia)) {
						continue
					}
					return b, 1
				}
			}
			unknown++
		}
	}
	if unknown > 0 {
		dbg("canon %s among %v", a, pt.sortedChanged())
		return a, 0
	}
	return a, -1
}

// flatten lists what is found below an element, the touched pages opened.
func (pt *unitPoint) flatten(after bool, key, addr *Term) (pieces []*Term, why string) {
	offs, firsts := map[*Term]*Term{}, map[*Term]*Term{}
	pos := tZero
	depth := 0
	var reached []*Term
	var put func(g *Term)
	put = func(g *Term) {
		pieces = append(pieces, g)
		pos = add(pos, segLen(g))
	}
	var open func(k, a *Term)
	var walk func(gs []*Term)
	open = func(k, a *Term) {
		if depth > 6 || why != "" {
			return
		}
		c, rel := pt.canon(a)
		if rel == 0 {
			why = "it is not known whether " + a.String() + " is one of the pages worked on"
			return
		}
		if rel < 0 || !after && pt.isFresh(c) {
			put(el(k, a))
			return
		}
		if offs[c] != nil {
			why = "page " + c.String() + " is found twice"
			if os.Getenv("PKV_DBG") != "" {
				fmt.Println("TWICE", a, pt.reached0, pt.sortedChanged(), pt.st.facts)
			}
			return
		}
		offs[c], firsts[c] = pos, k
		reached = append(reached, c)
		q := initialSeq(c)
		if after {
			q = pt.changed[c]
		}
		if strings.Contains(q.String(), "after:") {
			why = "the contents of " + c.String() + " are not known"
			return
		}
		depth++
		if pt.leafs[c] {
			for _, g := range q.args {
				put(g)
			}
		} else {
			gs := append([]*Term{}, q.args...)
			if len(gs) > 0 {
				// the first child is reached by the key of the page
				switch g := gs[0]; {
				case isEl(g):
					gs[0] = el(k, g.args[1])
				default:
					f := el(k, valOf(g.args[0], g.args[1]))
					gs = append([]*Term{f, seg(g.args[0], addc(g.args[1], 1), g.args[2])}, gs[1:]...)
				}
			}
			walk(gs)
		}
		depth--
	}
	walk = func(gs []*Term) {
		for _, g := range gs {
			if isEl(g) {
				open(g.args[0], g.args[1])
				continue
			}
			// children which are touched pages
			b, f, t := g.args[0], g.args[1], g.args[2]
			if b.op != OApp || b.s != "page" {
				why = "unknown contents " + g.String()
				return
			}
			var idx []*Term
			for _, a := range pt.sortedChanged() {
				pg, i := pageOf(a)
				if pg == nil || pageBase(pg) != b {
					continue
				}
				if !pt.st.must(le(f, i)) || !pt.st.must(lt(i, t)) {
					continue
				}
				idx = append(idx, i)
			}
			for i := 1; i < len(idx); i++ {
				for k := i; k > 0; k-- {
					if pt.st.must(lt(idx[k], idx[k-1])) {
						idx[k], idx[k-1] = idx[k-1], idx[k]
					}
				}
			}
			at := f
			for _, i := range idx {
				if i != at {
					put(seg(b, at, i))
				}
				open(keyOf(b, i), valOf(b, i))
				if why != "" {
					return
				}
				at = addc(i, 1)
			}
			if at != t {
				put(seg(b, at, t))
			}
		}
	}
	open(key, addr)
	if after {
		pt.offs1, pt.first1, pt.pos1, pt.reached1 = offs, firsts, pieces, reached
	} else {
		pt.offs0, pt.first0, pt.pos0, pt.reached0 = offs, firsts, pieces, reached
	}
	return
}

// topKey stands for the key the page at the top is reached by.
var topKey = mkSym("top", nil)

// sameKeys: equal keys by what holds before the step. The key of a page's
// first entry is the one the page is reached by.
func (pt *unitPoint) sameKeys(a, b *Term) bool {
	norm := func(k *Term) *Term {
		for n := 0; n < 4; n++ {
			if k.op != OApp || k.s != "key" || pt.st.decide(eqInt(k.args[1], tZero)) != 1 {
				break
			}
			pg := k.args[0].args[0]
			pa, i := pageOf(pg)
			if pa == nil || !pt.leafs[pg] && !pt.u.fr.leafUnder(pa) {
				break
			}
			if pt.st.decide(le(tOne, i)) != 1 {
				break
			}
			k = keyOf(pageBase(pa), i)
		}
		if k.op == OApp && k.s == "raw" {
			k = k.args[0]
		}
		return k
	}
	a, b = norm(a), norm(b)
	if a == b {
		return true
	}
	if a.op == OApp && b.op == OApp && a.s == b.s && (a.s == "key" || a.s == "val") && a.args[0] == b.args[0] {
		return sameInt(pt.st, a.args[1], b.args[1]) == 1
	}
	return false
}

func (pt *unitPoint) sameVals(a, b *Term) bool {
	return a == b || pt.sameKeys(a, b) || pt.u.fr.relate(pt.st, a, b) == 1
}

// sameSeq compares two lists of pieces: 1 equal, -1 different, 0 not known.
func (pt *unitPoint) sameSeq(a, b []*Term) (int, string) {
	st := pt.st
	a, b = append([]*Term{}, a...), append([]*Term{}, b...)
	empty := func(g *Term) int {
		if isEl(g) {
			return -1
		}
		n := segLen(g)
		if st.decide(le(n, tZero)) == 1 {
			return 1
		}
		if st.decide(lt(tZero, n)) == 1 {
			return -1
		}
		return 0
	}
	mayHold := func(f *Term) bool {
		q := st.clone()
		q.assume(f)
		return !q.dead && !unsolvable(q)
	}
	for len(a) > 0 || len(b) > 0 {
		if len(a) > 0 && empty(a[0]) == 1 {
			a = a[1:]
			continue
		}
		if len(b) > 0 && empty(b[0]) == 1 {
			b = b[1:]
			continue
		}
		if len(a) == 0 || len(b) == 0 {
			rest := append(append([]*Term{}, a...), b...)
			what := "lost"
			if len(a) == 0 {
				what = "added"
			}
			for _, g := range rest {
				if empty(g) == -1 || mayHold(lt(tZero, segLen(g))) {
					return -1, g.String() + " is " + what
				}
			}
			return 1, ""
		}
		x, y := a[0], b[0]
		switch {
		case isSeg(x) && isSeg(y) && x.args[0] == y.args[0] && sameInt(st, x.args[1], y.args[1]) == 1:
			lx, ly := segLen(x), segLen(y)
			switch {
			case lx == ly || st.decide(eqInt(lx, ly)) == 1:
				a, b = a[1:], b[1:]
			case st.decide(lt(lx, ly)) == 1:
				b[0] = seg(y.args[0], add(y.args[1], lx), y.args[2])
				a = a[1:]
			case st.decide(lt(ly, lx)) == 1:
				a[0] = seg(x.args[0], add(x.args[1], ly), x.args[2])
				b = b[1:]
			case st.decide(le(lx, ly)) == 1:
				b[0] = seg(y.args[0], add(y.args[1], lx), y.args[2])
				a = a[1:]
			case st.decide(le(ly, lx)) == 1:
				a[0] = seg(x.args[0], add(x.args[1], ly), x.args[2])
				b = b[1:]
			default:
				return -1, fmt.Sprintf("%s becomes %s", x, y)
			}
			continue
		case isSeg(x) && isSeg(y):
			ex, ey := empty(x), empty(y)
			if ex == -1 && ey == -1 {
				return -1, fmt.Sprintf("%s is found in place of %s", y, x)
			}
			if mayHold(lt(tZero, segLen(x))) && mayHold(lt(tZero, segLen(y))) {
				return -1, fmt.Sprintf("%s may be found in place of %s", y, x)
			}
			return 0, "the place of " + x.String() + " is not known"
		default:
			kx, vx := elKey(x), elVal(x)
			ky, vy := elKey(y), elVal(y)
			if empty(x) != -1 || empty(y) != -1 {
				return -1, fmt.Sprintf("%s may be found in place of %s", y, x)
			}
			if !pt.sameVals(vx, vy) {
				return -1, fmt.Sprintf("%s is found in place of %s", vy, vx)
			}
			if !pt.sameKeys(kx, ky) {
				return -1, fmt.Sprintf("%s is behind the key %s, not %s", vx, ky, kx)
			}
			cut := func(l []*Term) []*Term {
				if isEl(l[0]) {
					return l[1:]
				}
				l[0] = seg(l[0].args[0], addc(l[0].args[1], 1), l[0].args[2])
				return l
			}
			a, b = cut(a), cut(b)
		}
	}
	return 1, ""
}

// tops: where the tree above the step begins, before and after.
func (pt *unitPoint) tops() {
	fr := pt.u.fr
	root1 := pt.st.loadCell(fr.bpt, fr.rootSel.sels, fr.rootSel.typ)
	if fr.depth < 2 {
		pt.top0, pt.top1 = fr.root, root1
		return
	}
	pt.top0, pt.top1 = fr.P, fr.P
	if root1 != fr.root {
		pt.j.bad("the root of the tree becomes %s", root1)
	}
}

// build opens both trees. It returns false when nothing can be said.
func (pt *unitPoint) build() bool {
	pt.tops()
	if _, why := pt.flatten(false, topKey, pt.top0); why != "" {
		pt.j.open("before the step: %s", why)
		return false
	}
	if _, why := pt.flatten(true, topKey, pt.top1); why != "" {
		if strings.Contains(why, "found twice") {
			pt.j.bad("after the step %s", why)
		} else {
			pt.j.open("after the step: %s", why)
		}
		return false
	}
	// pages worked on must be reachable before, unless new
	for _, a := range pt.sortedChanged() {
		if !pt.isFresh(a) && pt.offs0[a] == nil {
			pt.j.open("page %s is not one of those around the step", a)
			return false
		}
	}
	return true
}

// ruleConserve: nothing is lost, duplicated or reordered, and each separator is the first key behind it.
func (P *Program) unitConserve(pt *unitPoint) {
	if len(pt.changed) == 0 && pt.top0 == pt.top1 {
		return
	}
	switch d, why := pt.sameSeq(pt.pos0, pt.pos1); d {
	case -1:
		pt.j.bad("%s", why)
	case 0:
		pt.j.open("%s", why)
	}
}

// firstElem: the first element of the sequence of a page after the step.
func firstElem(q *Term) *Term {
	if len(q.args) == 0 {
		return nil
	}
	return q.args[0]
}

// unitSeparators: the keys in the inner pages.
func (P *Program) unitSeparators(pt *unitPoint) {
	for _, a := range pt.reached1 {
		q := pt.changed[a]
		if q == nil {
			continue
		}
		k := pt.first1[a]
		g := firstElem(q)
		if g == nil {
			continue
		}
		if pt.leafs[a] {
			// reached by the key of its first record, unless it is the first below the parent
			if pt.dummyKey(k) || k == topKey {
				continue
			}
			if f := elKey(g); !pt.sameKeys(k, f) {
				pt.j.bad("the key of page %s in its parent is %s, its first key is %s", a, k, f)
			}
			continue
		}
		// the first child of an inner page has no key
		if isEl(g) && !pt.dummyKey(g.args[0]) {
			pt.j.bad("the first child of the inner page %s has the key %s", a, g.args[0])
		}
		if isSeg(g) {
			switch pt.st.decide(eqInt(g.args[1], tZero)) {
			case -1:
				pt.j.bad("the first child of the inner page %s has the key %s", a, elKey(g))
			case 0:
				pt.j.bad("the first child of the inner page %s may have the key %s", a, elKey(g))
			}
		}
	}
}

// dummyKey: no key at all, as the first child of an inner page has.
func (pt *unitPoint) dummyKey(k *Term) bool {
	st := pt.st
	switch {
	case k == tNil || k == emptyBytes:
		return true
	case k.op == OApp && k.s == "key":
		if a, _ := pageOf(k.args[0].args[0]); pt.leafs[k.args[0].args[0]] || a != nil && pt.u.fr.leafUnder(a) {
			return false
		}
		return st.decide(eqInt(k.args[1], tZero)) == 1
	case k.op == OApp && k.s == "bytes" && len(k.args) == 1:
		return k.args[0] == tNil
	}
	return false
}

// unitPath: the path after the step leads from the root to the same entry.
func (P *Program) unitPath(pt *unitPoint) {
	fr, st, j := pt.u.fr, pt.st, pt.j
	path := st.loadCell(fr.path, nil, fr.sliceT)
	ob, off, m, _ := sliceParts(path)
	if ob == nil {
		j.open("the path after the step is not recognised")
		return
	}
	get := func(lv *Term) (addr, idx *Term) {
		at := []Sel{{Field: -1, Idx: add(off, lv)}}
		fs := fr.compT.Underlying().(*types.Struct)
		return st.loadCell(ob, append(at[:1:1], Sel{Field: 0}), fs.Field(0).Type()), st.loadCell(ob, append(at[:1:1], Sel{Field: 1}), fs.Field(1).Type())
	}
	known := func(a, i *Term) bool { return !unknownCell(a, ob) && !unknownCell(i, ob) }
	d := sub(m, fr.n) // levels added
	if d.op != OConst {
		if st.decide(eqInt(d, tZero)) == 1 {
			d = tZero
		} else {
			j.open("the length of the path after the step is not known: %s", m)
			return
		}
	}
	h0 := st.initialCell(fr.bpt, fr.hSel.sels, fr.hSel.typ)
	h1 := st.loadCell(fr.bpt, fr.hSel.sels, fr.hSel.typ)
	if sameInt(st, sub(h1, h0), d) != 1 {
		j.bad("the height of the tree becomes %s, the path has %d levels more", h1, d.i)
	}
	lv := add(fr.lv, d)
	low := lv // the lowest level the step may have changed
	if fr.inner {
		low = addc(lv, 1)
	}
	// the entry at the lowest level
	a, i := get(low)
	if !known(a, i) {
		j.open("the end of the path after the step is not known: %s, %s", a, i)
		return
	}
	if fr.inner {
		// the child itself has not changed
		if fr.relate(st, a, fr.C) != 1 && st.decide(eqInt(a, fr.C)) != 1 || i != fr.r {
			j.bad("the path below the page becomes (%s, %s)", a, i)
			return
		}
		if root1 := st.loadCell(fr.bpt, fr.rootSel.sels, fr.rootSel.typ); st.decide(lt(lv, tZero)) == 1 && fr.relate(st, a, root1) != 1 && st.decide(eqInt(a, root1)) != 1 {
			j.bad("the path starts at %s, the root is %s", a, root1)
		}
	}
	// upwards from the page: each page is the child recorded above it
	start := addc(low, 0)
	if fr.inner {
		start = lv
	}
	var up *Term
	if fr.inner {
		up = a
	}
	for n := 0; n < 3; n++ {
		l := addc(start, int64(-n))
		if st.decide(lt(l, tZero)) == 1 {
			break
		}
		if st.decide(le(tZero, l)) != 1 {
			j.open("the length of the path is not known: level %s", l)
			return
		}
		a, i := get(l)
		if !known(a, i) {
			if n == 0 {
				j.open("the path after the step is not known: %s, %s", a, i)
			}
			break // untouched above
		}
		c, rel := pt.canon(a)
		if rel == 0 && a.op == OConst {
			j.bad("the path leads to page %s", a)
			return
		}
		if rel == 0 {
			j.open("the page %s of the path is not recognised", a)
			return
		}
		q := initialSeq(a)
		if rel == 1 {
			q = pt.changed[c]
			if pt.offs1[c] == nil {
				j.bad("the path leads to page %s, which does not belong to the tree after the step", c)
				return
			}
		}
		if up == nil {
			// a record of a leaf
			if !pt.checkEntry(c, i) {
				return
			}
		} else {
			if w := st.decide(le(tZero, i)); w != 1 {
				j.bad("the path leads to child %s", i)
				return
			}
			if st.decide(lt(i, seqLen(q))) == -1 {
				j.bad("the path leads to child %s of %s which has %s", i, a, seqLen(q))
				return
			}
			e := seqAtSplit(pt, q, i)
			if e == nil {
				j.open("child %s of %s is not known", i, a)
				return
			}
			v := elVal(e)
			if !pt.sameVals(v, up) {
				j.bad("the path goes on to page %s, but child %s of page %s is %s", up, i, a, v)
				return
			}
		}
		up = a
		if l == tZero || st.decide(eqInt(l, tZero)) == 1 {
			root1 := st.loadCell(fr.bpt, fr.rootSel.sels, fr.rootSel.typ)
			if fr.relate(st, a, root1) != 1 && st.decide(eqInt(a, root1)) != 1 {
				j.bad("the path starts at %s, the root is %s", a, root1)
			}
			break
		}
	}
}

// unknownCell: a cell of the path which the step did not know or set.
func unknownCell(t *Term, ob *Obj) bool {
	return t == nil || t.op == OLoad && t.obj != nil && (t.obj == ob || t.content != nil || t.obj.kind == ObjSym && t.obj.of.op == OSym && t.obj.of.s == "path")
}

// seqAtSplit: the element at an index, taking cases where its place is open.
func seqAtSplit(pt *unitPoint, q, i *Term) *Term {
	pos := tZero
	for _, g := range q.args {
		end := add(pos, segLen(g))
		if pt.st.must(lt(i, end)) {
			if isEl(g) {
				return g
			}
			x := add(g.args[1], sub(i, pos))
			return seg(g.args[0], x, addc(x, 1))
		}
		pos = end
	}
	return nil
}

// checkEntry: the record the path designates is the one it designated before.
func (pt *unitPoint) checkEntry(a, i *Term) bool {
	fr, st, j := pt.u.fr, pt.st, pt.j
	c0, _ := pt.canon(fr.N)
	if pt.offs0[c0] == nil && pt.offs1[c0] == nil {
		// the page was not touched
		if fr.relate(st, a, fr.N) == 1 && sameInt(st, i, fr.r) == 1 {
			return true
		}
		j.bad("the path leads to entry %s of page %s, not to %s of %s", i, a, fr.r, fr.N)
		return false
	}
	o1 := pt.offs1[a]
	if o1 == nil {
		j.bad("the path leads to page %s, which the entry was not moved to", a)
		return false
	}
	was, is := add(pt.offs0[c0], fr.r), add(o1, i)
	if sameInt(st, was, is) != 1 {
		j.bad("the path leads to entry %s of page %s, the entry it led to is %s places further", i, a, sub(was, is))
		return false
	}
	q := st.clone()
	q.assume(lt(fr.r, countOf(pageBase(fr.N))))
	if q.dead || unsolvable(q) {
		return true
	}
	if n := seqLen(pt.changed[a]); q.decide(lt(i, n)) != 1 || q.decide(le(tZero, i)) != 1 {
		j.bad("the path leads to entry %s of page %s which has %s", i, a, n)
		return false
	}
	return true
}

// unitSpace: exactly the pages which left the tree are released, the new ones are in it, and they are counted.
func (P *Program) unitSpace(pt *unitPoint, space, tally bool) {
	fr, st, j := pt.u.fr, pt.st, pt.j
	freed := map[*Term]bool{}
	for _, a := range pt.freed {
		if freed[a] && space {
			j.bad("page %s is released twice", a)
		}
		freed[a] = true
		if pt.offs1[a] != nil && space {
			j.bad("page %s is released but still belongs to the tree", a)
		}
	}
	inTree := func(a *Term) bool {
		if pt.offs1[a] != nil {
			return true
		}
		// an untouched page is in the tree as an element
		return false
	}
	dl, di := int64(0), int64(0)
	count := func(a *Term, k int64) {
		if pt.leafs[a] {
			dl += k
		} else {
			di += k
		}
	}
	for _, a := range pt.fresh {
		if !inTree(a) && !freed[a] && space {
			j.bad("the new page %s does not become part of the tree", a)
		}
		if inTree(a) {
			count(a, 1)
		}
	}
	for _, a := range pt.reached0 {
		if inTree(a) {
			continue
		}
		if !freed[a] && space {
			j.bad("page %s leaves the tree but is not released", a)
		}
		count(a, -1)
	}
	if !tally {
		return
	}
	P.unitHeight(pt)
	for _, x := range []struct {
		f    fieldSel
		d    int64
		what string
	}{{fr.leafsSel, dl, "leaf"}, {fr.innersSel, di, "inner"}} {
		v0 := st.initialCell(fr.bpt, x.f.sels, x.f.typ)
		v1 := st.loadCell(fr.bpt, x.f.sels, x.f.typ)
		if sameInt(st, v1, addc(v0, x.d)) != 1 {
			j.bad("the number of %s pages becomes %s, but changes by %d", x.what, v1, x.d)
		}
	}
}

// unitChain: the leaves are linked in order.
func (P *Program) unitChain(pt *unitPoint) {
	fr, st, j := pt.u.fr, pt.st, pt.j
	tail1 := st.loadCell(fr.bpt, fr.tailSel.sels, fr.tailSel.typ)
	head1 := st.loadCell(fr.bpt, fr.headSel.sels, fr.headSel.typ)
	if fr.inner {
		if tail1 != fr.tail || head1 != fr.head {
			j.bad("the ends of the chain of leaves change with an inner page")
		}
		return
	}
	same := func(a, b *Term) bool {
		if a == b {
			return true
		}
		if ca, cb := st.same[a], st.same[b]; ca != nil && ca == b || cb != nil && cb == a {
			return true
		}
		for {
			g := refineIndex(st, a, b)
			if g == nil {
				break
			}
			st.must(g)
		}
		return fr.relate(st, a, b) == 1 || st.decide(eqInt(a, b)) == 1
	}
	word := func(a *Term, off int64) *Term {
		if c := st.same[a]; c != nil {
			a = c
		} else if c, rel := pt.canon(a); rel == 1 {
			a = c
		} else {
			for _, v := range st.views {
				if same(a, v) {
					a = v
					break
				}
			}
		}
		ob := viewObj(a)
		for {
			w := st.readInt(ob, st.cont(ob), mkInt(off), 8, "be")
			if w.op == OLoad && w.obj == ob && w.content == nil {
				// not told apart yet
				if pa, ia := pageOf(a); pa != nil && fr.leafUnder(pa) {
					c := lt(addc(ia, 1), countOf(pageBase(pa)))
					if off == 0 {
						c = le(tOne, ia)
					}
					if st.decide(c) == 0 {
						st.must(c)
					}
				}
			}
			return w
		}
	}
	// the leaves below the top, in order, after the step
	type run struct{ first, last *Term } // a run of leaves linked among themselves before the step
	var runs []run
	add1 := func(first, last *Term) { runs = append(runs, run{first, last}) }
	if fr.depth == 0 && pt.top1 == fr.root {
		return // nothing happened to the chain
	}
	list := func(top *Term) []*Term {
		q := initialSeq(top)
		if s := pt.changed[top]; s != nil {
			q = s
		}
		return q.args
	}
	for _, g := range list(pt.top1) {
		if isEl(g) {
			add1(g.args[1], g.args[1])
			continue
		}
		n := segLen(g)
		if n == tZero || !st.must(lt(tZero, n)) {
			continue
		}
		add1(valOf(g.args[0], g.args[1]), valOf(g.args[0], addc(g.args[2], -1)))
	}
	if len(runs) == 0 {
		j.open("no leaves below %s", pt.top1)
		return
	}
	link := func(a, b *Term) {
		if w := word(a, 8); !same(w, b) {
			j.bad("the leaf after %s is recorded as %s, but is %s", a, w, b)
		}
		if w := word(b, 0); !same(w, a) {
			j.bad("the leaf before %s is recorded as %s, but is %s", b, w, a)
		}
	}
	for i := 1; i < len(runs); i++ {
		link(runs[i-1].last, runs[i].first)
	}
	first, last := runs[0].first, runs[len(runs)-1].last
	if fr.depth < 2 {
		link(last, first)
		if !same(head1, first) {
			j.bad("the first leaf is recorded as %s, but is %s", head1, first)
		}
		if !same(tail1, last) {
			j.bad("the last leaf is recorded as %s, but is %s", tail1, last)
		}
		return
	}
	n := countOf(pageBase(fr.P))
	first0, last0 := childOf(fr.P, tZero), childOf(fr.P, addc(n, -1))
	link(mkApp("prevleaf", fr.P), first)
	link(last, mkApp("nextleaf", fr.P))
	for _, x := range []struct {
		e0, e1, l0, l1 *Term
		what           string
	}{{fr.head, head1, first0, first, "first"}, {fr.tail, tail1, last0, last, "last"}} {
		for {
			g := refineIndex(st, x.l0, x.l1)
			if g == nil {
				break
			}
			st.must(g)
		}
		d := st.decide(eqInt(x.e0, x.l0))
		names := append([]*Term{fr.N, childOf(fr.P, addc(fr.p, -1)), childOf(fr.P, addc(fr.p, 1))}, st.views...)
		for _, v := range names {
			if d == 0 && same(x.l0, v) {
				d = st.decide(eqInt(x.e0, v))
			}
		}
		if d == 0 && !same(x.l0, x.l1) {
			d = 2
		}
		switch {
		case d == 1 && !same(x.e1, x.l1):
			j.bad("the %s leaf is recorded as %s, but is %s", x.what, x.e1, x.l1)
		case d == -1 && !same(x.e1, x.e0):
			j.bad("the %s leaf is recorded as %s, although another one is", x.what, x.e1)
		case d == 0 && x.e1 != x.e0:
			j.bad("the %s leaf is recorded as %s without need", x.what, x.e1)
		case d == 2:
			j.bad("the %s leaf below the parent changes without checking whether it is the %s one at all", x.what, x.what)
		}
	}
}

func dbgPoint(pt *unitPoint) {
	dbg("== %s depth %d outcome %d next %v", shortName(pt.u.fn), pt.u.fr.depth, pt.j.n, pt.next)
	for _, a := range pt.sortedChanged() {
		dbg("   %s -> %s", a, pt.changed[a])
	}
}

// unitHeight: the height follows the root.
func (P *Program) unitHeight(pt *unitPoint) {
	fr, st, j := pt.u.fr, pt.st, pt.j
	h := sub(st.loadCell(fr.bpt, fr.hSel.sels, fr.hSel.typ), st.initialCell(fr.bpt, fr.hSel.sels, fr.hSel.typ))
	root1 := st.loadCell(fr.bpt, fr.rootSel.sels, fr.rootSel.typ)
	d := int64(0)
	if root1 != fr.root {
		pa, _ := pageOf(root1)
		switch {
		case pt.isFresh(root1):
			d = 1
		case pa == fr.root:
			d = -1
		default:
			j.open("the root becomes %s", root1)
			return
		}
	}
	if h.op != OConst || h.i != d {
		j.bad("the height changes by %s, the tree grows by %d levels", h, d)
	}
}
