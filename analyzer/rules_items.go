package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cfgItems analyses the functions which rearrange the items of slots: every
// path through a loop body is kept apart.
func cfgItems(P *Program) *Config {
	if P.cfgs["items"] == nil {
		P.setCfg(&Config{Name: "items", Prims: prims(P), PageObj: true, NoMerge: true,
			Boundary: func(f *ssa.Function) bool { return P.cyclic(f) }})
	}
	return P.cfgs["items"]
}

// listItem: the item type of a list of items.
func listItem(t types.Type) *itemType {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	n, ok := sl.Elem().(*types.Named)
	if !ok {
		return nil
	}
	return itemRoles(n)
}

// itemCell reads the three fields of element idx (relative to the slice) of a
// list in a state.
func itemCell(st *State, t *itemType, sl, idx *Term) [3]*Term {
	o, off, _, _ := sliceParts(sl)
	if o == nil {
		return [3]*Term{}
	}
	ss := []Sel{{Field: -1, Idx: add(off, idx)}}
	get := func(f int, typ types.Type) *Term {
		return st.loadCell(o, append(ss[:1:1], Sel{Field: f}), typ)
	}
	return [3]*Term{get(t.sum, t.sumT), get(t.key, t.keyT), get(t.val, t.valT)}
}

func sameItem(a, b [3]*Term) bool {
	return a[0] != nil && a == b
}

// walkRun: the loop of an outcome which goes over the elements of a list,
// all of them in order.
func walkLoop(o *Outcome, n *Term) (*LoopSum, string) {
	var ls *LoopSum
	for _, e := range o.st.log.list() {
		if e.kind != "loop" {
			continue
		}
		if ls != nil {
			return nil, "more than one loop"
		}
		ls = e.loop
	}
	return ls, ""
}

// at: a term over the values after the last iteration, over those at the start
// of iteration k, or at the start of the next.
func phiAt(ls *LoopSum, t, n *Term, to map[string]*Term) *Term {
	for name, s := range ls.start {
		sn := subst(s, ls.k, n)
		if sn != ls.k && t.contains(sn) {
			v := to[name]
			if v == nil {
				return nil
			}
			t = subst(t, sn, v)
		}
	}
	return t
}

// splitRoles: which result of a dividing function holds the items without the
// bit and which those with it; checks that each item goes to exactly one.
func (P *Program) splitRoles(r *Report, f *ssa.Function, lim shortLimit) (roles [2]int) {
	if f == nil {
		return
	}
	run := P.analyse(cfgItems(P), f, nil)
	r.use(run)
	if !r.usable(run) {
		return
	}
	var lp, bp *ssa.Parameter
	var it *itemType
	for _, p := range f.Params {
		if t := listItem(p.Type()); t != nil && lp == nil {
			lp, it = p, t
		} else if b, ok := p.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 && bp == nil {
			bp = p
		}
	}
	res := f.Signature.Results()
	if lp == nil || bp == nil || res.Len() != 2 {
		r.open("split", shortName(f), f.Pos(), "not a function which divides a list of items by a bit", "")
		return
	}
	L, bit := argOf(run, lp), argOf(run, bp)
	role := [2]int{-1, -1} // result -> side
	bad := false
	eachOutcome(r, run, "split", func(j *judge, o *Outcome) {
		n := lenOf(L)
		ls, why := walkLoop(o, n)
		if why != "" {
			j.open("%s", why)
			return
		}
		if ls == nil {
			if o.st.decide(eqInt(n, tZero)) != 1 {
				j.open("items are not gone over one by one")
				return
			}
			for i := 0; i < 2; i++ {
				if o.st.decide(eqInt(lenOf(o.ret[i]), tZero)) != 1 {
					j.bad("result %d is not empty for no items", i)
					bad = true
				}
			}
			return
		}
		count := n
		for i := 0; i < 2; i++ {
			// nothing in the results at first
			l0 := phiAt(ls, lenOf(o.ret[i]), count, ls.entry)
			if l0 == nil {
				j.open("result %d", i)
				return
			}
			if d := o.st.decide(eqInt(l0, tZero)); d != 1 {
				if d == -1 {
					j.bad("result %d starts with items in it", i)
					bad = true
				} else {
					j.open("result %d may start with items in it (%s)", i, l0)
				}
				return
			}
		}
		for _, e := range ls.exitsAt {
			q := iterState(ls, e)
			switch q.decide(le(n, ls.k)) {
			case 1:
			case -1:
				j.bad("the loop over the items ends before the last of them")
				bad = true
				return
			default:
				j.open("the loop over the items may end before the last of them")
				return
			}
		}
		if ls.at == nil {
			j.open("state inside the loop")
			return
		}
		for _, is := range ls.iters {
			q := iterState(ls, is)
			if unsolvable(q) {
				continue
			}
			if q.decide(lt(ls.k, n)) != 1 {
				j.open("iteration beyond the items")
				return
			}
			if x := q.decide(lt(ls.k, tZero)); x != -1 {
				j.open("iteration before the items")
				return
			}
			want := itemCell(ls.at, it, L, ls.k)
			to := -1
			for i := 0; i < 2; i++ {
				a, b := phiAt(ls, o.ret[i], count, ls.start), phiAt(ls, o.ret[i], count, is.next)
				if a == nil || b == nil {
					j.open("result %d", i)
					return
				}
				d := sub(lenOf(b), lenOf(a))
				switch {
				case q.decide(eqInt(d, tOne)) == 1:
					if to >= 0 {
						j.bad("an item goes to both results")
						bad = true
						return
					}
					to = i
					if got := itemCell(is.st, it, b, lenOf(a)); !sameItem(got, want) {
						if got[1] == nil || got[1].op == OSym {
							j.open("item appended to result %d", i)
						} else {
							j.bad("result %d receives something else than the item of this iteration", i)
							bad = true
						}
						return
					}
				case q.decide(eqInt(d, tZero)) == 1:
				default:
					j.open("result %d grows by %s", i, d)
					return
				}
				// those in it stay
				jx := mkSym("someitem", nil)
				qs := is.st.clone()
				qs.assume(le(tZero, jx))
				qs.assume(lt(jx, lenOf(a)))
				pre := ls.at.clone()
				pre.facts = append(pre.facts[:len(pre.facts):len(pre.facts)], le(tZero, jx), lt(jx, lenOf(a)))
				if !sameItem(itemCell(qs, it, b, jx), itemCell(pre, it, a, jx)) {
					j.open("earlier items of result %d", i)
					return
				}
			}
			if to < 0 {
				j.bad("an item goes to neither result")
				bad = true
				return
			}
			// those not yet visited stay
			jx := mkSym("lateritem", nil)
			qs := is.st.clone()
			qs.assume(lt(ls.k, jx))
			qs.assume(lt(jx, n))
			for _, f := range q.facts {
				qs.assume(f)
			}
			if got, was := itemCell(qs, it, L, jx), itemCell(ls.at, it, L, jx); !sameItem(got, was) {
				j.open("items not yet visited (%s, was %s)", got[1], was[1])
				return
			}
			side, h := splitSide(is, bit)
			if side < 0 {
				j.open("what decides where an item goes")
				return
			}
			sl := lenOf(want[1])
			content := contentTerm(ls.at, want[1])
			switch {
			case h == hashOf(content):
			case h == want[0]:
				if lim.set && !lim.any {
					if q.decide(le(sl, mkInt(lim.max))) != -1 {
						j.bad("the kept hash of an item decides although its key may be as short as %d, for which no hash is kept", lim.max)
						bad = true
						return
					}
				}
			default:
				j.open("items are divided by %s", h)
				return
			}
			if role[to] >= 0 && role[to] != side {
				j.bad("result %d receives items with and without the bit", to)
				bad = true
				return
			}
			role[to] = side
		}
	})
	if bad || role[0] < 0 && role[1] < 0 {
		return
	}
	for i := range role {
		if role[i] < 0 {
			role[i] = 1 - role[1-i]
		}
	}
	if role[0] == role[1] {
		r.bad("split", shortName(f), f.Pos(), "items with and without the bit go to the same result", "")
		return
	}
	for i, s := range role {
		roles[s] = i
	}
	return
}

// splitSide: whether the iteration is that of items with the bit (1) or
// without (0), and the hash the bit is of.
func splitSide(is *IterSum, bit *Term) (int, *Term) {
	for _, f := range is.facts {
		side, t := 0, f
		if t.op == ONot {
			side, t = 1, t.args[0]
		}
		if t.op != OEQ0 {
			continue
		}
		c := t.args[0]
		if c.op == OLin && len(c.args) == 1 {
			// hash&bit == bit
			if c.i == 0 {
				c = c.args[0]
			}
		}
		if c.op == OLin && len(c.args) == 2 && c.i == 0 {
			for i := range c.args {
				if c.args[i] == bit && c.args[1-i].contains(bit) {
					side, c = 1-side, c.args[1-i]
					break
				}
			}
		}
		if c.op == OBin && c.s == "&" && len(c.args) == 2 {
			if c.args[0] == bit {
				return side, c.args[1]
			}
			if c.args[1] == bit {
				return side, c.args[0]
			}
		}
	}
	return -1, nil
}

// iterState: the facts at the start of an iteration and those of the path
// through it.
func iterState(ls *LoopSum, is *IterSum) *State {
	q := is.st.clone()
	for _, f := range is.facts {
		q.assume(f)
	}
	return q
}

// move: elements [from,from+n) of a source list land at [to,to+n).
type move struct {
	src      int
	from, to *Term
	n        *Term
}

// mergeOK: the result of a merging function holds each item of both lists once.
func (P *Program) mergeOK(r *Report, f *ssa.Function) {
	if f == nil {
		return
	}
	run := P.analyse(cfgItems(P), f, nil)
	r.use(run)
	if !r.usable(run) {
		return
	}
	var lists []*Term
	var it *itemType
	for _, p := range f.Params {
		if t := listItem(p.Type()); t != nil {
			lists, it = append(lists, argOf(run, p)), t
		}
	}
	if len(lists) != 2 || f.Signature.Results().Len() != 1 {
		r.open("merge", shortName(f), f.Pos(), "not a function which merges two lists of items", "")
		return
	}
	eachOutcome(r, run, "merge", func(j *judge, o *Outcome) {
		ret := o.ret[0]
		total := add(lenOf(lists[0]), lenOf(lists[1]))
		switch o.st.decide(eqInt(lenOf(ret), total)) {
		case 1:
		case -1:
			j.bad("the merged list has %s items instead of %s", lenOf(ret), total)
			return
		default:
			j.open("the merged list has %s items, perhaps not %s", lenOf(ret), total)
			return
		}
		ms, why := P.movesInto(o.st, ret, lists, it)
		if why != "" {
			if strings.HasPrefix(why, "!") {
				j.bad("%s", why[1:])
			} else {
				j.open("%s", why)
			}
			return
		}
		switch d, what := checkMoves(o.st, ms, lists, total); d {
		case -1:
			j.bad("%s is not covered once by what is moved", what)
		case 0:
			j.open("%s may not be covered once by what is moved", what)
		}
	})
}

// tiles: the intervals (start, length) cover [0,n) exactly.
func tiles(q *State, iv [][2]*Term, n *Term) int {
	var left [][2]*Term
	for _, x := range iv {
		if q.decide(le(x[1], tZero)) == 1 {
			continue
		}
		left = append(left, x)
	}
	at := tZero
	for len(left) > 0 {
		next := -1
		for i, x := range left {
			if q.decide(eqInt(x[0], at)) == 1 {
				next = i
			}
		}
		if next < 0 {
			unknown := false
			for _, x := range left {
				if q.decide(eqInt(x[0], at)) == 0 && q.decide(lt(tZero, x[1])) != 1 {
					unknown = true
				}
			}
			if unknown {
				// an interval which may be empty
				return 0
			}
			for _, x := range left {
				if q.decide(eqInt(x[0], at)) == 0 {
					return 0
				}
			}
			return -1
		}
		at = add(at, left[next][1])
		left = append(left[:next], left[next+1:]...)
	}
	switch q.decide(eqInt(at, n)) {
	case 1:
		return 1
	case -1:
		return -1
	}
	return 0
}

// movesInto lists where the elements of a freshly built list come from.
func (P *Program) movesInto(st *State, ret *Term, lists []*Term, it *itemType) (ms []move, why string) {
	base, off, _, _ := sliceParts(ret)
	if base == nil {
		return nil, "the merged list has no known contents"
	}
	var objs [2]*Obj
	var offs [2]*Term
	for i, l := range lists {
		objs[i], offs[i], _, _ = sliceParts(l)
		if objs[i] == base {
			return nil, "the merged list reuses the memory of an argument"
		}
	}
	srcOf := func(ob *Obj) int {
		for i := range objs {
			if ob == objs[i] {
				return i
			}
		}
		return -1
	}
	loops := []*LoopSum{}
	for _, e := range st.log.list() {
		if e.kind == "loop" {
			loops = append(loops, e.loop)
		}
	}
	for c := st.cont(base); c != nil; c = c.parent {
		switch c.kind {
		case wCopy:
			s := srcOf(c.src)
			if s < 0 {
				return nil, "elements copied from elsewhere"
			}
			ms = append(ms, move{s, sub(c.srcOff, offs[s]), sub(c.off, off), c.ln})
		case wHavoc, wQuant:
			if len(loops) != 1 {
				return nil, "elements written by more than one loop"
			}
			ls := loops[0]
			loops = nil
			lm, per, why := loopMoves(st, ls, base, off, lists, it)
			if why != "" {
				// too few to fill the list whatever their places are
				if n := loopCount(ls, lists); n != nil && per >= 0 && c.parent == nil {
					sum := mulc(n, int64(per))
					for _, m := range ms {
						sum = add(sum, m.n)
					}
					q := st.clone()
					q.assume(le(tOne, n))
					if !q.dead && q.decide(lt(sum, add(lenOf(lists[0]), lenOf(lists[1])))) == 1 {
						return nil, fmt.Sprintf("!only %s elements are written to the merged list", sum)
					}
				}
				return nil, why
			}
			ms = append(ms, lm...)
		default:
			return nil, "elements written one by one"
		}
	}
	return ms, ""
}

// loopMoves: what a loop with a fixed number of moves per iteration, at
// adjacent places, moves altogether.
func loopMoves(st *State, ls *LoopSum, base *Obj, off *Term, lists []*Term, it *itemType) (ms []move, per int, why string) {
	per = -1
	if ls.at == nil {
		return nil, per, "state inside the loop"
	}
	n := loopCount(ls, lists)
	if n == nil {
		return nil, per, "number of iterations of the loop"
	}
	for x, is := range ls.iters {
		q := iterState(ls, is)
		if unsolvable(q) {
			continue
		}
		var dst []*Term
		var src []int
		seen := map[*Term]bool{}
		was := ls.at.cont(base)
		w := 0
		for c := is.st.cont(base); c != nil && c != was; c = c.parent {
			if c.kind != wCell || len(c.sels) == 0 {
				return nil, -1, "elements written in the loop"
			}
			if p := sub(c.sels[0].Idx, off); !seen[p] {
				seen[p] = true
				w++
			}
		}
		if w > per {
			per = w
		}
		seen = map[*Term]bool{}
		for c := is.st.cont(base); c != nil && c != was; c = c.parent {
			if c.kind != wCell || len(c.sels) == 0 {
				return nil, per, "elements written in the loop"
			}
			p := sub(c.sels[0].Idx, off)
			if seen[p] {
				continue
			}
			seen[p] = true
			got := itemCell(is.st, it, mkSlice(base, off, add(lenOf(lists[0]), lenOf(lists[1])), 0), p)
			s := -1
			for i, l := range lists {
				if sameItem(got, itemCell(ls.at, it, l, ls.k)) {
					s = i
				}
			}
			if s < 0 {
				return nil, per, "an element written in the loop is not that of the iteration"
			}
			dst, src = append(dst, p), append(src, s)
		}
		m := int64(len(dst))
		lo := mulc(ls.k, m)
		sum := tZero
		for _, p := range dst {
			if q.decide(le(lo, p)) != 1 || q.decide(lt(p, addc(lo, m))) != 1 {
				return nil, per, fmt.Sprintf("place %s of an element written in the loop", p)
			}
			sum = add(sum, sub(p, lo))
		}
		for a := range dst {
			for b := 0; b < a; b++ {
				if q.decide(eqInt(dst[a], dst[b])) != -1 && !(m == 2 && q.decide(eqInt(sum, tOne)) == 1) {
					return nil, per, "two elements may be written to one place"
				}
			}
		}
		var cur []move
		// as wholes: destinations of one source each are not known one by one, the block is
		cur = append(cur, move{-1, nil, tZero, mulc(n, m)})
		cnt := map[int]int{}
		for _, s := range src {
			cnt[s]++
		}
		for s := 0; s < len(lists); s++ {
			if cnt[s] > 1 {
				return nil, per, "an element written twice"
			}
			if cnt[s] == 1 {
				cur = append(cur, move{s, tZero, nil, n})
			}
		}
		if x > 0 && ms != nil && len(cur) != len(ms) {
			return nil, per, "iterations differ"
		}
		ms = cur
	}
	if ms == nil {
		return nil, per, "loop without iterations"
	}
	return ms, per, ""
}

// loopCount: the number of iterations of a loop over the shorter of two lists
// (or over one of them).
func loopCount(ls *LoopSum, lists []*Term) *Term {
	if len(ls.exitsAt) != 1 {
		return nil
	}
	q := iterState(ls, ls.exitsAt[0])
	for _, l := range lists {
		if q.decide(eqInt(ls.k, lenOf(l))) == 1 {
			return lenOf(l)
		}
	}
	return nil
}

// checkMoves: the moves fill the list and take each element once.
func checkMoves(st *State, ms []move, lists []*Term, total *Term) (int, string) {
	for i := -1; i < len(lists); i++ {
		what, n := "the merged list", total
		var iv [][2]*Term
		for _, m := range ms {
			if i < 0 && m.to != nil {
				iv = append(iv, [2]*Term{m.to, m.n})
			} else if i >= 0 && m.src == i {
				iv = append(iv, [2]*Term{m.from, m.n})
			}
		}
		if i >= 0 {
			what, n = "list "+fmt.Sprint(i+1), lenOf(lists[i])
		}
		if d := tiles(st, iv, n); d != 1 {
			return d, what
		}
	}
	return 1, ""
}

// joinedLists: the lists whose elements make up a list built on the spot.
func (P *Program) joinedLists(st *State, sl *Term, it *itemType) (lists []*Term, ok bool) {
	base, _, ln, _ := sliceParts(sl)
	if base == nil {
		return nil, false
	}
	for c := st.cont(base); c != nil; c = c.parent {
		if c.kind != wCopy || c.src == nil || c.src.kind != ObjSym || c.src.of == nil {
			return nil, false
		}
		lists = append(lists, c.src.of)
	}
	if len(lists) != 2 || lists[0] == lists[1] {
		return nil, false
	}
	ms, why := P.movesInto(st, sl, lists, it)
	if why != "" {
		return nil, false
	}
	d, _ := checkMoves(st, ms, lists, ln)
	return lists, d == 1
}
