package main

import (
	"go/constant"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Rules about the functions which say how many entries move from one page to
// its neighbour, or to a new one: the amounts they weigh are those which the
// pages will hold, and they stop before a bound is violated.

// countUse: what the result of a counting function is used for.
type countUse struct {
	fn    *ssa.Function
	inner bool
	src   int // parameter which is the page entries are taken from
	dst   int // parameter which is the page they go to, -1: a new page
	par   int // parameter which is the parent, -1: none
	right bool
	ints  map[int]*Term // integer arguments
	sep   *Term         // index in the parent of the right one of the two pages
}

func (c *countUse) key() string {
	d := "left"
	if c.right {
		d = "right"
	}
	return shortName(c.fn) + " " + d
}

// countUses: the uses of counts at the end of a step.
func (pt *unitPoint) countUses() (us []*countUse) {
	fr := pt.u.fr
	for _, e := range allEvents(pt.st.log) {
		f := siteCallee(e)
		if e.kind != "call" || f == nil || f.Signature.Results().Len() != 1 || !isIntType(f.Signature.Results().At(0).Type()) {
			continue
		}
		for _, d := range pt.sortedChanged() {
			q := pt.changed[d]
			if q == nil {
				continue
			}
			// a run of the entries of another page
			var s, lo, hi *Term
			many := false
			note := func(p, a, b *Term) {
				if p == d {
					return
				}
				switch {
				case s == nil:
					s, lo, hi = p, a, b
				case s == p && hi == a:
					hi = b
				default:
					many = true
				}
			}
			for _, g := range q.args {
				if isEl(g) {
					v := g.args[1]
					if v.op == OApp && v.s == "val" && v.args[0].op == OApp && v.args[0].s == "page" {
						note(v.args[0].args[0], v.args[1], addc(v.args[1], 1))
					}
					continue
				}
				if g.args[0].op == OApp && g.args[0].s == "page" {
					note(g.args[0].args[0], g.args[1], g.args[2])
				}
			}
			if s == nil || many || s == fr.P || s == fr.Q || d == fr.P || d == fr.Q {
				continue
			}
			n := countOf(pageBase(s))
			u := &countUse{fn: f, inner: fr.inner, src: -1, dst: -1, par: -1, ints: map[int]*Term{}}
			found := false
			for _, c := range resOf[e] {
				switch {
				case lo == tZero && hi == c:
					found = true
				case hi == n && lo == sub(n, c):
					u.right, found = true, true
				}
			}
			if !found {
				continue
			}
			for i, a := range e.args {
				o, _, _, _ := sliceParts(a)
				switch {
				case o != nil && o.addr != nil && o.addr == s:
					u.src = i
				case o != nil && o.addr != nil && o.addr == d:
					u.dst = i
				case o != nil && o.addr != nil && o.addr == fr.P:
					u.par = i
				case isIntType(f.Params[i].Type()):
					u.ints[i] = a
				}
			}
			r := s
			if u.right {
				r = d
			}
			if pa, ia := pageOf(r); pa == fr.P && pa != nil {
				u.sep = ia
			}
			if u.src < 0 || u.dst < 0 && !pt.isFresh(d) {
				pt.j.bad("the number of entries moved from %s to %s is not determined for these pages", s, d)
				continue
			}
			us = append(us, u)
		}
	}
	return
}

func cfgCount(P *Program) *Config {
	return &Config{Name: "count", Prims: prims(P), PageObj: true, ForkIndex: true, NoMerge: true}
}

// constOf: the value of a constant of the package.
func (P *Program) constOf(pkg string, names ...string) (int64, bool) {
	t := int64(0)
	for _, n := range names {
		c, ok := P.Pkgs[pkg].Members[n].(*ssa.NamedConst)
		if !ok {
			return 0, false
		}
		v, ok := constant.Int64Val(constant.ToInt(c.Value.Value))
		if !ok {
			return 0, false
		}
		t += v
	}
	return t, true
}

// ruleCounts checks every counting function for each use.
func (P *Program) ruleCounts(r *Report, uses []*countUse, ms map[*ssa.Function]*stepRole) {
	var over, under [2]int64 // bounds of leaves and inner pages
	for _, ro := range ms {
		k := 0
		if ro.inner {
			k = 1
		}
		if ro.over > 0 {
			over[k] = ro.over
		}
		if ro.under > 0 {
			under[k] = ro.under
		}
	}
	P.ruleThresholds(r, over, under)
	seen := map[string]bool{}
	sort.SliceStable(uses, func(i, k int) bool { return uses[i].key() < uses[k].key() })
	for _, u := range uses {
		k := 0
		if u.inner {
			k = 1
		}
		id := u.key()
		if u.sep != nil {
			for i := range u.fn.Params {
				if a := u.ints[i]; a != nil {
					id += " " + sub(u.sep, a).String()
				}
			}
		}
		if seen[id] {
			continue
		}
		seen[id] = true
		run := P.analyse(cfgCount(P), u.fn, nil)
		if !r.usable(run) {
			continue
		}
		eachOutcome(r, run, "count", func(j *judge, o *Outcome) { P.checkCount(j, run, o, u, over[k], under[k]) })
	}
}

// ruleThresholds: the bounds leave room for one more entry, and splitting and merging keep to them.
func (P *Program) ruleThresholds(r *Report, over, under [2]int64) {
	for k, what := range []string{"leaf", "inner page"} {
		size, entry := []string{"leafSize"}, []string{"recordHeaderSize", "maxKeySize", "maxValueSize"}
		head := "leafHeaderSize"
		if k == 1 {
			size, entry = []string{"nonLeafSize"}, []string{"nonLeafChildHeaderSize", "maxKeySize"}
			head = "nonLeafHeaderSize"
		}
		c, ok1 := P.constOf(pkgBPTree, size...)
		m, ok2 := P.constOf(pkgBPTree, entry...)
		if !ok1 || !ok2 || over[k] == 0 || under[k] == 0 {
			r.open("bounds", what, 0, "the bounds on the fill of pages are not recognised", "")
			continue
		}
		if h, ok := P.constOf(pkgBPTree, head); ok {
			c -= h
		}
		bad := false
		fail := func(s string) {
			bad = true
			r.bad("bounds", what, 0, s, "")
		}
		if over[k]+m > c {
			fail("a page within bounds may not have room for another entry")
		}
		if 2*under[k]+m > over[k]+1 {
			fail("a page which is too full cannot always be split, or two which are too empty merged")
		}
		if k == 0 && under[k] <= m {
			fail("a leaf which is full enough may hold a single record, and be empty without it")
		}
		if h, ok := P.constOf(pkgBPTree, "nonLeafChildHeaderSize"); k == 1 && ok && under[k] <= h {
			fail("an inner page which is full enough may have a single child")
		}
		if !bad {
			r.ok("bounds", what)
		}
	}
}

func isPhi(t *Term, start map[string]*Term) string {
	for n, s := range start {
		if s == t {
			return n
		}
	}
	return ""
}

// checkCount judges one outcome of a counting function.
func (P *Program) checkCount(j *judge, run *Run, o *Outcome, u *countUse, over, under int64) {
	if len(o.ret) != 1 || over == 0 || under == 0 {
		j.open("the bounds or the result are not known")
		return
	}
	ret := o.ret[0]
	if ret == tZero {
		return
	}
	var l *LoopSum
	for e := o.st.log; e != nil; e = e.parent {
		if e.kind == "loop" {
			if l != nil {
				j.open("entries are counted in several loops")
				return
			}
			l = e.loop
		}
	}
	if l == nil || l.k == nil {
		j.open("entries are not counted in a loop")
		return
	}
	st := o.st.clone()
	st.judging = true
	d := sub(ret, l.k)
	if d.op != OConst || d.i < 0 || d.i > 1 {
		j.open("the result %s is not the number of iterations", ret)
		return
	}
	e := d.i
	addr := func(i int) *Term {
		ob, _, _, _ := sliceParts(run.args[i])
		if ob == nil {
			return nil
		}
		return ob.addr
	}
	S := addr(u.src)
	if S == nil {
		j.open("the page is not recognised")
		return
	}
	k := l.k
	n := countOf(pageBase(S))
	hdr := "recordHeaderSize"
	if u.inner {
		hdr = "nonLeafChildHeaderSize"
	}
	h, ok := P.constOf(pkgBPTree, hdr)
	if !ok {
		j.open("the size of the header of an entry is not known")
		return
	}
	// idx: the entry moved with the m-th move (from 0); size: what leaves the page with it
	idx := func(m *Term) *Term {
		if u.right {
			return addc(sub(n, m), -1)
		}
		return m
	}
	klen := func(i *Term) *Term { return contentLen(keyOf(pageBase(S), i)) }
	size := func(m *Term) *Term {
		i := idx(m)
		switch {
		case !u.inner:
			return add(mkInt(h), add(klen(i), contentLen(valOf(pageBase(S), i))))
		case u.right:
			return add(mkInt(h), klen(i))
		}
		return add(mkInt(h), klen(addc(i, 1)))
	}
	// variables which are functions of the number of the iteration
	var names []string
	for v := range l.start {
		names = append(names, v)
	}
	sort.Strings(names)
	next := func(it *IterSum, v string) *Term { return it.next[v] }
	known := map[*Term]*Term{}
	for _, v := range names {
		var nx *Term
		for i, it := range l.iters {
			x := next(it, v)
			if x == nil || i > 0 && x != nx {
				nx = nil
				break
			}
			nx = x
		}
		if nx == nil || l.start[v] == nil || l.start[v].op != OApp {
			continue
		}
		free := true
		for _, w := range names {
			if s := l.start[w]; s != nil && s != k && s.op == OApp && occurs(nx, s) {
				free = false
			}
		}
		if prev := subst(nx, k, addc(k, -1)); free && subst(prev, k, tZero) == l.entry[v] {
			known[l.start[v]] = prev
		}
	}
	norm := func(t *Term) *Term {
		if t == nil {
			return nil
		}
		for a, b := range known {
			t = subst(t, a, b)
		}
		return t
	}
	delta := func(it *IterSum, v string) *Term {
		if x := next(it, v); x != nil && l.start[v] != nil {
			return norm(sub(x, l.start[v]))
		}
		return nil
	}
	every := func(f func(it *IterSum) bool) bool {
		for _, it := range l.iters {
			if !f(it) {
				return false
			}
		}
		return len(l.iters) > 0
	}
	neg := func(t *Term) *Term { return sub(tZero, t) }
	// the amount left on the page
	load := mkApp("load", initialSeq(S))
	find := func(load *Term, want func(a int64) (first, step *Term)) (name string, a int64, why string) {
		for _, v := range names {
			for a := int64(0); a <= 1; a++ {
				f0, step := want(a)
				entry := norm(l.entry[v]) == norm(f0)
				moved := every(func(it *IterSum) bool { x := delta(it, v); return x != nil && x == norm(step) })
				if entry && moved {
					return v, a, ""
				}
				if entry && a == 0 && why == "" {
					if x := delta(l.iters[0], v); x != nil && x != tZero {
						why = "the amount left or gained, " + load.String() + " at first, changes by " + x.String() + " with an entry, it should by " + norm(step).String()
					}
				}
				if moved && !entry {
					why = "the amount left or gained starts from " + l.entry[v].String() + ", it should from " + norm(f0).String()
				}
			}
		}
		return "", 0, why
	}
	if len(l.iters) == 0 {
		j.open("no iteration")
		return
	}
	v1, a1, why := find(load, func(a int64) (*Term, *Term) {
		if a == 0 {
			return load, neg(size(k))
		}
		return sub(load, size(tZero)), neg(size(addc(k, 1)))
	})
	if v1 == "" {
		if why != "" {
			j.bad("%s", why)
		} else {
			j.open("the amount left on the page is not followed in a way which is understood")
		}
		return
	}
	// left(m-k): what is left after so many moves
	left := func(c int64) *Term {
		t := l.start[v1]
		for x := a1; x < c; x++ {
			t = sub(t, size(addc(k, x)))
		}
		for x := c; x < a1; x++ {
			t = add(t, size(addc(k, x)))
		}
		return t
	}
	U, O := mkInt(under), mkInt(over)
	holds := func(q *State, c *Term) bool {
		if q.decide(c) == 1 {
			return true
		}
		z := q.clone()
		z.judging = true
		for s, b := range known {
			z.assume(eqInt(s, b))
		}
		return z.dead || z.decide(c) == 1
	}
	iterState := func(it *IterSum) *State {
		q := l.at.clone()
		q.judging = true
		for _, f := range it.facts {
			q.assume(f)
		}
		return q
	}
	// entries which stay are enough
	for _, it := range l.iters {
		if !holds(iterState(it), le(U, left(1))) {
			j.bad("an entry is moved although less than %d may be left", under)
			return
		}
	}
	if e == 1 && !holds(st, le(U, left(1))) {
		j.bad("an entry is moved although less than %d may be left", under)
		return
	}
	if u.dst < 0 {
		// a new page: enough go there
		v2 := ""
		for _, v := range names {
			for a := int64(0); a <= 1 && v2 == ""; a++ {
				step := size(addc(k, a))
				if v != v1 && every(func(it *IterSum) bool { return delta(it, v) == norm(step) }) {
					x := tZero
					if a == 1 {
						x = size(tZero)
					}
					diff := norm(sub(l.entry[v], x))
					if diff.op == OConst || diff == norm(sub(mkInt(h), size(tZero))) {
						v2 = v
					}
				}
				if v != v1 && u.inner && a == 0 && every(func(it *IterSum) bool { return delta(it, v) == norm(size(k)) }) && l.entry[v] == mkInt(h) {
					v2 = v
				}
			}
		}
		stopped := holds(st, lt(left(e+1), U))
		if !stopped && v2 != "" {
			for _, x := range []*Term{l.start[v2], add(l.start[v2], size(k)), add(l.start[v2], size(addc(k, 1)))} {
				if holds(st, le(left(e), x)) {
					stopped = true
				}
			}
		}
		if !stopped {
			if v2 == "" {
				j.open("the amount put on the new page is not followed in a way which is understood")
			} else {
				j.bad("no more entries are moved although the new page may have less than the other one and that one enough")
			}
		}
		return
	}
	D := addr(u.dst)
	if D == nil {
		j.open("the page is not recognised")
		return
	}
	dload := mkApp("load", initialSeq(D))
	gain := func(it *IterSum) *Term { return size(k) }
	var gained func(c int64) *Term
	if u.inner {
		// the key which goes along is the separator
		if u.par < 0 || u.sep == nil {
			j.bad("the separator between the pages cannot be taken into account")
			return
		}
		W := addr(u.par)
		right := u.sep
		first := (*Term)(nil)
		for i, a := range u.ints {
			x := run.args[i]
			first = contentLen(keyOf(pageBase(W), add(x, sub(right, a))))
		}
		if first == nil {
			j.open("the separator is not recognised")
			return
		}
		taken := func(m *Term) *Term { return sub(size(m), mkInt(h)) }
		sep := ""
		for _, v := range names {
			if l.entry[v] == first && every(func(it *IterSum) bool { return next(it, v) == taken(k) }) {
				sep = v
			}
		}
		if sep == "" {
			for _, v := range names {
				if en := l.entry[v]; en != first && every(func(it *IterSum) bool { return next(it, v) == taken(k) }) && en != nil {
					j.bad("the first separator is taken to have the size %s, it has %s", en, first)
					return
				}
			}
		} else {
			gain = func(it *IterSum) *Term { return add(mkInt(h), l.start[sep]) }
			gained = func(c int64) *Term {
				if c == 0 {
					return tZero
				}
				return add(mkInt(h), l.start[sep])
			}
		}
		if sep == "" {
			v2 := ""
			for _, v := range names {
				if l.entry[v] == dload {
					v2 = v
				}
			}
			if v2 != "" && every(func(it *IterSum) bool { x := delta(it, v2); return x != nil && x != tZero }) {
				j.bad("the page an entry goes to gets %s more, it should get the separator", delta(l.iters[0], v2))
			} else {
				j.open("the separator is not followed in a way which is understood")
			}
			return
		}
	} else {
		gained = func(c int64) *Term {
			if c == 0 {
				return tZero
			}
			return size(k)
		}
	}
	v2, why := "", ""
	for _, v := range names {
		entry := l.entry[v] == dload
		moved := every(func(it *IterSum) bool { return delta(it, v) == norm(gain(it)) })
		switch {
		case entry && moved:
			v2 = v
		case entry:
			if x := delta(l.iters[0], v); x != nil && x != tZero {
				why = "the page an entry goes to gets " + x.String() + " more, it should get " + norm(gain(l.iters[0])).String()
			}
		case moved && v != v1:
			why = "the page the entries go to is taken to hold " + l.entry[v].String() + " at first, it holds " + dload.String()
		}
	}
	if v2 == "" {
		if why != "" {
			j.bad("%s", why)
		} else {
			j.open("the amount on the page entries go to is not followed in a way which is understood")
		}
		return
	}
	there := func(c int64) *Term { return add(l.start[v2], gained(c)) }
	for _, it := range l.iters {
		if !holds(iterState(it), le(there(1), O)) {
			j.bad("an entry is moved although the other page may hold more than %d with it", over)
			return
		}
	}
	if e == 1 && !holds(st, le(there(1), O)) {
		j.bad("an entry is moved although the other page may hold more than %d with it", over)
		return
	}
	if !holds(st, le(left(e), O)) {
		j.bad("entries are moved although the page may still hold more than %d", over)
	}
	if !holds(st, le(U, there(e))) {
		j.bad("entries are moved although the other page may still hold less than %d", under)
	}
}

func occurs(t, x *Term) bool {
	if t == nil {
		return false
	}
	return t == x || subst(t, x, mkSym("occurs?", nil)) != t
}

func isIntType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int
}
