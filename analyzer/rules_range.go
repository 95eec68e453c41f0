package main

import (
	"fmt"
	"go/types"
)

// ---- searches for ranges (C14) ----
//
// Records are numbered 0, 1, ..., R-1 in the order of their keys. Of a bound K,
// below(K) records sort below it and upto(K) below it or equal to it. What a path
// learns about the bounds (searches of leaves, comparisons of keys, the tail of
// the chain of leaves) is translated into inequalities between these numbers; the
// range returned must be that of the records from below(min) to upto(max)-1.

type rangeKey struct {
	name     string
	arg      *Term
	key      *Term
	min, max *Term // tests for the sentinels
	lo, hi   *Term // below, upto
	class    int   // 0 ordinary, 1 the minimum, 2 the maximum
}

type rangeLeaf struct {
	page      *Term
	base, end *Term // numbers of the first record and of the one behind the last
	num       *Term // number of entries
}

func ruleRanges(P *Program, r *Report) {
	F := P.btFields()
	tail, head, ok := P.listFields()
	if !F.ok || !ok {
		r.open("range", "BPTree", 0, "the fields of the tree are not recognised", "")
		return
	}
	its := P.iterators(r)
	for _, root := range []struct {
		pkg, typ, name string
		forward        bool
	}{{pkgBPTree, "BPTree", "SearchForward", true}, {pkgBPTree, "BPTree", "SearchBackward", false},
		{modRoot, "OrderedDict", "RangeAsc", true}, {modRoot, "OrderedDict", "RangeDesc", false}} {
		f := P.method(root.pkg, root.typ, root.name)
		if f == nil {
			r.open("range", root.typ+"."+root.name, 0, "not found", "")
			continue
		}
		run := P.analyse(cfgRange(P), f, nil)
		if !r.usable(run) {
			continue
		}
		h := handleOf(run, "BPTree")
		bs := byKind(run, "bytes")
		if h == nil || len(bs) != 2 {
			r.open("range", shortName(f), f.Pos(), "unexpected signature", "")
			continue
		}
		var keys [2]*rangeKey
		bad := false
		for i, b := range bs {
			arg := argOf(run, b)
			k := &rangeKey{name: []string{"min", "max"}[i], arg: arg}
			for n, g := range []string{"MinKey", "MaxKey"} {
				t, other := sentinelTest(run, arg, g)
				if contains(other, "content:") {
					r.bad("range", shortName(f), f.Pos(), "a bound is taken for "+g+" by its content", other)
					bad = true
				}
				if n == 0 {
					k.min = t
				} else {
					k.max = t
				}
			}
			keys[i] = k
		}
		if bad {
			continue
		}
		eachOutcomeAll(r, run, "range", func(j *judge, o *Outcome) {
			P.rangeOutcome(j, o, run, h, F, tail, head, keys, root.forward, its)
		})
	}
	r.need("range", 100)
}

func (P *Program) rangeOutcome(j *judge, o *Outcome, run *Run, h *handle, F btFields, tailF, headF fieldSel, keys [2]*rangeKey, forward bool, its []*iterType) {
	if o.panics {
		j.open("may panic")
		return
	}
	st := o.st
	// what is returned
	var it *iterType
	var ob *Obj
	if v := o.ret[0]; v.op == OIface && v.args[0].op == OPtr && len(v.args[0].sels) == 0 {
		ob = v.args[0].obj
		for _, t := range its {
			if ob.typ != nil && (types.Identical(derefT(ob.typ), t.typ)) {
				it = t
			}
		}
	}
	if it == nil || it.open != "" {
		j.open("what is returned is not recognised as an iterator (%s)", o.ret[0])
		return
	}
	if it.forward != forward {
		j.bad("returns an iterator of the other direction")
		return
	}
	get := func(f fieldSel) *Term { return st.loadCell(ob, f.sels, f.typ) }
	end := get(it.end)
	lo, hi := [2]*Term{get(it.leaf), get(it.idx)}, [2]*Term{get(it.lastLeaf), get(it.lastIdx)}
	if !forward {
		lo, hi = hi, lo
	}
	R := h.init(st, F.records)
	tail, head := h.init(st, tailF), h.init(st, headF)
	clean := true
	for i := range keys {
		k := *keys[i]
		k.key = keyTerm(st, k.arg)
		k.lo, k.hi = mkSym("below("+k.name+")", tInt), mkSym("upto("+k.name+")", tInt)
		keys[i] = &k
	}
	// the searches
	var leaves []*rangeLeaf
	type found struct {
		k        *rangeKey
		l        *rangeLeaf
		loc, fnd *Term
	}
	var finds []found
	leafOf := func(pg *Term) *rangeLeaf {
		for _, l := range leaves {
			if l.page == pg {
				return l
			}
		}
		n := len(leaves)
		l := &rangeLeaf{pg, mkSym(fmt.Sprintf("first(%d)", n), tInt), mkSym(fmt.Sprintf("end(%d)", n), tInt), countOf(pageBase(pg))}
		leaves = append(leaves, l)
		return l
	}
	seen := map[*Term]bool{}
	for _, f := range st.facts {
		f.walk(func(t *Term) bool {
			if t.op != OApp || t.s != "located" && t.s != "locate" || seen[t] {
				return true
			}
			seen[t] = true
			pg := pageOfSeq(t.args[0])
			for _, k := range keys {
				if t.args[1] == k.key && pg != nil {
					loc, fnd := mkApp("locate", t.args...), mkApp("located", t.args...)
					if seen[fnd] && t != fnd || seen[loc] && t != loc {
						return true
					}
					finds = append(finds, found{k, leafOf(pg), loc, fnd})
					P.checkDescent(j, o, h, F, &lookup{found: st.decide(fnd) == 1, page: pg, idx: loc, fact: fnd}, k.key)
					return true
				}
			}
			clean = false
			return true
		})
	}
	for _, l := range append([]*rangeLeaf{}, leaves...) { // pages next to those
		v := viewObj(l.page)
		for _, off := range []int64{0, 8} {
			w := st.readInt(v, st.cont(v), mkInt(off), 8, "be")
			for _, x := range []*Term{lo[0], hi[0]} {
				if x == w {
					leafOf(w)
				}
			}
		}
	}
	for _, x := range []*Term{lo[0], hi[0]} {
		if x == tail || x == head {
			leafOf(x)
		}
	}
	// comparisons
	type comparison struct {
		c    *Term
		x, y *Term
	}
	var cmps []comparison
	for _, f := range st.facts {
		f.walk(func(t *Term) bool {
			if t.op == OApp && t.s == "cmp" && !seen[t] {
				seen[t] = true
				cmps = append(cmps, comparison{t, t.args[0], t.args[1]})
			}
			return true
		})
	}
	for _, e := range st.log.list() {
		if e.kind == "call" || e.kind == "extern" {
			clean = false
		}
	}
	if j.bads > 0 {
		return
	}
	if keys[0].key != keys[1].key {
		c := mkCmp(keys[0].key, keys[1].key)
		for a := range linOf(c).m {
			if !seen[a] {
				cmps = append(cmps, comparison{a, a.args[0], a.args[1]})
			}
		}
	}
	rawRecord := func(t *Term) (*Term, *Term) { // page, index
		if t.op == OApp && t.s == "raw" && t.args[0].op == OApp && t.args[0].s == "key" {
			if b := t.args[0].args[0]; b.op == OApp && b.s == "page" && len(b.args) == 1 {
				return b.args[0], t.args[0].args[1]
			}
		}
		return nil, nil
	}
	for _, c := range cmps {
		for _, t := range []*Term{c.x, c.y} {
			if pg, _ := rawRecord(t); pg != nil {
				leafOf(pg)
			} else if t != keys[0].key && t != keys[1].key {
				clean = false
			}
		}
	}
	// the pages may be known by several names
	same := func(a, b *Term) bool { return a == b || st.decide(eqInt(a, b)) == 1 }
	leafAt := func(pg *Term) *rangeLeaf {
		for _, l := range leaves {
			if same(l.page, pg) {
				return l
			}
		}
		return nil
	}
	isWord := func(pg, of *Term, off int64) bool {
		v := viewObj(of)
		return same(pg, st.readInt(v, st.cont(v), mkInt(off), 8, "be"))
	}
	ord := func(pg, i *Term) *Term {
		if l := leafAt(pg); l != nil {
			return add(l.base, i)
		}
		return nil
	}
	// numbers of entries and indices in terms of record numbers
	z := newZone()
	for _, l := range leaves {
		z.subst[l.num] = linOf(sub(l.end, l.base))
	}
	for _, f := range finds {
		z.subst[f.loc] = linOf(sub(f.k.lo, f.l.base))
	}
	for _, l := range leaves {
		if m := leafAt(l.page); m != l {
			z.subst[l.base], z.subst[l.end] = linOf(m.base), linOf(m.end)
		}
	}
	for _, f := range st.facts {
		z.assume(f)
	}
	nl, nf, nc := len(leaves), len(finds), len(cmps)
	leaves2 := leaves[:0:0]
	for _, l := range leaves {
		if leafAt(l.page) == l {
			leaves2 = append(leaves2, l)
		}
	}
	leaves = leaves2
	nl = len(leaves)
	isTail, isHead := make([]int, nl), make([]int, nl)
	for i, l := range leaves {
		isTail[i], isHead[i] = st.decide(eqInt(l.page, tail)), st.decide(eqInt(l.page, head))
	}
	fail := ""
	var cur [2]rangeKey
	var split func(z *zone, step int)
	split = func(z *zone, step int) {
		if fail != "" || !z.close() {
			return
		}
		fork := func(cs ...[]*Term) {
			for _, c := range cs {
				p := z.clone()
				for _, f := range c {
					p.assume(f)
				}
				split(p, step+1)
			}
		}
		switch n := step - 3; {
		case step == 0: // an empty tree
			e := z.clone()
			e.assume(eqInt(R, tZero))
			if e.close() && st.decide(end) != 1 {
				fail = "returns a range of an empty tree"
			}
			fork([]*Term{le(tOne, R)})
			return
		case step <= 2: // what the bounds are
			k := keys[step-1]
			for class := 0; class < 3; class++ {
				possible := true
				for n, t := range []*Term{k.min, k.max} {
					if t == nil {
						continue
					}
					if d := st.decide(t); d == -1 && class == n+1 || d == 1 && class != n+1 {
						possible = false
					}
				}
				if !possible {
					continue
				}
				cur[step-1] = *k
				cur[step-1].class = class
				fs := []*Term{le(tZero, k.lo), le(k.lo, k.hi), le(k.hi, addc(k.lo, 1)), le(k.hi, R)}
				switch class {
				case 1:
					fs = append(fs, eqInt(k.lo, tZero), eqInt(k.hi, tOne))
				case 2:
					fs = append(fs, eqInt(k.lo, addc(R, -1)), eqInt(k.hi, R))
				}
				fork(fs)
			}
			return
		case n < nl: // the leaves
			l := leaves[n]
			fs := []*Term{le(tZero, l.base), lt(l.base, l.end), le(l.end, R)}
			for _, a := range []bool{true, false} {
				for _, b := range []bool{true, false} {
					if b && isHead[n] == -1 || !b && isHead[n] == 1 || a && isTail[n] == -1 || !a && isTail[n] == 1 {
						continue
					}
					p := z.clone()
					for _, f := range fs {
						p.assume(f)
					}
					if a {
						p.assume(eqInt(l.end, R))
					} else {
						p.assume(lt(l.end, R))
					}
					if b {
						p.assume(eqInt(l.base, tZero))
					} else {
						p.assume(lt(tZero, l.base))
					}
					split(p, step+1)
				}
			}
			return
		case n < 2*nl: // neighbours
			l := leaves[n-nl]
			for _, m := range leaves {
				if isWord(l.page, m.page, 8) {
					if z.same(m.end, R) {
						z.assume(eqInt(l.base, tZero))
					} else {
						z.assume(eqInt(l.base, m.end))
					}
				}
				if isWord(l.page, m.page, 0) {
					if z.same(m.base, tZero) {
						z.assume(eqInt(l.end, R))
					} else {
						z.assume(eqInt(l.end, m.base))
					}
				}
			}
			split(z, step+1)
			return
		case n < 2*nl+nf: // searches
			f := finds[n-2*nl]
			k := cur[0]
			if f.k == keys[1] {
				k = cur[1]
			}
			d := st.decide(f.fnd)
			switch k.class {
			case 1:
				if d != -1 {
					fork([]*Term{eqInt(f.l.base, tZero)})
				}
				return
			case 2:
				if d != -1 {
					fork([]*Term{eqInt(f.l.end, R)})
				}
				return
			}
			if d != -1 {
				fork([]*Term{le(f.l.base, k.lo), lt(k.lo, f.l.end), eqInt(k.hi, addc(k.lo, 1))})
			}
			if d != 1 {
				fork([]*Term{lt(f.l.base, k.lo), le(k.lo, f.l.end), eqInt(k.hi, k.lo)},
					[]*Term{eqInt(f.l.base, k.lo), eqInt(k.hi, k.lo), eqInt(f.l.base, tZero)})
			}
			return
		case n < 2*nl+nf+nc: // comparisons
			c := cmps[n-2*nl-nf]
			key := func(t *Term) *rangeKey {
				for i := range keys {
					if keys[i].key == t {
						return &cur[i]
					}
				}
				return nil
			}
			pos := func(t *Term) *Term {
				if pg, i := rawRecord(t); pg != nil {
					return ord(pg, i)
				}
				return nil
			}
			ka, kb, pa, pb := key(c.x), key(c.y), pos(c.x), pos(c.y)
			less, same, more := lt(c.c, tZero), eqInt(c.c, tZero), lt(tZero, c.c)
			switch {
			case ka != nil && kb != nil && ka.class == 0 && kb.class == 0: // the bytes of a sentinel mean nothing
				fork([]*Term{less, le(ka.hi, kb.lo)},
					[]*Term{same, eqInt(ka.lo, kb.lo), eqInt(ka.hi, kb.hi)},
					[]*Term{more, le(kb.hi, ka.lo)})
			case pa != nil && pb != nil:
				fork([]*Term{less, lt(pa, pb)}, []*Term{same, eqInt(pa, pb)}, []*Term{more, lt(pb, pa)})
			case pa != nil && kb != nil && kb.class == 0:
				fork([]*Term{less, lt(pa, kb.lo)}, []*Term{same, eqInt(pa, kb.lo), lt(kb.lo, kb.hi)}, []*Term{more, le(kb.hi, pa)})
			case ka != nil && pb != nil && ka.class == 0:
				fork([]*Term{more, lt(pb, ka.lo)}, []*Term{same, eqInt(pb, ka.lo), lt(ka.lo, ka.hi)}, []*Term{less, le(ka.hi, pb)})
			default:
				split(z, step+1)
			}
			return
		}
		from, to := cur[0].lo, cur[1].hi
		desc := func(k rangeKey) string {
			return []string{"a key", "MinKey", "MaxKey"}[k.class]
		}
		say := func(f string, a ...interface{}) {
			fail = fmt.Sprintf(f, a...) + fmt.Sprintf(" (min is %s, max is %s)", desc(cur[0]), desc(cur[1]))
		}
		d := st.decide(end)
		if d != -1 && !z.le(to, from) {
			say("returns nothing although there may be records in the range")
		}
		if d == 1 || fail != "" {
			return
		}
		if !z.le(addc(from, 1), to) {
			say("returns records although there may be none in the range")
			return
		}
		for n, b := range [][2]*Term{lo, hi} {
			what, want := "first", from
			if n == 1 {
				what, want = "last", addc(to, -1)
			}
			l := leafAt(b[0])
			if l == nil {
				clean = false
				say("the %s record of the range, (%s, %s), is not recognised", what, b[0], b[1])
				return
			}
			if at := add(l.base, b[1]); !z.same(at, want) {
				say("the %s record of the range may not be (%s, %s)", what, b[0], b[1])
			} else if !z.le(l.base, at) || !z.le(addc(at, 1), l.end) {
				say("(%s, %s) may lie outside of the leaf", b[0], b[1])
			}
		}
	}
	split(z, 0)
	if fail != "" {
		if clean {
			j.bad("%s", fail)
		} else {
			j.open("%s", fail)
		}
	}
}

// zone keeps bounds on differences of integers; facts of any other form are left out.
type zone struct {
	subst map[*Term]lin
	idx   map[*Term]int // 0 stands for the number zero
	le_   map[[2]int]int64
	ne    [][3]int64
	bad   bool
	d     [][]int64
}

const zoneInf = int64(1) << 40

func newZone() *zone {
	return &zone{subst: map[*Term]lin{}, idx: map[*Term]int{}, le_: map[[2]int]int64{}}
}

func (z *zone) clone() *zone {
	c := &zone{subst: z.subst, idx: map[*Term]int{}, le_: map[[2]int]int64{}, ne: append([][3]int64{}, z.ne...), bad: z.bad}
	for k, v := range z.idx {
		c.idx[k] = v
	}
	for k, v := range z.le_ {
		c.le_[k] = v
	}
	return c
}

// diff: l as x - y + c.
func (z *zone) diff(l lin) (x, y int, c int64, ok bool) {
	for n := 0; n < 8; n++ {
		for a, k := range l.m {
			if s, ok := z.subst[a]; ok {
				m := lin{map[*Term]int64{}, l.c}
				for b, kb := range l.m {
					if b != a {
						m.m[b] = kb
					}
				}
				l = linAdd(m, s, k)
				break
			}
		}
	}
	as := sortedAtoms(l)
	if len(as) > 2 {
		return
	}
	for _, a := range as {
		i := z.idx[a]
		if i == 0 {
			i = len(z.idx) + 1
			z.idx[a] = i
		}
		switch {
		case l.m[a] == 1 && x == 0:
			x = i
		case l.m[a] == -1 && y == 0:
			y = i
		default:
			return
		}
	}
	return x, y, l.c, true
}

func (z *zone) put(x, y int, c int64) { // x - y <= c
	if x == y {
		z.bad = z.bad || c < 0
		return
	}
	if b, ok := z.le_[[2]int{x, y}]; !ok || c < b {
		z.le_[[2]int{x, y}] = c
	}
}

func (z *zone) assume(f *Term) {
	z.d = nil
	neg := false
	if f.op == ONot {
		f, neg = f.args[0], true
	}
	switch f.op {
	case OBool:
		z.bad = z.bad || (f.i == 1) == neg
	case OLE0:
		if neg {
			if x, y, c, ok := z.diff(linOf(f.args[0])); ok { // x-y+c >= 1
				z.put(y, x, c-1)
			}
			return
		}
		if x, y, c, ok := z.diff(linOf(f.args[0])); ok {
			z.put(x, y, -c)
		}
	case OEQ0:
		if x, y, c, ok := z.diff(linOf(f.args[0])); ok {
			if neg {
				z.ne = append(z.ne, [3]int64{int64(x), int64(y), -c})
				return
			}
			z.put(x, y, -c)
			z.put(y, x, c)
		}
	}
}

// close works out everything which follows; false if nothing satisfies the facts.
func (z *zone) close() bool {
	if z.d != nil || z.bad {
		return !z.bad
	}
	for {
		n := len(z.idx) + 1
		z.d = make([][]int64, n)
		for i := range z.d {
			z.d[i] = make([]int64, n)
			for j := range z.d[i] {
				z.d[i][j] = zoneInf
				if i == j {
					z.d[i][j] = 0
				}
			}
		}
		for k, c := range z.le_ {
			z.d[k[0]][k[1]] = c
		}
		for k := 0; k < n; k++ {
			for i := 0; i < n; i++ {
				if z.d[i][k] == zoneInf {
					continue
				}
				for j := 0; j < n; j++ {
					if z.d[k][j] != zoneInf && z.d[i][k]+z.d[k][j] < z.d[i][j] {
						z.d[i][j] = z.d[i][k] + z.d[k][j]
					}
				}
			}
		}
		for i := 0; i < n; i++ {
			if z.d[i][i] < 0 {
				z.bad = true
				return false
			}
		}
		more := false
		for _, e := range z.ne {
			x, y, c := int(e[0]), int(e[1]), e[2]
			if z.d[x][y] == c {
				z.put(x, y, c-1)
				more = true
			}
			if z.d[y][x] == -c {
				z.put(y, x, -c-1)
				more = true
			}
		}
		if !more {
			return true
		}
		if z.bad {
			return false
		}
	}
}

func (z *zone) le(a, b *Term) bool {
	n := len(z.idx)
	x, y, c, ok := z.diff(linOf(sub(a, b)))
	if !ok {
		return false
	}
	if len(z.idx) != n {
		z.d = nil
	}
	if !z.close() {
		return true
	}
	if x == y {
		return c <= 0
	}
	return z.d[x][y] <= -c
}

func (z *zone) same(a, b *Term) bool { return z.le(a, b) && z.le(b, a) }

func init() {
	register("C14", "Order analysis of the searches for ranges: what each path learns about the bounds is translated into inequalities between record numbers, which must determine the range returned.",
		compose(ruleRanges, ruleSentinels, ruleIterators,
			func(P *Program, r *Report) { P.ruleSearch(r, "leafController", "LocateRecord", 0) },
			func(P *Program, r *Report) { P.ruleSearch(r, "nonLeafController", "LocateChild", 1) }))
}
