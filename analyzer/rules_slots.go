package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The slot table of the unordered dictionary: selection of slots, growing and
// shrinking by one slot, directories.

// tableFields: the fields of HashMap which describe the slot table, found
// through the getters which report them.
type tableFields struct {
	slots, dirs fieldSel // counts
	min, max    fieldSel // exponents of the minimum of slots, the maximum of directories
	addr        fieldSel // address of the table of directories
	ok          bool
}

// shiftField resolves the field behind a getter which returns 1<<field.
func (P *Program) shiftField(pkg, typ, getter string) (fieldSel, bool) {
	f := P.method(pkg, typ, getter)
	if f == nil {
		return fieldSel{}, false
	}
	run := P.analyse(cfgAPI(P), f, nil)
	if run.err != "" || len(run.outs) != 1 || len(run.outs[0].ret) != 1 {
		return fieldSel{}, false
	}
	e := asPow2(run.outs[0].ret[0])
	if e == nil || e.op != OLoad || len(e.sels) == 0 {
		return fieldSel{}, false
	}
	return fieldSel{e.sels, e.typ}, true
}

func (P *Program) tableFields() *tableFields {
	if P.tabFields != nil {
		return P.tabFields
	}
	t := &tableFields{ok: true}
	P.tabFields = t
	set := func(d *fieldSel, f fieldSel, ok bool) {
		*d = f
		t.ok = t.ok && ok
	}
	f, ok := P.getterField(pkgHash, "HashMap", "NumberOfSlots")
	set(&t.slots, f, ok)
	f, ok = P.getterField(pkgHash, "HashMap", "NumberOfSlotDirs")
	set(&t.dirs, f, ok)
	f, ok = P.shiftField(pkgHash, "HashMap", "MinNumberOfSlots")
	set(&t.min, f, ok)
	f, ok = P.shiftField(pkgHash, "HashMap", "MaxNumberOfSlotDirs")
	set(&t.max, f, ok)
	// the only address
	n := 0
	if p := P.Pkgs[pkgHash]; p != nil {
		if o := p.Pkg.Scope().Lookup("HashMap"); o != nil {
			if s, ok := o.Type().Underlying().(*types.Struct); ok {
				for i := 0; i < s.NumFields(); i++ {
					if b, ok := s.Field(i).Type().Underlying().(*types.Basic); ok && b.Kind() == types.Int64 {
						t.addr = fieldSel{[]Sel{{Field: i}}, s.Field(i).Type()}
						n++
					}
				}
			}
		}
	}
	t.ok = t.ok && n == 1
	return t
}

// table: the values of the table fields at one moment.
type table struct{ S, D, M, T, A *Term }

func (t *tableFields) read(st *State, h *handle) table {
	return table{h.final(st, t.slots), h.final(st, t.dirs), h.final(st, t.min), h.final(st, t.max), h.final(st, t.addr)}
}

func (t *tableFields) initial(st *State, h *handle) table {
	return table{h.init(st, t.slots), h.init(st, t.dirs), h.init(st, t.min), h.init(st, t.max), h.init(st, t.addr)}
}

// slotPlace: a cell dirs[dir][cell] read from or written to.
type slotPlace struct {
	table *Term // address of the table the directory address was read from (nil: a new directory)
	dirAt *Term // address of the directory
	dir   *Term // its index in the table
	idx   *Term // the index whose low bits select the cell
	bits  *Term // the number of bits
}

// placeOf takes the object and offset of a slot address apart.
func placeOf(ob *Obj, off *Term) *slotPlace {
	if ob == nil || ob.kind != ObjView || off == nil {
		return nil
	}
	x := div8(off)
	if x == nil || x.op != OLow {
		return nil
	}
	p := &slotPlace{dirAt: ob.addr, idx: x.args[0], bits: x.args[1]}
	d := ob.addr
	if d.op == OLoad && d.obj != nil && d.obj.kind == ObjView && len(d.sels) == 1 {
		p.table = d.obj.addr
		p.dir = div8(d.sels[0].Idx)
		if p.dir == nil {
			return nil
		}
	}
	return p
}

func div8(t *Term) *Term {
	l := linOf(t)
	if l.c%8 != 0 {
		return nil
	}
	m := map[*Term]int64{}
	for a, c := range l.m {
		if c%8 != 0 {
			return nil
		}
		m[a] = c / 8
	}
	return lin{m, l.c / 8}.term()
}

// placeOfLoad: the place an address was read from.
func placeOfLoad(a *Term) *slotPlace {
	if a == nil || a.op != OLoad || a.obj == nil || len(a.sels) != 1 {
		return nil
	}
	return placeOf(a.obj, a.sels[0].Idx)
}

// holds: the inequality follows, unequal integers being at least one apart.
func holds(q *State, f *Term) bool {
	if q.decide(f) == 1 {
		return true
	}
	if f.op != OLE0 { // a <= 0
		return false
	}
	return q.decide(le0(addc(f.args[0], -1))) == 1 && q.decide(eq0(addc(f.args[0], -1))) == -1
}

// unsolvable: the equations among the facts have no integer solution.
func unsolvable(q *State) bool {
	var eqs []lin
	for _, f := range q.facts {
		if f.op == OEQ0 {
			eqs = append(eqs, linOf(f.args[0]))
		}
	}
	for i := 0; i < len(eqs); i++ {
		l := eqs[i]
		g := int64(0)
		var piv *Term
		for t, c := range l.m {
			if c < 0 {
				c = -c
			}
			if c == 1 && (piv == nil || t.id < piv.id) {
				piv = t
			}
			for a, b := g, c; ; {
				if b == 0 {
					g = a
					break
				}
				a, b = b, a%b
			}
		}
		if g == 0 && l.c != 0 || g > 1 && l.c%g != 0 {
			return true
		}
		if piv == nil {
			continue
		}
		for j := i + 1; j < len(eqs); j++ {
			k := eqs[j].m[piv] * l.m[piv]
			if k == 0 {
				continue
			}
			m := map[*Term]int64{}
			for t, c := range eqs[j].m {
				m[t] = c
			}
			for t, c := range l.m {
				m[t] -= k * c
				if m[t] == 0 {
					delete(m, t)
				}
			}
			eqs[j] = lin{m, eqs[j].c - k*l.c}
		}
	}
	return false
}

// fitsMin: bounds by the parts of a minimum hold for the minimum.
func fitsMin(q *State, x *Term, c *Content) {
	for ; c != nil; c = c.parent {
		if c.srcC != nil && c.srcC != c {
			fitsMin(q, x, c.srcC)
		}
		if c.ln == nil {
			continue
		}
		c.ln.walk(func(t *Term) bool {
			if t.op == OMin {
				all := true
				for _, a := range t.args {
					all = all && q.decide(le(x, a)) == 1
				}
				if all {
					q.assume(le(x, t))
				}
			}
			return true
		})
	}
}

// bitAxioms: what shifting and masking mean, for the terms that occur.
func bitAxioms(q *State, ts ...*Term) {
	done := map[*Term]bool{}
	pows := map[*Term]bool{}
	var visit func(t *Term)
	visit = func(t *Term) {
		t.walk(func(x *Term) bool {
			if done[x] {
				return true
			}
			done[x] = true
			switch x.op {
			case OShr, OLow:
				a, n := x.args[0], x.args[1]
				if q.decide(le(tZero, a)) != 1 {
					return true
				}
				p := pow2(n)
				if x.op == OLow {
					q.assume(le(tZero, x))
					q.assume(lt(x, p))
					q.assume(le(x, a))
				}
				if n.op == OConst {
					q.assume(le(tZero, shr(a, n)))
					q.assume(eqInt(a, add(mul(p, shr(a, n)), low(a, n))))
					q.assume(le(tZero, low(a, n)))
					q.assume(lt(low(a, n), p))
				}
			case OPow2:
				q.assume(le(tOne, x))
				pows[x] = true
			}
			return true
		})
	}
	for _, f := range q.facts {
		visit(f)
	}
	for _, t := range ts {
		visit(t)
	}
	for a := range pows {
		for b := range pows {
			if d := sub(a.args[0], b.args[0]); d.op == OConst && d.i > 0 && d.i < 8 {
				q.assume(eqInt(a, mulc(b, 1<<uint(d.i))))
			}
		}
	}
}

// splitBit: clearing or keeping bits of an index between 2^m and 2^(m+1).
func splitBit(q *State, idx, m *Term) {
	q.assume(eqInt(intern(&Term{op: OClrBit, args: []*Term{idx, m}}), sub(idx, pow2(m))))
	q.assume(eqInt(low(idx, m), sub(idx, pow2(m))))
}

// ---- selection ----

// shortLimit: the longest key whose hash is not kept with the item.
type shortLimit struct {
	max int64
	set bool
	any bool // no limit
}

// upperBound: the least constant bound of the term among the facts.
func upperBound(st *State, t *Term) (int64, bool) {
	best, ok := int64(0), false
	for _, f := range st.facts {
		if f.op != OLE0 {
			continue
		}
		d := sub(f.args[0], t)
		if d.op == OConst && (!ok || -d.i < best) {
			best, ok = -d.i, true
		}
	}
	if ok {
		return best, true
	}
	for c := int64(0); c <= 4096; c++ {
		if st.decide(le(t, mkInt(c))) == 1 {
			return c, true
		}
	}
	return 0, false
}

// hashOf: the hash of the content.
func hashOf(c *Term) *Term { return mkApp("fnv64a", mkApp("fnv", tNil, c)) }

// keyHash: the function of a key by which an operation selects the slot, as a
// term in which the content is replaced.
func hashIn(t, kt *Term) *Term {
	var h *Term
	t.walk(func(x *Term) bool {
		if x.op == OApp && x.s == "fnv64a" && x.contains(kt) {
			h = x
		}
		return h == nil
	})
	return h
}

func (P *Program) ruleSelect(r *Report) (lim shortLimit, bits *Term) {
	tf := P.tableFields()
	if !tf.ok {
		r.open("anchor", "HashMap", 0, "the fields of the slot table are not recognised", "")
		return
	}
	type reliance struct {
		j    *judge
		st   *State
		klen *Term
	}
	var rel []reliance
	P.hashOpRuns(r, func(op recOp, run *Run, h *handle) {
		bs := byKind(run, "bytes")
		eachOutcome(r, run, "select", func(j *judge, o *Outcome) {
			st := o.st
			kt := contentTerm(st, argOf(run, bs[0]))
			l := P.hashLookupOf(st, kt)
			if l == nil {
				j.open("no search for the key decides this outcome")
				return
			}
			p := placeOfLoad(l.slot)
			if p == nil || p.dir == nil {
				j.open("the place of the slot is not recognised: %s", l.slot)
				return
			}
			tb := tf.initial(st, h)
			if p.table != tb.A {
				j.bad("the slot's directory is taken from %s, not from the table of directories", p.table)
				return
			}
			if p.bits.op != OConst {
				j.open("directories of %s bits", p.bits)
				return
			}
			if bits == nil {
				bits = p.bits
			}
			q := st.clone()
			tableAssume(q, tb, bits)
			bitAxioms(q, p.idx, p.dir)
			if p.bits != bits || sameInt(q, p.dir, shr(p.idx, bits)) != 1 {
				j.bad("slot %s is taken from place (%s, %s) of the directories", p.idx, p.dir, low(p.idx, p.bits))
			}
			hs := hashIn(p.idx, kt)
			if hs == nil {
				j.bad("the slot %s is not selected by the hash of the key", p.idx)
				return
			}
			if hs != hashOf(kt) {
				j.open("the hash %s is not recognised", hs)
				return
			}
			hi := low(hs, addc(tb.M, 1))
			lo := low(hs, tb.M)
			// lo is hi without its highest bit
			clr := intern(&Term{op: OClrBit, args: []*Term{hi, tb.M}})
			inHi := q.decide(lt(hi, tb.S))
			bitAxioms(q, hi, lo)
			switch {
			case p.idx == hi:
				if inHi != 1 {
					j.bad("slot %s is used although it may not exist yet", p.idx)
				}
			case p.idx == clr || p.idx == lo:
				if inHi != -1 {
					j.bad("slot %s is used although slot %s may exist", p.idx, hi)
				}
			default:
				q.assume(le(pow2(tb.M), hi))
				q.assume(eqInt(clr, sub(hi, pow2(tb.M))))
				q.assume(eqInt(lo, sub(hi, pow2(tb.M))))
				if inHi == -1 && sameInt(q, p.idx, lo) == 1 {
					break
				}
				if understoodIdx(p.idx, hs) {
					j.bad("a key is looked up in slot %s, which its hash does not select", p.idx)
				} else {
					j.open("slot %s is not recognised", p.idx)
				}
			}
			// passing over items by their hashes
			for _, e := range allEvents(st.log) {
				if e.loop == nil {
					continue
				}
				for _, it := range e.loop.iters {
					if it.st == nil || it.st.dead {
						continue
					}
					if kl := skipByHash(it, kt, l); kl != nil {
						rel = append(rel, reliance{j, it.st, kl})
					}
				}
			}
			// what is stored with a new item
			edit, _, _ := expected(op.kind, l.found)
			if edit == "" {
				return
			}
			for _, e := range packCalls(run, o, l.it) {
				if edit != "insert" {
					continue
				}
				sl := packArg(e, l.it)
				for _, s := range run.snapsAt(e, o) {
					for _, at := range []*Term{lenOf(l.ref), tZero} {
						sum, k, _ := itemAt(s, l.it, sl, at)
						if k != kt {
							continue
						}
						if sum == hs || sum != nil && s.decide(eqInt(sum, hs)) == 1 {
							break
						}
						if b, ok := upperBound(s, contentLen(kt)); ok {
							if !lim.set || b > lim.max {
								lim.max, lim.set = b, true
							}
						} else {
							lim.any = true
						}
						break
					}
				}
			}
		})
	})
	dbg("lim %+v rel %d", lim, len(rel))
	for _, x := range rel {
		switch {
		case lim.any:
			x.j.bad("items are passed over by their hashes, but keys of any length are stored without")
		case lim.set && x.st.decide(lt(mkInt(lim.max), x.klen)) != 1:
			x.j.bad("items are passed over by their hashes also if their key has at most %d bytes, for which no hash is stored", lim.max)
		default:
			r.ok("byhash", "item passed over by its hash only if one is stored")
		}
	}
	r.need("select", 100)
	return
}

// understoodIdx: the term consists of nothing but bits of the hash, counts and constants.
func understoodIdx(t, hs *Term) bool {
	ok := true
	t.walk(func(x *Term) bool {
		if x == hs {
			return false
		}
		switch x.op {
		case OLow, OClrBit, OShr, OPow2, OLin, OConst, OLoad:
		default:
			ok = false
		}
		return ok && x.op != OLoad
	})
	return ok
}

// skipByHash: the item is passed over because of its hash; gives the length of its key.
func skipByHash(it *IterSum, kt *Term, l *hashLookup) *Term {
	for _, f := range it.facts {
		a, b, pos, ok := cmpOf(f)
		if ok && !pos && (a == kt || b == kt) {
			return nil
		}
	}
	for _, f := range it.facts {
		if f.op != ONot {
			continue
		}
		var sum *Term
		f.walk(func(x *Term) bool {
			if x.op == OLoad && x.obj == l.items && len(x.sels) == 2 && x.sels[1].Field == l.it.sum {
				sum = x
			}
			return sum == nil
		})
		if sum != nil {
			return lenOf(cellOf(sum.obj, sum.sels[0].Idx, l.it.key, l.it.keyT))
		}
	}
	return nil
}

// tableAssume: the invariant of the slot table.
func tableAssume(q *State, t table, bits *Term) {
	for _, f := range tableInv(t, bits) {
		q.assume(f.fact)
	}
	q.assume(le(mulc(pow2(t.T), 8), sizeOf(t.A)))
}

type invFact struct {
	fact *Term
	what string
}

func tableInv(t table, bits *Term) []invFact {
	return []invFact{
		{le(tZero, t.M), "the minimum number of slots is a power of two"},
		{le(pow2(t.M), t.S), "the minimum number of slots does not exceed the number of slots"},
		{lt(t.S, mulc(pow2(t.M), 2)), "the number of slots is less than twice the minimum"},
		{le(tOne, t.D), "there is a slot directory"},
		{le(t.S, mul(pow2(bits), t.D)), "the slots fit into the slot directories"},
		{le(t.D, pow2(t.T)), "the slot directories fit into their table"},
	}
}

func sizeOf(addr *Term) *Term { return mkApp("size", addr) }

// ---- steps ----

// slotStep: one path which adds or removes a slot.
type slotStep struct {
	run   *Run
	h     *handle
	loop  *LoopSum
	n     int
	at    *State
	end   *State
	evs   []*Event
	t0    table
	t1    table
	grows bool
}

// slotSteps finds the loops which change the number of slots.
func (P *Program) slotSteps(r *Report) []*slotStep {
	tf := P.tableFields()
	if !tf.ok {
		return nil
	}
	var steps []*slotStep
	for _, run := range safetyRuns(P) {
		if run.fn.Pkg.Pkg.Path() != pkgHash || run.err != "" {
			continue
		}
		h := handleOf(run, "HashMap")
		if h == nil {
			continue
		}
		seen := map[string]int{}
		for _, o := range run.outs {
			for _, e := range allEvents(o.st.log) {
				l := e.loop
				if l == nil || l.at == nil || seen[l.id] > 0 {
					continue
				}
				seen[l.id]++
				for n, it := range l.iters {
					if it.st == nil || it.st.dead {
						continue
					}
					s := &slotStep{run: run, h: h, loop: l, n: n, at: l.at, end: it.st, t0: tf.read(l.at, h), t1: tf.read(it.st, h)}
					switch it.st.decide(eqInt(s.t1.S, addc(s.t0.S, 1))) {
					case 1:
						s.grows = true
					default:
						if it.st.decide(eqInt(s.t1.S, addc(s.t0.S, -1))) != 1 {
							if s.t1 != s.t0 {
								r.open("step", shortName(run.fn), run.fn.Pos(), fmt.Sprintf("the number of slots changes from %s to %s", s.t0.S, s.t1.S), "")
							}
							continue
						}
					}
					in := false
					for _, ev := range it.log.list() {
						if ev.loop == l {
							in = true
						} else if in {
							s.evs = append(s.evs, ev)
						}
					}
					steps = append(steps, s)
				}
			}
		}
	}
	return steps
}

// viewInts: the integers written to mapped space in the step, as (object, offset, value).
type viewInt struct {
	ob  *Obj
	off *Term
	val *Term
}

func (s *slotStep) ints() []viewInt {
	var r []viewInt
	for _, ob := range sortedObjs(s.end.mem) {
		if ob.kind != ObjView {
			continue
		}
		for _, w := range newWrites(s.end.mem[ob], s.at.mem[ob]) {
			if w.kind == wInt {
				r = append(r, viewInt{ob, w.off, w.val})
			}
		}
	}
	return r
}

// callIn: the call among the events whose result the term is.
func callIn(evs []*Event, r *Term) *Event {
	for _, e := range evs {
		if e.kind != "call" {
			continue
		}
		for _, x := range resOf[e] {
			if x == r {
				return e
			}
		}
	}
	return nil
}

// encodedCall: the call whose result is encoded in the space with the address.
func encodedCall(evs []*Event, st *State, addr *Term) *Event {
	var ev *Event
	for _, w := range newWrites(st.mem[viewObj(addr)], nil) {
		if w.src == nil {
			continue
		}
		var t *Term
		if w.src.tag != nil {
			t = w.src.tag
		}
		if t == nil {
			continue
		}
		t.walk(func(x *Term) bool {
			if x.op == OLoad && x.obj != nil && x.obj.kind == ObjSym && x.obj.of != nil {
				if e := callIn(evs, symRoot(x.obj.of)); e != nil {
					ev = e
				}
			}
			return ev == nil
		})
		if ev != nil {
			return ev
		}
	}
	return nil
}

// kindOfCall classifies the calls between slots and items by their types.
func kindOfCall(e *Event) string {
	f := siteCallee(e)
	if f == nil {
		return ""
	}
	return kindOfFunc(f)
}

func kindOfFunc(f *ssa.Function) string {
	lists := func(t *types.Tuple) (n, words, others int) {
		for i := 0; i < t.Len(); i++ {
			u := t.At(i).Type().Underlying()
			if sl, ok := u.(*types.Slice); ok {
				if nm, ok := sl.Elem().(*types.Named); ok && itemRoles(nm) != nil {
					n++
					continue
				}
			}
			if b, ok := u.(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
				words++
				continue
			}
			others++
		}
		return
	}
	sig := f.Signature
	pn, pw, po := lists(sig.Params())
	rn, _, ro := lists(sig.Results())
	switch {
	case pn == 1 && rn == 2 && ro == 0 && pw >= 1:
		return "split"
	case pn == 2 && rn == 1 && ro == 0:
		return "merge"
	case pn == 1 && rn == 0 && ro == 1:
		return "pack"
	case pn == 0 && po >= 1 && rn == 1 && ro == 0:
		return "unpack"
	}
	return ""
}

func listArgs(e *Event) (lists, words []*Term) {
	f := siteCallee(e)
	for i, p := range f.Params {
		if i >= len(e.args) {
			break
		}
		u := p.Type().Underlying()
		if _, ok := u.(*types.Slice); ok {
			lists = append(lists, e.args[i])
		} else if b, ok := u.(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			words = append(words, e.args[i])
		}
	}
	return
}

// fromSlot: the items are those of the slot with the address (possibly none).
func fromSlot(evs []*Event, q *State, items, addr *Term) int {
	r := symRoot(items)
	e := callIn(evs, r)
	if e == nil || kindOfCall(e) != "unpack" || r != items {
		return 0
	}
	if a := slotOf(&State{}, symObj(items)); a != nil {
		if a == addr {
			return 1
		}
		return -1
	}
	if q.decide(lt(addr, tZero)) == 1 {
		return 1
	}
	return -1
}

func (s *slotStep) say() string {
	return fmt.Sprintf("%s step %d", s.run.name, s.n)
}

// ruleSteps: adding and removing a slot.
// The parts to report are listed in parts: count (numbers of slots and
// directories, the table), place (which slots are written), items (what is
// stored), space (what is released).
func (P *Program) ruleSteps(r *Report, lim shortLimit, bits *Term, parts string) {
	splitF := map[*ssa.Function][2]int{}
	ri := r
	if !strings.Contains(parts, "items") {
		ri = newReport(P, r.Prop)
	}
	mergeF := map[*ssa.Function]bool{}
	for _, s := range P.slotSteps(r) {
		s := s
		fails := 0
		part := "count"
		space := strings.Contains(parts, "space")
		bad := func(f string, a ...interface{}) {
			fails++
			if !strings.Contains(parts, part) {
				return
			}
			r.bad("step", shortName(s.loop.fn), s.loop.fn.Pos(), fmt.Sprintf(f, a...), s.say())
		}
		open := func(f string, a ...interface{}) {
			fails++
			if !strings.Contains(parts, part) {
				return
			}
			r.open("step", shortName(s.loop.fn), s.loop.fn.Pos(), fmt.Sprintf(f, a...), s.say())
		}
		verb := map[bool]string{true: "growing", false: "shrinking"}[s.grows]
		q := s.end.clone()
		tableAssume(q, s.t0, bits)
		if !s.grows {
			q.assume(le(mkInt(2), s.t0.S)) // the last slot is never removed
			q.assume(le(tOne, s.t1.S))
		}
		bitAxioms(q, s.t0.S, s.t1.S, shr(s.t0.S, bits), low(s.t0.S, bits), pow2(s.t0.M), pow2(s.t1.M), pow2(s.t0.T), pow2(s.t1.T))
		if q.dead || unsolvable(q) {
			continue
		}
		for _, f := range tableInv(s.t1, bits) {
			if f.fact == le(tZero, s.t1.M) && !s.grows {
				// 2^M <= S and S >= 1
				continue
			}
			if !holds(q, f.fact) {
				bad("after %s it no longer holds that %s (%s)", verb, f.what, f.fact)
			}
		}
		// the table of directories
		newTable := s.t1.A != s.t0.A
		size := map[*Term]*Term{}
		allocs := map[*Term]string{}
		for _, e := range s.evs {
			if e.kind == "alloc" && e.res != nil {
				size[e.res] = e.args[0]
				allocs[e.res] = ""
			}
		}
		byteSize := func(a *Term) *Term { // the size asked for
			t := size[a]
			if t != nil && t.op == OApp && t.s == "space" {
				t = t.args[0]
			}
			return t
		}
		if newTable {
			if size[s.t1.A] == nil {
				bad("the table of directories is set to %s", s.t1.A)
				continue
			}
			allocs[s.t1.A] = "table"
			if q.decide(le(mulc(pow2(s.t1.T), 8), byteSize(s.t1.A))) != 1 {
				bad("the new table of directories has %s bytes for 2^%s directories", byteSize(s.t1.A), s.t1.T)
			}
			z := q.clone()
			i := mkApp("someindex")
			z.assume(le(tZero, i))
			z.assume(lt(i, s.t0.D))
			z.assume(lt(i, s.t1.D))
			z.assume(le(mulc(pow2(s.t1.T), 8), sizeOf(s.t1.A)))
			for _, f := range tableInv(s.t1, bits) { // shown above
				z.assume(f.fact)
			}
			// 8(i+1) <= 8 D0 <= 8 2^T0 <= size of the table, likewise for the new one
			z.assume(le(mulc(addc(i, 1), 8), mulc(pow2(s.t1.T), 8)))
			z.assume(le(mulc(addc(i, 1), 8), mulc(pow2(s.t0.T), 8)))
			z.assume(le(mulc(addc(i, 1), 8), sizeOf(s.t0.A)))
			fitsMin(z, mulc(addc(i, 1), 8), z.cont(viewObj(s.t1.A)))
			v := z.readInt(viewObj(s.t1.A), z.cont(viewObj(s.t1.A)), mulc(i, 8), 8, "be")
			v0 := s.at.readInt(viewObj(s.t0.A), s.at.cont(viewObj(s.t0.A)), mulc(i, 8), 8, "be")
			if v != v0 {
				if strOpaque(v) {
					open("the new table of directories is not known: %s", v)
				} else {
					bad("directory addresses are not carried over to the new table (%s instead of %s)", v, v0)
				}
			}
		} else if s.t0.T != s.t1.T {
			bad("the maximum number of directories changes, but the table of directories remains")
		}
		// a directory more or less
		newDir := q.decide(eqInt(s.t1.D, addc(s.t0.D, 1))) == 1
		lessDir := q.decide(eqInt(s.t1.D, addc(s.t0.D, -1))) == 1
		if !newDir && !lessDir && sameInt(q, s.t0.D, s.t1.D) != 1 {
			bad("the number of directories changes from %s to %s", s.t0.D, s.t1.D)
			continue
		}
		var dirAddr *Term
		type slotW struct {
			p   *slotPlace
			val *Term
		}
		var writes []slotW
		for _, w := range s.ints() {
			if w.ob.addr == s.t1.A || w.ob.addr == s.t0.A {
				i := div8(w.off)
				switch {
				case w.ob.addr != s.t1.A:
					if !newTable {
						open("write to the table at %s", w.off)
					}
				case newDir && i != nil && sameInt(q, i, s.t0.D) == 1 && allocs[w.val] == "" && size[w.val] != nil:
					dirAddr = w.val
					allocs[w.val] = "dir"
					if q.decide(le(mul(mulc(pow2(bits), 8), tOne), byteSize(w.val))) != 1 {
						bad("the new directory has %s bytes for 2^%s slots", byteSize(w.val), bits)
					}
				default:
					bad("directory %s is set to %s", i, w.val)
				}
				continue
			}
			writes = append(writes, slotW{placeOf(w.ob, w.off), w.val})
		}
		if newDir && dirAddr == nil {
			bad("the number of directories grows, but no directory is recorded")
		}
		// the slots written
		if fails > 0 {
			continue
		}
		part = "place"
		last := s.t0.S // the slot added
		if !s.grows {
			last = s.t1.S // the slot removed
		}
		m := s.t0.M
		if !s.grows {
			m = s.t1.M
		}
		splitBit(q, last, m)
		other := sub(last, pow2(m))
		find := func(idx *Term) (*slotW, string) {
			for i := range writes {
				w := &writes[i]
				if w.p == nil || w.p.bits != bits || sameInt(q, w.p.idx, idx) != 1 {
					continue
				}
				bitAxioms(q, w.p.idx, shr(w.p.idx, bits))
				if w.p.table == nil {
					if w.p.dirAt != dirAddr {
						return w, "it is written to space which is no directory"
					}
					if sameInt(q, s.t0.D, shr(idx, bits)) != 1 {
						return w, "it is written to the new directory"
					}
				} else if w.p.table != s.t0.A && w.p.table != s.t1.A || sameInt(q, w.p.dir, shr(w.p.idx, bits)) != 1 {
					return w, fmt.Sprintf("it is written to directory %s", w.p.dir)
				} else if d := q.decide(lt(w.p.dir, s.t0.D)); d != 1 {
					bitAxioms(q, s.t0.S, mulc(s.t0.D, 1), shr(w.p.idx, bits), mul(s.t0.D, pow2(bits)))
					if q.decide(lt(w.p.dir, s.t0.D)) == -1 || d == -1 {
						return w, "its directory is not there yet"
					}
					z := q.clone()
					z.assume(le(s.t0.D, w.p.dir))
					z.assume(le(mul(s.t0.D, pow2(bits)), mul(w.p.dir, pow2(bits))))
					bitAxioms(z, w.p.idx, shr(w.p.idx, bits))
					if !z.dead && !unsolvable(z) {
						for _, f := range z.facts {
							dbg("directory fact %s", f)
						}
						dbg("directory %s against %s: %d", w.p.dir, s.t0.D, d)
					}
				}
				return w, ""
			}
			return nil, ""
		}
		check := func(idx *Term, what string) *slotW {
			w, why := find(idx)
			if w == nil {
				vals := ""
				known := true
				for _, x := range writes {
					if x.p == nil {
						known = false
						vals += " ?"
					} else {
						vals += " " + x.p.idx.String()
					}
				}
				if known {
					bad("%s does not record %s, slot %s (written:%s)", verb, what, idx, vals)
				} else {
					open("%s does not record %s, slot %s (written:%s)", verb, what, idx, vals)
				}
			} else if why != "" {
				bad("%s records slot %s, but %s", verb, idx, why)
			}
			return w
		}
		var wo, wl *slotW
		wo = check(other, "the slot whose items are divided")
		if s.grows {
			wl = check(last, "the new slot")
		}
		for i := range writes {
			if w := &writes[i]; w != wo && w != wl {
				if w.p == nil {
					open("a write to mapped space is not recognised")
				} else {
					bad("%s also changes slot %s", verb, w.p.idx)
				}
			}
		}
		if fails > 0 {
			continue
		}
		part = "items"
		// addresses of the slots before
		addrOf := func(idx *Term) *Term {
			// as read by the step: the load of the place
			var a *Term
			try := func(t *Term) {
				t.walk(func(x *Term) bool {
					if a == nil && x.op == OLoad {
						if p := placeOfLoad(x); p != nil && p.table != nil && p.bits == bits && (p.table == s.t0.A || p.table == s.t1.A) &&
							sameInt(q, p.idx, idx) == 1 && sameInt(q, p.dir, shr(p.idx, bits)) == 1 {
							a = x
						}
					}
					return a == nil
				})
			}
			for _, e := range s.evs {
				for _, t := range e.args {
					try(t)
				}
			}
			for _, f := range s.end.facts {
				try(f)
			}
			return a
		}
		ao := addrOf(other)
		var al *Term
		if !s.grows {
			al = addrOf(last)
		}
		if ao == nil || !s.grows && al == nil {
			bad("%s does not look at the slot(s) whose items are concerned", verb)
			continue
		}
		// items
		source := func(w *slotW, what string) *Event {
			if size[w.val] != nil {
				allocs[w.val] = "slot"
				e := encodedCall(s.evs, s.end, w.val)
				if e == nil || kindOfCall(e) != "pack" {
					open("what is stored in slot %s is not recognised", w.p.idx)
					return nil
				}
				return e
			}
			return nil
		}
		// the pack calls in the step
		var packs []*Event
		for _, e := range s.evs {
			if e.kind == "call" && kindOfCall(e) == "pack" {
				packs = append(packs, e)
			}
		}
		emptyPack := func(e *Event) bool {
			for _, f := range q.facts {
				if f.op != OEQ0 && f.op != OLE0 {
					continue
				}
				hit := false
				f.walk(func(x *Term) bool {
					hit = hit || x.op == OApp && callIn([]*Event{e}, x) == e
					return !hit
				})
				if hit && f.op == OEQ0 {
					return true
				}
			}
			return false
		}
		stored := func(w *slotW, want func(arg *Term) int, what string) {
			e := source(w, what)
			if e == nil {
				if size[w.val] != nil {
					return
				}
				if q.decide(lt(w.val, tZero)) != 1 {
					bad("slot %s is set to %s", w.p.idx, w.val)
					return
				}
				unknown := false
				for _, p := range packs {
					ls, _ := listArgs(p)
					if len(ls) == 1 && emptyPack(p) {
						switch want(ls[0]) {
						case 1:
							return
						case 0:
							unknown = true
						}
					}
				}
				if unknown {
					open("slot %s is recorded as empty, perhaps although %s are not", w.p.idx, what)
					return
				}
				bad("slot %s is recorded as empty although %s may not be", w.p.idx, what)
				return
			}
			ls, _ := listArgs(e)
			if len(ls) != 1 {
				open("%s", e.name)
				return
			}
			switch want(ls[0]) {
			case -1:
				bad("slot %s receives %s instead of %s", w.p.idx, ls[0], what)
			case 0:
				open("slot %s receives %s", w.p.idx, ls[0])
			}
		}
		if s.grows {
			half := func(side int) func(*Term) int {
				return func(arg *Term) int {
					c := callIn(s.evs, symRoot(arg))
					if c == nil || kindOfCall(c) != "split" || symRoot(arg) != arg {
						return 0
					}
					ls, ws := listArgs(c)
					if len(ls) != 1 || fromSlot(s.evs, q, ls[0], ao) != 1 {
						return -1
					}
					f := siteCallee(c)
					roles, ok := splitF[f]
					if !ok {
						roles = P.splitRoles(ri, f, lim)
						splitF[f] = roles
					}
					if roles[0] == roles[1] {
						return 0
					}
					if len(ws) != 1 || sameInt(q, ws[0], pow2(s.t0.M)) != 1 {
						return -1
					}
					if symRoot(arg).s == fmt.Sprintf("res:%s.%d", shortName(f), roles[side]) {
						return 1
					}
					return -1
				}
			}
			stored(wo, half(0), "the items whose slot remains the same")
			stored(wl, half(1), "the items which the new slot's bit selects")
		} else {
			stored(wo, func(arg *Term) int {
				c := callIn(s.evs, symRoot(arg))
				var ls []*Term
				if c == nil {
					var ok bool
					if ls, ok = P.joinedLists(s.end, arg, nil); !ok {
						return 0
					}
				} else {
					if kindOfCall(c) != "merge" || symRoot(arg) != arg {
						return 0
					}
					if ls, _ = listArgs(c); len(ls) != 2 {
						return 0
					}
					if f := siteCallee(c); !mergeF[f] {
						mergeF[f] = true
						P.mergeOK(ri, f)
					}
				}
				if fromSlot(s.evs, q, ls[0], ao) == 1 && fromSlot(s.evs, q, ls[1], al) == 1 || fromSlot(s.evs, q, ls[1], ao) == 1 && fromSlot(s.evs, q, ls[0], al) == 1 {
					return 1
				}
				return -1
			}, "the items of both slots")
		}
		if space {
			part = "space"
			frees := map[*Term]int{}
			for _, e := range s.evs {
				if e.kind == "free" {
					frees[e.args[0]]++
				}
			}
			expect := func(a *Term, what string, yes int) {
				n := frees[a]
				delete(frees, a)
				switch {
				case yes == 1 && n == 0:
					bad("%s never releases %s", verb, what)
				case yes == 1 && n > 1:
					bad("%s releases %s %d times", verb, what, n)
				case yes == -1 && n > 0:
					bad("%s releases %s", verb, what)
				case yes == 0 && n > 0:
					bad("%s releases %s whether or not it exists", verb, what)
				case yes == 0:
					bad("%s does not release %s, which may exist", verb, what)
				}
			}
			expect(ao, "the old space of slot "+other.String(), -q.decide(lt(ao, tZero)))
			if al != nil && al != ao {
				expect(al, "the space of the slot removed", -q.decide(lt(al, tZero)))
			}
			if newTable {
				expect(s.t0.A, "the old table of directories", 1)
			}
			if lessDir {
				d := s.at.readInt(viewObj(s.t0.A), s.at.cont(viewObj(s.t0.A)), mulc(s.t1.D, 8), 8, "be")
				expect(d, "the directory removed", 1)
			}
			for a := range frees {
				bad("%s releases %s, which is still used", verb, a)
			}
			for a, use := range allocs {
				if use == "" {
					bad("%s allocates space (%s) which is recorded nowhere", verb, size[a])
				}
			}
		}
		if fails == 0 {
			r.ok("step", s.say())
		}
	}
	r.need("step", 8)
}

// ruleCreate: a new table satisfies the invariant, its one slot is empty.
func (P *Program) ruleCreate(r *Report, bits *Term) {
	tf := P.tableFields()
	if !tf.ok {
		return
	}
	f := P.method(pkgHash, "HashMap", "Create")
	if f == nil {
		r.open("create", "HashMap.Create", 0, "no such function", "")
		return
	}
	run := P.analyse(cfgAPI(P), f, nil)
	r.use(run)
	if h := handleOf(run, "HashMap"); h != nil && r.usable(run) {
		eachOutcome(r, run, "create", func(j *judge, o *Outcome) {
			q := o.st.clone()
			t := tf.read(o.st, h)
			// the fields of a map not in use are zero
			t0 := tf.initial(o.st, h)
			for _, x := range []*Term{t0.S, t0.D, t0.M, t0.T} {
				q.assume(eqInt(x, tZero))
				for _, y := range []**Term{&t.S, &t.D, &t.M, &t.T} {
					*y = subst(*y, x, tZero)
				}
			}
			bitAxioms(q, t.M, t.T)
			for _, f := range tableInv(t, bits) {
				switch q.decide(f.fact) {
				case -1:
					j.bad("a new hash map violates: %s", f.what)
				case 0:
					if !holds(q, f.fact) {
						j.open("a new hash map may violate: %s", f.what)
					}
				}
			}
			if d := q.decide(eqInt(t.S, tOne)); d == -1 {
				j.bad("a new hash map has %s slots", t.S)
			}
			sizes := map[*Term]*Term{}
			for _, e := range o.st.log.list() {
				if e.kind == "alloc" {
					sizes[e.res] = e.args[0]
				}
			}
			if sz := sizes[t.A]; sz == nil {
				j.bad("a new hash map has no table of directories of its own")
				return
			} else if q.decide(le(mulc(pow2(t.T), 8), sz)) != 1 {
				j.bad("the table of directories of a new hash map has %s bytes for 1<<%s directories", sz, t.T)
			}
			to := viewObj(t.A)
			d := o.st.readInt(to, o.st.cont(to), tZero, 8, "be")
			if sz := sizes[d]; sz == nil {
				j.bad("the first slot directory of a new hash map is %s", d)
				return
			} else if q.decide(le(mulc(pow2(bits), 8), sz)) != 1 {
				j.bad("the slot directory of a new hash map has %s bytes for 1<<%s slots", sz, bits)
			}
			do := viewObj(d)
			a := o.st.readInt(do, o.st.cont(do), tZero, 8, "be")
			if q.decide(lt(a, tZero)) != 1 {
				j.bad("the first slot of a new hash map is not empty: its address is %s", a)
			}
		})
	}
	r.need("create", 1)
}

func ruleSlots(P *Program, r *Report) {
	lim, bits := P.ruleSelect(r)
	if bits == nil {
		return
	}
	P.ruleSteps(r, lim, bits, "count place items space")
	P.ruleCreate(r, bits)
}

func init() {
	register("C18", "Value-flow and invariant analysis of the slot table.",
		compose(ruleSlots))
}
