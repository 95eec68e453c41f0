package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// The operations of the unordered dictionary on single items.

var hashOps = []recOp{
	{pkgHash, "HashMap", "AddItem", "add", true},
	{pkgHash, "HashMap", "UpdateItem", "update", true},
	{pkgHash, "HashMap", "AddOrUpdateItem", "upsert", true},
	{pkgHash, "HashMap", "DeleteItem", "delete", true},
	{pkgHash, "HashMap", "HasItem", "has", true},
	{modRoot, "Dict", "SetIfNotExists", "add", true},
	{modRoot, "Dict", "SetIfExists", "update", true},
	{modRoot, "Dict", "Set", "upsert", false},
	{modRoot, "Dict", "Clear", "delete", true},
	{modRoot, "Dict", "Test", "has", true},
}

// itemType: the structure an item is decoded into, by roles.
type itemType struct {
	typ              *types.Named
	st               *types.Struct
	sum, key, val    int
	sumT, keyT, valT types.Type
}

// hashLookup: where an operation found its key or found it missing.
type hashLookup struct {
	found bool
	items *Obj  // the decoded items
	ref   *Term // the decoded slice
	idx   *Term // index of the item found
	slot  *Term // address of the slot
	it    *itemType
	why   string
}

func (P *Program) itemTypeOf(o *Obj) *itemType {
	if o == nil || o.kind != ObjSym || o.of == nil {
		return nil
	}
	t := o.of.typ
	if t == nil {
		t = resTypes[o.of.s]
	}
	if t == nil {
		return nil
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return nil
	}
	n, ok := sl.Elem().(*types.Named)
	if !ok {
		return nil
	}
	return itemRoles(n)
}

func itemRoles(n *types.Named) *itemType {
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	it := &itemType{typ: n, st: st, sum: -1, key: -1, val: -1}
	for i := 0; i < st.NumFields(); i++ {
		t := st.Field(i).Type()
		b, basic := t.Underlying().(*types.Basic)
		switch {
		case basic && b.Kind() == types.Uint64:
			it.sum, it.sumT = i, t
		case isByteSlice(t) && it.key < 0 && st.Field(i).Name() != "Value":
			it.key, it.keyT = i, t
		case isByteSlice(t):
			it.val, it.valT = i, t
		}
	}
	if it.sum < 0 || it.key < 0 || it.val < 0 {
		return nil
	}
	return it
}

// cmpOf takes a comparison of two contents apart.
func cmpOf(t *Term) (a, b *Term, pos, ok bool) {
	pos = true
	if t.op == ONot {
		t, pos = t.args[0], false
	}
	if t.op != OEQ0 {
		return nil, nil, false, false
	}
	c := t.args[0]
	if c.op == OLin && len(c.args) == 1 && c.i == 0 {
		c = c.args[0]
	}
	if c.op != OApp || c.s != "cmp" {
		return nil, nil, false, false
	}
	return c.args[0], c.args[1], pos, true
}

// itemOf: content is the bytes of a field of an element of a decoded slice.
func itemOf(c *Term) (o *Obj, idx *Term, field int) {
	if c.op != OApp || c.s != "bytes" || len(c.args) != 1 {
		return nil, nil, 0
	}
	l := c.args[0]
	if l.op != OLoad || l.obj == nil || l.obj.kind != ObjSym || len(l.sels) != 2 || l.sels[0].Field >= 0 || l.sels[1].Field < 0 {
		return nil, nil, 0
	}
	return l.obj, l.sels[0].Idx, l.sels[1].Field
}

// slotOf: the address of the slot the items were decoded from.
func slotOf(st *State, o *Obj) *Term {
	var a *Term
	n := 0
	o.of.walk(func(x *Term) bool {
		if x.op == OApp && x.s == "mem" && len(x.args) == 2 {
			x.args[1].walk(func(y *Term) bool {
				if y.op == OApp && y.s == "size" && a == nil {
					a = y.args[0]
				}
				return a == nil
			})
		}
		return a == nil
	})
	if a != nil {
		return a
	}
	// nothing was decoded: the address on this path is negative
	for _, f := range st.facts {
		if f.op != OLE0 {
			continue
		}
		f.walk(func(x *Term) bool {
			if x.op == OLoad && x.obj != nil && x.obj.kind == ObjView && x.s == "be64" && st.decide(lt(x, tZero)) == 1 {
				a, n = x, n+1
			}
			return true
		})
	}
	if n >= 1 {
		return a
	}
	return nil
}

func (P *Program) hashLookupOf(st *State, kt *Term) *hashLookup {
	// found: a key equal to the one given
	for _, f := range st.facts {
		a, b, pos, ok := cmpOf(f)
		if !ok || !pos {
			continue
		}
		if b == kt {
			a, b = b, a
		}
		o, idx, fld := itemOf(b)
		if a != kt || o == nil {
			continue
		}
		it := P.itemTypeOf(o)
		if it == nil || it.key != fld {
			continue
		}
		return &hashLookup{found: true, items: o, ref: o.of, idx: idx, slot: slotOf(st, o), it: it}
	}
	// missing: a loop which compares every item
	for _, e := range allEvents(st.log) {
		if e.loop == nil {
			continue
		}
		var o *Obj
		var idx *Term
		full := ""
		for _, it := range e.loop.iters {
			if it.st == nil || it.st.dead {
				continue
			}
			hit := false
			for _, f := range it.facts {
				a, b, pos, ok := cmpOf(f)
				if !ok {
					continue
				}
				if b == kt {
					a, b = b, a
				}
				oo, ii, _ := itemOf(b)
				if a != kt || oo == nil {
					continue
				}
				if pos {
					full = "the search goes on after an item with the key was found"
				}
				hit = true
				o, idx = oo, ii
			}
			_ = hit
		}
		if o == nil {
			continue
		}
		itt := P.itemTypeOf(o)
		if itt == nil {
			continue
		}
		n := lenOf(o.of)
		l := &hashLookup{items: o, ref: o.of, slot: slotOf(st, o), it: itt, why: full}
		// all indices in turn
		switch {
		case idx == e.loop.k:
		case idx == addc(sub(n, e.loop.k), -1):
		default:
			l.why = "the search compares the items at " + idx.String()
		}
		for _, x := range e.loop.exitsAt {
			if factState(x.facts).decide(le(n, e.loop.k)) == 1 {
				continue
			}
			hit := false
			for _, f := range x.facts {
				a, b, pos, ok := cmpOf(f)
				if b == kt {
					a, b = b, a
				}
				if !ok || !pos || a != kt {
					continue
				}
				if oo, ii, _ := itemOf(b); oo == o && ii == idx {
					hit = true
				}
			}
			if !hit && l.why == "" {
				l.why = "the search ends before all items are compared"
			}
		}
		if l.why == "" {
			for _, it := range e.loop.iters {
				if it.st == nil || it.st.dead {
					continue
				}
				if w := skipReason(it, kt, o, idx, itt); w != "" {
					l.why = w
				}
			}
		}
		return l
	}
	return nil
}

// factState: a state in which just the facts hold.
func factState(fs []*Term) *State {
	st := newState(nil)
	for _, f := range fs {
		st.assume(f)
	}
	return st
}

// skipReason: why going on to the next item is wrong, if it is.
func skipReason(it *IterSum, kt *Term, o *Obj, idx *Term, t *itemType) string {
	for _, f := range it.facts {
		a, b, pos, ok := cmpOf(f)
		if ok && !pos {
			if b == kt {
				a, b = b, a
			}
			if oo, ii, _ := itemOf(b); a == kt && oo == o && ii == idx {
				return ""
			}
		}
	}
	// lengths differ
	kl := lenOf(cellOf(o, idx, t.key, t.keyT))
	if it.st.decide(eqInt(kl, contentLen(kt))) == -1 {
		return ""
	}
	// hashes differ
	sum := cellOf(o, idx, t.sum, t.sumT)
	if it.st.decide(eqInt(sum, mkApp("fnv64a", mkApp("fnv", tNil, kt)))) == -1 {
		return ""
	}
	return "an item is passed over without being compared"
}

func cellOf(o *Obj, idx *Term, field int, typ types.Type) *Term {
	return intern(&Term{op: OLoad, obj: o, sels: []Sel{{Field: -1, Idx: idx}, {Field: field}}, typ: typ})
}

// itemAt: the item at the index of a slice, as (sum, key content, value content).
func itemAt(st *State, t *itemType, sl, idx *Term) (sum, k, v *Term) {
	o, off, _, _ := sliceParts(sl)
	if o == nil {
		return nil, nil, nil
	}
	ss := []Sel{{Field: -1, Idx: add(off, idx)}}
	get := func(f int, typ types.Type) *Term {
		return st.loadCell(o, append(ss[:1:1], Sel{Field: f}), typ)
	}
	return get(t.sum, t.sumT), contentTerm(st, get(t.key, t.keyT)), contentTerm(st, get(t.val, t.valT))
}

func itemAtInit(st *State, t *itemType, o *Obj, idx *Term) (sum, k, v *Term) {
	ss := []Sel{{Field: -1, Idx: idx}}
	get := func(f int, typ types.Type) *Term { return st.initialElem(o, append(ss[:1:1], Sel{Field: f}), typ) }
	return get(t.sum, t.sumT), contentTerm(st, get(t.key, t.keyT)), contentTerm(st, get(t.val, t.valT))
}

// packCall: the call which encodes a list of items.
func packCalls(run *Run, o *Outcome, t *itemType) []*Event {
	var r []*Event
	for _, e := range o.st.log.list() {
		if e.kind != "call" {
			continue
		}
		if packArg(e, t) != nil {
			r = append(r, e)
		}
	}
	return r
}

func packArg(e *Event, t *itemType) *Term {
	c, ok := e.pos.(ssa.CallInstruction)
	if !ok {
		return nil
	}
	as := c.Common().Args
	if len(as) != len(e.args) {
		return nil
	}
	for i, a := range as {
		if sl, ok := a.Type().Underlying().(*types.Slice); ok && types.Identical(sl.Elem(), t.typ) {
			return e.args[i]
		}
	}
	return nil
}

func (P *Program) hashOpRuns(r *Report, f func(op recOp, run *Run, h *handle)) {
	for _, op := range hashOps {
		fn := P.method(op.pkg, op.typ, op.name)
		if fn == nil {
			r.open("anchor", op.typ+"."+op.name, 0, "operation not found", "")
			continue
		}
		run := P.analyse(cfgAPI(P), fn, nil)
		if !r.usable(run) {
			continue
		}
		h := handleOf(run, "HashMap")
		if h == nil || len(byKind(run, "bytes")) < 1 || len(byKind(run, "bool")) != 1 {
			r.open("anchor", shortName(fn), fn.Pos(), "unexpected signature", "")
			continue
		}
		f(op, run, h)
	}
}

// afterPack: the state after the new slot was recorded, before slots are added or removed.
func (P *Program) afterPack(run *Run, o *Outcome, pack *Event) ([]*State, *Event) {
	seen := false
	for _, e := range o.st.log.list() {
		if e == pack {
			seen = true
			continue
		}
		if seen && e.kind == "call" && P.effectful(e) {
			if ss := run.snapsAt(e, o); len(ss) > 0 {
				return ss, e
			}
		}
	}
	return []*State{o.st}, nil
}

// ruleHashOps: conditions, edits, results (C07).
func ruleHashOps(P *Program, r *Report) {
	P.hashOpRuns(r, func(op recOp, run *Run, h *handle) {
		bs := byKind(run, "bytes")
		eachOutcome(r, run, "itemop", func(j *judge, o *Outcome) {
			st := o.st
			kt := contentTerm(st, argOf(run, bs[0]))
			l := P.hashLookupOf(st, kt)
			if l == nil {
				j.open("no search for the key decides this outcome")
				return
			}
			if l.why != "" {
				j.bad("%s", l.why)
				return
			}
			edit, found, value := expected(op.kind, l.found)
			what := map[bool]string{true: "the key exists", false: "the key does not exist"}[l.found]
			if edit == "" {
				ch, uns := P.changes(o, func(ob *Obj) bool { return ob == l.items })
				if len(ch) > 0 {
					j.bad("changes the dictionary (%s) although %s", ch[0], what)
				} else if len(uns) > 0 {
					j.open("%s", uns[0])
				}
			} else {
				P.checkHashEdit(j, run, o, l, edit, kt, bs)
			}
			if op.retFound && len(o.ret) == 2 {
				switch st.decide(o.ret[1]) {
				case 0:
					j.bad("%s, but the boolean result is %s", what, o.ret[1])
				case 1:
					if !found {
						j.bad("returns true although %s", what)
					}
				case -1:
					if found {
						j.bad("returns false although %s", what)
					}
				}
			}
			checkOptionalBytes(j, run, st, o.ret[0], argOf(run, byKind(run, "bool")[0]), value, l, what)
		})
	})
	r.need("itemop", 100)
}

// checkOptionalBytes: like checkOptional; an empty value may be returned as
// nil. The outcomes which return nil may have been joined, so a nil result for
// which it is not known whether the value was asked for is right if another
// outcome returns the value, and does so under no other condition than that
// it is asked for and not empty.
func checkOptionalBytes(j *judge, run *Run, st *State, ret, flag *Term, value bool, l *hashLookup, what string) {
	var want *Term
	if l.found {
		_, _, want = itemAtInit(st, l.it, l.items, l.idx)
	}
	if value && ret == tNil {
		empty := st.decide(eqInt(contentLen(want), tZero))
		d := st.decide(flag)
		if empty == 1 || d == -1 {
			return
		}
		if empty == 0 && d != -1 {
			n := st.clone()
			n.assume(flag)
			n.assume(le(tOne, contentLen(want)))
			for _, o := range run.outs {
				if o.panics || len(o.ret) == 0 || o.ret[0] == tNil || contentTerm(o.st, o.ret[0]) != want {
					continue
				}
				all := true
				for _, f := range o.st.facts {
					if (f == flag || f.contains(flag) || f.contains(want)) && n.decide(f) != 1 {
						all = false
					}
				}
				if all {
					return
				}
			}
		}
	}
	checkOptional(j, st, ret, flag, value, func() *Term { return want }, what)
}

func (P *Program) checkHashEdit(j *judge, run *Run, o *Outcome, l *hashLookup, edit string, kt *Term, bs []*ssa.Parameter) {
	packs := packCalls(run, o, l.it)
	if len(packs) == 0 {
		ch, uns := P.changes(o, nil)
		if len(ch) == 0 && len(uns) == 0 {
			j.bad("the item is not written (expected: %s)", edit)
		} else {
			j.open("no encoding of the changed items is recognised")
		}
		return
	}
	if len(packs) > 1 {
		j.open("items are encoded more than once")
		return
	}
	e := packs[0]
	ss := run.snapsAt(e, o)
	if len(ss) == 0 {
		j.open("no state at the encoding")
		return
	}
	for _, s := range ss {
		P.checkItemsEdit(j, run, o, l, edit, kt, bs, e, s)
	}
}

// checkItemsEdit compares the items handed to the encoding with those decoded.
func (P *Program) checkItemsEdit(j *judge, run *Run, o *Outcome, l *hashLookup, edit string, kt *Term, bs []*ssa.Parameter, e *Event, s *State) {
	sl := packArg(e, l.it)
	n0 := lenOf(l.ref)
	n1 := lenOf(sl)
	same := func(q *State, i, i0 *Term, what string) int {
		a, b, c := itemAt(q, l.it, sl, i)
		x, y, z := itemAtInit(q, l.it, l.items, i0)
		if a == nil {
			return -1
		}
		if a == x && b == y && c == z {
			return 1
		}
		if a.op == OLoad && x != nil && x.op == OLoad && a.obj == x.obj && len(a.sels) == len(x.sels) && len(a.sels) > 0 && a.sels[0].Idx != nil && x.sels[0].Idx != nil &&
			q.decide(eqInt(a.sels[0].Idx, x.sels[0].Idx)) == -1 {
			// another item of the same list
			return -1
		}
		if strOpaque(a) || strOpaque(b) || strOpaque(c) || hasContent(a) || hasContent(b) || hasContent(c) {
			return 0
		}
		return -1
	}
	q := mkApp("someindex")
	within := func(lo, hi *Term) *State {
		z := s.clone()
		z.assume(le(lo, q))
		z.assume(lt(q, hi))
		if z.dead || z.decide(lt(lo, hi)) == -1 {
			return nil
		}
		return z
	}
	others := func(lo, hi *Term, shift int64) {
		z := within(lo, hi)
		if z == nil {
			return
		}
		switch same(z, q, addc(q, shift), "") {
		case -1:
			j.bad("changes items other than the one with the key")
		case 0:
			j.open("the items stored again are not known")
		}
	}
	wantV := (*Term)(nil)
	if len(bs) >= 2 {
		wantV = contentTerm(s, argOf(run, bs[1]))
	}
	lenIs := func(d int64) bool {
		if s.decide(eqInt(n1, addc(n0, d))) != 1 {
			j.bad("stores %s items where there were %s and one is to be %s", n1, n0, map[int64]string{1: "added", 0: "changed", -1: "removed"}[d])
			return false
		}
		return true
	}
	switch edit {
	case "insert":
		if !lenIs(1) {
			return
		}
		at, shift := n0, int64(0)
		if _, k, _ := itemAt(s, l.it, sl, n0); k != kt {
			if _, k, _ := itemAt(s, l.it, sl, tZero); k == kt {
				at, shift = tZero, -1
			}
		}
		sum, k, v := itemAt(s, l.it, sl, at)
		if k != kt {
			j.bad("the new item is stored with the key %s instead of the one given", k)
		}
		if v != wantV {
			j.bad("the new item is stored with the value %s instead of the one given", v)
		}
		_ = sum
		if shift == 0 {
			others(tZero, n0, 0)
		} else {
			others(tOne, n1, -1)
		}
	case "set":
		if !lenIs(0) {
			return
		}
		sum, k, v := itemAt(s, l.it, sl, l.idx)
		sum0, k0, _ := itemAtInit(s, l.it, l.items, l.idx)
		if k != k0 && k != kt {
			j.bad("the item gets the key %s while its value is replaced", k)
		}
		if sum != sum0 {
			j.bad("the item gets other hash information while its value is replaced")
		}
		if v != wantV {
			j.bad("the item gets the value %s instead of the one given", v)
		}
		others(tZero, l.idx, 0)
		others(addc(l.idx, 1), n0, 0)
	case "remove":
		if !lenIs(-1) {
			return
		}
		others(tZero, l.idx, 0)
		if z := within(l.idx, n1); z != nil {
			c := same(z, q, addc(q, 1), "")
			if c != 1 {
				// or the last item takes the place of the one removed
				z2 := s.clone()
				z2.assume(lt(l.idx, n1))
				d := same(z2, l.idx, n1, "")
				if d == 1 {
					if z3 := within(addc(l.idx, 1), n1); z3 != nil {
						d = same(z3, q, q, "")
					}
				}
				if d != -1 {
					c = d
				}
			}
			switch c {
			case -1:
				j.bad("removes another item than the one with the key")
			case 0:
				j.open("the items stored again are not known")
			}
		}
	}
	P.checkSlotStore(j, run, o, l, e)
}

func hasContent(t *Term) bool {
	h := false
	t.walk(func(x *Term) bool {
		if x.op == OLoad && x.content != nil {
			h = true
		}
		return !h
	})
	return h
}

// checkSlotStore: the encoded items replace the slot: old space released once, new address recorded in its place.
func (P *Program) checkSlotStore(j *judge, run *Run, o *Outcome, l *hashLookup, pack *Event) {
	if l.slot == nil || l.slot.op != OLoad || len(l.slot.sels) != 1 {
		j.open("the address of the slot is not recognised")
		return
	}
	ss, until := P.afterPack(run, o, pack)
	var allocs, frees []*Event
	for _, e := range o.st.log.list() {
		if e == until {
			break
		}
		switch e.kind {
		case "alloc":
			allocs = append(allocs, e)
		case "free":
			frees = append(frees, e)
		}
	}
	for _, s := range ss {
		neg := s.decide(lt(l.slot, tZero))
		n := 0
		for _, e := range frees {
			if e.args[0] == l.slot {
				n++
			} else {
				j.bad("releases %s, which is not the slot replaced", e.args[0])
			}
		}
		switch {
		case neg == 1 && n > 0:
			j.bad("releases a slot which has no space")
		case neg == -1 && n != 1:
			j.bad("the space of the slot replaced is released %d times", n)
		case neg == 0:
			j.bad("whether the slot has space is not examined")
		}
		now := s.readInt(l.slot.obj, s.cont(l.slot.obj), l.slot.sels[0].Idx, 8, "be")
		switch len(allocs) {
		case 0:
			if s.decide(lt(now, tZero)) != 1 {
				j.bad("the address recorded for the slot without items is %s", now)
			}
		case 1:
			if now != allocs[0].res {
				j.bad("the address recorded for the slot is %s instead of that of its new space", now)
			}
		default:
			j.bad("allocates %d spaces for one slot", len(allocs))
		}
	}
}

func init() {
	register("C07", "Outcome analysis of the item operations: on every path the search through all items of the key's slot decides which edit of the list of items takes place; the list which is encoded again is compared with the decoded one element by element (for a generic index), and the boolean result and the optional value are those of the documented condition.",
		compose(ruleHashOps))
}
