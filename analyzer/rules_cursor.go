package main

import (
	"go/types"
)

// Scanning with a cursor.
//
// The cursor holds the items of the slot loaded last, the index of the next
// one and the number of the slot to load next. Each call is checked to be one
// step of the walk over all slots: it either returns the next of the items
// held and steps by one, or finds them used up, loads slots in turn, passes
// over those without items, and returns the first item of the next one that
// has any; or finds all slots loaded.

type cursorFields struct {
	items, at, slot fieldSel
	it              *itemType
}

func ruleCursor(P *Program, r *Report) {
	tf := P.tableFields()
	if !tf.ok {
		r.open("anchor", "HashMap", 0, "the fields of the slot table are not recognised", "")
		return
	}
	for _, root := range [][3]string{{pkgHash, "HashMap", "FetchItem"}, {modRoot, "Dict", "Scan"}} {
		fn := P.method(root[0], root[1], root[2])
		if fn == nil {
			r.open("anchor", root[1]+"."+root[2], 0, "operation not found", "")
			continue
		}
		run := P.analyse(cfgAPI(P), fn, nil)
		if !r.usable(run) {
			continue
		}
		h := handleOf(run, "HashMap")
		var cur *Obj
		cf := cursorFields{}
		var ints []fieldSel
		for i, p := range fn.Params {
			pt, ok := p.Type().Underlying().(*types.Pointer)
			if i == 0 || !ok || run.args[i].op != OSym {
				continue
			}
			s, ok := pt.Elem().Underlying().(*types.Struct)
			if !ok {
				continue
			}
			cur = symObj(run.args[i])
			for k := 0; k < s.NumFields(); k++ {
				f := fieldSel{[]Sel{{Field: k}}, s.Field(k).Type()}
				if it := listItem(f.typ); it != nil {
					cf.items, cf.it = f, it
				} else if b, ok := f.typ.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					ints = append(ints, f)
				}
			}
		}
		if h == nil || cur == nil || cf.it == nil || len(ints) != 2 || fn.Signature.Results().Len() != 3 {
			r.open("anchor", shortName(fn), fn.Pos(), "unexpected signature or cursor", "")
			continue
		}
		// the index of the next item is the one compared with the number of items held
		ok := false
		for _, o := range run.outs {
			if o.panics || o.st.dead || ok {
				continue
			}
			n0 := lenOf(o.st.initialCell(cur, cf.items.sels, cf.items.typ))
			for i, f := range ints {
				t := o.st.initialCell(cur, f.sels, f.typ)
				if q := factState(o.st.facts); q.decide(lt(t, n0)) != 0 {
					cf.at, cf.slot = f, ints[1-i]
					ok = true
					break
				}
			}
		}
		if !ok {
			r.open("anchor", shortName(fn), fn.Pos(), "the fields of the cursor are not recognised", "")
			continue
		}
		eachOutcome(r, run, "scan", func(j *judge, o *Outcome) { P.checkScan(j, o, cur, &cf, h, tf) })
	}
	r.need("scan", 6)
}

func (P *Program) checkScan(j *judge, o *Outcome, cur *Obj, cf *cursorFields, h *handle, tf *tableFields) {
	st := o.st
	ini := func(f fieldSel) *Term { return st.initialCell(cur, f.sels, f.typ) }
	fin := func(q *State, f fieldSel) *Term { return q.loadCell(cur, f.sels, f.typ) }
	q := st.clone()
	items, at, slot := ini(cf.items), ini(cf.at), ini(cf.slot)
	n := lenOf(items)
	q.assume(le(tZero, at))
	q.assume(le(tZero, slot))
	if unsolvable(q) {
		return
	}
	S := h.init(st, tf.slots)
	evs := allEvents(st.log)
	more := q.decide(lt(at, n))
	var loop *LoopSum
	for _, e := range evs {
		if e.kind == "loop" {
			if loop != nil && loop != e.loop {
				j.open("more than one loop")
				return
			}
			loop = e.loop
		}
	}
	if len(o.ret) != 3 || o.ret[2] != tTrue && o.ret[2] != tFalse {
		j.open("result %v is not recognised", o.ret)
		return
	}
	// the k-th slot loaded
	slotAt := func(k *Term) func(*State, *Term) bool {
		return func(s *State, idx *Term) bool {
			return sameInt(s, idx, add(slot, k)) == 1 || sameInt(s, idx, sub(addc(S, -1), add(slot, k))) == 1
		}
	}
	k := tZero
	if loop != nil {
		k = loop.k
	}
	// loaded: the list was made from the slot due
	loaded := func(s *State, log []*Event, list *Term) (empty, ok bool) {
		e := callIn(log, symRoot(list))
		if e == nil || kindOfCall(e) != "unpack" {
			j.open("the items %s do not come from decoding a slot", list)
			return
		}
		so := symObj(symRoot(list))
		a := slotOf(&State{}, so)
		if a == nil {
			// no slot loaded: one without space
			return true, true
		}
		p := placeOfLoad(a)
		if p == nil || p.dir == nil {
			j.open("the place of the slot is not recognised: %s", a)
			return
		}
		if p.table != h.init(st, tf.addr) {
			j.bad("the slot's directory is taken from %s, not from the table of directories", p.table)
			return
		}
		bitAxioms(s, p.idx, p.dir)
		if p.bits.op != OConst || sameInt(s, p.dir, shr(p.idx, p.bits)) != 1 {
			j.bad("slot %s is taken from place (%s, %s) of the directories", p.idx, p.dir, low(p.idx, p.bits))
			return
		}
		if !slotAt(k)(s, p.idx) {
			j.bad("slot %s is loaded, but slot %s is due", p.idx, add(slot, k))
			return
		}
		return false, true
	}
	if loop != nil {
		for _, it := range loop.iters {
			if it.st == nil || it.st.dead {
				continue
			}
			s := iterState(loop, it)
			s.assume(le(tZero, at))
			s.assume(le(tZero, slot))
			s.assume(le(tZero, k))
			if s.decide(lt(at, n)) != -1 {
				j.bad("slots are loaded before the items held are used up")
				return
			}
			list := fin(s, cf.items)
			f := s.clone()
			empty, ok := loaded(f, append(st.log.list(), it.log.list()...), list)
			if !ok {
				return
			}
			if !empty && s.decide(le(lenOf(list), tZero)) != 1 {
				j.bad("the items of a slot are passed over")
				return
			}
			if sameInt(s, fin(s, cf.slot), addc(add(slot, k), 1)) != 1 {
				j.bad("the slot to load next becomes %s after slot %s", fin(s, cf.slot), add(slot, k))
				return
			}
			if a := fin(s, cf.at); a != at && s.decide(le(tZero, a)) != 1 {
				j.bad("the index of the next item becomes %s", a)
				return
			}
		}
	}
	if o.ret[2] == tFalse {
		for _, t := range o.ret[:2] {
			if t != tNil {
				j.bad("something is returned although there are no more items")
			}
		}
		if more != -1 {
			j.bad("the end is reported although the cursor holds an item")
		}
		fs := fin(st, cf.slot)
		if q.decide(le(S, fs)) != 1 {
			j.bad("the end is reported although not all slots were visited: slot %s of %s", fs, S)
		}
		// the end persists
		fa := fin(st, cf.at)
		fi := fin(st, cf.items)
		if fi == items {
			if q.decide(le(n, fa)) != 1 {
				j.bad("the item at %s is left for the next call after the end", fa)
			}
		} else if q.decide(le(lenOf(fi), fa)) != 1 && !(loop != nil && q.decide(le(tZero, fa)) == 1 && q.decide(le(n, fa)) == 1) {
			j.bad("items may be left for the next call after the end")
		}
		return
	}
	ko, ki, kf := itemOfLoad(o.ret[0])
	vo, vi, vf := itemOfLoad(o.ret[1])
	if ko == nil || vo == nil {
		j.open("results %s, %s are not recognised", o.ret[0], o.ret[1])
		return
	}
	if kf != cf.it.key || vf != cf.it.val {
		j.bad("returned are not the key and the value of an item")
		return
	}
	if ko != vo || ki != vi {
		j.bad("the key of one item is returned with the value of another one")
		return
	}
	list, idx := ko.of, ki
	fi, fa, fs := fin(st, cf.items), fin(st, cf.at), fin(st, cf.slot)
	switch {
	case list == items:
		if sameInt(q, idx, at) != 1 {
			j.bad("item %s is returned, but item %s is due", idx, at)
		}
		if more != 1 {
			j.bad("an item is taken from those held although they may be used up")
		}
		if sameInt(q, fa, addc(at, 1)) != 1 {
			j.bad("the index of the next item becomes %s after item %s", fa, at)
		}
		if fi != items {
			j.bad("the items held are replaced before they are used up")
		}
		if sameInt(q, fs, slot) != 1 {
			j.bad("the slot to load next becomes %s without loading one", fs)
		}
	case symRoot(list) == list && callIn(evs, list) != nil:
		if more != -1 {
			j.bad("a slot is loaded before the items held are used up")
			return
		}
		empty, ok := loaded(q.clone(), evs, list)
		if !ok || empty {
			return
		}
		if q.decide(lt(add(slot, k), S)) != 1 {
			j.bad("slot %s is loaded although it may not exist", add(slot, k))
		}
		if fi != list {
			j.bad("the items of the slot are not kept in the cursor")
		}
		if sameInt(q, idx, tZero) != 1 {
			j.bad("item %s is returned first", idx)
		}
		if sameInt(q, fa, addc(idx, 1)) != 1 {
			j.bad("the index of the next item becomes %s after item %s", fa, idx)
		}
		if sameInt(q, fs, addc(add(slot, k), 1)) != 1 {
			j.bad("the slot to load next becomes %s after slot %s", fs, add(slot, k))
		}
	default:
		j.open("the items %s are not recognised", list)
	}
}

// itemOfLoad: the list, index and field a slice was read from.
func itemOfLoad(t *Term) (o *Obj, idx *Term, field int) {
	if t.op != OLoad || len(t.sels) != 2 || t.sels[0].Idx == nil || t.obj == nil || t.obj.of == nil {
		return nil, nil, 0
	}
	return t.obj, t.sels[0].Idx, t.sels[1].Field
}

func init() {
	register("C20", "Path-partitioned dataflow over SSA of the scan operations: every path is one step of the walk over all slots and their items - the item returned is the one due, slots are loaded in turn from their places in the directories, only slots without items are passed over, and the end is reported only when all slots were visited and stays reported.",
		compose(ruleCursor, ruleFindings("stale", "moved", "viewappend")))
}
