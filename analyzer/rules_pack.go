package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The encoding of a slot: a list of infos, one per item, and the bytes of all
// items in a row. packShape says what encoding puts where, as functions of the
// position k of the item.
type packShape struct {
	f      *ssa.Function
	out    types.Type // type of the encoded slot
	infosF int        // fields of the slot
	binF   int
	sum    int // fields of an info
	klen   int
	vlen   int
	lastV  *Term // what is recorded as the value length of the last item
	k      *Term
	key    *Obj  // the list of items
	relK   *Term // where the key and the value of item k start, relative to the start of item k
	relV   *Term
	it     *itemType
	symK   *Term // length of the key and the value of item k
	symV   *Term
	ok     bool
}

// slotFields finds the list of infos and the bytes of an encoded slot.
func slotFields(t types.Type) (infos, bin int, ok bool) {
	s, isS := derefT(t).Underlying().(*types.Struct)
	if !isS {
		return
	}
	infos, bin = -1, -1
	for i := 0; i < s.NumFields(); i++ {
		ft := s.Field(i).Type()
		if isByteSlice(ft) {
			bin = i
			continue
		}
		if sl, isSl := ft.Underlying().(*types.Slice); isSl && isStruct(sl.Elem()) {
			infos = i
		}
	}
	return infos, bin, infos >= 0 && bin >= 0
}

// lensOnly: a sum of constants and of atoms known to be independent of each
// other.
func lensOnly(t *Term, atoms ...*Term) bool {
	for _, a := range sortedAtoms(linOf(t)) {
		ok := false
		for _, x := range atoms {
			ok = ok || a == x
		}
		if !ok {
			return false
		}
	}
	return true
}

// resolveMin replaces minima which the facts decide.
func resolveMin(q *State, t *Term) *Term {
	for n := 0; n < 16; n++ {
		var hit *Term
		t.walk(func(x *Term) bool {
			if hit == nil && x.op == OMin {
				in := false
				for _, a := range x.args {
					a.walk(func(y *Term) bool {
						in = in || y.op == OMin
						return !in
					})
				}
				if !in {
					hit = x
				}
			}
			return true
		})
		if hit == nil {
			return t
		}
		a, b := hit.args[0], hit.args[1]
		switch {
		case q.decide(le(a, b)) == 1:
			t = subst(t, hit, a)
		case q.decide(le(b, a)) == 1:
			t = subst(t, hit, b)
		default:
			return t
		}
	}
	return t
}

// cursorOf: the running position a term over the loop's variables starts from:
// the loop variable it contains, as a term at the start of iteration k, before
// the first and at the start of the next iteration.
func cursorOf(ls *LoopSum, next map[string]*Term, t *Term) (start, entry, nxt *Term) {
	slice := false
	part := func(x *Term) *Term {
		if x == nil {
			return nil
		}
		if x.op == OSlice || slice {
			_, off, _, _ := sliceParts(x)
			return off
		}
		return x
	}
	for _, name := range sortedKeys(ls.start) {
		s := ls.start[name]
		slice = s != nil && s.op == OSlice
		p := part(s)
		if p == nil || p == ls.k || p.op == OConst || !p.contains(ls.k) {
			continue
		}
		if sub(p, ls.k).op == OConst {
			continue // the counter itself
		}
		if t.contains(p) {
			return p, part(ls.entry[name]), part(next[name])
		}
		// a slice which grows: its length is the position
		if s.op == OSym || s.op == OApp {
			if l := lenOf(s); t.contains(l) {
				return l, lenOf(ls.entry[name]), lenOf(next[name])
			}
		}
	}
	return nil, nil, nil
}

// packShapeOf analyses the encoding function.
func (P *Program) packShapeOf(r *Report, f *ssa.Function) *packShape {
	run := P.analyse(cfgItems(P), f, nil)
	r.use(run)
	if !r.usable(run) {
		return nil
	}
	p := &packShape{f: f, sum: -1, klen: -1, vlen: -1}
	var items *Term
	for _, q := range f.Params {
		if t := listItem(q.Type()); t != nil {
			p.it, items = t, argOf(run, q)
		}
	}
	p.out = f.Signature.Results().At(0).Type()
	var ok bool
	if p.infosF, p.binF, ok = slotFields(p.out); !ok || items == nil {
		r.open("encode", shortName(f), f.Pos(), "the encoded slot has no list of infos and bytes", "")
		return nil
	}
	p.key, _, _, _ = sliceParts(items)
	n := lenOf(items)
	stT := derefT(p.out).Underlying().(*types.Struct)
	infoT := stT.Field(p.infosF).Type().Underlying().(*types.Slice).Elem()
	infoS := infoT.Underlying().(*types.Struct)
	q := mkApp("someindex")
	seen := false
	eachOutcome(r, run, "encode", func(j *judge, o *Outcome) {
		ret := o.ret[0]
		field := func(i int) *Term {
			if ret.op == OPtr {
				return o.st.loadCell(ret.obj, append(ret.sels[:len(ret.sels):len(ret.sels)], Sel{Field: i}), stT.Field(i).Type())
			}
			return nil
		}
		infos, bin := field(p.infosF), field(p.binF)
		if infos == nil {
			j.open("the encoded slot is %s", ret)
			return
		}
		switch o.st.decide(eqInt(lenOf(infos), n)) {
		case 1:
		case -1:
			j.bad("%s items are encoded as %s", n, lenOf(infos))
			return
		default:
			j.open("%s items are encoded as %s", n, lenOf(infos))
			return
		}
		if o.st.decide(eqInt(n, tZero)) == 1 {
			if o.st.decide(eqInt(lenOf(bin), tZero)) != 1 {
				j.bad("no items are encoded with %s bytes", lenOf(bin))
			}
			return
		}
		cells := func(i *Term) [3]*Term {
			ss := []Sel{{Field: -1, Idx: i}}
			get := func(f int, t types.Type) *Term { return o.st.initialElem(p.key, append(ss[:1:1], Sel{Field: f}), t) }
			return [3]*Term{get(p.it.sum, p.it.sumT), get(p.it.key, p.it.keyT), get(p.it.val, p.it.valT)}
		}
		// the infos
		ib, ioff, _, _ := sliceParts(infos)
		if ib == nil {
			j.open("the infos are %s", infos)
			return
		}
		last := addc(n, -1)
		for _, at := range []*Term{q, last} {
			z := o.st.clone()
			z.assume(le(tZero, at))
			if at == q {
				z.assume(lt(at, last))
			}
			c := cells(at)
			want := []*Term{c[0], lenOf(c[1]), lenOf(c[2])}
			roles := []*int{&p.sum, &p.klen, &p.vlen}
			have := map[int]*Term{}
			for i := 0; i < infoS.NumFields(); i++ {
				have[i] = z.loadCell(ib, []Sel{{Field: -1, Idx: add(ioff, at)}, {Field: i}}, infoS.Field(i).Type())
			}
			for w := range want {
				found := -1
				for i := range have {
					if have[i] == want[w] || have[i] != nil && want[w] != nil && z.decide(eqInt(have[i], want[w])) == 1 {
						found = i
					}
				}
				what := []string{"hash", "key size", "value size"}[w]
				if at == q {
					if found < 0 {
						vague := false
						for i := range have {
							vague = vague || strOpaque(have[i])
						}
						if vague {
							j.open("the %s of an item is recorded in no info field", what)
						} else {
							j.bad("the %s of an item is recorded in no info field", what)
						}
						return
					}
					if *roles[w] >= 0 && *roles[w] != found {
						j.bad("the %s of an item is recorded in different places", what)
						return
					}
					*roles[w] = found
					continue
				}
				if *roles[w] < 0 {
					return
				}
				h := have[*roles[w]]
				if w == 2 {
					if p.lastV != nil && p.lastV != h {
						j.open("the value size of the last item")
					}
					p.lastV = h
					continue
				}
				if found != *roles[w] {
					if strOpaque(h) {
						j.open("the %s of the last item is recorded as %s", what, h)
					} else {
						j.bad("the %s of the last item is recorded as %s", what, h)
					}
					return
				}
			}
		}
		// the bytes
		bb, boff, bln, _ := sliceParts(bin)
		if bb == nil {
			j.open("the bytes are %s", bin)
			return
		}
		var evs []*LoopSum
		for _, e := range o.st.log.list() {
			if e.kind == "loop" {
				evs = append(evs, e.loop)
			}
		}
		// the number of bytes
		okLen := false
		for _, ls := range evs {
			for _, is := range ls.iters {
				s, e, nx := cursorOf(ls, is.next, subst(bln, n, ls.k))
				if s == nil || subst(s, ls.k, n) != bln && sub(bln, boff) != subst(s, ls.k, n) {
					continue
				}
				if o.st.decide(eqInt(e, tZero)) != 1 {
					j.bad("the bytes of the items start with %s others", e)
					return
				}
				c := cells(ls.k)
				z := iterState(ls, is)
				z.assume(le(tZero, s))
				d := sub(sub(nx, s), add(lenOf(c[1]), lenOf(c[2])))
				d = resolveMin(z, d)
				if d != tZero && z.decide(eqInt(d, tZero)) != 1 {
					if okLen {
						continue
					}
					if lensOnly(d, lenOf(c[1]), lenOf(c[2])) {
						j.bad("the bytes of an item are counted as %s", sub(nx, s))
					} else {
						j.open("the bytes of an item are counted as %s", sub(nx, s))
					}
					return
				}
				okLen = true
			}
		}
		if !okLen {
			j.open("the number of bytes is %s", bln)
			return
		}
		// the bytes of one item
		done := false
		for _, ls := range evs {
			for _, is := range ls.iters {
				if ls.at == nil {
					continue
				}
				ob := bb
				if ls.at.cont(bb) == is.st.cont(bb) {
					// a slice which grows
					ob = nil
					for _, name := range sortedKeys(is.next) {
						x := is.next[name]
						if s := ls.start[name]; s != nil && (s.op == OSym || s.op == OApp) && subst(s, ls.k, n) == bin {
							ob, _, _, _ = sliceParts(x)
						}
					}
					if ob == nil {
						continue
					}
				}
				var ws []*Content
				was := ls.at.cont(ob)
				for c := is.st.cont(ob); c != nil && c != was; c = c.parent {
					ws = append(ws, c)
				}
				c := cells(ls.k)
				lk, lv := lenOf(c[1]), lenOf(c[2])
				kb, _, _, _ := sliceParts(c[1])
				vb, _, _, _ := sliceParts(c[2])
				z := iterState(ls, is)
				if unsolvable(z) {
					continue
				}
				var S *Term
				for _, w := range ws {
					if w.kind != wCopy {
						j.open("bytes are written in the loop otherwise than by copying")
						return
					}
					if s, e, _ := cursorOf(ls, is.next, add(w.off, boff)); s != nil && S == nil {
						S = s
						if o.st.decide(eqInt(e, tZero)) != 1 {
							j.bad("the bytes of the first item start at %s", e)
							return
						}
					}
				}
				if S == nil {
					continue
				}
				z.assume(le(tZero, S))
				z.assume(le(add(S, add(lk, lv)), bln)) // the total counts this item
				// the position moves on by what is written
				for _, name := range sortedKeys(is.next) {
					_ = name
				}
				_, _, nx := cursorOf(ls, is.next, S)
				if d := resolveMin(z, sub(sub(nx, S), add(lk, lv))); d != tZero && z.decide(eqInt(d, tZero)) != 1 {
					if lensOnly(d, lk, lv) {
						j.bad("after an item of %s bytes the position moves on by %s", add(lk, lv), resolveMin(z, sub(nx, S)))
					} else {
						j.open("after an item of %s bytes the position moves on by %s", add(lk, lv), resolveMin(z, sub(nx, S)))
					}
					return
				}
				var relK, relV *Term
				for _, w := range ws {
					off := resolveMin(z, sub(sub(w.off, boff), S))
					ln := resolveMin(z, w.ln)
					switch {
					case w.src == kb && kb != nil:
						if relK != nil || z.decide(eqInt(ln, lk)) != 1 || w.srcOff != tZero && z.decide(eqInt(w.srcOff, tZero)) != 1 {
							j.bad("not all bytes of the key are written (%s)", ln)
							return
						}
						relK = off
					case w.src == vb && vb != nil:
						if relV != nil || z.decide(eqInt(ln, lv)) != 1 || w.srcOff != tZero && z.decide(eqInt(w.srcOff, tZero)) != 1 {
							j.bad("not all bytes of the value are written (%s)", ln)
							return
						}
						relV = off
					case ob != bb && z.decide(eqInt(w.off, tZero)) == 1:
						// what was there before
					default:
						j.open("bytes written in the loop come from %v", w.src)
						return
					}
				}
				if relK == nil && z.decide(eqInt(lk, tZero)) == 1 || relV == nil && z.decide(eqInt(lv, tZero)) == 1 {
					continue
				}
				if relK == nil || relV == nil {
					j.bad("an item is encoded without the bytes of its key or its value")
					return
				}
				// key first or value first
				kf := z.decide(eqInt(relK, tZero)) == 1 && z.decide(eqInt(relV, lk)) == 1
				vf := z.decide(eqInt(relV, tZero)) == 1 && z.decide(eqInt(relK, lv)) == 1
				if !kf && !vf {
					if lensOnly(relK, lk, lv) && lensOnly(relV, lk, lv) {
						j.bad("the bytes of the key are at %s and those of the value at %s of the item's", relK, relV)
					} else {
						j.open("the bytes of the key are at %s and those of the value at %s of the item's", relK, relV)
					}
					return
				}
				if done && (p.relK != subst(relK, ls.k, q) || p.relV != subst(relV, ls.k, q)) {
					j.open("items are encoded in different ways")
					return
				}
				if kf {
					relK, relV = tZero, lk
				} else {
					relV, relK = tZero, lv
				}
				p.relK, p.relV = subst(relK, ls.k, q), subst(relV, ls.k, q)
				done = true
			}
		}
		if !done {
			j.open("no loop writes the bytes of the items")
			return
		}
		c := cells(q)
		p.k, p.symK, p.symV = q, lenOf(c[1]), lenOf(c[2])
		seen = true
	})
	p.ok = seen && p.relK != nil
	if !p.ok {
		return nil
	}
	return p
}

// checkUnpack compares the decoding with the encoding.
func (P *Program) checkUnpack(r *Report, f *ssa.Function, p *packShape) {
	run := P.analyse(cfgItems(P), f, nil)
	r.use(run)
	if !r.usable(run) {
		return
	}
	var slot *Term
	for _, q := range f.Params {
		if types.Identical(derefT(q.Type()), derefT(p.out)) {
			slot = argOf(run, q)
		}
	}
	if slot == nil {
		return
	}
	stT := derefT(p.out).Underlying().(*types.Struct)
	infoS := stT.Field(p.infosF).Type().Underlying().(*types.Slice).Elem().Underlying().(*types.Struct)
	eachOutcome(r, run, "decode", func(j *judge, o *Outcome) {
		so := symObj(slot)
		infos := o.st.initialCell(so, []Sel{{Field: p.infosF}}, stT.Field(p.infosF).Type())
		bin := o.st.initialCell(so, []Sel{{Field: p.binF}}, stT.Field(p.binF).Type())
		n := lenOf(infos)
		ib, _, _, _ := sliceParts(infos)
		bb, boff, _, _ := sliceParts(bin)
		ret := o.ret[0]
		switch o.st.decide(eqInt(lenOf(ret), n)) {
		case 1:
		case -1:
			j.bad("%s infos are decoded to %s items", n, lenOf(ret))
			return
		default:
			j.open("%s infos are decoded to %s items", n, lenOf(ret))
			return
		}
		if o.st.decide(eqInt(n, tZero)) == 1 {
			return
		}
		field := func(i *Term, f int) *Term {
			return o.st.initialElem(ib, []Sel{{Field: -1, Idx: i}, {Field: f}}, infoS.Field(f).Type())
		}
		last := addc(n, -1)
		// in terms of the item's own lengths
		lk, lv := mkSym("keylen", nil), mkSym("vallen", nil)
		S := mkSym("itemstart", nil)
		own := func(t, at *Term, isLast bool) *Term {
			t = subst(t, field(at, p.klen), lk)
			v := lv
			if isLast && p.lastV != nil && p.lastV.op == OConst {
				v = p.lastV
			}
			return subst(t, field(at, p.vlen), v)
		}
		rel := func(t *Term) *Term { return subst(subst(t, p.symK, lk), p.symV, lv) }
		var ls *LoopSum
		for _, e := range o.st.log.list() {
			if e.kind == "loop" {
				if ls != nil {
					j.open("more than one loop")
					return
				}
				ls = e.loop
			}
		}
		// the position moves on by the lengths recorded
		pos := func(t, at *Term, isLast bool) (*Term, bool) {
			// the position of the item, in t, becomes S
			if ls == nil {
				return own(t, at, isLast), true
			}
			for _, is := range ls.iters {
				k := ls.k
				s, e, nx := cursorOf(ls, is.next, subst(subst(t, at, k), n, k))
				if s == nil {
					continue
				}
				if o.st.decide(eqInt(sub(e, boff), tZero)) != 1 {
					j.bad("the bytes of the first item are sought at %s", sub(e, boff))
					return nil, false
				}
				inc := sub(nx, s)
				d := sub(own(inc, k, false), add(lk, lv))
				if d != tZero {
					if lensOnly(d, lk, lv) {
						j.bad("after an item of %s bytes the position moves on by %s", add(lk, lv), own(inc, k, false))
					} else {
						j.open("the position moves on by %s", inc)
					}
					return nil, false
				}
				sq, sn := subst(s, k, at), subst(s, k, n)
				// after the last item
				t = subst(t, sn, add(S, own(subst(inc, k, last), last, true)))
				t = subst(t, sq, add(S, boff))
				break
			}
			return own(t, at, isLast), true
		}
		q := mkApp("someindex")
		for _, at := range []*Term{q, last} {
			isLast := at == last
			z := o.st.clone()
			z.assume(le(tZero, at))
			if !isLast {
				z.assume(lt(at, last))
			}
			got := itemCell(z, p.it, ret, at)
			if got[0] == nil {
				j.open("the decoded items are %s", ret)
				return
			}
			which := map[bool]string{false: "an item", true: "the last item"}[isLast]
			if got[0] != field(at, p.sum) {
				if strOpaque(got[0]) {
					j.open("the hash of %s is %s", which, got[0])
				} else {
					j.bad("the hash of %s is read from %s, where encoding does not put it", which, got[0])
				}
				return
			}
			binLen := add(S, add(lk, lv)) // for the last item
			for w, name := range []string{"key", "value"} {
				ob, off, ln, _ := sliceParts(got[1+w])
				if ob == nil || ob != bb {
					j.open("the %s of %s is %s", name, which, got[1+w])
					return
				}
				off, ok := pos(sub(off, boff), at, isLast)
				if !ok {
					return
				}
				ln, ok = pos(ln, at, isLast)
				if !ok {
					return
				}
				if isLast {
					off, ln = subst(off, lenOf(bin), binLen), subst(ln, lenOf(bin), binLen)
				}
				wantOff, wantLn := add(S, rel([]*Term{p.relK, p.relV}[w])), []*Term{lk, lv}[w]
				for x, d := range []*Term{sub(off, wantOff), sub(ln, wantLn)} {
					if d == tZero {
						continue
					}
					what := []string{"start", "length"}[x]
					v := []*Term{off, ln}[x]
					if lensOnly(d, lk, lv, S) {
						j.bad("the %s of the %s of %s is read as %s instead of %s", what, name, which, v, []*Term{wantOff, wantLn}[x])
					} else {
						j.open("the %s of the %s of %s is read as %s", what, name, which, v)
					}
					return
				}
			}
		}
	})
	r.ok("decode", shortName(f)+" reads what "+shortName(p.f)+" writes")
}

// kindOfFunc classifies the functions between slots and items by their types.
func (P *Program) slotFuncs(kind string) (fs []*ssa.Function) {
	for _, f := range P.Funcs {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == pkgHash && f.Blocks != nil && kindOfFunc(f) == kind {
			fs = append(fs, f)
		}
	}
	return
}

// rulePack: decoding is the inverse of encoding.
func rulePack(P *Program, r *Report) {
	var shapes []*packShape
	for _, f := range P.slotFuncs("pack") {
		if _, _, ok := slotFields(f.Signature.Results().At(0).Type()); !ok {
			continue
		}
		if p := P.packShapeOf(r, f); p != nil {
			shapes = append(shapes, p)
		}
	}
	if len(shapes) == 0 {
		return
	}
	for _, f := range P.slotFuncs("unpack") {
		for _, p := range shapes {
			P.checkUnpack(r, f, p)
		}
	}
	P.rulePut(r, shapes[0])
	r.need("encode", 1)
	r.need("decode", 1)
}

// resolveContent does the same within the places of writes.
func resolveContent(q *State, c *Content) *Content {
	for n := 0; n < 16; n++ {
		var from, to *Term
		for d := c; d != nil && from == nil; d = d.parent {
			for _, t := range []*Term{d.off, d.ln, d.srcOff} {
				if t == nil {
					continue
				}
				t.walk(func(x *Term) bool {
					if x.op == OMin && from == nil {
						if y := resolveMin(q, x); y != x {
							from, to = x, y
						}
					}
					return from == nil
				})
			}
		}
		if from == nil {
			return c
		}
		c = substC(c, from, to, map[*Term]*Term{})
	}
	return c
}

// slotPtr: the parameter or result which is an encoded slot.
func isSlotPtr(t types.Type, p *packShape) bool {
	return types.Identical(derefT(t), derefT(p.out))
}

// rulePut: an encoded slot is written to space of its own and read from there.
func (P *Program) rulePut(r *Report, p *packShape) {
	stT := derefT(p.out).Underlying().(*types.Struct)
	for _, f := range P.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() != pkgHash || f.Blocks == nil {
			continue
		}
		var sp *ssa.Parameter
		ints := 0
		var ap *ssa.Parameter
		for _, q := range f.Params {
			if isSlotPtr(q.Type(), p) {
				sp = q
			}
			if isInt64(q.Type()) {
				ints++
				ap = q
			}
		}
		res := f.Signature.Results()
		switch {
		case sp != nil && res.Len() == 1 && isInt64(res.At(0).Type()):
			run := P.analyse(cfgItems(P), f, nil)
			r.use(run)
			if !r.usable(run) {
				continue
			}
			so := symObj(argOf(run, sp))
			eachOutcome(r, run, "put", func(j *judge, o *Outcome) {
				infos := o.st.initialCell(so, []Sel{{Field: p.infosF}}, stT.Field(p.infosF).Type())
				bin := o.st.initialCell(so, []Sel{{Field: p.binF}}, stT.Field(p.binF).Type())
				var al *Event
				allocs := 0
				for _, e := range o.st.log.list() {
					if e.kind == "alloc" {
						al = e
						allocs++
					}
				}
				if allocs == 0 {
					if o.st.decide(lt(o.ret[0], tZero)) != 1 {
						j.bad("a slot stored in no space has the address %s", o.ret[0])
					}
					if o.st.decide(eqInt(lenOf(infos), tZero)) != 1 {
						j.bad("a slot which may have items is not stored")
					}
					return
				}
				if allocs > 1 {
					j.bad("a slot is stored in %d spaces", allocs)
					return
				}
				if o.st.decide(eqInt(lenOf(infos), tZero)) != -1 {
					j.bad("space is taken for a slot which may be empty")
					return
				}
				if o.ret[0] != al.res {
					j.bad("the address of the slot is %s instead of that of its space", o.ret[0])
					return
				}
				z := o.st.clone()
				sz := al.args[0]
				z.assume(le(sz, mkApp("space", sz)))
				vo := viewObj(al.res)
				c := z.cont(vo)
				// the sizes of the two parts
				var S, enc *Term
				for d := c; d != nil; d = d.parent {
					if d.kind == wCopy && d.src != nil && d.src.tag != nil && d.src.tag.op == OApp && strings.HasPrefix(d.src.tag.s, "pbenc:") {
						enc = d.src.tag
						S = d.ln
					}
				}
				if enc == nil {
					j.open("no encoding is written to the space")
					return
				}
				if !enc.contains(lenOf(infos)) || !enc.contains(bin) {
					j.bad("what is written is the encoding of %s", enc)
					return
				}
				if S != mkApp("pbsize"+strings.TrimPrefix(enc.s, "pbenc"), enc.args...) {
					j.open("the encoding has %s bytes", S)
					return
				}
				if h := headerOf(c, 0); h != nil && h != S {
					j.bad("the length recorded with the %s bytes of a slot is %s", S, h)
					return
				}
				hdr := mkApp("uvlen", S)
				z.assume(le(tOne, S))
				z.assume(le(tOne, hdr))
				c = resolveContent(z, c)
				switch z.decide(le(add(hdr, S), sz)) {
				case -1:
					j.bad("%s bytes are allocated for the %s bytes of a slot and their %s bytes of length", sz, S, hdr)
					return
				case 0:
					if d := sub(add(hdr, S), sz); lensOnly(d, hdr) {
						j.bad("%s bytes are allocated for the %s bytes of a slot and their %s bytes of length", sz, S, hdr)
					} else {
						j.open("%s bytes are allocated for a slot", sz)
					}
					return
				}
				for d := c; d != nil; d = d.parent {
					if d.kind == wCopy && d.src != nil && d.src.tag == enc {
						if x := sub(d.off, hdr); x != tZero && lensOnly(x, hdr) {
							j.bad("the encoding starts at %s although it is preceded by a length of %s bytes", d.off, hdr)
							return
						}
					}
				}
				a, b := contentOf(z, vo, c, tZero, hdr, 0), contentOf(z, vo, c, hdr, S, 0)
				if a != mkApp("uv", S) && (a.op != OApp || a.s != "sub" || a.args[0] != mkApp("uv", S) || a.args[1] != tZero) {
					if hasMem(a) {
						j.open("the space starts with %s", a)
					} else {
						j.bad("the space of a slot starts with %s instead of the length of the encoding", a)
					}
				} else if b != enc && b != mkApp("sub", enc, tZero, S) {
					if hasMem(b) {
						j.open("behind the length the space contains %s", b)
					} else {
						j.bad("behind the length the space contains %s instead of the encoding", b)
					}
				}
			})
		case sp == nil && ints == 1 && res.Len() == 1 && isSlotPtr(res.At(0).Type(), p) && len(f.Params) <= 2:
			run := P.analyse(cfgItems(P), f, nil)
			r.use(run)
			if !r.usable(run) {
				continue
			}
			addr := argOf(run, ap)
			eachOutcome(r, run, "take", func(j *judge, o *Outcome) {
				ret := o.ret[0]
				if ret.op != OPtr {
					j.open("the slot read is %s", ret)
					return
				}
				get := func(i int) *Term {
					return o.st.loadCell(ret.obj, append(ret.sels[:len(ret.sels):len(ret.sels)], Sel{Field: i}), stT.Field(i).Type())
				}
				infos, bin := get(p.infosF), get(p.binF)
				var dec, hdr *Event
				for _, e := range o.st.log.list() {
					switch e.kind {
					case "decode":
						dec = e
					case "decodeint":
						hdr = e
					}
				}
				if dec == nil {
					if o.st.decide(lt(addr, tZero)) != 1 {
						j.bad("a slot which has space is not read")
					} else if o.st.decide(eqInt(lenOf(infos), tZero)) != 1 || o.st.decide(eqInt(lenOf(bin), tZero)) != 1 {
						j.bad("a slot without space is read as one with items")
					}
					return
				}
				if o.st.decide(lt(addr, tZero)) != -1 {
					j.bad("a slot is read although it may have no space")
					return
				}
				if hdr == nil || len(hdr.args) != 1 {
					j.open("no length is read before the slot")
					return
				}
				vo := viewObj(addr)
				if o1 := memObj(hdr.args[0]); o1 != vo {
					j.open("the length is read from %s", hdr.args[0])
					return
				}
				src := dec.args[0]
				want := contentOf(o.st, vo, o.st.cont(vo), hdr.res, mkApp(hdr.name, hdr.args...), 0)
				if src != want {
					j.bad("the slot is read from %s instead of the bytes behind the length", src)
					return
				}
				var hit, hit2 bool
				infos.walk(func(x *Term) bool { hit = hit || x == src; return true })
				if ob, _, _, _ := sliceParts(infos); ob != nil && ob.tag != nil {
					hit = hit || ob.tag.contains(src)
				}
				hit2 = bin.contains(src)
				if !hit || !hit2 {
					j.bad("the slot returned is not the one read")
				}
			})
		}
	}
	r.need("put", 2)
	r.need("take", 2)
}

// headerOf: the number written in variable length among the contents.
func headerOf(c *Content, depth int) *Term {
	for ; c != nil; c = c.parent {
		if c.kind != wCopy || c.src == nil {
			continue
		}
		if t := c.src.tag; t != nil {
			if t.op == OApp && t.s == "uv" {
				return t.args[0]
			}
			continue
		}
		if c.srcC != nil && depth < 3 {
			if h := headerOf(c.srcC, depth+1); h != nil {
				return h
			}
		}
	}
	return nil
}

func isInt64(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Int64
}

// hasMem: the content is not known completely.
func hasMem(t *Term) bool {
	return t == nil || hasContent(t) || strings.Contains(t.String(), "mem") || strings.Contains(t.String(), "deep")
}

// memObj: the view whose content a term is.
func memObj(t *Term) *Obj {
	var ob *Obj
	t.walk(func(x *Term) bool {
		if ob == nil && x.obj != nil && x.obj.kind == ObjView {
			ob = x.obj
		}
		return ob == nil
	})
	return ob
}

func init() {
	register("C19", "Encoding and decoding of the items of a slot compared as functions of the position of an item; the bytes written to the slot's space compared with those read from it.",
		compose(rulePack))
}
