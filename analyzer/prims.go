package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Abstract transformers of the page operations and of the key and value codecs. The
// bodies they stand for are analysed on their own (layer A rules); above that layer a
// page is a sequence of elements and a stored key or value is a term.

func pageObjOf(t *Term) *Obj {
	if t.op == OSlice && t.obj.kind == ObjView && t.obj.part == nil {
		return t.obj
	}
	return nil
}

// pageSeq is the current contents of the page an accessor designates.
func (x *Interp) pageSeq(st *State, site ssa.Instruction, lc *Term, what string) (*Obj, *Term) {
	o := pageObjOf(lc)
	if o == nil {
		// an accessor which is not known to designate a page: a page of its own
		o = viewObj(mkApp("pageof", lc))
	} else {
		x.checkLive(st, site, lc, what)
	}
	if q, ok := st.seq[o]; ok {
		return o, q
	}
	var q *Term
	if st.gen != nil {
		b := mkApp("page", o.addr, st.gen)
		q = mkSeq([]*Term{seg(b, tZero, countOf(b))})
	} else {
		q = initialSeq(o.addr)
	}
	st.seq[o] = q
	return o, q
}

func (st *State) setSeq(o *Obj, gs []*Term) { st.seq[o] = mkSeq(gs) }

func (x *Interp) assumeIn(st *State, site ssa.Instruction, i, n *Term) {
	x.inRange(st, site, le(tZero, i))
	x.inRange(st, site, lt(i, n))
}

// inRange: the operation panics unless the condition holds.
func (x *Interp) inRange(st *State, site ssa.Instruction, c *Term) {
	if x.cfg.Ranges != nil && !st.dead && st.decide(c) != 1 && x.cfg.Ranges(st, c) {
		x.report("range", st, site, "an index may be out of range: "+c.String()+" is not assured")
	}
	st.assume(c)
}

// seqOf is the element sequence held by a slice of records or children.
func (x *Interp) seqOf(st *State, site ssa.Instruction, sl *Term) []*Term {
	if sl == tNil {
		return nil
	}
	o, off, ln, _ := sliceParts(sl)
	if ln == tZero {
		return nil
	}
	var et types.Type
	if o.typ != nil {
		switch u := derefT(o.typ).Underlying().(type) {
		case *types.Slice:
			et = u.Elem()
		case *types.Array:
			et = u.Elem()
		}
	}
	element := func(i *Term) *Term {
		get := func(f int) *Term {
			var ft types.Type = types.Typ[types.Int64]
			if et != nil {
				if s, ok := et.Underlying().(*types.Struct); ok {
					ft = s.Field(f).Type()
				}
			} else if f == 0 || o.tag == nil {
				ft = types.NewSlice(types.Typ[types.Byte])
			}
			v := st.loadAt(o, st.cont(o), []Sel{{Field: -1, Idx: i}, {Field: f}}, ft)
			return x.asContent(st, site, v)
		}
		return el(get(0), get(1))
	}
	var base []*Term
	if o.tag != nil && o.tag.op == OApp && o.tag.s == "seq" {
		if off == tZero && ln == seqLen(o.tag) {
			base = o.tag.args
		} else {
			_, r := seqSplit(st, o.tag, off)
			l, _ := seqSplit(st, mkApp("seq", r...), ln)
			base = l
		}
		// later changes of single elements
		var idx []*Term
		seen := map[*Term]bool{}
		for c := st.cont(o); c != nil; c = c.parent {
			if c.kind != wCell || len(c.sels) == 0 || c.sels[0].Field >= 0 {
				x.undecided(site, "records changed in bulk before their insertion")
				return []*Term{seg(mkApp("unknown", o.tag), tZero, ln)}
			}
			if !seen[c.sels[0].Idx] {
				seen[c.sels[0].Idx] = true
				idx = append(idx, c.sels[0].Idx)
			}
		}
		for _, i := range idx {
			e := elementOver(x, st, site, o, i)
			l, r := seqSplit(st, mkApp("seq", base...), sub(i, off))
			_, r2 := seqSplit(st, mkApp("seq", r...), tOne)
			base = append(append(append([]*Term{}, l...), e), r2...)
		}
		return base
	}
	if ln.op == OConst && ln.i <= 8 {
		for i := int64(0); i < ln.i; i++ {
			base = append(base, element(addc(off, i)))
		}
		return base
	}
	return []*Term{seg(mkApp("recs", mkSlice(o, off, ln, 0)), tZero, ln)}
}

func elementOver(x *Interp, st *State, site ssa.Instruction, o *Obj, i *Term) *Term {
	e := seqAt(st, o.tag, i)
	k, v := elKey(e), elVal(e)
	var ws []*Content
	for c := st.cont(o); c != nil; c = c.parent {
		ws = append(ws, c)
	}
	for n := len(ws) - 1; n >= 0; n-- {
		c := ws[n]
		if c.sels[0].Idx != i && !st.must(eqInt(c.sels[0].Idx, i)) {
			continue
		}
		switch {
		case len(c.sels) == 1 && c.val.op == OStruct && len(c.val.args) == 2:
			k, v = x.asContent(st, site, c.val.args[0]), x.asContent(st, site, c.val.args[1])
		case len(c.sels) == 2 && c.sels[1].Field == 0:
			k = x.asContent(st, site, c.val)
		case len(c.sels) == 2 && c.sels[1].Field == 1:
			v = x.asContent(st, site, c.val)
		}
	}
	return el(k, v)
}

// asContent turns a slice value into the bytes it holds now; integers stay.
func (x *Interp) asContent(st *State, site ssa.Instruction, v *Term) *Term {
	switch {
	case v == tNil || v.op == OSlice:
		x.checkLive(st, site, v, "stores")
		return contentTerm(st, v)
	case v.typ != nil && isByteSlice(v.typ):
		return contentTerm(st, v)
	}
	return v
}

func partSlice(o *Obj, tag, q *Term, epoch int64) *Term {
	if tag == emptyBytes {
		return tNil
	}
	return intern(&Term{op: OSlice, obj: partObj(o, tag, q), args: []*Term{tZero, contentLen(tag)}, i: epoch})
}

func rawOf(k *Term) *Term {
	if k.op == OApp && (k.s == "mkkey" || k.s == "mkval") {
		return k.args[0]
	}
	return mkApp("raw", k)
}

func simplifySeqForApp(q *Term) *Term { return q }

// keyTerm names the key argument of a search; the sentinels are compared by identity.
func keyTerm(st *State, k *Term) *Term {
	if k.op == OLoad && k.obj.kind == ObjGlobal {
		return k
	}
	return contentTerm(st, k)
}

func prims(P *Program) map[string]Prim {
	m := map[string]Prim{}
	add2 := func(typ, name string, pr Prim) {
		f := P.method(pkgBPTree, typ, name)
		if f == nil {
			return
		}
		m[f.String()] = pr
	}
	intT := types.Typ[types.Int]
	_ = intT
	// both kinds of pages
	for _, k := range []struct{ typ, num, ins, rem, loc, set string }{
		{"leafController", "NumberOfRecords", "InsertRecords", "RemoveRecords", "LocateRecord", "SetValue"},
		{"nonLeafController", "NumberOfChildren", "InsertChildren", "RemoveChildren", "LocateChild", "SetKey"},
	} {
		k := k
		add2(k.typ, k.num, func(x *Interp, st *State, site ssa.Instruction, a []*Term, rt types.Type) *Term {
			_, q := x.pageSeq(st, site, a[0], "counts the elements of")
			return seqLen(q)
		})
		add2(k.typ, "GetKey", func(x *Interp, st *State, site ssa.Instruction, a []*Term, rt types.Type) *Term {
			o, q := x.pageSeq(st, site, a[0], "reads")
			x.assumeIn(st, site, a[1], seqLen(q))
			if st.dead {
				return tNil
			}
			e := seqAt(st, q, a[1])
			if e == nil {
				st.dead = true
				return tNil
			}
			return partSlice(o, elKey(e), q, a[0].i)
		})
		add2(k.typ, "GetLoadSize", func(x *Interp, st *State, site ssa.Instruction, a []*Term, rt types.Type) *Term {
			_, q := x.pageSeq(st, site, a[0], "measures")
			return mkApp("load", q)
		})
		add2(k.typ, k.ins, func(x *Interp, st *State, site ssa.Instruction, a []*Term, rt types.Type) *Term {
			o, q := x.pageSeq(st, site, a[0], "inserts into")
			x.inRange(st, site, le(tZero, a[1]))
			x.inRange(st, site, le(a[1], seqLen(q)))
			if st.dead {
				return nil
			}
			es := x.seqOf(st, site, a[2])
			l, r := seqSplit(st, q, a[1])
			nq := append(append(append([]*Term{}, l...), es...), r...)
			st.emit("insert", k.typ, site, nil, o.addr, a[1], mkApp("seq", es...))
			st.setSeq(o, nq)
			return nil
		})
		add2(k.typ, k.rem, func(x *Interp, st *State, site ssa.Instruction, a []*Term, rt types.Type) *Term {
			o, q := x.pageSeq(st, site, a[0], "removes from")
			x.inRange(st, site, le(tZero, a[1]))
			x.inRange(st, site, le(tZero, a[2]))
			x.inRange(st, site, le(add(a[1], a[2]), seqLen(q)))
			if st.dead {
				return nil
			}
			l, r := seqSplit(st, q, a[1])
			mid, r2 := seqSplit(st, mkApp("seq", r...), a[2])
			st.emit("remove", k.typ, site, nil, o.addr, a[1], mkSeq(mid))
			st.setSeq(o, append(append([]*Term{}, l...), r2...))
			tag := mkSeq(mid)
			if len(tag.args) == 0 {
				return tNil
			}
			ro := extObj("removed", tag)
			ro.typ = rt
			return mkSlice(ro, tZero, seqLen(tag), 0)
		})
		add2(k.typ, k.loc, func(x *Interp, st *State, site ssa.Instruction, a []*Term, rt types.Type) *Term {
			_, q := x.pageSeq(st, site, a[0], "searches")
			kt := keyTerm(st, a[1])
			n := seqLen(q)
			fnd := mkApp("located", q, kt)
			idx := mkApp("locate", q, kt)
			st.addFact(le(tZero, idx))
			if st.must(fnd) {
				st.assume(lt(idx, n))
			} else {
				st.assume(le(idx, n))
				if k.typ == "nonLeafController" {
					st.assume(le(tOne, idx)) // the key of the first child is a dummy
				}
			}
			return mkTuple([]*Term{idx, fnd})
		})
		add2(k.typ, k.set, func(x *Interp, st *State, site ssa.Instruction, a []*Term, rt types.Type) *Term {
			o, q := x.pageSeq(st, site, a[0], "writes")
			x.assumeIn(st, site, a[1], seqLen(q))
			if st.dead {
				return nil
			}
			v := x.asContent(st, site, a[2])
			e := seqAt(st, q, a[1])
			if e == nil {
				st.dead = true
				return nil
			}
			l, r := seqSplit(st, q, a[1])
			_, r2 := seqSplit(st, mkApp("seq", r...), tOne)
			ne := el(elKey(e), v)
			if k.set == "SetKey" {
				ne = el(v, elVal(e))
			}
			st.emit("set", k.typ, site, nil, o.addr, a[1], v)
			st.setSeq(o, append(append(append([]*Term{}, l...), ne), r2...))
			return nil
		})
	}
	add2("leafController", "GetValue", func(x *Interp, st *State, site ssa.Instruction, a []*Term, rt types.Type) *Term {
		o, q := x.pageSeq(st, site, a[0], "reads")
		x.assumeIn(st, site, a[1], seqLen(q))
		if st.dead {
			return tNil
		}
		e := seqAt(st, q, a[1])
		if e == nil {
			st.dead = true
			return tNil
		}
		return partSlice(o, elVal(e), q, a[0].i)
	})
	add2("nonLeafController", "GetChildAddr", func(x *Interp, st *State, site ssa.Instruction, a []*Term, rt types.Type) *Term {
		_, q := x.pageSeq(st, site, a[0], "reads")
		x.assumeIn(st, site, a[1], seqLen(q))
		if st.dead {
			return tZero
		}
		e := seqAt(st, q, a[1])
		if e == nil {
			st.dead = true
			return tZero
		}
		if a := elVal(e); a.op == OApp && a.s == "val" {
			st.addFact(le(tZero, a)) // addresses are not negative
		}
		return elVal(e)
	})
	// keys and values
	for _, k := range []struct{ typ, create, destroy, read, readAll, size, mk string }{
		{"keyFactory", "CreateKey", "DestroyKey", "ReadKey", "ReadKeyAll", "GetRawKeySize", "mkkey"},
		{"valueFactory", "CreateValue", "DestroyValue", "ReadValue", "ReadValueAll", "GetRawValueSize", "mkval"},
	} {
		k := k
		add2(k.typ, k.create, func(x *Interp, st *State, site ssa.Instruction, a []*Term, rt types.Type) *Term {
			x.checkLive(st, site, a[1], "encodes")
			c := contentTerm(st, a[1])
			st.epoch++ // an overflow may be allocated
			v := mkApp(k.mk, c)
			st.emit("create", k.mk, site, v, c)
			return privateSlice("made", v)
		})
		add2(k.typ, k.destroy, func(x *Interp, st *State, site ssa.Instruction, a []*Term, rt types.Type) *Term {
			x.checkLive(st, site, a[1], "releases the contents of")
			c := contentTerm(st, a[1])
			st.epoch++
			st.emit("destroy", k.mk, site, nil, c)
			return contentLen(rawOf(c))
		})
		add2(k.typ, k.size, func(x *Interp, st *State, site ssa.Instruction, a []*Term, rt types.Type) *Term {
			x.checkLive(st, site, a[1], "measures")
			return contentLen(rawOf(contentTerm(st, a[1])))
		})
		add2(k.typ, k.readAll, func(x *Interp, st *State, site ssa.Instruction, a []*Term, rt types.Type) *Term {
			x.checkLive(st, site, a[1], "decodes")
			return privateSlice("decoded", rawOf(contentTerm(st, a[1])))
		})
		add2(k.typ, k.read, func(x *Interp, st *State, site ssa.Instruction, a []*Term, rt types.Type) *Term {
			x.checkLive(st, site, a[1], "decodes")
			c := rawOf(contentTerm(st, a[1]))
			n := mkApp("readn", c, a[2], lenOf(a[3]))
			st.emit("readinto", k.mk, site, n, c, a[2], a[3])
			if o, _, _, _ := sliceParts(a[3]); o != nil {
				x.checkLive(st, site, a[3], "writes through")
				x.noteWrite(st, site, o)
			}
			return n
		})
	}
	add2("keyComparer", "CompareKey", func(x *Interp, st *State, site ssa.Instruction, a []*Term, rt types.Type) *Term {
		x.checkLive(st, site, a[1], "compares")
		x.checkLive(st, site, a[2], "compares")
		return mkCmp(contentTerm(st, a[1]), contentTerm(st, a[2]))
	})
	return m
}

// missingPrims lists the page operations which cannot be found in the source.
func missingPrims(m map[string]Prim) error {
	if len(m) != 28 {
		var ks []string
		for k := range m {
			ks = append(ks, k[strings.LastIndex(k, "/")+1:])
		}
		return fmt.Errorf("only %d of 28 page and codec operations were found: %v", len(m), ks)
	}
	return nil
}
