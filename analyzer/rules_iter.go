package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- iterators (C15) ----

// iterType is a type of iterators and the roles of its fields (as paths from it).
type iterType struct {
	typ               *types.Named
	forward           bool
	end, leaf, idx    fieldSel
	lastLeaf, lastIdx fieldSel
	rest              []fieldSel
	methods           map[string]iterMethod
	open              string
}

type iterMethod struct {
	fn     *ssa.Function
	prefix []Sel // from the iterator to the receiver
}

// cfgRange: the searches for ranges, their outcomes kept apart by what decides them.
func cfgRange(P *Program) *Config {
	if P.cfgs["range"] == nil {
		c := *cfgAPI(P)
		c.Name = "range"
		c.NoMerge = true
		P.setCfg(&c)
	}
	return P.cfgs["range"]
}

// iterators finds the types the two searches return.
func (P *Program) iterators(r *Report) []*iterType {
	var rs []*iterType
	for _, name := range []string{"SearchForward", "SearchBackward"} {
		f := P.method(pkgBPTree, "BPTree", name)
		if f == nil {
			r.open("iterator", "BPTree."+name, 0, "not found", "")
			continue
		}
		var named *types.Named
		for _, t := range returnedTypes(f, 0, map[*ssa.Function]bool{}) {
			n, ok := derefT(t).(*types.Named)
			if !ok || named != nil && named != n {
				named = nil
				break
			}
			named = n
		}
		if named == nil {
			r.open("iterator", shortName(f), f.Pos(), "the type of its iterators is not recognised", "")
			continue
		}
		t := &iterType{typ: named, forward: name == "SearchForward", methods: map[string]iterMethod{}}
		for _, o := range rs {
			if o.typ == named {
				r.open("iterator", shortName(f), f.Pos(), "both searches return the same type of iterators", "")
				return nil
			}
		}
		P.iterRoles(t)
		rs = append(rs, t)
	}
	return rs
}

// returnedTypes: the concrete types a function returns as an interface.
func returnedTypes(f *ssa.Function, d int, seen map[*ssa.Function]bool) []types.Type {
	if seen[f] || d > 4 {
		return nil
	}
	seen[f] = true
	var rs []types.Type
	var val func(v ssa.Value)
	val = func(v ssa.Value) {
		switch v := v.(type) {
		case *ssa.MakeInterface:
			rs = append(rs, v.X.Type())
		case *ssa.Phi:
			for _, e := range v.Edges {
				val(e)
			}
		case *ssa.ChangeInterface:
			val(v.X)
		case *ssa.Call:
			if c := v.Call.StaticCallee(); c != nil {
				rs = append(rs, returnedTypes(c, d+1, seen)...)
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if rt, ok := in.(*ssa.Return); ok && len(rt.Results) > 0 {
				val(rt.Results[0])
			}
		}
	}
	return rs
}

func (P *Program) iterRoles(t *iterType) {
	ms := P.Prog.MethodSets.MethodSet(types.NewPointer(t.typ))
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		fo, ok := s.Obj().(*types.Func)
		if !ok {
			continue
		}
		f := P.Prog.FuncValue(fo)
		if f == nil {
			continue
		}
		var pre []Sel
		for _, x := range s.Index()[:len(s.Index())-1] {
			pre = append(pre, Sel{Field: x})
		}
		t.methods[fo.Name()] = iterMethod{f, pre}
	}
	role := func(m iterMethod, v *Term) (fieldSel, bool) {
		if v == nil || v.op != OLoad || len(v.sels) == 0 || v.content != nil {
			return fieldSel{}, false
		}
		return fieldSel{append(m.prefix[:len(m.prefix):len(m.prefix)], v.sels...), v.typ}, true
	}
	run := func(n string) *Run {
		m, ok := t.methods[n]
		if !ok {
			return nil
		}
		if r := P.analyse(cfgRange(P), m.fn, nil); r.err == "" && len(r.outs) > 0 {
			return r
		}
		return nil
	}
	ok := false
	if r := run("IsAtEnd"); r != nil && len(r.outs) == 1 && len(r.outs[0].ret) == 1 {
		t.end, ok = role(t.methods["IsAtEnd"], r.outs[0].ret[0])
	}
	if !ok {
		t.open = "what tells the end of the iteration is not recognised"
		return
	}
	for _, n := range []string{"ReadKeyAll", "GetKeySize", "ReadValueAll"} {
		r := run(n)
		if r == nil {
			continue
		}
		for _, o := range r.outs {
			if o.panics {
				continue
			}
			for _, f := range append(append([]*Term{}, o.ret...), contentTerm(o.st, o.ret[0])) {
				f.walk(func(x *Term) bool {
					if x.op == OApp && (x.s == "key" || x.s == "val") && x.args[0].op == OApp && x.args[0].s == "page" {
						if a, ok := role(t.methods[n], x.args[0].args[0]); ok {
							if b, ok := role(t.methods[n], x.args[1]); ok && t.leaf.typ == nil {
								t.leaf, t.idx = a, b
							}
						}
					}
					return true
				})
			}
		}
		if t.leaf.typ != nil {
			break
		}
	}
	if t.leaf.typ == nil {
		t.open = "the place an iterator stands on is not recognised"
		return
	}
	var l64, li []fieldSel
	var flat func(typ types.Type, pre []Sel)
	flat = func(typ types.Type, pre []Sel) {
		s, ok := typ.Underlying().(*types.Struct)
		if !ok {
			f := fieldSel{pre, typ}
			switch k := selKey(pre); {
			case k == selKey(t.end.sels) || k == selKey(t.leaf.sels) || k == selKey(t.idx.sels):
			case types.Identical(typ, t.leaf.typ):
				l64 = append(l64, f)
			case types.Identical(typ, t.idx.typ):
				li = append(li, f)
			default:
				t.rest = append(t.rest, f)
			}
			return
		}
		for i := 0; i < s.NumFields(); i++ {
			flat(s.Field(i).Type(), append(pre[:len(pre):len(pre)], Sel{Field: i}))
		}
	}
	flat(t.typ, nil)
	if len(l64) > 1 || len(li) > 1 {
		// the fields the place is compared with
		met := map[string]bool{}
		for _, n := range sortedKeys(t.methods) {
			r := run(n)
			if r == nil {
				continue
			}
			for _, o := range r.outs {
				for _, f := range o.st.facts {
					f.walk(func(x *Term) bool {
						if x.op != OEQ0 {
							return true
						}
						as := sortedAtoms(linOf(x.args[0]))
						if len(as) != 2 || x != eqInt(as[0], as[1]) {
							return true
						}
						a, ok := role(t.methods[n], as[0])
						b, ok2 := role(t.methods[n], as[1])
						if !ok || !ok2 {
							return true
						}
						for _, w := range []fieldSel{t.leaf, t.idx} {
							if selKey(a.sels) == selKey(w.sels) {
								met[selKey(b.sels)] = true
							}
							if selKey(b.sels) == selKey(w.sels) {
								met[selKey(a.sels)] = true
							}
						}
						return true
					})
				}
			}
		}
		pick := func(fs []fieldSel) []fieldSel {
			var a, b []fieldSel
			for _, f := range fs {
				if met[selKey(f.sels)] {
					a = append(a, f)
				} else {
					b = append(b, f)
				}
			}
			if len(a) != 1 {
				return fs
			}
			t.rest = append(t.rest, b...)
			return a
		}
		l64, li = pick(l64), pick(li)
	}
	if len(l64) != 1 || len(li) != 1 {
		t.open = "the place an iteration ends at is not recognised"
		return
	}
	t.lastLeaf, t.lastIdx = l64[0], li[0]
}

// in: the field as seen from the receiver of a method.
func (m iterMethod) in(f fieldSel) (fieldSel, bool) {
	if len(f.sels) < len(m.prefix) {
		return f, false
	}
	for i, s := range m.prefix {
		if f.sels[i].Field != s.Field {
			return f, false
		}
	}
	return fieldSel{f.sels[len(m.prefix):], f.typ}, true
}

func ruleIterators(P *Program, r *Report) {
	for _, t := range P.iterators(r) {
		if t.open != "" {
			r.open("iterator", t.typ.Obj().Name(), t.typ.Obj().Pos(), t.open, "")
			continue
		}
		P.iterAdvance(r, t)
		for _, n := range []string{"GetKeySize", "ReadKey", "ReadKeyAll", "GetValueSize", "ReadValue", "ReadValueAll", "ReadRecordAll"} {
			P.iterRead(r, t, n)
		}
	}
	r.need("advance", 6)
	r.need("entry", 20)
}

func (P *Program) iterRead(r *Report, t *iterType, name string) {
	m, ok := t.methods[name]
	if !ok {
		r.open("entry", t.typ.Obj().Name()+"."+name, 0, "not found", "")
		return
	}
	run := P.analyse(cfgRange(P), m.fn, nil)
	if !r.usable(run) {
		return
	}
	end, ok1 := m.in(t.end)
	leaf, ok2 := m.in(t.leaf)
	idx, ok3 := m.in(t.idx)
	if !ok1 || !ok2 || !ok3 || run.args[0].op != OSym {
		r.open("entry", shortName(m.fn), m.fn.Pos(), "its fields are not those of the iterator", "")
		return
	}
	ob := symObj(run.args[0])
	eachOutcomeAll(r, run, "entry", func(j *judge, o *Outcome) {
		at := func(f fieldSel) *Term { return o.st.initialCell(ob, f.sels, f.typ) }
		for _, e := range []bool{true, false} {
			q := o.st.clone()
			if e {
				q.assume(at(end))
			} else {
				q.assume(not(at(end)))
			}
			if q.dead || q.decide(at(end)) == -1 && e {
				continue
			}
			what := "before the end"
			if e {
				what = "at the end"
			}
			if o.panics {
				j.bad("panics %s", what)
				return
			}
			var ret, errs []*Term
			sig := m.fn.Signature.Results()
			for i, v := range o.ret {
				if types.Identical(sig.At(i).Type(), types.Universe.Lookup("error").Type()) {
					errs = append(errs, v)
				} else {
					ret = append(ret, v)
				}
			}
			if len(errs) != 1 {
				j.open("unexpected results")
				return
			}
			reads := 0
			for _, ev := range o.st.log.list() {
				if ev.kind == "readinto" {
					reads++
				}
			}
			if e {
				if errs[0] == tNil || !nonNil(errs[0]) && q.decide(eqTerm(errs[0], tNil)) != -1 {
					j.bad("returns no error at the end of the iteration")
				}
				for _, v := range ret {
					if v != tNil && sameInt(q, v, tZero) != 1 && !(isEmptySlice(q, v)) {
						j.bad("returns %s at the end of the iteration", v)
					}
				}
				if reads > 0 {
					j.bad("fills the buffer at the end of the iteration")
				}
				continue
			}
			if errs[0] != tNil {
				j.bad("returns an error (%s) although the iteration is not at its end", errs[0])
				continue
			}
			base := pageBase(at(leaf))
			key, val := keyOf(base, at(idx)), valOf(base, at(idx))
			part := key
			if contains(name, "Value") {
				part = val
			}
			switch name {
			case "GetKeySize", "GetValueSize":
				if w := contentLen(rawOf(part)); sameInt(q, ret[0], w) != 1 {
					j.bad("returns %s instead of %s", ret[0], w)
				}
			case "ReadKeyAll", "ReadValueAll":
				if got := contentTerm(o.st, ret[0]); got != rawOf(part) {
					j.bad("returns %s instead of %s", got, rawOf(part))
				}
			case "ReadRecordAll":
				for i, w := range []*Term{key, val} {
					if got := contentTerm(o.st, ret[i]); got != rawOf(w) {
						j.bad("returns %s instead of %s", got, rawOf(w))
					}
				}
			default: // ReadKey, ReadValue
				if len(run.args) != 3 {
					j.open("unexpected signature")
					return
				}
				ok := false
				for _, ev := range o.st.log.list() {
					if ev.kind != "readinto" {
						continue
					}
					if ev.args[0] == rawOf(part) && sameInt(q, ev.args[1], run.args[1]) == 1 && sameSlice(q, ev.args[2], run.args[2]) && ret[0] == ev.res {
						ok = true
					}
				}
				if !ok || reads != 1 {
					j.bad("does not read the part asked for of %s into the buffer", rawOf(part))
				}
			}
		}
	})
}

func sameSlice(q *State, a, b *Term) bool {
	if a == b {
		return true
	}
	oa, fa, la, _ := sliceParts(a)
	ob, fb, lb, _ := sliceParts(b)
	return oa != nil && oa == ob && sameInt(q, fa, fb) == 1 && sameInt(q, la, lb) == 1
}

func isEmptySlice(q *State, v *Term) bool {
	if v.op != OSlice {
		return false
	}
	return sameInt(q, lenOf(v), tZero) == 1
}

func (P *Program) iterAdvance(r *Report, t *iterType) {
	m, ok := t.methods["Advance"]
	if !ok {
		r.open("advance", t.typ.Obj().Name()+".Advance", 0, "not found", "")
		return
	}
	run := P.analyse(cfgRange(P), m.fn, nil)
	if !r.usable(run) {
		return
	}
	if run.args[0].op != OSym || len(m.prefix) > 0 {
		r.open("advance", shortName(m.fn), m.fn.Pos(), "its fields are not those of the iterator", "")
		return
	}
	ob := symObj(run.args[0])
	caches := P.leafCaches(t, run, ob)
	eachOutcomeAll(r, run, "advance", func(j *judge, o *Outcome) {
		was := func(f fieldSel) *Term { return o.st.initialCell(ob, f.sels, f.typ) }
		is := func(f fieldSel) *Term { return o.st.loadCell(ob, f.sels, f.typ) }
		hard := false // something happens the fields do not tell
		for _, e := range o.st.log.list() {
			hard = hard || e.kind == "loop" || e.kind == "call" || e.kind == "extern"
		}
		say := func(f string, a ...interface{}) {
			if hard {
				j.open(f, a...)
			} else {
				j.bad(f, a...)
			}
		}
		rests := func(q *State) bool {
			for _, f := range []fieldSel{t.leaf, t.idx} {
				if v := is(f); v.op != OConst && sameInt(q, v, was(f)) != 1 {
					return false
				}
			}
			return true
		}
		atEnd := o.st.clone()
		atEnd.assume(was(t.end))
		if !atEnd.dead {
			switch {
			case o.panics:
				say("panics at the end of the iteration")
				return
			case atEnd.decide(is(t.end)) != 1:
				say("goes on after the end of the iteration")
			case !rests(atEnd):
				say("steps on although the iteration is at its end")
			}
		}
		if !o.panics {
			if v := o.ret[0]; !(v.op == OIface && (v.args[0] == run.args[0] || v.args[0].op == OPtr && v.args[0].obj == ob && len(v.args[0].sels) == 0)) {
				say("does not return the iterator itself")
			}
		}
		on := o.st.clone()
		on.assume(not(was(t.end)))
		if on.dead {
			return
		}
		n := countOf(pageBase(was(t.leaf)))
		// the iterator stands on an entry
		on.assume(le(tZero, was(t.idx)))
		on.assume(lt(was(t.idx), n))
		sameLeaf, sameIdx := eqInt(was(t.leaf), was(t.lastLeaf)), eqInt(was(t.idx), was(t.lastIdx))
		cases := []struct {
			name string
			fs   []*Term
		}{
			{"on the last entry", []*Term{sameLeaf, sameIdx}},
			{"", []*Term{not(sameLeaf)}},
			{"", []*Term{sameLeaf, not(sameIdx)}},
		}
		within := lt(addc(was(t.idx), 1), n)
		if !t.forward {
			within = le(tOne, was(t.idx))
		}
		ons := []*State{on}
		for _, f := range caches {
			var l []*State
			for _, s := range ons {
				l = append(l, cacheHolds(s, was(f), was(t.leaf))...)
			}
			ons = l
		}
		type in struct {
			*State
			int
		}
		var tries []in
		for i := range cases {
			for _, s := range ons {
				tries = append(tries, in{s, i})
			}
		}
		for _, try := range tries {
			q, c := try.State.clone(), cases[try.int]
			for _, f := range c.fs {
				q.assume(f)
			}
			if q.dead {
				continue
			}
			if o.panics {
				say("may panic")
				return
			}
			if c.name != "" {
				if q.decide(is(t.end)) != 1 {
					say("goes on after the last entry")
				} else if !rests(q) {
					say("steps on although the iteration is at its end")
				}
				continue
			}
			if q.decide(is(t.end)) == 1 {
				say("ends before the last entry")
				continue
			} else if q.decide(is(t.end)) == 0 {
				say("may end before the last entry")
				continue
			}
			for _, f := range append([]fieldSel{t.lastLeaf, t.lastIdx}, t.rest...) {
				a, b := was(f), is(f)
				if isCache(caches, f) {
					continue
				}
				if a != b && !(isIntType(f.typ) || isInt64(f.typ)) || a != b && sameInt(q, a, b) != 1 {
					say("changes the field %s of the iterator, which is needed later", selKey(f.sels))
				}
			}
			for _, in := range []bool{true, false} {
				q := q.clone()
				if in {
					q.assume(within)
				} else {
					q.assume(not(within))
				}
				if contradictory(q) {
					continue
				}
				leaf, idx := was(t.leaf), addc(was(t.idx), 1)
				if !t.forward {
					idx = addc(was(t.idx), -1)
				}
				if !in {
					v := viewObj(was(t.leaf))
					if t.forward {
						leaf, idx = q.readInt(v, q.cont(v), mkInt(8), 8, "be"), tZero
					} else {
						leaf = q.readInt(v, q.cont(v), tZero, 8, "be")
						idx = addc(countOf(pageBase(leaf)), -1)
					}
				}
				if idx2 := addc(countOf(pageBase(was(t.leaf))), -1); !in && !t.forward && sameInt(q, leaf, was(t.leaf)) == 1 && sameInt(q, is(t.idx), idx2) == 1 {
					idx = idx2 // the only leaf
				}
				if sameInt(q, is(t.leaf), leaf) != 1 || sameInt(q, is(t.idx), idx) != 1 {
					say("steps from (%s, %s) to (%s, %s) instead of (%s, %s)", was(t.leaf), was(t.idx), is(t.leaf), is(t.idx), leaf, idx)
				}
			}
		}
	})
}

// contradictory: the facts cannot hold together.
func contradictory(q *State) bool {
	if q.dead {
		return true
	}
	for _, f := range q.facts {
		if f.op == ONot && f.args[0].op == OEQ0 {
			if t := f.args[0].args[0]; q.prove(t) && q.prove(mulc(t, -1)) {
				return true
			}
		}
	}
	return false
}

func init() {
	register("C15", "Typestate analysis of the iterators: every path of every method, at the end, on the last entry, within a leaf and at its border.",
		compose(ruleIterators, someFindings(ruleOverflow, "content", func(v Violation) bool {
			return v.Rule == "decodeback" && !contains(v.Msg, "releas") && !contains(v.Msg, "allocates")
		})))
}

func isCache(cs []fieldSel, f fieldSel) bool {
	for _, c := range cs {
		if selKey(c.sels) == selKey(f.sels) {
			return true
		}
	}
	return false
}

// cacheHolds: the ways in which the field holds nothing yet, or the number of entries of the leaf.
func cacheHolds(s *State, v, leaf *Term) []*State {
	var r []*State
	for _, w := range []*Term{tZero, countOf(pageBase(leaf))} {
		q := s.clone()
		q.assume(eqInt(v, w))
		if !q.dead {
			r = append(r, q)
		}
	}
	return r
}

// leafCaches: the other fields which hold nothing or the number of entries of the leaf stood on, before and after each step.
func (P *Program) leafCaches(t *iterType, run *Run, ob *Obj) []fieldSel {
	var r []fieldSel
	for _, f := range t.rest {
		if !isIntType(f.typ) {
			continue
		}
		holds := true
		for _, o := range run.outs {
			if o.panics {
				continue
			}
			was := func(f fieldSel) *Term { return o.st.initialCell(ob, f.sels, f.typ) }
			is := func(f fieldSel) *Term { return o.st.loadCell(ob, f.sels, f.typ) }
			n := countOf(pageBase(was(t.leaf)))
			for _, q := range cacheHolds(o.st, was(f), was(t.leaf)) {
				q.assume(not(was(t.end)))
				q.assume(le(tZero, was(t.idx)))
				q.assume(lt(was(t.idx), n))
				if q.dead || contradictory(q) {
					continue
				}
				if sameInt(q, is(f), tZero) != 1 && sameInt(q, is(f), countOf(pageBase(is(t.leaf)))) != 1 {
					holds = false
				}
			}
		}
		if holds {
			r = append(r, f)
		}
	}
	return r
}
