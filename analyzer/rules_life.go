package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Opening, closing, storing, loading (C04, C05), decoding errors (C21), reads (C08).

type lifeRoot struct {
	pkg, typ string // the structure stored
	dict     string // the exported dictionary embedding it
	open     string
}

var lifeRoots = []lifeRoot{
	{pkgBPTree, "BPTree", "OrderedDict", "OpenOrderedDict"},
	{pkgHash, "HashMap", "Dict", "OpenDict"},
}

// stateCells are the integer fields of a structure, those of nested structures included.
func stateCells(t types.Type, pre []Sel, name string) (fs []fieldSel, names []string) {
	s, ok := t.Underlying().(*types.Struct)
	if !ok {
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			return []fieldSel{{pre, t}}, []string{name}
		}
		return nil, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		n := s.Field(i).Name()
		if name != "" {
			n = name + "." + n
		}
		f, m := stateCells(s.Field(i).Type(), append(pre[:len(pre):len(pre)], Sel{Field: i}), n)
		fs, names = append(fs, f...), append(names, m...)
	}
	return
}

func (P *Program) function(pkg, name string) *ssa.Function {
	if p := P.Pkgs[pkg]; p != nil {
		return p.Func(name)
	}
	return nil
}

func (P *Program) structType(pkg, typ string) types.Type {
	p := P.Pkgs[pkg]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(typ)
	if o == nil {
		return nil
	}
	return o.Type()
}

func msgStruct(e *Event) (*types.Struct, string) {
	for _, a := range e.args[1:] {
		if a.op == OIface && a.typ != nil {
			t := derefT(a.typ)
			if s, ok := t.Underlying().(*types.Struct); ok && s.NumFields() > 0 {
				return s, t.String()
			}
		}
	}
	return nil, ""
}

// peel removes width conversions; bits tells the narrowest one met.
func peel(t *Term) (*Term, int) {
	bits := 64
	for t.op == ONarrow && len(t.args) == 1 {
		w := 0
		fmt.Sscanf(t.s, "narrow%d", &w)
		if w > 0 && w < bits {
			bits = w
		}
		t = t.args[0]
	}
	return t, bits
}

// stored: what a Store outcome writes: message field name -> value; the type of message; address of its space.
type stored struct {
	vals  map[string]*Term
	typ   string
	order *Term
	addr  *Term
}

func storedBy(j *judge, o *Outcome) *stored {
	var enc, al []*Event
	for _, e := range allEvents(o.st.log) {
		switch e.kind {
		case "encode":
			enc = append(enc, e)
		case "alloc":
			al = append(al, e)
		}
	}
	if len(enc) != 1 {
		j.open("%d values are encoded instead of one", len(enc))
		return nil
	}
	if len(al) != 1 {
		j.bad("%d spaces are allocated instead of one for the stored state", len(al))
		return nil
	}
	s, name := msgStruct(enc[0])
	v := enc[0].args[0]
	if s == nil || v.op != OStruct || len(v.args) != s.NumFields() {
		j.open("the encoded value is not recognised")
		return nil
	}
	r := &stored{vals: map[string]*Term{}, typ: name, addr: al[0].res}
	if enc[0].name == "binary.Write" {
		r.order = enc[0].args[1]
	}
	for i := 0; i < s.NumFields(); i++ {
		r.vals[s.Field(i).Name()] = v.args[i]
	}
	// all encoded bytes, from the start of the space
	want := enc[0].res.args[0]
	got := contentTerm(o.st, mkSlice(viewObj(al[0].res), tZero, contentLen(want), 0))
	if got != want {
		if strOpaque(got) {
			j.open("the space of the stored state holds %s", got)
		} else {
			j.bad("the space of the stored state does not hold the whole encoded state from its start (but %s)", got)
		}
	}
	if o.st.decide(le(contentLen(want), al[0].args[0])) != 1 {
		j.bad("the space allocated for the stored state has the size %s instead of that of the encoded state", al[0].args[0])
	}
	return r
}

// decodedField: the message field and source bytes of a decoded value.
func decodedField(t *Term) (string, *Term) {
	t, _ = peel(t)
	if t.op == OApp && strings.HasPrefix(t.s, "decoded:") && len(t.args) == 1 {
		return strings.TrimPrefix(t.s, "decoded:"), t.args[0]
	}
	return "", nil
}

// ruleRoundTrip: what Store writes is what Load reads back, field by field.
func ruleRoundTrip(P *Program, r *Report) {
	for _, lr := range lifeRoots {
		t := P.structType(lr.pkg, lr.typ)
		if t == nil {
			r.open("anchor", lr.typ, 0, "type not found", "")
			continue
		}
		cells, names := stateCells(t, nil, "")
		for _, level := range []string{"raw", "dict"} {
			sf, lf := P.method(lr.pkg, lr.typ, "Store"), P.method(lr.pkg, lr.typ, "Load")
			if level == "dict" {
				sf, lf = P.method(modRoot, lr.dict, "Close"), P.function(modRoot, lr.open)
			}
			if sf == nil || lf == nil {
				r.open("anchor", lr.typ, 0, "operations for storing and loading not found", "")
				continue
			}
			srun, lrun := P.analyse(cfgAPI(P), sf, nil), P.analyse(cfgAPI(P), lf, nil)
			if !r.usable(srun) || !r.usable(lrun) {
				continue
			}
			var last *stored
			eachOutcome(r, srun, "store", func(j *judge, o *Outcome) {
				h := handleOf(srun, lr.typ)
				if h == nil {
					j.open("receiver not recognised")
					return
				}
				s := storedBy(j, o)
				if s == nil {
					return
				}
				if level == "raw" && (len(o.ret) != 1 || o.ret[0] != s.addr) {
					j.bad("does not return the address of the space which holds the stored state")
				}
				for _, e := range allEvents(o.st.log) {
					if e.kind == "setprimary" && e.args[0] != s.addr {
						j.bad("records %s instead of the address of the stored state", e.args[0])
					}
				}
				// each field stored with its own value
				for i, c := range cells {
					in, hit := h.init(o.st, c), false
					for _, v := range s.vals {
						w, bits := peel(v)
						if w != in {
							continue
						}
						hit = true
						if bits < 64 && !(bits >= 8 && strings.Contains(strings.ToLower(names[i]), "height")) {
							j.bad("the field %s is stored in %d bits", names[i], bits)
						}
					}
					if !hit {
						j.bad("the field %s is not stored", names[i])
					}
				}
				last = s
				s.vals["\x00"] = nil
				for _, e := range o.st.log.list() {
					if e.kind == "free" {
						j.bad("releases %s while storing", e.args[0])
					}
				}
			})
			if last == nil {
				continue
			}
			sh := handleOf(srun, lr.typ)
			sst := srun.outs[0].st
			loads := 0
			eachOutcome(r, lrun, "load", func(j *judge, o *Outcome) {
				obj, pre := (*Obj)(nil), []Sel(nil)
				var addr *Term
				if level == "raw" {
					h := handleOf(lrun, lr.typ)
					if h == nil {
						j.open("receiver not recognised")
						return
					}
					obj, pre, addr = h.obj, h.prefix, lrun.args[len(lrun.args)-1]
				} else {
					if len(o.ret) != 2 || o.st.decide(eqTerm(o.ret[1], tNil)) == -1 || o.ret[0].op != OPtr {
						return
					}
					for _, f := range o.st.facts {
						f.walk(func(x *Term) bool {
							if x.op == OApp && x.s == "primary" {
								addr = x
							}
							return true
						})
					}
					if addr == nil {
						j.bad("opens the file without looking for the stored state")
						return
					}
					if o.st.decide(lt(addr, tZero)) == 1 {
						return
					}
					if o.st.decide(le(tZero, addr)) != 1 {
						j.open("whether there is a stored state is not decided")
						return
					}
					p, n := findField(derefT(lf.Signature.Results().At(0).Type()), lr.typ, 0)
					if n == nil {
						j.open("result not recognised")
						return
					}
					obj, pre = o.ret[0].obj, append(o.ret[0].sels[:len(o.ret[0].sels):len(o.ret[0].sels)], p...)
				}
				loads++
				frees := 0
				for _, e := range allEvents(o.st.log) {
					switch e.kind {
					case "free":
						if e.args[0] == addr {
							frees++
						} else {
							j.bad("releases %s while loading", e.args[0])
						}
					case "alloc":
						j.bad("allocates space while loading")
					case "decode":
						if _, n := msgStruct(e); n != "" && n != last.typ {
							j.bad("decodes a %s although a %s was stored", n, last.typ)
						}
						if e.name == "binary.Read" && last.order != nil && e.args[1] != last.order {
							j.bad("decodes with another byte order (%s) than the state was stored with (%s)", e.args[1], last.order)
						}
					}
				}
				if frees != 1 {
					j.bad("the space of the stored state is released %d times", frees)
				}
				for i, c := range cells {
					got := o.st.loadCell(obj, append(pre[:len(pre):len(pre)], c.sels...), c.typ)
					f, src := decodedField(got)
					if src == nil {
						if strOpaque(got) || counted(got) || derivedFrom(got) {
							j.open("the field %s is restored as %s", names[i], got)
						} else {
							j.bad("the field %s is not restored from the stored state (but set to %s)", names[i], got)
						}
						continue
					}
					if _, bits := peel(got); bits < 64 && !(bits >= 8 && strings.Contains(strings.ToLower(names[i]), "height")) {
						j.bad("the field %s is restored from its lower %d bits only", names[i], bits)
					}
					if !(src.op == OApp && src.s == "mem" && src.contains(addr)) && !src.contains(addr) {
						j.bad("the field %s is restored from %s instead of the stored state", names[i], src)
					}
					w, ok := last.vals[f]
					if !ok {
						j.bad("the field %s is restored from the field %s, which is never stored", names[i], f)
						continue
					}
					pw, _ := peel(w)
					if pw != sh.init(sst, c) {
						j.bad("the field %s is restored from %s, which was stored with %s", names[i], f, w)
					}
				}
			})
			if loads == 0 && r.Bad == nil {
				r.open("load", shortName(lf), lf.Pos(), "no outcome which loads the stored state", "")
			}
		}
	}
	r.need("store", 4)
	r.need("load", 4)
}

// ruleFirstOpen: a file opened for the first time gives an empty structure.
func ruleFirstOpen(P *Program, r *Report) {
	for _, lr := range lifeRoots {
		f := P.function(modRoot, lr.open)
		if f == nil {
			r.open("anchor", lr.open, 0, "not found", "")
			continue
		}
		run := P.analyse(cfgAPI(P), f, nil)
		if !r.usable(run) {
			continue
		}
		eachOutcome(r, run, "create", func(j *judge, o *Outcome) {
			if len(o.ret) != 2 || o.ret[0].op != OPtr || o.st.decide(eqTerm(o.ret[1], tNil)) == -1 {
				return
			}
			pa := primaryOf(o.st)
			if pa == nil || o.st.decide(lt(pa, tZero)) != 1 {
				return
			}
			p, n := findField(derefT(f.Signature.Results().At(0).Type()), lr.typ, 0)
			if n == nil {
				j.open("result not recognised")
				return
			}
			pre := append(o.ret[0].sels[:len(o.ret[0].sels):len(o.ret[0].sels)], p...)
			P.checkEmpty(j, o, lr.typ, &handle{obj: o.ret[0].obj, prefix: pre, typ: n})
		})
	}
	r.need("create", 2)
}

func primaryOf(st *State) *Term {
	var a *Term
	for _, f := range st.facts {
		f.walk(func(x *Term) bool {
			if x.op == OApp && x.s == "primary" {
				a = x
			}
			return true
		})
	}
	return a
}

// checkEmpty: the fields and spaces are those of an empty structure.
func (P *Program) checkEmpty(j *judge, o *Outcome, typ string, h *handle) {
	st := o.st
	var allocs []*Event
	for _, e := range allEvents(st.log) {
		switch e.kind {
		case "alloc":
			allocs = append(allocs, e)
		case "free":
			j.bad("releases %s while creating", e.args[0])
		}
	}
	val := func(g fieldSel) *Term { return h.final(st, g) }
	want := func(what string, g fieldSel, w int64) {
		if v := val(g); v != mkInt(w) {
			j.bad("%s starts as %s instead of %d", what, v, w)
		}
	}
	if typ == "BPTree" {
		F := P.btFields()
		if !F.ok {
			j.open("the fields behind the statistics cannot be resolved")
			return
		}
		if len(allocs) != 1 {
			j.bad("%d pages are allocated for an empty tree", len(allocs))
			return
		}
		pg := allocs[0].res
		if val(F.root) != pg {
			j.bad("the root is %s instead of the page created", val(F.root))
		}
		want("the height", F.height, 1)
		want("the number of leafs", F.leafs, 1)
		want("the number of non-leafs", F.nonLeafs, 0)
		want("the number of records", F.records, 0)
		want("the payload size", F.payload, 0)
		if q := st.seq[viewObj(pg)]; q == nil || len(q.args) != 0 {
			j.bad("the first leaf is not empty")
		}
		// head and tail
		cells, names := stateCells(h.typ, nil, "")
		for i, c := range cells {
			if strings.Contains(names[i], ".") {
				if v := val(c); v != pg {
					j.bad("%s is %s instead of the only leaf", names[i], v)
				}
			}
		}
		for _, off := range []int64{0, 8} {
			if w := st.readInt(viewObj(pg), st.cont(viewObj(pg)), mkInt(off), 8, "be"); w != pg {
				j.bad("the only leaf is not linked to itself (link word at %d is %s)", off, w)
			}
		}
		return
	}
	dirs, ok1 := P.getterField(pkgHash, "HashMap", "NumberOfSlotDirs")
	slots, ok2 := P.getterField(pkgHash, "HashMap", "NumberOfSlots")
	items, ok3 := P.getterField(pkgHash, "HashMap", "NumberOfItems")
	payload, ok4 := P.getterField(pkgHash, "HashMap", "PayloadSize")
	if !ok1 || !ok2 || !ok3 || !ok4 {
		j.open("the fields behind the statistics cannot be resolved")
		return
	}
	want("the number of slot directories", dirs, 1)
	want("the number of slots", slots, 1)
	want("the number of items", items, 0)
	want("the payload size", payload, 0)
	rt, ok := P.onlyInt64(pkgHash, "HashMap")
	if !ok {
		j.open("the address of the slot directories cannot be resolved")
		return
	}
	if len(allocs) != 2 {
		j.bad("%d spaces are allocated for an empty hash map", len(allocs))
		return
	}
	da := val(rt)
	var other *Event
	for _, e := range allocs {
		if e.res != da {
			other = e
		}
	}
	if other == nil || allocs[0].res != da && allocs[1].res != da {
		j.bad("the recorded table of slot directories is %s", da)
		return
	}
	if w := st.readInt(viewObj(da), st.cont(viewObj(da)), tZero, 8, "be"); w != other.res {
		j.bad("the first slot directory is %s instead of the space allocated for it", w)
	}
	if w := st.readInt(viewObj(other.res), st.cont(viewObj(other.res)), tZero, 8, "be"); st.decide(lt(w, tZero)) != 1 {
		j.bad("the first slot does not start empty (its address is %s)", w)
	}
}

// ruleOpenClose: order of the steps and errors of the storage (C05).
func ruleOpenClose(P *Program, r *Report) {
	for _, lr := range lifeRoots {
		f := P.function(modRoot, lr.open)
		c := P.method(modRoot, lr.dict, "Close")
		if f == nil || c == nil {
			r.open("anchor", lr.open, 0, "operations not found", "")
			continue
		}
		run := P.analyse(cfgAPI(P), f, nil)
		if r.usable(run) {
			eachOutcome(r, run, "open", func(j *judge, o *Outcome) { P.checkOpen(j, o, lr) })
			for n, o := range run.outs {
				// panics only for stored state which cannot be decoded
				if !o.panics || o.st.dead {
					continue
				}
				bad := false
				for _, e := range allEvents(o.st.log) {
					if e.kind == "decode" && o.st.decide(eqTerm(e.res, tNil)) == -1 {
						bad = true
					}
				}
				if !bad {
					r.open("open", shortName(f), f.Pos(), "may panic", fmt.Sprintf("outcome %d", n))
				}
			}
		}
		run = P.analyse(cfgAPI(P), c, nil)
		if r.usable(run) {
			eachOutcome(r, run, "close", func(j *judge, o *Outcome) {
				var ev []*Event
				for _, e := range allEvents(o.st.log) {
					if lasting[e.kind] || e.kind == "encode" {
						ev = append(ev, e)
					}
					if e.kind == "call" && P.effectful(e) {
						j.open("call of %s", e.name)
					}
				}
				var prim, cl int = -1, -1
				var alloc *Event
				for i, e := range ev {
					switch e.kind {
					case "setprimary":
						if prim >= 0 {
							j.bad("records the address of the stored state twice")
						}
						prim = i
					case "fsmclose":
						if cl >= 0 {
							j.bad("closes the file twice")
						}
						cl = i
					case "alloc":
						alloc = e
						if prim >= 0 || cl >= 0 {
							j.bad("stores the state too late")
						}
					}
				}
				switch {
				case cl < 0:
					j.bad("does not close the file")
				case prim < 0:
					j.bad("does not record the address of the stored state")
				case prim > cl:
					j.bad("records the address of the stored state after closing the file")
				case alloc == nil:
					j.bad("does not store the state")
				case ev[prim].args[0] != alloc.res:
					j.bad("records %s instead of the address of the stored state", ev[prim].args[0])
				}
				if cl >= 0 {
					if len(o.ret) != 1 || o.ret[0] != ev[cl].res {
						if !(len(o.ret) == 1 && o.ret[0] == tNil && o.st.decide(eqTerm(ev[cl].res, tNil)) == 1) {
							j.bad("does not return the storage's error")
						}
					}
					if cl != len(ev)-1 {
						j.bad("%s after closing the file", ev[len(ev)-1].kind)
					}
				}
			})
		}
	}
	r.need("open", 4)
	r.need("close", 2)
}

func (P *Program) checkOpen(j *judge, o *Outcome, lr lifeRoot) {
	var opened, inited *Event
	var fs *Term
	after := ""
	for _, e := range o.st.log.list() {
		switch e.kind {
		case "fsminit":
			if opened != nil || inited != nil {
				j.bad("initialises the storage a second time")
			}
			inited = e
			fs = e.args[0]
		case "fsmopen":
			if opened != nil {
				j.bad("opens the file a second time")
			}
			opened = e
			if inited == nil || e.args[0] != fs {
				j.bad("opens the file on a storage which is not initialised")
			}
			args := j.run.args
			if len(args) == 2 && (e.args[1] != args[0] || e.args[2] != args[1]) {
				j.bad("opens (%s, %s) instead of the file and with the flag given", e.args[1], e.args[2])
			}
		default:
			if lasting[e.kind] || e.kind == "decode" {
				if opened == nil {
					j.bad("%s before the file is open", e.kind)
				} else if after == "" {
					after = e.kind
				}
			}
		}
	}
	if opened == nil {
		j.bad("does not open the file")
		return
	}
	if len(o.ret) != 2 {
		j.open("unexpected results")
		return
	}
	switch o.st.decide(eqTerm(opened.res, tNil)) {
	case 0:
		j.bad("the error of opening the file is not examined")
	case -1:
		if after != "" {
			j.bad("%s although the file could not be opened", after)
		}
		if o.ret[1] != opened.res {
			j.bad("returns %s instead of the storage's error", o.ret[1])
		}
	case 1:
		if o.ret[1] != tNil && o.ret[1] != opened.res {
			j.bad("returns the error %s although the file was opened", o.ret[1])
		}
		if o.ret[0].op != OPtr {
			j.bad("returns %s instead of a dictionary", o.ret[0])
			return
		}
		if fs.op != OPtr || fs.obj != o.ret[0].obj {
			j.bad("the dictionary returned does not hold the storage which was opened")
			return
		}
		p, n := findField(derefT(j.run.fn.Signature.Results().At(0).Type()), lr.typ, 0)
		if n == nil {
			j.open("result not recognised")
			return
		}
		pre := append(o.ret[0].sels[:len(o.ret[0].sels):len(o.ret[0].sels)], p...)
		s := n.Underlying().(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if pt, ok := s.Field(i).Type().(*types.Pointer); ok && strings.HasSuffix(pt.Elem().String(), "fsm.FileStorage") {
				if v := o.st.loadCell(o.ret[0].obj, append(pre[:len(pre):len(pre)], Sel{Field: i}), pt); v != fs {
					j.bad("the dictionary works on the storage %s instead of the one opened", v)
				}
			}
		}
		pa := primaryOf(o.st)
		if pa == nil || o.st.decide(lt(pa, tZero)) == 0 {
			j.bad("whether there is a stored state is not examined")
			return
		}
		dec, al := 0, 0
		for _, e := range allEvents(o.st.log) {
			switch e.kind {
			case "decode":
				dec++
			case "alloc":
				al++
			}
		}
		if o.st.decide(lt(pa, tZero)) == 1 && (dec > 0 || al == 0) {
			j.bad("no empty structure is created in a new file")
		}
		if o.st.decide(lt(pa, tZero)) == -1 && (dec == 0 || al > 0) {
			j.bad("the stored state is not loaded")
		}
	}
}

// ruleDecode: results of decoding are not used unless its success is known (C21).
func ruleDecode(P *Program, r *Report) {
	seen := map[*Run]bool{}
	for _, run := range append(apiRuns(P), codecRuns(P)...) {
		if seen[run] || !r.usable(run) {
			continue
		}
		seen[run] = true
		for n, o := range run.outs {
			if o.st.dead {
				continue
			}
			P.checkDecode(r, run, n, o)
		}
	}
	r.need("decode", 8)
}

// codecRuns: functions which decode something themselves.
func codecRuns(P *Program) []*Run {
	var rs []*Run
	for _, f := range P.Funcs {
		if f.Pkg == nil || f.Pkg.Pkg.Path() == pkgProto || f.Parent() != nil || f.Synthetic != "" {
			continue
		}
		dec := false
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if g := c.Common().StaticCallee(); g != nil {
						switch n := g.String(); {
						case n == "encoding/binary.Uvarint", n == "encoding/binary.Varint", n == "encoding/binary.Read", strings.HasSuffix(n, ".DecodeMessage"), g.Name() == "Unmarshal":
							dec = true
						}
					}
				}
			}
		}
		if dec && recvNamed(f) != nil && f.Pkg.Pkg.Path() == pkgHash {
			rs = append(rs, P.analyse(cfgAPI(P), f, nil))
		}
	}
	return rs
}

func (P *Program) checkDecode(r *Report, run *Run, n int, o *Outcome) {
	path := fmt.Sprintf("%s outcome %d", run.name, n)
	fn, pos := shortName(run.fn), run.fn.Pos()
	type item struct {
		st  *State
		log *Event
		end bool
	}
	items := []item{{o.st, o.st.log, !o.panics}}
	seen := map[*LoopSum]bool{}
	for _, e := range allEvents(o.st.log) {
		if e.loop == nil || seen[e.loop] {
			continue
		}
		seen[e.loop] = true
		for _, it := range e.loop.iters {
			if it.st != nil && !it.st.dead {
				items = append(items, item{it.st, it.log, true})
			}
		}
	}
	for _, it := range items {
		evs := it.log.list()
		for i, e := range evs {
			if e.kind != "decode" {
				continue
			}
			d := it.st.decide(eqTerm(e.res, tNil))
			later := ""
			for _, e2 := range evs[i+1:] {
				if lasting[e2.kind] || e2.kind == "call" && P.effectful(e2) {
					later = e2.kind
					break
				}
			}
			switch {
			case d == 1:
				r.ok("decode", path)
			case d == -1 && later != "":
				r.bad("decode", fn, pos, fmt.Sprintf("goes on (%s) although %s failed", later, e.name), path)
			case d == -1 && it.end && !returnsError(o):
				r.bad("decode", fn, pos, fmt.Sprintf("carries on although %s failed", e.name), path)
			case d == 0 && (it.end || later != ""):
				r.bad("decode", fn, pos, fmt.Sprintf("uses the result of %s without examining its error", e.name), path)
			default:
				r.ok("decode", path)
			}
			for _, e2 := range evs[:i] {
				if e2.kind == "free" || e2.kind == "setprimary" {
					r.bad("decode", fn, pos, fmt.Sprintf("%s before %s is known to succeed", e2.kind, e.name), path)
				}
			}
		}
		if !it.end {
			continue
		}
		// variable-length integers
		for _, e := range evs {
			if e.kind != "decodeint" {
				continue
			}
			if it.st.decide(le(tOne, e.res)) != 1 {
				r.bad("decodeint", fn, pos, "uses a decoded integer without examining whether its decoding succeeded", path)
			} else {
				r.ok("decodeint", path)
			}
		}
	}
}

func returnsError(o *Outcome) bool {
	for _, v := range o.ret {
		if v.op == OApp && (v.s == "error" || v.s == "decerr") || v.op == OLoad && v.obj != nil && v.obj.kind == ObjGlobal {
			return true
		}
	}
	return false
}

var mutators = map[string]bool{"Init": true, "Create": true, "Destroy": true, "Store": true, "Load": true, "Close": true,
	"AddRecord": true, "UpdateRecord": true, "AddOrUpdateRecord": true, "DeleteRecord": true,
	"AddItem": true, "UpdateItem": true, "AddOrUpdateItem": true, "DeleteItem": true,
	"Set": true, "SetIfExists": true, "SetIfNotExists": true, "Clear": true}

// ruleReads: operations which only read change nothing but the iterator or cursor handed in (C08).
func ruleReads(P *Program, r *Report) {
	for _, run := range apiRuns(P) {
		f := run.fn
		n := recvNamed(f)
		if n == nil || !r.usable(run) {
			continue
		}
		iter := isIterMethod(P, f)
		switch n.Obj().Name() {
		case "BPTree", "HashMap", "Dict", "OrderedDict":
			if mutators[f.Name()] {
				continue
			}
		default:
			if !iter {
				continue
			}
		}
		own := map[*Obj]bool{}
		for i, a := range run.args {
			if a.op != OSym {
				continue
			}
			recv := i == 0 && f.Signature.Recv() != nil
			if recv && !iter {
				continue
			}
			own[symObj(a)] = true
		}
		allow := func(o *Obj) bool {
			if own[o] || callerBuffer(o.of) != "" && o.kind == ObjSym {
				return true // buffers of the caller are the subject of C03
			}
			return false
		}
		eachOutcome(r, run, "read", func(j *judge, o *Outcome) {
			ch, uns := P.changes(o, allow)
			if len(ch) > 0 {
				j.bad("a reading operation changes the dictionary or file (%s)", ch[0])
			} else if len(uns) > 0 {
				j.open("%s", uns[0])
			}
		})
	}
	r.need("read", 40)
}

func init() {
	register("C04", "Outcome analysis of storing, loading, opening and closing: the value each state field is encoded with is matched with the field it is decoded into, message type, byte order and the bytes of the space written included; the space is released exactly once; the state of a structure created in a new file is that of an empty one.",
		compose(ruleRoundTrip, ruleFirstOpen, ruleOpenClose))
	register("C05", "Order and arguments of the storage's lifecycle calls on every path of opening and closing, propagation of the storage's errors.",
		compose(ruleOpenClose, ruleFirstOpen))
	register("C08", "Effect analysis of every reading operation, iterator and cursor method: no lasting event and no write to an object which outlives the call, except the iterator or cursor itself.",
		ruleReads)
	register("C21", "Error typestate of decoders: on every path a decoder's error is known to be nil before anything lasting happens or the operation returns normally; decoded integers are used only after their length was examined.",
		ruleDecode)
}

// counted: the term contains what a loop has counted.
func counted(t *Term) bool {
	r := false
	t.walk(func(x *Term) bool {
		r = r || strings.HasPrefix(x.s, "k$")
		return !r
	})
	return r
}

// derivedFrom: more than one stored field, or more than sums of one, make the value.
func derivedFrom(t *Term) bool {
	fs := map[string]bool{}
	t.walk(func(x *Term) bool {
		if f, src := decodedField(x); src != nil {
			fs[f] = true
		}
		return true
	})
	if len(fs) == 0 {
		return false
	}
	if len(fs) > 1 {
		return true
	}
	for _, a := range sortedAtoms(linOf(t)) {
		if f, src := decodedField(a); src == nil && f == "" {
			return true
		}
	}
	return false
}
