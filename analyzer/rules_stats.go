package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- statistics (C09) ----

// someFindings applies a rule and keeps those of its findings which concern a property.
func someFindings(rule func(P *Program, r *Report), name string, keep func(v Violation) bool) func(P *Program, r *Report) {
	return func(P *Program, r *Report) {
		t := newReport(P, r.Prop)
		rule(P, t)
		pick := func(vs []Violation) (rs []Violation) {
			for _, v := range vs {
				if keep(v) {
					v.Rule = name
					rs = append(rs, v)
				}
			}
			return
		}
		r.Bad = append(r.Bad, pick(t.Bad)...)
		r.Open = append(r.Open, pick(t.Open)...)
		for k := range t.Roots {
			r.Roots[k] = true
		}
		for k := range t.Funcs {
			r.Funcs[k] = true
		}
		r.Sites += t.Sites
		r.Paths += t.Paths
		r.Loops += t.Loops
		for k, n := range t.OK {
			r.OK[name+":"+k] += n
		}
	}
}

// fieldNames: the names stateCells gives to fields.
func (P *Program) fieldNames(pkg, typ string, fs ...fieldSel) map[string]bool {
	m := map[string]bool{}
	t := P.structType(pkg, typ)
	if t == nil {
		return m
	}
	cells, names := stateCells(t, nil, "")
	for i, c := range cells {
		for _, f := range fs {
			if sameSels(c.sels, f.sels) {
				m[names[i]] = true
			}
		}
	}
	return m
}

func sameSels(a, b []Sel) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].Field != b[i].Field {
			return false
		}
	}
	return true
}

// aboutFields: the finding is about one of the fields.
func aboutFields(v Violation, names map[string]bool) bool {
	if s, ok := strings.CutPrefix(v.Msg, "the field "); ok {
		return names[strings.SplitN(s, " ", 2)[0]]
	}
	return false
}

type counter struct {
	what string
	f    fieldSel
}

// plainLoad: the value of a field at some time, nothing added or taken off.
func plainLoad(t *Term) bool { return t.op == OLoad }

// untouched: outside the functions which are analysed for themselves, the
// operation leaves the counters alone.
func (P *Program) untouched(j *judge, run *Run, o *Outcome, h *handle, cs []counter) {
	for _, c := range cs {
		v := h.final(o.st, c.f)
		if v == h.init(o.st, c.f) {
			continue
		}
		if !plainLoad(v) {
			j.bad("%s becomes %s", c.what, v)
			continue
		}
		// set by calls only: what each of them starts with is what was there
		for _, e := range o.st.log.list() {
			if e.kind != "call" || !P.effectful(e) {
				continue
			}
			for _, s := range run.snapsAt(e, o) {
				if w := h.final(s, c.f); !plainLoad(w) {
					j.bad("%s becomes %s before %s", c.what, w, e.name)
				}
			}
		}
	}
}

// understoodSize: sums of lengths of what was given and of what is stored.
func understoodSize(t *Term) bool {
	for a := range linOf(t).m {
		if a == nil {
			continue
		}
		switch {
		case a.op == OLen:
		case a.op == OApp && (a.s == "klen" || a.s == "len"):
		case a.op == OLoad:
		default:
			return false
		}
	}
	return true
}

func (P *Program) checkDelta(j *judge, st *State, what string, got, want *Term) {
	d := sub(got, want)
	if d == tZero || st.decide(eqInt(d, tZero)) == 1 {
		return
	}
	if d.op == OConst || understoodSize(d) {
		j.bad("%s changes by %s, but what is stored by %s", what, got, want)
		return
	}
	j.open("%s changes by %s, what is stored by %s", what, got, want)
}

func ruleTreeCounters(P *Program, r *Report) {
	F := P.btFields()
	if !F.ok {
		r.open("anchor", "BPTree", 0, "the fields behind the statistics cannot be resolved", "")
		return
	}
	P.recOpRuns(r, func(op recOp, run *Run, h *handle) {
		eachOutcome(r, run, "counters", func(j *judge, o *Outcome) {
			st := o.st
			edits, _, _, _, unknown := netEdits(P, o, h)
			if unknown != "" {
				j.open("%s", unknown)
				return
			}
			var kt *Term
			if bs := byKind(run, "bytes"); len(bs) > 0 {
				kt = keyTerm(st, argOf(run, bs[0]))
			}
			n, size := tZero, tZero
			known := true
			content := func(t *Term, made string) *Term {
				if t.op == OApp && t.s == made && len(t.args) == 1 {
					return contentLen(t.args[0])
				}
				if l := lookupOf(st, h, F, kt); l != nil && l.found && t == keyOf(pageBase(l.page), l.idx) {
					return contentLen(kt)
				}
				return contentLen(mkApp("raw", t))
			}
			for _, e := range edits {
				switch e.kind {
				case "insert":
					n = addc(n, 1)
					size = add(size, add(content(e.k, "mkkey"), content(e.v, "mkval")))
				case "remove":
					if len(e.old.args) != 1 {
						known = false
						break
					}
					g := e.old.args[0]
					if isSeg(g) && segLen(g) != tOne {
						known = false
						break
					}
					n = addc(n, -1)
					size = sub(size, add(content(elKey(g), "mkkey"), content(elVal(g), "mkval")))
				case "set":
					old := valOf(pageBase(e.page), e.idx)
					size = add(size, sub(content(e.v, "mkval"), content(old, "mkval")))
				}
			}
			if !known {
				j.open("the edit is not recognised")
				return
			}
			P.checkDelta(j, st, "the number of records", sub(h.final(st, F.records), h.init(st, F.records)), n)
			got := sub(h.final(st, F.payload), h.init(st, F.payload))
			if kt != nil {
				// the key found is the key given
				if l := lookupOf(st, h, F, kt); l != nil && l.found {
					k := contentLen(mkApp("raw", keyOf(pageBase(l.page), l.idx)))
					got, size = subst(got, k, contentLen(kt)), subst(size, k, contentLen(kt))
				}
			}
			P.checkDelta(j, st, "the payload size", got, size)
			P.untouched(j, run, o, h, []counter{{"the height", F.height}, {"the number of leafs", F.leafs}, {"the number of non-leafs", F.nonLeafs}})
		})
	})
	r.need("counters", 20)
	r.need("stepcounters", 20)
	// the steps of rebalancing
	for _, u := range P.unitRuns(r) {
		eachOutcome(r, u.run, "stepcounters", func(j *judge, o *Outcome) {
			for _, c := range []counter{{"the number of records", F.records}, {"the payload size", F.payload}} {
				v0, v1 := o.st.initialCell(u.fr.bpt, c.f.sels, c.f.typ), o.st.loadCell(u.fr.bpt, c.f.sels, c.f.typ)
				if v1 != v0 && !plainLoad(v1) {
					j.bad("%s becomes %s", c.what, v1)
				}
			}
		})
	}
}

func ruleHashCounters(P *Program, r *Report) {
	items, ok1 := P.getterField(pkgHash, "HashMap", "NumberOfItems")
	payload, ok2 := P.getterField(pkgHash, "HashMap", "PayloadSize")
	slots, ok3 := P.getterField(pkgHash, "HashMap", "NumberOfSlots")
	dirs, ok4 := P.getterField(pkgHash, "HashMap", "NumberOfSlotDirs")
	if !(ok1 && ok2 && ok3 && ok4) {
		r.open("anchor", "HashMap", 0, "the fields behind the statistics cannot be resolved", "")
		return
	}
	P.hashOpRuns(r, func(op recOp, run *Run, h *handle) {
		eachOutcome(r, run, "counters", func(j *judge, o *Outcome) {
			st := o.st
			bs := byKind(run, "bytes")
			kt := contentTerm(st, argOf(run, bs[0]))
			l := P.hashLookupOf(st, kt)
			if l == nil || l.why != "" {
				j.open("no search for the key decides this outcome")
				return
			}
			edit, _, _ := expected(op.kind, l.found)
			n, size := tZero, tZero
			newSize := func() *Term {
				if len(bs) < 2 {
					return tZero
				}
				return contentLen(contentTerm(st, argOf(run, bs[1])))
			}
			got := sub(h.final(st, payload), h.init(st, payload))
			switch edit {
			case "insert":
				n, size = tOne, add(contentLen(kt), newSize())
			case "set":
				_, _, v := itemAtInit(st, l.it, l.items, l.idx)
				size = sub(newSize(), contentLen(v))
			case "remove":
				_, k, v := itemAtInit(st, l.it, l.items, l.idx)
				n, size = mkInt(-1), sub(sub(tZero, contentLen(kt)), contentLen(v))
				// the key found is the key given
				got = subst(got, contentLen(k), contentLen(kt))
			}
			P.checkDelta(j, st, "the number of items", sub(h.final(st, items), h.init(st, items)), n)
			P.checkDelta(j, st, "the payload size", got, size)
			P.untouched(j, run, o, h, []counter{{"the number of slots", slots}, {"the number of slot directories", dirs}})
		})
	})
	for _, s := range P.slotSteps(newReport(P, r.Prop)) {
		j := &judge{r: r, run: s.run, rule: "stepcounters", n: s.n}
		for _, c := range []counter{{"the number of items", items}, {"the payload size", payload}} {
			if v := s.h.final(s.end, c.f); v != s.h.final(s.at, c.f) && !plainLoad(v) {
				j.bad("%s becomes %s", c.what, v)
			}
		}
		if j.bads == 0 {
			r.ok("stepcounters", s.say())
		}
	}
}

// ruleStats: the statistics of the dictionaries.
func ruleStats(P *Program, r *Report) {
	for _, x := range []struct {
		dict, inner, pkg string
		fields           map[string]string
	}{
		{"Dict", "HashMap", pkgHash, map[string]string{"NumberOfHashSlotDirs": "NumberOfSlotDirs", "NumberOfHashSlots": "NumberOfSlots", "NumberOfHashItems": "NumberOfItems", "PayloadSize": "PayloadSize"}},
		{"OrderedDict", "BPTree", pkgBPTree, map[string]string{"BPTreeHeight": "Height", "NumberOfBPTreeLeafs": "NumberOfLeafs", "NumberOfBPTreeNonLeafs": "NumberOfNonLeafs", "NumberOfBPTreeRecords": "NumberOfRecords", "PayloadSize": "PayloadSize"}},
	} {
		for _, g := range x.fields {
			P.checkGetter(r, x.pkg, x.inner, g)
		}
		f := P.method(modRoot, x.dict, "Stats")
		if f == nil {
			r.open("stats", x.dict+".Stats", 0, "not found", "")
			continue
		}
		run := P.analyse(cfgAPI(P), f, nil)
		if !r.usable(run) {
			continue
		}
		h := handleOf(run, x.inner)
		rt, _ := f.Signature.Results().At(0).Type().Underlying().(*types.Struct)
		if h == nil || rt == nil {
			r.open("stats", shortName(f), f.Pos(), "unexpected signature", "")
			continue
		}
		eachOutcome(r, run, "stats", func(j *judge, o *Outcome) {
			for i := 0; i < rt.NumFields(); i++ {
				g := x.fields[rt.Field(i).Name()]
				if g == "" {
					continue
				}
				v := proj(o.ret[0], i)
				s, ok := P.getterField(x.pkg, x.inner, g)
				if !ok {
					continue // reported above
				}
				if w, _ := peel(v); w != h.init(o.st, s) {
					j.bad("%s is %s instead of %s.%s", rt.Field(i).Name(), v, x.inner, g)
				}
			}
		})
	}
	r.need("stats", 2)
}

// ruleOtherOps: what is not an operation on a record leaves the statistics alone.
func ruleOtherOps(P *Program, r *Report) {
	for _, x := range []struct {
		dict, inner, pkg string
		getters, ops     []string
	}{
		{"Dict", "HashMap", pkgHash, []string{"NumberOfSlotDirs", "NumberOfSlots", "NumberOfItems", "PayloadSize"}, []string{"FetchItem", "Fetch", "Stats", "Test", "HasItem"}},
		{"OrderedDict", "BPTree", pkgBPTree, []string{"Height", "NumberOfLeafs", "NumberOfNonLeafs", "NumberOfRecords", "PayloadSize"}, []string{"SearchForward", "SearchBackward", "RangeAsc", "RangeDesc", "Stats", "Test", "HasRecord", "Fprint"}},
	} {
		var cs []counter
		for _, g := range x.getters {
			if f, ok := P.getterField(x.pkg, x.inner, g); ok {
				cs = append(cs, counter{g, f})
			}
		}
		for _, op := range x.ops {
			for _, o := range []struct{ pkg, typ string }{{modRoot, x.dict}, {x.pkg, x.inner}} {
				f := P.method(o.pkg, o.typ, op)
				if f == nil {
					continue
				}
				run := P.analyse(cfgAPI(P), f, nil)
				if !r.usable(run) {
					continue
				}
				h := handleOf(run, x.inner)
				if h == nil {
					continue
				}
				eachOutcome(r, run, "kept", func(j *judge, o *Outcome) {
					for _, c := range cs {
						if v, w := h.final(o.st, c.f), h.init(o.st, c.f); v != w && o.st.decide(eqTerm(v, w)) != 1 {
							j.bad("%s is changed to %s", c.what, v)
						}
					}
				})
			}
		}
	}
	r.need("kept", 6)
}

// checkGetter: it returns a field as it is.
func (P *Program) checkGetter(r *Report, pkg, typ, getter string) {
	f := P.method(pkg, typ, getter)
	if f == nil {
		r.open("getter", typ+"."+getter, 0, "not found", "")
		return
	}
	if _, ok := P.getterField(pkg, typ, getter); ok {
		r.ok("getter", typ+"."+getter)
		return
	}
	run := P.analyse(cfgAPI(P), f, nil)
	if !r.usable(run) {
		return
	}
	eachOutcome(r, run, "getter", func(j *judge, o *Outcome) {
		v := o.ret[0]
		l := linOf(v)
		var fields []*Term
		other := false
		for a, c := range l.m {
			if a.op == OLoad && len(a.sels) > 0 && c > 0 {
				fields = append(fields, a)
			} else {
				other = true
			}
		}
		if !other {
			j.bad("returns %s", v)
		} else {
			j.open("returns %s", v)
		}
	})
}

// slotCounts: the numbers of slots and directories.
func ruleSlotCounts(P *Program, r *Report) {
	lim, bits := P.ruleSelect(newReport(P, r.Prop))
	if bits == nil {
		return
	}
	P.ruleSteps(r, lim, bits, "count")
}

func statFields(P *Program) map[string]bool {
	m := map[string]bool{}
	for _, x := range []struct{ pkg, typ, getter string }{
		{pkgBPTree, "BPTree", "Height"}, {pkgBPTree, "BPTree", "NumberOfLeafs"}, {pkgBPTree, "BPTree", "NumberOfNonLeafs"}, {pkgBPTree, "BPTree", "NumberOfRecords"}, {pkgBPTree, "BPTree", "PayloadSize"},
		{pkgHash, "HashMap", "NumberOfSlotDirs"}, {pkgHash, "HashMap", "NumberOfSlots"}, {pkgHash, "HashMap", "NumberOfItems"}, {pkgHash, "HashMap", "PayloadSize"},
	} {
		if f, ok := P.getterField(x.pkg, x.typ, x.getter); ok {
			for n := range P.fieldNames(x.pkg, x.typ, f) {
				m[n] = true
			}
		}
	}
	return m
}

var _ *ssa.Function

func init() {
	register("C09", "Value-flow analysis: on every path of every operation the change of each counter is compared with the change of what is stored.",
		compose(ruleTreeCounters, ruleHashCounters, ruleStats, ruleOtherOps, ruleSlotCounts,
			ruleUnits(unitSel{tally: true}),
			func(P *Program, r *Report) {
				names := statFields(P)
				someFindings(ruleRoundTrip, "kept", func(v Violation) bool { return aboutFields(v, names) })(P, r)
				someFindings(ruleFirstOpen, "start", func(v Violation) bool {
					return strings.Contains(v.Msg, " starts as ")
				})(P, r)
			}))
}
