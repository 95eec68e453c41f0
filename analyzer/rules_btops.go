package main

import (
	"golang.org/x/tools/go/ssa"
)

// The operations of the ordered dictionary on single records.

type recOp struct {
	pkg, typ, name, kind string
	retFound             bool // has a boolean result
}

var recOps = []recOp{
	{pkgBPTree, "BPTree", "AddRecord", "add", true},
	{pkgBPTree, "BPTree", "UpdateRecord", "update", true},
	{pkgBPTree, "BPTree", "AddOrUpdateRecord", "upsert", true},
	{pkgBPTree, "BPTree", "DeleteRecord", "delete", true},
	{pkgBPTree, "BPTree", "HasRecord", "has", true},
	{modRoot, "OrderedDict", "SetIfNotExists", "add", true},
	{modRoot, "OrderedDict", "SetIfExists", "update", true},
	{modRoot, "OrderedDict", "Set", "upsert", false},
	{modRoot, "OrderedDict", "Clear", "delete", true},
	{modRoot, "OrderedDict", "Test", "has", true},
}

// expectation for one operation and presence: the edit and the boolean result.
func expected(kind string, present bool) (edit string, found bool, value bool) {
	switch kind {
	case "has":
		return "", present, present
	case "add":
		if present {
			return "", false, true
		}
		return "insert", true, false
	case "update":
		if present {
			return "set", true, true
		}
		return "", false, false
	case "upsert":
		if present {
			return "set", false, true
		}
		return "insert", true, false
	case "delete":
		if present {
			return "remove", true, true
		}
		return "", false, false
	}
	return "", false, false
}

type btFields struct {
	root, height, leafs, nonLeafs, records, payload fieldSel
	ok                                              bool
}

func (P *Program) btFields() btFields {
	var f btFields
	var ok [6]bool
	f.root, ok[0] = P.rootField()
	f.height, ok[1] = P.getterField(pkgBPTree, "BPTree", "Height")
	f.leafs, ok[2] = P.getterField(pkgBPTree, "BPTree", "NumberOfLeafs")
	f.nonLeafs, ok[3] = P.getterField(pkgBPTree, "BPTree", "NumberOfNonLeafs")
	f.records, ok[4] = P.getterField(pkgBPTree, "BPTree", "NumberOfRecords")
	f.payload, ok[5] = P.getterField(pkgBPTree, "BPTree", "PayloadSize")
	f.ok = ok == [6]bool{true, true, true, true, true, true}
	return f
}

// rootField: the address field of BPTree directly in the structure (by name, else the only int64 there).
func (P *Program) rootField() (fieldSel, bool) {
	if f, ok := P.namedField(pkgBPTree, "BPTree", "rootAddr"); ok {
		return f, true
	}
	return P.onlyInt64(pkgBPTree, "BPTree")
}

// lookup: where the operation found the key or found its place.
type lookup struct {
	found bool
	empty bool
	page  *Term // address of the leaf
	idx   *Term
	fact  *Term
}

// lookupOf reads off the facts of an outcome what the search for the key gave.
func lookupOf(st *State, h *handle, F btFields, kt *Term) *lookup {
	var l *lookup
	for _, f := range st.facts {
		t, pos := f, true
		if f.op == ONot {
			t, pos = f.args[0], false
		}
		if t.op != OApp || t.s != "located" || t.args[1] != kt {
			continue
		}
		pg := pageOfSeq(t.args[0])
		if pg == nil {
			continue
		}
		l = &lookup{found: pos, page: pg, idx: mkApp("locate", t.args[0], kt), fact: t}
	}
	if l == nil && st.decide(le(h.init(st, F.records), tZero)) == 1 {
		l = &lookup{empty: true, page: h.init(st, F.root), idx: tZero}
	}
	return l
}

// pageOfSeq: the address of the page whose initial contents the sequence is.
func pageOfSeq(q *Term) *Term {
	if q.op == OApp && q.s == "seq" && len(q.args) == 1 && isSeg(q.args[0]) {
		b := q.args[0].args[0]
		if b.op == OApp && b.s == "page" && len(b.args) == 1 && q == initialSeq(b.args[0]) {
			return b.args[0]
		}
	}
	return nil
}

// balancing: a summarised call which may rearrange pages but cannot take part in the edit itself.
func balancing(P *Program, e *Event, h *handle) bool {
	f := siteCallee(e)
	if f == nil {
		return false
	}
	for g := range P.reach(f) {
		switch {
		case g == P.method(pkgBPTree, "keyFactory", "CreateKey"), g == P.method(pkgBPTree, "valueFactory", "CreateValue"),
			g == P.method(pkgBPTree, "keyFactory", "DestroyKey"), g == P.method(pkgBPTree, "valueFactory", "DestroyValue"):
			return false
		}
	}
	for _, a := range e.args {
		if a.op == OSlice || a.op == OStruct {
			return false
		}
	}
	return true
}

// recEdit is the net change of one leaf.
type recEdit struct {
	kind string // insert, remove, set
	page *Term
	idx  *Term
	k, v *Term
	old  *Term // removed elements
}

// netEdits folds the page events up to the first balancing call.
func netEdits(P *Program, o *Outcome, h *handle) (edits []recEdit, creates, destroys []*Event, calls []*Event, unknown string) {
	for _, e := range o.st.log.list() {
		switch e.kind {
		case "create":
			creates = append(creates, e)
		case "destroy":
			destroys = append(destroys, e)
		case "insert":
			if len(e.args[2].args) != 1 || !isEl(e.args[2].args[0]) {
				unknown = "insertion of " + e.args[2].String()
				return
			}
			x := e.args[2].args[0]
			ed := recEdit{kind: "insert", page: e.args[0], idx: e.args[1], k: x.args[0], v: x.args[1]}
			if n := len(edits); n > 0 && edits[n-1].kind == "remove" && edits[n-1].page == ed.page && edits[n-1].idx == ed.idx && len(calls) == 0 {
				q := edits[n-1].old
				if len(q.args) == 1 && sub(segLen(q.args[0]), tOne) == tZero && elKey(q.args[0]) == ed.k {
					edits[n-1] = recEdit{kind: "set", page: ed.page, idx: ed.idx, v: ed.v}
					continue
				}
			}
			edits = append(edits, ed)
		case "remove":
			edits = append(edits, recEdit{kind: "remove", page: e.args[0], idx: e.args[1], old: e.args[2]})
		case "set":
			if e.name != "leafController" {
				unknown = "key of an inner page set"
				return
			}
			edits = append(edits, recEdit{kind: "set", page: e.args[0], idx: e.args[1], v: e.args[2]})
		case "alloc", "free", "setprimary", "fsminit", "fsmopen", "fsmclose", "globalwrite":
			unknown = e.kind
			return
		case "call":
			if !P.effectful(e) {
				continue
			}
			if !balancing(P, e, h) {
				unknown = "call of " + e.name
				return
			}
			calls = append(calls, e)
		case "loop":
			for _, it := range append(append([]*IterSum{}, e.loop.iters...), e.loop.exitsAt...) {
				for _, ev := range allEvents(it.log) {
					if ev != e && (lasting[ev.kind] || ev.kind == "call" && P.effectful(ev)) {
						unknown = "loop with " + ev.kind
						return
					}
				}
			}
		}
	}
	return
}

func (P *Program) recOpRuns(r *Report, f func(op recOp, run *Run, h *handle)) {
	for _, op := range recOps {
		fn := P.method(op.pkg, op.typ, op.name)
		if fn == nil {
			r.open("anchor", op.typ+"."+op.name, 0, "operation not found", "")
			continue
		}
		run := P.analyse(cfgAPI(P), fn, nil)
		if !r.usable(run) {
			continue
		}
		h := handleOf(run, "BPTree")
		if h == nil || len(byKind(run, "bytes")) < 1 || len(byKind(run, "bool")) != 1 {
			r.open("anchor", shortName(fn), fn.Pos(), "unexpected signature", "")
			continue
		}
		f(op, run, h)
	}
}

// ruleRecOps: conditions, edits, results.
func ruleRecOps(P *Program, r *Report) {
	F := P.btFields()
	if !F.ok {
		r.open("anchor", "BPTree", 0, "the fields behind the statistics cannot be resolved", "")
		return
	}
	P.recOpRuns(r, func(op recOp, run *Run, h *handle) {
		bs := byKind(run, "bytes")
		eachOutcome(r, run, "recop", func(j *judge, o *Outcome) {
			st := o.st
			kt := keyTerm(st, argOf(run, bs[0]))
			l := lookupOf(st, h, F, kt)
			if l == nil {
				j.open("no lookup of the key decides this outcome")
				return
			}
			edits, creates, destroys, _, unknown := netEdits(P, o, h)
			if unknown != "" {
				j.open("%s", unknown)
				return
			}
			edit, found, value := expected(op.kind, l.found)
			what := map[bool]string{true: "the key exists", false: "the key does not exist"}[l.found]
			// the edit
			if edit == "" {
				ch, uns := P.changes(o, nil)
				if len(ch) > 0 {
					j.bad("changes the dictionary (%s) although %s", ch[0], what)
				} else if len(uns) > 0 {
					j.open("%s", uns[0])
				}
			} else if len(edits) == 0 {
				j.bad("%s, but no record is written (expected: %s)", what, edit)
			} else if len(edits) > 1 {
				j.open("more than one edit of a leaf")
			} else {
				e := edits[0]
				if e.kind != edit {
					j.bad("%s, but the record is changed by %s instead of %s", what, e.kind, edit)
				} else {
					if e.page != l.page {
						j.bad("the record is written to another page than the one searched")
					}
					if d := sameInt(st, e.idx, l.idx); d != 1 {
						if d == -1 || e.page == l.page {
							j.bad("the record is written at index %s instead of %s", e.idx, l.idx)
						}
					}
					wantV := (*Term)(nil)
					if edit != "remove" && len(bs) >= 2 {
						wantV = mkApp("mkval", contentTerm(st, argOf(run, bs[1])))
					}
					wantK := mkApp("mkkey", kt)
					if edit == "insert" && e.k != wantK {
						j.bad("the record is stored with the key %s instead of the encoded key given", e.k)
					}
					if edit != "remove" && e.v != wantV {
						j.bad("the record is stored with the value %s instead of the encoded value given", e.v)
					}
					if edit == "remove" {
						if n := segsLen(e.old); n != tOne && st.decide(eqInt(n, tOne)) != 1 {
							j.bad("removes %s records instead of one", n)
						}
					}
					// overflows: each created once, each replaced one released once
					var wc, wd []*Term
					oldK, oldV := keyOf(pageBase(l.page), l.idx), valOf(pageBase(l.page), l.idx)
					switch edit {
					case "insert":
						wc = []*Term{wantK, wantV}
					case "set":
						wc, wd = []*Term{wantV}, []*Term{oldV}
					case "remove":
						wd = []*Term{oldK, oldV}
					}
					sameMulti(j, "creates", creates, wc, func(e *Event) *Term { return e.res })
					sameMulti(j, "releases", destroys, wd, func(e *Event) *Term { return e.args[0] })
				}
			}
			// the results
			if op.retFound && len(o.ret) == 2 {
				switch st.decide(o.ret[1]) {
				case 0:
					j.bad("%s, but the boolean result is %s", what, o.ret[1])
				case 1:
					if !found {
						j.bad("returns true although %s", what)
					}
				case -1:
					if found {
						j.bad("returns false although %s", what)
					}
				}
			}
			checkOptional(j, st, o.ret[0], argOf(run, byKind(run, "bool")[0]), value, func() *Term { return rawOf(valOf(pageBase(l.page), l.idx)) }, what)
		})
	})
	r.need("recop", 40)
}

func segsLen(q *Term) *Term {
	n := tZero
	for _, g := range q.args {
		n = add(n, segLen(g))
	}
	return n
}

// sameMulti compares the operands of events with the expected multiset.
func sameMulti(j *judge, verb string, evs []*Event, want []*Term, f func(*Event) *Term) {
	left := append([]*Term{}, want...)
outer:
	for _, e := range evs {
		t := f(e)
		for i, w := range left {
			if w == t {
				left = append(left[:i:i], left[i+1:]...)
				continue outer
			}
		}
		j.bad("%s %s, which is not part of the operation (or a second time)", verb, t)
	}
	for _, w := range left {
		j.bad("never %s %s", verb, w)
	}
}

// checkOptional: the optional value is the one stored, if asked for.
func checkOptional(j *judge, st *State, ret, flag *Term, value bool, want func() *Term, what string) {
	d := st.decide(flag)
	isNil := ret == tNil
	var c *Term
	if !isNil {
		c = contentTerm(st, ret)
	}
	if !value {
		if !isNil && c != emptyBytes {
			j.bad("returns a value although %s", what)
		}
		return
	}
	switch {
	case d >= 0 && isNil && (d == 1 || true):
		j.bad("%s and its value is asked for, but nil is returned", what)
	case d == 1:
		if c != want() {
			if c.contains(want()) || strOpaque(c) {
				j.open("the value returned is %s", c)
			} else {
				j.bad("returns %s instead of the value stored", c)
			}
		}
	case d == 0:
		j.bad("returns a value whether or not it is asked for")
	case d == -1 && !isNil && c != emptyBytes:
		j.bad("returns a value which was not asked for")
	}
}

// strOpaque: the term contains results which are not known.
func strOpaque(t *Term) bool {
	op := false
	t.walk(func(x *Term) bool {
		if x.op == OApp && len(x.s) > 4 && (x.s[:4] == "res:" || x.s[:4] == "afte") {
			op = true
		}
		return !op
	})
	return op
}

// searched: whether the key is known to be found in the page, which may be known by another name.
func searched(st *State, page, kt *Term) (*Term, int) {
	names := []*Term{page}
	for _, f := range st.facts {
		if f.op != OEQ0 || !f.args[0].contains(page) {
			continue
		}
		for _, a := range sortedAtoms(linOf(f.args[0])) {
			if a != page && eqInt(a, page) == f {
				names = append(names, a)
			}
		}
	}
	for _, n := range names {
		if d := st.decide(mkApp("located", initialSeq(n), kt)); d != 0 {
			return n, d
		}
	}
	return page, 0
}

// checkDescent: the page searched last is reached from the root by following the child which the key belongs to.
func (P *Program) checkDescent(j *judge, o *Outcome, h *handle, F btFields, l *lookup, kt *Term) {
	if l.empty {
		return
	}
	st := o.st
	root, height := h.init(st, F.root), h.init(st, F.height)
	var lp *LoopSum
	var page *Term
	name := ""
	looked := func(ls *LoopSum, p *Term) bool { // is it this key which is searched in the pages?
		for _, it := range ls.iters {
			if it.st != nil && !it.st.dead {
				if _, d := searched(it.st, p, kt); d != 0 {
					return true
				}
			}
		}
		return false
	}
	for _, e := range st.log.list() {
		if e.loop == nil {
			continue
		}
		for _, n := range sortedKeys(e.loop.start) {
			p := e.loop.start[n]
			if p != l.page && st.decide(eqInt(p, l.page)) != 1 {
				continue
			}
			if lp == nil || !looked(lp, page) {
				lp, name, page = e.loop, n, p
			}
		}
	}
	if lp != nil && page != l.page {
		m := *l
		m.page = page
		l = &m
	}
	if lp == nil {
		j.open("no descent from the root to the page %s searched is recognised", l.page)
		return
	}
	if lp.entry[name] != root {
		j.bad("the descent starts at %s instead of the root", lp.entry[name])
		return
	}
	for _, it := range lp.iters {
		if it.st == nil || it.st.dead {
			continue
		}
		nx := it.next[name]
		page, d := searched(it.st, l.page, kt)
		loc := mkApp("locate", initialSeq(page), kt)
		want := loc
		if d == -1 {
			want = addc(loc, -1)
		}
		switch {
		case d != 0 && nx == valOf(pageBase(page), want):
		case nx.op == OApp && nx.s == "val" && nx.args[0] == pageBase(page):
			if d != 0 && sameInt(it.st, nx.args[1], want) == 1 {
				break
			}
			found := map[int]string{1: "the key is the separator of a child", -1: "the key lies between separators", 0: "the key is a separator or not"}[d]
			j.bad("descends to the child %s when %s", nx.args[1], found)
		default:
			j.open("descends to %s", nx)
		}
		for _, n := range sortedKeys(it.next) {
			P.checkPathStep(j, it, lp.start[n], it.next[n], page, nx)
		}
	}
	// the depth
	seen := false
	for _, f := range st.facts {
		t := f.args
		if f.op != OEQ0 || !t[0].contains(height) {
			continue
		}
		t0, moves := t[0], false
		tn := make([]*Term, len(lp.iters))
		for i := range tn {
			tn[i] = t[0]
		}
		for _, n := range sortedKeys(lp.start) {
			if !t0.contains(lp.start[n]) {
				continue
			}
			moves = true
			t0 = subst(t0, lp.start[n], lp.entry[n])
			for i, it := range lp.iters {
				tn[i] = subst(tn[i], lp.start[n], it.next[n])
			}
		}
		if !moves {
			continue
		}
		seen = true
		d := addc(height, -1)
		sign := int64(1)
		if sub(tZero, t0) == d {
			sign = -1
		} else if t0 != d {
			j.bad("takes the page at the wrong depth for a leaf (at the root when %s is 0)", t0)
			break
		}
		for i := range lp.iters {
			if lp.iters[i].st != nil && !lp.iters[i].st.dead && sub(tn[i], t[0]) != mkInt(-sign) {
				j.bad("the depth changes by %s from a page to its child", sub(t[0], tn[i]))
			}
		}
		break
	}
	if !seen {
		j.open("the depth of the leaf is not recognised")
	}
}

// pathParts splits an element of a record path by type: page address and index.
func pathParts(t *Term) (addr, idx *Term) {
	if t == nil || t.op != OStruct || len(t.args) != 2 {
		return nil, nil
	}
	return t.args[0], t.args[1]
}

// checkPathStep: what one step of the descent adds to the record path designates the child it descends to.
func (P *Program) checkPathStep(j *judge, it *IterSum, start, next *Term, page, child *Term) {
	if next == nil || next.op != OSlice || start == nil || start == next {
		return
	}
	o, off, ln, _ := sliceParts(next)
	if o == nil || sub(ln, lenOf(start)) != tOne {
		return
	}
	el := lastElem(it.st, o, add(off, addc(ln, -1)))
	a, i := pathParts(el)
	if a == nil {
		return
	}
	if a != page && it.st.decide(eqInt(a, page)) != 1 || child.op == OApp && child.s == "val" && child.args[0] == pageBase(page) && sameInt(it.st, child.args[1], i) != 1 {
		j.bad("the record path gets the entry (%s, %s) on the way through the page %s to %s", a, i, page, child)
	}
}

// lastElem: the structure stored at the index by the latest write which is sure to hit it.
func lastElem(st *State, o *Obj, idx *Term) *Term {
	for c := st.cont(o); c != nil; c = c.parent {
		switch c.kind {
		case wCell:
			if len(c.sels) == 1 && c.sels[0].Field < 0 && c.sels[0].Idx == idx {
				return c.val
			}
			if len(c.sels) >= 1 && c.sels[0].Field < 0 && st.decide(eqInt(c.sels[0].Idx, idx)) != -1 {
				return nil
			}
		case wCopy:
			if st.decide(le(add(c.off, c.ln), idx)) != 1 {
				return nil
			}
		default:
			return nil
		}
	}
	return nil
}

// ruleDescent: every lookup on behalf of an operation descends properly.
func ruleDescent(P *Program, r *Report) {
	F := P.btFields()
	if !F.ok {
		r.open("anchor", "BPTree", 0, "the fields behind the statistics cannot be resolved", "")
		return
	}
	P.recOpRuns(r, func(op recOp, run *Run, h *handle) {
		bs := byKind(run, "bytes")
		eachOutcome(r, run, "descent", func(j *judge, o *Outcome) {
			kt := keyTerm(o.st, argOf(run, bs[0]))
			l := lookupOf(o.st, h, F, kt)
			if l == nil {
				j.open("no lookup of the key decides this outcome")
				return
			}
			P.checkDescent(j, o, h, F, l, kt)
			// the record path handed to the rebalancing designates the record
			for _, e := range o.st.log.list() {
				if e.kind != "call" || !P.effectful(e) {
					continue
				}
				ss := run.snapsAt(e, o)
				if len(ss) == 0 {
					continue
				}
				for _, s := range ss {
					for _, a := range e.args {
						if a.op != OPtr || a.obj.kind != ObjLocal {
							continue
						}
						c := s.cont(a.obj)
						if c == nil || c.kind != wCell || c.val == nil || c.val.op != OSlice {
							continue
						}
						ob, off, ln, _ := sliceParts(c.val)
						if ob == nil {
							continue
						}
						pa, pi := pathParts(lastElem(s, ob, add(off, addc(ln, -1))))
						if pa == nil {
							continue
						}
						if pa != l.page || sameInt(s, pi, l.idx) != 1 {
							j.bad("the record path handed to %s ends with (%s, %s) instead of the place of the record (%s, %s)", e.name, pa, pi, l.page, l.idx)
						}
					}
				}
				break
			}
		})
	})
	r.need("descent", 40)
}

var _ = (*ssa.Function)(nil)

func init() {
	register("C06", "Outcome analysis of the record operations: on every path the result of the key's lookup decides which single edit of the leaf takes place, where, with which encoded key and value, which overflows are created and released, and what is returned.",
		compose(ruleRecOps, ruleDescent))
}
