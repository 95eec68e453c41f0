package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Rules about how full pages are: which bounds the steps of rebalancing
// establish, which of them follow a change, and how many entries they move.

// stepRole: what holds about the page a step is called for, once it is done.
type stepRole struct {
	fn          *ssa.Function
	inner       bool
	over        int64 // the page holds at most this much, 0: not established
	under       int64 // the page holds at least this much, 0: not established
	sync        bool  // the step only brings keys up to date
	composite   bool  // the step only calls others
	calls       []*ssa.Function
	overP       bool // established by the calls
	underP      bool
	unsupported string
}

// pageEvent: a change to the pages themselves.
func pageEvent(e *Event) bool {
	switch e.kind {
	case "insert", "remove", "set", "alloc", "free":
		return true
	}
	return false
}

// bounds: the tightest known bounds of a quantity.
func bounds(st *State, t *Term) (min, max int64, hasMin, hasMax bool) {
	const top = 1 << 20
	lo, hi := int64(0), int64(top)
	if st.decide(le(t, mkInt(top))) == 1 {
		for lo < hi {
			m := (lo + hi) / 2
			if st.decide(le(t, mkInt(m))) == 1 {
				hi = m
			} else {
				lo = m + 1
			}
		}
		max, hasMax = lo, true
	}
	lo, hi = 0, top
	if st.decide(le(tOne, t)) == 1 {
		for lo < hi {
			m := (lo + hi + 1) / 2
			if st.decide(le(mkInt(m), t)) == 1 {
				lo = m
			} else {
				hi = m - 1
			}
		}
		min, hasMin = lo, true
	}
	return
}

// stepCallsOf: the steps called on an outcome, in order.
func (P *Program) stepCallsOf(o *Outcome) (r []*Event) {
	for _, e := range allEvents(o.st.log) {
		if isStepCall(P, e) {
			r = append(r, e)
		}
	}
	return
}

func (P *Program) roles(us []*unitRun) map[*ssa.Function]*stepRole {
	m := map[*ssa.Function]*stepRole{}
	for _, u := range us {
		ro := m[u.fn]
		if ro == nil {
			ro = &stepRole{fn: u.fn, inner: u.fr.inner, over: -1, under: -1, composite: true}
			m[u.fn] = ro
		}
		moves, sets := false, false
		for _, o := range u.run.outs {
			if o.panics || o.st.dead {
				continue
			}
			changes := false
			for _, e := range allEvents(o.st.log) {
				if !pageEvent(e) {
					continue
				}
				changes = true
				if e.kind == "set" {
					sets = true
				} else {
					moves = true
				}
			}
			if changes {
				ro.composite = false
				continue
			}
			cs := P.stepCallsOf(o)
			if len(cs) > 0 {
				for _, e := range cs {
					ro.calls = append(ro.calls, siteCallee(e))
				}
				continue
			}
			ro.composite = false
			if u.fr.depth == 0 {
				continue
			}
			min, max, hasMin, hasMax := bounds(o.st, mkApp("load", initialSeq(u.fr.N)))
			if !hasMax {
				ro.over = 0
			} else if ro.over < 0 || ro.over > 0 && max > ro.over {
				ro.over = max
			}
			if !hasMin {
				ro.under = 0
			} else if ro.under < 0 || ro.under > 0 && min < ro.under {
				ro.under = min
			}
		}
		if sets && !u.fr.inner {
			ro.sync = true
		}
		if moves {
			ro.unsupported = "moves"
		}
	}
	for _, ro := range m {
		if ro.unsupported == "moves" {
			ro.sync, ro.unsupported = false, ""
		}
		if ro.over < 0 {
			ro.over = 0
		}
		if ro.under < 0 {
			ro.under = 0
		}
		if ro.sync {
			ro.over, ro.under, ro.composite = 0, 0, false
		}
		ro.overP, ro.underP = ro.over > 0, ro.under > 0
	}
	for n := 0; n < 4; n++ {
		for _, ro := range m {
			if !ro.composite {
				continue
			}
			for _, f := range ro.calls {
				if c := m[f]; c != nil {
					ro.overP = ro.overP || c.overP
					ro.underP = ro.underP || c.underP
				}
			}
		}
	}
	return m
}

// sortedRoles in the order of their names.
func sortedRoles(m map[*ssa.Function]*stepRole) (r []*stepRole) {
	for _, x := range m {
		r = append(r, x)
	}
	sort.Slice(r, func(i, k int) bool { return shortName(r[i].fn) < shortName(r[k].fn) })
	return
}

// pathLen: the length of the path at a state.
func (fr *frame) pathLen(st *State) *Term {
	_, _, m, _ := sliceParts(st.loadCell(fr.path, nil, fr.sliceT))
	return m
}

// calledFor: which bounds the steps called on an outcome establish about the
// page which lies dist levels from the end of the path.
func (P *Program) calledFor(j *judge, u *unitRun, o *Outcome, dist *Term, ms map[*ssa.Function]*stepRole) (over, under, open bool) {
	fr := u.fr
	for n, e := range P.stepCallsOf(o) {
		f := siteCallee(e)
		ro := ms[f]
		_, li, ok := stepParams(f)
		if ro == nil || !ok || li < 0 || ro.sync {
			j.open("the step %s called in between is not understood", shortName(f))
			return false, false, true
		}
		for _, st := range u.run.snapsAt(e, o) {
			ln := fr.pathLen(st)
			if ln == nil {
				j.open("the length of the path at the call of %s is not known", shortName(f))
				return false, false, true
			}
			want := sub(ln, dist)
			switch d := sameInt(st, e.args[li], want); {
			case d == -1:
				j.bad("%s is called for level %s, the page which changed is at %s", shortName(f), e.args[li], want)
				return false, false, true
			case d == 0 && n > 0:
				j.bad("%s is called for level %s, but the path may have become shorter meanwhile: the page is at %s", shortName(f), e.args[li], want)
				return false, false, true
			case d == 0:
				j.open("it is not known whether level %s, for which %s is called, is %s", e.args[li], shortName(f), want)
				return false, false, true
			}
		}
		over = over || ro.overP
		under = under || ro.underP
	}
	// a later call may be left out when the page is gone
	if ln := fr.pathLen(o.st); ln != nil && len(P.stepCallsOf(o)) > 0 && o.st.decide(lt(sub(ln, dist), tZero)) == 1 {
		over, under = true, true
	}
	return
}

// unitFollow: what changes in the parent is followed by the steps which bring its fill back within bounds.
func (P *Program) unitFollow(pt *unitPoint, o *Outcome, ms map[*ssa.Function]*stepRole) {
	fr, st, j := pt.u.fr, pt.st, pt.j
	ro := ms[pt.u.fn]
	if ro.composite {
		over, under, open := P.calledFor(j, pt.u, o, sub(fr.n, fr.lv), ms)
		if !open && (ro.overP && !over || ro.underP && !under) {
			j.bad("not all of the balancing takes place")
		}
		return
	}
	if len(pt.next) == 0 && len(pt.changed) == 0 {
		return
	}
	over, under, open := P.calledFor(j, pt.u, o, add(sub(fr.n, fr.lv), tOne), ms)
	if open || fr.P == nil {
		return
	}
	q := pt.changed[fr.P]
	if q == nil {
		return
	}
	delta := sub(seqLen(q), seqLen(initialSeq(fr.P)))
	rekeyed := false
	for _, g := range q.args {
		if isEl(g) {
			if pa, ia := pageOf(g.args[1]); pa == fr.P && g.args[0] != keyOf(pageBase(pa), ia) {
				rekeyed = true
			}
		}
	}
	more, less := st.decide(lt(tZero, delta)) == 1, st.decide(lt(delta, tZero)) == 1
	if !more && !less && st.decide(eqInt(delta, tZero)) != 1 {
		j.open("it is not known how many children the parent has more: %s", delta)
		return
	}
	switch {
	case more && !over:
		j.bad("the parent has got more children, and nothing sees to it that it is not too full")
	case less && !under:
		j.bad("the parent has got fewer children, and nothing sees to it that it is full enough")
	case rekeyed && !more && !over:
		j.bad("the parent has got another key, and nothing sees to it that it is not too full")
	case rekeyed && !less && !under:
		j.bad("the parent has got another key, and nothing sees to it that it is full enough")
	}
}

// unitSync: the keys above a leaf follow its first key.
func (P *Program) unitSync(j *judge, u *unitRun, o *Outcome, ms map[*ssa.Function]*stepRole) {
	fr := u.fr
	st := o.st.clone()
	st.judging = true
	pathOb, _, _, _ := sliceParts(st.loadCell(fr.path, nil, fr.sliceT))
	first := keyOf(pageBase(fr.N), tZero)
	level := func(a *Term) *Term {
		for n, x := range []*Term{fr.N, fr.P, fr.Q} {
			if x != nil && a == x {
				return addc(fr.lv, int64(-n))
			}
		}
		if a.op == OLoad && len(a.sels) == 2 && a.sels[1].Field == 0 {
			return a.sels[0].Idx
		}
		return nil
	}
	index := func(n int) *Term { return []*Term{fr.r, fr.p, fr.q}[n] }
	possible := func(c *Term) bool {
		q := st.clone()
		q.assume(c)
		return !q.dead && !unsolvable(q)
	}
	var sets []*Event
	var loops []*LoopSum
	for _, e := range allEvents(o.st.log) {
		if e.kind == "set" {
			sets = append(sets, e)
		}
	}
	for l := o.st.log; l != nil; l = l.parent {
		if l.kind == "loop" {
			loops = append(loops, l.loop)
		}
	}
	climbs := false
	var climb *LoopSum
	for _, l := range loops {
		if P.climbs(j, u, l) {
			climbs, climb = true, l
		}
	}
	if len(sets) > 1 {
		j.open("several keys are set")
		return
	}
	if len(sets) == 0 {
		if !possible(le(fr.r, tZero)) {
			return
		}
		st.assume(le(fr.r, tZero))
		if st.dead {
			return
		}
		for n := 1; n <= fr.depth; n++ {
			i := index(n)
			if climbs && st.decide(le(i, tZero)) == 0 {
				st.assume(le(i, tZero)) // all levels were passed
				continue
			}
			if possible(le(tOne, i)) {
				j.bad("the first key of the leaf may have changed, the key which leads to it (%s of page %s) is left as it was", i, []*Term{fr.N, fr.P, fr.Q}[n])
				return
			}
			st.assume(le(i, tZero))
		}
		if fr.depth == 2 && !climbs && possible(le(mkInt(4), fr.n)) {
			j.bad("the keys more than two levels above the leaf are left as they were")
		}
		if climbs {
			if early(P, u, climb) {
				j.bad("going up from the leaf stops before the root, the keys above are left as they were")
			}
		}
		return
	}
	e := sets[0]
	lv := level(e.args[0])
	if lv == nil {
		j.open("the page %s of which a key is set is not on the path", e.args[0])
		return
	}
	up := sub(fr.lv, lv)
	wantIdx := (*Term)(nil)
	if up.op == OConst && up.i >= 1 && up.i <= int64(fr.depth) {
		wantIdx = index(int(up.i))
		for n := int64(1); n < up.i; n++ {
			if !climbs && possible(le(tOne, index(int(n)))) {
				j.bad("a key is set %d levels above the leaf, but the key which leads to it may be %d above", up.i, n)
				return
			}
		}
	} else if e.args[0].op == OLoad {
		wantIdx = st.initialCell(e.args[0].obj, []Sel{e.args[0].sels[0], {Field: 1}}, tInt)
		if !climbs {
			j.open("the level %s of which a key is set is not known", lv)
			return
		}
	} else {
		j.bad("a key of page %s is set", e.args[0])
		return
	}
	_ = pathOb
	if e.args[1] != wantIdx && sameInt(st, e.args[1], wantIdx) != 1 {
		j.bad("the key of child %s is set, the path goes through child %s", e.args[1], wantIdx)
		return
	}
	st.assume(le(tZero, wantIdx)) // indices of the path
	if st.decide(eqInt(e.args[1], tZero)) != -1 && possible(lt(e.args[1], tOne)) {
		j.bad("the key of the first child may be set")
		return
	}
	if e.args[2] != first {
		j.bad("the key leading to the leaf is set to %s, not to its first key", e.args[2])
		return
	}
	over, under, open := P.calledFor(j, u, o, sub(fr.n, lv), ms)
	if !open && !(over && under) {
		j.bad("a key of an inner page is replaced, and nothing sees to it that the page is neither too full nor too empty")
	}
}

// climbs: the loop goes up the path level by level, passing only first children.
func (P *Program) climbs(j *judge, u *unitRun, l *LoopSum) bool {
	fr := u.fr
	ok := false
	for _, it := range l.iters {
		if it.st == nil || l.at == nil {
			return false
		}
		q := l.at.clone()
		q.judging = true
		for _, f := range it.facts {
			q.assume(f)
		}
		// one level above the last one passed
		want := []*Term{fr.p, fr.q}
		lv := addc(sub(fr.lv, l.k), -1)
		cell := (*Term)(nil)
		for n, x := range want {
			if n < fr.depth && q.decide(eqInt(l.k, mkInt(int64(n)))) == 1 {
				cell = x
			}
		}
		var tested []*Term
		for _, f := range it.facts {
			for _, a := range termAtoms(f) {
				if a.op == OSym && (a == fr.p || a == fr.q) {
					continue
				}
				if a.op == OLoad && len(a.sels) == 2 && a.sels[1].Field == 1 && a.sels[0].Idx != nil {
					tested = append(tested, a)
					if cell == nil && a.sels[0].Idx == lv {
						cell = a
					}
				}
			}
		}
		switch {
		case cell == nil && len(tested) > 0:
			j.bad("going up from the leaf, %s is looked at, not the index at level %s", tested[0], lv)
			return false
		case cell == nil:
			return false
		case q.decide(lt(cell, tOne)) != 1:
			j.bad("going up from the leaf, a level is passed although its index may be %s >= 1", cell)
			return false
		}
		ok = true
	}
	return ok
}

// early: the loop may be left below the root, and not at a key to set.
func early(P *Program, u *unitRun, l *LoopSum) bool {
	fr := u.fr
	for _, x := range l.exitsAt {
		if l.at == nil {
			return false
		}
		set := false
		for _, e := range P.ownEvents(l, x) {
			set = set || e.kind == "set"
		}
		if set {
			continue
		}
		q := l.at.clone()
		q.judging = true
		for _, f := range x.facts {
			q.assume(f)
		}
		for _, f := range x.facts {
			f.walk(func(a *Term) bool {
				if a == fr.p || a == fr.q || a.op == OLoad && len(a.sels) == 2 && a.sels[1].Field == 1 {
					q.assume(le(tZero, a)) // an index
					set = set || q.decide(le(tOne, a)) == 1
				}
				return true
			})
		}
		if set {
			continue
		}
		q.assume(lt(l.k, fr.lv))
		if !q.dead && !unsolvable(q) {
			return true
		}
	}
	return false
}

// termAtoms lists the subterms which are not sums or comparisons.
func termAtoms(t *Term) (r []*Term) {
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OLoad {
			r = append(r, t)
			return
		}
		for _, a := range t.args {
			rec(a)
		}
	}
	rec(t)
	return
}

// unitSel: which rules about the steps to apply.
type unitSel struct {
	conserve, separators, path, space, chain, follow, sync, counts, tally bool
	findings                                                              string // kinds of findings on the way
}

func ruleUnits(sel unitSel) func(P *Program, r *Report) {
	return func(P *Program, r *Report) {
		us := P.unitRuns(r)
		ms := P.roles(us)
		for _, ro := range sortedRoles(ms) {
			dbg("role %s inner %v over %d under %d sync %v composite %v (%v %v)", shortName(ro.fn), ro.inner, ro.over, ro.under, ro.sync, ro.composite, ro.overP, ro.underP)
		}
		var uses []*countUse
		for _, u := range us {
			if sel.findings != "" {
				ks := make([]string, 0, len(u.run.x.Findings))
				for k := range u.run.x.Findings {
					ks = append(ks, k)
				}
				sort.Strings(ks)
				for _, k := range ks {
					if f := u.run.x.Findings[k]; strings.Contains(sel.findings, f.Kind) {
						r.bad(f.Kind, f.Fn, f.Pos, f.Msg, u.run.name+" "+f.Path)
					}
				}
			}
			if ms[u.fn].sync {
				if sel.sync {
					eachOutcome(r, u.run, "sync", func(j *judge, o *Outcome) { P.unitSync(j, u, o, ms) })
				}
				continue
			}
			P.unitPoints(r, u, "step", func(pt *unitPoint) {
				if pt.rest != "" {
					pt.j.open("%s follows the continuing call", pt.rest)
				}
				if !pt.build() {
					return
				}
				if sel.conserve {
					P.unitConserve(pt)
				}
				if sel.separators {
					P.unitSeparators(pt)
				}
				if sel.path {
					P.unitPath(pt)
				}
				if sel.space || sel.tally {
					P.unitSpace(pt, sel.space, sel.tally)
				}
				if sel.chain {
					P.unitChain(pt)
				}
				if sel.follow {
					P.unitFollow(pt, pt.j.o, ms)
				}
				if sel.counts {
					uses = append(uses, pt.countUses()...)
				}
			})
		}
		if sel.counts {
			P.ruleCounts(r, uses, ms)
		}
		if sel.follow {
			P.ruleFollow(r, ms)
		}
		r.need("step", 20)
	}
}

// ruleNewChain: the chain of a new tree consists of its one leaf.
func ruleNewChain(P *Program, r *Report) {
	fn := P.method(pkgBPTree, "BPTree", "Create")
	tail, head, ok := P.listFields()
	root, ok2 := P.namedField(pkgBPTree, "BPTree", "rootAddr")
	if fn == nil || !ok || !ok2 {
		r.open("newchain", "BPTree.Create", 0, "the creation of a tree is not recognised", "")
		return
	}
	run := P.analyse(cfgAPI(P), fn, nil)
	if !r.usable(run) {
		return
	}
	h := handleOf(run, "BPTree")
	if h == nil {
		r.open("newchain", shortName(fn), fn.Pos(), "unexpected signature", "")
		return
	}
	eachOutcome(r, run, "newchain", func(j *judge, o *Outcome) {
		get := func(f fieldSel) *Term {
			return o.st.loadCell(h.obj, append(h.prefix[:len(h.prefix):len(h.prefix)], f.sels...), f.typ)
		}
		a := get(root)
		for _, x := range []struct {
			what string
			v    *Term
		}{
			{"the last leaf", get(tail)}, {"the first leaf", get(head)},
			{"the leaf before the only one", o.st.readInt(viewObj(a), o.st.cont(viewObj(a)), tZero, 8, "be")},
			{"the leaf after the only one", o.st.readInt(viewObj(a), o.st.cont(viewObj(a)), mkInt(8), 8, "be")},
		} {
			if sameInt(o.st, x.v, a) != 1 {
				j.bad("%s is recorded as %s in a new tree, its leaf is %s", x.what, x.v, a)
			}
		}
	})
	r.need("newchain", 1)
}

// ruleFollow: each change of a leaf by an operation is followed by the steps which restore the tree.
func (P *Program) ruleFollow(r *Report, ms map[*ssa.Function]*stepRole) {
	F := P.btFields()
	if !F.ok {
		r.open("follow", "BPTree", 0, "the fields behind the statistics cannot be resolved", "")
		return
	}
	P.recOpRuns(r, func(op recOp, run *Run, h *handle) {
		eachOutcome(r, run, "follow", func(j *judge, o *Outcome) {
			edits, _, _, _, unknown := netEdits(P, o, h)
			if unknown != "" {
				j.open("%s", unknown)
				return
			}
			if len(edits) == 0 {
				return
			}
			if len(edits) > 1 {
				j.open("several edits")
				return
			}
			ed := edits[0]
			after := false
			var over, under, sync, other bool
			for _, e := range o.st.log.list() {
				switch {
				case e.kind == "insert" || e.kind == "remove" || e.kind == "set":
					after = true
					over, under, sync = false, false, false
				case e.kind == "call" && after && P.effectful(e):
					ro := ms[siteCallee(e)]
					switch {
					case ro == nil:
						other = true
					case ro.sync:
						sync = true
					case !ro.inner:
						over = over || ro.overP
						under = under || ro.underP
					}
					if ro != nil && !ro.inner {
						P.checkPathArg(j, run, o, e, ed)
					}
				}
			}
			empty := ed.kind == "insert" && o.st.decide(eqInt(o.st.initialCell(h.obj, append(h.prefix[:len(h.prefix):len(h.prefix)], F.records.sels...), F.records.typ), tZero)) == 1
			front := o.st.decide(le(tOne, ed.idx)) != 1
			need := func(ok bool, what string) {
				switch {
				case ok:
				case other:
					j.open("it is not known whether %s", what)
				default:
					j.bad("a record is %s and nothing sees to it that %s", map[string]string{"insert": "inserted", "remove": "removed", "set": "given another value"}[ed.kind], what)
				}
			}
			switch ed.kind {
			case "insert":
				if !empty {
					need(over, "the leaf is not too full")
					if front {
						need(sync, "the keys above the leaf follow its first key")
					}
				}
			case "remove":
				need(under, "the leaf is full enough")
				if front {
					need(sync, "the keys above the leaf follow its first key")
				}
			case "set":
				need(over, "the leaf is not too full")
				need(under, "the leaf is full enough")
			}
		})
	})
}

// checkPathArg: the path handed to a step ends with the record which was edited.
func (P *Program) checkPathArg(j *judge, run *Run, o *Outcome, e *Event, ed recEdit) {
	f := siteCallee(e)
	pi, _, ok := stepParams(f)
	if !ok || e.args[pi].op != OPtr {
		return
	}
	pt := f.Params[pi].Type().Underlying().(*types.Pointer).Elem()
	for _, st := range run.snapsAt(e, o) {
		ob, off, n, _ := sliceParts(st.loadCell(e.args[pi].obj, e.args[pi].sels, pt))
		if ob == nil {
			continue
		}
		addr, idx := pathParts(lastElem(st, ob, addc(add(off, n), -1)))
		dbg("path arg %s: %v %v, edit %s %s", shortName(f), addr, idx, ed.page, ed.idx)
		if addr == nil || idx == nil {
			continue
		}
		if addr.op == ed.page.op && addr != ed.page && st.decide(eqInt(addr, ed.page)) == -1 {
			j.bad("%s is called for page %s, the record is on page %s", shortName(f), addr, ed.page)
		} else if addr == ed.page && sameInt(st, idx, ed.idx) == -1 {
			j.bad("%s is called for record %s of the page, the record is %s", shortName(f), idx, ed.idx)
		}
		return // later steps get what the earlier ones made of it
	}
}

func init() {
	register("C11", "Dataflow analysis of every step of rebalancing in a generic surrounding (root, child of the root, deeper): the links between the leaves below the parent and to their outer neighbours, and the recorded ends, are those of one circular chain in key order again, on every path; a new tree starts with such a chain.",
		compose(ruleUnits(unitSel{chain: true, conserve: true, findings: "uaf"}), ruleNewChain, ruleListMethods))
	register("C12", "Dataflow analysis of every step of rebalancing in a generic surrounding: the sequence of entries below the parent is conserved, separators are the first keys of their subtrees, the path follows the entry, each page is released or counted once; bounds on the fill, what establishes and what follows them, and the functions which count the entries to move are checked by induction over their loops.",
		compose(ruleUnits(unitSel{conserve: true, separators: true, path: true, space: true, tally: true, follow: true, sync: true, counts: true, findings: "range moved stale uaf doublefree"})))
	register("C22", "Dataflow analysis of every split, merge and shift in a generic surrounding: the sequences of entries of the pages and their parent before and after are compared.",
		compose(ruleUnits(unitSel{conserve: true, separators: true, findings: "range moved stale"})))
}
