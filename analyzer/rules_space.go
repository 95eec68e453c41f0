package main

import (
	"fmt"
	"strings"
)

// ---- space (C10) ----

// ruleTreeDestroy: destroying a tree deletes all records, then releases the root.
func ruleTreeDestroy(P *Program, r *Report) {
	F := P.btFields()
	f := P.method(pkgBPTree, "BPTree", "Destroy")
	if !F.ok || f == nil {
		r.open("destroy", "BPTree.Destroy", 0, "not found", "")
		return
	}
	run := P.analyse(cfgAPI(P), f, nil)
	if !r.usable(run) {
		return
	}
	h := handleOf(run, "BPTree")
	if h == nil {
		r.open("destroy", shortName(f), f.Pos(), "unexpected signature", "")
		return
	}
	eachOutcome(r, run, "destroy", func(j *judge, o *Outcome) {
		frees := 0
		for _, e := range o.st.log.list() {
			switch e.kind {
			case "alloc", "create":
				j.bad("allocates space while destroying")
			case "call":
				if P.effectful(e) && !balancing(P, e, h) {
					j.open("call of %s", e.name)
					return
				}
			case "loop":
				if !P.drainLoop(j, e.loop, h) {
					return
				}
			case "free":
				frees++
				ss := run.snapsAt(e, o)
				if len(ss) == 0 {
					j.open("the state before the release of %s is not known", e.args[0])
				}
				for _, s := range ss {
					root := h.final(s, F.root)
					if e.args[0] != root {
						j.bad("releases %s instead of the root (%s)", e.args[0], root)
						continue
					}
					if n := h.final(s, F.records); s.decide(le(n, tZero)) != 1 {
						j.bad("releases the root although records may remain (their number is %s)", n)
					}
				}
			}
		}
		if frees != 1 {
			j.bad("the root is released %d times", frees)
		}
	})
	r.need("destroy", 1)
}

// drainLoop: what a loop removes from the tree it releases.
func (P *Program) drainLoop(j *judge, ls *LoopSum, h *handle) bool {
	for _, it := range append(append([]*IterSum{}, ls.iters...), ls.exitsAt...) {
		var destroys []*Event
		var want []*Term
		for _, e := range allEvents(it.log) {
			switch e.kind {
			case "destroy":
				destroys = append(destroys, e)
			case "remove":
				for _, g := range e.args[2].args {
					if n := segLen(g); n != tOne && it.st != nil && iterState(ls, it).decide(eqInt(n, tOne)) != 1 {
						j.open("a loop removes %s records at once", n)
						return false
					}
					want = append(want, elKey(g), elVal(g))
				}
			case "alloc", "create", "free", "insert", "set":
				j.open("a loop with %s", e.kind)
				return false
			case "call":
				if P.effectful(e) && !balancing(P, e, h) {
					j.open("call of %s", e.name)
					return false
				}
			}
		}
		sameMulti(j, "releases", destroys, want, func(e *Event) *Term { return e.args[0] })
	}
	return true
}

// counting: the loop visits 0, 1, ..., n-1 (in either direction); index is k's value.
func counting(st *State, ls *LoopSum, idx, n *Term) (ok bool, why string) {
	if idx == nil {
		return false, "the index is not recognised"
	}
	at := func(k *Term) *Term { return subst(idx, ls.k, k) }
	step := sub(at(addc(ls.k, 1)), idx)
	first := at(tZero)
	switch step {
	case tOne:
		if sameInt(st, first, tZero) != 1 {
			return false, fmt.Sprintf("the first one is %s", first)
		}
		for _, ex := range ls.exitsAt {
			// ends when the next one is n
			q := ex.st.clone()
			for _, f := range ex.facts {
				q.assume(f)
			}
			if !holds(q, le(n, idx)) {
				return false, fmt.Sprintf("the loop may end at %s, before %s", idx, n)
			}
		}
		for _, it := range ls.iters {
			q := iterState(ls, it).clone()
			if sameInt(st, first, tZero) == 1 && holds(st, le(tZero, n)) {
				q.assume(le(idx, n)) // by induction: it was below n one step before
			}
			if !holds(q, lt(idx, n)) {
				return false, fmt.Sprintf("the loop may reach %s, which is not below %s", idx, n)
			}
		}
		return true, ""
	case mkInt(-1):
		if sameInt(st, first, addc(n, -1)) != 1 {
			return false, fmt.Sprintf("the first one is %s instead of %s", first, addc(n, -1))
		}
		for _, ex := range ls.exitsAt {
			q := ex.st.clone()
			for _, f := range ex.facts {
				q.assume(f)
			}
			if !holds(q, lt(idx, tZero)) {
				return false, fmt.Sprintf("the loop may end at %s, before the first", idx)
			}
		}
		for _, it := range ls.iters {
			q := iterState(ls, it).clone()
			if holds(st, le(tZero, n)) {
				q.assume(le(mkInt(-1), idx)) // by induction
			}
			if !holds(q, le(tZero, idx)) {
				return false, fmt.Sprintf("the loop may reach %s", idx)
			}
		}
		return true, ""
	}
	return false, fmt.Sprintf("the steps are %s", step)
}

// ruleHashDestroy: all slots, all directories, the table; each once.
func ruleHashDestroy(P *Program, r *Report) {
	tf := P.tableFields()
	f := P.method(pkgHash, "HashMap", "Destroy")
	if !tf.ok || f == nil {
		r.open("destroy", "HashMap.Destroy", 0, "not found", "")
		return
	}
	_, bits := P.ruleSelect(newReport(P, r.Prop))
	run := P.analyse(cfgAPI(P), f, nil)
	if !r.usable(run) || bits == nil {
		return
	}
	h := handleOf(run, "HashMap")
	if h == nil {
		r.open("destroy", shortName(f), f.Pos(), "unexpected signature", "")
		return
	}
	eachOutcome(r, run, "destroy", func(j *judge, o *Outcome) {
		t := tf.initial(o.st, h)
		const (
			none = iota
			slots
			dirs
			table
		)
		done := none
		step := func(x int, what string) {
			if x <= done {
				j.bad("releases %s %s", what, map[bool]string{true: "a second time", false: "after what its address is read from"}[x == done])
			}
			if x > done {
				done = x
			}
		}
		seen := map[int]bool{}
		for _, e := range o.st.log.list() {
			switch e.kind {
			case "alloc":
				j.bad("allocates space while destroying")
			case "call":
				if P.effectful(e) {
					j.open("call of %s", e.name)
					return
				}
			case "free":
				if e.args[0] != t.A {
					j.bad("releases %s", e.args[0])
					continue
				}
				step(table, "the table of directories")
				seen[table] = true
			case "loop":
				ls := e.loop
				kind := none
				var idx *Term
				for _, it := range append(append([]*IterSum{}, ls.iters...), ls.exitsAt...) {
					for _, ev := range P.ownEvents(ls, it) {
						if ev.kind == "loop" {
							for _, it2 := range ev.loop.iters {
								for _, e2 := range P.ownEvents(ev.loop, it2) {
									if lasting[e2.kind] {
										j.open("nested loops")
										return
									}
								}
							}
							continue
						}
						if ev.kind == "alloc" {
							j.bad("allocates space while destroying")
						}
						if ev.kind != "free" {
							continue
						}
						a := ev.args[0]
						k := none
						var at *Term
						if p := placeOfLoad(a); p != nil && p.table == t.A {
							k, at = slots, p.idx
							if p.bits != bits || sameInt(iterState(ls, it), p.dir, shr(p.idx, bits)) != 1 {
								j.bad("releases the slot %s of directory %s", p.idx, p.dir)
							}
						} else if a.op == OLoad && a.obj == viewObj(t.A) && len(a.sels) == 1 {
							k, at = dirs, div8(a.sels[0].Idx)
						}
						if k == none || kind != none && (k != kind || at != idx) {
							j.open("a loop releases %s", a)
							return
						}
						kind, idx = k, at
					}
				}
				switch kind {
				case none:
					continue
				case slots, dirs:
					n, what := t.S, "slot"
					if kind == dirs {
						n, what = t.D, "slot directory"
					}
					step(kind, "the "+what+" spaces")
					seen[kind] = true
					if ok, why := counting(o.st, ls, idx, n); !ok {
						j.bad("not every %s is released: %s", what, why)
					}
					for _, it := range ls.iters {
						m := 0
						var a *Term
						for _, ev := range P.ownEvents(ls, it) {
							if ev.kind == "free" {
								m++
								a = ev.args[0]
							}
						}
						q := iterState(ls, it)
						neg := false
						for _, f := range q.facts {
							if f.op != OLE0 {
								continue
							}
							f.walk(func(x *Term) bool {
								if p := placeOfLoad(x); kind == slots && p != nil && p.idx == idx && q.decide(lt(x, tZero)) == 1 {
									neg = true
								}
								return true
							})
						}
						switch {
						case m > 1:
							j.bad("releases a %s %d times", what, m)
						case m == 0 && !neg:
							j.bad("passes over a %s without releasing it", what)
						case m == 1 && kind == slots && q.decide(le(tZero, a)) != 1:
							j.bad("releases a slot whether or not it has space")
						}
					}
				}
			}
		}
		for _, x := range []struct {
			k    int
			what string
		}{{slots, "the slots"}, {dirs, "the slot directories"}, {table, "the table of directories"}} {
			if !seen[x.k] {
				j.bad("%s are never released", x.what)
			}
		}
	})
	r.need("destroy", 1)
}

// ownEvents: the events of an iteration, without those before the loop.
func (P *Program) ownEvents(ls *LoopSum, it *IterSum) []*Event {
	before := map[*Event]bool{}
	if ls.at != nil {
		for _, e := range ls.at.log.list() {
			before[e] = true
		}
	}
	var rs []*Event
	for _, e := range it.log.list() {
		if !before[e] {
			rs = append(rs, e)
		}
	}
	return rs
}

// ruleLeftOver: after destroying or storing, the structure holds on to nothing.
func ruleLeftOver(P *Program, r *Report) {
	F, tf := P.btFields(), P.tableFields()
	for _, x := range []struct{ pkg, typ string }{{pkgBPTree, "BPTree"}, {pkgHash, "HashMap"}} {
		f := P.method(x.pkg, x.typ, "Destroy")
		if f == nil {
			continue
		}
		run := P.analyse(cfgAPI(P), f, nil)
		if !r.usable(run) {
			continue
		}
		h := handleOf(run, x.typ)
		if h == nil {
			continue
		}
		var cs []counter
		if x.typ == "BPTree" && F.ok {
			cs = []counter{{"the number of records", F.records}, {"the number of leafs", F.leafs}, {"the number of non-leafs", F.nonLeafs}, {"the payload size", F.payload}}
		} else if tf.ok {
			cs = []counter{{"the number of slots", tf.slots}, {"the number of slot directories", tf.dirs}}
			for _, g := range []string{"NumberOfItems", "PayloadSize"} {
				if s, ok := P.getterField(x.pkg, x.typ, g); ok {
					cs = append(cs, counter{g, s})
				}
			}
		}
		eachOutcome(r, run, "leftover", func(j *judge, o *Outcome) {
			for _, c := range cs {
				if v := h.final(o.st, c.f); o.st.decide(eqInt(v, tZero)) != 1 {
					if v.op == OConst {
						j.bad("%s is %s after destroying", c.what, v)
					} else {
						j.open("%s is %s after destroying", c.what, v)
					}
				}
			}
		})
	}
}

func ruleSlotSpace(P *Program, r *Report) {
	lim, bits := P.ruleSelect(newReport(P, r.Prop))
	if bits == nil {
		return
	}
	P.ruleSteps(r, lim, bits, "space")
}

func contains(s string, subs ...string) bool {
	for _, x := range subs {
		if strings.Contains(s, x) {
			return true
		}
	}
	return false
}

func init() {
	register("C10", "Ownership analysis: what every path of every operation allocates ends up recorded in the structure, what it replaces or removes is released once.",
		compose(
			someFindings(ruleRecOps, "overflow", func(v Violation) bool {
				return contains(v.Msg, "creates ", "releases ", "is stored with the", "dictionary (create", "dictionary (destroy", "dictionary (alloc", "dictionary (free")
			}),
			someFindings(ruleHashOps, "slot", func(v Violation) bool {
				return contains(v.Msg, "releas", "address recorded", "allocates", "has space", "dictionary (create", "dictionary (destroy", "dictionary (alloc", "dictionary (free")
			}),
			someFindings(ruleReads, "reading", func(v Violation) bool { return contains(v.Msg, "alloc", "free", "releas") }),
			someFindings(ruleRoundTrip, "stored", func(v Violation) bool { return contains(v.Msg, "releas", "allocat") }),
			someFindings(ruleFirstOpen, "start", func(v Violation) bool { return contains(v.Msg, "releas", "allocated", "recorded") }),
			ruleSlotSpace, ruleTreeDestroy, ruleHashDestroy, ruleLeftOver, ruleOverflow,
			ruleUnits(unitSel{space: true, findings: "uaf doublefree"}),
			ruleFindings("uaf", "doublefree")))
}
