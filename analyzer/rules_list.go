package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ruleListMethods: the functions of the chain of leaves on their own. A
// method of the chain which is given the address of one leaf takes it out of a
// chain of at least two, one which is given two puts the one next to the other.
func ruleListMethods(P *Program, r *Report) {
	tail, head, ok := P.listFields()
	o := P.Pkgs[pkgBPTree].Pkg.Scope().Lookup("BPTree")
	if !ok || o == nil {
		return
	}
	s := o.Type().Underlying().(*types.Struct)
	named, _ := s.Field(tail.sels[0].Field).Type().(*types.Named)
	if named == nil || len(tail.sels) != 2 || tail.sels[0] != head.sels[0] {
		return
	}
	for _, f := range P.Funcs {
		if f.Signature.Recv() == nil || derefT(f.Signature.Recv().Type()) != types.Type(named) {
			continue
		}
		var addrs []int
		store := false
		for i, p := range f.Params[1:] {
			if isInt64(p.Type()) {
				addrs = append(addrs, i+1)
			} else if derefT(p.Type()) != p.Type() {
				store = true
			}
		}
		if !store || len(addrs) == 0 || len(addrs) > 2 || P.effects[f] == nil {
			continue
		}
		outside := false
		for _, g := range P.Funcs {
			if g.Signature.Recv() != nil && derefT(g.Signature.Recv().Type()) == types.Type(named) {
				continue
			}
			for _, h := range P.callees(g) {
				outside = outside || h == f
			}
		}
		if !outside {
			continue // a part of others
		}
		P.listMethod(r, f, tail, head, addrs)
	}
}

func (P *Program) listMethod(r *Report, f *ssa.Function, tail, head fieldSel, addrs []int) {
	type variant struct {
		name   string
		leaf   int // parameter which is the leaf put in or taken out
		next   int // the one it is put next to
		before bool
	}
	vs := []variant{{"remove", addrs[0], -1, false}}
	if len(addrs) == 2 {
		vs = []variant{{"insert-a", addrs[0], addrs[1], false}, {"insert-b", addrs[1], addrs[0], false}, {"insert-c", addrs[0], addrs[1], true}, {"insert-d", addrs[1], addrs[0], true}}
	}
	first := ""
	for _, v := range vs {
		fr := &frame{name: "list:" + v.name, depth: 1}
		fr.tailSel, fr.headSel = fieldSel{tail.sels[1:], tail.typ}, fieldSel{head.sels[1:], head.typ}
		fresh := mkApp("alloc", mkSym("new", types.Typ[types.Int64]))
		setup := func(st *State, args []*Term) {
			fr.bpt = symObj(args[0])
			fr.root = frameSyms.Q
			fr.P, fr.p = fr.root, frameSyms.p
			n := countOf(pageBase(fr.P))
			st.assume(le(tZero, fr.p))
			st.assume(lt(fr.p, n))
			fr.N = childOf(fr.P, fr.p)
			if v.next < 0 {
				st.assume(le(mkInt(2), n))
				args[v.leaf] = fr.N
			} else {
				args[v.leaf], args[v.next] = fresh, fr.N
				st.same[fresh] = fresh
			}
			fr.head, fr.tail = childOf(fr.P, tZero), childOf(fr.P, addc(n, -1))
			st.storeCell(fr.bpt, fr.tailSel.sels, fr.tail)
			st.storeCell(fr.bpt, fr.headSel.sels, fr.head)
			for _, a := range []*Term{fr.P, fr.N} {
				st.same[a] = a
			}
		}
		run := P.analyse(fr.config(P), f, setup)
		if run.data == nil {
			run.data = fr
		}
		fr = run.data.(*frame)
		if !r.usable(run) {
			return
		}
		u := &unitRun{run, fr, f}
		bad := ""
		judgeAll := func(j0 *judge, o *Outcome) {
			splitCases(j0, o.st, 0, func(q *State) {
				q.judging = true
				base := pageBase(fr.P)
				n := countOf(base)
				var want []*Term
				if v.next < 0 {
					want = []*Term{seg(base, tZero, fr.p), seg(base, addc(fr.p, 1), n)}
				} else {
					m := addc(fr.p, 1)
					if v.before {
						m = fr.p
					}
					want = []*Term{seg(base, tZero, m), el(tNil, fresh), seg(base, m, n)}
				}
				pt := &unitPoint{u: u, j: j0, st: q, changed: map[*Term]*Term{}, leafs: map[*Term]bool{}}
				pt.changed[fr.P] = mkSeq(want)
				if v.next >= 0 {
					pt.fresh = append(pt.fresh, fresh)
				}
				pt.top0, pt.top1 = fr.P, fr.P
				P.unitChain(pt)
			})
		}
		for _, o := range run.outs {
			if o.panics || o.st.dead {
				continue
			}
			t := newReport(P, r.Prop)
			j := &judge{r: t, run: run, rule: "list"}
			judgeAll(j, o)
			if len(t.Bad) > 0 {
				bad = t.Bad[0].Msg
			} else if len(t.Open) > 0 && bad == "" {
				bad = "?" + t.Open[0].Msg
			}
		}
		if bad == "" {
			r.ok("list", shortName(f)+" "+v.name)
			return
		}
		if first == "" || first[0] == '?' && bad[0] != '?' {
			first = bad
		}
	}
	if first[0] == '?' {
		r.open("list", shortName(f), f.Pos(), first[1:], "")
		return
	}
	r.bad("list", shortName(f), f.Pos(), first, "")
}
