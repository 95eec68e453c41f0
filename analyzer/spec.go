package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Helpers shared by the rules about the outcomes of operations.

func compose(rs ...func(P *Program, r *Report)) func(P *Program, r *Report) {
	return func(P *Program, r *Report) {
		for _, f := range rs {
			f(P, r)
		}
	}
}

func byKind(run *Run, kind string) []*ssa.Parameter {
	var ps []*ssa.Parameter
	for i, p := range run.fn.Params {
		if i == 0 && run.fn.Signature.Recv() != nil {
			continue
		}
		t := p.Type()
		switch kind {
		case "bytes":
			if isByteSlice(t) {
				ps = append(ps, p)
			}
		case "bool":
			if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.Bool {
				ps = append(ps, p)
			}
		}
	}
	return ps
}

func argOf(run *Run, p *ssa.Parameter) *Term {
	for i, q := range run.fn.Params {
		if q == p {
			return run.args[i]
		}
	}
	return nil
}

// handle: a structure (BPTree, HashMap) as a place of the analysed state.
type handle struct {
	obj    *Obj
	prefix []Sel
	typ    *types.Named
}

// findField gives the selectors of the (embedded) field with the named type.
func findField(t types.Type, want string, d int) ([]Sel, *types.Named) {
	if n, ok := t.(*types.Named); ok && n.Obj().Name() == want {
		return nil, n
	}
	s, ok := t.Underlying().(*types.Struct)
	if !ok || d > 2 {
		return nil, nil
	}
	for i := 0; i < s.NumFields(); i++ {
		if p, n := findField(s.Field(i).Type(), want, d+1); n != nil {
			return append([]Sel{{Field: i}}, p...), n
		}
	}
	return nil, nil
}

func handleOf(run *Run, want string) *handle {
	if run.fn.Signature.Recv() == nil || len(run.args) == 0 || run.args[0].op != OSym {
		return nil
	}
	p, n := findField(derefT(run.fn.Signature.Recv().Type()), want, 0)
	if n == nil {
		return nil
	}
	return &handle{obj: symObj(run.args[0]), prefix: p, typ: n}
}

func (h *handle) at(sels []Sel) []Sel {
	return append(h.prefix[:len(h.prefix):len(h.prefix)], sels...)
}

var tInt = types.Typ[types.Int]

func (h *handle) init(st *State, f fieldSel) *Term  { return st.initialCell(h.obj, h.at(f.sels), f.typ) }
func (h *handle) final(st *State, f fieldSel) *Term { return st.loadCell(h.obj, h.at(f.sels), f.typ) }

type fieldSel struct {
	sels []Sel
	typ  types.Type
}

// getterField resolves the field behind an exported getter.
func (P *Program) getterField(pkg, typ, getter string) (fieldSel, bool) {
	f := P.method(pkg, typ, getter)
	if f == nil {
		return fieldSel{}, false
	}
	run := P.analyse(cfgAPI(P), f, nil)
	if run.err != "" || len(run.outs) != 1 || len(run.outs[0].ret) != 1 {
		return fieldSel{}, false
	}
	t := run.outs[0].ret[0]
	if t.op != OLoad || len(t.sels) == 0 {
		return fieldSel{}, false
	}
	return fieldSel{t.sels, t.typ}, true
}

// namedField resolves a field by its name.
func (P *Program) namedField(pkg, typ, name string) (fieldSel, bool) {
	p := P.Pkgs[pkg]
	if p == nil {
		return fieldSel{}, false
	}
	o := p.Pkg.Scope().Lookup(typ)
	if o == nil {
		return fieldSel{}, false
	}
	s, ok := o.Type().Underlying().(*types.Struct)
	if !ok {
		return fieldSel{}, false
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return fieldSel{[]Sel{{Field: i}}, s.Field(i).Type()}, true
		}
	}
	return fieldSel{}, false
}

func siteCallee(e *Event) *ssa.Function {
	if c, ok := e.pos.(ssa.CallInstruction); ok {
		return c.Common().StaticCallee()
	}
	return nil
}

// effectful: the summarised call may change something that lasts.
func (P *Program) effectful(e *Event) bool {
	f := siteCallee(e)
	if f == nil {
		return true
	}
	x := P.effects[f]
	return x == nil || x.Invalidates() || x.ViewW || len(x.ParamW) > 0 || len(x.FieldW) > 0 || len(x.GlobalW) > 0 || x.SetPrimary
}

var lasting = map[string]bool{"alloc": true, "free": true, "create": true, "destroy": true, "insert": true, "remove": true, "set": true,
	"setprimary": true, "fsminit": true, "fsmopen": true, "fsmclose": true, "globalwrite": true}

// allEvents lists the events of a log, those inside loops included.
func allEvents(log *Event) []*Event {
	var r []*Event
	seen := map[*LoopSum]bool{}
	had := map[*Event]bool{}
	var rec func(l *Event)
	rec = func(l *Event) {
		for _, e := range l.list() {
			// the log of an iteration starts with what came before the loop
			if had[e] {
				continue
			}
			had[e] = true
			r = append(r, e)
			if e.loop != nil && !seen[e.loop] {
				seen[e.loop] = true
				for _, it := range append(append([]*IterSum{}, e.loop.iters...), e.loop.exitsAt...) {
					rec(it.log)
				}
			}
		}
	}
	rec(log)
	return r
}

// lastingObj: an object which outlives the call.
func lastingObj(ob *Obj) bool {
	switch ob.kind {
	case ObjGlobal, ObjView:
		return true
	case ObjSym:
		return symRoot(ob.of).op != OApp
	}
	return false
}

// changes lists what an outcome changes for good. unsure is set when a part of it is not known precisely.
func (P *Program) changes(o *Outcome, allow func(*Obj) bool) (list []string, unsure []string) {
	for _, e := range allEvents(o.st.log) {
		switch {
		case lasting[e.kind]:
			list = append(list, e.kind+" "+e.name)
		case e.kind == "call" && P.effectful(e):
			unsure = append(unsure, "call of "+e.name)
		}
	}
	for _, ob := range sortedObjs(o.st.mem) {
		if !lastingObj(ob) || allow != nil && allow(ob) {
			continue
		}
		for _, w := range newWrites(o.st.mem[ob], nil) {
			if w.kind == wHavoc {
				unsure = append(unsure, "write to "+ob.String())
				continue
			}
			if w.kind == wCell && o.st.initialCell(ob, w.sels, w.val.typeOr(nil)) == w.val {
				continue
			}
			list = append(list, "write to "+ob.String())
		}
	}
	for _, ob := range sortedObjsT(o.st.seq) {
		if ob.addr != nil && o.st.seq[ob] != initialSeq(ob.addr) {
			if strings.Contains(o.st.seq[ob].String(), "after:") {
				unsure = append(unsure, "page "+ob.String())
			} else {
				list = append(list, "page "+ob.String())
			}
		}
	}
	return
}

func (t *Term) typeOr(d types.Type) types.Type {
	if t.typ != nil {
		return t.typ
	}
	if d != nil {
		return d
	}
	return tInt
}

func sortedObjs(m map[*Obj]*Content) []*Obj {
	var r []*Obj
	for o := range m {
		r = append(r, o)
	}
	sortObjs(r)
	return r
}

func sortedObjsT(m map[*Obj]*Term) []*Obj {
	var r []*Obj
	for o := range m {
		r = append(r, o)
	}
	sortObjs(r)
	return r
}

func sortObjs(r []*Obj) {
	for i := 1; i < len(r); i++ {
		for j := i; j > 0 && r[j].id < r[j-1].id; j-- {
			r[j], r[j-1] = r[j-1], r[j]
		}
	}
}

// judge accumulates the verdict about one outcome.
type judge struct {
	r    *Report
	run  *Run
	rule string
	o    *Outcome
	n    int
	bads int
}

func (j *judge) bad(f string, a ...interface{}) {
	j.bads++
	j.r.bad(j.rule, shortName(j.run.fn), j.run.fn.Pos(), fmt.Sprintf(f, a...), fmt.Sprintf("%s outcome %d", j.run.name, j.n))
}

func (j *judge) open(f string, a ...interface{}) {
	j.bads++
	j.r.open(j.rule, shortName(j.run.fn), j.run.fn.Pos(), fmt.Sprintf(f, a...), fmt.Sprintf("%s outcome %d", j.run.name, j.n))
}

// eachOutcome applies a check to every feasible, non-panicking outcome.
func eachOutcome(r *Report, run *Run, rule string, f func(j *judge, o *Outcome)) {
	for n, o := range run.outs {
		if o.panics || o.st.dead {
			continue
		}
		j := &judge{r: r, run: run, rule: rule, o: o, n: n}
		f(j, o)
		if j.bads == 0 {
			r.ok(rule, fmt.Sprintf("%s outcome %d", run.name, n))
		}
	}
}

// sameInt: equal on this path.
func sameInt(st *State, a, b *Term) int {
	if a == b {
		return 1
	}
	return st.decide(eqInt(a, b))
}
