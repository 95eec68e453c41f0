package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

// callees are the module functions a function calls directly (closures included).
func (P *Program) callees(f *ssa.Function) []*ssa.Function {
	var r []*ssa.Function
	seen := map[*ssa.Function]bool{}
	var add func(g *ssa.Function)
	add = func(g *ssa.Function) {
		if g == nil || seen[g] || g.Blocks == nil {
			return
		}
		if g.Pkg != nil && !strings.HasPrefix(g.Pkg.Pkg.Path(), modRoot) {
			return
		}
		seen[g] = true
		r = append(r, g)
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				switch v := (*op).(type) {
				case *ssa.Function:
					add(v)
				case *ssa.MakeClosure:
					add(v.Fn.(*ssa.Function))
				}
			}
			if c, ok := in.(ssa.CallInstruction); ok && c.Common().IsInvoke() {
				m := c.Common().Method
				for _, g := range P.Funcs {
					if g.Signature.Recv() != nil && g.Name() == m.Name() {
						if o := g.Object(); o != nil && m.Pkg() == o.Pkg() {
							add(g)
						}
					}
				}
			}
		}
	}
	return r
}

// reach is the set of functions reachable from the given ones.
func (P *Program) reach(fs ...*ssa.Function) map[*ssa.Function]bool {
	r := map[*ssa.Function]bool{}
	var rec func(f *ssa.Function)
	rec = func(f *ssa.Function) {
		if f == nil || r[f] {
			return
		}
		r[f] = true
		for _, g := range P.callees(f) {
			rec(g)
		}
	}
	for _, f := range fs {
		rec(f)
	}
	return r
}

// cyclic: the function takes part in a recursion.
func (P *Program) cyclic(f *ssa.Function) bool {
	if v, ok := P.cyc[f]; ok {
		return v
	}
	v := false
	for _, g := range P.callees(f) {
		if P.reach(g)[f] {
			v = true
		}
	}
	if P.cyc == nil {
		P.cyc = map[*ssa.Function]bool{}
	}
	P.cyc[f] = v
	return v
}

func hasLoop(f *ssa.Function) bool {
	ls, _ := loopsOf(f)
	return len(ls) > 0
}

// pureLoop: a function with loops which changes nothing; its result is all that matters.
func (P *Program) pureLoop(f *ssa.Function) bool {
	e := P.effects[f]
	if e == nil || e.Invalidates() || e.ViewW || len(e.ParamW) > 0 || len(e.FieldW) > 0 {
		return false
	}
	loop := false
	for g := range P.reach(f) {
		loop = loop || hasLoop(g)
	}
	return loop
}
