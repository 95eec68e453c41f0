package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// aliasSummary: which parameters' memory the results of a function may reach (flow- and field-insensitive).
func (P *Program) aliasSummary(f *ssa.Function) map[int]bool {
	if r, ok := P.alias[f]; ok {
		return r
	}
	if P.alias == nil {
		P.alias = map[*ssa.Function]map[int]bool{}
	}
	P.alias[f] = map[int]bool{} // recursion: start from nothing
	// union of reference flows: value -> values it may reach
	edges := map[ssa.Value]map[ssa.Value]bool{}
	link := func(a, b ssa.Value) { // memory reachable from a includes that reachable from b
		if edges[a] == nil {
			edges[a] = map[ssa.Value]bool{}
		}
		edges[a][b] = true
	}
	hasRefs := func(t types.Type) bool { return refInside(t, 0) }
	ret := ssa.Value(nil)
	var rets []ssa.Value
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if hasRefs(x.Val.Type()) {
					link(x.Addr, x.Val)
				}
			case *ssa.Return:
				for _, v := range x.Results {
					if hasRefs(v.Type()) {
						rets = append(rets, v)
					}
				}
			case *ssa.Call:
				if bi, ok := x.Call.Value.(*ssa.Builtin); ok {
					switch bi.Name() {
					case "append":
						link(x, x.Call.Args[0])
						if s, ok := x.Call.Args[1].Type().Underlying().(*types.Slice); ok && hasRefs(s.Elem()) {
							link(x, x.Call.Args[1])
						}
					case "copy":
						if s, ok := x.Call.Args[0].Type().Underlying().(*types.Slice); ok && hasRefs(s.Elem()) {
							link(x.Call.Args[0], x.Call.Args[1])
						}
					}
					continue
				}
				if g := x.Call.StaticCallee(); g != nil && g.Blocks != nil && P.effects[g] != nil {
					for i := range P.aliasSummary(g) {
						if i < len(x.Call.Args) {
							link(x, x.Call.Args[i])
						}
					}
				} else {
					for _, a := range x.Call.Args {
						if hasRefs(a.Type()) {
							link(x, a)
						}
					}
				}
			case ssa.Value:
				for _, op := range in.Operands(nil) {
					if *op != nil && hasRefs((*op).Type()) && hasRefs(x.Type()) {
						link(x, *op)
						// writes through derived addresses reach the base
						switch in.(type) {
						case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.Slice, *ssa.ChangeType, *ssa.Phi, *ssa.UnOp, *ssa.Extract:
							link(*op, x)
						}
					}
				}
			}
		}
	}
	_ = ret
	r := map[int]bool{}
	seen := map[ssa.Value]bool{}
	var walk func(v ssa.Value)
	walk = func(v ssa.Value) {
		if seen[v] {
			return
		}
		seen[v] = true
		if p, ok := v.(*ssa.Parameter); ok {
			for i, q := range f.Params {
				if q == p {
					r[i] = true
				}
			}
		}
		for w := range edges[v] {
			walk(w)
		}
	}
	for _, v := range rets {
		walk(v)
	}
	P.alias[f] = r
	return r
}

func refInside(t types.Type, d int) bool {
	if d > 5 {
		return true
	}
	if isRefType(t) {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if refInside(u.Field(i).Type(), d+1) {
				return true
			}
		}
	case *types.Array:
		return refInside(u.Elem(), d+1)
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if refInside(u.At(i).Type(), d+1) {
				return true
			}
		}
	}
	return false
}

// liveSources collects the accessors reachable from a value.
func (st *State) liveSources(v *Term) []*Term { return st.sources(v, nil) }

// sources also hands the objects met on the way to visit.
func (st *State) sources(v *Term, visit func(*Obj)) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	have := map[*Term]bool{}
	add := func(t *Term) {
		if !have[t] {
			have[t] = true
			out = append(out, t)
		}
	}
	seenC := map[*Content]bool{}
	seenO := map[*Obj]bool{}
	var rec func(t *Term, d int)
	var obj func(o *Obj, d int)
	var cont func(c *Content, d int, bytes bool)
	sym := func(t *Term) {
		for r := t; r != nil; {
			if callerBuffer(r) != "" {
				add(r)
			}
			for _, s := range st.derived[r] {
				add(s)
			}
			if visit != nil {
				for _, o := range st.derivedBufs[r] {
					visit(o)
				}
			}
			r = symParent(r)
		}
	}
	cont = func(c *Content, d int, bytes bool) {
		for ; c != nil; c = c.parent {
			if seenC[c] {
				return
			}
			seenC[c] = true
			if bytes {
				continue // bytes refer to nothing
			}
			if c.val != nil {
				rec(c.val, d+1)
			}
			if c.kind == wCopy && c.src != nil && !holdsBytes(c.src) {
				if c.src.kind == ObjSym {
					sym(c.src.of)
				}
				cont(c.srcC, d+1, false)
			}
			for _, q := range c.quant {
				cont(q, d+1, bytes)
			}
			for _, v := range c.vals {
				rec(v, d+1)
			}
			if c.k != nil && c.kind == wHavoc {
				sym(c.k)
			}
		}
	}
	obj = func(o *Obj, d int) {
		if seenO[o] || d > 8 {
			return
		}
		seenO[o] = true
		if visit != nil {
			visit(o)
		}
		if o.kind == ObjSym {
			sym(o.of)
		}
		cont(st.cont(o), d, holdsBytes(o))
	}
	rec = func(t *Term, d int) {
		if t == nil || seen[t] || d > 8 {
			return
		}
		seen[t] = true
		switch t.op {
		case OSlice:
			if t.obj.kind == ObjView {
				add(t)
			} else {
				obj(t.obj, d+1)
			}
		case OPtr:
			if t.obj.kind == ObjView {
				add(t)
			} else {
				obj(t.obj, d+1)
			}
		case OStruct, OTuple, OIface, OClosure:
			for _, y := range t.args {
				rec(y, d+1)
			}
		case OSym, OLoad, OField, OApp:
			sym(t)
			obj(symObj(t), d+1)
		}
	}
	rec(v, 0)
	return out
}

// holdsBytes: the memory of the object holds plain values which refer to nothing.
func holdsBytes(o *Obj) bool {
	t := o.typ
	if t == nil && o.of != nil {
		t = o.of.typ
	}
	if t == nil {
		return o.kind == ObjView || o.kind == ObjExt
	}
	switch u := derefT(t).Underlying().(type) {
	case *types.Slice:
		return !refInside(u.Elem(), 0)
	case *types.Array:
		return !refInside(u.Elem(), 0)
	}
	return false
}

// symParent is the symbol the memory of which a symbol was loaded from.
func symParent(t *Term) *Term {
	switch t.op {
	case OLoad:
		if t.obj != nil && t.obj.kind == ObjSym {
			return t.obj.of
		}
	case OField:
		return t.args[0]
	}
	return nil
}

// noSpace: a function with loops which neither allocates nor releases space nor changes the
// state of a handle; what its results hold matters, not how it computed them.
func (P *Program) noSpaceLoop(f *ssa.Function) bool {
	e := P.effects[f]
	if e == nil || e.Invalidates() || e.SetPrimary || len(e.GlobalW) > 0 {
		return false
	}
	for k := range e.FieldW {
		if stateField(k) {
			return false
		}
	}
	if !P.noSpaceAccess(f) {
		return false
	}
	if onlyScalars(f) {
		return false // a search or a count: how it is done matters
	}
	loop := false
	for g := range P.reach(f) {
		loop = loop || hasLoop(g) && g.Pkg.Pkg.Path() != pkgProto
	}
	return loop
}

func stateField(k string) bool {
	for _, p := range []string{"BPTree.", "HashMap.", "Dict.", "OrderedDict."} {
		if len(k) > len(p) && k[:len(p)] == p {
			return true
		}
	}
	return false
}

// onlyScalars: what the function returns are numbers and flags.
func onlyScalars(f *ssa.Function) bool {
	rs := f.Signature.Results()
	for i := 0; i < rs.Len(); i++ {
		if b, ok := rs.At(i).Type().Underlying().(*types.Basic); !ok || b.Info()&(types.IsInteger|types.IsBoolean) == 0 {
			return false
		}
	}
	return rs.Len() > 0
}
