package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Effect is the flow-insensitive, transitive effect summary of a function.
type Effect struct {
	Alloc, Free bool            // reaches FileStorage Allocate* / Free*
	SetPrimary  bool            // reaches SetPrimarySpace
	OpenClose   bool            // reaches FileStorage Open / Close / Init
	FieldW      map[string]bool // "Type.field" written through a non-local pointer
	ParamW      map[int]bool    // element memory of the i-th parameter may be written
	ViewW       bool            // element memory of unknown origin (page, slot...) may be written
	GlobalW     map[string]bool
	Extern      map[string]bool // external callees reached
	HasLoop     bool            // own body
	Panics      bool
}

func (e *Effect) Invalidates() bool { return e.Alloc || e.Free || e.OpenClose }

type rootKind int

const (
	rLocal rootKind = iota
	rParam
	rUnknown
	rGlobal
	rFresh // accessor returned by an allocation in this very function
)

type root struct {
	kind  rootKind
	param int
	name  string
}

func fsmMethod(c *ssa.CallCommon) string {
	f := c.StaticCallee()
	if f == nil {
		return ""
	}
	return fsmMethodOf(f)
}

func fsmMethodOf(f *ssa.Function) string {
	n := recvNamed(f)
	if n == nil || n.Obj().Pkg() == nil || n.Obj().Pkg().Path() != pkgFSM || n.Obj().Name() != "FileStorage" {
		return ""
	}
	return f.Name()
}

// roots finds where the memory designated by v (pointer or slice) comes from.
func roots(v ssa.Value, seen map[ssa.Value]bool, out map[root]bool) {
	if seen[v] {
		return
	}
	seen[v] = true
	switch x := v.(type) {
	case *ssa.Alloc, *ssa.MakeSlice, *ssa.Const, *ssa.MakeMap, *ssa.MakeChan:
		out[root{kind: rLocal}] = true
	case *ssa.Parameter:
		for i, p := range x.Parent().Params {
			if p == x {
				out[root{kind: rParam, param: i}] = true
			}
		}
	case *ssa.Global:
		out[root{kind: rGlobal, name: x.Name()}] = true
	case *ssa.FieldAddr:
		roots(x.X, seen, out)
	case *ssa.IndexAddr:
		roots(x.X, seen, out)
	case *ssa.Slice:
		roots(x.X, seen, out)
	case *ssa.ChangeType:
		roots(x.X, seen, out)
	case *ssa.Convert:
		if isRefType(x.X.Type()) {
			roots(x.X, seen, out)
		} else {
			out[root{kind: rLocal}] = true // string -> []byte copies
		}
	case *ssa.MakeInterface:
		roots(x.X, seen, out)
	case *ssa.ChangeInterface:
		roots(x.X, seen, out)
	case *ssa.TypeAssert:
		roots(x.X, seen, out)
	case *ssa.Phi:
		for _, e := range x.Edges {
			roots(e, seen, out)
		}
	case *ssa.Extract:
		if c, ok := x.Tuple.(*ssa.Call); ok {
			switch fsmMethod(&c.Call) {
			case "AllocateSpace", "AllocateAlignedSpace":
				out[root{kind: rFresh}] = true
				return
			}
			if rootsOfResult(&c.Call, x.Index, seen, out) {
				return
			}
		}
		out[root{kind: rUnknown}] = true
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok && b.Name() == "append" {
			roots(x.Call.Args[0], seen, out)
			return
		}
		if rootsOfResult(&x.Call, 0, seen, out) {
			return
		}
		out[root{kind: rUnknown}] = true
	case *ssa.UnOp:
		// a field of a local struct whose address goes nowhere but into field
		// accesses and results: use what is stored in that field
		if fa, ok := x.X.(*ssa.FieldAddr); ok {
			if a, ok := fa.X.(*ssa.Alloc); ok && rootsOfField(a, fa.Field, seen, out) {
				return
			}
		}
		// a value loaded from a local variable cell: use what is stored there
		if a, ok := x.X.(*ssa.Alloc); ok && a.Referrers() != nil {
			for _, r := range *a.Referrers() {
				if s, ok := r.(*ssa.Store); ok && s.Addr == a {
					roots(s.Val, seen, out)
				}
			}
			return
		}
		out[root{kind: rUnknown}] = true
	case *ssa.FreeVar:
		out[root{kind: rUnknown}] = true
	default:
		out[root{kind: rUnknown}] = true
	}
}

// rootsOfField adds the roots of everything stored in field i of local struct
// a; false if something else than plain field accesses may write it.
func rootsOfField(a *ssa.Alloc, i int, seen map[ssa.Value]bool, out map[root]bool) bool {
	if a.Referrers() == nil {
		return false
	}
	var vals []ssa.Value
	for _, r := range *a.Referrers() {
		switch u := r.(type) {
		case *ssa.FieldAddr:
			if u.Referrers() == nil {
				return false
			}
			for _, r2 := range *u.Referrers() {
				switch w := r2.(type) {
				case *ssa.Store:
					if w.Addr != u {
						return false
					}
					if u.Field == i {
						vals = append(vals, w.Val)
					}
				case *ssa.UnOp, *ssa.DebugRef:
				default:
					if u.Field == i {
						return false
					}
				}
			}
		case *ssa.UnOp, *ssa.Return, *ssa.DebugRef:
		case *ssa.Store:
			if u.Addr != a {
				return false
			}
			if c, ok := u.Val.(*ssa.Const); ok && c.Value == nil {
				continue
			}
			// the value of another such struct (a composite literal)
			ld, ok := u.Val.(*ssa.UnOp)
			if !ok {
				return false
			}
			b, ok := ld.X.(*ssa.Alloc)
			if !ok || b == a || !rootsOfField(b, i, seen, out) {
				return false
			}
		default:
			return false
		}
	}
	out[root{kind: rLocal}] = true
	for _, v := range vals {
		roots(v, seen, out)
	}
	return true
}

var theProgram *Program

var resultBusy = map[*ssa.Function]bool{}

// rootsOfResult adds the roots of the i-th result of a call of a function of
// the repository that keeps nothing.
func rootsOfResult(c *ssa.CallCommon, i int, seen map[ssa.Value]bool, out map[root]bool) bool {
	f := c.StaticCallee()
	if f == nil || f.Blocks == nil || theProgram == nil || resultBusy[f] {
		return false
	}
	e := theProgram.effects[f]
	if e == nil || len(e.FieldW) > 0 || len(e.GlobalW) > 0 {
		return false
	}
	resultBusy[f] = true
	defer delete(resultBusy, f)
	for _, b := range f.Blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok || i >= len(r.Results) {
			continue
		}
		rs := map[root]bool{}
		roots(r.Results[i], map[ssa.Value]bool{}, rs)
		for q := range rs {
			if q.kind != rParam {
				out[q] = true
			} else if q.param < len(c.Args) {
				roots(c.Args[q.param], seen, out)
			}
		}
	}
	return true
}

func isRefType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Pointer, *types.Slice, *types.Map, *types.Chan, *types.Interface, *types.Signature:
		return true
	case *types.Basic:
		return u.Kind() == types.UnsafePointer
	}
	return false
}

func fieldName(addrT types.Type, i int) string {
	t := addrT
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	name := t.String()
	if n, ok := t.(*types.Named); ok {
		name = n.Obj().Name()
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		return name + "." + s.Field(i).Name()
	}
	return name + ".?"
}

func (P *Program) computeEffects() {
	P.effects = map[*ssa.Function]*Effect{}
	theProgram = P
	for _, f := range P.Funcs {
		P.effects[f] = &Effect{FieldW: map[string]bool{}, ParamW: map[int]bool{}, GlobalW: map[string]bool{}, Extern: map[string]bool{}}
	}
	for changed := true; changed; {
		changed = false
		for _, f := range P.Funcs {
			if P.updateEffect(f, P.effects[f]) {
				changed = true
			}
		}
	}
}

func (e *Effect) key() string {
	var sb strings.Builder
	for _, b := range []bool{e.Alloc, e.Free, e.SetPrimary, e.OpenClose, e.ViewW, e.Panics} {
		if b {
			sb.WriteByte('1')
		} else {
			sb.WriteByte('0')
		}
	}
	for _, m := range []map[string]bool{e.FieldW, e.GlobalW, e.Extern} {
		sb.WriteString(strings.Join(sortedKeys(m), ","))
		sb.WriteByte('|')
	}
	for i := 0; i < 16; i++ {
		if e.ParamW[i] {
			sb.WriteByte('w')
		} else {
			sb.WriteByte('.')
		}
	}
	return sb.String()
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (e *Effect) writeThrough(v ssa.Value) {
	rs := map[root]bool{}
	roots(v, map[ssa.Value]bool{}, rs)
	for r := range rs {
		switch r.kind {
		case rParam:
			e.ParamW[r.param] = true
		case rGlobal:
			e.GlobalW[r.name] = true
		case rUnknown:
			e.ViewW = true
		}
	}
}

// externWrites lists the argument indexes external functions write through.
func externWrites(name string) []int {
	switch name {
	case "(encoding/binary.bigEndian).PutUint16", "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.bigEndian).PutUint64",
		"(encoding/binary.littleEndian).PutUint16", "(encoding/binary.littleEndian).PutUint32", "(encoding/binary.littleEndian).PutUint64":
		return []int{1}
	case "encoding/binary.PutUvarint", "encoding/binary.PutVarint":
		return []int{0}
	}
	return nil
}

func (P *Program) updateEffect(f *ssa.Function, e *Effect) bool {
	before := e.key()
	_, e.HasLoop = loopsOf(f)
	merge := func(c *ssa.CallCommon, callee *ssa.Function) {
		ce := P.effects[callee]
		if ce == nil {
			n := callee.String()
			e.Extern[n] = true
			for _, i := range externWrites(n) {
				if i < len(c.Args) {
					e.writeThrough(c.Args[i])
				}
			}
			return
		}
		e.Alloc = e.Alloc || ce.Alloc
		e.Free = e.Free || ce.Free
		e.SetPrimary = e.SetPrimary || ce.SetPrimary
		e.OpenClose = e.OpenClose || ce.OpenClose
		e.ViewW = e.ViewW || ce.ViewW
		for k := range ce.FieldW {
			e.FieldW[k] = true
		}
		for k := range ce.GlobalW {
			e.GlobalW[k] = true
		}
		for k := range ce.Extern {
			e.Extern[k] = true
		}
		for i := range ce.ParamW {
			if i < len(c.Args) {
				e.writeThrough(c.Args[i])
			}
		}
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				switch a := x.Addr.(type) {
				case *ssa.FieldAddr:
					rs := map[root]bool{}
					roots(a, map[ssa.Value]bool{}, rs)
					for r := range rs {
						if r.kind != rLocal {
							e.FieldW[fieldName(a.X.Type(), a.Field)] = true
						}
					}
					if _, isIdx := a.X.(*ssa.IndexAddr); isIdx {
						e.writeThrough(a.X)
					}
				case *ssa.IndexAddr:
					e.writeThrough(a.X)
				default:
					rs := map[root]bool{}
					roots(x.Addr, map[ssa.Value]bool{}, rs)
					for r := range rs {
						if r.kind == rLocal {
							continue
						}
						if r.kind == rGlobal {
							e.GlobalW[r.name] = true
							continue
						}
						pt, _ := x.Addr.Type().Underlying().(*types.Pointer)
						if pt == nil {
							continue
						}
						if st, ok := pt.Elem().Underlying().(*types.Struct); ok {
							for i := 0; i < st.NumFields(); i++ {
								e.FieldW[fieldName(x.Addr.Type(), i)] = true
							}
						} else if r.kind == rParam {
							e.ParamW[r.param] = true
						} else {
							e.ViewW = true
						}
					}
				}
			case *ssa.Panic:
				e.Panics = true
			case ssa.CallInstruction:
				c := x.Common()
				if b, ok := c.Value.(*ssa.Builtin); ok {
					if b.Name() == "copy" {
						e.writeThrough(c.Args[0])
					}
					continue
				}
				switch fsmMethod(c) {
				case "AllocateSpace", "AllocateAlignedSpace":
					e.Alloc = true
					continue
				case "FreeSpace", "FreeAlignedSpace":
					e.Free = true
					continue
				case "SetPrimarySpace":
					e.SetPrimary = true
					continue
				case "Open", "Close", "Init":
					e.OpenClose = true
					continue
				}
				if callee := c.StaticCallee(); callee != nil {
					merge(c, callee)
				} else if c.IsInvoke() {
					e.Extern["invoke "+c.Method.FullName()] = true
				} else {
					// call of a function value: any closure of this function
					for _, af := range f.AnonFuncs {
						merge(c, af)
					}
					e.Extern["dynamic call"] = true
				}
			case *ssa.MakeClosure:
				merge(&ssa.CallCommon{}, x.Fn.(*ssa.Function))
			}
		}
	}
	return e.key() != before
}

// Loop is a natural loop.
type Loop struct {
	Header *ssa.BasicBlock
	Blocks map[*ssa.BasicBlock]bool
}

var loopCache = map[*ssa.Function]map[*ssa.BasicBlock]*Loop{}

// loopsOf returns the natural loops of f by header.
func loopsOf(f *ssa.Function) (map[*ssa.BasicBlock]*Loop, bool) {
	if l, ok := loopCache[f]; ok {
		return l, len(l) > 0
	}
	res := map[*ssa.BasicBlock]*Loop{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := res[s]
				if l == nil {
					l = &Loop{Header: s, Blocks: map[*ssa.BasicBlock]bool{s: true}}
					res[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.Blocks[b] {
					l.Blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					x := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range x.Preds {
						if !l.Blocks[p] {
							l.Blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	loopCache[f] = res
	return res, len(res) > 0
}
