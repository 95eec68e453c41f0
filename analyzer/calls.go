package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Interp) call(fn *ssa.Function, t *ssa.Call, p *path) []exitEdge {
	var args []*Term
	for _, a := range t.Call.Args {
		args = append(args, x.val(p, a))
	}
	outs := x.invoke(t, &t.Call, args, p)
	var es []exitEdge
	for i, o := range outs {
		if o.st.dead {
			continue
		}
		if o.panics {
			es = append(es, exitEdge{out: o})
			continue
		}
		q := &path{st: o.st, env: p.env, dfr: p.dfr}
		if i < len(outs)-1 || true {
			q.env = cloneMap(p.env)
		}
		switch len(o.ret) {
		case 0:
			q.env[t] = tNil
		case 1:
			q.env[t] = o.ret[0]
		default:
			q.env[t] = mkTuple(o.ret)
		}
		es = append(es, exitEdge{p: q})
	}
	return es
}

func single(st *State, r ...*Term) []*Outcome {
	return []*Outcome{{st: st, ret: r}}
}

// invoke executes a call in the state of p.
func (x *Interp) invoke(site ssa.Instruction, c *ssa.CallCommon, args []*Term, p *path) []*Outcome {
	st := p.st
	x.calls++
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(st, site, b.Name(), c, args)
	}
	var callee *ssa.Function
	var free []*Term
	if c.IsInvoke() {
		recv := x.val(p, c.Value)
		if recv.op == OIface {
			m := x.P.Prog.MethodSets.MethodSet(recv.typ).Lookup(c.Method.Pkg(), c.Method.Name())
			if m != nil {
				callee = x.P.Prog.MethodValue(m)
				args = append([]*Term{recv.args[0]}, args...)
			}
		}
		if callee == nil {
			return x.external(st, site, "invoke "+c.Method.FullName(), nil, c, append([]*Term{recv}, args...))
		}
	} else if callee = c.StaticCallee(); callee == nil {
		v := x.val(p, c.Value)
		if v.op == OClosure {
			callee = v.fn.(*ssa.Function)
			free = v.args
		}
	} else if mc, ok := c.Value.(*ssa.MakeClosure); ok {
		if v := x.val(p, mc); v.op == OClosure {
			free = v.args
		}
	}
	if callee == nil {
		x.undecided(site, "call of an unknown function value")
		return x.opaque(st, site, "dynamic", c.Signature(), args, nil)
	}
	return x.callFunc(st, site, c, callee, args, free)
}

func (x *Interp) callFunc(st *State, site ssa.Instruction, c *ssa.CallCommon, callee *ssa.Function, args, free []*Term) []*Outcome {
	if m := fsmMethodOf(callee); m != "" {
		return x.fsm(st, site, m, args)
	}
	if x.cfg.Prims != nil {
		if pr := x.cfg.Prims[callee.String()]; pr != nil {
			r := pr(x, st, site, args, resultType(callee.Signature))
			if st.dead {
				return nil
			}
			if r == nil {
				return single(st)
			}
			if r.op == OTuple {
				return single(st, r.args...)
			}
			return single(st, r)
		}
	}
	inModule := callee.Pkg != nil && strings.HasPrefix(callee.Pkg.Pkg.Path(), modRoot) && callee.Blocks != nil
	if callee.Synthetic != "" && callee.Blocks != nil && callee.Pkg == nil {
		// wrappers and bound methods
		inModule = true
	}
	if !inModule {
		return x.external(st, site, callee.String(), callee, c, args)
	}
	if x.cfg.OnCall != nil {
		x.cfg.OnCall(x, st, c, callee, args)
	}
	onStack := false
	for _, f := range x.stack {
		if f == callee {
			onStack = true
		}
	}
	if onStack || x.cfg.Boundary != nil && x.cfg.Boundary(callee) {
		return x.summary(st, site, callee, args)
	}
	if r := protoModel(x, st, site, callee, args); r != nil {
		return r
	}
	pre := map[*Obj]bool{}
	for o := range st.mem {
		pre[o] = true
	}
	outs := x.runFn(callee, args, free, st)
	for _, o := range outs {
		roots := append(append([]*Term{}, args...), free...)
		roots = append(roots, o.ret...)
		gcLocals(o.st, func(ob *Obj) bool { return ob.kind == ObjLocal && !pre[ob] }, roots)
	}
	return x.mergeOutcomes(outs)
}

func resultType(s *types.Signature) types.Type {
	switch s.Results().Len() {
	case 0:
		return nil
	case 1:
		return s.Results().At(0).Type()
	}
	return s.Results()
}

// opaque makes unknown results.
func (x *Interp) opaque(st *State, site ssa.Instruction, name string, sig *types.Signature, args []*Term, keep []*Term) []*Outcome {
	var rs []*Term
	for i := 0; i < sig.Results().Len(); i++ {
		nm := name
		if sig.Results().Len() > 1 {
			nm = name + "." + strconv.Itoa(i)
		}
		t := mkApp(nm, keep...)
		rs = append(rs, t)
	}
	return single(st, rs...)
}

// snapshot remembers the state at a call taken by its effects: several paths
// may lead to it.
func (x *Interp) snapshot(st *State) {
	if x.snaps == nil {
		x.snaps = map[*Event][]*State{}
		x.snapKeys = map[string]*State{}
	}
	k := stateKey(st, nil) + factKey(st)
	if x.snapKeys[k] != nil {
		return
	}
	l := x.snaps[st.log]
	if len(l) >= 32 {
		mk := stateKey(st, nil)
		for _, s := range l {
			if stateKey(s, nil) == mk {
				joinFacts(s, st)
				x.snapKeys[k] = s
				return
			}
		}
	}
	c := st.clone()
	x.snapKeys[k] = c
	x.snaps[st.log] = append(l, c)
}

// snapsAt: the states at a call on the paths of an outcome.
func (run *Run) snapsAt(e *Event, o *Outcome) []*State {
	var rs []*State
	for _, s := range run.x.snaps[e] {
		q := s.clone()
		if o != nil {
			for _, f := range o.st.facts {
				q.assume(f)
				if q.dead {
					break
				}
			}
		}
		if !q.dead {
			rs = append(rs, s.clone())
		}
	}
	return rs
}

// summary is a call taken by its effects only: results and everything it may write become unknown.
func (x *Interp) summary(st *State, site ssa.Instruction, callee *ssa.Function, args []*Term) []*Outcome {
	for i, a := range args {
		x.checkArg(st, site, a, fmt.Sprintf("passes to %s as argument %d", shortName(callee), i))
	}
	e := x.P.effects[callee]
	st.emit("call", shortName(callee), site, nil, args...)
	ev := st.log
	x.snapshot(st)
	var tag *Term
	if x.P.pureCall(callee, e) {
		ks := make([]*Term, 0, len(args))
		for i, a := range args {
			ks = append(ks, deepValue(st, x.pointee(st, site, a, callee.Signature, i), paramType(callee, i, true), 0))
			if o, _, _, _ := sliceParts(a); o != nil && x.cfg.PageObj {
				if q := st.seq[o]; q != nil && o.addr != nil && q != initialSeq(o.addr) {
					ks = append(ks, q)
				}
			}
		}
		tag = mkApp("of", ks...)
	} else {
		tag = mkApp(st.fresh("after:"+shortName(callee)), x.ks...)
	}
	src := map[int][]*Term{}
	var bufs []*Obj
	for i := range x.P.aliasSummary(callee) {
		if i < len(args) {
			src[i] = st.sources(args[i], func(o *Obj) {
				if keptBytes(x.rootFn(), o) != "" || o.kind == ObjLocal && o.typ != nil && isByteSlice(derefT(o.typ)) {
					bufs = append(bufs, o)
				}
			})
		}
	}
	if e == nil {
		x.undecided(site, "no effect summary for "+callee.String())
	} else {
		x.havocEffects(st, e, callee, args, tag)
	}
	var rs []*Term
	sig := callee.Signature
	for i := 0; i < sig.Results().Len(); i++ {
		rn := fmt.Sprintf("res:%s.%d", shortName(callee), i)
		resTypes[rn] = sig.Results().At(i).Type()
		r := mkApp(rn, tag)
		resOf[ev] = append(resOf[ev], r)
		if refInside(sig.Results().At(i).Type(), 0) {
			var all []*Term
			for i := range src {
				all = append(all, src[i]...)
			}
			if len(all) > 0 {
				sortTerms(all)
				st.derived = cloneMap(st.derived)
				st.derived[r] = all
			}
			if len(bufs) > 0 {
				sort.Slice(bufs, func(i, j int) bool { return bufs[i].id < bufs[j].id })
				st.derivedBufs = cloneMap(st.derivedBufs)
				st.derivedBufs[r] = bufs
			}
		}
		rs = append(rs, r)
	}
	return single(st, rs...)
}

// resTypes: types of the results of summarised calls, by the name of the symbol.
var resTypes = map[string]types.Type{}

// resOf: the results of the summarised calls.
var resOf = map[*Event][]*Term{}

// pureCall: the results are a function of the arguments and what they refer to.
func (P *Program) pureCall(f *ssa.Function, e *Effect) bool {
	return e != nil && !e.Invalidates() && !e.SetPrimary && len(e.FieldW) == 0 && len(e.ParamW) == 0 && !e.ViewW && len(e.GlobalW) == 0 && P.noSpaceAccess(f)
}

func (P *Program) noSpaceAccess(f *ssa.Function) bool {
	for g := range P.reach(f) {
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok && fsmMethod(c.Common()) != "" {
					return false
				}
			}
		}
	}
	return true
}

func paramType(f *ssa.Function, i int, deref bool) types.Type {
	t := f.Params[i].Type()
	if deref {
		return derefT(t)
	}
	return t
}

// pointee is the value behind a pointer argument (the argument itself otherwise).
func (x *Interp) pointee(st *State, site ssa.Instruction, a *Term, sig *types.Signature, i int) *Term {
	f := x.P.sigParam(sig, i)
	if f == nil {
		return a
	}
	if p, ok := f.Underlying().(*types.Pointer); ok {
		return x.load(st, site, a, p.Elem())
	}
	return a
}

func (P *Program) sigParam(sig *types.Signature, i int) types.Type {
	if sig.Recv() != nil {
		if i == 0 {
			return sig.Recv().Type()
		}
		i--
	}
	if i < sig.Params().Len() {
		return sig.Params().At(i).Type()
	}
	return nil
}

func (x *Interp) havocEffects(st *State, e *Effect, callee *ssa.Function, args []*Term, tag *Term) {
	if e.Invalidates() {
		st.epoch++
	}
	// element memory reachable from pointer parameters (e.g. the elements of *recordPath)
	if e.ViewW || len(e.FieldW) > 0 || len(e.ParamW) > 0 {
		for _, o := range elementObjs(st, args) {
			x.havocObj(st, o, nil, tag)
		}
	}
	// pointees of parameters
	for i := range args {
		if !e.ParamW[i] {
			continue
		}
		a := args[i]
		switch a.op {
		case OPtr:
			if len(a.sels) == 0 || true {
				x.havocObj(st, a.obj, [][]Sel{a.sels}, tag)
			}
		case OSlice:
			x.noteWrite(st, nil, a.obj)
			x.havocObj(st, a.obj, nil, tag)
		case OSym, OLoad, OField, OApp:
			x.havocObj(st, symObj(a), nil, tag)
		}
	}
	// fields of receivers
	for _, f := range sortedKeys(e.FieldW) {
		tn, fld, _ := strings.Cut(f, ".")
		for i := range args {
			x.havocField(st, args[i], tn, fld, tag)
		}
		// any object reachable through receivers' memory of that type
		for _, o := range sortedObjs(st.mem) {
			if o.kind == ObjSym && typeNameOfPtr(o.typ) == tn {
				x.havocField(st, mkPtr(o, nil), tn, fld, tag)
			}
		}
	}
	if e.ViewW {
		for _, o := range sortedObjs(st.mem) {
			if o.kind == ObjView {
				x.havocObj(st, o, nil, tag)
			}
		}
		for _, o := range sortedObjsT(st.seq) {
			st.seq[o] = mkSeq([]*Term{seg(mkApp("page", o.addr, tag), tZero, countOf(mkApp("page", o.addr, tag)))})
		}
		st.cnt["viewgen"] = int(tag.id)
	}
}

// elementObjs: arrays which slices in the cells behind pointer arguments refer to (byte arrays aside).
func elementObjs(st *State, args []*Term) []*Obj {
	var r []*Obj
	seen := map[*Obj]bool{}
	var rec func(v *Term, d int)
	cells := func(o *Obj, d int) {
		for c := st.cont(o); c != nil; c = c.parent {
			if c.kind == wCell && c.val != nil {
				rec(c.val, d+1)
			}
		}
	}
	rec = func(v *Term, d int) {
		if d > 4 {
			return
		}
		switch v.op {
		case OPtr:
			if v.obj.kind == ObjLocal && !seen[v.obj] {
				seen[v.obj] = true
				cells(v.obj, d)
			}
		case OSlice:
			if (v.obj.kind == ObjLocal || v.obj.kind == ObjSym) && !seen[v.obj] && v.typ != nil && !isByteSlice(v.typ) || v.obj.kind == ObjLocal && !seen[v.obj] && !isBytes(v.obj) {
				seen[v.obj] = true
				r = append(r, v.obj)
				cells(v.obj, d)
			}
		case OStruct, OTuple:
			for _, a := range v.args {
				rec(a, d+1)
			}
		}
	}
	for _, a := range args {
		if a.op == OPtr && a.obj.kind == ObjLocal {
			rec(a, 0)
		}
	}
	return r
}

func isBytes(o *Obj) bool {
	if o.typ == nil {
		return false
	}
	switch t := o.typ.Underlying().(type) {
	case *types.Slice:
		return isByteSlice(t)
	case *types.Array:
		return isByteSlice(types.NewSlice(t.Elem()))
	case *types.Basic:
		return t.Kind() == types.Uint8
	}
	return false
}

func typeNameOfPtr(t types.Type) string {
	if t == nil {
		return ""
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	if n, ok := t.(*types.Named); ok {
		return n.Obj().Name()
	}
	return ""
}

func (x *Interp) havocField(st *State, a *Term, tn, fld string, tag *Term) {
	var o *Obj
	var pre []Sel
	switch a.op {
	case OPtr:
		o, pre = a.obj, a.sels
	case OSym, OLoad:
		o = symObj(a)
		if o.typ == nil {
			o.typ = a.typ
		}
	default:
		return
	}
	if o.typ == nil {
		return
	}
	t := o.typ
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	for _, s := range pre {
		if s.Field >= 0 {
			if su, ok := t.Underlying().(*types.Struct); ok && s.Field < su.NumFields() {
				t = su.Field(s.Field).Type()
			}
		} else if sl, ok := t.Underlying().(*types.Slice); ok {
			t = sl.Elem()
		}
	}
	x.havocFieldIn(st, o, pre, t, tn, fld, tag)
}

func (x *Interp) havocFieldIn(st *State, o *Obj, pre []Sel, t types.Type, tn, fld string, tag *Term) {
	su, ok := t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	nm := ""
	if n, ok := t.(*types.Named); ok {
		nm = n.Obj().Name()
	}
	for i := 0; i < su.NumFields(); i++ {
		f := su.Field(i)
		ss := append(pre[:len(pre):len(pre)], Sel{Field: i})
		if nm == tn && f.Name() == fld {
			x.havocObj(st, o, [][]Sel{ss}, tag)
		} else if isStruct(f.Type()) {
			x.havocFieldIn(st, o, ss, f.Type(), tn, fld, tag)
		}
	}
}

func (x *Interp) havocObj(st *State, o *Obj, pats [][]Sel, tag *Term) {
	for _, p := range pats {
		if len(p) == 0 {
			pats = nil
			break
		}
	}
	st.mem[o] = internC(&Content{parent: st.cont(o), kind: wHavoc, pats: pats, tag: strconv.Itoa(tag.id), k: tag})
}

func (x *Interp) checkArg(st *State, site ssa.Instruction, a *Term, what string) {
	seen := map[*Term]bool{}
	var rec func(t *Term, d int)
	rec = func(t *Term, d int) {
		if t == nil || seen[t] || d > 6 {
			return
		}
		seen[t] = true
		switch t.op {
		case OSlice:
			x.checkLive(st, site, t, what)
			if t.obj.kind == ObjLocal {
				for c := st.mem[t.obj]; c != nil; c = c.parent {
					if c.kind == wCell {
						rec(c.val, d+1)
					}
				}
			}
		case OStruct, OTuple, OIface:
			for _, y := range t.args {
				rec(y, d+1)
			}
		case OPtr:
			if t.obj.kind == ObjLocal && len(t.sels) == 0 {
				over := map[string]bool{}
				for c := st.mem[t.obj]; c != nil; c = c.parent {
					if c.kind != wCell {
						break
					}
					if k := selKey(c.sels); !over[k] {
						over[k] = true
						rec(c.val, d+1)
					}
				}
			}
		case OApp:
			// what an earlier call returned, unless it was written to since
			if len(st.derived[t]) > 0 && st.mem[symObj(t)] == nil {
				x.checkObjLive(st, site, symObj(t), 0, what)
			}
		}
	}
	rec(a, 0)
}

// ---- builtins ----

func (x *Interp) builtin(st *State, site ssa.Instruction, name string, c *ssa.CallCommon, args []*Term) []*Outcome {
	switch name {
	case "len":
		return single(st, lenOf(args[0]))
	case "cap":
		if args[0].op == OSlice && args[0].obj.kind == ObjLocal && args[0].args[0] == tZero {
			return single(st, intern(&Term{op: OCap, args: []*Term{args[0]}}))
		}
		return single(st, intern(&Term{op: OCap, args: []*Term{args[0]}}))
	case "copy":
		return single(st, x.copyBytes(st, site, args[0], args[1], isByteSlice(c.Args[0].Type())))
	case "append":
		return single(st, x.appendTo(st, site, c, args))
	case "panic":
		return []*Outcome{{st: st, panics: true}}
	case "min":
		if len(args) == 2 {
			return single(st, mkMin(args[0], args[1]))
		}
	case "max":
		if len(args) == 2 {
			m := mkMin(mulc(args[0], -1), mulc(args[1], -1))
			return single(st, mulc(m, -1))
		}
	case "clear":
		if o, off, ln, _ := sliceParts(args[0]); o != nil {
			x.checkLive(st, site, args[0], "clears")
			x.noteWrite(st, site, o)
			z := getObj(ObjLocal, "zeros", "zeros")
			st.storeCopy(o, off, ln, z, nil, tZero)
		}
		return single(st)
	case "delete", "print", "println", "close":
		return single(st)
	case "ssa:wrapnilchk":
		return single(st, args[0])
	}
	x.undecided(site, "builtin "+name)
	return single(st, mkSym(st.fresh("builtin"), nil))
}

// copyBytes is copy(dst, src); it gives the number of elements copied.
func (x *Interp) copyBytes(st *State, site ssa.Instruction, dst, src *Term, bytes bool) *Term {
	do, doff, dln, _ := sliceParts(dst)
	if src.op == OStr {
		n := mkMin(dln, mkInt(int64(len(src.s))))
		if do != nil {
			x.checkLive(st, site, dst, "writes through")
			x.noteWrite(st, site, do)
			so := extObj("str", mkApp("strbytes", src))
			st.storeCopy(do, doff, n, so, nil, tZero)
		}
		return n
	}
	so, soff, sln, _ := sliceParts(src)
	if do == nil || so == nil {
		return tZero
	}
	x.checkLive(st, site, dst, "writes through")
	x.checkLive(st, site, src, "reads through")
	x.noteWrite(st, site, do)
	var n *Term
	switch {
	case st.decide(le(sln, dln)) == 1:
		n = sln
	case st.decide(le(dln, sln)) == 1:
		n = dln
	default:
		n = mkMin(dln, sln)
	}
	st.storeCopy(do, doff, n, so, st.cont(so), soff)
	if do.kind == ObjView && !bytes {
		x.undecided(site, "element copy into a view")
	}
	return n
}

func (x *Interp) appendTo(st *State, site ssa.Instruction, c *ssa.CallCommon, args []*Term) *Term {
	base, more := args[0], args[1]
	bo, boff, bln, _ := sliceParts(base)
	mo, moff, mln, _ := sliceParts(more)
	if more.op == OStr {
		mln = mkInt(int64(len(more.s)))
		mo, moff = extObj("str", mkApp("strbytes", more)), tZero
	}
	if bo != nil {
		x.checkLive(st, site, base, "appends to")
		if base.op != ONil && (bo.kind == ObjView) {
			x.report("viewappend", st, site, "appends to a slice of the file space: the neighbouring bytes may be overwritten")
		}
		if bo.kind == ObjSym && callerBuffer(bo.of) != "" {
			x.report("callerwrite", st, site, "appends to the buffer given by the caller as "+callerBuffer(bo.of))
		}
		if k := keptBytes(x.rootFn(), bo); k != "" && base.op != ONil && isByteSlice(c.Args[0].Type()) {
			x.report("keptwrite", st, site, k)
		}
	}
	if mo == nil || mln == tZero {
		return base
	}
	x.checkLive(st, site, more, "reads through")
	nm := st.fresh(fmt.Sprintf("%s.append@%d", shortName(site.Parent()), site.Pos()))
	o := localObj(nm, "append", c.Args[0].Type(), x.ks)
	if bo != nil && bln != tZero {
		st.storeCopy(o, tZero, bln, bo, st.cont(bo), boff)
	}
	// known short tails become cells
	el, _ := c.Args[0].Type().Underlying().(*types.Slice)
	if mln.op == OConst && mln.i <= 4 && el != nil && !isByteSlice(c.Args[0].Type()) {
		for j := int64(0); j < mln.i; j++ {
			v := st.loadCell(mo, []Sel{{Field: -1, Idx: addc(moff, j)}}, el.Elem())
			st.storeCell(o, []Sel{{Field: -1, Idx: addc(bln, j)}}, v)
		}
	} else {
		st.storeCopy(o, bln, mln, mo, st.cont(mo), moff)
	}
	return intern(&Term{op: OSlice, obj: o, args: []*Term{tZero, add(bln, mln)}})
}

// ---- file storage ----

func (x *Interp) relateAddr(st *State, a, b *Term) int {
	if a == b {
		return 1
	}
	if r := st.same[a]; r != nil && r == b {
		return 1
	}
	if r := st.same[b]; r != nil && r == a {
		return 1
	}
	if x.cfg.Relate != nil {
		if r := x.cfg.Relate(st, a, b); r != 0 {
			return r
		}
	}
	if r := relateLevels(st, a, b); r < 0 {
		return r
	}
	fresh := func(t *Term) bool { return t.op == OApp && t.s == "alloc" }
	if fresh(a) || fresh(b) {
		return -1
	}
	if d := st.decide(eqInt(a, b)); d != 0 {
		return d
	}
	return 0
}

// canonAddr finds the space an address designates among those already seen.
func (x *Interp) canonAddr(st *State, a *Term) *Term {
	if c, ok := st.same[a]; ok {
		return c
	}
	for _, v := range st.views {
		switch x.relateAddr(st, a, v) {
		case 1:
			st.same[a] = v
			return v
		case -1:
			continue
		}
		c := eqInt(a, v)
		if dbgLoops && st.decide(c) == 0 {
			dbgForks["addr "+a.String()+" ~ "+v.String()]++
		}
		if st.must(c) { // splits the path
			st.same[a] = v
			return v
		}
	}
	st.views = append(st.views, a)
	st.same[a] = a
	return a
}

func (x *Interp) viewSlice(st *State, a *Term, n *Term) *Term {
	c := x.canonAddr(st, a)
	if n == nil {
		n = mkApp("size", c)
		if v, ok := st.same[mkApp("sizeof", c)]; ok {
			n = v
		}
	} else {
		st.same[mkApp("sizeof", c)] = n
	}
	return intern(&Term{op: OSlice, obj: viewObj(c), args: []*Term{tZero, n}, i: st.epoch})
}

func (x *Interp) fsm(st *State, site ssa.Instruction, m string, args []*Term) []*Outcome {
	switch m {
	case "AllocateSpace", "AllocateAlignedSpace":
		n := args[1]
		id := st.fresh("alloc")
		kind := "space"
		if m == "AllocateAlignedSpace" {
			kind = "page"
		}
		a := mkApp("alloc", append([]*Term{mkSym(id, nil), mkSym(kind, nil)}, x.ks...)...)
		st.epoch++
		st.views = append(st.views, a)
		st.same[a] = a
		st.emit("alloc", kind, site, a, n)
		if x.cfg.PageObj && kind == "page" {
			st.seq[viewObj(a)] = mkApp("seq")
		}
		size := mkApp("space", n)
		st.same[mkApp("sizeof", a)] = size
		return single(st, a, intern(&Term{op: OSlice, obj: viewObj(a), args: []*Term{tZero, size}, i: st.epoch}))
	case "FreeSpace", "FreeAlignedSpace":
		kind := "space"
		if m == "FreeAlignedSpace" {
			kind = "page"
		}
		a := x.canonAddr(st, args[1])
		if st.fset[mkApp("freed", a)] {
			x.report("doublefree", st, site, "releases "+a.String()+" twice")
		}
		st.addFact(mkApp("freed", a))
		st.epoch++
		st.emit("free", kind, site, nil, a)
		x.snapshot(st)
		return single(st)
	case "AccessSpace", "AccessAlignedSpace":
		kind := "space"
		if m == "AccessAlignedSpace" {
			kind = "page"
		}
		a := x.canonAddr(st, args[1])
		if st.fset[mkApp("freed", a)] {
			x.report("uaf", st, site, "accesses "+a.String()+" after it was released")
		}
		st.same[mkApp("kindof:"+kind, a)] = a
		return single(st, x.viewSlice(st, a, nil))
	case "SetPrimarySpace":
		st.emit("setprimary", "", site, nil, args[1])
		return single(st)
	case "PrimarySpace":
		return single(st, mkApp("primary", args[0]))
	case "Init":
		st.emit("fsminit", "", site, nil, args[0])
		return single(st, args[0])
	case "Open":
		r := mkApp("openerr", args...)
		st.epoch++
		st.emit("fsmopen", "", site, r, args...)
		return single(st, r)
	case "Close":
		r := mkApp("closeerr", mkSym(st.fresh("close"), nil))
		st.epoch++
		st.emit("fsmclose", "", site, r, args[0])
		return single(st, r)
	case "Stats":
		return single(st, mkApp("fsmstats", args...))
	}
	x.undecided(site, "FileStorage."+m+" is not modelled")
	return single(st, mkApp("fsm."+m, args...))
}

// ---- contents ----

// contentTerm names the bytes a slice holds right now.
func contentTerm(st *State, sl *Term) *Term {
	return contentAt(st, sl, nil, true, 0)
}

func contentAt(st *State, sl *Term, at *Content, cur bool, depth int) *Term {
	if sl == tNil {
		return emptyBytes
	}
	if sl.op == OStr {
		return mkApp("strbytes", sl)
	}
	o, off, ln, _ := sliceParts(sl)
	if o == nil {
		return emptyBytes
	}
	if ln == tZero {
		return emptyBytes
	}
	c := at
	if cur {
		c = st.cont(o)
	}
	return contentOf(st, o, c, off, ln, depth)
}

func subContent(c, off, ln *Term) *Term {
	if ln == tZero {
		return emptyBytes
	}
	if off == tZero && ln == contentLen(c) {
		return c
	}
	if c.op == OApp && c.s == "sub" {
		return mkApp("sub", c.args[0], add(c.args[1], off), ln)
	}
	return mkApp("sub", c, off, ln)
}

// catContents joins adjacent pieces.
func catContents(ps []*Term) *Term {
	var out []*Term
	for _, p := range ps {
		if p == emptyBytes {
			continue
		}
		if n := len(out); n > 0 {
			a, b := out[n-1], p
			ab, ao, al := a, tZero, contentLen(a)
			if a.op == OApp && a.s == "sub" {
				ab, ao, al = a.args[0], a.args[1], a.args[2]
			}
			bb, bo, bl := b, tZero, contentLen(b)
			if b.op == OApp && b.s == "sub" {
				bb, bo, bl = b.args[0], b.args[1], b.args[2]
			}
			if ab == bb && add(ao, al) == bo {
				out[n-1] = subContent(ab, ao, add(al, bl))
				continue
			}
		}
		out = append(out, p)
	}
	switch len(out) {
	case 0:
		return emptyBytes
	case 1:
		return out[0]
	}
	return mkApp("cat", out...)
}

func contentOf(st *State, o *Obj, c *Content, off, ln *Term, depth int) *Term {
	if depth > 12 {
		return mkApp("deep")
	}
	end := add(off, ln)
	for ; c != nil; c = c.parent {
		switch c.kind {
		case wCopy:
			ce := add(c.off, c.ln)
			if st.decide(le(end, c.off)) == 1 || st.decide(le(ce, off)) == 1 {
				continue
			}
			if st.decide(le(c.off, off)) == 1 && st.decide(le(end, ce)) == 1 {
				return contentOf(st, c.src, c.srcC, add(sub(off, c.off), c.srcOff), ln, depth+1)
			}
			// the write covers a part: left | middle | right
			if st.decide(le(off, c.off)) == 1 && st.decide(le(ce, end)) == 1 {
				l := emptyBytes
				if n := sub(c.off, off); n != tZero {
					l = contentOf(st, o, c.parent, off, n, depth+1)
				}
				m := contentOf(st, c.src, c.srcC, c.srcOff, c.ln, depth+1)
				r := emptyBytes
				if n := sub(end, ce); n != tZero {
					r = contentOf(st, o, c.parent, ce, n, depth+1)
				}
				return catContents([]*Term{l, m, r})
			}
		case wInt:
			ce := add(c.off, c.ln)
			if st.decide(le(end, c.off)) == 1 || st.decide(le(ce, off)) == 1 {
				continue
			}
			if st.decide(le(off, c.off)) == 1 && st.decide(le(ce, end)) == 1 {
				l := emptyBytes
				if n := sub(c.off, off); n != tZero {
					l = contentOf(st, o, c.parent, off, n, depth+1)
				}
				r := emptyBytes
				if n := sub(end, ce); n != tZero {
					r = contentOf(st, o, c.parent, ce, n, depth+1)
				}
				return catContents([]*Term{l, mkIntBytes(c.val, c.ln, c.tag), r})
			}
		}
		return intern(&Term{op: OApp, s: "mem", obj: o, content: c, args: []*Term{off, ln}})
	}
	if o.tag != nil {
		return subContent(o.tag, off, ln)
	}
	switch o.kind {
	case ObjSym:
		return subContent(mkApp("bytes", o.of), off, ln)
	case ObjLocal:
		return mkApp("zeros", ln)
	}
	return intern(&Term{op: OApp, s: "mem", obj: o, args: []*Term{off, ln}})
}

func mkIntBytes(v, w *Term, endian string) *Term { return mkApp("int:"+endian, v, w) }

// ---- externals ----

func (x *Interp) external(st *State, site ssa.Instruction, name string, callee *ssa.Function, c *ssa.CallCommon, args []*Term) []*Outcome {
	slice := func(i int) *Term { return args[i] }
	for i, a := range args {
		x.checkArg(st, site, a, fmt.Sprintf("passes to %s as argument %d", name, i))
	}
	switch name {
	case "(encoding/binary.bigEndian).PutUint16", "(encoding/binary.bigEndian).PutUint32", "(encoding/binary.bigEndian).PutUint64",
		"(encoding/binary.littleEndian).PutUint16", "(encoding/binary.littleEndian).PutUint32", "(encoding/binary.littleEndian).PutUint64":
		w := int64(8)
		if strings.HasSuffix(name, "32") {
			w = 4
		} else if strings.HasSuffix(name, "16") {
			w = 2
		}
		e := "be"
		if strings.Contains(name, "little") {
			e = "le"
		}
		o, off, ln, _ := sliceParts(slice(1))
		if o == nil {
			st.dead = true
			return nil
		}
		x.bound(st, site, le(mkInt(w), ln))
		if st.dead {
			return nil
		}
		x.noteWrite(st, site, o)
		st.storeInt(o, off, w, e, stripNarrow(args[2], w*8))
		return single(st)
	case "(encoding/binary.bigEndian).Uint16", "(encoding/binary.bigEndian).Uint32", "(encoding/binary.bigEndian).Uint64",
		"(encoding/binary.littleEndian).Uint16", "(encoding/binary.littleEndian).Uint32", "(encoding/binary.littleEndian).Uint64":
		w := int64(8)
		if strings.HasSuffix(name, "32") {
			w = 4
		} else if strings.HasSuffix(name, "16") {
			w = 2
		}
		e := "be"
		if strings.Contains(name, "little") {
			e = "le"
		}
		o, off, ln, _ := sliceParts(slice(1))
		if o == nil {
			st.dead = true
			return nil
		}
		x.bound(st, site, le(mkInt(w), ln))
		if st.dead {
			return nil
		}
		return single(st, st.readInt(o, st.cont(o), off, w, e))
	case "encoding/binary.PutUvarint", "encoding/binary.PutVarint":
		o, off, _, _ := sliceParts(slice(0))
		if o == nil {
			st.dead = true
			return nil
		}
		x.noteWrite(st, site, o)
		nm := "uv"
		if strings.HasSuffix(name, "PutVarint") {
			nm = "sv"
		}
		enc := mkApp(nm, args[1])
		n := mkApp("uvlen", args[1])
		st.storeCopy(o, off, n, extObj("enc", enc), nil, tZero)
		return single(st, n)
	case "encoding/binary.Uvarint", "encoding/binary.Varint":
		cont := contentTerm(st, slice(0))
		signed := strings.HasSuffix(name, ".Varint")
		if h := cont; h.op == OApp {
			if h.s == "cat" {
				h = h.args[0]
			}
			if want := map[bool]string{false: "uv", true: "sv"}[signed]; h.op == OApp && h.s == want {
				return single(st, h.args[0], mkApp("uvlen", h.args[0]))
			}
		}
		nm := "uvarint"
		if signed {
			nm = "svarint"
		}
		st.emit("decodeint", nm, site, mkApp("uvn", cont), cont)
		return single(st, mkApp(nm, cont), mkApp("uvn", cont))
	case "bytes.Compare":
		return single(st, mkCmp(contentTerm(st, slice(0)), contentTerm(st, slice(1))))
	case "bytes.Equal":
		return single(st, eq0(mkCmp(contentTerm(st, slice(0)), contentTerm(st, slice(1)))))
	case "bytes.HasPrefix":
		a, b := contentTerm(st, slice(0)), contentTerm(st, slice(1))
		if a == b {
			return single(st, tTrue)
		}
		return single(st, mkApp("ext:"+name+".0", a, b))
	case "bytes.Clone":
		if slice(0).op == ONil {
			return single(st, slice(0))
		}
		o, off, ln, _ := sliceParts(slice(0))
		if o != nil {
			x.checkLive(st, site, slice(0), "copies")
			n := localObj(st.fresh(fmt.Sprintf("clone@%d", site.Pos())), "clone", c.Args[0].Type(), x.ks)
			st.storeCopy(n, tZero, ln, o, st.cont(o), off)
			return single(st, intern(&Term{op: OSlice, obj: n, args: []*Term{tZero, ln}}))
		}
	case "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock":
		return single(st)
	case "(*sync.Pool).Get":
		return single(st, mkSym("pool:"+st.fresh("get"), nil))
	case "(*sync.Pool).Put":
		x.report("keptwrite", st, site, "package") // whoever gets it next writes to it
		return single(st)
	case "errors.New", "fmt.Errorf":
		return single(st, mkApp("error", args...))
	case "hash/fnv.New64a":
		o := getObj(ObjLocal, st.fresh("fnv64a"), "fnv")
		return single(st, intern(&Term{op: OIface, s: "fnv64a", args: []*Term{mkPtr(o, nil)}, typ: types.Typ[types.Int]}))
	case "invoke (io.Writer).Write":
		if args[0].op == OIface && args[0].s == "fnv64a" {
			o := args[0].args[0].obj
			prev := st.mem[o]
			pv := tNil
			if prev != nil {
				pv = prev.val
			}
			st.storeCell(o, nil, mkApp("fnv", pv, contentTerm(st, args[1])))
			return single(st, lenOf(args[1]), tNil)
		}
	case "invoke (hash.Hash64).Sum64":
		if args[0].op == OIface && args[0].s == "fnv64a" {
			o := args[0].args[0].obj
			v := tNil
			if st.mem[o] != nil {
				v = st.mem[o].val
			}
			return single(st, mkApp("fnv64a", v))
		}
	case "bytes.NewBuffer", "bytes.NewReader", "github.com/gogo/protobuf/proto.NewBuffer":
		o := getObj(ObjLocal, st.fresh("buf:"+name), "buffer")
		st.storeCell(o, nil, args[0])
		return single(st, mkPtr(o, nil))
	case "(*bytes.Buffer).Len":
		if args[0].op == OPtr {
			return single(st, contentLen(bufContent(st, args[0])))
		}
	case "(*bytes.Buffer).Bytes", "(*github.com/gogo/protobuf/proto.Buffer).Bytes":
		if args[0].op == OPtr {
			if v := bufCell(st, args[0]); v != nil && v.op != OApp {
				return single(st, v)
			}
			return single(st, privateSlice("bufbytes", bufContent(st, args[0])))
		}
	case "encoding/binary.Write":
		// args: iface writer, order, iface data
		if args[0].op == OIface && args[2].op == OIface {
			v := args[2].args[0]
			if v.op == OPtr {
				v = st.loadCell(v.obj, v.sels, derefT(args[2].typ))
			}
			enc := mkApp("binenc", v)
			w := args[0].args[0]
			if w.op == OPtr {
				st.storeCell(w.obj, nil, mkApp("enc", catContents([]*Term{bufContent(st, w), enc})))
			}
			r := mkApp("encerr", enc)
			st.emit("encode", "binary.Write", site, r, v, args[1], intern(&Term{op: OIface, s: args[2].typ.String(), typ: args[2].typ}))
			return single(st, r)
		}
	case "encoding/binary.Read":
		if args[0].op == OIface && args[2].op == OIface && args[2].args[0].op == OPtr {
			d := args[2].args[0]
			src := bufContent(st, args[0].args[0])
			r := mkApp("decerr", src)
			st.emit("decode", "binary.Read", site, r, src, args[1], intern(&Term{op: OIface, s: args[2].typ.String(), typ: args[2].typ}))
			v := decoded(src, derefT(args[2].typ))
			st.storeCell(d.obj, d.sels, v)
			return single(st, r)
		}
	case "(*github.com/gogo/protobuf/proto.Buffer).EncodeMessage":
		if args[0].op == OPtr && args[1].op == OIface && args[1].args[0].op == OPtr {
			m := args[1].args[0]
			v := st.loadCell(m.obj, m.sels, derefT(args[1].typ))
			enc := mkApp("pbenc:"+args[1].typ.String(), v)
			st.storeCell(args[0].obj, nil, mkApp("enc", catContents([]*Term{bufContent(st, args[0]), enc})))
			r := mkApp("encerr", enc)
			st.emit("encode", "EncodeMessage", site, r, v, intern(&Term{op: OIface, s: args[1].typ.String(), typ: args[1].typ}))
			return single(st, r)
		}
	case "(*github.com/gogo/protobuf/proto.Buffer).DecodeMessage":
		if args[0].op == OPtr && args[1].op == OIface && args[1].args[0].op == OPtr {
			m := args[1].args[0]
			src := bufContent(st, args[0])
			r := mkApp("decerr", src)
			st.emit("decode", "DecodeMessage", site, r, src, intern(&Term{op: OIface, s: args[1].typ.String(), typ: args[1].typ}))
			st.storeCell(m.obj, m.sels, decoded(src, derefT(args[1].typ)))
			return single(st, r)
		}
	case "fmt.Fprintf", "fmt.Fprint", "fmt.Fprintln", "io.WriteString":
		var vals []*Term
		vals = append(vals, args...)
		if n := len(args); n > 0 && args[n-1].op == OSlice {
			vals = vals[:n-1]
			s := args[n-1]
			if s.args[1].op == OConst && s.args[1].i < 16 {
				for j := int64(0); j < s.args[1].i; j++ {
					v := st.loadCell(s.obj, []Sel{{Field: -1, Idx: addc(s.args[0], j)}}, types.NewInterfaceType(nil, nil))
					if v.op == OIface && isByteSlice(v.typ) {
						v = contentTerm(st, v.args[0])
					} else if v.op == OIface {
						v = v.args[0]
					}
					vals = append(vals, v)
				}
			}
		}
		id := mkSym(st.fresh("fp"), nil)
		r := mkApp("printerr", id)
		st.emit("print", name, site, r, vals...)
		return single(st, mkApp("printn", id), r)
	case "fmt.Sprintf", "fmt.Sprint":
		return single(st, mkApp(name, args...))
	}
	// pure helpers of the standard library on scalars
	sig := (*types.Signature)(nil)
	if callee != nil {
		sig = callee.Signature
	} else if c.IsInvoke() {
		sig = c.Method.Type().(*types.Signature)
	}
	st.emit("extern", name, site, nil, args...)
	if sig == nil {
		x.undecided(site, "external "+name)
		return single(st, mkApp("ext:"+name, args...))
	}
	pure := true
	for i := 0; i < sig.Params().Len(); i++ {
		if isRefType(sig.Params().At(i).Type()) {
			pure = false
		}
	}
	if !pure {
		x.undecided(site, "external "+name+" is not modelled")
	}
	return x.opaque(st, site, "ext:"+name, sig, args, args)
}

func derefT(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func bufCell(st *State, p *Term) *Term {
	c := st.cont(p.obj)
	if c == nil {
		return nil
	}
	return c.val
}

func bufContent(st *State, p *Term) *Term {
	v := bufCell(st, p)
	if v == nil {
		return emptyBytes
	}
	if v.op == OApp && v.s == "enc" {
		return v.args[0]
	}
	return contentTerm(st, v)
}

// decoded is the value of type t decoded from src: field by field.
func decoded(src *Term, t types.Type) *Term {
	if u, ok := t.Underlying().(*types.Struct); ok {
		as := make([]*Term, u.NumFields())
		for i := range as {
			as[i] = mkApp("decoded:"+u.Field(i).Name(), src)
		}
		return mkStruct(as)
	}
	return mkApp("decoded", src)
}

// mkCmp is the sign of the bytewise comparison.
func mkCmp(a, b *Term) *Term {
	if a == b {
		return tZero
	}
	if a.id > b.id {
		return mulc(mkApp("cmp", b, a), -1)
	}
	return mkApp("cmp", a, b)
}

// protoModel abstracts the generated message code.
func protoModel(x *Interp, st *State, site ssa.Instruction, callee *ssa.Function, args []*Term) []*Outcome {
	if callee.Pkg == nil || callee.Pkg.Pkg.Path() != pkgProto {
		return nil
	}
	n := recvNamed(callee)
	if n == nil || n.Obj().Name() == "BytesView" {
		return nil
	}
	nm := n.Obj().Name() + "." + callee.Name()
	switch callee.Name() {
	case "Unmarshal":
		if args[0].op != OPtr {
			return nil
		}
		src := contentTerm(st, args[1])
		x.checkLive(st, site, args[1], "decodes")
		r := mkApp("decerr", src)
		st.emit("decode", nm, site, r, src)
		su, ok := n.Underlying().(*types.Struct)
		if !ok {
			return nil
		}
		for i := 0; i < su.NumFields(); i++ {
			f := su.Field(i)
			ss := append(args[0].sels[:len(args[0].sels):len(args[0].sels)], Sel{Field: i})
			if bn, ok := f.Type().(*types.Named); ok && bn.Obj().Name() == "BytesView" {
				// the customtype decides itself whether it refers to or copies the input
				m := x.P.method(pkgProto, "BytesView", "Unmarshal")
				if m == nil {
					x.undecided(site, "BytesView.Unmarshal not found")
					continue
				}
				o, off, _, ep := sliceParts(args[1])
				binOff, binLen := mkApp("pbinoff", src), mkApp("pbinlen", src)
				in := tNil
				if o != nil {
					in = mkSlice(o, add(off, binOff), binLen, ep)
				}
				outs := x.runFn(m, []*Term{mkPtr(args[0].obj, ss), in}, nil, st)
				if len(outs) != 1 || outs[0].panics {
					x.undecided(site, "BytesView.Unmarshal has several outcomes")
					continue
				}
				if len(outs[0].ret) == 1 && outs[0].ret[0] != tNil {
					x.report("bytesview", st, site, "BytesView.Unmarshal reports an error for every input")
				}
				*st = *outs[0].st
				continue
			}
			if _, ok := f.Type().Underlying().(*types.Slice); ok {
				o := extObj("pb", mkApp("pbslice:"+f.Name(), src))
				o.typ = f.Type()
				st.storeCell(args[0].obj, ss, mkSlice(o, tZero, mkApp("count", mkApp("pbslice:"+f.Name(), src)), 0))
				continue
			}
			st.storeCell(args[0].obj, ss, mkApp("decoded:"+f.Name(), src))
		}
		return single(st, r)
	case "Size":
		v := x.load(st, site, args[0], derefT(callee.Signature.Recv().Type()))
		return single(st, mkApp("pbsize:"+n.Obj().Name(), deepValue(st, v, derefT(callee.Signature.Recv().Type()), 0)))
	case "MarshalTo", "MarshalToSizedBuffer":
		v := x.load(st, site, args[0], derefT(callee.Signature.Recv().Type()))
		dv := deepValue(st, v, derefT(callee.Signature.Recv().Type()), 0)
		enc := mkApp("pbenc:"+n.Obj().Name(), dv)
		sz := mkApp("pbsize:"+n.Obj().Name(), dv)
		o, off, _, _ := sliceParts(args[1])
		if o != nil {
			x.checkLive(st, site, args[1], "encodes into")
			x.noteWrite(st, site, o)
			st.storeCopy(o, off, sz, extObj("enc", enc), nil, tZero)
		}
		st.emit("encode", nm, site, nil, dv)
		return single(st, sz, mkApp("encerr", enc))
	case "Reset":
		return nil
	}
	return nil
}

// deepValue replaces slices inside an encoded value by what they hold.
func deepValue(st *State, v *Term, t types.Type, depth int) *Term {
	if depth > 3 {
		return v
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		as := make([]*Term, u.NumFields())
		for i := range as {
			as[i] = deepValue(st, proj(v, i), u.Field(i).Type(), depth+1)
		}
		return mkStruct(as)
	case *types.Slice:
		if isByteSlice(t) {
			return contentTerm(st, v)
		}
		o, off, ln, _ := sliceParts(v)
		if o == nil {
			return mkApp("list")
		}
		if ln.op == OConst && ln.i <= 8 {
			var as []*Term
			for j := int64(0); j < ln.i; j++ {
				as = append(as, deepValue(st, st.loadCell(o, []Sel{{Field: -1, Idx: addc(off, j)}}, u.Elem()), u.Elem(), depth+1))
			}
			return mkApp("list", as...)
		}
		return intern(&Term{op: OApp, s: "elems", obj: o, content: st.cont(o), args: []*Term{off, ln}})
	}
	return v
}
