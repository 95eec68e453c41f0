package main

import (
	"time"

	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Config selects the abstraction level of one analysis.
type Config struct {
	Name      string
	Prims     map[string]Prim          // operations taken as abstract transformers
	Boundary  func(*ssa.Function) bool // calls summarised by their effects
	ForkIndex bool                     // split paths on undecided index equalities
	InitCell  func(s *State, o *Obj, sels []Sel, typ types.Type) *Term
	InitInt   func(s *State, o *Obj, off *Term, width int64) *Term
	Relate    func(s *State, a, b *Term) int   // addresses: 1 same, -1 distinct, 0 unknown
	Refine    func(s *State, a, b *Term) *Term // what to split on to relate two addresses
	Bounds    bool                             // report every index and slice expression not known to be in range
	Ranges    func(s *State, c *Term) bool     // whether a violated condition on an index is to be reported
	PageObj   bool                             // pages carry element sequences
	NoMerge   bool                             // paths with equal states and different facts are kept apart
	MaxPaths  int
	OnCall    func(x *Interp, st *State, c *ssa.CallCommon, callee *ssa.Function, args []*Term)
}

// Prim is an abstract transformer; it may panic(forkOn) before changing the state.
type Prim func(x *Interp, st *State, site ssa.Instruction, args []*Term, rt types.Type) *Term

type Finding struct {
	Kind string
	Fn   string
	Pos  token.Pos
	Msg  string
	Path string
}

type Interp struct {
	P        *Program
	cfg      *Config
	snaps    map[*Event][]*State // the states at calls taken by their effects
	snapKeys map[string]*State
	Findings map[string]*Finding
	Undec    map[string]*Finding
	stack    []*ssa.Function
	steps    int
	inlined  map[*ssa.Function]bool
	calls    int
	loops    int
	curPath  *path
	ks       []*Term // counters of the loops being executed
}

type path struct {
	st  *State
	env map[ssa.Value]*Term
	dfr []*ssa.Defer
}

type Outcome struct {
	st     *State
	ret    []*Term
	panics bool
	pval   *Term
}

type exitEdge struct {
	p    *path
	from *ssa.BasicBlock
	to   *ssa.BasicBlock // nil: function exit
	out  *Outcome
}

type LoopSum struct {
	id      string
	fn      *ssa.Function
	header  *ssa.BasicBlock
	k       *Term
	entry   map[string]*Term // phi name -> entry value
	start   map[string]*Term // phi name -> value at the start of iteration k
	iters   []*IterSum
	inval   bool
	exitsAt []*IterSum
	key     string
	at      *State // the start of iteration k
}

type IterSum struct {
	facts []*Term
	log   *Event
	next  map[string]*Term
	st    *State
	env   map[ssa.Value]*Term

	settled *Term // the number of the last iteration, where the exit fixes it
}

func newInterp(P *Program, cfg *Config) *Interp {
	if cfg.MaxPaths == 0 {
		cfg.MaxPaths = 4000
	}
	return &Interp{P: P, cfg: cfg, Findings: map[string]*Finding{}, Undec: map[string]*Finding{}, inlined: map[*ssa.Function]bool{}}
}

type tooComplex struct{ msg string }

func (x *Interp) report(kind string, st *State, site ssa.Instruction, msg string) {
	fn, pos := "?", token.NoPos
	if site != nil {
		if site.Parent() != nil {
			fn = shortName(site.Parent())
		}
		pos = site.Pos()
		if pos == token.NoPos {
			pos = nearPos(site)
		}
	}
	k := fmt.Sprintf("%s|%s|%d|%s", kind, fn, pos, msg)
	if x.Findings[k] == nil {
		x.Findings[k] = &Finding{Kind: kind, Fn: fn, Pos: pos, Msg: msg, Path: x.where()}
	}
}

func (x *Interp) undecided(site ssa.Instruction, msg string) {
	fn, pos := "?", token.NoPos
	if site != nil && site.Parent() != nil {
		fn = shortName(site.Parent())
		pos = site.Pos()
		if pos == token.NoPos {
			pos = nearPos(site)
		}
	}
	k := fmt.Sprintf("%s|%d|%s", fn, pos, msg)
	if x.Undec[k] == nil {
		x.Undec[k] = &Finding{Kind: "undecided", Fn: fn, Pos: pos, Msg: msg, Path: x.where()}
	}
}

func (x *Interp) where() string {
	var p []string
	for _, f := range x.stack {
		p = append(p, shortName(f))
	}
	return strings.Join(p, " > ")
}

func nearPos(in ssa.Instruction) token.Pos {
	b := in.Block()
	if b == nil {
		return token.NoPos
	}
	at := -1
	for i, y := range b.Instrs {
		if y == in {
			at = i
		}
	}
	for i := at; i >= 0; i-- {
		if p := b.Instrs[i].Pos(); p != token.NoPos {
			return p
		}
	}
	if in.Parent() != nil {
		return in.Parent().Pos()
	}
	return token.NoPos
}

// ---- function ----

func (x *Interp) runFn(fn *ssa.Function, args []*Term, free []*Term, st *State) []*Outcome {
	if len(x.stack) > 60 {
		panic(tooComplex{"call depth exceeded in " + x.where()})
	}
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	x.inlined[fn] = true
	env := map[ssa.Value]*Term{}
	for i, p := range fn.Params {
		env[p] = args[i]
	}
	for i, f := range fn.FreeVars {
		if i < len(free) {
			env[f] = free[i]
		}
	}
	all := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		all[b] = true
	}
	exits := x.runRegion(fn, all, nil, fn.Blocks[0], []*path{{st: st, env: env}})
	var outs []*Outcome
	for _, e := range exits {
		if e.out != nil {
			outs = append(outs, e.out)
		}
	}
	return x.mergeOutcomes(outs)
}

type fnInfo struct {
	rpo  map[*ssa.BasicBlock]int
	live map[*ssa.BasicBlock]map[ssa.Value]bool
}

var fnInfos = map[*ssa.Function]*fnInfo{}

func infoOf(fn *ssa.Function) *fnInfo {
	if i, ok := fnInfos[fn]; ok {
		return i
	}
	i := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, live: map[*ssa.BasicBlock]map[ssa.Value]bool{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for _, s := range b.Succs {
			if !seen[s] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for n, b := range post {
		i.rpo[b] = len(post) - 1 - n
	}
	// liveness at block start, after its phis
	for _, b := range fn.Blocks {
		i.live[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for _, b := range post {
			l := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range i.live[s] {
					l[v] = true
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(l, ph)
					for n, p := range s.Preds {
						if p == b {
							l[ph.Edges[n]] = true
						}
					}
				}
			}
			for n := len(b.Instrs) - 1; n >= 0; n-- {
				in := b.Instrs[n]
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				if v, ok := in.(ssa.Value); ok {
					delete(l, v)
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						l[*op] = true
					}
				}
			}
			if len(l) != len(i.live[b]) {
				i.live[b] = l
				ch = true
			}
		}
	}
	fnInfos[fn] = i
	return i
}

// runRegion executes the blocks of a region (a function or a loop body). header is
// the loop header when the region is a loop: edges to it are returned as exits.
func (x *Interp) runRegion(fn *ssa.Function, region map[*ssa.BasicBlock]bool, header *ssa.BasicBlock, entry *ssa.BasicBlock, ps []*path) []exitEdge {
	info := infoOf(fn)
	loops, _ := loopsOf(fn)
	pending := map[*ssa.BasicBlock][]*path{entry: ps}
	first := true
	var exits []exitEdge
	for len(pending) > 0 {
		var b *ssa.BasicBlock
		for c := range pending {
			if b == nil || info.rpo[c] < info.rpo[b] {
				b = c
			}
		}
		paths := x.mergePaths(b, pending[b])
		delete(pending, b)
		var edges []exitEdge
		if L := loops[b]; L != nil && !(first && b == header) {
			for _, p := range paths {
				edges = append(edges, x.runLoop(fn, L, p)...)
			}
		} else {
			for _, p := range paths {
				edges = append(edges, x.runBlock(fn, b, p)...)
			}
		}
		first = false
		for _, e := range edges {
			if e.out != nil {
				exits = append(exits, e)
				continue
			}
			if !region[e.to] || e.to == header {
				exits = append(exits, e)
				continue
			}
			pending[e.to] = append(pending[e.to], e.p)
		}
		n := 0
		for _, p := range pending {
			n += len(p)
		}
		if n > x.cfg.MaxPaths {
			panic(tooComplex{fmt.Sprintf("more than %d paths in %s", x.cfg.MaxPaths, x.where())})
		}
	}
	return exits
}

// phis evaluates the phis of to for the edge from->to.
func (x *Interp) phis(p *path, from, to *ssa.BasicBlock) {
	var vals []*Term
	var ps []*ssa.Phi
	for _, in := range to.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for n, q := range to.Preds {
			if q == from {
				vals = append(vals, x.val(p, ph.Edges[n]))
				ps = append(ps, ph)
				break
			}
		}
	}
	for i, ph := range ps {
		p.env[ph] = vals[i]
	}
}

func (x *Interp) runBlock(fn *ssa.Function, b *ssa.BasicBlock, p *path) []exitEdge {
	start := 0
	for start < len(b.Instrs) {
		if _, ok := b.Instrs[start].(*ssa.Phi); !ok {
			break
		}
		start++
	}
	return x.runFrom(fn, b, start, p)
}

func (x *Interp) runFrom(fn *ssa.Function, b *ssa.BasicBlock, i int, p *path) []exitEdge {
	for ; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		x.steps++
		if x.steps > 6000000 {
			panic(tooComplex{"step limit in " + x.where()})
		}
		if x.steps%512 == 0 && !softDeadline.IsZero() && time.Now().After(softDeadline) {
			panic(tooComplex{"time limit in " + x.where()})
		}
		x.curPath = p
		switch t := in.(type) {
		case *ssa.Jump:
			to := b.Succs[0]
			x.phis(p, b, to)
			return []exitEdge{{p: p, from: b, to: to}}
		case *ssa.If:
			c := x.val(p, t.Cond)
			var out []exitEdge
			ps := []*path{p}
			if g := p.st.refine(c); g != nil {
				ps = nil
				for _, h := range []*Term{g, not(g)} {
					q := &path{st: p.st.clone(), env: cloneMap(p.env), dfr: p.dfr}
					q.st.assume(h)
					if q.st.dead {
						continue
					}
					if g2 := q.st.refine(c); g2 != nil {
						for _, h2 := range []*Term{g2, not(g2)} {
							q2 := &path{st: q.st.clone(), env: cloneMap(q.env), dfr: q.dfr}
							q2.st.assume(h2)
							if !q2.st.dead {
								ps = append(ps, q2)
							}
						}
						continue
					}
					ps = append(ps, q)
				}
			}
			for _, p := range ps {
				d := p.st.decide(c)
				if d >= 0 {
					q := p
					if d == 0 {
						q = &path{st: p.st.clone(), env: cloneMap(p.env), dfr: p.dfr}
						q.st.assume(c)
					}
					if !q.st.dead {
						x.phis(q, b, b.Succs[0])
						out = append(out, exitEdge{p: q, from: b, to: b.Succs[0]})
					}
				}
				if d <= 0 {
					q := p
					if d == 0 {
						q = &path{st: p.st.clone(), env: cloneMap(p.env), dfr: p.dfr}
						q.st.assume(not(c))
					}
					if !q.st.dead {
						x.phis(q, b, b.Succs[1])
						out = append(out, exitEdge{p: q, from: b, to: b.Succs[1]})
					}
				}
			}
			return out
		case *ssa.Return:
			rs := make([]*Term, len(t.Results))
			for j, r := range t.Results {
				rs[j] = x.val(p, r)
			}
			return []exitEdge{{out: &Outcome{st: p.st, ret: rs}}}
		case *ssa.Panic:
			v := x.val(p, t.X)
			return []exitEdge{{out: &Outcome{st: p.st, panics: true, pval: v}}}
		}
		outs := x.exec(fn, in, p)
		if len(outs) == 1 && outs[0].out == nil {
			p = outs[0].p
			continue
		}
		var edges []exitEdge
		for _, o := range outs {
			if o.out != nil {
				edges = append(edges, o)
			} else {
				edges = append(edges, x.runFrom(fn, b, i+1, o.p)...)
			}
		}
		return edges
	}
	return nil
}

// exec runs one instruction, splitting the path on demand.
func (x *Interp) exec(fn *ssa.Function, in ssa.Instruction, p *path) (res []exitEdge) {
	switch in.(type) {
	case *ssa.DebugRef:
		return []exitEdge{{p: p}}
	}
	needSnap := false
	switch in.(type) {
	case *ssa.Call, *ssa.Store, *ssa.UnOp, *ssa.Slice, *ssa.IndexAddr, *ssa.RunDefers:
		needSnap = true
	}
	var snap *path
	if needSnap {
		snap = &path{st: p.st.clone(), env: p.env, dfr: p.dfr}
	}
	var fork *forkOn
	func() {
		depth := len(x.stack)
		defer func() {
			if r := recover(); r != nil {
				if f, ok := r.(forkOn); ok && snap != nil {
					fork = &f
					x.stack = x.stack[:depth]
					return
				}
				panic(r)
			}
		}()
		res = x.exec1(fn, in, p)
	}()
	if fork == nil {
		return res
	}
	var out []exitEdge
	for _, c := range []*Term{fork.cond, not(fork.cond)} {
		q := &path{st: snap.st.clone(), env: cloneMap(snap.env), dfr: snap.dfr}
		q.st.assume(c)
		if q.st.dead {
			continue
		}
		out = append(out, x.exec(fn, in, q)...)
	}
	return out
}

func (x *Interp) val(p *path, v ssa.Value) *Term {
	switch t := v.(type) {
	case *ssa.Const:
		return constTerm(t)
	case *ssa.Global:
		return mkPtr(globalObj(t), nil)
	case *ssa.Function:
		return intern(&Term{op: OClosure, fn: t})
	case *ssa.Builtin:
		return mkSym("builtin "+t.Name(), nil)
	}
	if r, ok := p.env[v]; ok {
		return r
	}
	panic(tooComplex{fmt.Sprintf("no value for %s in %s", v.Name(), x.where())})
}

func globalObj(g *ssa.Global) *Obj {
	o := getObj(ObjGlobal, g.String(), g.Name())
	o.typ = g.Type()
	return o
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		return zeroOf(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.Int:
		if b, ok := c.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsFloat != 0 {
			return intern(&Term{op: OFloat, s: c.Value.ExactString()})
		}
		if i, ok := constant.Int64Val(c.Value); ok {
			return mkInt(i)
		}
		if u, ok := constant.Uint64Val(c.Value); ok {
			return mkInt(int64(u)) // two's complement
		}
	case constant.String:
		return intern(&Term{op: OStr, s: constant.StringVal(c.Value)})
	case constant.Float:
		return intern(&Term{op: OFloat, s: c.Value.ExactString()})
	}
	return mkApp("const", mkSym(c.Value.ExactString(), c.Type()))
}

func one(p *path) []exitEdge { return []exitEdge{{p: p}} }

func (x *Interp) exec1(fn *ssa.Function, in ssa.Instruction, p *path) []exitEdge {
	st := p.st
	set := func(v ssa.Value, t *Term) []exitEdge {
		p.env[v] = t
		return one(p)
	}
	switch t := in.(type) {
	case *ssa.Alloc:
		nm := st.fresh(fmt.Sprintf("%s.%s@%d", shortName(fn), t.Name(), t.Pos()))
		cm := t.Comment
		if cm == "" {
			cm = t.Name()
		}
		o := localObj(nm, cm, t.Type(), x.ks)
		return set(t, mkPtr(o, nil))
	case *ssa.BinOp:
		return set(t, x.binop(t, x.val(p, t.X), x.val(p, t.Y)))
	case *ssa.UnOp:
		a := x.val(p, t.X)
		switch t.Op {
		case token.MUL:
			return set(t, x.load(st, t, a, t.Type()))
		case token.NOT:
			return set(t, not(a))
		case token.SUB:
			if isFloat(t.Type()) {
				return set(t, mkApp("fneg", a))
			}
			return set(t, mulc(a, -1))
		case token.XOR:
			if a.op == OConst {
				return set(t, mkInt(^a.i))
			}
			return set(t, mkApp("^", a))
		}
	case *ssa.Store:
		x.store(st, t, x.val(p, t.Addr), x.val(p, t.Val), t.Val.Type())
		return one(p)
	case *ssa.FieldAddr:
		a := x.val(p, t.X)
		o, ss := x.ptrParts(st, t, a)
		f := t.Field
		if pt, ok := t.X.Type().Underlying().(*types.Pointer); ok {
			if n, ok := pt.Elem().(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "reflect" && n.Obj().Name() == "SliceHeader" {
				f += 1000
			}
			if o.typ == nil {
				o.typ = t.X.Type()
			}
		}
		return set(t, mkPtr(o, append(ss[:len(ss):len(ss)], Sel{Field: f})))
	case *ssa.Field:
		return set(t, proj(x.val(p, t.X), t.Field))
	case *ssa.IndexAddr:
		a := x.val(p, t.X)
		ix := x.val(p, t.Index)
		if _, ok := t.X.Type().Underlying().(*types.Pointer); ok { // *array
			o, ss := x.ptrParts(st, t, a)
			return set(t, mkPtr(o, append(ss[:len(ss):len(ss)], Sel{Field: -1, Idx: ix})))
		}
		o, off, ln, _ := sliceParts(a)
		if o == nil {
			// indexing nil panics
			st.dead = true
			return nil
		}
		x.checkLive(st, t, a, "element of")
		if x.cfg.Ranges != nil && !st.dead && (st.decide(le(tZero, ix)) == -1 || st.decide(lt(ix, ln)) == -1) {
			x.report("range", st, t, "an index is out of range: "+ix.String())
		}
		x.bound(st, t, le(tZero, ix))
		x.bound(st, t, lt(ix, ln))
		if st.dead {
			return nil
		}
		if o.typ == nil {
			o.typ = t.X.Type()
		}
		return set(t, mkPtr(o, []Sel{{Field: -1, Idx: add(off, ix)}}))
	case *ssa.Index:
		return set(t, mkApp("at", x.val(p, t.X), x.val(p, t.Index)))
	case *ssa.Slice:
		return x.slice(st, t, p)
	case *ssa.MakeSlice:
		n := x.val(p, t.Len)
		nm := st.fresh(fmt.Sprintf("%s.make@%d", shortName(fn), t.Pos()))
		o := localObj(nm, "make", t.Type(), x.ks)
		return set(t, intern(&Term{op: OSlice, obj: o, args: []*Term{tZero, n}}))
	case *ssa.MakeInterface:
		return set(t, intern(&Term{op: OIface, s: t.X.Type().String(), typ: t.X.Type(), args: []*Term{x.val(p, t.X)}}))
	case *ssa.ChangeInterface:
		return set(t, x.val(p, t.X))
	case *ssa.ChangeType:
		return set(t, x.val(p, t.X))
	case *ssa.Convert:
		return set(t, x.convert(st, t, x.val(p, t.X)))
	case *ssa.Extract:
		return set(t, proj(x.val(p, t.Tuple), t.Index))
	case *ssa.Phi:
		return one(p)
	case *ssa.TypeAssert:
		a := x.val(p, t.X)
		if a.op == OIface && types.Identical(a.typ, t.AssertedType) {
			if t.CommaOk {
				return set(t, mkTuple([]*Term{a.args[0], tTrue}))
			}
			return set(t, a.args[0])
		}
		r := mkApp("assert:"+t.AssertedType.String(), a)
		if t.CommaOk {
			return set(t, mkTuple([]*Term{r, mkApp("assertok:"+t.AssertedType.String(), a)}))
		}
		return set(t, r)
	case *ssa.MakeClosure:
		var as []*Term
		for _, b := range t.Bindings {
			as = append(as, x.val(p, b))
		}
		return set(t, intern(&Term{op: OClosure, fn: t.Fn, args: as}))
	case *ssa.Call:
		return x.call(fn, t, p)
	case *ssa.Defer:
		p.dfr = append(p.dfr[:len(p.dfr):len(p.dfr)], t)
		for _, a := range t.Call.Args { // arguments are evaluated now
			x.val(p, a)
		}
		return one(p)
	case *ssa.RunDefers:
		if len(p.dfr) == 0 {
			return one(p)
		}
		paths := []*path{p}
		for i := len(p.dfr) - 1; i >= 0; i-- {
			d := p.dfr[i]
			var next []*path
			for _, q := range paths {
				var args []*Term
				for _, a := range d.Call.Args {
					args = append(args, x.val(q, a))
				}
				for _, o := range x.invoke(d, &d.Call, args, q) {
					if !o.panics {
						next = append(next, &path{st: o.st, env: cloneMap(q.env)})
					}
				}
			}
			paths = next
		}
		var es []exitEdge
		for _, q := range paths {
			es = append(es, exitEdge{p: q})
		}
		return es
	case *ssa.DebugRef:
		return one(p)
	}
	if v, ok := in.(ssa.Value); ok {
		x.undecided(in, fmt.Sprintf("instruction %T is not modelled", in))
		return set(v, mkSym(st.fresh("unmodelled"), v.Type()))
	}
	x.undecided(in, fmt.Sprintf("instruction %T is not modelled", in))
	return one(p)
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (x *Interp) binop(t *ssa.BinOp, a, b *Term) *Term {
	ty := t.X.Type()
	if isFloat(ty) {
		switch t.Op {
		case token.LSS:
			return intern(&Term{op: OFcmp, s: "<", args: []*Term{a, b}})
		case token.LEQ:
			return intern(&Term{op: OFcmp, s: "<=", args: []*Term{a, b}})
		case token.GTR:
			return intern(&Term{op: OFcmp, s: "<", args: []*Term{b, a}})
		case token.GEQ:
			return intern(&Term{op: OFcmp, s: "<=", args: []*Term{b, a}})
		}
		return intern(&Term{op: OFop, s: t.Op.String(), args: []*Term{a, b}})
	}
	integer := isInteger(ty)
	if basic, ok := ty.Underlying().(*types.Basic); ok && basic.Kind() == types.Uintptr {
		integer = false
		if t.Op == token.EQL {
			return eqTerm(a, b)
		}
		if t.Op == token.NEQ {
			return not(eqTerm(a, b))
		}
	}
	if integer {
		switch t.Op {
		case token.ADD:
			return add(a, b)
		case token.SUB:
			return sub(a, b)
		case token.MUL:
			return mul(a, b)
		case token.QUO:
			return quo(a, b)
		case token.REM:
			return rem(a, b)
		case token.AND:
			return band(a, b)
		case token.OR:
			return bor(a, b)
		case token.XOR:
			return bxor(a, b)
		case token.AND_NOT:
			return andnot(a, b)
		case token.SHL:
			return shl(a, b)
		case token.SHR:
			return shr(a, b)
		case token.LSS:
			return lt(a, b)
		case token.LEQ:
			return le(a, b)
		case token.GTR:
			return lt(b, a)
		case token.GEQ:
			return le(b, a)
		case token.EQL:
			return eqInt(a, b)
		case token.NEQ:
			return not(eqInt(a, b))
		}
	}
	switch t.Op {
	case token.EQL:
		return eqTerm(a, b)
	case token.NEQ:
		return not(eqTerm(a, b))
	case token.ADD:
		return mkApp("concat", a, b)
	}
	return mkApp("op"+t.Op.String(), a, b)
}

func (x *Interp) convert(st *State, t *ssa.Convert, a *Term) *Term {
	to := t.Type().Underlying()
	from := t.X.Type().Underlying()
	tb, ok1 := to.(*types.Basic)
	fb, ok2 := from.(*types.Basic)
	if ok1 && ok2 {
		switch {
		case tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsInteger != 0:
			return narrow(a, tb.Kind())
		case tb.Info()&types.IsFloat != 0 && fb.Info()&types.IsInteger != 0:
			return mkApp("f64", a)
		case tb.Info()&types.IsInteger != 0 && fb.Info()&types.IsFloat != 0:
			return mkApp("trunc", a)
		case tb.Info()&types.IsFloat != 0 && fb.Info()&types.IsFloat != 0:
			return a
		case tb.Kind() == types.UnsafePointer || fb.Kind() == types.UnsafePointer:
			return a
		case tb.Info()&types.IsString != 0:
			return mkApp("string", a)
		}
	}
	if ok1 && tb.Kind() == types.UnsafePointer || ok2 && fb.Kind() == types.UnsafePointer {
		return a
	}
	if ok1 && tb.Info()&types.IsString != 0 {
		return mkApp("string", contentTerm(st, a))
	}
	if ok2 && fb.Info()&types.IsString != 0 {
		return privateSlice("str", mkApp("strbytes", a))
	}
	return mkApp("convert:"+t.Type().String(), a)
}

func widthOf(k types.BasicKind) (int, bool) {
	switch k {
	case types.Int8, types.Uint8:
		return 8, true
	case types.Int16, types.Uint16:
		return 16, true
	case types.Int32, types.Uint32:
		return 32, true
	}
	return 64, false
}

func narrow(a *Term, k types.BasicKind) *Term {
	w, n := widthOf(k)
	if !n {
		return a
	}
	if a.op == OConst && a.i >= 0 && a.i < 1<<uint(w-1) {
		return a
	}
	// an integer read from w/8 bytes keeps its bits
	if a.op == OLoad && strings.HasSuffix(a.s, fmt.Sprint(w)) && a.s != "" {
		return a
	}
	if a.op == ONarrow {
		if a.s == fmt.Sprintf("narrow%d", w) {
			return a
		}
	}
	return intern(&Term{op: ONarrow, s: fmt.Sprintf("narrow%d", w), args: []*Term{a}})
}

func stripNarrow(a *Term, w int64) *Term {
	for a.op == ONarrow {
		var n int64
		fmt.Sscanf(a.s, "narrow%d", &n)
		if n < w {
			break
		}
		a = a.args[0]
	}
	return a
}

// ptrParts resolves a pointer to an object and an access path.
func (x *Interp) ptrParts(st *State, site ssa.Instruction, a *Term) (*Obj, []Sel) {
	switch a.op {
	case OPtr:
		return a.obj, a.sels
	case ONil:
		st.dead = true
		return getObj(ObjLocal, "nil", "nil"), nil
	}
	return symObj(a), nil
}

// checkLive reports dereferences of accessors which have been invalidated or whose page has changed.
func (x *Interp) checkLive(st *State, site ssa.Instruction, sl *Term, what string) {
	if sl.op == OSym || sl.op == OLoad || sl.op == OField || sl.op == OApp {
		x.checkObjLive(st, site, symObj(sl), 0, what)
		return
	}
	if sl.op != OSlice {
		return
	}
	x.checkObjLive(st, site, sl.obj, sl.i, what)
}

func (x *Interp) checkObjLive(st *State, site ssa.Instruction, o *Obj, epoch int64, what string) {
	if o.kind == ObjSym {
		for t := o.of; t != nil; t = symParent(t) {
			for _, src := range st.derived[t] {
				x.checkLive(st, site, src, what+" (through "+t.String()+")")
			}
		}
		return
	}
	if o.kind != ObjView {
		return
	}
	if epoch != st.epoch {
		x.report("stale", st, site, fmt.Sprintf("%s an accessor of %s obtained before a later space allocation/release", what, o))
	}
	if o.part != nil && o.seqAt != nil && st.seq[o.part] != o.seqAt {
		x.report("moved", st, site, fmt.Sprintf("%s a slice into page %s taken before the page was modified", what, o.part))
	}
	if o.addr != nil && st.fset[mkApp("freed", o.addr)] {
		x.report("uaf", st, site, fmt.Sprintf("%s space %s after it was released", what, o.addr))
	}
}

func (x *Interp) load(st *State, site ssa.Instruction, a *Term, typ types.Type) *Term {
	o, ss := x.ptrParts(st, site, a)
	if st.dead {
		return zeroOf(typ)
	}
	if b, ok := typ.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && len(ss) == 1 && ss[0].Field < 0 {
		return st.readInt(o, st.cont(o), ss[0].Idx, 1, "b")
	}
	return st.loadCell(o, ss, typ)
}

func (x *Interp) store(st *State, site ssa.Instruction, a, v *Term, typ types.Type) {
	o, ss := x.ptrParts(st, site, a)
	if st.dead {
		return
	}
	if b, ok := typ.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 && len(ss) == 1 && ss[0].Field < 0 {
		x.noteWrite(st, site, o)
		st.storeInt(o, ss[0].Idx, 1, "b", v)
		return
	}
	if o.kind == ObjSym && len(ss) > 0 && ss[0].Field < 0 {
		x.noteWrite(st, site, o)
	}
	if o.kind == ObjGlobal {
		st.emit("globalwrite", o.name, site, nil, v)
	}
	st.storeCell(o, ss, v)
}

// noteWrite records writes into buffers which are not ours.
func (x *Interp) noteWrite(st *State, site ssa.Instruction, o *Obj) {
	if o.kind == ObjSym && o.of != nil {
		if r := callerBuffer(o.of); r != "" {
			x.report("callerwrite", st, site, "writes into the buffer given by the caller as "+r)
		}
	}
	if o.kind == ObjGlobal || o.kind == ObjSym && o.of.op == OLoad && o.of.obj.kind == ObjGlobal {
		x.report("globalwrite", st, site, "writes into a package-level buffer")
	}
	if k := keptBytes(x.rootFn(), o); k != "" {
		x.report("keptwrite", st, site, k)
	}
}

// rootFn is the function being analysed.
func (x *Interp) rootFn() *ssa.Function {
	if len(x.stack) == 0 {
		return nil
	}
	return x.stack[0]
}

// keptBytes: the object is a byte buffer kept in a handle, cursor or iterator, or at package
// level; the result names the kind of thing that keeps it.
func keptBytes(f *ssa.Function, o *Obj) string {
	if o == nil {
		return ""
	}
	if o.kind == ObjGlobal {
		return "package"
	}
	if o.kind == ObjSym && o.of != nil {
		for r := o.of; r != nil; r = symParent(r) {
			if r.op == OApp && strings.HasPrefix(r.s, "assert:") && r.args[0].op == OSym && strings.HasPrefix(r.args[0].s, "pool:") {
				return "package"
			}
		}
	}
	if o.kind != ObjSym || o.of == nil || o.of.typ == nil || !isByteSlice(o.of.typ) || o.of.op != OLoad && o.of.op != OField {
		return ""
	}
	r := o.of
	for {
		if r.op == OLoad && r.obj != nil && r.obj.kind == ObjGlobal {
			return "package"
		}
		p := symParent(r)
		if p == nil {
			break
		}
		r = p
	}
	return keeper(f, r)
}

// keeper names the kind of thing a root symbol stands for.
func keeper(f *ssa.Function, r *Term) string {
	if r.op != OSym || callerBuffer(r) != "" || f == nil {
		return ""
	}
	var n *types.Named
	for _, p := range f.Params {
		if p.Name() == r.s {
			n, _ = derefT(p.Type()).(*types.Named)
		}
	}
	if n == nil || n.Obj().Pkg() == nil {
		return ""
	}
	switch nm := strings.ToLower(n.Obj().Name()); {
	case strings.Contains(nm, "cursor"):
		return "cursor"
	case strings.Contains(nm, "iterator"):
		return "iterator"
	}
	return "dictionary"
}

// callerBuffer: the symbol is a read-only buffer of the caller.
func callerBuffer(t *Term) string {
	if t != nil && t.op == OSym && strings.HasPrefix(t.s, "caller:") {
		return strings.TrimPrefix(t.s, "caller:")
	}
	return ""
}

// bound: the expression panics unless the condition holds.
func (x *Interp) bound(st *State, site ssa.Instruction, c *Term) {
	if x.cfg.Bounds && !st.dead && st.decide(c) != 1 {
		x.report("bounds", st, site, "an index or slice may be out of range: "+c.String()+" is not assured")
	}
	st.assume(c)
}

func (x *Interp) slice(st *State, t *ssa.Slice, p *path) []exitEdge {
	a := x.val(p, t.X)
	lo := tZero
	if t.Low != nil {
		lo = x.val(p, t.Low)
	}
	if _, ok := t.X.Type().Underlying().(*types.Pointer); ok { // *array
		o, ss := x.ptrParts(st, t, a)
		ar := t.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array)
		hi := mkInt(ar.Len())
		if t.High != nil {
			hi = x.val(p, t.High)
		}
		if len(ss) > 0 {
			x.undecided(t, "slice of an embedded array")
		}
		p.env[t] = intern(&Term{op: OSlice, obj: o, args: []*Term{lo, sub(hi, lo)}})
		return one(p)
	}
	if b, ok := t.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		args := []*Term{a, lo}
		if t.High != nil {
			args = append(args, x.val(p, t.High))
		}
		p.env[t] = mkApp("substr", args...)
		return one(p)
	}
	o, off, ln, ep := sliceParts(a)
	hi := ln
	if t.High != nil {
		hi = x.val(p, t.High)
		x.bound(st, t, le(lo, hi))
		x.bound(st, t, le(tZero, hi))
		if x.cfg.Bounds && !st.dead && st.decide(lt(ln, hi)) == 1 && o != nil && o.kind == ObjView {
			x.report("bounds", st, t, "a slice ends beyond the space: "+hi.String()+" > "+ln.String())
		}
	} else {
		x.bound(st, t, le(lo, ln))
	}
	x.bound(st, t, le(tZero, lo))
	if st.dead {
		return nil
	}
	if o == nil {
		p.env[t] = tNil
		return one(p)
	}
	p.env[t] = mkSlice(o, add(off, lo), sub(hi, lo), ep)
	return one(p)
}

// ---- merging ----

func (x *Interp) mergePaths(b *ssa.BasicBlock, ps []*path) []*path {
	if len(ps) < 2 {
		return ps
	}
	fn := b.Parent()
	live := infoOf(fn).live[b]
	var lv []ssa.Value
	for v := range live {
		lv = append(lv, v)
	}
	for _, in := range b.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		lv = append(lv, ph)
	}
	sort.Slice(lv, func(i, j int) bool { return lv[i].Name() < lv[j].Name() })
	groups := map[string]*path{}
	var keys []string
	for _, p := range ps {
		var roots []*Term
		var sb strings.Builder
		for _, v := range lv {
			t, ok := p.env[v]
			if ok {
				fmt.Fprintf(&sb, "%s=%d;", v.Name(), t.id)
				roots = append(roots, t)
			}
		}
		fmt.Fprintf(&sb, "d%d;", len(p.dfr))
		// callers' environments hold no local of this frame; the whole memory is compared
		k := sb.String() + stateKey(p.st, nil)
		if x.cfg.NoMerge {
			k += factKey(p.st)
		}
		if g, ok := groups[k]; ok {
			joinFacts(g.st, p.st)
		} else {
			groups[k] = &path{st: p.st, env: p.env, dfr: p.dfr}
			keys = append(keys, k)
		}
	}
	var out []*path
	for _, k := range keys {
		out = append(out, groups[k])
	}
	return out
}

func factKey(s *State) string {
	var ids []int
	for _, f := range s.facts {
		ids = append(ids, f.id)
	}
	sort.Ints(ids)
	return fmt.Sprint("|", ids)
}

func stateKey(s *State, keep map[*Obj]bool) string {
	var sb strings.Builder
	var ms []string
	for o, c := range s.mem {
		if keep != nil && o.kind == ObjLocal && !keep[o] {
			continue
		}
		if c != nil {
			ms = append(ms, fmt.Sprintf("%d:%d", o.id, c.id))
		}
	}
	sort.Strings(ms)
	sb.WriteString(strings.Join(ms, ","))
	ms = nil
	for o, q := range s.seq {
		ms = append(ms, fmt.Sprintf("%d:%d", o.id, q.id))
	}
	sort.Strings(ms)
	sb.WriteString("|" + strings.Join(ms, ","))
	l := -1
	if s.log != nil {
		l = s.log.id
	}
	fmt.Fprintf(&sb, "|%d|%d|", l, s.epoch)
	vs := append([]*Term{}, s.views...)
	sortTerms(vs)
	for _, v := range vs {
		fmt.Fprintf(&sb, "v%d", v.id)
	}
	ms = nil
	for a, b := range s.same {
		ms = append(ms, fmt.Sprintf("%d~%d", a.id, b.id))
	}
	sort.Strings(ms)
	sb.WriteString(strings.Join(ms, ","))
	return sb.String()
}

// joinFacts keeps the facts both states have (g absorbs o).
func joinFacts(g, o *State) {
	n := g.facts[:0:0]
	fs := map[*Term]bool{}
	add := func(f *Term) {
		if !fs[f] {
			fs[f] = true
			n = append(n, f)
		}
	}
	for _, f := range g.facts {
		if o.fset[f] || (f.op == OLE0 || f.op == OEQ0) && o.decide(f) == 1 {
			add(f)
		}
	}
	for _, f := range o.facts {
		if (f.op == OLE0 || f.op == OEQ0) && !fs[f] && g.decide(f) == 1 {
			add(f)
		}
	}
	g.facts, g.fset = n, fs
	for k, v := range o.cnt {
		if g.cnt[k] < v {
			g.cnt[k] = v
		}
	}
}

func (x *Interp) mergeOutcomes(outs []*Outcome) []*Outcome {
	if len(outs) < 2 {
		return outs
	}
	groups := map[string]*Outcome{}
	var keys []string
	for _, o := range outs {
		var sb strings.Builder
		for _, r := range o.ret {
			fmt.Fprintf(&sb, "%d,", r.id)
		}
		fmt.Fprintf(&sb, "p%v%d;", o.panics, tid(o.pval))
		k := sb.String() + stateKey(o.st, nil)
		if x.cfg.NoMerge {
			k += factKey(o.st)
		}
		if g, ok := groups[k]; ok {
			joinFacts(g.st, o.st)
		} else {
			groups[k] = o
			keys = append(keys, k)
		}
	}
	var out []*Outcome
	for _, k := range keys {
		out = append(out, groups[k])
	}
	return out
}

// gcLocals forgets the locals of a finished call which nothing can reach any more.
func gcLocals(st *State, created func(*Obj) bool, roots []*Term) {
	keep := map[*Obj]bool{}
	seenT := map[*Term]bool{}
	var visitT func(t *Term)
	var visitO func(o *Obj)
	var visitC func(c *Content)
	seenC := map[*Content]bool{}
	visitT = func(t *Term) {
		if t == nil || seenT[t] {
			return
		}
		seenT[t] = true
		for _, a := range t.args {
			visitT(a)
		}
		for _, s := range t.sels {
			visitT(s.Idx)
		}
		if t.obj != nil {
			visitO(t.obj)
		}
		if t.content != nil {
			visitC(t.content)
		}
	}
	visitC = func(c *Content) {
		for ; c != nil && !seenC[c]; c = c.parent {
			seenC[c] = true
			visitT(c.val)
			if c.src != nil {
				visitO(c.src)
				visitC(c.srcC)
			}
			for _, q := range c.quant {
				visitC(q)
			}
			for _, v := range c.vals {
				visitT(v)
			}
		}
	}
	visitO = func(o *Obj) {
		if keep[o] {
			return
		}
		keep[o] = true
		if c := st.mem[o]; c != nil {
			visitC(c)
		}
		visitT(o.tag)
		visitT(o.addr)
		visitT(o.of)
	}
	for _, r := range roots {
		visitT(r)
	}
	for o := range st.mem {
		if !created(o) {
			visitO(o)
		}
	}
	for o := range st.mem {
		if created(o) && !keep[o] {
			delete(st.mem, o)
		}
	}
}
