package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// apiRuns are the analyses of the exported operations.
func apiRuns(P *Program) []*Run {
	var rs []*Run
	pr := prims(P)
	for _, f := range P.Funcs {
		o := f.Object()
		if o == nil || !o.Exported() || f.Parent() != nil || f.Pkg.Pkg.Path() == pkgProto || f.Synthetic != "" {
			continue
		}
		if pr[f.String()] != nil || isPageMethod(f) && !isIterMethod(P, f) {
			continue
		}
		rs = append(rs, P.analyse(cfgAPI(P), f, nil))
	}
	return rs
}

// readAllRuns are the analyses of the decoders whose results the exported operations hand out.
func readAllRuns(P *Program) []*Run {
	var rs []*Run
	pr := prims(P)
	for _, f := range P.Funcs {
		if pr[f.String()] != nil && strings.HasPrefix(f.Name(), "Read") && strings.HasSuffix(f.Name(), "All") {
			rs = append(rs, P.analyse(cfgCodec(P), f, nil))
		}
	}
	return rs
}

// isIterMethod: a method which implements the exported Iterator interface.
func isIterMethod(P *Program, f *ssa.Function) bool {
	n := recvNamed(f)
	return n != nil && f.Pkg.Pkg.Path() == pkgBPTree && strings.Contains(strings.ToLower(n.Obj().Name()), "iterator")
}

func describeRef(t *Term) string {
	if r := callerBuffer(t); r != "" {
		return "the buffer the caller gave as " + r
	}
	return "the file space (" + t.obj.String() + ")"
}

// ruleNoLeak: results and retained state refer neither to the file space nor to buffers of the caller.
func ruleNoLeak(P *Program, r *Report) {
	for _, run := range append(apiRuns(P), readAllRuns(P)...) {
		if !r.usable(run) {
			continue
		}
		for _, o := range run.outs {
			if o.panics || o.st.dead {
				continue
			}
			good := true
			for i, v := range o.ret {
				if !refInside(run.fn.Signature.Results().At(i).Type(), 0) {
					continue
				}
				for _, s := range o.st.liveSources(v) {
					good = false
					r.bad("result", shortName(run.fn), run.fn.Pos(), fmt.Sprintf("result %d refers to %s instead of a copy", i, describeRef(s)), run.name)
				}
			}
			for ob := range o.st.mem {
				if ob.kind == ObjGlobal || ob.kind == ObjSym && callerBuffer(ob.of) == "" && symRoot(ob.of).op != OApp {
					for _, s := range o.st.objSources(ob) {
						good = false
						r.bad("retained", shortName(run.fn), run.fn.Pos(), fmt.Sprintf("keeps a reference to %s after returning", describeRef(s)), run.name)
					}
				}
			}
			if good {
				r.ok("private", fmt.Sprintf("%s: %d results", run.name, len(o.ret)))
			}
		}
	}
}

// objSources: accessors and caller buffers reachable from what was written to an object.
func (st *State) objSources(o *Obj) []*Term {
	if o.kind == ObjSym {
		return st.liveSources(mkPtr(o, nil))
	}
	var out []*Term
	for c := st.mem[o]; c != nil; c = c.parent {
		if c.val != nil {
			out = append(out, st.liveSources(c.val)...)
		}
	}
	return out
}

// ruleNoReuse: no result refers to a buffer which something else keeps and which is written to
// again (by any operation).
func ruleNoReuse(P *Program, r *Report) {
	written := map[string]*Finding{}
	for _, run := range safetyRuns(P) {
		for _, k := range sortedKeys(run.x.Findings) {
			if f := run.x.Findings[k]; (f.Kind == "keptwrite") && written[f.Msg] == nil {
				written[f.Msg] = f
			}
		}
	}
	for _, run := range append(apiRuns(P), readAllRuns(P)...) {
		if !r.usable(run) {
			continue
		}
		for _, o := range run.outs {
			if o.panics || o.st.dead {
				continue
			}
			kept := map[*Obj]string{}
			for ob := range o.st.mem {
				k := ""
				switch {
				case ob.kind == ObjGlobal:
					k = "package"
				case ob.kind == ObjSym && callerBuffer(ob.of) == "":
					k = keeper(run.fn, symRoot(ob.of))
				}
				if k == "" {
					continue
				}
				mark := func(x *Obj) {
					if x.kind == ObjLocal && x.typ != nil && isByteSlice(derefT(x.typ)) {
						kept[x] = k
					}
				}
				for c := o.st.mem[ob]; c != nil; c = c.parent {
					if c.val != nil {
						o.st.sources(c.val, mark)
					}
				}
			}
			for i, v := range o.ret {
				if !refInside(run.fn.Signature.Results().At(i).Type(), 0) {
					continue
				}
				o.st.sources(v, func(x *Obj) {
					k := keptBytes(run.fn, x)
					if k == "" {
						k = kept[x]
					}
					if f := written[k]; k != "" && f != nil {
						r.bad("reused", shortName(run.fn), run.fn.Pos(), fmt.Sprintf("result %d refers to a buffer kept in the %s, and %s writes into such a buffer", i, k, f.Fn), run.name)
					}
				})
			}
			r.ok("reused", run.name)
		}
	}
}

func init() {
	register("C02", "Escape analysis of every exported operation (SSA, interprocedural, path-partitioned, loops summarised): nothing reachable from a result or from state kept in a handle, cursor or iterator refers to an accessor of the file space or to a buffer of the caller.",
		compose(ruleNoLeak, ruleNoReuse))
	register("C03", "Write-effect analysis of every function of the module: no store, copy, append or modelled library call writes through a buffer which the caller passed for reading, or through a package-level buffer.",
		func(P *Program, r *Report) {
			ruleFindings("callerwrite", "globalwrite", "bytesview")(P, r)
			ruleNoLeak(P, r)
		})
}

func symRoot(t *Term) *Term {
	for {
		p := symParent(t)
		if p == nil {
			return t
		}
		t = p
	}
}
