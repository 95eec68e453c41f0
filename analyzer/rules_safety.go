package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// takesPath: the function is handed a slice by reference (the record path).
func takesSliceRef(f *ssa.Function) bool {
	for _, p := range f.Params {
		if t := derefT(p.Type()); t != p.Type() {
			if _, ok := t.Underlying().(*types.Slice); ok {
				return true
			}
		}
	}
	return false
}

func (P *Program) reachesCycle(f *ssa.Function) bool {
	for g := range P.reach(f) {
		if P.cyclic(g) {
			return true
		}
	}
	return false
}

// spaceLoop: the function itself loops around allocations or releases of space.
func (P *Program) spaceLoop(f *ssa.Function) bool {
	if P.effects[f] == nil || !P.effects[f].Invalidates() {
		return false
	}
	ls, _ := loopsOf(f)
	for _, l := range ls {
		for b := range l.Blocks {
			for _, in := range b.Instrs {
				if c, ok := in.(ssa.CallInstruction); ok {
					if m := fsmMethod(c.Common()); strings.HasPrefix(m, "Alloc") || strings.HasPrefix(m, "Free") {
						return true
					}
					if g := c.Common().StaticCallee(); g != nil && P.effects[g] != nil && P.effects[g].Invalidates() {
						return true
					}
				}
			}
		}
	}
	return false
}

func cfgAPI(P *Program) *Config {
	if P.cfgs["api"] == nil {
		P.setCfg(&Config{Name: "api", Prims: prims(P), PageObj: true,
			Boundary: func(f *ssa.Function) bool {
				return P.cyclic(f) || P.noSpaceLoop(f) || P.spaceLoop(f) || takesSliceRef(f) && P.reachesCycle(f)
			}})
	}
	return P.cfgs["api"]
}

// cfgCodec analyses the page operations and codecs themselves.
func cfgCodec(P *Program) *Config {
	if P.cfgs["codec"] == nil {
		P.setCfg(&Config{Name: "codec", Boundary: func(f *ssa.Function) bool { return P.cyclic(f) }})
	}
	return P.cfgs["codec"]
}

// cfgBounds: like cfgCodec, and every index has to be shown to be in range.
func cfgBounds(P *Program) *Config {
	if P.cfgs["bounds"] == nil {
		P.setCfg(&Config{Name: "bounds", Bounds: true, Boundary: func(f *ssa.Function) bool { return P.cyclic(f) }})
	}
	return P.cfgs["bounds"]
}

func (P *Program) setCfg(c *Config) {
	if P.cfgs == nil {
		P.cfgs = map[string]*Config{}
	}
	P.cfgs[c.Name] = c
}

// exported roots and everything no other root covers
func safetyRuns(P *Program) []*Run {
	if P.safety != nil {
		return P.safety
	}
	pr := prims(P)
	covered := map[*ssa.Function]bool{}
	var runs []*Run
	add := func(cfg *Config, f *ssa.Function) {
		r := P.analyse(cfg, f, nil)
		runs = append(runs, r)
		for g := range r.x.inlined {
			covered[g] = true
		}
	}
	isAPI := func(f *ssa.Function) bool {
		o := f.Object()
		return o != nil && o.Exported() && f.Parent() == nil && f.Pkg.Pkg.Path() != pkgProto && f.Synthetic == ""
	}
	skip := func(f *ssa.Function) bool {
		return f.Pkg.Pkg.Path() == pkgProto || f.Synthetic != "" || f.Parent() != nil
	}
	for _, f := range P.Funcs {
		if isAPI(f) && pr[f.String()] == nil && !isPageMethod(f) {
			add(cfgAPI(P), f)
		}
	}
	// the codecs and page operations
	for _, f := range P.Funcs {
		if pr[f.String()] != nil {
			add(cfgCodec(P), f)
		}
	}
	// what is left: functions taken by summaries; outermost first
	for {
		var left []*ssa.Function
		for _, f := range P.Funcs {
			if !covered[f] && !skip(f) {
				left = append(left, f)
			}
		}
		if len(left) == 0 {
			break
		}
		sort.SliceStable(left, func(i, j int) bool { return len(P.reach(left[i])) > len(P.reach(left[j])) })
		add(cfgAPI(P), left[0])
		covered[left[0]] = true
	}
	P.safety = runs
	return runs
}

func isPageMethod(f *ssa.Function) bool {
	n := recvNamed(f)
	return n != nil && !n.Obj().Exported()
}

func ruleFindings(kinds ...string) func(P *Program, r *Report) {
	return func(P *Program, r *Report) {
		for _, run := range safetyRuns(P) {
			if !r.usable(run) {
				continue
			}
			n := 0
			for _, k := range sortedKeys(run.x.Findings) {
				f := run.x.Findings[k]
				for _, kd := range kinds {
					if f.Kind == kd && !(kd == "callerwrite" && strings.HasPrefix(run.fn.Name(), "Read")) { // the Read operations fill the buffer
						r.bad(kd, f.Fn, f.Pos, f.Msg, f.Path)
						n++
					}
				}
			}
			if n == 0 {
				r.ok("clean", fmt.Sprintf("%s: %d outcomes, %d calls followed", run.name, len(run.outs), run.x.calls))
			}
		}
	}
}

func init() {
	register("C01", "Path-partitioned typestate analysis of every function of the module (SSA, interprocedural, loops summarised): each accessor of the file space carries the epoch of its acquisition, every allocation, release, open or close ends the epoch, and every use of an accessor (load, store, copy, slice, page operation, decoding) is an obligation that its epoch is the current one and that the page was not rearranged since.",
		ruleFindings("stale", "moved", "viewappend"))
}
