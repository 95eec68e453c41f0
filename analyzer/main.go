package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func fatal(f string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, f+"\n", a...)
	os.Exit(3)
}

func main() {
	debug.SetGCPercent(800)
	if f := os.Getenv("PKV_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if len(os.Args) < 2 {
		fatal("usage: pkvcheck check|dump|list ...")
	}
	switch os.Args[1] {
	case "check":
		os.Exit(checkCmd(os.Args[2:]))
	case "dump":
		dumpCmd(os.Args[2:])
	default:
		fatal("unknown command %s", os.Args[1])
	}
}

func loadRepo(dir string) (*Program, func(), error) {
	tmp, err := os.MkdirTemp("", "pkvcheck")
	if err != nil {
		return nil, nil, err
	}
	clean := func() { os.RemoveAll(tmp) }
	env, err := loadEnv(dir, filepath.Join(verifDir(), "analyzer", "repo.extra.sum"), tmp)
	if err != nil {
		clean()
		return nil, nil, err
	}
	P, err := load(dir, nil, env)
	if err != nil {
		clean()
		return nil, nil, err
	}
	return P, clean, nil
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func repoDir() string {
	if d := os.Getenv("REPO_DIR"); d != "" {
		return d
	}
	return "/repo"
}

func (P *Program) find(name string) *ssa.Function {
	for _, f := range P.Funcs {
		if shortName(f) == name || f.String() == name {
			return f
		}
	}
	return nil
}

func dumpCmd(args []string) {
	P, clean, err := loadRepo(repoDir())
	if err != nil {
		fatal("%v", err)
	}
	defer clean()
	cfg := &Config{Name: "dump"}
	for _, a := range args {
		if strings.HasPrefix(a, "-") {
			switch a {
			case "-prims":
				cfg.Prims = prims(P)
				cfg.PageObj = true
			case "-units":
				cfg.Boundary = func(f *ssa.Function) bool { return P.cyclic(f) || P.pureLoop(f) }
			case "-api":
				c := *cfgAPI(P)
				cfg = &c
			case "-search":
				c := *cfgSearch(P)
				cfg = &c
			case "-range":
				c := *cfgRange(P)
				cfg = &c
			case "-short":
				shortPrint = true
			case "-nomerge":
				cfg.NoMerge = true
			case "-fork":
				cfg.ForkIndex = true
			case "-effects":
				for _, f := range P.Funcs {
					if e := P.effects[f]; e != nil {
						fmt.Printf("%-40s inval=%v view=%v param=%v field=%v global=%v\n", shortName(f), e.Invalidates(), e.ViewW, len(e.ParamW) > 0, sortedKeys(e.FieldW), sortedKeys(e.GlobalW))
					}
				}
			case "-list":
				for _, f := range P.Funcs {
					fmt.Println(shortName(f))
				}
			}
			continue
		}
		f := P.find(a)
		if f == nil {
			fmt.Println("no function", a)
			continue
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					if tc, ok := e.(tooComplex); ok {
						fmt.Println("TOO COMPLEX:", tc.msg)
						return
					}
					panic(e)
				}
			}()
			x := newInterp(P, cfg)
			st := newState(cfg)
			outs := x.runFn(f, rootArgs(P, f, st), nil, st)
			printRun(x, a, outs)
			for done := false; !done && shortPrint; {
				done = true
				for id, s := range shortNames {
					if s != "" {
						fmt.Printf("§%d = %s\n", id, s)
						shortNames[id] = ""
					}
				}
			}
		}()
	}
}

// rootArgs makes symbolic arguments for the analysis of a function on its own.
func rootArgs(P *Program, f *ssa.Function, st *State) []*Term {
	var r []*Term
	for i, p := range f.Params {
		r = append(r, rootArg(f, i, p))
	}
	return r
}

func rootArg(f *ssa.Function, i int, p *ssa.Parameter) *Term {
	if n, ok := p.Type().(*types.Named); ok {
		switch n.Obj().Name() {
		case "leafController", "nonLeafController":
			a := mkSym("A."+p.Name(), nil)
			return intern(&Term{op: OSlice, obj: viewObj(a), args: []*Term{tZero, mkApp("size", a)}, i: 0})
		}
	}
	if isByteSlice(p.Type()) {
		return mkSym("caller:"+p.Name(), p.Type())
	}
	return mkSym(p.Name(), p.Type())
}

func printRun(x *Interp, name string, outs []*Outcome) {
	fmt.Printf("== %s: %d outcomes, %d calls, %d loops, %d steps\n", name, len(outs), x.calls, x.loops, x.steps)
	for i, o := range outs {
		fmt.Printf("-- outcome %d panics=%v\n", i, o.panics)
		printState(o.st, "   ")
		for _, r := range o.ret {
			fmt.Printf("   ret %s\n", r)
			if r.op == OSlice {
				fmt.Printf("       content %s\n", contentTerm(o.st, r))
			}
		}
		if o.panics {
			fmt.Printf("   panic %s\n", o.pval)
		}
	}
	var ks []string
	for k, f := range x.Findings {
		ks = append(ks, fmt.Sprintf("FINDING %s [%s] %s: %s (%s) %s", f.Kind, f.Fn, x.P.Prog.Fset.Position(f.Pos), f.Msg, f.Path, k[:0]))
	}
	for _, f := range x.Undec {
		ks = append(ks, fmt.Sprintf("UNDEC [%s] %s: %s (%s)", f.Fn, x.P.Prog.Fset.Position(f.Pos), f.Msg, f.Path))
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Println(k)
	}
}

func printState(st *State, ind string) {
	for _, f := range st.facts {
		fmt.Printf("%sfact %s\n", ind, f)
	}
	for _, e := range st.log.list() {
		fmt.Printf("%sevent %s\n", ind, e)
		if e.loop != nil {
			printLoop(e.loop, ind+"    ")
		}
	}
	var os []*Obj
	for o := range st.mem {
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool { return os[i].id < os[j].id })
	for _, o := range os {
		fmt.Printf("%smem %s:", ind, o)
		printContent(st.mem[o], nil)
		fmt.Println()
	}
	var ps []*Obj
	for o := range st.seq {
		ps = append(ps, o)
	}
	sort.Slice(ps, func(i, j int) bool { return ps[i].id < ps[j].id })
	for _, o := range ps {
		fmt.Printf("%spage %s: %s\n", ind, o, st.seq[o])
	}
}

func printContent(c, base *Content) {
	for _, w := range newWrites(c, base) {
		fmt.Print(" ", w.String())
	}
}

func (w *Content) String() string {
	switch w.kind {
	case wCell:
		k := ""
		for _, s := range w.sels {
			k += s.String()
		}
		return fmt.Sprintf("%s:=%s", k, w.val)
	case wInt:
		return fmt.Sprintf("int(%s,%s%s):=%s", w.off, w.ln, w.tag, w.val)
	case wCopy:
		return fmt.Sprintf("copy(%s,%s)<-%s@%s", w.off, w.ln, w.src, w.srcOff)
	case wHavoc:
		return fmt.Sprintf("havoc(%v)", w.pats)
	case wQuant:
		s := fmt.Sprintf("forall(%s<%s){", w.k, w.ln)
		for _, q := range w.quant {
			s += q.String() + ";"
		}
		return s + "}"
	}
	return fmt.Sprintf("kind%d(%s,%s)", w.kind, w.off, w.ln)
}

func printLoop(l *LoopSum, ind string) {
	base := map[*Term]bool{}
	for n, it := range append(append([]*IterSum{}, l.iters...), l.exitsAt...) {
		if n == 0 {
			for _, f := range it.facts {
				base[f] = true
			}
			continue
		}
		has := map[*Term]bool{}
		for _, f := range it.facts {
			has[f] = true
		}
		for f := range base {
			if !has[f] {
				delete(base, f)
			}
		}
	}
	fmt.Printf("%sloop k=%s\n", ind, l.k)
	for _, n := range sortedKeys(l.entry) {
		fmt.Printf("%s  phi %s entry %s start %s\n", ind, n, l.entry[n], l.start[n])
	}
	for f := range base {
		fmt.Printf("%s  inv %s\n", ind, f)
	}
	pi := func(w string, it *IterSum) {
		fmt.Printf("%s  %s\n", ind, w)
		for _, f := range it.facts {
			if !base[f] {
				fmt.Printf("%s    fact %s\n", ind, f)
			}
		}
		for _, e := range it.log.list() {
			if e.loop == l {
				continue
			}
			fmt.Printf("%s    ev %s\n", ind, e)
		}
		if os.Getenv("PKV_ITERMEM") != "" && it.st != nil {
			for _, ob := range sortedObjs(it.st.mem) {
				if it.st.mem[ob] == l.at.mem[ob] {
					continue
				}
				fmt.Printf("%s    mem %s:", ind, ob)
				printContent(it.st.mem[ob], l.at.mem[ob])
				fmt.Println()
			}
		}
		for _, n := range sortedKeys(it.next) {
			fmt.Printf("%s    next %s %s\n", ind, n, it.next[n])
		}
	}
	for _, it := range l.iters {
		pi("iter", it)
	}
	for _, it := range l.exitsAt {
		pi("exit", it)
	}
}
