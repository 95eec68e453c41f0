package main

import (
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const (
	modRoot   = "github.com/roy2220/plainkv"
	pkgBPTree = modRoot + "/bptree"
	pkgHash   = modRoot + "/hashmap"
	pkgProto  = modRoot + "/hashmap/internal/protocol"
	pkgFSM    = "github.com/roy2220/fsm"
)

// Program is the resolved program under analysis.
type Program struct {
	Dir       string
	Prog      *ssa.Program
	Pkgs      map[string]*ssa.Package
	PkgSyn    map[string]*packages.Package
	Funcs     []*ssa.Function // every source function of the module
	NumFiles  int
	alias     map[*ssa.Function]map[int]bool
	effects   map[*ssa.Function]*Effect
	cyc       map[*ssa.Function]bool
	cfgs      map[string]*Config
	safety    []*Run
	tabFields *tableFields
}

// loadEnv prepares a private modfile so that neither /repo nor /opt/vp is written.
func loadEnv(dir, extraSum, tmp string) ([]string, error) {
	mod, err := os.ReadFile(filepath.Join(dir, "go.mod"))
	if err != nil {
		return nil, err
	}
	sum, _ := os.ReadFile(filepath.Join(dir, "go.sum"))
	extra, err := os.ReadFile(extraSum)
	if err != nil {
		return nil, err
	}
	set := map[string]bool{}
	var lines []string
	for _, l := range append(strings.Split(string(sum), "\n"), strings.Split(string(extra), "\n")...) {
		if l = strings.TrimSpace(l); l != "" && !set[l] {
			set[l] = true
			lines = append(lines, l)
		}
	}
	sort.Strings(lines)
	mf := filepath.Join(tmp, "plainkv.mod")
	if err := os.WriteFile(mf, mod, 0o644); err != nil {
		return nil, err
	}
	if err := os.WriteFile(filepath.Join(tmp, "plainkv.sum"), []byte(strings.Join(lines, "\n")+"\n"), 0o644); err != nil {
		return nil, err
	}
	env := os.Environ()
	env = append(env, "GOFLAGS=-mod=mod -modfile="+mf, "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "GOSUMDB=off", "CGO_ENABLED=0")
	return env, nil
}

func load(dir string, overlay map[string][]byte, env []string) (*Program, error) {
	cfg := &packages.Config{
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedDeps | packages.NeedTypes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedTypesSizes | packages.NeedModule,
		Dir:     dir,
		Env:     env,
		Overlay: overlay,
	}
	initial, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range initial {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("package errors: %s", strings.Join(errs, "; "))
	}
	if len(initial) == 0 {
		return nil, fmt.Errorf("no packages found under %s", dir)
	}
	prog, pkgs := ssautil.Packages(initial, ssa.InstantiateGenerics)
	P := &Program{Dir: dir, Prog: prog, Pkgs: map[string]*ssa.Package{}, PkgSyn: map[string]*packages.Package{}}
	for i, p := range pkgs {
		if p == nil {
			return nil, fmt.Errorf("no SSA for %s", initial[i].PkgPath)
		}
		p.Build()
		P.Pkgs[initial[i].PkgPath] = p
		P.PkgSyn[initial[i].PkgPath] = initial[i]
		P.NumFiles += len(initial[i].CompiledGoFiles)
	}
	all := ssautil.AllFunctions(prog)
	for f := range all {
		if f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modRoot) || f.Blocks == nil {
			continue
		}
		P.Funcs = append(P.Funcs, f)
	}
	sort.Slice(P.Funcs, func(i, j int) bool {
		a, b := P.Funcs[i], P.Funcs[j]
		if a.String() != b.String() {
			return a.String() < b.String()
		}
		return a.Pos() < b.Pos()
	})
	P.computeEffects()
	return P, nil
}

// method finds a method (pointer or value receiver) of a named type.
func (P *Program) method(pkg, typ, name string) *ssa.Function {
	p := P.Pkgs[pkg]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(typ)
	if o == nil {
		return nil
	}
	tn, ok := o.(*types.TypeName)
	if !ok {
		return nil
	}
	for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
		ms := P.Prog.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			s := ms.At(i)
			if s.Obj().Name() == name {
				fo, ok := s.Obj().(*types.Func)
				if !ok {
					continue
				}
				if f := P.Prog.FuncValue(fo); f != nil {
					return f
				}
			}
		}
	}
	return nil
}

func (P *Program) fn(pkg, name string) *ssa.Function {
	p := P.Pkgs[pkg]
	if p == nil {
		return nil
	}
	return p.Func(name)
}

func (P *Program) named(pkg, name string) types.Type {
	p := P.Pkgs[pkg]
	if p == nil {
		return nil
	}
	o := p.Pkg.Scope().Lookup(name)
	if o == nil {
		return nil
	}
	return o.Type()
}

func recvNamed(f *ssa.Function) *types.Named {
	r := f.Signature.Recv()
	if r == nil {
		return nil
	}
	t := r.Type()
	if pt, ok := t.(*types.Pointer); ok {
		t = pt.Elem()
	}
	n, _ := t.(*types.Named)
	return n
}

// shortName gives "BPTree.search" / "packSlot" style names.
func shortName(f *ssa.Function) string {
	if f == nil {
		return "<nil>"
	}
	if n := recvNamed(f); n != nil {
		return n.Obj().Name() + "." + f.Name()
	}
	return f.Name()
}

// onlyInt64 resolves the only field of type int64 of a structure.
func (P *Program) onlyInt64(pkg, typ string) (fieldSel, bool) {
	p := P.Pkgs[pkg]
	if p == nil || p.Pkg.Scope().Lookup(typ) == nil {
		return fieldSel{}, false
	}
	s, ok := p.Pkg.Scope().Lookup(typ).Type().Underlying().(*types.Struct)
	if !ok {
		return fieldSel{}, false
	}
	var r fieldSel
	n := 0
	for i := 0; i < s.NumFields(); i++ {
		if b, ok := s.Field(i).Type().(*types.Basic); ok && b.Kind() == types.Int64 {
			r = fieldSel{[]Sel{{Field: i}}, s.Field(i).Type()}
			n++
		}
	}
	return r, n == 1
}
