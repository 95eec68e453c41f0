package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Report collects the obligations of one property.
type Report struct {
	P       *Program
	Prop    string
	Thor    bool
	OK      map[string]int // discharged obligations per rule
	Samples []string
	Bad     []Violation
	badSeen map[string]bool
	Notes   []string
	Roots   map[string]bool
	Funcs   map[*ssa.Function]bool
	Sites   int // call sites followed
	Paths   int // outcomes inspected
	Loops   int
	Need    map[string]int // minimum instances per rule
	Open    []Violation    // obligations without an answer
}

// open records an obligation which the analysis could not decide either way.
func (r *Report) open(rule string, fn string, pos token.Pos, msg, path string) {
	n := len(r.Bad)
	r.bad(rule, fn, pos, msg, path)
	if len(r.Bad) > n {
		r.Open = append(r.Open, r.Bad[n])
		r.Bad = r.Bad[:n]
	}
}

type Violation struct {
	Rule  string `json:"rule"`
	Where string `json:"where"`
	Fn    string `json:"function"`
	Msg   string `json:"message"`
	Path  string `json:"path,omitempty"`
}

func newReport(P *Program, prop string) *Report {
	return &Report{P: P, Prop: prop, OK: map[string]int{}, badSeen: map[string]bool{}, Roots: map[string]bool{}, Funcs: map[*ssa.Function]bool{}, Need: map[string]int{}}
}

func (r *Report) ok(rule, what string) {
	r.OK[rule]++
	if len(r.Samples) < 12 || r.OK[rule] == 1 && len(r.Samples) < 40 {
		r.Samples = append(r.Samples, rule+": "+what)
	}
}

func (r *Report) bad(rule string, fn string, pos token.Pos, msg, path string) {
	v := Violation{Rule: rule, Fn: fn, Msg: msg, Path: path}
	if pos != token.NoPos && r.P != nil {
		p := r.P.Prog.Fset.Position(pos)
		f := p.Filename
		if rel, err := filepath.Rel(r.P.Dir, f); err == nil && !strings.HasPrefix(rel, "..") {
			f = rel
		}
		v.Where = fmt.Sprintf("%s:%d", f, p.Line)
	}
	k := v.Rule + "|" + v.Fn + "|" + v.Where + "|" + v.Msg
	if r.badSeen[k] {
		return
	}
	r.badSeen[k] = true
	r.Bad = append(r.Bad, v)
}

// check records one obligation.
func (r *Report) check(cond bool, rule string, f *ssa.Function, msg string) bool {
	if cond {
		r.ok(rule, shortName(f)+": "+msg)
	} else {
		r.bad(rule, shortName(f), f.Pos(), "violated: "+msg, "")
	}
	return cond
}

func (r *Report) need(rule string, n int) { r.Need[rule] = n }

// use notes what an analysis run covered.
func (r *Report) use(run *Run) {
	r.Roots[run.name] = true
	for f := range run.x.inlined {
		r.Funcs[f] = true
	}
	r.Sites += run.x.calls
	r.Paths += len(run.outs)
	r.Loops += run.x.loops
}

// ---- runs ----

type Run struct {
	name string
	fn   *ssa.Function
	args []*Term
	x    *Interp
	outs []*Outcome
	err  string
	data interface{}
}

var runMemo = map[string]*Run{}

// analyse runs one root under a configuration (memoised).
func (P *Program) analyse(cfg *Config, fn *ssa.Function, setup func(st *State, args []*Term)) *Run {
	key := cfg.Name + "|" + fn.String()
	if r, ok := runMemo[key]; ok {
		return r
	}
	r := &Run{name: cfg.Name + ":" + shortName(fn), fn: fn}
	runMemo[key] = r
	r.x = newInterp(P, cfg)
	t0 := time.Now()
	if os.Getenv("PKV_TIME") != "" {
		fmt.Fprintf(os.Stderr, "run %s ...", key)
		defer func() {
			fmt.Fprintf(os.Stderr, " %.2fs %d outcomes %s\n", time.Since(t0).Seconds(), len(r.outs), r.err)
		}()
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if tc, ok := e.(tooComplex); ok {
					r.err = tc.msg
					return
				}
				if os.Getenv("PKV_PANIC") != "" {
					panic(e)
				}
				r.err = fmt.Sprintf("analysis of %s failed: %v", shortName(fn), e)
			}
		}()
		st := newState(cfg)
		r.args = rootArgs(P, fn, st)
		if setup != nil {
			setup(st, r.args)
		}
		r.outs = r.x.runFn(fn, r.args, nil, st)
	}()
	return r
}

// usable reports analyses which gave no answer.
func (r *Report) usable(run *Run) bool {
	r.use(run)
	if run.err != "" {
		r.open("undecided", shortName(run.fn), run.fn.Pos(), run.err, run.name)
		return false
	}
	for _, k := range sortedKeys(run.x.Undec) {
		f := run.x.Undec[k]
		r.open("undecided", f.Fn, f.Pos, f.Msg, f.Path)
	}
	return true
}

// ---- properties ----

type Property struct {
	ID   string
	Desc string
	Fn   func(P *Program, r *Report)
}

var properties = map[string]*Property{}

func register(id, desc string, fn func(P *Program, r *Report)) {
	properties[id] = &Property{ID: id, Desc: desc, Fn: fn}
}

type known struct{ prop, text string }

func loadKnown() []known {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		return nil
	}
	var ks []known
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		l = strings.TrimPrefix(l, "finding: ")
		f := strings.SplitN(l, " ", 2)
		if len(f) == 2 && strings.HasPrefix(f[0], "property=") {
			ks = append(ks, known{strings.TrimPrefix(f[0], "property="), strings.TrimSpace(f[1])})
		}
	}
	return ks
}

// softDeadline ends single analysis runs, so that a check answers in time.
var softDeadline time.Time

// decide runs the rules of one property.
func decide(P *Program, loadErr error, id string) *Report {
	pr := properties[id]
	if loadErr != nil {
		r := newReport(nil, id)
		r.bad("load", "", token.NoPos, "the repository cannot be loaded: "+loadErr.Error(), "")
		return r
	}
	r := newReport(P, id)
	r.Thor = os.Getenv("VERIF_TIER") == "thorough"
	softDeadline = time.Now().Add(480 * time.Second)
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() {
			if e := recover(); e != nil {
				if os.Getenv("PKV_PANIC") != "" {
					panic(e)
				}
				r.open("undecided", "", token.NoPos, fmt.Sprintf("the analysis failed: %v", e), "")
			}
		}()
		pr.Fn(P, r)
	}()
	select {
	case <-done:
	case <-time.After(780 * time.Second):
		// What was found until now counts, the rest stays undecided.
		q := newReport(P, id)
		q.Bad = append(q.Bad, r.Bad...)
		q.open("undecided", "", token.NoPos, "the time limit of the check was reached", "")
		return q
	}
	for _, k := range sortedKeys(r.Need) {
		if r.OK[k] < r.Need[k] && len(r.Bad) == 0 && len(r.Open) == 0 {
			r.open("instances", "", token.NoPos, fmt.Sprintf("rule %q has %d instances, at least %d were confirmed by hand", k, r.OK[k], r.Need[k]), "")
		}
	}
	return r
}

// finish prints the outcome and writes the evidence.
func finish(id string, r *Report, wall float64) int {
	pr := properties[id]
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ks := loadKnown()
	var left []Violation
	for _, v := range r.Bad {
		m := false
		for _, k := range ks {
			if k.prop == id && k.text == v.Rule+" "+v.Fn+" "+v.Msg {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k.text)
				m = true
			}
		}
		if !m {
			left = append(left, v)
		}
	}
	sort.SliceStable(left, func(i, j int) bool { return len(left[i].Path) < len(left[j].Path) })
	writeEvidence(pr, r, tier, seed, wall, left)
	if len(left) == 0 {
		n := 0
		for _, c := range r.OK {
			n += c
		}
		for _, v := range r.Open {
			fmt.Printf("NOTE undecided: %s %s [%s] %s\n", v.Where, v.Fn, v.Rule, v.Msg)
		}
		fmt.Printf("OK property=%s obligations=%d undecided=%d roots=%d functions=%d paths=%d\n", id, n, len(r.Open), len(r.Roots), len(r.Funcs), r.Paths)
		return 0
	}
	rp := filepath.Join(verifDir(), "evidence", id+".violations.json")
	b, _ := json.MarshalIndent(left, "", " ")
	os.WriteFile(rp, b, 0o644)
	for i, v := range left {
		if i >= 20 {
			fmt.Printf("... and %d more\n", len(left)-i)
			break
		}
		fmt.Printf("%s %s [%s] %s\n", v.Where, v.Fn, v.Rule, v.Msg)
		if v.Path != "" {
			fmt.Printf("    on: %s\n", v.Path)
		}
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
	return 1
}

// checkCmd decides the given properties (all of them for "all") on one load of the repository.
func checkCmd(ids []string) int {
	t0 := time.Now()
	if len(ids) == 1 && ids[0] == "all" {
		ids = sortedKeys(properties)
	}
	for _, id := range ids {
		if properties[id] == nil {
			fatal("unknown property %s", id)
		}
	}
	if len(ids) == 0 {
		fatal("usage: pkvcheck check <property>... | all")
	}
	P, clean, err := loadRepo(repoDir())
	if err == nil {
		defer clean()
	}
	rc := 0
	for _, id := range ids {
		if finish(id, decide(P, err, id), time.Since(t0).Seconds()) != 0 {
			rc = 1
		}
	}
	return rc
}

func writeEvidence(pr *Property, r *Report, tier string, seed int, wall float64, left []Violation) {
	total := 0
	for _, c := range r.OK {
		total += c
	}
	var fns []string
	for f := range r.Funcs {
		fns = append(fns, shortName(f))
	}
	sort.Strings(fns)
	ev := map[string]interface{}{
		"property": pr.ID,
		"tier":     tier,
		"seed":     seed,
		"level":    "other",
		"coverage": map[string]interface{}{
			"explanation":         pr.Desc,
			"obligations":         total + len(r.Bad) + len(r.Open),
			"undecided":           r.Open,
			"discharged":          total,
			"obligations_by_rule": r.OK,
			"entry_points":        sortedKeys(r.Roots),
			"functions_analysed":  fns,
			"call_sites_followed": r.Sites,
			"outcomes_inspected":  r.Paths,
			"loops_summarised":    r.Loops,
			"samples":             r.Samples,
			"source_files_resolved": func() int {
				if r.P == nil {
					return 0
				}
				return r.P.NumFiles
			}(),
			"notes": r.Notes,
		},
		"assumptions": []string{
			"the operations of github.com/roy2220/fsm and of the standard library behave as documented (modelled, not analysed)",
			"instances are used by one goroutine at a time",
		},
		"wall_s":     wall,
		"violations": len(left),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("%v", err)
	}
	d := filepath.Join(verifDir(), "evidence")
	os.MkdirAll(d, 0o755)
	if err := os.WriteFile(filepath.Join(d, pr.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}
