package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- memory ----

type WKind uint8

const (
	wCell  WKind = iota // sels := val
	wInt                // bytes [off,off+width) := integer val, endianness in tag
	wCopy               // bytes/elements [off,off+ln) := src[srcOff..] (snapshot)
	wQuant              // for k in [0,n): the writes of one iteration
	wHavoc              // unknown writes, restricted to pats (nil: everything)
)

// Content is an interned persistent list of writes to one object.
type Content struct {
	id     int
	parent *Content
	kind   WKind
	sels   []Sel
	val    *Term
	off    *Term
	ln     *Term
	tag    string
	src    *Obj
	srcC   *Content
	srcOff *Term
	quant  []*Content // oldest first; one iteration
	k      *Term
	pats   [][]Sel
	vals   []*Term // what may have been stored (havoc)
	depth  int
}

var contentTab = map[string]*Content{}

func selKey(ss []Sel) string {
	var sb strings.Builder
	for _, s := range ss {
		if s.Field >= 0 {
			sb.WriteString("." + strconv.Itoa(s.Field))
		} else {
			sb.WriteString("[" + strconv.Itoa(s.Idx.id) + "]")
		}
	}
	return sb.String()
}

func tid(t *Term) int {
	if t == nil {
		return -1
	}
	return t.id
}

func cid(c *Content) int {
	if c == nil {
		return -1
	}
	return c.id
}

func internC(c *Content) *Content {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%d|%d|%s|%d|%d|%d|%s|", cid(c.parent), c.kind, selKey(c.sels), tid(c.val), tid(c.off), tid(c.ln), c.tag)
	if c.src != nil {
		fmt.Fprintf(&sb, "s%d.%d.%d|", c.src.id, cid(c.srcC), tid(c.srcOff))
	}
	for _, q := range c.quant {
		fmt.Fprintf(&sb, "q%d|", q.id)
	}
	fmt.Fprintf(&sb, "k%d|", tid(c.k))
	for _, p := range c.pats {
		sb.WriteString("p" + selKey(p))
	}
	for _, v := range c.vals {
		fmt.Fprintf(&sb, "v%d", v.id)
	}
	key := sb.String()
	if o, ok := contentTab[key]; ok {
		return o
	}
	c.id = len(contentTab)
	if c.parent != nil {
		c.depth = c.parent.depth + 1
	}
	contentTab[key] = c
	return c
}

// ---- events ----

type Event struct {
	id     int
	parent *Event
	kind   string // call, alloc, free, access, setprimary, panic, loop, write, ...
	name   string
	args   []*Term
	res    *Term
	loop   *LoopSum
	pos    ssa.Instruction
	depth  int
}

var eventTab = map[string]*Event{}

func internE(e *Event) *Event {
	var sb strings.Builder
	p := -1
	if e.parent != nil {
		p = e.parent.id
	}
	fmt.Fprintf(&sb, "%d|%s|%s|%d", p, e.kind, e.name, tid(e.res))
	for _, a := range e.args {
		fmt.Fprintf(&sb, ",%d", tid(a))
	}
	if e.loop != nil {
		fmt.Fprintf(&sb, "|%p", e.loop)
	}
	k := sb.String()
	if o, ok := eventTab[k]; ok {
		return o
	}
	e.id = len(eventTab)
	if e.parent != nil {
		e.depth = e.parent.depth + 1
	}
	eventTab[k] = e
	return e
}

func (e *Event) list() []*Event {
	var r []*Event
	for x := e; x != nil; x = x.parent {
		r = append(r, x)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (e *Event) String() string {
	var p []string
	for _, a := range e.args {
		p = append(p, a.String())
	}
	s := e.kind + " " + e.name + "(" + strings.Join(p, ", ") + ")"
	if e.res != nil {
		s += " = " + e.res.String()
	}
	return s
}

// ---- facts ----

type State struct {
	facts       []*Term
	fset        map[*Term]bool
	mem         map[*Obj]*Content
	seq         map[*Obj]*Term // abstract element sequence of a page
	log         *Event
	epoch       int64
	cnt         map[string]int // counters for deterministic fresh names
	views       []*Term        // addresses accessed so far, pairwise distinct
	same        map[*Term]*Term
	judging     bool
	tmpl        map[string]tmpl   // contents of objects allocated in earlier iterations of a loop
	derivedBufs map[*Term][]*Obj  // buffers of ours which an opaque result may refer to
	derived     map[*Term][]*Term // accessors which an opaque result may refer to
	gen         *Term             // generation of the space contents not seen so far
	cfg         *Config
	dead        bool
}

func newState(cfg *Config) *State {
	return &State{fset: map[*Term]bool{}, mem: map[*Obj]*Content{}, seq: map[*Obj]*Term{}, cnt: map[string]int{}, same: map[*Term]*Term{}, cfg: cfg}
}

func cloneMap[K comparable, V any](m map[K]V) map[K]V {
	r := make(map[K]V, len(m)+2)
	for k, v := range m {
		r[k] = v
	}
	return r
}

type tmpl struct {
	o *Obj
	c *Content
}

// cont is the content of an object.
func (s *State) cont(o *Obj) *Content {
	if c, ok := s.mem[o]; ok {
		return c
	}
	if o.kind == ObjLocal && len(o.ks) > 0 {
		if t, ok := s.tmpl[o.base]; ok && t.o != o {
			memo := map[*Term]*Term{}
			for i, k := range t.o.ks {
				memo[k] = o.ks[i]
			}
			return substC(t.c, tNone, tNone, memo)
		}
	}
	return nil
}

func (s *State) clone() *State {
	n := *s
	n.facts = s.facts[:len(s.facts):len(s.facts)]
	n.fset = cloneMap(s.fset)
	n.mem = cloneMap(s.mem)
	n.seq = cloneMap(s.seq)
	n.cnt = cloneMap(s.cnt)
	n.views = s.views[:len(s.views):len(s.views)]
	n.same = cloneMap(s.same)
	n.tmpl = cloneMap(s.tmpl)
	return &n
}

func (s *State) fresh(name string) string {
	s.cnt[name]++
	return name + "#" + strconv.Itoa(s.cnt[name])
}

func (s *State) emit(kind, name string, pos ssa.Instruction, res *Term, args ...*Term) {
	s.log = internE(&Event{parent: s.log, kind: kind, name: name, args: args, res: res, pos: pos})
}

// assume adds a fact; the state becomes dead when it contradicts.
func (s *State) assume(c *Term) {
	switch s.decide(c) {
	case 1:
		if c.op == OBool {
			return
		}
		// still remember it: it may carry implied facts
	case -1:
		s.dead = true
		return
	}
	s.addFact(c)
}

func (s *State) addFact(c *Term) {
	if c.op == OBool || s.fset[c] {
		return
	}
	s.fset[c] = true
	s.facts = append(s.facts, c)
	if s.cfg != nil {
		for _, f := range impliedFacts(c) {
			s.assume(f)
		}
	}
	if c.op == OEQ0 {
		// t == 0 where a disequality t' <= 0 sharpens
		return
	}
}

// impliedFacts gives what an opaque predicate entails.
func impliedFacts(c *Term) []*Term {
	var r []*Term
	if c.op == OApp {
		switch c.s {
		case "located":
			// located(seq,key): the index is of an existing element
			ix := mkApp("locate", c.args...)
			r = append(r, lt(ix, seqLen(c.args[0])))
		}
	}
	return r
}

// lower/upper bounds of atoms
func atomLow(a *Term) (int64, bool) {
	switch a.op {
	case OLen, OCap, OLow:
		return 0, true
	case OPow2:
		return 1, true
	case OSym:
		if strings.HasPrefix(a.s, "ι") || a.i == 1 { // bound iteration counters, naturals
			return 0, true
		}
	case OApp:
		if strings.HasPrefix(a.s, "k$") { // iteration counters
			return 0, true
		}
		switch a.s {
		case "sum":
			if l, ok := termLow(a.args[0]); ok && l >= 0 {
				return 0, true
			}
		case "count", "locate", "load", "rawsize", "uvarint", "copied", "size":
			return 0, true
		case "space":
			return 0, true
		case "cmp":
			return -1, true
		case "uvlen":
			return 1, true
		}
	case OLoad:
		if a.i == 1 {
			return 0, true
		}
	case OMin:
		l0, ok0 := termLow(a.args[0])
		l1, ok1 := termLow(a.args[1])
		if ok0 && ok1 {
			if l0 < l1 {
				return l0, true
			}
			return l1, true
		}
	case OShr:
		if l, ok := termLow(a.args[0]); ok && l >= 0 {
			return 0, true
		}
	}
	return 0, false
}

func termLow(t *Term) (int64, bool) {
	l := linOf(t)
	r := l.c
	for _, a := range sortedAtoms(l) {
		c := l.m[a]
		if c > 0 {
			b, ok := atomLow(a)
			if !ok {
				return 0, false
			}
			r += c * b
		} else if c < 0 {
			b, ok := atomHigh(a)
			if !ok {
				return 0, false
			}
			r += c * b
		}
	}
	return r, true
}

func atomHigh(a *Term) (int64, bool) {
	switch a.op {
	case OLow:
		if a.args[1].op == OConst && a.args[1].i < 62 {
			return 1<<uint(a.args[1].i) - 1, true
		}
	case OApp:
		if a.s == "cmp" {
			return 1, true
		}
		if a.s == "uvlen" {
			return 10, true
		}
	}
	return 0, false
}

// structural inequalities an atom brings along (each term <= 0).
func atomFacts(a *Term) []*Term {
	switch a.op {
	case OMin:
		return []*Term{sub(a, a.args[0]), sub(a, a.args[1])}
	case OShr:
		if a.args[1].op == OConst && a.args[1].i < 30 {
			// (x >> n) << n <= x <= ((x>>n)<<n) + 2^n - 1
			n := int64(1) << uint(a.args[1].i)
			return []*Term{sub(mulc(a, n), a.args[0]), addc(sub(a.args[0], mulc(a, n)), -(n - 1))}
		}
	case OApp:
		switch a.s {
		case "space":
			return []*Term{sub(a.args[0], a)}
		case "locate":
			return []*Term{sub(a, seqLen(a.args[0]))}
		}
	}
	return nil
}

// prove tries to show t <= 0 from the facts (bounded linear combination).
func (s *State) prove(t *Term) bool {
	l := linOf(t)
	if len(sortedAtoms(l)) == 0 {
		return l.c <= 0
	}
	var fs []lin
	for _, f := range s.facts {
		switch f.op {
		case OLE0:
			fs = append(fs, linOf(f.args[0]))
		case OEQ0:
			fl := linOf(f.args[0])
			fs = append(fs, fl, linOf(mulc(f.args[0], -1)))
		}
	}
	// only facts connected to the goal matter
	rel := map[*Term]bool{}
	var addA func(a *Term)
	addA = func(a *Term) {
		if rel[a] {
			return
		}
		rel[a] = true
		for _, f := range atomFacts(a) {
			for _, b := range sortedAtoms(linOf(f)) {
				addA(b)
			}
		}
	}
	for _, a := range sortedAtoms(l) {
		addA(a)
	}
	var use []lin
	for ch := true; ch; {
		ch = false
		rest := fs[:0:0]
		for _, f := range fs {
			hit := false
			for _, a := range sortedAtoms(f) {
				if rel[a] {
					hit = true
				}
			}
			if hit {
				use = append(use, f)
				for _, a := range sortedAtoms(f) {
					addA(a)
				}
				ch = true
			} else {
				rest = append(rest, f)
			}
		}
		fs = rest
	}
	budget := 1500
	seen := map[string]bool{}
	return proveLin(l, use, 5, &budget, seen)
}

func linKey(l lin) string {
	var sb strings.Builder
	for _, a := range sortedAtoms(l) {
		fmt.Fprintf(&sb, "%d*%d+", l.m[a], a.id)
	}
	fmt.Fprintf(&sb, "%d", l.c)
	return sb.String()
}

func proveLin(l lin, fs []lin, depth int, budget *int, seen map[string]bool) bool {
	*budget--
	if *budget < 0 {
		return false
	}
	as := sortedAtoms(l)
	if len(as) == 0 {
		return l.c <= 0
	}
	// close everything with atom bounds
	ok := true
	c := l.c
	for _, a := range as {
		k := l.m[a]
		if k < 0 {
			if b, has := atomLow(a); has {
				c += k * b
				continue
			}
		} else {
			if b, has := atomHigh(a); has {
				c += k * b
				continue
			}
		}
		ok = false
		break
	}
	if ok && c <= 0 {
		return true
	}
	if depth == 0 || len(as) > 12 {
		return false
	}
	key := linKey(l)
	if seen[key] {
		return false
	}
	seen[key] = true
	try := func(f lin, a *Term) bool {
		k, kf := l.m[a], f.m[a]
		if kf == 0 || (k > 0) != (kf > 0) {
			return false
		}
		// l' = |kf| * l - |k| * f  (scaled), l' <= 0 && f <= 0 => l <= 0
		ak, akf := k, kf
		if ak < 0 {
			ak = -ak
		}
		if akf < 0 {
			akf = -akf
		}
		g := gcd(ak, akf)
		m1, m2 := akf/g, ak/g
		n := lin{map[*Term]int64{}, l.c*m1 - f.c*m2 - (m1 - 1)} // over the integers l <= 0 is m1*l <= m1-1
		for t, c := range l.m {
			n.m[t] += c * m1
		}
		for t, c := range f.m {
			n.m[t] -= c * m2
		}
		for t, c := range n.m {
			if c == 0 {
				delete(n.m, t)
			}
		}
		if len(n.m) > 10 {
			return false
		}
		// integer tightening
		d := int64(0)
		for _, c := range n.m {
			if c < 0 {
				c = -c
			}
			if d == 0 {
				d = c
			} else {
				d = gcd(d, c)
			}
		}
		if d > 1 {
			for t := range n.m {
				n.m[t] /= d
			}
			q := n.c / d
			if n.c%d != 0 && n.c > 0 {
				q++
			}
			n.c = q
		}
		return proveLin(n, fs, depth-1, budget, seen)
	}
	for _, a := range as {
		// an atom which has a suitable bound needs no elimination first, try facts anyway
		for _, f := range fs {
			if try(f, a) {
				return true
			}
		}
		for _, ft := range atomFacts(a) {
			if try(linOf(ft), a) {
				return true
			}
		}
	}
	return false
}

// decide: 1 true, -1 false, 0 unknown.
func (s *State) decide(c *Term) int {
	switch c.op {
	case OBool:
		if c.i == 1 {
			return 1
		}
		return -1
	case ONot:
		return -s.decide(c.args[0])
	}
	if s.fset[c] {
		return 1
	}
	if s.fset[not(c)] {
		return -1
	}
	switch c.op {
	case OLE0:
		t := c.args[0]
		if s.prove(t) {
			return 1
		}
		if s.prove(addc(mulc(t, -1), 1)) {
			return -1
		}
		// with disequalities: t <= 1 and t != 1; t >= 0 and t != 0
		if s.neZero(addc(t, -1)) && s.prove(addc(t, -1)) {
			return 1
		}
		if s.neZero(t) && s.prove(mulc(t, -1)) {
			return -1
		}
	case OEQ0:
		t := c.args[0]
		if a, b := s.addrPair(c); a != nil {
			if r := s.cfg.Relate(s, a, b); r != 0 {
				return r
			}
		}
		if s.prove(addc(t, 1)) || s.prove(addc(mulc(t, -1), 1)) {
			return -1
		}
		if s.prove(t) && s.prove(mulc(t, -1)) {
			return 1
		}
	case OEQ:
		if isTruth(c.args[0]) && isTruth(c.args[1]) {
			return s.decide(c.args[0]) * s.decide(c.args[1])
		}
		return s.decideEQ(c.args[0], c.args[1])
	}
	return 0
}

// isTruth: a condition rather than a value.
func isTruth(t *Term) bool {
	switch t.op {
	case OEQ, OEQ0, OLE0, ONot, OBool:
		return true
	}
	return false
}

// neZero: a condition passed says that t is not 0.
func (s *State) neZero(t *Term) bool {
	c := eqInt(t, tZero)
	return c.op != OBool && s.fset[not(c)]
}

func nonNil(t *Term) bool {
	switch t.op {
	case OPtr, OIface, OClosure:
		return true
	case OSlice:
		return t.obj.kind == ObjLocal || t.obj.kind == ObjView || t.obj.kind == ObjExt
	case OLoad:
		if t.obj.kind == ObjGlobal && t.content == nil {
			return true
		}
	case OApp:
		return t.s == "error"
	}
	return false
}

func (s *State) decideEQ(a, b *Term) int {
	if a == b {
		return 1
	}
	if a == tNil && nonNil(b) || b == tNil && nonNil(a) {
		return -1
	}
	if a.op == OAddr && b.op == OAddr {
		x, y := a.args[0], b.args[0]
		if x == y {
			return 1
		}
		private := func(t *Term) bool {
			return t == tNil || t.op == OSlice && (t.obj.kind == ObjLocal || t.obj.kind == ObjExt || t.obj.kind == ObjView)
		}
		global := func(t *Term) bool { return t.op == OLoad && t.obj.kind == ObjGlobal }
		if private(x) && global(y) || private(y) && global(x) || global(x) && global(y) {
			return -1
		}
		// one buffer cannot be both sentinels
		for _, f := range s.facts {
			if f.op == OEQ && f.args[0].op == OAddr && f.args[1].op == OAddr {
				p, q := f.args[0].args[0], f.args[1].args[0]
				if global(p) {
					p, q = q, p
				}
				if !global(q) {
					continue
				}
				if global(y) && p == x && q != y || global(x) && p == y && q != x {
					return -1
				}
			}
		}
	}
	if a.op == OPtr && b.op == OPtr && a.obj != b.obj && (a.obj.kind == ObjLocal || b.obj.kind == ObjLocal) {
		return -1
	}
	return 0
}

// ---- zero values ----

func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return intern(&Term{op: OStr})
		case u.Info()&types.IsFloat != 0:
			return intern(&Term{op: OFloat, s: "0"})
		case u.Info()&types.IsInteger != 0:
			return tZero
		}
		return tNil
	case *types.Struct:
		as := make([]*Term, u.NumFields())
		for i := range as {
			as[i] = zeroOf(u.Field(i).Type())
		}
		return mkStruct(as)
	case *types.Array:
		return mkApp("zeroarray")
	}
	return tNil
}

func isStruct(t types.Type) bool { _, ok := t.Underlying().(*types.Struct); return ok }

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// ---- cells ----

// forkOn asks the driver to split the path on a condition.
type forkOn struct{ cond *Term }

// must decides cond, splitting the path when it cannot.
func (s *State) must(c *Term) bool {
	switch s.decide(c) {
	case 1:
		return true
	case -1:
		return false
	}
	if g := s.refine(c); g != nil {
		panic(forkOn{g})
	}
	panic(forkOn{c})
}

// addrPair takes an equality of two addresses apart.
func (s *State) addrPair(c *Term) (a, b *Term) {
	for c.op == ONot {
		c = c.args[0]
	}
	if c.op != OEQ0 || s.cfg == nil || s.cfg.Relate == nil {
		return nil, nil
	}
	l := linOf(c.args[0])
	if l.c != 0 || len(l.m) != 2 {
		return nil, nil
	}
	for t, k := range l.m {
		switch k {
		case 1:
			a = t
		case -1:
			b = t
		}
	}
	if a == nil || b == nil {
		return nil, nil
	}
	return a, b
}

// refine: the condition to split on first.
func (s *State) refine(c *Term) *Term {
	if s.cfg == nil || s.cfg.Refine == nil {
		return nil
	}
	if a, b := s.addrPair(c); a != nil && s.decide(c) == 0 {
		return s.cfg.Refine(s, a, b)
	}
	return nil
}

type selRel int

const (
	relSame selRel = iota
	relDisjoint
	relPrefix // a is a proper prefix of b
	relSuffix // b is a proper prefix of a
	relUnknown
)

// relate compares two access paths; undecided indexes split the path when fork is set.
func (s *State) relate(a, b []Sel, fork bool) selRel {
	n := len(a)
	if len(b) < n {
		n = len(b)
	}
	unknown := false
	for i := 0; i < n; i++ {
		x, y := a[i], b[i]
		if x.Field >= 0 && y.Field >= 0 {
			if x.Field != y.Field {
				return relDisjoint
			}
			continue
		}
		if x.Field >= 0 || y.Field >= 0 {
			return relUnknown
		}
		if x.Idx == y.Idx {
			continue
		}
		c := eqInt(x.Idx, y.Idx)
		switch s.decide(c) {
		case 1:
		case -1:
			return relDisjoint
		default:
			if fork {
				if !s.must(c) {
					return relDisjoint
				}
				continue
			}
			unknown = true
		}
	}
	if unknown {
		return relUnknown
	}
	switch {
	case len(a) == len(b):
		return relSame
	case len(a) < len(b):
		return relPrefix
	}
	return relSuffix
}

func projPath(v *Term, sels []Sel) *Term {
	for _, x := range sels {
		if x.Field >= 1000 {
			switch x.Field {
			case 1000:
				v = intern(&Term{op: OAddr, args: []*Term{v}})
			case 1001:
				v = lenOf(v)
			default:
				v = intern(&Term{op: OCap, args: []*Term{v}})
			}
			continue
		}
		if x.Field >= 0 {
			v = proj(v, x.Field)
		} else {
			v = intern(&Term{op: OApp, s: "at", args: []*Term{v, x.Idx}})
		}
	}
	return v
}

func (s *State) initialCell(o *Obj, sels []Sel, typ types.Type) *Term {
	if len(sels) > 0 && sels[len(sels)-1].Field >= 1000 {
		v := s.initialCell(o, sels[:len(sels)-1], types.NewSlice(types.Typ[types.Uint8]))
		return projPath(v, sels[len(sels)-1:])
	}
	if o.kind == ObjLocal {
		return zeroOf(typ)
	}
	if st, ok := typ.Underlying().(*types.Struct); ok && o.kind != ObjGlobal {
		as := make([]*Term, st.NumFields())
		for i := range as {
			as[i] = s.initialCell(o, append(sels[:len(sels):len(sels)], Sel{Field: i}), st.Field(i).Type())
		}
		return mkStruct(as)
	}
	if s.cfg != nil && s.cfg.InitCell != nil {
		if v := s.cfg.InitCell(s, o, sels, typ); v != nil {
			return v
		}
	}
	return intern(&Term{op: OLoad, obj: o, sels: sels, typ: typ})
}

// loadCell reads the typed cell at sels of o.
func (s *State) loadCell(o *Obj, sels []Sel, typ types.Type) *Term {
	return s.loadAt(o, s.cont(o), sels, typ)
}

func (s *State) loadAt(o *Obj, c *Content, sels []Sel, typ types.Type) *Term {
	for ; c != nil; c = c.parent {
		switch c.kind {
		case wCell:
			switch s.relate(c.sels, sels, s.cfg != nil && s.cfg.ForkIndex) {
			case relSame:
				return c.val
			case relPrefix:
				return projPath(c.val, sels[len(c.sels):])
			case relDisjoint:
				continue
			case relSuffix:
				// reading an aggregate partly overwritten: compose it
				if st, ok := typ.Underlying().(*types.Struct); ok {
					as := make([]*Term, st.NumFields())
					for i := range as {
						as[i] = s.loadAt(o, c, append(sels[:len(sels):len(sels)], Sel{Field: i}), st.Field(i).Type())
					}
					return mkStruct(as)
				}
			}
			return intern(&Term{op: OLoad, obj: o, sels: sels, content: c, typ: typ})
		case wCopy:
			if len(sels) > 0 && sels[0].Field < 0 {
				ix := sels[0].Idx
				in1 := le(c.off, ix)
				in2 := lt(ix, add(c.off, c.ln))
				d1, d2 := s.decide(in1), s.decide(in2)
				if d1 == -1 || d2 == -1 {
					continue
				}
				if s.cfg != nil && s.cfg.ForkIndex {
					if !s.must(in1) || !s.must(in2) {
						continue
					}
					d1, d2 = 1, 1
				}
				if d1 == 1 && d2 == 1 {
					ns := append([]Sel{{Field: -1, Idx: add(sub(ix, c.off), c.srcOff)}}, sels[1:]...)
					return s.loadElem(c.src, c.srcC, ns, typ)
				}
			}
			return intern(&Term{op: OLoad, obj: o, sels: sels, content: c, typ: typ})
		case wQuant:
			v, hit, unknown := s.loadQuant(o, c, sels, typ)
			if hit {
				return v
			}
			if unknown {
				return intern(&Term{op: OLoad, obj: o, sels: sels, content: c, typ: typ})
			}
			continue
		case wHavoc:
			if c.pats != nil {
				hit := false
				partial := false
				for _, p := range c.pats {
					switch s.relate(p, sels, false) {
					case relDisjoint:
					case relSuffix:
						partial = true
					default:
						hit = true
					}
				}
				if !hit && !partial {
					continue
				}
				if !hit {
					if st, ok := typ.Underlying().(*types.Struct); ok {
						as := make([]*Term, st.NumFields())
						for i := range as {
							as[i] = s.loadAt(o, c, append(sels[:len(sels):len(sels)], Sel{Field: i}), st.Field(i).Type())
						}
						return mkStruct(as)
					}
				}
			}
			if st, ok := typ.Underlying().(*types.Struct); ok {
				as := make([]*Term, st.NumFields())
				for i := range as {
					as[i] = s.loadAt(o, c, append(sels[:len(sels):len(sels)], Sel{Field: i}), st.Field(i).Type())
				}
				return mkStruct(as)
			}
			return intern(&Term{op: OLoad, obj: o, sels: sels, content: c, typ: typ})
		default: // byte writes to the same object
			return intern(&Term{op: OLoad, obj: o, sels: sels, content: c, typ: typ})
		}
	}
	return s.initialElem(o, sels, typ)
}

func (s *State) loadElem(o *Obj, c *Content, sels []Sel, typ types.Type) *Term {
	return s.loadAt(o, c, sels, typ)
}

// initialElem resolves abstract sequences (results of removals) before the plain initial cell.
func (s *State) initialElem(o *Obj, sels []Sel, typ types.Type) *Term {
	if o.tag != nil && o.tag.op == OApp && o.tag.s == "seq" && len(sels) > 0 && sels[0].Field < 0 {
		el := seqAt(s, o.tag, sels[0].Idx)
		if el != nil {
			return s.elemValue(el, sels[1:], typ)
		}
	}
	return s.initialCell(o, sels, typ)
}

// loadQuant looks sels up in a quantified write.
func (s *State) loadQuant(o *Obj, c *Content, sels []Sel, typ types.Type) (v *Term, hit, unknown bool) {
	for i := len(c.quant) - 1; i >= 0; i-- {
		q := c.quant[i]
		if q.kind != wCell {
			return nil, false, true
		}
		if len(q.sels) == 0 || len(sels) == 0 || q.sels[0].Field >= 0 || sels[0].Field >= 0 {
			return nil, false, true
		}
		// q.sels[0].Idx = a + b*k
		a, b, ok := affineIn(q.sels[0].Idx, c.k)
		if !ok || b != 1 && b != -1 {
			return nil, false, true
		}
		kk := mulc(sub(sels[0].Idx, a), b)
		rest := q.sels[1:]
		rel := s.relate(rest, sels[1:], false)
		if rel == relDisjoint {
			continue
		}
		d1, d2 := s.decide(le(tZero, kk)), s.decide(lt(kk, c.ln))
		if d1 == -1 || d2 == -1 {
			continue
		}
		if d1 != 1 || d2 != 1 {
			if s.cfg != nil && s.cfg.ForkIndex {
				if !s.must(le(tZero, kk)) || !s.must(lt(kk, c.ln)) {
					continue
				}
			} else {
				return nil, false, true
			}
		}
		val := subst(q.val, c.k, kk)
		switch rel {
		case relSame:
			return val, true, false
		case relPrefix:
			return projPath(val, sels[1+len(rest):]), true, false
		case relSuffix:
			if st, ok := typ.Underlying().(*types.Struct); ok {
				as := make([]*Term, st.NumFields())
				for j := range as {
					as[j] = s.loadAt(o, c, append(sels[:len(sels):len(sels)], Sel{Field: j}), st.Field(j).Type())
				}
				return mkStruct(as), true, false
			}
		}
		return nil, false, true
	}
	return nil, false, false
}

// affineIn writes t as a + b*k with a free of k.
func affineIn(t, k *Term) (*Term, int64, bool) {
	l := linOf(t)
	b := l.m[k]
	a := add(t, mulc(k, -b))
	if a.contains(k) {
		return nil, 0, false
	}
	return a, b, true
}

func (s *State) storeCell(o *Obj, sels []Sel, v *Term) {
	c := s.cont(o)
	// drop an overwritten top write to keep chains short
	for c != nil && c.kind == wCell && selKey(c.sels) == selKey(sels) {
		c = c.parent
	}
	if c != nil && len(sels) == 0 {
		c = nil
	}
	s.mem[o] = internC(&Content{parent: c, kind: wCell, sels: sels, val: v})
}

// ---- byte buffers ----

func (s *State) storeInt(o *Obj, off *Term, width int64, endian string, v *Term) {
	s.mem[o] = internC(&Content{parent: s.cont(o), kind: wInt, off: off, ln: mkInt(width), tag: endian, val: v})
}

func (s *State) storeCopy(o *Obj, off, ln *Term, src *Obj, srcC *Content, srcOff *Term) {
	if ln == tZero {
		return
	}
	s.mem[o] = internC(&Content{parent: s.cont(o), kind: wCopy, off: off, ln: ln, src: src, srcC: srcC, srcOff: srcOff})
}

// readInt reads an integer of width bytes at off.
func (s *State) readInt(o *Obj, c *Content, off *Term, width int64, endian string) *Term {
	w := mkInt(width)
	for ; c != nil; c = c.parent {
		switch c.kind {
		case wInt:
			if c.ln == w && (c.off == off || s.decide(eqInt(c.off, off)) == 1) && c.tag == endian {
				return c.val
			}
			if s.decide(le(add(off, w), c.off)) == 1 || s.decide(le(add(c.off, c.ln), off)) == 1 {
				continue
			}
			if s.cfg != nil && s.cfg.ForkIndex && c.ln == w && c.tag == endian && aligned(c.off, off, width) {
				if s.must(eqInt(c.off, off)) {
					return c.val
				}
				continue
			}
		case wCopy:
			if s.decide(le(add(off, w), c.off)) == 1 || s.decide(le(add(c.off, c.ln), off)) == 1 {
				continue
			}
			if s.decide(le(c.off, off)) == 1 && s.decide(le(add(off, w), add(c.off, c.ln))) == 1 {
				return s.readInt(c.src, c.srcC, add(sub(off, c.off), c.srcOff), width, endian)
			}
		case wQuant:
			v, hit, unknown := s.readQuant(c, off, w, endian)
			if hit {
				return v
			}
			if !unknown {
				continue
			}
		}
		return intern(&Term{op: OLoad, obj: o, sels: []Sel{{Field: -1, Idx: off}}, content: c, s: endian + strconv.Itoa(int(width*8))})
	}
	if o.kind == ObjLocal {
		return tZero
	}
	if s.cfg != nil && s.cfg.InitInt != nil {
		if v := s.cfg.InitInt(s, o, off, width); v != nil {
			return v
		}
	}
	t := &Term{op: OLoad, obj: o, sels: []Sel{{Field: -1, Idx: off}}, s: endian + strconv.Itoa(int(width*8))}
	if o.kind == ObjView && s.gen != nil {
		t.args = []*Term{s.gen}
	}
	return intern(t)
}

// readQuant looks up an integer in the writes of the iterations [0,c.ln).
func (s *State) readQuant(c *Content, off, w *Term, endian string) (v *Term, hit, unknown bool) {
	var at *Term
	for i := len(c.quant) - 1; i >= 0; i-- {
		q := c.quant[i]
		if q.kind != wInt {
			return nil, false, true
		}
		kk, un := s.quantAt(c, q, off, w)
		switch {
		case un:
			return nil, false, true
		case kk == nil:
		case q.ln != w || q.tag != endian || hit && at != kk:
			return nil, false, true
		case !hit:
			v, hit, at = subst(q.val, c.k, kk), true, kk
		}
	}
	return v, hit, false
}

// quantAt is the iteration in which the repeated write q of integers covers [off,off+w), nil if none touches it.
func (s *State) quantAt(c, q *Content, off, w *Term) (kk *Term, unknown bool) {
	a, b, ok := affineIn(q.off, c.k)
	if !ok || b == 0 {
		return nil, true
	}
	lo, hi := a, add(a, mulc(sub(c.ln, tOne), b)) // offsets of the first and last iteration
	if b < 0 {
		lo, hi = hi, lo
	}
	if s.decide(le(add(off, w), lo)) == 1 || s.decide(le(add(hi, q.ln), off)) == 1 {
		return nil, false
	}
	ab := b
	if ab < 0 {
		ab = -ab
	}
	if q.ln.op != OConst || w.op != OConst || q.ln.i > ab || w.i > ab {
		return nil, true
	}
	l := linOf(sub(off, a))
	kk = tZero
	for _, t := range sortedAtoms(l) {
		if l.m[t]%b != 0 {
			return nil, true
		}
		kk = add(kk, mulc(t, l.m[t]/b))
	}
	if m := ((l.c % ab) + ab) % ab; m != 0 {
		// between the places of two iterations
		return nil, m < q.ln.i || m+w.i > ab
	}
	kk = add(kk, mkInt(l.c/b))
	d1, d2 := s.decide(le(tZero, kk)), s.decide(lt(kk, c.ln))
	if d1 == -1 || d2 == -1 {
		return nil, false
	}
	return kk, d1 != 1 || d2 != 1
}

// aligned: both offsets are multiples of width apart whatever the symbols.
func aligned(a, b *Term, width int64) bool {
	l := linOf(sub(a, b))
	if l.c%width != 0 {
		return false
	}
	for _, c := range l.m {
		if c%width != 0 {
			return false
		}
	}
	return true
}

// ---- substitution ----

func subst(t, from, to *Term) *Term {
	if from == to {
		return t
	}
	memo := map[*Term]*Term{}
	return substM(t, from, to, memo)
}

func substM(t, from, to *Term, memo map[*Term]*Term) *Term {
	if t == nil {
		return nil
	}
	if t == from {
		return to
	}
	if r, ok := memo[t]; ok {
		return r
	}
	r := t
	if len(t.args) > 0 || len(t.sels) > 0 || t.obj != nil || t.content != nil {
		as := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			as[i] = substM(a, from, to, memo)
			ch = ch || as[i] != a
		}
		ss := make([]Sel, len(t.sels))
		for i, x := range t.sels {
			ss[i] = x
			if x.Idx != nil {
				ss[i].Idx = substM(x.Idx, from, to, memo)
				ch = ch || ss[i].Idx != x.Idx
			}
		}
		o := t.obj
		if o != nil {
			o = substObj(o, from, to, memo)
			ch = ch || o != t.obj
		}
		ct := t.content
		if ct != nil {
			ct = substC(ct, from, to, memo)
			ch = ch || ct != t.content
		}
		if ch {
			r = rebuild(t, as, ss, o, ct)
		}
	}
	memo[t] = r
	return r
}

// substC substitutes inside a memory content.
func substC(c *Content, from, to *Term, memo map[*Term]*Term) *Content {
	if c == nil {
		return nil
	}
	mk := mkSym(fmt.Sprintf("memo$%d", c.id), nil) // memo slot of this content
	if r, ok := memo[mk]; ok {
		return r.content
	}
	var chain []*Content
	base := (*Content)(nil)
	for x := c; x != nil; x = x.parent {
		if r, ok := memo[mkSym(fmt.Sprintf("memo$%d", x.id), nil)]; ok {
			base = r.content
			break
		}
		chain = append(chain, x)
	}
	cur := base
	for i := len(chain) - 1; i >= 0; i-- {
		x := chain[i]
		n := *x
		n.parent = cur
		ch := n.parent != x.parent
		t := func(a *Term) *Term {
			r := substM(a, from, to, memo)
			ch = ch || r != a
			return r
		}
		n.val, n.off, n.ln, n.srcOff = t(x.val), t(x.off), t(x.ln), t(x.srcOff)
		if x.kind == wHavoc {
			n.k = t(x.k)
			if n.k != nil {
				n.tag = strconv.Itoa(n.k.id)
			}
		}
		if x.src != nil {
			n.src = substObj(x.src, from, to, memo)
			n.srcC = substC(x.srcC, from, to, memo)
			ch = ch || n.src != x.src || n.srcC != x.srcC
		}
		if len(x.sels) > 0 {
			n.sels = substSels(x.sels, from, to, memo, &ch)
		}
		if len(x.quant) > 0 {
			n.quant = make([]*Content, len(x.quant))
			for j, q := range x.quant {
				n.quant[j] = substC(q, from, to, memo)
				ch = ch || n.quant[j] != q
			}
		}
		if len(x.pats) > 0 {
			n.pats = make([][]Sel, len(x.pats))
			for j, p := range x.pats {
				n.pats[j] = substSels(p, from, to, memo, &ch)
			}
		}
		if len(x.vals) > 0 {
			n.vals = make([]*Term, len(x.vals))
			for j, v := range x.vals {
				n.vals[j] = t(v)
			}
		}
		r := x
		if ch {
			n.id = 0
			r = internC(&n)
		}
		memo[mkSym(fmt.Sprintf("memo$%d", x.id), nil)] = &Term{content: r}
		cur = r
	}
	return cur
}

func substSels(ss []Sel, from, to *Term, memo map[*Term]*Term, ch *bool) []Sel {
	n := make([]Sel, len(ss))
	for i, x := range ss {
		n[i] = x
		if x.Idx != nil {
			n[i].Idx = substM(x.Idx, from, to, memo)
			*ch = *ch || n[i].Idx != x.Idx
		}
	}
	return n
}

func substObj(o *Obj, from, to *Term, memo map[*Term]*Term) *Obj {
	switch {
	case o.part != nil:
		tag := substM(o.tag, from, to, memo)
		pg := substObj(o.part, from, to, memo)
		if tag != o.tag || pg != o.part {
			return partObj(pg, tag, o.seqAt)
		}
	case o.kind == ObjView && o.addr != nil:
		if a := substM(o.addr, from, to, memo); a != o.addr {
			return viewObj(a)
		}
	case o.kind == ObjSym && o.of != nil:
		if a := substM(o.of, from, to, memo); a != o.of {
			return symObj(a)
		}
	case o.kind == ObjExt && o.tag != nil:
		if a := substM(o.tag, from, to, memo); a != o.tag {
			return extObj(o.name, a)
		}
	case o.kind == ObjLocal && len(o.ks) > 0:
		ks := make([]*Term, len(o.ks))
		ch := false
		for i, k := range o.ks {
			ks[i] = substM(k, from, to, memo)
			ch = ch || ks[i] != k
		}
		if ch {
			return localObj(o.base, o.name, o.typ, ks)
		}
	}
	return o
}

func rebuild(t *Term, as []*Term, ss []Sel, o *Obj, ct *Content) *Term {
	switch t.op {
	case OLin:
		r := mkInt(t.i)
		for i, a := range as {
			r = add(r, mulc(a, t.coef[i]))
		}
		return r
	case OLE0:
		return le0(as[0])
	case OEQ0:
		return eq0(as[0])
	case ONot:
		return not(as[0])
	case OEQ:
		return eqTerm(as[0], as[1])
	case OLen:
		return lenOf(as[0])
	case OMin:
		return mkMin(as[0], as[1])
	case OPow2:
		return pow2(as[0])
	case OShr:
		return shr(as[0], as[1])
	case OLow:
		return low(as[0], as[1])
	case OField:
		return proj(as[0], int(t.i))
	case OStruct:
		return mkStruct(as)
	case OSlice:
		return mkSlice(o, as[0], as[1], t.i)
	case OBin:
		switch t.s {
		case "*":
			return mul(as[0], as[1])
		case "/":
			return quo(as[0], as[1])
		case "%":
			return rem(as[0], as[1])
		}
	case OApp:
		if t.s == "sum" {
			return sumApp(as[0], as[1])
		}
	}
	n := &Term{op: t.op, i: t.i, s: t.s, args: as, coef: t.coef, obj: o, content: ct, fn: t.fn, typ: t.typ}
	if len(ss) > 0 {
		n.sels = ss
	}
	if len(as) == 0 {
		n.args = nil
	}
	return intern(n)
}

func sortTerms(ts []*Term) {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
}
