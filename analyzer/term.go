package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// Terms are interned value numbers. Integers are kept in affine normal form.

type Op uint8

const (
	OConst Op = iota
	OBool
	OStr
	OFloat
	ONil
	OSym
	OLin
	OBin
	ONarrow
	OFcmp
	OFop
	OLE0
	OEQ0
	OEQ
	ONot
	OTuple
	OStruct
	OField
	OPtr
	OSlice
	OLen
	OCap
	OApp
	OClosure
	OIface
	OMin
	OPow2
	OShr
	OLow
	OClrBit
	OLoad
	OAddr // data pointer of a slice
)

type Sel struct {
	Field int // -1 for index
	Idx   *Term
}

type Term struct {
	id      int
	op      Op
	i       int64
	s       string
	args    []*Term
	coef    []int64
	obj     *Obj
	sels    []Sel
	content *Content
	fn      interface{}
	typ     types.Type
	key     string
}

type ObjKind uint8

const (
	ObjLocal  ObjKind = iota // allocated by the analysed code, initially zero
	ObjSym                   // designated by a symbolic pointer/slice; initially symbolic
	ObjView                  // space on the file storage, designated by its address
	ObjGlobal                // package variable
	ObjExt                   // allocated by a modelled external function (private, symbolic contents)
)

type Obj struct {
	id    int
	kind  ObjKind
	key   string
	name  string
	addr  *Term // ObjView
	of    *Term // ObjSym: the symbolic reference
	typ   types.Type
	tag   *Term   // abstract content (ObjExt, parts of pages)
	part  *Obj    // the page this object is a part of
	seqAt *Term   // the sequence of the page when the part was designated
	base  string  // ObjLocal: name of the allocation
	ks    []*Term // ObjLocal: the iterations it was allocated in
}

var (
	termTab = map[string]*Term{}
	terms   []*Term
	objTab  = map[string]*Obj{}
)

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteString(strconv.Itoa(int(t.op)))
	sb.WriteByte('|')
	sb.WriteString(strconv.FormatInt(t.i, 10))
	sb.WriteByte('|')
	sb.WriteString(t.s)
	for _, a := range t.args {
		sb.WriteByte(',')
		sb.WriteString(strconv.Itoa(a.id))
	}
	if t.coef != nil {
		for _, c := range t.coef {
			sb.WriteByte('*')
			sb.WriteString(strconv.FormatInt(c, 10))
		}
	}
	if t.obj != nil {
		sb.WriteString("|o")
		sb.WriteString(strconv.Itoa(t.obj.id))
	}
	for _, s := range t.sels {
		if s.Field >= 0 {
			sb.WriteString("." + strconv.Itoa(s.Field))
		} else {
			sb.WriteString("[" + strconv.Itoa(s.Idx.id) + "]")
		}
	}
	if t.content != nil {
		sb.WriteString("|c" + strconv.Itoa(t.content.id))
	}
	if t.fn != nil {
		sb.WriteString(fmt.Sprintf("|f%p", t.fn))
	}
	k := sb.String()
	if o, ok := termTab[k]; ok {
		return o
	}
	t.id = len(terms)
	t.key = k
	terms = append(terms, t)
	termTab[k] = t
	return t
}

func getObj(kind ObjKind, key, name string) *Obj {
	k := fmt.Sprintf("%d:%s", kind, key)
	if o, ok := objTab[k]; ok {
		return o
	}
	o := &Obj{id: len(objTab), kind: kind, key: k, name: name}
	objTab[k] = o
	return o
}

// localObj is the object of an allocation, by the iterations of the enclosing loops.
func localObj(base, name string, typ types.Type, ks []*Term) *Obj {
	k := base
	for _, t := range ks {
		k += "/" + strconv.Itoa(t.id)
	}
	o := getObj(ObjLocal, k, name)
	o.base, o.ks = base, ks
	if o.typ == nil {
		o.typ = typ
	}
	return o
}

func viewObj(addr *Term) *Obj {
	o := getObj(ObjView, strconv.Itoa(addr.id), "")
	o.addr = addr
	return o
}

func symObj(of *Term) *Obj {
	o := getObj(ObjSym, strconv.Itoa(of.id), "")
	o.of = of
	return o
}

// extObj is a private buffer whose abstract content is tag.
func extObj(name string, tag *Term) *Obj {
	o := getObj(ObjExt, name+":"+strconv.Itoa(tag.id), name)
	o.tag = tag
	return o
}

// partObj is the part of a page holding tag.
func partObj(page *Obj, tag, seqAt *Term) *Obj {
	o := getObj(ObjView, fmt.Sprintf("part:%d:%d:%d", page.id, tag.id, tid(seqAt)), "")
	o.part, o.tag, o.seqAt, o.addr = page, tag, seqAt, page.addr
	return o
}

func mkInt(i int64) *Term { return intern(&Term{op: OConst, i: i}) }
func mkBool(b bool) *Term {
	if b {
		return intern(&Term{op: OBool, i: 1})
	}
	return intern(&Term{op: OBool, i: 0})
}

var (
	tTrue  = mkBool(true)
	tFalse = mkBool(false)
	tZero  = mkInt(0)
	tOne   = mkInt(1)
	tNil   = intern(&Term{op: ONil})
	tNone  = intern(&Term{op: OSym, s: "none"})
)

func mkSym(name string, t types.Type) *Term { return intern(&Term{op: OSym, s: name, typ: t}) }

func mkApp(name string, args ...*Term) *Term {
	return intern(&Term{op: OApp, s: name, args: args})
}

// ---- affine forms ----

type lin struct {
	m map[*Term]int64
	c int64
}

func linOf(t *Term) lin {
	switch t.op {
	case OConst:
		return lin{nil, t.i}
	case OLin:
		m := make(map[*Term]int64, len(t.args))
		for i, a := range t.args {
			m[a] = t.coef[i]
		}
		return lin{m, t.i}
	}
	return lin{map[*Term]int64{t: 1}, 0}
}

func (l lin) term() *Term {
	var as []*Term
	for a, c := range l.m {
		if c != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return mkInt(l.c)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && l.m[as[0]] == 1 && l.c == 0 {
		return as[0]
	}
	cs := make([]int64, len(as))
	for i, a := range as {
		cs[i] = l.m[a]
	}
	return intern(&Term{op: OLin, i: l.c, args: as, coef: cs})
}

func linAdd(a, b lin, k int64) lin {
	m := make(map[*Term]int64, len(a.m)+len(b.m))
	for t, c := range a.m {
		m[t] = c
	}
	for t, c := range b.m {
		m[t] += k * c
	}
	return lin{m, a.c + k*b.c}
}

func add(a, b *Term) *Term { return linAdd(linOf(a), linOf(b), 1).term() }
func sub(a, b *Term) *Term { return linAdd(linOf(a), linOf(b), -1).term() }
func addc(a *Term, c int64) *Term {
	l := linOf(a)
	return lin{l.m, l.c + c}.term()
}
func mulc(a *Term, k int64) *Term {
	l := linOf(a)
	m := make(map[*Term]int64, len(l.m))
	for t, c := range l.m {
		m[t] = c * k
	}
	return lin{m, l.c * k}.term()
}

func mul(a, b *Term) *Term {
	if a.op == OConst {
		return mulc(b, a.i)
	}
	if b.op == OConst {
		return mulc(a, b.i)
	}
	// distribute over a power of two
	if a.op == OPow2 {
		a, b = b, a
	}
	if b.op == OPow2 {
		l := linOf(a)
		r := tZero
		for _, t := range sortedAtoms(l) {
			if t.op == OPow2 {
				r = add(r, mulc(pow2(add(t.args[0], b.args[0])), l.m[t]))
			} else {
				r = add(r, mulc(bin("*", t, b), l.m[t]))
			}
		}
		return add(r, mulc(b, l.c))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return bin("*", a, b)
}

func sortedAtoms(l lin) []*Term {
	var as []*Term
	for t, c := range l.m {
		if c != 0 {
			as = append(as, t)
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	return as
}

func bin(op string, a, b *Term) *Term {
	return intern(&Term{op: OBin, s: op, args: []*Term{a, b}})
}

func pow2(e *Term) *Term {
	l := linOf(e)
	if len(l.m) == 0 {
		if l.c >= 0 && l.c < 63 {
			return mkInt(1 << uint(l.c))
		}
		return intern(&Term{op: OPow2, args: []*Term{e}})
	}
	if l.c > 0 && l.c < 62 {
		return mulc(intern(&Term{op: OPow2, args: []*Term{lin{l.m, 0}.term()}}), 1<<uint(l.c))
	}
	return intern(&Term{op: OPow2, args: []*Term{e}})
}

// asPow2 reports e with t == 2^e.
func asPow2(t *Term) *Term {
	switch t.op {
	case OConst:
		if t.i > 0 && t.i&(t.i-1) == 0 {
			return mkInt(int64(bits.TrailingZeros64(uint64(t.i))))
		}
	case OPow2:
		return t.args[0]
	case OLin:
		if len(t.args) == 1 && t.i == 0 && t.args[0].op == OPow2 {
			c := t.coef[0]
			if c > 0 && c&(c-1) == 0 {
				return addc(t.args[0].args[0], int64(bits.TrailingZeros64(uint64(c))))
			}
		}
	}
	return nil
}

func shl(a, n *Term) *Term { return mul(a, pow2(n)) }
func shr(a, n *Term) *Term {
	if a.op == OConst && n.op == OConst && a.i >= 0 && n.i < 63 {
		return mkInt(a.i >> uint(n.i))
	}
	if n.op == OConst && n.i == 0 {
		return a
	}
	if n.op == OConst && n.i < 62 { // exact multiples
		l := linOf(a)
		ok := l.c%(1<<uint(n.i)) == 0
		for _, c := range l.m {
			ok = ok && c%(1<<uint(n.i)) == 0
		}
		if ok {
			m := map[*Term]int64{}
			for t, c := range l.m {
				m[t] = c >> uint(n.i)
			}
			return lin{m, l.c >> uint(n.i)}.term()
		}
	}
	return intern(&Term{op: OShr, args: []*Term{a, n}})
}

// low keeps the n low bits.
func low(a, n *Term) *Term {
	if a.op == OConst && n.op == OConst && n.i < 63 {
		return mkInt(a.i & (1<<uint(n.i) - 1))
	}
	if a.op == OLow {
		if a.args[1] == n {
			return a
		}
		if d := sub(a.args[1], n); d.op == OConst {
			if d.i <= 0 {
				return a
			}
			return low(a.args[0], n)
		}
	}
	return intern(&Term{op: OLow, args: []*Term{a, n}})
}

func band(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return mkInt(a.i & b.i)
	}
	for k := 0; k < 2; k++ {
		if e := asPow2(addc(b, 1)); e != nil {
			return low(a, e)
		}
		a, b = b, a
	}
	// x & ^(1<<e)  ==  x &^ (1<<e)
	for k := 0; k < 2; k++ {
		if b.op == OApp && b.s == "^" {
			return andnot(a, b.args[0])
		}
		a, b = b, a
	}
	if a.id > b.id {
		a, b = b, a
	}
	return bin("&", a, b)
}

func andnot(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return mkInt(a.i &^ b.i)
	}
	if e := asPow2(b); e != nil {
		return intern(&Term{op: OClrBit, args: []*Term{a, e}})
	}
	return bin("&^", a, b)
}

func isBit(t *Term) bool {
	if t.op == OLow && t.args[1] == tOne {
		return true
	}
	if t.op == OLin && t.i == 1 && len(t.args) == 1 && t.coef[0] == -1 && isBit(t.args[0]) {
		return true
	}
	return t.op == OConst && (t.i == 0 || t.i == 1)
}

func even(t *Term) bool {
	l := linOf(t)
	if l.c%2 != 0 {
		return false
	}
	for _, c := range l.m {
		if c%2 != 0 {
			return false
		}
	}
	return true
}

func bor(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return mkInt(a.i | b.i)
	}
	if even(a) && isBit(b) || even(b) && isBit(a) {
		return add(a, b)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return bin("|", a, b)
}

func bxor(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst {
		return mkInt(a.i ^ b.i)
	}
	if a == tOne && isBit(b) {
		return sub(tOne, b)
	}
	if b == tOne && isBit(a) {
		return sub(tOne, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return bin("^", a, b)
}

func quo(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst && b.i != 0 {
		return mkInt(a.i / b.i)
	}
	if e := asPow2(b); e != nil {
		return shr(a, e)
	}
	return bin("/", a, b)
}

func rem(a, b *Term) *Term {
	if a.op == OConst && b.op == OConst && b.i != 0 {
		return mkInt(a.i % b.i)
	}
	if e := asPow2(b); e != nil {
		return low(a, e)
	}
	return bin("%", a, b)
}

// ---- booleans ----

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// le0 is t <= 0 over the integers.
func le0(t *Term) *Term {
	l := linOf(t)
	if len(sortedAtoms(l)) == 0 {
		return mkBool(l.c <= 0)
	}
	var g int64
	for _, c := range l.m {
		g = gcd(g, c)
	}
	if g > 1 {
		m := map[*Term]int64{}
		for a, c := range l.m {
			m[a] = c / g
		}
		c := l.c
		// c/g rounded up
		q := c / g
		if c%g != 0 && c > 0 {
			q++
		}
		l = lin{m, q}
	}
	return intern(&Term{op: OLE0, args: []*Term{l.term()}})
}

func eq0(t *Term) *Term {
	l := linOf(t)
	as := sortedAtoms(l)
	if len(as) == 0 {
		return mkBool(l.c == 0)
	}
	var g int64
	for _, c := range l.m {
		g = gcd(g, c)
	}
	if g > 1 {
		if l.c%g != 0 {
			return tFalse
		}
	}
	if l.m[as[0]] < 0 {
		g = -g
	}
	if g != 1 && g != 0 {
		m := map[*Term]int64{}
		for a, c := range l.m {
			m[a] = c / g
		}
		l = lin{m, l.c / g}
	}
	return intern(&Term{op: OEQ0, args: []*Term{l.term()}})
}

func lt(a, b *Term) *Term { return le0(addc(sub(a, b), 1)) }
func le(a, b *Term) *Term { return le0(sub(a, b)) }
func eqInt(a, b *Term) *Term {
	return eq0(sub(a, b))
}

func not(t *Term) *Term {
	switch t.op {
	case OBool:
		return mkBool(t.i == 0)
	case ONot:
		return t.args[0]
	case OLE0:
		return le0(addc(mulc(t.args[0], -1), 1))
	}
	return intern(&Term{op: ONot, args: []*Term{t}})
}

func eqTerm(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.op == OBool {
		a, b = b, a
	}
	if b.op == OBool {
		if b.i == 1 {
			return a
		}
		return not(a)
	}
	if a.op == OStr && b.op == OStr {
		return tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: OEQ, args: []*Term{a, b}})
}

// ---- aggregates ----

func mkTuple(args []*Term) *Term { return intern(&Term{op: OTuple, args: args}) }

func proj(t *Term, i int) *Term {
	if t.op == OTuple || t.op == OStruct {
		if i < len(t.args) {
			return t.args[i]
		}
	}
	return intern(&Term{op: OField, i: int64(i), args: []*Term{t}})
}

func mkStruct(args []*Term) *Term {
	if n := len(args); n > 0 && args[0].op == OField && args[0].i == 0 {
		b := args[0].args[0]
		ok := true
		for i, a := range args {
			if a.op != OField || a.i != int64(i) || a.args[0] != b {
				ok = false
			}
		}
		if st := structNumFields(b.typ); ok && st == n {
			return b
		}
	}
	return intern(&Term{op: OStruct, args: args})
}

func structNumFields(t types.Type) int {
	if t == nil {
		return -1
	}
	if s, ok := t.Underlying().(*types.Struct); ok {
		return s.NumFields()
	}
	return -1
}

func mkPtr(o *Obj, sels []Sel) *Term {
	return intern(&Term{op: OPtr, obj: o, sels: sels})
}

func lenOf(t *Term) *Term {
	switch t.op {
	case OSlice:
		return t.args[1]
	case ONil:
		return tZero
	case OStr:
		return mkInt(int64(len(t.s)))
	}
	return intern(&Term{op: OLen, args: []*Term{t}})
}

// sliceParts splits any slice-valued term.
func sliceParts(t *Term) (base *Obj, off, ln *Term, epoch int64) {
	switch t.op {
	case OSlice:
		return t.obj, t.args[0], t.args[1], t.i
	case ONil:
		return nil, tZero, tZero, 0
	}
	return symObj(t), tZero, lenOf(t), 0
}

func mkSlice(base *Obj, off, ln *Term, epoch int64) *Term {
	if base == nil {
		return tNil
	}
	if base.kind == ObjSym && off == tZero && epoch == 0 {
		if base.of.op != OPtr && ln == lenOf(base.of) {
			return base.of
		}
	}
	return intern(&Term{op: OSlice, obj: base, args: []*Term{off, ln}, i: epoch})
}

func mkMin(a, b *Term) *Term {
	if a == b {
		return a
	}
	d := sub(a, b)
	if d.op == OConst {
		if d.i <= 0 {
			return a
		}
		return b
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(&Term{op: OMin, args: []*Term{a, b}})
}

// ---- printing ----

func (o *Obj) String() string {
	if o == nil {
		return "<nil>"
	}
	switch o.kind {
	case ObjView:
		if o.part != nil {
			return "part<" + o.tag.String() + ">"
		}
		return "view(" + o.addr.String() + ")"
	case ObjExt:
		if o.tag != nil {
			return o.name + "<" + o.tag.String() + ">"
		}
	case ObjSym:
		return "*" + o.of.String()
	}
	return o.name
}

func (s Sel) String() string {
	if s.Field >= 0 {
		return "." + strconv.Itoa(s.Field)
	}
	return "[" + s.Idx.String() + "]"
}

var printDepth int

var shortPrint bool
var shortNames = map[int]string{}

func (t *Term) String() string {
	s := t.str()
	if shortPrint && printDepth > 0 && len(s) > 50 {
		shortNames[t.id] = s
		return "§" + strconv.Itoa(t.id)
	}
	return s
}

func (t *Term) str() string {
	if t == nil {
		return "<nil>"
	}
	printDepth++
	defer func() { printDepth-- }()
	if printDepth > 24 {
		return "…"
	}
	as := func() string {
		var p []string
		for _, a := range t.args {
			p = append(p, a.String())
		}
		return strings.Join(p, ", ")
	}
	switch t.op {
	case OConst:
		return strconv.FormatInt(t.i, 10)
	case OBool:
		if t.i == 1 {
			return "true"
		}
		return "false"
	case OStr:
		return strconv.Quote(t.s)
	case OFloat, OSym:
		return t.s
	case ONil:
		return "nil"
	case OLin:
		var sb strings.Builder
		for i, a := range t.args {
			c := t.coef[i]
			if c < 0 {
				sb.WriteString("-")
				c = -c
			} else if i > 0 {
				sb.WriteString("+")
			}
			if c != 1 {
				fmt.Fprintf(&sb, "%d*", c)
			}
			sb.WriteString(a.String())
		}
		if t.i > 0 {
			fmt.Fprintf(&sb, "+%d", t.i)
		} else if t.i < 0 {
			fmt.Fprintf(&sb, "%d", t.i)
		}
		return "(" + sb.String() + ")"
	case OBin, OFop:
		return "(" + t.args[0].String() + t.s + t.args[1].String() + ")"
	case OFcmp:
		return "(" + t.args[0].String() + " " + t.s + " " + t.args[1].String() + ")"
	case ONarrow:
		return t.s + "(" + as() + ")"
	case OLE0:
		l := linOf(t.args[0])
		var pos, neg = lin{map[*Term]int64{}, 0}, lin{map[*Term]int64{}, 0}
		for a, c := range l.m {
			if c > 0 {
				pos.m[a] = c
			} else {
				neg.m[a] = -c
			}
		}
		if l.c > 0 {
			pos.c = l.c
		} else {
			neg.c = -l.c
		}
		return pos.term().String() + " <= " + neg.term().String()
	case OEQ0:
		return t.args[0].String() + "==0"
	case OEQ:
		return t.args[0].String() + " == " + t.args[1].String()
	case ONot:
		return "!(" + t.args[0].String() + ")"
	case OTuple:
		return "(" + as() + ")"
	case OStruct:
		return "{" + as() + "}"
	case OField:
		return t.args[0].String() + "#" + strconv.FormatInt(t.i, 10)
	case OPtr:
		s := "&" + t.obj.String()
		for _, x := range t.sels {
			s += x.String()
		}
		return s
	case OSlice:
		e := ""
		if t.obj.kind == ObjView {
			e = fmt.Sprintf("@%d", t.i)
		}
		return t.obj.String() + e + "[" + t.args[0].String() + ";" + t.args[1].String() + "]"
	case OLen:
		return "len(" + as() + ")"
	case OCap:
		return "cap(" + as() + ")"
	case OApp:
		v := ""
		if t.content != nil {
			v = fmt.Sprintf("'%d", t.content.id)
		}
		if t.i != 0 {
			v += fmt.Sprintf("~%d", t.i)
		}
		return shortApp(t.s) + v + argList(as())
	case OClosure:
		return "closure(" + as() + ")"
	case OIface:
		return "iface(" + as() + ")"
	case OMin:
		return "min(" + as() + ")"
	case OPow2:
		return "2^" + t.args[0].String()
	case OShr:
		return "(" + t.args[0].String() + ">>" + t.args[1].String() + ")"
	case OLow:
		return "low(" + as() + ")"
	case OClrBit:
		return "clrbit(" + as() + ")"
	case OLoad:
		v := ""
		if t.content != nil {
			v = fmt.Sprintf("'%d", t.content.id)
		}
		s := t.obj.String()
		for _, x := range t.sels {
			s += x.String()
		}
		return s + v
	case OAddr:
		return "data(" + as() + ")"
	}
	return "?"
}

// shortApp abbreviates the names of loop counters and loop variables for reports.
func shortApp(s string) string {
	for _, p := range []string{"k$", "phi$", "cell$"} {
		if strings.HasPrefix(s, p) {
			f := strings.TrimPrefix(s, p)
			v := ""
			if i := strings.LastIndex(f, ":"); i >= 0 {
				f, v = f[:i], f[i+1:]
			}
			if i := strings.Index(f, "."); i >= 0 {
				f = f[i+1:]
			}
			if i := strings.LastIndex(f, "."); i >= 0 {
				f = f[i+1:]
			}
			if p == "k$" {
				return "k:" + f
			}
			return v + "@" + f
		}
	}
	return s
}

func argList(s string) string {
	if s == "" {
		return ""
	}
	return "(" + s + ")"
}

// walk visits t and all its subterms once.
func (t *Term) walk(f func(*Term) bool) {
	seen := map[*Term]bool{}
	var rec func(*Term)
	rec = func(x *Term) {
		if x == nil || seen[x] {
			return
		}
		seen[x] = true
		if !f(x) {
			return
		}
		for _, a := range x.args {
			rec(a)
		}
		for _, s := range x.sels {
			if s.Idx != nil {
				rec(s.Idx)
			}
		}
		if x.obj != nil {
			if x.obj.addr != nil {
				rec(x.obj.addr)
			}
			if x.obj.of != nil {
				rec(x.obj.of)
			}
		}
	}
	rec(t)
}

func (t *Term) contains(x *Term) bool {
	found := false
	t.walk(func(y *Term) bool {
		if y == x {
			found = true
		}
		return !found
	})
	return found
}
