package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"

	"go/types"
	"golang.org/x/tools/go/ssa"
)

// C13: what is put into a page is what is read from it. The effect of every
// page operation on the bytes of the page is composed with the functions
// which read entries, for an entry before, inside and behind the place of the
// operation, starting from any well-formed page.

func init() {
	register("C13", "effects of the page operations as regions of the page (strided headers, shifted and copied stretches; loop variables as prefix sums by induction), composed with the functions reading entries, for entries before, inside and behind the place of the operation of any well-formed page", compose(rulePages, rulePageHeaders))
}

// pageLay is the layout of a kind of pages, taken from the functions which read it.
type pageLay struct {
	leaf    bool
	typ     string
	first   int64   // offset of the header of entry 0
	cuts    []int64 // offsets of the headers of entry 0 giving where its parts begin
	stride  int64
	addr    int64 // offset of the child address of entry 0, -1 for none
	count   int64 // offset of the number of entries
	end     int64 // the end of the last entry
	getters []*Run
	parts   []string // what the getters read
	numOf   *Run
	load    *Run
	evals   map[interface{}]interface{}
}

type pageUnknown struct{ why string }

// pageEval evaluates terms and contents of a page under assumptions.
type pageEval struct {
	lay     *pageLay
	st      *State
	view    *Obj
	countAt *Term
	n       *Term
	recs    *Term // the entries passed in
	m       *Term
	apart   []*Term // not zero
	extra   []lin   // assumptions about sizes, <= 0
	defs    map[string]*linDef
	special bool
	fresh   int
	gview   *Obj // the page as the reading function names it
	gsize   *Term
	final   *Content
	out     *Outcome
	inside  *pageEval // the same within the loops
	cand    []*Term
	hope    []*Term // minima taken to be their first choice: differences to be shown
	hoping  bool
	why     string
	memo    map[string]bool
}

func (e *pageEval) fail(why string, a ...interface{}) { panic(pageUnknown{fmt.Sprintf(why, a...)}) }

func (e *pageEval) child() *pageEval {
	q := *e
	q.st = e.st.clone()
	q.extra = append([]lin(nil), e.extra...)
	q.defs = cloneMap(e.defs)
	q.memo = nil
	return &q
}

func (e *pageEval) sym(name string) *Term {
	e.fresh++
	return mkSym(fmt.Sprintf("?%s%d", name, e.fresh), nil)
}

func (e *pageEval) le(a, b *Term) bool { return a == b || e.nonPos(linOf(sub(a, b))) }
func (e *pageEval) lt(a, b *Term) bool { return e.nonPos(linOf(addc(sub(a, b), 1))) }
func (e *pageEval) same(a, b *Term) bool {
	return a == b || e.le(a, b) && e.le(b, a)
}

// fieldLen is the length of part q of entry i of those passed in.
func (e *pageEval) fieldLen(q int, i *Term) *Term { return lenOf(e.field(q, i)) }

func (e *pageEval) field(q int, i *Term) *Term {
	o, off, _, _ := sliceParts(e.recs)
	sl := elemFieldType(e.recs, q)
	return newState(e.st.cfg).loadElem(o, nil, []Sel{{Field: -1, Idx: add(off, i)}, {Field: q}}, sl)
}

// cutAt is where part q of entry i begins.
func (e *pageEval) cutAt(q int, i *Term) *Term {
	if q == len(e.lay.cuts) {
		q, i = 0, addc(i, 1)
	}
	if q == 0 && e.same(i, e.n) {
		return mkInt(e.lay.end)
	}
	t := mkApp("cut"+strconv.Itoa(q), i)
	return t
}

// sumAt is the length of the parts q of the first i entries passed in.
func (e *pageEval) sumAt(q int, i *Term) *Term {
	l := linOf(i)
	if i == tZero {
		return tZero
	}
	if l.c > 0 {
		p := addc(i, -1)
		return add(e.sumAt(q, p), e.fieldLen(q, p))
	}
	t := mkApp("psum"+strconv.Itoa(q), i)
	return t
}

func isCut(t *Term) (q int, ok bool) {
	if t.op == OApp && strings.HasPrefix(t.s, "cut") && len(t.args) == 1 {
		q, err := strconv.Atoi(t.s[3:])
		return q, err == nil
	}
	return 0, false
}

func isPsum(t *Term) (q int, ok bool) {
	if t.op == OApp && strings.HasPrefix(t.s, "psum") && len(t.args) == 1 {
		q, err := strconv.Atoi(t.s[4:])
		return q, err == nil
	}
	return 0, false
}

func (e *pageEval) minLen() int64 {
	if e.special {
		return 16
	}
	return 0
}

// fact assumes a condition. Those about indexes only go to the index state.
func (e *pageEval) fact(c *Term) {
	if c.op == OLE0 || c.op == OEQ0 {
		for _, a := range sortedAtoms(linOf(c.args[0])) {
			if !e.index(a) {
				if c.op == OLE0 {
					e.extra = append(e.extra, linOf(c.args[0]))
				} else {
					e.extra = append(e.extra, linOf(c.args[0]), linOf(mulc(c.args[0], -1)))
				}
				return
			}
		}
		e.st.addFact(c)
		for _, t := range e.apart {
			e.sharpen(t)
		}
		return
	}
	if c.op == ONot && c.args[0].op == OEQ0 {
		for _, a := range sortedAtoms(linOf(c.args[0].args[0])) {
			if !e.index(a) {
				return
			}
		}
		e.st.addFact(c)
		e.apart = append(e.apart[:len(e.apart):len(e.apart)], c.args[0].args[0])
		e.sharpen(c.args[0].args[0])
	}
}

// sharpen: t is not zero.
func (e *pageEval) sharpen(t *Term) {
	if e.st.decide(le0(t)) == 1 {
		e.st.addFact(le0(addc(t, 1)))
	}
	if e.st.decide(le0(mulc(t, -1))) == 1 {
		e.st.addFact(le0(addc(mulc(t, -1), 1)))
	}
}

// index: a number of entries or a position among them.
func (e *pageEval) index(a *Term) bool {
	return a.op == OSym || a == e.m || a.op == OApp && strings.HasPrefix(a.s, "k$")
}

// cond decides a condition: 1 true, -1 false, 0 unknown.
func (e *pageEval) cond(c *Term) int {
	switch c.op {
	case OBool:
		if c.i != 0 {
			return 1
		}
		return -1
	case OLE0:
		t := c.args[0]
		if e.nonPos(linOf(t)) {
			return 1
		}
		if e.nonPos(linOf(addc(mulc(t, -1), 1))) {
			return -1
		}
	case OEQ0:
		t := c.args[0]
		pure := true
		for _, a := range sortedAtoms(linOf(t)) {
			pure = pure && e.index(a)
		}
		if pure {
			return e.st.decide(c)
		}
		if e.nonPos(linOf(addc(t, 1))) || e.nonPos(linOf(addc(mulc(t, -1), 1))) {
			return -1
		}
		if e.nonPos(linOf(t)) && e.nonPos(linOf(mulc(t, -1))) {
			return 1
		}
	case ONot:
		return -e.cond(c.args[0])
	}
	return 0
}

// pure: a condition about indexes only.
func (e *pageEval) pure(c *Term) bool {
	for c.op == ONot {
		c = c.args[0]
	}
	if c.op != OLE0 && c.op != OEQ0 {
		return true
	}
	for _, a := range sortedAtoms(linOf(c.args[0])) {
		if !e.index(a) {
			return false
		}
	}
	return true
}

// contradictory: there is no such page.
func (e *pageEval) contradictory() bool {
	return polyEmpty(e.polyFacts(lin{}))
}

// nonPos shows l <= 0: parts of entries are eliminated by the order of the
// entries, what remains is about indexes.
func (e *pageEval) nonPos(l lin) bool {
	as := sortedAtoms(l)
	pure := true
	for _, a := range as {
		pure = pure && e.index(a)
	}
	if len(as) == 0 {
		return l.c <= 0
	}
	if pure {
		return e.st.prove(l.term())
	}
	key := linKey(l) + "|" + strconv.Itoa(len(e.st.facts)) + "|" + strconv.Itoa(len(e.extra))
	if r, ok := e.memo[key]; ok {
		return r
	}
	r := polyEntails(l, e.polyFacts(l))
	if e.memo == nil {
		e.memo = map[string]bool{}
	}
	e.memo[key] = r
	return r
}

// polyFacts are the inequalities which matter for l: what is known about the
// indexes, the assumptions on sizes, and the order of the parts of the entries.
func (e *pageEval) polyFacts(l lin) []lin {
	fs := append([]lin(nil), e.extra...)
	for _, f := range e.st.facts {
		switch f.op {
		case OLE0:
			fs = append(fs, linOf(f.args[0]))
		case OEQ0:
			fs = append(fs, linOf(f.args[0]), linOf(mulc(f.args[0], -1)))
		}
	}
	// the atoms which occur
	var atoms []*Term
	seen := map[*Term]bool{}
	put := func(a *Term) {
		if !seen[a] && a.op != OConst {
			seen[a] = true
			atoms = append(atoms, a)
		}
	}
	for _, a := range sortedAtoms(l) {
		put(a)
	}
	for _, f := range e.extra {
		for _, a := range sortedAtoms(f) {
			put(a)
		}
	}
	w := e.minLen()
	nc := len(e.lay.cuts)
	le0 := func(t *Term) { fs = append(fs, linOf(t)) }
	for i := 0; i < len(atoms); i++ {
		a := atoms[i]
		if q, ok := isCut(a); ok {
			put(e.cutAt(0, tZero))
			// the end of the entry, where it is needed
			_ = q
		} else if q, j, ok := e.isField(a); ok {
			if s := e.sumAt(q, j); s.op == OApp {
				put(s)
			}
		}
	}
	for _, a := range atoms {
		if q, ok := isCut(a); ok {
			i := a.args[0]
			le0(addc(a, int64(nc-q)*w-e.lay.end))
			le0(sub(addc(mulc(e.n, e.lay.stride), e.lay.first), a))
			for _, u := range atoms {
				p, ok := isCut(u)
				if !ok || u == a {
					continue
				}
				j := u.args[0]
				switch {
				case e.sameIndex(i, j):
					if p >= q {
						le0(addc(sub(a, u), int64(p-q)*w))
					}
				case e.st.decide(lt(i, j)) == 1:
					d := int64(nc-q+p) * w
					if e.st.decide(lt(addc(i, 1), j)) == 1 {
						d += int64(nc) * w
					}
					le0(addc(sub(a, u), d))
				case p >= q && e.st.decide(le(i, j)) == 1:
					le0(addc(sub(a, u), int64(p-q)*w))
				}
			}
			continue
		}
		if q, ok := isPsum(a); ok {
			i := a.args[0]
			lo := int64(0)
			if e.st.decide(le(tOne, i)) == 1 {
				lo = w
			}
			le0(sub(mkInt(lo), a))
			if e.sameIndex(i, tZero) {
				le0(a)
			}
			for _, u := range atoms {
				if p, ok := isPsum(u); !ok || p != q || u == a {
					continue
				}
				j := u.args[0]
				switch {
				case e.sameIndex(i, j):
					le0(sub(a, u))
				case e.st.decide(lt(i, j)) == 1:
					step := sub(add(a, e.fieldLen(q, i)), u)
					le0(step)
					le0(addc(sub(a, u), w))
					if e.sameIndex(addc(i, 1), j) {
						le0(mulc(step, -1))
					}
				case e.st.decide(le(i, j)) == 1:
					le0(sub(a, u))
				}
			}
			continue
		}
		if q, i, ok := e.isField(a); ok {
			le0(sub(mkInt(w), a))
			for _, u := range atoms {
				if p, j, ok := e.isField(u); ok && p == q && u != a && e.sameIndex(i, j) {
					le0(sub(a, u))
				}
			}
			continue
		}
		if a.op == OLen {
			le0(mulc(a, -1))
		}
	}
	return fs
}

func (e *pageEval) sameIndex(i, j *Term) bool {
	return i == j || e.st.decide(eqInt(i, j)) == 1 || e.st.decide(le(i, j)) == 1 && e.st.decide(le(j, i)) == 1
}

// isField: the length of a part of an entry passed in.
func (e *pageEval) isField(a *Term) (q int, i *Term, ok bool) {
	if e.recs == nil || a.op != OLen || a.args[0].op != OLoad || len(a.args[0].sels) != 2 {
		return
	}
	i = a.args[0].sels[0].Idx
	q = a.args[0].sels[1].Field
	if i == nil || e.fieldLen(q, i) != a {
		return 0, nil, false
	}
	return q, i, true
}

// norm expresses an integer term by cuts, prefix sums and arguments.
func (e *pageEval) norm(t *Term) *Term {
	l := linOf(t)
	r := mkInt(l.c)
	for _, a := range sortedAtoms(l) {
		r = add(r, mulc(e.normAtom(a), l.m[a]))
	}
	return r
}

func (e *pageEval) normAtom(a *Term) *Term {
	switch a.op {
	case OLoad:
		if len(a.sels) != 1 || a.sels[0].Field >= 0 {
			return a
		}
		w, tag, ok := intLoad(a.s)
		if !ok {
			return a
		}
		switch a.obj {
		case e.view:
			return e.readInt(a.content, e.norm(a.sels[0].Idx), w, tag)
		}
		return a
	case OApp:
		if d := e.defs[a.s]; d != nil && len(a.args) == 1 {
			return e.apply(d, e.norm(a.args[0]))
		}
		if a.s == "size" {
			return a
		}
		if q, ok := isCut(a); ok {
			return e.cutAt(q, a.args[0])
		}
		if q, ok := isPsum(a); ok {
			return e.sumAt(q, a.args[0])
		}
		return a
	case OMin:
		var as []*Term
		for _, x := range a.args {
			as = append(as, e.norm(x))
		}
		best := as[0]
		for _, x := range as[1:] {
			switch {
			case e.le(best, x):
			case e.le(x, best):
				best = x
			case e.hoping:
				// prefer a length given over the room left
				if !isRoom(x) {
					best, x = x, best
				}
				e.hope = append(e.hope, sub(best, x))
			default:
				e.fail("the smaller of %s and %s", best, x)
			}
		}
		return best
	}
	return a
}

// isRoom: the size of a page occurs in t.
func isRoom(t *Term) bool {
	r := false
	t.walk(func(y *Term) bool {
		if y.op == OApp && y.s == "size" {
			r = true
		}
		return !r
	})
	return r
}

func intLoad(s string) (w int64, tag string, ok bool) {
	i := len(s)
	for i > 0 && s[i-1] >= '0' && s[i-1] <= '9' {
		i--
	}
	n, err := strconv.Atoi(s[i:])
	if err != nil || n%8 != 0 || n == 0 {
		return 0, "", false
	}
	return int64(n / 8), s[:i], true
}

// normCond normalises a condition; nil if it cannot be expressed.
func (e *pageEval) normCond(c *Term) (r *Term) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(pageUnknown); ok {
				r = nil
				return
			}
			panic(x)
		}
	}()
	switch c.op {
	case OLE0:
		return le0(e.norm(c.args[0]))
	case OEQ0:
		return eq0(e.norm(c.args[0]))
	case ONot:
		if q := e.normCond(c.args[0]); q != nil {
			return not(q)
		}
	}
	return nil
}

// readInt reads an integer of the page with the given content.
func (e *pageEval) readInt(c *Content, off *Term, width int64, tag string) *Term {
	w := mkInt(width)
	for ; c != nil; c = c.parent {
		switch c.kind {
		case wInt:
			co := e.norm(c.off)
			if c.ln == w && c.tag == tag && e.same(co, off) {
				return e.norm(c.val)
			}
			if e.le(add(off, w), co) || e.le(add(co, c.ln), off) {
				continue
			}
			e.fail("integer at %s behind a write at %s", off, co)
		case wCopy:
			co, cl := e.norm(c.off), e.norm(c.ln)
			if e.le(cl, tZero) || e.le(add(off, w), co) || e.le(add(co, cl), off) {
				continue
			}
			if c.src == e.view && e.le(co, off) && e.le(add(off, w), add(co, cl)) {
				return e.readInt(c.srcC, add(sub(off, co), e.norm(c.srcOff)), width, tag)
			}
			e.fail("integer at %s behind a copy to %s of %s bytes", off, co, cl)
		case wQuant:
			if v := e.quantInt(c, off, w, tag); v != nil {
				return v
			}
		default:
			e.fail("integer at %s behind unknown writes", off)
		}
	}
	if off == mkInt(e.lay.count) {
		return e.n
	}
	for q, a := range e.lay.cuts {
		l := linOf(addc(off, -a))
		ok := l.c%e.lay.stride == 0
		i := mkInt(l.c / e.lay.stride)
		for _, at := range sortedAtoms(l) {
			ok = ok && l.m[at]%e.lay.stride == 0
			i = add(i, mulc(at, l.m[at]/e.lay.stride))
		}
		if ok && width == 4 && e.le(tZero, i) && e.lt(i, e.n) {
			return e.cutAt(q, i)
		}
	}
	return intern(&Term{op: OLoad, obj: e.view, sels: []Sel{{Field: -1, Idx: off}}, s: tag + strconv.Itoa(int(width*8))})
}

// generic is the state within any iteration of a repeated write.
func (e *pageEval) generic(lo, hi *Term) (*pageEval, *Term) {
	q := e.child()
	i := q.sym("i")
	e.fresh = q.fresh
	q.fact(le(lo, i))
	q.fact(lt(i, hi))
	return q, i
}

// clearOf: the repeated write w touches nothing of [off,off+ln) in the iterations [lo,hi).
func (e *pageEval) clearOf(c, w *Content, off, ln, lo, hi *Term) (ok bool) {
	if e.le(hi, lo) {
		return true
	}
	q, i := e.generic(lo, hi)
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(pageUnknown); is {
				ok = false
				return
			}
			panic(x)
		}
	}()
	return q.clearAt(c, w, off, ln, i)
}

func (e *pageEval) clearAt(c, w *Content, off, ln, i *Term) bool {
	wo, wl := e.norm(subst(w.off, c.k, i)), e.norm(subst(w.ln, c.k, i))
	return e.le(add(off, ln), wo) || e.le(add(wo, wl), off) || e.le(wl, tZero)
}

func (e *pageEval) quantInt(c *Content, off, w *Term, tag string) *Term {
	n := e.norm(c.ln)
	var hit, at *Term
	for i := len(c.quant) - 1; i >= 0; i-- {
		q := c.quant[i]
		if q.kind != wInt && q.kind != wCopy {
			e.fail("integer at %s behind unknown writes", off)
		}
		if e.clearOf(c, q, off, w, tZero, n) {
			continue
		}
		if q.kind != wInt {
			e.fail("integer at %s behind repeated writes", off)
		}
		base := e.norm(subst(q.off, c.k, tZero))
		b := linOf(sub(e.norm(subst(q.off, c.k, tOne)), base))
		if len(sortedAtoms(b)) > 0 || b.c == 0 {
			e.fail("integer at %s behind irregular writes", off)
		}
		l := linOf(sub(off, base))
		kk := tZero
		ok := true
		for _, t := range sortedAtoms(l) {
			ok = ok && l.m[t]%b.c == 0
			kk = add(kk, mulc(t, l.m[t]/b.c))
		}
		ab := b.c
		if ab < 0 {
			ab = -ab
		}
		if !ok || q.ln.i > ab {
			e.fail("integer at %s behind irregular writes", off)
		}
		if m := ((l.c % ab) + ab) % ab; m != 0 {
			if m >= q.ln.i && m+w.i <= ab {
				continue // between the places of two iterations
			}
			e.fail("integer at %s overlaps repeated writes", off)
		}
		kk = add(kk, mkInt(l.c/b.c))
		for _, c := range e.cand {
			if kk != c && e.same(kk, c) {
				kk = c
				break
			}
		}
		if q.ln != w || q.tag != tag {
			e.fail("integer at %s behind repeated writes", off)
		}
		if e.lt(kk, tZero) || e.le(n, kk) {
			continue
		}
		if !e.le(tZero, kk) || !e.lt(kk, n) {
			e.fail("integer at %s may be written in iteration %s", off, kk)
		}
		// the offsets must be those of an arithmetic progression
		g, it := e.generic(tZero, n)
		if g.norm(subst(q.off, c.k, it)) != add(base, mulc(it, b.c)) {
			e.fail("irregular writes")
		}
		if hit == nil {
			hit, at = e.norm(subst(q.val, c.k, kk)), kk
		} else if at != kk {
			e.fail("integer at %s written twice", off)
		}
	}
	return hit
}

// stretch is a stretch of bytes taken from the page as it was (obj nil) or from elsewhere.
type stretch struct {
	obj *Obj
	c   *Content
	off *Term
	ln  *Term
}

func (s stretch) String() string {
	n := "the page as it was"
	if s.obj != nil {
		n = s.obj.String()
	}
	return fmt.Sprintf("%s bytes of %s at %s", s.ln, n, s.off)
}

func segString(ss []stretch) string {
	if len(ss) == 0 {
		return "nothing"
	}
	var r []string
	for _, s := range ss {
		r = append(r, s.String())
	}
	return strings.Join(r, " + ")
}

// bytes finds where [lo,hi) of the page with the given content comes from.
func (e *pageEval) bytes(c *Content, lo, hi *Term) []stretch { return e.bytesIn(e.view, c, lo, hi) }

func (e *pageEval) bytesIn(o *Obj, c *Content, lo, hi *Term) []stretch {
	if lo == hi || e.le(hi, lo) {
		return nil
	}
	for ; c != nil; c = c.parent {
		switch c.kind {
		case wInt:
			co := e.norm(c.off)
			if e.le(hi, co) || e.le(add(co, c.ln), lo) {
				continue
			}
			e.fail("bytes from %s behind an integer at %s", lo, co)
		case wCopy:
			co, cl := e.norm(c.off), e.norm(c.ln)
			if e.le(cl, tZero) {
				continue
			}
			ce := add(co, cl)
			if e.le(hi, co) || e.le(ce, lo) {
				continue
			}
			src := func(a, b *Term) []stretch {
				so := add(sub(a, co), e.norm(c.srcOff))
				if c.src == e.view {
					return e.bytes(c.srcC, so, add(so, sub(b, a)))
				}
				return []stretch{{c.src, c.srcC, so, sub(b, a)}}
			}
			if e.le(co, lo) && e.le(hi, ce) {
				return src(lo, hi)
			}
			if e.lt(lo, co) && e.lt(co, hi) {
				l := e.bytesIn(o, c.parent, lo, co)
				if e.le(hi, ce) {
					return e.join(append(l, src(co, hi)...))
				}
				if e.lt(ce, hi) {
					return e.join(append(append(l, src(co, ce)...), e.bytesIn(o, c.parent, ce, hi)...))
				}
			}
			if e.le(co, lo) && e.lt(lo, ce) && e.lt(ce, hi) {
				return e.join(append(src(lo, ce), e.bytesIn(o, c.parent, ce, hi)...))
			}
			e.fail("bytes [%s,%s) behind a copy to [%s,%s)", lo, hi, co, ce)
		case wQuant:
			if o != e.view {
				e.fail("bytes from %s behind repeated writes", lo)
			}
			if s, ok := e.quantBytes(c, lo, hi); ok {
				return s
			}
		default:
			e.fail("bytes from %s behind unknown writes", lo)
		}
	}
	if o != e.view {
		return []stretch{{o, nil, lo, sub(hi, lo)}}
	}
	return []stretch{{nil, nil, lo, sub(hi, lo)}}
}

func (e *pageEval) join(ss []stretch) []stretch {
	var r []stretch
	for _, s := range ss {
		if k := len(r) - 1; k >= 0 && r[k].obj == s.obj && r[k].c == s.c && e.same(add(r[k].off, r[k].ln), s.off) {
			r[k].ln = add(r[k].ln, s.ln)
			continue
		}
		r = append(r, s)
	}
	return r
}

func (e *pageEval) quantBytes(c *Content, lo, hi *Term) ([]stretch, bool) {
	n := e.norm(c.ln)
	ln := sub(hi, lo)
	all := true
	for _, q := range c.quant {
		if q.kind != wInt && q.kind != wCopy {
			e.fail("bytes from %s behind unknown writes", lo)
		}
		if !e.clearOf(c, q, lo, ln, tZero, n) {
			all = false
		}
	}
	if all {
		return nil, false
	}
	for _, k := range e.cand {
		if !e.le(tZero, k) || !e.lt(k, n) {
			continue
		}
		for i := len(c.quant) - 1; i >= 0; i-- {
			q := c.quant[i]
			wo, wl := e.norm(subst(q.off, c.k, k)), e.norm(subst(q.ln, c.k, k))
			if q.kind == wInt {
				if !e.le(hi, wo) && !e.le(add(wo, wl), lo) {
					e.fail("bytes from %s are overwritten by an integer", lo)
				}
				continue
			}
			if e.le(hi, wo) || e.le(add(wo, wl), lo) {
				continue
			}
			if !e.le(wo, lo) || !e.le(hi, add(wo, wl)) {
				// another part or entry
				break
			}
			// nothing writes there afterwards
			for j, p := range c.quant {
				if j > i && !e.clearAt(c, p, lo, ln, k) || !e.clearOf(c, p, lo, ln, addc(k, 1), n) {
					e.fail("bytes from %s may be overwritten later", lo)
				}
			}
			s := substC(q, c.k, k, map[*Term]*Term{})
			so := add(sub(lo, wo), e.norm(s.srcOff))
			if s.src == e.view {
				return e.bytes(s.srcC, so, add(so, ln)), true
			}
			return []stretch{{s.src, s.srcC, so, ln}}, true
		}
	}
	e.fail("bytes [%s,%s) behind repeated writes", lo, hi)
	return nil, false
}

// loops defines the variables of the loops on the way as sums over the entries passed in.
func (e *pageEval) loops(log *Event) {
	for _, ev := range log.list() {
		ls := ev.loop
		if ls == nil {
			continue
		}
		for _, name := range sortedKeys(ls.start) {
			s := ls.start[name]
			if s == nil || s.op != OApp || len(s.args) != 1 || s.args[0] != ls.k || e.defs[s.s] != nil || len(ls.iters) == 0 {
				continue
			}
			e.define(ls, name, s)
		}
	}
}

// linDef: a loop variable is entry + c per iteration + multiples of the prefix sums.
type linDef struct {
	entry *Term
	c     int64
	coef  []int64
}

func (e *pageEval) apply(d *linDef, t *Term) *Term {
	r := add(d.entry, mulc(t, d.c))
	for p, k := range d.coef {
		if k != 0 {
			r = add(r, mulc(e.sumAt(p, t), k))
		}
	}
	return r
}

func (e *pageEval) learn(facts []*Term) {
	for _, f := range facts {
		if g := e.normCond(f); g != nil {
			e.fact(g)
		}
	}
}

func (e *pageEval) define(ls *LoopSum, name string, s *Term) {
	defer func() {
		if x := recover(); x != nil {
			if u, ok := x.(pageUnknown); ok {
				dbg("define %s: %s", s, u.why)
				delete(e.defs, s.s)
				return
			}
			panic(x)
		}
	}()
	entry := e.norm(ls.entry[name])
	var def *linDef
	for _, it := range ls.iters {
		if it.next[name] == nil {
			return
		}
		q := e.child()
		q.hoping, q.hope = true, nil
		q.learn(it.facts)
		q.fact(le(tZero, ls.k))
		d := linOf(sub(q.norm(it.next[name]), q.norm(s)))
		coef := make([]int64, len(e.lay.cuts))
		if e.recs != nil {
			for p := range coef {
				f := q.fieldLen(p, ls.k)
				coef[p] = d.m[f]
				d = linAdd(d, linOf(f), -coef[p])
			}
		}
		if len(sortedAtoms(d)) > 0 {
			return
		}
		n := &linDef{entry, d.c, coef}
		if def != nil && fmt.Sprint(def.c, def.coef) != fmt.Sprint(n.c, n.coef) {
			return
		}
		def = n
		// what was hoped for holds under the definition
		v := e.child()
		v.defs[s.s] = n
		v.learn(it.facts)
		v.fact(le(tZero, ls.k))
		for _, h := range q.hope {
			if !v.le(v.norm(h), tZero) {
				dbg("define %s: cannot show %s <= 0: %s %v", s, h, v.norm(h), v.st.facts)
				return
			}
		}
	}
	e.defs[s.s] = def
}

// ---- the layout ----

func (P *Program) pageLayout(r *Report, leaf bool) *pageLay {
	lay := &pageLay{leaf: leaf, addr: -1}
	lay.typ = "nonLeafController"
	names := []string{"GetKey", "GetChildAddr"}
	num := "NumberOfChildren"
	if leaf {
		lay.typ = "leafController"
		names = []string{"GetKey", "GetValue"}
		num = "NumberOfRecords"
	}
	get := func(n string) *Run {
		f := P.find(lay.typ + "." + n)
		if f == nil {
			r.open("layout", lay.typ, 0, "no function "+n, "")
			return nil
		}
		run := P.analyse(cfgPage(P), f, nil)
		r.use(run)
		if run.err != "" {
			r.open("layout", shortName(f), f.Pos(), run.err, "")
			return nil
		}
		return run
	}
	lay.numOf, lay.load = get(num), get("GetLoadSize")
	for _, n := range names {
		g := get(n)
		if g == nil {
			return nil
		}
		lay.getters = append(lay.getters, g)
		lay.parts = append(lay.parts, strings.ToLower(strings.TrimPrefix(n, "Get")))
	}
	if lay.numOf == nil || lay.load == nil {
		return nil
	}
	// where things are
	affine := func(t *Term, idx *Term) (a, b, w int64, ok bool) {
		if t.op != OLoad || t.obj == nil || t.obj.kind != ObjView || len(t.sels) != 1 || t.content != nil {
			return
		}
		x, c, ok := affineIn(t.sels[0].Idx, idx)
		if !ok || x.op != OConst {
			return 0, 0, 0, false
		}
		w, _, ok = intLoad(t.s)
		return x.i, c, w, ok
	}
	for _, o := range lay.numOf.outs {
		if o.panics {
			continue
		}
		a, b, _, ok := affine(o.ret[0], mkSym("no index", types.Typ[types.Int]))
		if !ok || b != 0 {
			return nil
		}
		lay.count = a
	}
	for gi, g := range lay.getters {
		idx := g.args[1]
		for _, o := range g.outs {
			if o.panics || len(o.ret) == 0 {
				continue
			}
			t := o.ret[0]
			if isByteSlice(g.fn.Signature.Results().At(0).Type()) {
				_, off, ln, _ := sliceParts(t)
				a, b, w, ok := affine(off, idx)
				if !ok || w != 4 || b <= 0 || lay.stride != 0 && b != lay.stride {
					return nil
				}
				lay.stride = b
				if len(lay.cuts) <= gi {
					lay.cuts = append(lay.cuts, a)
				} else if lay.cuts[gi] != a {
					return nil
				}
				if hi := add(off, ln); hi.op == OConst {
					lay.end = hi.i
				}
				continue
			}
			a, b, w, ok := affine(t, idx)
			if !ok || w != 8 || lay.stride != 0 && b != lay.stride {
				return nil
			}
			lay.addr = a
		}
	}
	lay.first = lay.cuts[0]
	for _, c := range append([]int64{}, lay.cuts...) {
		if c < lay.first {
			lay.first = c
		}
	}
	if lay.addr >= 0 && lay.addr < lay.first {
		lay.first = lay.addr
	}
	if lay.stride <= 0 || lay.end <= 0 || leaf && len(lay.cuts) != 2 || !leaf && (len(lay.cuts) != 1 || lay.addr < 0) {
		return nil
	}
	return lay
}

func elemFieldType(recs *Term, q int) types.Type {
	if recs.typ == nil {
		return types.NewSlice(types.Typ[types.Uint8])
	}
	s, ok := recs.typ.Underlying().(*types.Slice)
	if !ok {
		return types.NewSlice(types.Typ[types.Uint8])
	}
	t, ok := s.Elem().Underlying().(*types.Struct)
	if !ok || q >= t.NumFields() {
		return types.NewSlice(types.Typ[types.Uint8])
	}
	return t.Field(q).Type()
}

// ---- the operations ----

// pageOp is an operation on a page with what is expected of it.
type pageOp struct {
	run   *Run
	n, at *Term // number of entries before, place of the operation
	num   *Term // entries inserted or removed
	delta *Term // change of the number of entries
	part  int   // part replaced, -1 for none
	value *Term
	pre   func(e *pageEval) // what callers guarantee
	cases []*pageCase
}

// pageCase designates an entry of the page after the operation.
type pageCase struct {
	name   string
	facts  []*Term
	rare   []*Term // makes it a definite instance
	j      *Term   // its index afterwards
	old    *Term   // its index before, nil for one passed in
	nw     *Term   // its index among those passed in
	set    bool    // the entry whose part was replaced
	empty  bool    // the page was empty
	result bool    // what is returned for the entries removed
}

type verdict struct {
	kind string // ok, bad, unknown, dead
	msg  string
}

var pageN = natural(mkSym("n", nil))
var pageI = natural(mkSym("i", nil))

func (lay *pageLay) eval(op *pageOp, o *Outcome, c *pageCase, special bool) (e *pageEval, v *verdict) {
	type key struct {
		op *pageOp
		o  *Outcome
		c  *pageCase
	}
	type val struct {
		e *pageEval
		v *verdict
	}
	if lay.evals == nil {
		lay.evals = map[interface{}]interface{}{}
	}
	k := key{op, o, c}
	if x, ok := lay.evals[k]; ok && !special {
		y := x.(val)
		if y.e == nil {
			return nil, y.v
		}
		return y.e.child(), y.v
	}
	e, v = lay.eval1(op, o, c, special)
	if !special {
		lay.evals[k] = val{e, v}
		if e != nil {
			e = e.child()
		}
	}
	return e, v
}

func (lay *pageLay) eval1(op *pageOp, o *Outcome, c *pageCase, special bool) (e *pageEval, v *verdict) {
	defer func() {
		if x := recover(); x != nil {
			u, ok := x.(pageUnknown)
			if !ok {
				panic(x)
			}
			v = &verdict{"unknown", u.why}
		}
	}()
	start := func() *pageEval {
		e := &pageEval{lay: lay, view: op.run.args[0].obj, n: pageN, defs: map[string]*linDef{}, special: special}
		e.st = newState(op.run.x.cfg)
		if op.value == nil && op.num != nil && len(op.run.args) > 2 && !isIntType(op.run.fn.Params[2].Type()) {
			e.recs, e.m = op.run.args[2], lenOf(op.run.args[2])
		}
		size := op.run.args[0].args[1]
		e.fact(le(mkInt(lay.end), size))
		e.fact(le(tZero, e.n))
		e.fact(le(addc(mulc(e.n, lay.stride), lay.first), mkInt(lay.end)))
		for _, f := range c.facts {
			e.fact(f)
		}
		if special {
			for _, f := range c.rare {
				e.fact(f)
			}
		}
		op.pre(e)
		return e
	}
	// dead: the outcome does not belong to the case
	learn := func(e *pageEval, skip []*Term) *verdict {
	facts:
		for _, f := range o.st.facts {
			for _, k := range skip {
				if f.contains(k) {
					continue facts
				}
			}
			g := e.normCond(f)
			if g == nil {
				continue
			}
			if (o.panics || e.pure(g)) && e.cond(g) == -1 {
				return &verdict{"dead", g.String()}
			}
			e.fact(g)
		}
		if e.contradictory() {
			return &verdict{"dead", "contradiction"}
		}
		return nil
	}
	e = start()
	var ks []*Term
	for _, ev := range o.st.log.list() {
		if ev.loop != nil {
			ks = append(ks, ev.loop.k)
		}
	}
	if d := learn(e, ks); d != nil {
		return e, d
	}
	e.loops(o.st.log)
	inside := start()
	inside.defs = e.defs
	if d := learn(inside, ks); d != nil {
		return e, d
	}
	q := start()
	q.defs = e.defs
	q.inside = inside
	return q, learn(q, nil)
}

// read composes a reading function with the page after the operation.
func (e *pageEval) read(g *Run, j *Term, size *Term, use func(q *pageEval, ret *Term) verdict) verdict {
	gv := g.args[0].obj
	var idx *Term
	if len(g.args) > 1 {
		idx = g.args[1]
	}
	var ev func(q *pageEval, t *Term) *Term
	ev = func(q *pageEval, t *Term) *Term {
		l := linOf(t)
		r := mkInt(l.c)
		for _, a := range sortedAtoms(l) {
			x := a
			switch {
			case a == idx:
				x = j
			case a == g.args[0].args[1]:
				x = size
			case a.op == OLoad && a.obj == gv && a.content == nil && len(a.sels) == 1 && a.sels[0].Field < 0:
				w, tag, ok := intLoad(a.s)
				if !ok {
					q.fail("unknown read")
				}
				x = q.readInt(q.final, ev(q, a.sels[0].Idx), w, tag)
			}
			r = add(r, mulc(x, l.m[a]))
		}
		return r
	}
	var cond func(q *pageEval, c *Term) *Term
	cond = func(q *pageEval, c *Term) *Term {
		switch c.op {
		case OLE0:
			return le0(ev(q, c.args[0]))
		case OEQ0:
			return eq0(ev(q, c.args[0]))
		case ONot:
			if x := cond(q, c.args[0]); x != nil {
				return not(x)
			}
		}
		return nil
	}
	res := verdict{"dead", ""}
	for _, o := range g.outs {
		q := e.child()
		dead := false
		for _, f := range o.st.facts {
			c := cond(q, f)
			if c == nil {
				continue
			}
			if (o.panics || q.pure(c)) && q.cond(c) == -1 {
				dead = true
				break
			}
			q.fact(c)
		}
		if dead || q.contradictory() {
			continue
		}
		var v verdict
		switch {
		case o.panics && len(g.args) > 1 && e.special:
			// the index is out of range, or the analysis does not know
			v = verdict{"panics", shortName(g.fn) + " rejects index " + j.String()}
		case o.panics:
			v = verdict{"unknown", shortName(g.fn) + " may reject index " + j.String()}
		case isByteSlice(g.fn.Signature.Results().At(0).Type()):
			_, off, ln, _ := sliceParts(o.ret[0])
			lo := ev(q, off)
			v = use(q, mkTuple([]*Term{lo, add(lo, ev(q, ln))}))
		default:
			v = use(q, ev(q, o.ret[0]))
		}
		switch {
		case res.kind == "dead":
			res = v
		case v.kind == "ok":
		case res.kind == "ok" || v.kind == "unknown":
			res = v
		}
		if v.kind == "panics" && res.kind != "panics" {
			res = verdict{"unknown", v.msg}
		}
	}
	if res.kind == "panics" {
		res.kind = "bad"
	}
	return res
}

func (e *pageEval) compareSegs(got, want []stretch) verdict {
	g, w := append([]stretch(nil), got...), append([]stretch(nil), want...)
	bad := func() verdict {
		return verdict{"bad", fmt.Sprintf("%s instead of %s", segString(got), segString(want))}
	}
	unk := func() verdict {
		return verdict{"unknown", fmt.Sprintf("%s against %s", segString(got), segString(want))}
	}
	// one that lacks something
	rest := func(s []stretch) verdict {
		all := true
		for _, x := range s {
			if e.lt(tZero, x.ln) {
				return bad()
			}
			all = all && e.le(x.ln, tZero)
		}
		if all {
			return verdict{"ok", ""}
		}
		return unk()
	}
	for {
		if len(g) == 0 {
			return rest(w)
		}
		if len(w) == 0 {
			return rest(g)
		}
		a, b := g[0], w[0]
		if !e.lt(tZero, a.ln) && e.le(a.ln, tZero) {
			g = g[1:]
			continue
		}
		if e.le(b.ln, tZero) {
			w = w[1:]
			continue
		}
		differs := a.obj != b.obj || e.cond(eqInt(a.off, b.off)) == -1 || e.lt(a.off, b.off) || e.lt(b.off, a.off)
		if differs {
			if e.lt(tZero, a.ln) && e.lt(tZero, b.ln) {
				return bad()
			}
			return unk()
		}
		if !e.same(a.off, b.off) {
			return unk()
		}
		switch {
		case e.same(a.ln, b.ln):
			g, w = g[1:], w[1:]
		case e.lt(a.ln, b.ln):
			w[0] = stretch{b.obj, b.c, add(b.off, a.ln), sub(b.ln, a.ln)}
			g = g[1:]
		case e.lt(b.ln, a.ln):
			g[0] = stretch{a.obj, a.c, add(a.off, b.ln), sub(a.ln, b.ln)}
			w = w[1:]
		default:
			return unk()
		}
	}
}

func (e *pageEval) compareInts(got, want *Term) verdict {
	if e.same(got, want) {
		return verdict{"ok", ""}
	}
	msg := fmt.Sprintf("%s instead of %s", got, want)
	if e.lt(got, want) || e.lt(want, got) || e.cond(eqInt(got, want)) == -1 {
		return verdict{"bad", msg}
	}
	if got.op == OConst && e.input(want) || want.op == OConst && e.input(got) {
		return verdict{"bad", msg}
	}
	if e.input(got) && e.input(want) {
		if got.obj != want.obj {
			return verdict{"bad", msg}
		}
		if len(got.sels) == len(want.sels) && len(got.sels) > 0 && got.sels[0].Idx != nil && want.sels[0].Idx != nil {
			a, b := got.sels[0].Idx, want.sels[0].Idx
			if e.lt(a, b) || e.lt(b, a) {
				return verdict{"bad", msg}
			}
		}
	}
	return verdict{"unknown", msg}
}

// input: an integer which is given, not computed.
func (e *pageEval) input(t *Term) bool {
	return t.op == OLoad && (t.content == nil) && (t.obj == e.view || t.obj.kind == ObjSym)
}

// expect is the part q of the entry designated by the case.
func (e *pageEval) expectBytes(op *pageOp, c *pageCase, q int) []stretch {
	if c.set && q == op.part {
		o, off, ln, _ := sliceParts(op.value)
		return []stretch{{o, nil, off, ln}}
	}
	if c.old != nil {
		lo := e.cutAt(q, c.old)
		return []stretch{{nil, nil, lo, sub(e.cutAt(q+1, c.old), lo)}}
	}
	o, off, ln, _ := sliceParts(e.field(q, c.nw))
	return []stretch{{o, nil, off, ln}}
}

func (e *pageEval) expectInt(c *pageCase) *Term {
	if c.old != nil {
		off := addc(mulc(c.old, e.lay.stride), e.lay.addr)
		return intern(&Term{op: OLoad, obj: e.view, sels: []Sel{{Field: -1, Idx: off}}, s: "be64"})
	}
	return e.field(1, c.nw)
}

// decidePage judges one query about every outcome of an operation.
func (lay *pageLay) decidePage(r *Report, rule string, op *pageOp, c *pageCase, what string, query func(e *pageEval) verdict, point func(p *pagePoint) string) {
	fn := shortName(op.run.fn)
	label := what + " " + c.name
	try := func(special bool) (kind, msg string, pos *Outcome) {
		alive := 0
		for _, o := range op.run.outs {
			v := func() (v verdict) {
				defer func() {
					if x := recover(); x != nil {
						u, ok := x.(pageUnknown)
						if !ok {
							panic(x)
						}
						v = verdict{"unknown", u.why}
					}
				}()
				e, d := lay.eval(op, o, c, special)
				if d != nil {
					if d.msg != "" {
						dbg("%s %s: dead %s", fn, label, d.msg)
					}
					return *d
				}
				if o.panics {
					if special {
						return verdict{"panics", "the operation rejects valid arguments"}
					}
					return verdict{"unknown", "the operation may reject valid arguments"}
				}
				e.final = o.st.cont(e.view)
				e.out = o
				return query(e)
			}()
			if v.kind == "dead" {
				continue
			}
			alive++
			if v.kind != "ok" {
				if special && v.kind == "unknown" {
					kind, msg = "unknown", v.msg
					continue
				}
				if v.kind == "panics" {
					if kind == "" {
						kind, msg = v.kind, v.msg
					}
					continue
				}
				if !special || v.kind == "bad" {
					return v.kind, v.msg, o
				}
			}
			if v.kind == "ok" && kind == "panics" {
				kind = ""
			}
			if v.kind == "ok" && special {
				kind = "ok"
			}
		}
		if alive == 0 {
			return "none", "no path completes", nil
		}
		if kind == "" {
			kind = "ok"
		}
		return kind, msg, nil
	}
	k, msg, _ := try(false)
	if k == "ok" {
		if os.Getenv("PKV_POINTS") != "" {
			if m := lay.refute(op, c, point); m != "" {
				r.bad(rule, fn, op.run.fn.Pos(), label+": shown, but "+m, "")
			}
		}
		r.ok(rule, fn+": "+label)
		return
	}
	if m := lay.refute(op, c, point); m != "" {
		r.bad(rule, fn, op.run.fn.Pos(), label+": "+m, "")
		return
	}
	r.open(rule, fn, op.run.fn.Pos(), label+": "+msg, "")
}

func rulePages(P *Program, r *Report) {
	for _, leaf := range []bool{true, false} {
		lay := P.pageLayout(r, leaf)
		if lay == nil {
			r.open("layout", map[bool]string{true: "leafController", false: "nonLeafController"}[leaf], 0, "the layout of the page is not recognised", "")
			continue
		}
		r.ok("layout", fmt.Sprintf("%s: entry i has its header at %d+%d*i, count at %d, data ends at %d", lay.typ, lay.first, lay.stride, lay.count, lay.end))
		for _, op := range P.pageOps(r, lay) {
			for _, c := range op.cases {
				P.judgeCase(r, lay, op, c)
			}
		}
		P.judgeLoad(r, lay)
	}
	r.need("entries", 60)
	r.need("count", 6)
	r.need("layout", 2)
}

func (P *Program) judgeCase(r *Report, lay *pageLay, op *pageOp, c *pageCase) {
	size := op.run.args[0].args[1]
	if c.result {
		lay.decidePage(r, "removed", op, c, "the number of entries returned", func(e *pageEval) verdict { return e.returnedCount(op) }, func(p *pagePoint) string { return p.judgeReturned(0) })
		for q := range lay.getters {
			q := q
			lay.decidePage(r, "removed", op, c, "the "+lay.parts[q]+" returned for", func(e *pageEval) verdict { return e.returnedPart(op, q) }, func(p *pagePoint) string { return p.judgeReturned(q) })
		}
		return
	}
	if c.j != nil {
		for gi, g := range lay.getters {
			gi, g := gi, g
			lay.decidePage(r, "entries", op, c, "the "+lay.parts[gi]+" of", func(e *pageEval) verdict {
				e.cand = []*Term{c.j, pageI, sub(e.mOr0(), tOne)}
				if c.nw != nil {
					e.cand = append([]*Term{c.nw}, e.cand...)
				}
				return e.read(g, c.j, size, func(q *pageEval, ret *Term) verdict {
					if ret.op == OTuple {
						return q.compareSegs(q.bytes(q.final, ret.args[0], ret.args[1]), q.expectBytes(op, c, gi))
					}
					return q.compareInts(ret, q.expectInt(c))
				})
			}, func(p *pagePoint) string { return p.judgePoint(g, gi, c) })
		}
		return
	}
	lay.decidePage(r, "count", op, c, "the number of entries", func(e *pageEval) verdict {
		return e.read(lay.numOf, nil, size, func(q *pageEval, ret *Term) verdict {
			return q.compareInts(ret, add(q.n, op.delta))
		})
	}, func(p *pagePoint) string { return p.judgeCount(lay.numOf, op.delta) })
	for _, h := range P.pageHeaderInts(lay) {
		h := h
		lay.decidePage(r, "header", op, c, "the page header at "+strconv.Itoa(int(h.off)), func(e *pageEval) verdict {
			want := intern(&Term{op: OLoad, obj: e.view, sels: []Sel{{Field: -1, Idx: mkInt(h.off)}}, s: h.tag + strconv.Itoa(int(h.w*8))})
			return e.compareInts(e.readInt(e.final, mkInt(h.off), h.w, h.tag), want)
		}, func(p *pagePoint) string { return p.judgeHeader(h) })
	}
}

// collector finds the loop which collects what is returned.
func (e *pageEval) collector() (ls *LoopSum, name string, count *Term) {
	if len(e.out.ret) == 0 {
		e.fail("nothing is returned")
	}
	ret := e.out.ret[0]
	if ret.op != OApp || len(ret.args) != 1 {
		e.fail("what is returned is %s", ret)
	}
	for _, ev := range e.out.st.log.list() {
		if ev.loop == nil {
			continue
		}
		for _, n := range sortedKeys(ev.loop.start) {
			if s := ev.loop.start[n]; s != nil && s.op == OApp && s.s == ret.s {
				return ev.loop, n, e.norm(ret.args[0])
			}
		}
	}
	e.fail("what is returned is %s", ret)
	return
}

func (e *pageEval) returnedCount(op *pageOp) verdict {
	ls, name, count := e.collector()
	if len(ls.iters) == 0 {
		e.fail("no iterations")
	}
	if l := ls.entry[name]; l == nil || lenOf(l) != tZero {
		e.fail("the list returned does not start empty")
	}
	max := op.num
	for d := int64(0); d <= 2; d++ {
		all := true
		for _, it := range ls.iters {
			q := e.inside.child()
			q.fact(le(tZero, ls.k))
			q.learn(it.facts)
			all = all && q.le(addc(ls.k, d+1), op.num)
			if d == 0 && lenOf(it.next[name]) != addc(lenOf(ls.start[name]), 1) {
				g := lenOf(it.next[name])
				if x := sub(g, lenOf(ls.start[name])); x.op == OConst && q.special {
					return verdict{"bad", fmt.Sprintf("%s entries are collected in one step", x)}
				}
				return verdict{"unknown", "what is returned does not grow by one entry at a time: " + g.String()}
			}
		}
		if !all {
			break
		}
		max = addc(op.num, -d)
	}
	if e.lt(max, op.num) || e.lt(op.num, count) {
		return verdict{"bad", fmt.Sprintf("%s entries are returned instead of %s", count, op.num)}
	}
	q := e.child()
	q.fact(le(count, max))
	return q.compareInts(count, op.num)
}

// returnedPart: entry k of those returned is entry at+k of the page.
func (e *pageEval) returnedPart(op *pageOp, part int) verdict {
	ls, name, _ := e.collector()
	res := verdict{"dead", ""}
	in := e.inside
	in.out = e.out
	for _, it := range ls.iters {
		q := in.child()
		q.fact(le(tZero, ls.k))
		if q.special {
			q.fact(le(mkInt(2), ls.k))
			q.fact(le(addc(ls.k, 2), op.num))
		}
		dead := false
		for _, f := range it.facts {
			g := q.normCond(f)
			if g == nil {
				continue
			}
			if q.cond(g) == -1 {
				dbg("dead iteration: %s from %s", g, f)
				dead = true
				break
			}
			q.fact(g)
		}
		if dead {
			continue
		}
		q.fact(le(addc(ls.k, 1), op.num))
		v := q.returnedIn(op, part, ls, it, name)
		if v.kind == "ok" {
			if res.kind == "dead" {
				res = v
			}
			continue
		}
		if res.kind == "dead" || res.kind == "ok" || v.kind == "bad" {
			res = v
		}
	}
	return res
}

func (e *pageEval) returnedIn(op *pageOp, part int, ls *LoopSum, it *IterSum, name string) verdict {
	at := lenOf(ls.start[name])
	if d := sub(lenOf(it.next[name]), at); d != tOne {
		return verdict{"unknown", "what is returned does not grow by one entry at a time"}
	}
	o, off, _, _ := sliceParts(it.next[name])
	if o == nil {
		return verdict{"unknown", "what is returned is " + it.next[name].String()}
	}
	st := it.st
	typ := elemFieldType(&Term{typ: op.run.fn.Signature.Results().At(0).Type()}, part)
	x := st.loadElem(o, st.cont(o), []Sel{{Field: -1, Idx: add(off, at)}, {Field: part}}, typ)
	old := add(op.at, ls.k)
	if !isByteSlice(typ) {
		return e.compareInts(e.norm(x), e.expectInt(&pageCase{old: old}))
	}
	b, bo, bl, _ := sliceParts(x)
	if b == nil {
		return verdict{"unknown", "what is returned is " + x.String()}
	}
	lo := e.norm(bo)
	hi := add(lo, e.norm(bl))
	want := e.expectBytes(op, &pageCase{old: old}, part)
	got := e.bytesIn(b, st.cont(b), lo, hi)
	if v := e.compareSegs(got, want); v.kind != "ok" {
		return v
	}
	plain := true
	for _, ev := range (*Program)(nil).ownEvents(ls, it) {
		plain = plain && ev.loop == nil
	}
	// memory shared with other iterations must not be written again
	for _, n := range sortedKeys(ls.start) {
		s := ls.start[n]
		if s == nil || s.op != OSlice {
			continue
		}
		if so, _, _, _ := sliceParts(s); so != b {
			continue
		}
		no, nx, _, _ := sliceParts(it.next[n])
		_, sx, _, _ := sliceParts(s)
		if no != b {
			return verdict{"unknown", "the memory of what is returned changes"}
		}
		if !e.le(sx, lo) || !e.le(hi, e.norm(nx)) {
			k := "unknown"
			if e.special && (e.lt(lo, sx) || e.lt(e.norm(nx), hi)) {
				k = "bad"
			}
			return verdict{k, fmt.Sprintf("entries returned share memory: [%s,%s) against [%s,%s)", lo, hi, sx, e.norm(nx))}
		}
		for c := st.cont(b); c != nil; c = c.parent {
			if c.kind == wHavoc && plain {
				break // as it was before the iteration
			}
			if c.kind != wCopy && c.kind != wInt {
				return verdict{"unknown", "unknown writes to the memory of what is returned"}
			}
			wo := e.norm(c.off)
			if !e.le(sx, wo) || !e.le(add(wo, e.norm(c.ln)), e.norm(nx)) {
				return verdict{"unknown", "writes to the memory of what is returned outside of its part"}
			}
		}
		return verdict{"ok", ""}
	}
	return verdict{"ok", ""}
}

func (e *pageEval) mOr0() *Term {
	if e.m != nil {
		return e.m
	}
	return tZero
}

type headerInt struct {
	name   string
	off, w int64
	tag    string
}

// pageHeaderInts are the integers of the page header other than the number of entries.
func (P *Program) pageHeaderInts(lay *pageLay) []headerInt {
	typ := "nonLeafHeader"
	if lay.leaf {
		typ = "leafHeader"
	}
	var hs []headerInt
	for _, f := range P.Funcs {
		n := shortName(f)
		if !strings.HasPrefix(n, typ+".") || f.Signature.Results().Len() != 1 {
			continue
		}
		run := P.analyse(cfgPage(P), f, nil)
		for _, o := range run.outs {
			if o.panics || len(o.ret) != 1 {
				continue
			}
			t := o.ret[0]
			if t.op != OLoad || len(t.sels) != 1 || t.sels[0].Idx == nil || t.sels[0].Idx.op != OConst {
				continue
			}
			w, tag, ok := intLoad(t.s)
			if ok && t.sels[0].Idx.i != lay.count {
				hs = append(hs, headerInt{n, t.sels[0].Idx.i, w, tag})
			}
		}
	}
	return hs
}

func (P *Program) pageOps(r *Report, lay *pageLay) []*pageOp {
	var ops []*pageOp
	names := []string{"InsertChildren", "RemoveChildren", "SetKey"}
	part := 0
	if lay.leaf {
		names = []string{"InsertRecords", "RemoveRecords", "SetValue"}
		part = 1
	}
	n, i := pageN, pageI
	ge := func(a, b *Term) *Term { return le(b, a) }
	for k, name := range names {
		f := P.find(lay.typ + "." + name)
		if f == nil || len(f.Params) != 3 {
			r.open("layout", lay.typ, 0, "no function "+name, "")
			continue
		}
		run := P.analyse(cfgPage(P), f, nil)
		r.use(run)
		if run.err != "" {
			r.open("layout", shortName(f), f.Pos(), run.err, "")
			continue
		}
		at := run.args[1]
		op := &pageOp{run: run, n: n, at: at, part: -1}
		switch k {
		case 0:
			m := lenOf(run.args[2])
			op.num, op.delta = m, m
			op.pre = func(e *pageEval) {
				e.fact(le(tZero, at))
				e.fact(le(at, n))
				e.fact(le(tOne, m))
				gap := int64(0)
				if e.special {
					e.fact(ge(m, mkInt(3)))
					gap = 64
				}
				s := tZero
				for q := range lay.cuts {
					s = add(s, e.sumAt(q, m))
				}
				e.fact(le(addc(mulc(add(n, m), lay.stride), lay.first+gap), sub(e.cutAt(0, tZero), s)))
			}
			big := []*Term{ge(n, mkInt(9))}
			op.cases = []*pageCase{
				{name: "after inserting", facts: []*Term{ge(n, tOne)}, rare: append(big, ge(at, mkInt(4)), ge(n, addc(at, 4)))},
				{name: "after inserting at the end", facts: []*Term{ge(n, tOne), eqInt(at, n)}, rare: big},
				{name: "after inserting into an empty page", facts: []*Term{eq0(n)}},
				{name: "an entry before those inserted", facts: []*Term{ge(n, tOne), ge(i, tZero), lt(addc(i, 1), at)}, j: i, old: i, rare: append(big, ge(at, mkInt(4)), ge(n, addc(at, 4)))},
				{name: "an entry before those appended", facts: []*Term{ge(n, tOne), ge(i, tZero), lt(addc(i, 1), at), eqInt(at, n)}, j: i, old: i, rare: big},
				{name: "the entry right before those inserted", facts: []*Term{ge(n, tOne), ge(at, tOne)}, j: addc(at, -1), old: addc(at, -1), rare: append(big, ge(at, mkInt(4)), ge(n, addc(at, 4)))},
				{name: "the entry right before those appended", facts: []*Term{ge(n, tOne), eqInt(at, n)}, j: addc(at, -1), old: addc(at, -1), rare: big},
				{name: "an inserted entry", facts: []*Term{ge(n, tOne), lt(at, n), ge(i, tZero), lt(addc(i, 1), m)}, j: add(at, i), nw: i, rare: append(big, ge(at, mkInt(4)), ge(n, addc(at, 4)), ge(i, tOne))},
				{name: "the last inserted entry", facts: []*Term{ge(n, tOne), lt(at, n)}, j: addc(add(at, m), -1), nw: addc(m, -1), rare: append(big, ge(at, mkInt(4)), ge(n, addc(at, 4)))},
				{name: "an appended entry", facts: []*Term{ge(n, tOne), eqInt(at, n), ge(i, tZero), lt(addc(i, 1), m)}, j: add(at, i), nw: i, rare: append(big, ge(i, tOne))},
				{name: "the last appended entry", facts: []*Term{ge(n, tOne), eqInt(at, n)}, j: addc(add(at, m), -1), nw: addc(m, -1), rare: big},
				{name: "an entry put into an empty page", facts: []*Term{eq0(n), ge(i, tZero), lt(addc(i, 1), m)}, j: i, nw: i, rare: []*Term{ge(i, tOne)}},
				{name: "the last entry put into an empty page", facts: []*Term{eq0(n)}, j: addc(m, -1), nw: addc(m, -1)},
				{name: "an entry behind those inserted", facts: []*Term{ge(n, tOne), ge(i, at), lt(addc(i, 1), n)}, j: add(i, m), old: i, rare: append(big, ge(at, mkInt(4)), ge(n, addc(at, 4)))},
				{name: "the last entry behind those inserted", facts: []*Term{ge(n, tOne), lt(at, n)}, j: addc(add(n, m), -1), old: addc(n, -1), rare: append(big, ge(at, mkInt(4)), ge(n, addc(at, 4)))},
			}
		case 1:
			m := run.args[2]
			op.num, op.delta = m, mulc(m, -1)
			op.pre = func(e *pageEval) {
				e.fact(le(tZero, at))
				e.fact(le(tOne, m))
				e.fact(le(add(at, m), n))
				if e.special {
					e.fact(ge(m, mkInt(3)))
				}
				e.cutAt(0, at)
				e.cutAt(0, add(at, m))
			}
			mid := []*Term{ge(at, mkInt(4)), ge(n, addc(add(at, m), 4))}
			end := []*Term{ge(at, mkInt(4))}
			op.cases = []*pageCase{
				{name: "after removing", rare: mid},
				{name: "after removing at the end", facts: []*Term{eqInt(n, add(at, m))}, rare: end},
				{name: "an entry removed", facts: []*Term{lt(add(at, m), n)}, result: true, rare: mid},
				{name: "an entry removed at the end", facts: []*Term{eqInt(n, add(at, m))}, result: true, rare: end},
				{name: "an entry before those removed", facts: []*Term{ge(i, tZero), lt(addc(i, 1), at)}, j: i, old: i, rare: mid},
				{name: "an entry before the removed end", facts: []*Term{ge(i, tZero), lt(addc(i, 1), at), eqInt(n, add(at, m))}, j: i, old: i, rare: end},
				{name: "the entry right before those removed", facts: []*Term{ge(at, tOne), lt(add(at, m), n)}, j: addc(at, -1), old: addc(at, -1), rare: mid},
				{name: "the entry right before the removed end", facts: []*Term{ge(at, tOne), eqInt(n, add(at, m))}, j: addc(at, -1), old: addc(at, -1), rare: end},
				{name: "an entry behind those removed", facts: []*Term{ge(i, add(at, m)), lt(addc(i, 1), n)}, j: sub(i, m), old: i, rare: mid},
				{name: "the last entry behind those removed", facts: []*Term{lt(add(at, m), n)}, j: addc(sub(n, m), -1), old: addc(n, -1), rare: mid},
			}
		case 2:
			v := run.args[2]
			op.part, op.value, op.delta = part, v, tZero
			op.pre = func(e *pageEval) {
				e.fact(le(tZero, at))
				e.fact(lt(at, n))
				lo := e.cutAt(part, at)
				d := sub(lenOf(v), sub(e.cutAt(part+1, at), lo))
				gap := int64(0)
				if e.special {
					gap = 64
					e.fact(le(mkInt(16), lenOf(v)))
				}
				e.fact(le(addc(mulc(n, lay.stride), lay.first+gap), sub(e.cutAt(0, tZero), d)))
			}
			oldLen := func(e *pageEval) *Term { return sub(e.cutAt(part+1, at), e.cutAt(part, at)) }
			for _, longer := range []bool{true, false} {
				longer := longer
				base := op.pre
				o2 := *op
				o2.pre = func(e *pageEval) {
					base(e)
					if e.special {
						if longer {
							e.fact(le(addc(oldLen(e), 16), lenOf(v)))
						} else {
							e.fact(le(addc(lenOf(v), 16), oldLen(e)))
						}
					}
				}
				mid := []*Term{ge(at, mkInt(4)), ge(n, addc(at, 5))}
				last := []*Term{ge(at, mkInt(4))}
				o2.cases = []*pageCase{
					{name: "after replacing", rare: mid},
					{name: "after replacing in the last entry", facts: []*Term{eqInt(n, addc(at, 1))}, rare: last},
					{name: "an entry before the one changed", facts: []*Term{ge(i, tZero), lt(addc(i, 1), at)}, j: i, old: i, rare: mid},
					{name: "the entry right before the one changed", facts: []*Term{ge(at, tOne)}, j: addc(at, -1), old: addc(at, -1), rare: mid},
					{name: "the changed entry", facts: []*Term{lt(addc(at, 1), n)}, j: at, old: at, set: true, rare: mid},
					{name: "the changed last entry", facts: []*Term{eqInt(n, addc(at, 1))}, j: at, old: at, set: true, rare: last},
					{name: "an entry before the changed last one", facts: []*Term{eqInt(n, addc(at, 1)), ge(i, tZero), lt(addc(i, 1), at)}, j: i, old: i, rare: last},
					{name: "an entry behind the one changed", facts: []*Term{lt(at, i), lt(addc(i, 1), n)}, j: i, old: i, rare: mid},
					{name: "the last entry behind the one changed", facts: []*Term{lt(addc(at, 1), n)}, j: addc(n, -1), old: addc(n, -1), rare: mid},
				}
				ops = append(ops, &o2)
			}
			continue
		}
		ops = append(ops, op)
	}
	return ops
}

// judgeLoad: the load of a page is the size of its entries.
func (P *Program) judgeLoad(r *Report, lay *pageLay) {
	for _, c := range []struct {
		name string
		n    *Term
	}{{"a page with entries", nil}, {"an empty page", tZero}} {
		for _, o := range lay.load.outs {
			if o.panics {
				continue
			}
			op := &pageOp{run: lay.load, pre: func(e *pageEval) {}}
			pc := &pageCase{facts: []*Term{le(tOne, pageN)}}
			if c.n != nil {
				pc.facts = []*Term{eq0(pageN)}
			}
			e, d := lay.eval(op, o, pc, false)
			if d != nil {
				if d.kind == "unknown" {
					r.open("load", shortName(lay.load.fn), lay.load.fn.Pos(), d.msg, "")
				}
				continue
			}
			v := func() (v verdict) {
				defer func() {
					if x := recover(); x != nil {
						u, ok := x.(pageUnknown)
						if !ok {
							panic(x)
						}
						v = verdict{"unknown", u.why}
					}
				}()
				want := tZero
				if c.n == nil {
					want = add(mulc(pageN, lay.stride), sub(mkInt(lay.end), e.cutAt(0, tZero)))
				}
				got := e.norm(o.ret[0])
				if e.same(got, want) {
					return verdict{"ok", ""}
				}
				k := "unknown"
				if x := sub(got, want); x.op == OConst || e.lt(got, want) || e.lt(want, got) {
					k = "bad"
				}
				return verdict{k, fmt.Sprintf("the load of %s is %s instead of %s", c.name, got, want)}
			}()
			switch v.kind {
			case "ok":
				r.ok("load", shortName(lay.load.fn)+": "+c.name)
			case "bad":
				r.bad("load", shortName(lay.load.fn), lay.load.fn.Pos(), v.msg, "")
			default:
				r.open("load", shortName(lay.load.fn), lay.load.fn.Pos(), v.msg, "")
			}
		}
	}
}

// rulePageHeaders: what is put into a field of a header is what is read from
// it, and no other field changes; new pages have no entries.
func rulePageHeaders(P *Program, r *Report) {
	type field struct {
		get, set *Run
	}
	types_ := map[string]map[string]*field{}
	at := func(typ, name string) *field {
		if types_[typ] == nil {
			types_[typ] = map[string]*field{}
		}
		if types_[typ][name] == nil {
			types_[typ][name] = &field{}
		}
		return types_[typ][name]
	}
	for _, f := range P.Funcs {
		n := shortName(f)
		i := strings.Index(n, ".")
		if i < 0 || len(f.Params) == 0 || !isByteSlice(f.Params[0].Type()) || f.Signature.Recv() == nil {
			continue
		}
		typ, name := n[:i], n[i+1:]
		sig := f.Signature
		switch {
		case strings.HasPrefix(name, "Set") && sig.Params().Len() == 1 && sig.Results().Len() == 0 && isAnyInt(sig.Params().At(0).Type()):
			at(typ, name[3:]).set = P.analyse(cfgPage(P), f, nil)
		case sig.Params().Len() == 0 && sig.Results().Len() == 1 && isAnyInt(sig.Results().At(0).Type()):
			at(typ, name).get = P.analyse(cfgPage(P), f, nil)
		}
	}
	for _, typ := range sortedKeys(types_) {
		fs := types_[typ]
		for _, name := range sortedKeys(fs) {
			s := fs[name].set
			if s == nil {
				continue
			}
			r.use(s)
			for _, other := range sortedKeys(fs) {
				g := fs[other].get
				if g == nil {
					continue
				}
				label := fmt.Sprintf("%s after %s", shortName(g.fn), shortName(s.fn))
				for _, so := range s.outs {
					for _, go_ := range g.outs {
						if so.panics || go_.panics || len(go_.ret) != 1 {
							continue
						}
						ret := go_.ret[0]
						if ret.op != OLoad || len(ret.sels) != 1 || ret.sels[0].Idx == nil || ret.sels[0].Idx.op != OConst {
							if other == name {
								r.open("fields", shortName(g.fn), g.fn.Pos(), "what is read is "+ret.String(), "")
							}
							continue
						}
						w, tag, ok := intLoad(ret.s)
						o, soff, _, _ := sliceParts(s.args[0])
						if o == nil || soff != tZero {
							continue
						}
						c := so.st.cont(o)
						known := ok && c != nil && c.kind == wInt && c.parent == nil && c.off.op == OConst && c.ln.op == OConst
						if !known {
							if other == name {
								r.open("fields", label, s.fn.Pos(), "the writes are not recognised", "")
							}
							continue
						}
						off := ret.sels[0].Idx.i
						same := c.off.i == off && c.ln.i == w && c.tag == tag
						apart := c.off.i+c.ln.i <= off || off+w <= c.off.i
						switch {
						case other == name && same && c.val == s.args[1], other != name && apart:
							r.ok("fields", label)
						case other == name && same:
							if c.val.op == OConst || sub(c.val, s.args[1]).op == OConst {
								r.bad("fields", shortName(s.fn), s.fn.Pos(), label+": "+c.val.String()+" is stored instead of what is given", "")
							} else {
								r.open("fields", label, s.fn.Pos(), c.val.String()+" is stored", "")
							}
						case other == name:
							r.bad("fields", shortName(s.fn), s.fn.Pos(), fmt.Sprintf("%s: written at [%d,%d) as %s, read at [%d,%d) as %s", label, c.off.i, c.off.i+c.ln.i, c.tag, off, off+w, tag), "")
						default:
							r.bad("fields", shortName(s.fn), s.fn.Pos(), fmt.Sprintf("%s: writing [%d,%d) changes what is read at [%d,%d)", label, c.off.i, c.off.i+c.ln.i, off, off+w), "")
						}
					}
				}
			}
		}
	}
	r.need("fields", 15)
	P.newPages(r)
}

// newPages: a page which is made is large enough and holds no entries.
func (P *Program) newPages(r *Report) {
	for _, leaf := range []bool{true, false} {
		lay := P.pageLayout(r, leaf)
		if lay == nil {
			continue
		}
		n := 0
		for _, f := range P.Funcs {
			res := f.Signature.Results()
			if f.Pkg == nil || res.Len() != 2 || !isNamed(res.At(1).Type(), lay.typ) || len(f.Blocks) == 0 {
				continue
			}
			run := P.analyse(cfgPage(P), f, nil)
			if run.err != "" {
				continue
			}
			for _, o := range run.outs {
				if o.panics || len(o.ret) != 2 {
					continue
				}
				var made *Event
				for _, ev := range o.st.log.list() {
					if ev.kind == "alloc" && ev.res == o.ret[0] {
						made = ev
					}
				}
				if made == nil {
					continue
				}
				n++
				r.use(run)
				fn := shortName(f)
				size := made.args[0]
				switch {
				case size.op != OConst:
					r.open("new", fn, f.Pos(), "the size of the page is "+size.String(), "")
				case size.i < lay.end:
					r.bad("new", fn, f.Pos(), fmt.Sprintf("a page of %d bytes is made, but entries reach up to %d", size.i, lay.end), "")
				default:
					r.ok("new", fn+": large enough")
				}
				view, off, _, _ := sliceParts(o.ret[1])
				if view == nil || off != tZero {
					r.open("new", fn, f.Pos(), "what is returned is not the page", "")
					continue
				}
				zero := [4]int{}
				unknown := ""
				for c := o.st.cont(view); c != nil; c = c.parent {
					for b := int64(0); b < 4; b++ {
						if zero[b] != 0 {
							continue
						}
						a := mkInt(lay.count + b)
						z, why := zeroWrite(o.st, c, a)
						if why != "" {
							unknown = why
						}
						zero[b] = z
					}
				}
				bad, all := false, true
				for _, z := range zero {
					bad = bad || z != 1
					all = all && z == 1
				}
				switch {
				case all:
					r.ok("new", fn+": no entries")
				case bad && unknown == "":
					r.bad("new", fn, f.Pos(), fmt.Sprintf("the number of entries (at %d) of a new page is not set to 0", lay.count), "")
				default:
					r.open("new", fn, f.Pos(), unknown, "")
				}
			}
		}
		if n == 0 {
			r.open("new", lay.typ, 0, "no function which makes a page is recognised", "")
		}
	}
	r.need("new", 4)
}

// zeroWrite: whether the write sets the byte at a: 1 to zero, -1 to something else, 0 not at all.
func zeroWrite(st *State, c *Content, a *Term) (int, string) {
	in := func(off, ln *Term) int {
		if st.decide(le(off, a)) == 1 && st.decide(lt(a, add(off, ln))) == 1 {
			return 1
		}
		if st.decide(lt(a, off)) == 1 || st.decide(le(add(off, ln), a)) == 1 {
			return -1
		}
		return 0
	}
	switch c.kind {
	case wInt:
		switch in(c.off, c.ln) {
		case 1:
			if c.val == tZero {
				return 1, ""
			}
			return -1, ""
		case 0:
			return 0, "write at " + c.off.String()
		}
		return 0, ""
	case wCopy:
		switch in(c.off, c.ln) {
		case 1:
			if c.src != nil && c.src.kind == ObjLocal && c.srcC == nil {
				return 1, ""
			}
			return 0, "copy to " + c.off.String()
		case 0:
			return 0, "copy to " + c.off.String()
		}
		return 0, ""
	case wQuant:
		for _, q := range c.quant {
			b := sub(subst(q.off, c.k, tOne), subst(q.off, c.k, tZero))
			base := subst(q.off, c.k, tZero)
			if q.kind == wInt && q.val == tZero && b.op == OConst && q.ln.op == OConst && b.i == q.ln.i && in(base, mulc(c.ln, b.i)) == 1 {
				return 1, ""
			}
		}
		return 0, "repeated writes"
	}
	return 0, "unknown writes"
}

// cfgPage: like cfgCodec, with every way out on its own.
func cfgPage(P *Program) *Config {
	if P.cfgs["page"] == nil {
		P.setCfg(&Config{Name: "page", NoMerge: true, Boundary: func(f *ssa.Function) bool { return P.cyclic(f) }})
	}
	return P.cfgs["page"]
}

func isNamed(t types.Type, name string) bool {
	n, ok := t.(*types.Named)
	return ok && n.Obj().Name() == name
}

func isAnyInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
