package main

import (
	"fmt"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Refutation for the page rules: the summary of an operation (what the
// abstract interpretation found it does to the page) is evaluated for one
// definite page, as bytes with their origin. What the summary does not
// determine gives no verdict.

type pointGiveUp struct{ why string }

// origin is the origin of a byte.
type origin struct {
	src string // where it comes from
	off int64
}

// pagePoint is a definite instance of an operation on a page.
type pagePoint struct {
	lay  *pageLay
	op   *pageOp
	n    int64
	env  map[*Term]int64
	lens [][]int64 // per part: lengths of the entries of the page
	in   [][]int64 // per part: lengths of the entries passed in
	vlen int64     // length of the value passed in
	size int64
	recs *Term
	view *Obj
	gv   *Obj // as the reading function names the page
	fin  []origin
	o    *Outcome
	vals map[string]int64 // values of integers by origin
	mem  map[*Content][]origin
	rec  map[string]map[int64]int64
	bufs map[*Obj][]origin
	deep int
	work int
}

func (p *pagePoint) fail(f string, a ...interface{}) { panic(pointGiveUp{fmt.Sprintf(f, a...)}) }

func (p *pagePoint) cut(q int, i int64) int64 {
	// parts begin at the end of the page and grow down
	at := p.lay.end
	for j := p.n - 1; j >= 0; j-- {
		for r := len(p.lay.cuts) - 1; r >= 0; r-- {
			at -= p.lens[r][j]
			if j == i && r == q {
				return at
			}
		}
	}
	return p.lay.end
}

// value evaluates an integer.
func (p *pagePoint) value(t *Term) int64 {
	l := linOf(t)
	r := l.c
	for _, a := range sortedAtoms(l) {
		r += l.m[a] * p.atom(a)
	}
	return r
}

func (p *pagePoint) atom(a *Term) int64 {
	p.work++
	if p.work > 3000000 {
		p.fail("too much work")
	}
	if v, ok := p.env[a]; ok {
		return v
	}
	p.deep++
	defer func() { p.deep-- }()
	if p.deep > 400 {
		p.fail("too deep")
	}
	switch a.op {
	case OMin:
		m := p.value(a.args[0])
		for _, x := range a.args[1:] {
			if v := p.value(x); v < m {
				m = v
			}
		}
		return m
	case OLen:
		if p.recs != nil && a == lenOf(p.recs) {
			return int64(len(p.in[0]))
		}
		if p.op.value != nil && a == lenOf(p.op.value) {
			return p.vlen
		}
		if q, i, ok := p.given(a.args[0]); ok && q < len(p.in) {
			if i < 0 || i >= int64(len(p.in[q])) {
				p.fail("entry %d of those passed in", i)
			}
			return p.in[q][i]
		}
		if a.args[0].op == OApp && len(a.args[0].args) == 1 {
			return p.recur(a.args[0].s, p.value(a.args[0].args[0]), 2)
		}
	case OApp:
		if strings.HasPrefix(a.s, "size") {
			return p.size
		}
		if len(a.args) == 1 {
			return p.recur(a.s, p.value(a.args[0]), -1)
		}
	case ONarrow:
		w, _ := strconv.Atoi(strings.TrimPrefix(a.s, "narrow"))
		v := p.value(a.args[0])
		if v < 0 && v >= -(1<<uint(w-1)) && w >= 32 {
			return v
		}
		if w > 0 && w < 63 && v >= 0 {
			if r := v & (1<<uint(w) - 1); r < 1<<uint(w-1) {
				return r
			}
		}
	case OBin:
		x, y := p.value(a.args[0]), p.value(a.args[1])
		switch {
		case a.s == "*":
			return x * y
		case a.s == "/" && y != 0:
			return x / y
		case a.s == "%" && y != 0:
			return x % y
		}
	case OLoad:
		if len(a.sels) == 1 && a.sels[0].Field < 0 {
			w, tag, ok := intLoad(a.s)
			if !ok {
				break
			}
			off := p.value(a.sels[0].Idx)
			var cs []origin
			switch {
			case p.gv != nil && a.obj == p.gv && a.content == nil:
				cs = p.fin
			case a.obj == p.view:
				cs = p.cells(a.content)
			default:
				p.fail("load %s", a)
			}
			v, ok := p.integer(cs, off, w, tag)
			if !ok {
				p.fail("value at %d", off)
			}
			return v
		}
	}
	p.fail("term %s", a)
	return 0
}

// given: t is part q of entry i of those passed in.
func (p *pagePoint) given(t *Term) (q int, i int64, ok bool) {
	if p.recs == nil || t.op != OLoad || len(t.sels) != 2 || t.sels[0].Idx == nil {
		return
	}
	o, off, _, _ := sliceParts(p.recs)
	if t.obj != o || t.content != nil {
		return
	}
	return t.sels[1].Field, p.value(t.sels[0].Idx) - p.value(off), true
}

func (p *pagePoint) integer(cs []origin, off, w int64, tag string) (int64, bool) {
	if off < 0 || off+w > int64(len(cs)) {
		p.fail("read at %d", off)
	}
	first := cs[off]
	for j := int64(0); j < w; j++ {
		c := cs[off+j]
		if c.src != first.src || c.off != first.off+j {
			return 0, false
		}
	}
	if first.src == "page" {
		return p.original(first.off, w, tag)
	}
	if strings.HasPrefix(first.src, "int|"+tag+"|"+strconv.Itoa(int(w))+"|") && first.off == 0 {
		v, ok := p.vals[first.src]
		return v, ok
	}
	return 0, false
}

// original: the headers of the page as it was.
func (p *pagePoint) original(off, w int64, tag string) (int64, bool) {
	if w != 4 || tag != "be" {
		return 0, false
	}
	if off == p.lay.count {
		return p.n, true
	}
	for q, c := range p.lay.cuts {
		if d := off - c; d >= 0 && d%p.lay.stride == 0 && d/p.lay.stride < p.n {
			return p.cut(q, d/p.lay.stride), true
		}
	}
	return 0, false
}

// truth evaluates a condition.
func (p *pagePoint) truth(c *Term) bool {
	switch c.op {
	case OBool:
		return c.i != 0
	case OLE0:
		return p.value(c.args[0]) <= 0
	case OEQ0:
		return p.value(c.args[0]) == 0
	case ONot:
		return !p.truth(c.args[0])
	}
	p.fail("condition %s", c)
	return false
}

// cells is a page with the given content.
func (p *pagePoint) cells(c *Content) []origin {
	if cs, ok := p.mem[c]; ok {
		return cs
	}
	var cs []origin
	if c == nil {
		cs = make([]origin, p.size)
		for i := range cs {
			cs[i] = origin{"page", int64(i)}
		}
	} else {
		cs = append(cs, p.cells(c.parent)...)
		p.write(cs, c)
	}
	if len(p.mem) > 600 {
		p.fail("too many contents")
	}
	p.mem[c] = cs
	return cs
}

// source are the bytes of a stretch written.
func (p *pagePoint) source(c *Content, ln int64) []origin {
	from := p.value(c.srcOff)
	r := make([]origin, ln)
	if c.src == p.view {
		cs := p.cells(c.srcC)
		if from < 0 || from+ln > int64(len(cs)) {
			p.fail("copy from %d", from)
		}
		copy(r, cs[from:from+ln])
		return r
	}
	name := p.name(c.src)
	for j := range r {
		r[j] = origin{name, from + int64(j)}
	}
	return r
}

// name identifies the bytes passed in.
func (p *pagePoint) name(o *Obj) string {
	if o != nil && o.kind == ObjSym && o.of != nil {
		if q, i, ok := p.given(o.of); ok {
			return fmt.Sprintf("in%d[%d]", q, i)
		}
		if p.op.value != nil {
			if v, _, _, _ := sliceParts(p.op.value); v == o {
				return "value"
			}
		}
	}
	p.fail("bytes of %v", o)
	return ""
}

func (p *pagePoint) write(cs []origin, c *Content) {
	switch c.kind {
	case wInt:
		off, w := p.value(c.off), p.value(c.ln)
		if off < 0 || off+w > int64(len(cs)) {
			p.fail("write at %d", off)
		}
		src := "int|" + c.tag + "|" + strconv.Itoa(int(w)) + "|"
		if q, i, ok := p.given(c.val); ok {
			src += fmt.Sprintf("in%d[%d]", q, i)
		} else if o := p.whole(c.val, w, c.tag); o != "" {
			// an integer of the page as it was
			at, _ := strconv.ParseInt(o, 10, 64)
			for j := int64(0); j < w; j++ {
				cs[off+j] = origin{"page", at + j}
			}
			return
		} else {
			v := p.value(c.val)
			src += strconv.FormatInt(v, 10)
			p.vals[src] = v
		}
		for j := int64(0); j < w; j++ {
			cs[off+j] = origin{src, j}
		}
	case wCopy:
		off, ln := p.value(c.off), p.value(c.ln)
		if ln <= 0 {
			return
		}
		if off < 0 || off+ln > int64(len(cs)) {
			p.fail("copy to %d", off)
		}
		copy(cs[off:off+ln], p.source(c, ln))
	case wQuant:
		n := p.value(c.ln)
		if n > 5000 {
			p.fail("%d iterations", n)
		}
		for k := int64(0); k < n; k++ {
			memo := map[*Term]*Term{}
			for _, q := range c.quant {
				p.write(cs, substC(q, c.k, mkInt(k), memo))
			}
		}
	default:
		p.fail("unknown writes")
	}
}

// whole: the value is an integer of the page as it was whose value is not
// known here (an address).
func (p *pagePoint) whole(t *Term, w int64, tag string) string {
	if t.op != OLoad || t.obj != p.view || len(t.sels) != 1 || t.sels[0].Field >= 0 {
		return ""
	}
	lw, ltag, ok := intLoad(t.s)
	if !ok || lw != w || ltag != tag {
		return ""
	}
	off := p.value(t.sels[0].Idx)
	cs := p.cells(t.content)
	if off < 0 || off+w > int64(len(cs)) {
		p.fail("read at %d", off)
	}
	for j := int64(0); j < w; j++ {
		if cs[off+j] != (origin{"page", cs[off].off + j}) {
			return ""
		}
	}
	if _, known := p.original(cs[off].off, w, tag); known {
		return ""
	}
	return strconv.FormatInt(cs[off].off, 10)
}

// ---- loop variables ----

// loopVar finds the loop variable which f names: the loop, its name and which
// part of it (-1 the value, 1 the offset, 2 the length of a slice).
func (p *pagePoint) loopVar(f string, want int) (ls *LoopSum, name string, part int) {
	for _, ev := range p.o.st.log.list() {
		if ev.loop == nil {
			continue
		}
		for _, n := range sortedKeys(ev.loop.start) {
			s := ev.loop.start[n]
			if s == nil {
				continue
			}
			if s.op == OApp && s.s == f {
				return ev.loop, n, want
			}
			if s.op == OSlice {
				for i := 0; i < 2; i++ {
					if x := s.args[i]; x.op == OApp && x.s == f && len(x.args) == 1 {
						return ev.loop, n, i + 1
					}
				}
			}
		}
	}
	return nil, "", 0
}

func partOf(t *Term, part int) *Term {
	if t == nil || part < 0 {
		return t
	}
	_, off, ln, _ := sliceParts(t)
	if part == 1 {
		return off
	}
	if t.op != OSlice {
		return lenOf(t)
	}
	return ln
}

// recur evaluates the loop variable f at the start of iteration k.
func (p *pagePoint) recur(f string, k int64, part int) int64 {
	ls, name, pt := p.loopVar(f, part)
	if ls == nil || k < 0 || k > 5000 {
		p.fail("loop variable %s", f)
	}
	key := f + "/" + strconv.Itoa(pt)
	if p.rec[key] == nil {
		p.rec[key] = map[int64]int64{}
	}
	if v, ok := p.rec[key][k]; ok {
		return v
	}
	var v int64
	if k == 0 {
		t := partOf(ls.entry[name], pt)
		if t == nil {
			p.fail("loop variable %s", f)
		}
		v = p.value(t)
	} else {
		// from the start, not to nest deeply
		for j := int64(0); j < k-1; j++ {
			if _, ok := p.rec[key][j]; !ok {
				p.recur(f, j, part)
			}
		}
		it := p.iteration(ls, k-1)
		if it == nil {
			p.fail("no iteration %d", k-1)
		}
		old, had := p.env[ls.k]
		p.env[ls.k] = k - 1
		v = p.value(partOf(it.next[name], pt))
		delete(p.env, ls.k)
		if had {
			p.env[ls.k] = old
		}
	}
	p.rec[key][k] = v
	return v
}

// iteration is the class of iterations to which iteration k belongs.
func (p *pagePoint) iteration(ls *LoopSum, k int64) (hit *IterSum) {
	old, had := p.env[ls.k]
	p.env[ls.k] = k
	defer func() {
		delete(p.env, ls.k)
		if had {
			p.env[ls.k] = old
		}
	}()
	for _, it := range ls.iters {
		ok := true
		for _, f := range it.facts {
			if !p.truth(f) {
				ok = false
				break
			}
		}
		if ok {
			if hit != nil {
				p.fail("two classes of iterations")
			}
			hit = it
		}
	}
	return hit
}

// loopsOf fixes the number of iterations of each loop on the way.
func (p *pagePoint) loopsOf(o *Outcome) {
	for _, ev := range o.st.log.list() {
		if ls := ev.loop; ls != nil {
			k := int64(0)
			for ; ; k++ {
				if k > 3000 {
					p.fail("too many iterations")
				}
				if p.iteration(ls, k) == nil {
					break
				}
			}
			p.env[ls.k] = k
		}
	}
}

// collected are the entries returned, part q: their bytes or the origin of an integer.
func (p *pagePoint) collected(q int) [][]origin {
	if len(p.o.ret) == 0 || p.o.ret[0].op != OApp {
		p.fail("what is returned")
	}
	ret := p.o.ret[0]
	ls, name, _ := p.loopVar(ret.s, -1)
	if ls == nil || lenOf(ls.entry[name]) != tZero {
		p.fail("what is returned")
	}
	num := p.value(ret.args[0])
	typ := elemFieldType(&Term{typ: p.op.run.fn.Signature.Results().At(0).Type()}, q)
	type piece struct {
		o       *Obj
		off, ln int64
		cells   []origin
	}
	var ps []piece
	bufs := map[*Obj][]origin{}
	at := func(cs []origin, o *Obj, n int64) []origin {
		for int64(len(cs)) < n {
			cs = append(cs, origin{"zero", 0})
		}
		bufs[o] = cs
		return cs
	}
	old, had := p.env[ls.k]
	defer func() {
		delete(p.env, ls.k)
		if had {
			p.env[ls.k] = old
		}
	}()
	for k := int64(0); k < num; k++ {
		it := p.iteration(ls, k)
		if it == nil {
			p.fail("no iteration %d", k)
		}
		p.env[ls.k] = k
		for _, ev := range (*Program)(nil).ownEvents(ls, it) {
			if ev.loop != nil {
				p.fail("nested loop")
			}
		}
		o, off, _, _ := sliceParts(it.next[name])
		if o == nil || sub(lenOf(it.next[name]), lenOf(ls.start[name])) != tOne {
			p.fail("what is returned")
		}
		x := it.st.loadElem(o, it.st.cont(o), []Sel{{Field: -1, Idx: add(off, lenOf(ls.start[name]))}, {Field: q}}, typ)
		if !isByteSlice(typ) {
			w := p.lay.width()
			src := p.whole(x, w, "be")
			if src == "" {
				p.fail("what is returned")
			}
			a, _ := strconv.ParseInt(src, 10, 64)
			ps = append(ps, piece{cells: []origin{{"page", a}}})
			continue
		}
		// what this iteration writes to the memory of both parts
		done := map[*Obj]bool{}
		for f := 0; f < 2; f++ {
			ft := elemFieldType(&Term{typ: p.op.run.fn.Signature.Results().At(0).Type()}, f)
			if !isByteSlice(ft) {
				continue
			}
			y := it.st.loadElem(o, it.st.cont(o), []Sel{{Field: -1, Idx: add(off, lenOf(ls.start[name]))}, {Field: f}}, ft)
			b, _, _, _ := sliceParts(y)
			if b == nil || b.kind != ObjLocal {
				p.fail("what is returned")
			}
			if done[b] {
				continue
			}
			done[b] = true
			var chain []*Content
			for c := it.st.cont(b); c != nil; c = c.parent {
				if c.kind == wHavoc {
					break
				}
				chain = append(chain, c)
			}
			key := substObj(b, ls.k, mkInt(k), map[*Term]*Term{})
			for i := len(chain) - 1; i >= 0; i-- {
				c := chain[i]
				if c.kind != wCopy {
					p.fail("writes to what is returned")
				}
				wo, wl := p.value(c.off), p.value(c.ln)
				if wl <= 0 {
					continue
				}
				cs := at(bufs[key], key, wo+wl)
				copy(cs[wo:wo+wl], p.source(c, wl))
			}
		}
		b, bo, bl, _ := sliceParts(x)
		ps = append(ps, piece{substObj(b, ls.k, mkInt(k), map[*Term]*Term{}), p.value(bo), p.value(bl), nil})
	}
	var r [][]origin
	for _, x := range ps {
		if x.cells == nil {
			cs := at(bufs[x.o], x.o, x.off+x.ln)
			x.cells = append([]origin{}, cs[x.off:x.off+x.ln]...)
		}
		r = append(r, x.cells)
	}
	return r
}

func (lay *pageLay) width() int64 { return 8 }

// ---- judging a point ----

func cellsString(cs []origin) string {
	if len(cs) == 0 {
		return "nothing"
	}
	var r []string
	for i := 0; i < len(cs); {
		j := i + 1
		for j < len(cs) && cs[j].src == cs[i].src && cs[j].off == cs[j-1].off+1 {
			j++
		}
		s := cs[i].src
		if s == "page" {
			s = "the page as it was"
		} else if strings.HasPrefix(s, "int|") {
			s = "an integer"
		}
		r = append(r, fmt.Sprintf("%s[%d,%d)", s, cs[i].off, cs[i].off+int64(j-i)))
		i = j
		if len(r) > 3 {
			r = append(r, "...")
			break
		}
	}
	return strings.Join(r, "+")
}

func sameCells(a, b []origin) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (p *pagePoint) want(c *pageCase, q int) []origin {
	if c.set && q == p.op.part {
		r := make([]origin, p.vlen)
		for j := range r {
			r[j] = origin{"value", int64(j)}
		}
		return r
	}
	if c.old != nil {
		i := p.value(c.old)
		if i < 0 || i >= p.n {
			p.fail("case %s has no entry", c.name)
		}
		lo := p.cut(q, i)
		r := make([]origin, p.lens[q][i])
		for j := range r {
			r[j] = origin{"page", lo + int64(j)}
		}
		return r
	}
	i := p.value(c.nw)
	r := make([]origin, p.in[q][i])
	for j := range r {
		r[j] = origin{fmt.Sprintf("in%d[%d]", q, i), int64(j)}
	}
	return r
}

func (p *pagePoint) wantInt(c *pageCase) []origin {
	r := make([]origin, 8)
	for j := range r {
		if c.old != nil {
			r[j] = origin{"page", p.lay.addr + p.lay.stride*p.value(c.old) + int64(j)}
		} else {
			r[j] = origin{fmt.Sprintf("int|be|8|in1[%d]", p.value(c.nw)), int64(j)}
		}
	}
	return r
}

func (p *pagePoint) wantInt0(g *Run, gi int, c *pageCase) []origin {
	if isByteSlice(g.fn.Signature.Results().At(0).Type()) {
		return p.want(c, gi)
	}
	return p.wantInt(c)
}

// reader evaluates a reading function on the page afterwards.
func (p *pagePoint) reader(g *Run, j *Term) (o *Outcome, panics bool) {
	p.gv = g.args[0].obj
	p.env[g.args[0].args[1]] = p.size
	if len(g.args) > 1 {
		p.env[g.args[1]] = p.value(j)
	}
	for _, x := range g.outs {
		ok := true
		for _, f := range x.st.facts {
			if !p.truth(f) {
				ok = false
				break
			}
		}
		if ok {
			if o != nil {
				p.fail("two ways")
			}
			o = x
		}
	}
	if o == nil {
		p.fail("no way")
	}
	return o, o.panics
}

// desc describes the instance.
func (p *pagePoint) desc() string {
	s := fmt.Sprintf("page with %d entries", p.n)
	if p.op.at != nil {
		s += fmt.Sprintf(", index %d", p.env[p.op.at])
	}
	if p.recs != nil {
		s += fmt.Sprintf(", %d passed in", len(p.in[0]))
	} else if p.op.num != nil {
		s += fmt.Sprintf(", %d of them removed", p.env[p.op.num])
	} else if p.op.value != nil {
		s += fmt.Sprintf(", %d bytes for %d", p.vlen, p.lens[p.op.part][p.env[p.op.at]])
	}
	return s
}

// runPoint evaluates the operation at a point: the path it takes and the page afterwards.
func (p *pagePoint) runPoint() (ok bool, rejects bool) {
	for _, o := range p.op.run.outs {
		p.o = o
		p.mem, p.rec, p.vals = map[*Content][]origin{}, map[string]map[int64]int64{}, map[string]int64{}
		p.loopsOf(o)
		hit := true
		for _, f := range o.st.facts {
			if !p.truth(f) {
				hit = false
				break
			}
		}
		if !hit {
			continue
		}
		if o.panics {
			return true, true
		}
		p.fin = p.cells(o.st.cont(p.view))
		return true, false
	}
	return false, false
}

// points are the instances at which a case is tried.
func (lay *pageLay) points(op *pageOp, c *pageCase) []*pagePoint {
	var r []*pagePoint
	nc := len(lay.cuts)
	ins := op.value == nil && op.num != nil && op.num.op == OLen
	rem := op.value == nil && !ins && op.num != nil
	for _, shape := range []int{0, 1, 2} {
		for _, n := range []int64{0, 1, 2, 9} {
			for _, at := range []int64{0, 1, 4, 8, 9} {
				for _, m := range []int64{1, 3, 9} {
					if at > n || !ins && !rem && m > 1 || rem && at+m > n || (rem || !ins) && at >= n || ins && m == 9 {
						continue
					}
					for _, i := range []int64{0, 1, 2, 5, 7} {
						if i > n+m {
							continue
						}
						for _, big := range []bool{false, true} {
							if (ins || rem) && big {
								continue
							}
							p := &pagePoint{lay: lay, op: op, n: n, view: op.run.args[0].obj, size: lay.end}
							p.env = map[*Term]int64{pageN: n, pageI: i}
							if len(op.run.args) > 1 {
								p.env[op.at] = at
							}
							p.env[op.run.args[0].args[1]] = p.size
							sizes := func(n int64, base int64) [][]int64 {
								var r [][]int64
								for q := 0; q < nc; q++ {
									var ls []int64
									for j := int64(0); j < n; j++ {
										l := base + int64(7*q) + (j*(3+int64(q)))%11
										if shape == 1 && (j+int64(q))%2 == 0 {
											l = 0
										}
										ls = append(ls, l)
									}
									r = append(r, ls)
								}
								return r
							}
							p.lens = sizes(n, 17)
							if ins {
								p.recs = op.run.args[2]
								p.in = sizes(m, 41)
							}
							if rem {
								p.env[op.num] = m
							}
							if op.value != nil {
								p.vlen = 5
								if big {
									p.vlen = 60
								}
								if shape == 1 && !big {
									p.vlen = 0
								}
							}
							skip := false
							for _, f := range c.facts {
								skip = skip || !p.safeTruth(f)
							}
							if skip {
								continue
							}
							if shape == 2 {
								// full to the last byte
								total := lay.first + n*lay.stride
								for q := range p.lens {
									for _, l := range p.lens[q] {
										total += l
									}
								}
								for q := range p.in {
									for _, l := range p.in[q] {
										total += l
									}
								}
								if ins {
									total += m * lay.stride
								}
								if op.value != nil {
									if d := p.vlen - p.lens[op.part][at]; d > 0 {
										total += d
									}
								}
								if n == 0 {
									continue
								}
								// one of the entries takes all the room
								j := int64(0)
								if op.value != nil && at == 0 {
									j = n - 1
								}
								if op.value != nil && j == at {
									continue
								}
								p.lens[nc-1][j] += lay.end - total
							}
							r = append(r, p)
						}
						uses := false
						for _, f := range c.facts {
							uses = uses || f.contains(pageI)
						}
						if c.j != nil {
							uses = uses || c.j.contains(pageI)
						}
						if !uses {
							break
						}
					}
				}
			}
		}
	}
	return r
}

func (p *pagePoint) safeTruth(f *Term) (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, is := x.(pointGiveUp); is {
				ok = false
				return
			}
			panic(x)
		}
	}()
	return p.truth(f)
}

// refute looks for an instance which contradicts; the first one found.
func (lay *pageLay) refute(op *pageOp, c *pageCase, judge func(p *pagePoint) string) string {
	tried := 0
	for _, p := range lay.points(op, c) {
		if tried > 40 {
			break
		}
		msg := func() (msg string) {
			defer func() {
				if x := recover(); x != nil {
					if u, is := x.(pointGiveUp); is {
						dbg("point of %s %s: %s", shortName(op.run.fn), p.desc(), u.why)
						return
					}
					panic(x)
				}
			}()
			ok, rejects := p.runPoint()
			if !ok {
				return ""
			}
			if rejects {
				return "the operation rejects valid arguments"
			}
			tried++
			return judge(p)
		}()
		if msg != "" {
			return msg + " (" + p.desc() + ")"
		}
	}
	return ""
}

// judgePoint compares what reading gives with what is expected.
func (p *pagePoint) judgePoint(g *Run, gi int, c *pageCase) string {
	env := p.env
	defer func() { p.env, p.gv = env, nil }()
	want := p.wantInt0(g, gi, c)
	p.env = cloneMap(env)
	o, panics := p.reader(g, c.j)
	if panics {
		return shortName(g.fn) + " rejects the index"
	}
	var got []origin
	if isByteSlice(g.fn.Signature.Results().At(0).Type()) {
		_, off, ln, _ := sliceParts(o.ret[0])
		lo := p.value(off)
		n := p.value(ln)
		if lo < 0 || n < 0 || lo+n > int64(len(p.fin)) {
			return fmt.Sprintf("%s takes %d bytes at %d", shortName(g.fn), n, lo)
		}
		got = p.fin[lo : lo+n]
	} else {
		t := o.ret[0]
		if t.op != OLoad || t.obj != p.gv || len(t.sels) != 1 {
			p.fail("what is read")
		}
		off := p.value(t.sels[0].Idx)
		if off < 0 || off+8 > int64(len(p.fin)) {
			p.fail("what is read")
		}
		got = p.fin[off : off+8]
	}
	if !sameCells(got, want) {
		return cellsString(got) + " instead of " + cellsString(want)
	}
	return ""
}

func (p *pagePoint) judgeCount(g *Run, delta *Term) string {
	want := p.n + p.value(delta)
	env := p.env
	defer func() { p.env, p.gv = env, nil }()
	p.env = cloneMap(env)
	o, panics := p.reader(g, nil)
	if panics {
		return shortName(g.fn) + " panics"
	}
	if got := p.value(o.ret[0]); got != want {
		return fmt.Sprintf("%d instead of %d", got, want)
	}
	return ""
}

func (p *pagePoint) judgeHeader(h headerInt) string {
	for j := int64(0); j < h.w; j++ {
		if p.fin[h.off+j] != (origin{"page", h.off + j}) {
			return "changed to " + cellsString(p.fin[h.off:h.off+h.w])
		}
	}
	return ""
}

func (p *pagePoint) judgeReturned(q int) string {
	got := p.collected(q)
	if m := p.env[p.op.num]; int64(len(got)) != m {
		return fmt.Sprintf("%d entries are returned instead of %d", len(got), m)
	}
	for k := range got {
		i := p.env[p.op.at] + int64(k)
		var want []origin
		if isByteSlice(elemFieldType(&Term{typ: p.op.run.fn.Signature.Results().At(0).Type()}, q)) {
			lo := p.cut(q, i)
			want = make([]origin, p.lens[q][i])
			for j := range want {
				want[j] = origin{"page", lo + int64(j)}
			}
		} else {
			want = []origin{{"page", p.lay.addr + p.lay.stride*i}}
		}
		if !sameCells(got[k], want) {
			return fmt.Sprintf("entry %d returned: %s instead of %s", k, cellsString(got[k]), cellsString(want))
		}
	}
	return ""
}

var _ = ssa.BuilderMode(0)
