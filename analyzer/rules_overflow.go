package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---- keys and values with a part outside of the page (C17, comparison: C16) ----

type codec struct {
	factory, what string
	maxConst      string
}

var codecs = []codec{{"keyFactory", "Key", "maxKeySize"}, {"valueFactory", "Value", "maxValueSize"}}

// chained analyses a function in a state another one has left behind.
type chained struct {
	x    *Interp
	outs []*Outcome
	args []*Term
	err  string
}

func (P *Program) chain(cfg *Config, fn *ssa.Function, st *State, set func(st *State, args []*Term)) (c *chained) {
	c = &chained{x: newInterp(P, cfg)}
	defer func() {
		if e := recover(); e != nil {
			if tc, ok := e.(tooComplex); ok {
				c.err = tc.msg
				return
			}
			c.err = fmt.Sprintf("analysis of %s failed: %v", shortName(fn), e)
		}
	}()
	q := st.clone()
	for _, p := range fn.Params { // other names than those of the function before
		n := "then:" + p.Name()
		if isByteSlice(p.Type()) {
			n = "caller:" + n
		}
		c.args = append(c.args, mkSym(n, p.Type()))
	}
	set(q, c.args)
	c.outs = c.x.runFn(fn, c.args, nil, q)
	return c
}

// sinceEvents: the events of st after those of base.
func sinceEvents(st, base *State) []*Event {
	n := map[*Event]bool{}
	for _, e := range base.log.list() {
		n[e] = true
	}
	var rs []*Event
	for _, e := range st.log.list() {
		if !n[e] {
			rs = append(rs, e)
		}
	}
	return rs
}

func (P *Program) codecFn(c codec, name string) *ssa.Function {
	return P.method(pkgBPTree, c.factory, name)
}

func firstBytes(f *ssa.Function) int {
	for i, p := range f.Params {
		if i > 0 && isByteSlice(p.Type()) {
			return i
		}
	}
	return -1
}

// encoded: what the factory makes of any raw key or value.
func (P *Program) encoded(r *Report, c codec, f func(create *ssa.Function, raw *Term, o *Outcome, j *judge)) {
	cf := P.codecFn(c, "Create"+c.what)
	if cf == nil {
		r.open("codec", c.factory, 0, "Create"+c.what+" not found", "")
		return
	}
	run := P.analyse(cfgBounds(P), cf, nil)
	bi := firstBytes(cf)
	if !r.usable(run) || bi < 0 {
		return
	}
	for _, k := range sortedKeys(run.x.Findings) {
		if b := run.x.Findings[k]; b.Kind == "bounds" {
			r.bad("encode", shortName(cf), cf.Pos(), b.Msg, "")
		}
	}
	eachOutcomeAll(r, run, "encode", func(j *judge, o *Outcome) {
		if o.panics {
			j.bad("panics for some %s", c.what)
			return
		}
		f(cf, run.args[bi], o, j)
	})
}

// eachOutcomeAll: with the outcomes which panic.
func eachOutcomeAll(r *Report, run *Run, rule string, f func(j *judge, o *Outcome)) {
	for i, o := range run.outs {
		j := &judge{r: r, run: run, rule: rule, n: i}
		f(j, o)
		if j.bads == 0 {
			r.ok(rule, fmt.Sprintf("%s outcome %d", run.name, i))
		}
	}
}

// minSplits resolves minima: one state for each order of their operands.
func minSplits(q *State, ts []*Term, f func(q *State, ts []*Term)) {
	var m *Term
	for _, t := range ts {
		t.walk(func(x *Term) bool {
			if m == nil && x.op == OMin {
				inner := false
				for _, a := range x.args {
					a.walk(func(y *Term) bool { inner = inner || y.op == OMin; return !inner })
				}
				if !inner {
					m = x
				}
			}
			return m == nil
		})
	}
	if m == nil || len(m.args) != 2 {
		f(q, ts)
		return
	}
	for k := 0; k < 2; k++ {
		s := q.clone()
		a, b := m.args[k], m.args[1-k]
		if k == 0 {
			s.assume(le(a, b))
		} else {
			s.assume(lt(a, b))
		}
		if s.dead {
			continue
		}
		us := make([]*Term, len(ts))
		for i, t := range ts {
			us[i] = subst(t, m, a)
		}
		minSplits(s, us, f)
	}
}

func ruleOverflow(P *Program, r *Report) {
	for _, c := range codecs {
		c := c
		var maxSize int64 = -1
		if pk := P.Pkgs[pkgBPTree]; pk != nil {
			if k, ok := pk.Pkg.Scope().Lookup(c.maxConst).(*types.Const); ok {
				fmt.Sscan(k.Val().String(), &maxSize)
			}
		}
		P.encoded(r, c, func(cf *ssa.Function, raw *Term, o *Outcome, j *judge) {
			R := contentTerm(o.st, raw)
			L := contentLen(R)
			stored := o.ret[0]
			if maxSize >= 0 {
				if n := partLen(stored); o.st.decide(le(n, mkInt(maxSize))) != 1 {
					j.bad("a stored %s may take more than %d bytes of a page (%s)", c.what, maxSize, n)
				}
			}
			var allocs []*Term
			for _, e := range o.st.log.list() {
				switch e.kind {
				case "alloc":
					allocs = append(allocs, e.res)
				case "free":
					j.bad("releases space while encoding")
				}
			}
			if len(allocs) > 1 {
				j.bad("allocates %d spaces for one %s", len(allocs), c.what)
			}
			for _, d := range []struct{ name, kind string }{{"Read" + c.what + "All", "all"}, {"GetRaw" + c.what + "Size", "size"}, {"Destroy" + c.what, "destroy"}, {"Read" + c.what, "part"}} {
				df := P.codecFn(c, d.name)
				if df == nil {
					j.open("%s not found", d.name)
					continue
				}
				P.decodeBack(r, c, df, d.kind, o, stored, R, L, allocs)
			}
		})
	}
	r.need("encode", 4)
	r.need("decodeback", 16)
}

func partLen(sl *Term) *Term {
	if _, _, ln, _ := sliceParts(sl); ln != nil {
		return ln
	}
	return tZero
}

func (P *Program) decodeBack(r *Report, c codec, df *ssa.Function, kind string, o *Outcome, stored, R, L *Term, allocs []*Term) {
	bi := firstBytes(df)
	var buf, off *Term
	ch := P.chain(cfgBounds(P), df, o.st, func(st *State, args []*Term) {
		args[bi] = stored
		for i := bi + 1; i < len(df.Params); i++ {
			if isByteSlice(df.Params[i].Type()) {
				buf = args[i]
			} else {
				off = args[i]
				st.assume(le(tZero, off))
			}
		}
	})
	for f := range ch.x.inlined {
		r.Funcs[f] = true
	}
	r.Roots[shortName(df)] = true
	where := fmt.Sprintf("of a %s with a length of %s", c.what, rangeOf(o.st, L))
	n := 0
	bad := func(f string, a ...interface{}) {
		n++
		r.bad("decodeback", shortName(df), df.Pos(), fmt.Sprintf(f, a...), where)
	}
	open := func(f string, a ...interface{}) {
		n++
		r.open("decodeback", shortName(df), df.Pos(), fmt.Sprintf(f, a...), where)
	}
	if ch.err != "" {
		open("%s", ch.err)
		return
	}
	if len(ch.outs) == 0 {
		open("no outcome")
	}
	for _, k := range sortedKeys(ch.x.Findings) {
		if f := ch.x.Findings[k]; f.Kind == "bounds" {
			bad("%s", f.Msg)
		}
	}
	for _, o2 := range ch.outs {
		st := o2.st
		if o2.panics {
			bad("panics on what was stored (%s)", o2.pval)
			continue
		}
		frees := map[*Term]int{}
		for _, e := range sinceEvents(st, o.st) {
			switch e.kind {
			case "alloc":
				bad("allocates space")
			case "free":
				frees[e.args[0]]++
			}
		}
		if kind == "destroy" {
			for _, a := range allocs {
				if frees[a] != 1 {
					bad("the space of the part outside the page is released %d times", frees[a])
				}
				delete(frees, a)
			}
		}
		for a := range frees {
			bad("releases %s", a)
		}
		num := func(t *Term, what string) {
			if d := sameInt(st, t, L); d == -1 || d == 0 && !strOpaque(t) {
				bad("%s is %s instead of %s", what, t, L)
			} else if d == 0 {
				open("%s is %s instead of %s", what, t, L)
			}
		}
		switch kind {
		case "all":
			if g := contentTerm(st, o2.ret[0]); g != R && !st.sameContent(g, R) {
				if strOpaque(g) {
					open("yields %s instead of %s", g, R)
				} else {
					bad("yields %s instead of %s", g, R)
				}
			}
		case "size", "destroy":
			num(o2.ret[0], "the size")
		case "part":
			bo, boff, bl, _ := sliceParts(buf)
			if bo == nil || off == nil {
				open("unexpected signature")
				return
			}
			ret := o2.ret[0]
			g0, w0 := contentOf(st, bo, st.cont(bo), boff, ret, 0), subContent(R, off, ret)
			minSplits(st, []*Term{ret, g0, w0}, func(q *State, ts []*Term) {
				for k, want := range []*Term{tZero, bl, sub(L, off)} {
					q1 := q.clone()
					switch k {
					case 0:
						q1.assume(le(L, off))
					case 1:
						q1.assume(le(bl, sub(L, off)))
						q1.assume(lt(off, L))
					case 2:
						q1.assume(lt(sub(L, off), bl))
						q1.assume(lt(off, L))
					}
					if q1.dead {
						continue
					}
					if d := sameInt(q1, ts[0], want); d == -1 || d == 0 && !strOpaque(ts[0]) {
						bad("reads %s bytes at offset %s instead of %s", ts[0], off, want)
						continue
					} else if d == 0 {
						open("reads %s bytes at offset %s instead of %s", ts[0], off, want)
						continue
					}
					if q1.decide(eqInt(want, tZero)) == 1 {
						continue
					}
					if g, w := ts[1], ts[2]; g != w && !q1.sameContent(g, w) {
						if strOpaque(g) {
							open("reads %s instead of %s", g, w)
						} else {
							bad("reads %s instead of %s", g, w)
						}
					}
				}
			})
		}
	}
	if n == 0 {
		r.ok("decodeback", shortName(df)+" "+where)
		r.Paths += len(ch.outs)
	}
}

// sameContent: equal although written differently.
func (st *State) sameContent(a, b *Term) bool {
	return a == b || contentLen(a) == contentLen(b) && st.normContent(a) == st.normContent(b)
}

// normContent: minima and empty pieces resolved with what is known.
func (st *State) normContent(t *Term) *Term {
	if t.op != OApp {
		return t
	}
	switch t.s {
	case "cat":
		var ps []*Term
		for _, a := range t.args {
			if st.decide(eqInt(contentLen(a), tZero)) == 1 {
				continue
			}
			ps = append(ps, st.normContent(a))
		}
		return catContents(ps)
	case "sub":
		if len(t.args) == 3 {
			if st.decide(eqInt(t.args[1], tZero)) == 1 && st.decide(eqInt(t.args[2], contentLen(t.args[0]))) == 1 {
				return t.args[0]
			}
		}
	}
	return t
}

func rangeOf(st *State, t *Term) string {
	s := t.String()
	for _, f := range st.facts {
		if f.op == OLE0 && len(linOf(f.args[0]).m) == 1 && f.contains(t) {
			s = f.String()
			break
		}
	}
	return s
}

func ruleCompare(P *Program, r *Report) {
	P.encoded(r, codecs[0], func(cf *ssa.Function, raw *Term, o *Outcome, j *judge) {
		P.checkCompare(r, o, o.ret[0], contentTerm(o.st, raw))
	})
	r.need("compare", 3)
}

// checkCompare: the comparison of a stored key is that of the keys themselves.
func (P *Program) checkCompare(r *Report, o *Outcome, stored, A *Term) {
	f := P.method(pkgBPTree, "keyComparer", "CompareKey")
	if f == nil {
		r.open("compare", "keyComparer.CompareKey", 0, "not found", "")
		return
	}
	bi := firstBytes(f)
	var B *Term
	ch := P.chain(cfgBounds(P), f, o.st, func(st *State, args []*Term) {
		args[bi] = stored
		B = contentTerm(st, args[bi+1])
	})
	for g := range ch.x.inlined {
		r.Funcs[g] = true
	}
	r.Roots[shortName(f)] = true
	where := "key stored with " + rangeOf(o.st, contentLen(A))
	if ch.err != "" {
		r.open("compare", shortName(f), f.Pos(), ch.err, where)
		return
	}
	for _, k := range sortedKeys(ch.x.Findings) {
		if b := ch.x.Findings[k]; b.Kind == "bounds" {
			r.bad("compare", shortName(f), f.Pos(), b.Msg, where)
		}
	}
	for i, o2 := range ch.outs {
		if o2.panics {
			r.bad("compare", shortName(f), f.Pos(), fmt.Sprintf("panics on a stored key (%s)", o2.pval), where)
			continue
		}
		ok, why := sameOrder(o2.st, o2.ret[0], A, B)
		switch {
		case ok == 1:
			r.ok("compare", fmt.Sprintf("%s outcome %d", where, i))
		case ok == 0:
			r.open("compare", shortName(f), f.Pos(), why, where)
		default:
			r.bad("compare", shortName(f), f.Pos(), why, where)
		}
		r.Paths++
	}
}

func cmpArgs(t *Term) (a, b *Term) {
	if l := linOf(t); l.c == 0 && len(l.m) == 1 {
		for x, c := range l.m {
			if c == -1 && x.op == OApp && x.s == "cmp" && len(x.args) == 2 {
				return x.args[1], x.args[0]
			}
		}
	}
	if t.op == OApp && t.s == "cmp" && len(t.args) == 2 {
		return t.args[0], t.args[1]
	}
	return nil, nil
}

// prefixOf: c is the first n bytes of x; n is returned.
func prefixOf(c, x *Term) *Term {
	if c == x {
		return contentLen(x)
	}
	if c.op == OApp && c.s == "sub" && c.args[0] == x && c.args[1] == tZero {
		return c.args[2]
	}
	return nil
}

// sameOrder: the sign of got is that of the comparison of A with B.
func sameOrder(st *State, got, A, B *Term) (int, string) {
	x, y := cmpArgs(got)
	sign := func(s int) (int, string) {
		// a constant answer: known from what was compared before
		for _, f := range st.facts {
			var c *Term
			f.walk(func(t *Term) bool {
				if p, q := cmpArgs(t); p != nil && prefixOf(q, B) != nil {
					c = t
				} else if p != nil && prefixOf(p, B) != nil {
					c = sub(tZero, t)
				}
				return c == nil
			})
			if c == nil {
				continue
			}
			pos, neg, zero := st.decide(lt(tZero, c)) == 1, st.decide(lt(c, tZero)) == 1, st.decide(eqInt(c, tZero)) == 1
			if s > 0 && pos || s < 0 && neg || s == 0 && zero {
				if d, why := sameOrder(st, c, A, B); d == 1 {
					return 1, why
				}
			}
		}
		return -1, fmt.Sprintf("the result is %s for keys which may compare differently", got)
	}
	if got.op == OConst {
		return sign(int(linOf(got).c))
	}
	if x == nil && !strOpaque(got) {
		return -1, fmt.Sprintf("the result is %s, which is no comparison", got)
	}
	if x == nil {
		return 0, fmt.Sprintf("the result is %s", got)
	}
	if prefixOf(y, B) == nil && prefixOf(x, B) != nil {
		return -1, fmt.Sprintf("the result is %s, the comparison the other way round", got)
	}
	n := prefixOf(y, B)
	if n != nil {
		whole := y == B
		m := prefixOf(x, A)
		switch {
		case m != nil && x == A && whole:
			return 1, ""
		case m != nil && sameInt(st, m, n) == 1:
			// equal prefixes decide if they differ
			if st.decide(eqInt(got, tZero)) == -1 {
				return 1, ""
			}
			return -1, fmt.Sprintf("the result is that for the first %s bytes, also when they are equal", n)
		}
		if whole {
			// x starts with a part of A which is at least as long as B, and both go on
			if x.op == OApp && x.s == "cat" && len(x.args) > 1 {
				if p := prefixOf(x.args[0], A); p != nil && st.decide(le(contentLen(B), p)) == 1 && st.decide(lt(p, contentLen(A))) == 1 && st.decide(lt(p, contentLen(x))) == 1 {
					return 1, ""
				}
			}
		}
		return -1, fmt.Sprintf("the result is the comparison of %s with %s", x, y)
	}
	// the rest after equal prefixes
	if x.op == OApp && x.s == "sub" && x.args[0] == A && y.op == OApp && y.s == "sub" && y.args[0] == B {
		from := x.args[1]
		if sameInt(st, from, y.args[1]) != 1 {
			return -1, fmt.Sprintf("compares the keys from different offsets (%s, %s)", from, y.args[1])
		}
		if sameInt(st, add(from, x.args[2]), contentLen(A)) != 1 || sameInt(st, add(from, y.args[2]), contentLen(B)) != 1 {
			return -1, fmt.Sprintf("the result is the comparison of %s with %s", x, y)
		}
		eq := false
		for _, f := range st.facts {
			f.walk(func(t *Term) bool {
				p, q := cmpArgs(t)
				if p == nil || st.decide(eqInt(t, tZero)) != 1 {
					return true
				}
				if prefixOf(p, B) != nil {
					p, q = q, p
				}
				a, b := prefixOf(p, A), prefixOf(q, B)
				if a != nil && b != nil && sameInt(st, a, from) == 1 && sameInt(st, b, from) == 1 {
					eq = true
				}
				return true
			})
		}
		if eq || st.decide(eqInt(from, tZero)) == 1 {
			return 1, ""
		}
		return -1, fmt.Sprintf("only the bytes after %s decide", from)
	}
	if strOpaque(got) {
		return 0, fmt.Sprintf("the result is %s", got)
	}
	return -1, fmt.Sprintf("the result is the comparison of %s with %s", x, y)
}

func init() {
	register("C17", "Composition analysis: every way of encoding a key or value is followed by every decoding operation, analysed in the state the encoding left; sizes, bytes and releases must be those of the original.",
		compose(ruleOverflow))
	register("C16", "Composition analysis of the comparison of stored keys; search loops validated by their invariants.",
		compose(ruleCompare, ruleDescent, ruleSentinels,
			func(P *Program, r *Report) { P.ruleSearch(r, "leafController", "LocateRecord", 0) },
			func(P *Program, r *Report) { P.ruleSearch(r, "nonLeafController", "LocateChild", 1) }))
}
