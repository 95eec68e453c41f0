package main

import "go/types"

// The sequence domain: the abstract contents of a page (records of a leaf, children
// of a non-leaf) are a concatenation of segments of initial pages and single elements.

func seg(base, from, to *Term) *Term { return mkApp("seg", base, from, to) }
func el(k, v *Term) *Term            { return mkApp("el", k, v) }
func keyOf(base, i *Term) *Term      { return mkApp("key", base, i) }
func valOf(base, i *Term) *Term      { return mkApp("val", base, i) }
func countOf(base *Term) *Term       { return mkApp("count", base) }
func pageBase(addr *Term) *Term      { return mkApp("page", addr) }

var emptyBytes = mkApp("empty")

func isSeg(t *Term) bool { return t.op == OApp && t.s == "seg" }
func isEl(t *Term) bool  { return t.op == OApp && t.s == "el" }

func elKey(t *Term) *Term {
	if isSeg(t) {
		return keyOf(t.args[0], t.args[1])
	}
	return t.args[0]
}
func elVal(t *Term) *Term {
	if isSeg(t) {
		return valOf(t.args[0], t.args[1])
	}
	return t.args[1]
}

func segLen(t *Term) *Term {
	if isSeg(t) {
		return sub(t.args[2], t.args[1])
	}
	return tOne
}

func seqLen(q *Term) *Term {
	if q.op != OApp || q.s != "seq" {
		return countOf(q)
	}
	r := tZero
	for _, g := range q.args {
		r = add(r, segLen(g))
	}
	return r
}

// mkSeq normalises: adjacent segments join, untouched elements melt into segments.
func mkSeq(gs []*Term) *Term {
	var out []*Term
	for _, g := range gs {
		if isEl(g) {
			k, v := g.args[0], g.args[1]
			if k.op == OApp && k.s == "key" && v.op == OApp && v.s == "val" && k.args[0] == v.args[0] && k.args[1] == v.args[1] {
				g = seg(k.args[0], k.args[1], addc(k.args[1], 1))
			}
		}
		if isSeg(g) {
			if g.args[1] == g.args[2] {
				continue
			}
			if n := len(out); n > 0 && isSeg(out[n-1]) && out[n-1].args[0] == g.args[0] && out[n-1].args[2] == g.args[1] {
				out[n-1] = seg(g.args[0], out[n-1].args[1], g.args[2])
				continue
			}
		}
		out = append(out, g)
	}
	return mkApp("seq", out...)
}

func initialSeq(addr *Term) *Term {
	b := pageBase(addr)
	return mkSeq([]*Term{seg(b, tZero, countOf(b))})
}

// seqSplit cuts the sequence at position i, splitting the path when the place is undecided.
func seqSplit(s *State, q *Term, i *Term) ([]*Term, []*Term) {
	pos := tZero
	for n, g := range q.args {
		if i == pos || s.decide(eqInt(i, pos)) == 1 {
			return q.args[:n:n], q.args[n:]
		}
		end := add(pos, segLen(g))
		if n == len(q.args)-1 {
			// the last one: i must be inside or at its end
			if i == end || s.decide(eqInt(i, end)) == 1 {
				return q.args, nil
			}
		}
		inside := lt(i, end)
		if s.decide(inside) == 0 && isSeg(g) && n < len(q.args)-1 {
			if !s.must(inside) {
				pos = end
				continue
			}
		} else if s.decide(inside) == -1 {
			pos = end
			continue
		}
		if isEl(g) {
			// not inside a single element other than at its start
			if s.must(eqInt(i, pos)) {
				return q.args[:n:n], q.args[n:]
			}
			pos = end
			continue
		}
		b, f, t := g.args[0], g.args[1], g.args[2]
		m := add(f, sub(i, pos))
		l := append(q.args[:n:n], seg(b, f, m))
		r := append([]*Term{seg(b, m, t)}, q.args[n+1:]...)
		return l, r
	}
	return q.args, nil
}

// seqAt gives the element at position i (or nil when it lies past the end).
func seqAt(s *State, q *Term, i *Term) *Term {
	if q.op != OApp || q.s != "seq" {
		return el(keyOf(q, i), valOf(q, i))
	}
	pos := tZero
	for n, g := range q.args {
		end := add(pos, segLen(g))
		last := n == len(q.args)-1
		var in bool
		if last {
			in = s.decide(lt(i, end)) != -1
		} else {
			in = s.must(lt(i, end))
		}
		if in {
			if isEl(g) {
				return g
			}
			m := add(g.args[1], sub(i, pos))
			return el(keyOf(g.args[0], m), valOf(g.args[0], m))
		}
		pos = end
	}
	return nil
}

func contentLen(k *Term) *Term {
	switch {
	case k == emptyBytes:
		return tZero
	case k.op == OApp && k.s == "bytes":
		return lenOf(k.args[0])
	case k.op == OApp && k.s == "sub":
		return k.args[2]
	case k.op == OApp && (k.s == "uv" || k.s == "sv"):
		return mkApp("uvlen", k.args[0])
	case k.op == OApp && (k.s == "int:be" || k.s == "int:le"):
		return k.args[1]
	case k.op == OApp && k.s == "cat":
		r := tZero
		for _, a := range k.args {
			r = add(r, contentLen(a))
		}
		return r
	}
	return mkApp("klen", k)
}

// privateSlice is a slice of a private buffer holding the abstract content k.
func privateSlice(name string, k *Term) *Term {
	if k == emptyBytes {
		return tNil
	}
	return mkSlice(extObj(name, k), tZero, contentLen(k), 0)
}

func (s *State) elemValue(e *Term, sels []Sel, typ types.Type) *Term {
	k, v := elKey(e), elVal(e)
	mk := func(c *Term, t types.Type) *Term {
		if isByteSlice(t) {
			return privateSlice("rm", c)
		}
		return c
	}
	if len(sels) == 0 {
		if st, ok := typ.Underlying().(*types.Struct); ok && st.NumFields() == 2 {
			return mkStruct([]*Term{mk(k, st.Field(0).Type()), mk(v, st.Field(1).Type())})
		}
		return nil
	}
	switch sels[0].Field {
	case 0:
		return projPath(mk(k, typ), sels[1:])
	case 1:
		return projPath(mk(v, typ), sels[1:])
	}
	return nil
}
