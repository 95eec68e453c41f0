package main

import "go/types"

// storageLevel is the depth of an address in the chain handle -> array -> array -> ... -> space:
// an address held in a field of a handle has level 0, one read from a space of level n has level n+1.
// Spaces of different levels are different spaces (ownership of the file space is a tree).
func storageLevel(st *State, t *Term) (int, bool) {
	if t.op == OApp && t.s == "alloc" {
		// a new space has the level of the field of the handle it was put into
		for _, o := range sortedObjs(st.mem) {
			c := st.mem[o]
			if o.kind != ObjSym || !stateHandle(o) {
				continue
			}
			for ; c != nil; c = c.parent {
				if c.kind == wCell && c.val == t {
					return 0, true
				}
			}
		}
		return 0, false
	}
	if e := standsFor[t]; e != nil && e != t {
		return storageLevel(st, e)
	}
	if t.op != OLoad || t.obj == nil {
		return 0, false
	}
	switch t.obj.kind {
	case ObjSym:
		if len(t.sels) == 1 && t.sels[0].Field >= 0 && stateHandle(t.obj) || handleField(t.obj, t.sels) {
			return 0, true
		}
	case ObjView:
		if t.obj.addr == nil || t.obj.part != nil || t.s != "be64" {
			return 0, false
		}
		if l, ok := storageLevel(st, t.obj.addr); ok {
			return l + 1, true
		}
	}
	return 0, false
}

// standsFor: what the unknown value of a cell at the start of an iteration was on entry to the loop.
var standsFor = map[*Term]*Term{}

// handleField: the field of a handle which is itself embedded in a structure.
func handleField(o *Obj, sels []Sel) bool {
	if len(sels) < 2 || o.typ == nil {
		return false
	}
	t := derefT(o.typ)
	for i, s := range sels {
		st, ok := t.Underlying().(*types.Struct)
		if !ok || s.Field < 0 || s.Field >= st.NumFields() {
			return false
		}
		if i == len(sels)-1 {
			n, ok := t.(*types.Named)
			return ok && stateField(n.Obj().Name()+".x")
		}
		t = st.Field(s.Field).Type()
	}
	return false
}

func stateHandle(o *Obj) bool {
	return stateField(typeNameOfPtr(o.typ) + ".x")
}

// relateLevels: -1 when the addresses designate different spaces by ownership, 1 same, 0 unknown.
func relateLevels(st *State, a, b *Term) int {
	la, ok := storageLevel(st, a)
	if !ok {
		return 0
	}
	lb, ok := storageLevel(st, b)
	if !ok {
		return 0
	}
	if la != lb {
		return -1
	}
	if la == 0 {
		if a.op == OLoad && b.op == OLoad && (len(a.sels) != len(b.sels) || a.sels[len(a.sels)-1] != b.sels[len(b.sels)-1]) {
			return -1
		}
		return 0
	}
	// Elements of different indices of the same array, or of arrays of different parents, are
	// different spaces; indices written as different expressions address different elements
	// (rules on the indices themselves are separate).
	if a != b {
		return -1
	}
	return 1
}
