package main

import "go/types"

// Invariants are facts about every object of a type that hold whenever no
// lock is held (established by the constructors, preserved by everything).
type Invariants struct {
	ints   map[string]*ival // Type.Field
	nonnil map[string]bool  // Type.Field
	elemNN map[string]bool  // container type: elements are not nil
	flag   map[flagInv]bool
}

type ival struct{ lo, hi int64 }

// flagInv: if the boolean field has the value, the other field is not nil.
type flagInv struct {
	typ, flag string
	val       bool
	field     string
}

func newInvariants() *Invariants {
	return &Invariants{ints: map[string]*ival{}, nonnil: map[string]bool{}, elemNN: map[string]bool{}, flag: map[flagInv]bool{}}
}

// flagInvariants draws consequences of a test of a boolean field.
func (x *Exec) flagInvariants(s *State, c *Cond, want bool) {
	org := c.org
	if !x.elemTrust || org == nil || org.Obj == nil {
		return
	}
	n, ok := s.heap[org.Obj]
	if !ok {
		n = x.root(s, org.Obj)
	}
	n = x.expand(s, n)
	st, ok := org.Obj.t.Underlying().(*types.Struct)
	if n.k != nStruct || !ok {
		return
	}
	fi, _ := structField(org.Obj.t, org.Field)
	if fi < 0 {
		return
	}
	// the flag may have been changed since it was read: what it said about a
	// field that never becomes nil again still holds
	now := x.untouched(n.f[fi], org.Obj, org.Type, org.Field) && vkey(x.toVal(s, n.f[fi])) == vkey(c)
	for j := 0; j < st.NumFields(); j++ {
		f := st.Field(j)
		if !ptrLikeT(f.Type()) || x.nocand[flagKey(org.Type, org.Field, want, f.Name())] || x.byVal[org.Type] || !x.untouched(n.f[j], org.Obj, org.Type, f.Name()) {
			continue
		}
		if !now && !x.stays[org.Type+"."+f.Name()] {
			continue
		}
		nc := nilCond(x.toVal(s, n.f[j]))
		if nc.k == cKey {
			s.own()
			s.F.op[nc.key] = false
		}
	}
}
