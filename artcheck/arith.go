package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

// quot remembers what an opaque quotient stands for.
type quot struct {
	num, den *Lin
}

func (x *Exec) binop(s *State, in ssa.Instruction, op token.Token, a, b Value, xt, rt types.Type) []sv {
	one := func(v Value) []sv { return []sv{{s, v}} }
	switch op {
	case token.EQL:
		return one(x.equal(s, xt, a, b))
	case token.NEQ:
		return one(cnot(x.equal(s, xt, a, b)))
	}
	ia, oka := a.(*Int)
	ib, okb := b.(*Int)
	if oka && okb {
		switch op {
		case token.LSS:
			return one(cnot(&Cond{k: cLE, a: ib, b: ia}))
		case token.LEQ:
			return one(&Cond{k: cLE, a: ia, b: ib})
		case token.GTR:
			return one(cnot(&Cond{k: cLE, a: ia, b: ib}))
		case token.GEQ:
			return one(&Cond{k: cLE, a: ib, b: ia})
		}
		return x.arith(s, in, op, ia, ib)
	}
	sa, oka := a.(*Str)
	sb, okb := b.(*Str)
	if oka && okb {
		if op == token.ADD {
			return one(strCat(sa, sb))
		}
		la1, ok1 := sa.lit()
		lb1, ok2 := sb.lit()
		if ok1 && ok2 {
			switch op {
			case token.LSS:
				return one(cBool(la1 < lb1))
			case token.LEQ:
				return one(cBool(la1 <= lb1))
			case token.GTR:
				return one(cBool(la1 > lb1))
			case token.GEQ:
				return one(cBool(la1 >= lb1))
			}
		}
		return one(ckey(fmt.Sprintf("strcmp(%s,%s,%s)", op, sa.key(), sb.key())))
	}
	ca, oka := a.(*Cond)
	cb, okb := b.(*Cond)
	if oka && okb {
		switch op {
		case token.AND, token.LAND:
			return one(cand(ca, cb))
		case token.OR, token.LOR:
			return one(cor(ca, cb))
		}
	}
	nm := fmt.Sprintf("(%s %s %s)", vkey(a), op, vkey(b))
	return one(x.symVal(s, rt, nm, nil, ""))
}

// fit turns a linear form into a value of the type, splitting on wrap-around.
func (x *Exec) fit(s *State, l *Lin, w int, sg bool) []sv {
	l = s.res(l)
	lo, hi := s.rng(l)
	tlo, thi := typeRange(w, sg)
	if w >= 61 && sg {
		// 64 bit signed quantities (lengths, indices, times) are taken as
		// mathematical integers
		return []sv{{s, intLin(l, w, sg)}}
	}
	if lo >= tlo && hi <= thi {
		return []sv{{s, intLin(l, w, sg)}}
	}
	if s.entails(l.plus(-tlo)) && s.entails(lc(thi).sub(l)) {
		return []sv{{s, intLin(l, w, sg)}}
	}
	if w >= 60 {
		var out []sv
		t := s.clone()
		if t.addGE(l) {
			out = append(out, sv{t, intLin(l, w, sg)})
		}
		if s.addGE(l.scale(-1).plus(-1)) {
			out = append(out, sv{s, intAtom(atomNamed("wrap("+l.key()+")", w, sg))})
		}
		return out
	}
	span := int64(1) << uint(w)
	k0, k1 := floorDiv(lo-tlo, span), floorDiv(hi-tlo, span)
	if k1-k0 > 4 {
		return []sv{{s, intAtom(atomNamed("wrap("+l.key()+")", w, sg))}}
	}
	var out []sv
	for k := k0; k <= k1; k++ {
		t := s.clone()
		m := l.plus(-k * span)
		if t.addGE(m.plus(-tlo)) && t.addGE(lc(thi).sub(m)) {
			out = append(out, sv{t, t.resInt(intLin(m, w, sg))})
		}
	}
	return out
}

func (x *Exec) arith(s *State, in ssa.Instruction, op token.Token, a, b *Int) []sv {
	a, b = s.resInt(a), s.resInt(b)
	w, sg := a.w, a.sg
	one := func(v *Int) []sv { return []sv{{s, s.resInt(v)}} }
	bits := func(f func(p, q Bit, i int) Bit) []sv {
		va, vb := a.vec(), b.vec()
		r := make([]Bit, w)
		for i := range r {
			r[i] = f(s.resBit(va[i]), s.resBit(vb[i]), i)
		}
		return one(&Int{w: w, sg: sg, bits: r})
	}
	opaque := func(nm string, i int) Bit {
		return Bit{k: 2, a: atomNamed(fmt.Sprintf("(%s %s %s)", bitsKey(a.vec()), nm, bitsKey(b.vec())), w, false), i: i}
	}
	switch op {
	case token.ADD:
		return x.fit(s, a.linear().add(b.linear(), 1), w, sg)
	case token.SUB:
		return x.fit(s, a.linear().sub(b.linear()), w, sg)
	case token.MUL:
		if c, ok := b.konst(); ok {
			if r := x.shiftMul(s, a, c); r != nil {
				return one(r)
			}
			return x.fit(s, a.linear().scale(c), w, sg)
		}
		if c, ok := a.konst(); ok {
			if r := x.shiftMul(s, b, c); r != nil {
				return one(r)
			}
			return x.fit(s, b.linear().scale(c), w, sg)
		}
		at := atomNamed(fmt.Sprintf("(%s * %s)", a.key(), b.key()), w, sg)
		return one(intAtom(at))
	case token.QUO, token.REM:
		return x.divide(s, in, op, a, b)
	case token.AND:
		return bits(func(p, q Bit, i int) Bit {
			switch {
			case p == bit0 || q == bit0:
				return bit0
			case p == bit1:
				return q
			case q == bit1 || p == q:
				return p
			case p == q.not():
				return bit0
			}
			return opaque("&", i)
		})
	case token.AND_NOT:
		return bits(func(p, q Bit, i int) Bit {
			switch {
			case p == bit0 || q == bit1:
				return bit0
			case q == bit0:
				return p
			case p == bit1:
				return q.not()
			case p == q:
				return bit0
			case p == q.not():
				return p
			}
			return opaque("&^", i)
		})
	case token.OR:
		return bits(func(p, q Bit, i int) Bit {
			switch {
			case p == bit1 || q == bit1:
				return bit1
			case p == bit0:
				return q
			case q == bit0 || p == q:
				return p
			case p == q.not():
				return bit1
			}
			return opaque("|", i)
		})
	case token.XOR:
		return bits(func(p, q Bit, i int) Bit {
			switch {
			case p == bit0:
				return q
			case q == bit0:
				return p
			case p == bit1:
				return q.not()
			case q == bit1:
				return p.not()
			case p == q:
				return bit0
			case p == q.not():
				return bit1
			}
			return opaque("^", i)
		})
	case token.SHL, token.SHR:
		return x.shift(s, in, op, a, b)
	}
	x.fail("unsupported operator %s", op)
	return one(intAtom(atomNamed(fresh("op"), w, sg)))
}

// shiftMul multiplies by a power of two bit by bit when that may overflow.
func (x *Exec) shiftMul(s *State, a *Int, c int64) *Int {
	sh := log2(c)
	if sh < 0 || a.w >= 61 {
		return nil
	}
	lo, hi := s.rng(a.linear().scale(c))
	tlo, thi := typeRange(a.w, a.sg)
	if lo >= tlo && hi <= thi {
		return nil
	}
	v := a.vec()
	r := make([]Bit, a.w)
	for i := sh; i < a.w; i++ {
		r[i] = v[i-sh]
	}
	return &Int{w: a.w, sg: a.sg, bits: r}
}

func (x *Exec) shift(s *State, in ssa.Instruction, op token.Token, a, b *Int) []sv {
	if b.sg {
		ok := s.entails(b.linear())
		x.oblige(s, in, "shift count", ok, "shift count may be negative")
		if !s.addGE(b.linear()) {
			return nil
		}
	}
	n, ok := b.konst()
	if !ok {
		lo, hi := s.rng(b.linear())
		if hi-lo <= 64 && lo >= 0 {
			var out []sv
			for v := lo; v <= hi; v++ {
				t := s.clone()
				if t.assume(&Cond{k: cEQ, a: b, b: mkInt(b.w, b.sg, v)}, true) {
					out = append(out, x.shift(t, in, op, t.resInt(a), mkInt(b.w, b.sg, v))...)
				}
			}
			return out
		}
		return []sv{{s, intAtom(atomNamed(fmt.Sprintf("(%s %s %s)", a.key(), op, b.key()), a.w, a.sg))}}
	}
	if a.w >= 61 && a.sg {
		if c, isc := a.konst(); isc {
			if op == token.SHL {
				if n < 62 {
					return []sv{{s, mkInt(a.w, a.sg, c<<uint(n))}}
				}
			} else {
				return []sv{{s, mkInt(a.w, a.sg, c>>uint(min(n, 63)))}}
			}
		}
		if op == token.SHL && n < 60 {
			return []sv{{s, intLin(a.linear().scale(int64(1)<<uint(n)), a.w, a.sg)}}
		}
	}
	v := a.vec()
	r := make([]Bit, a.w)
	for i := range r {
		var j int64
		if op == token.SHL {
			j = int64(i) - n
		} else {
			j = int64(i) + n
		}
		switch {
		case j >= 0 && j < int64(a.w):
			r[i] = v[j]
		case op == token.SHR && a.sg:
			r[i] = v[a.w-1]
		default:
			r[i] = bit0
		}
	}
	return []sv{{s, s.resInt(&Int{w: a.w, sg: a.sg, bits: r})}}
}

func (x *Exec) divide(s *State, in ssa.Instruction, op token.Token, a, b *Int) []sv {
	nz := s.entailsNE(b.linear())
	x.oblige(s, in, "division by zero", nz, "divisor may be zero: "+b.key())
	if !nz {
		if !s.assume(&Cond{k: cEQ, a: b, b: mkInt(b.w, b.sg, 0)}, false) {
			return nil
		}
	}
	w, sg := a.w, a.sg
	ca, oka := a.konst()
	cb, okb := b.konst()
	if oka && okb && cb != 0 {
		if op == token.QUO {
			return []sv{{s, mkInt(w, sg, ca/cb)}}
		}
		return []sv{{s, mkInt(w, sg, ca%cb)}}
	}
	nonneg := s.entails(a.linear())
	if okb && cb > 0 && !nonneg && sg && s.entails(a.linear().scale(-1)) {
		// the quotient and the remainder of the negation, negated
		na := intLin(a.linear().scale(-1), w, sg)
		var out []sv
		for _, q := range x.divide(s, in, op, na, b) {
			if i, ok := q.v.(*Int); ok {
				out = append(out, sv{q.s, intLin(i.linear().scale(-1), w, sg)})
			}
		}
		return out
	}
	if okb && cb > 0 && nonneg && op == token.REM && !s.entails(lc(cb-1).sub(a.linear())) {
		// few multiples: keep the remainder linear
		if _, hi := s.rng(a.linear()); hi < 2*cb && log2(cb) < 0 {
			var out []sv
			t := s.clone()
			if t.addGE(lc(cb - 1).sub(a.linear())) {
				out = append(out, sv{t, a})
			}
			if s.addGE(a.linear().plus(-cb)) {
				out = append(out, sv{s, intLin(a.linear().plus(-cb), w, sg)})
			}
			return out
		}
	}
	if okb && cb > 0 && nonneg {
		if sh := log2(cb); sh >= 0 {
			v := a.vec()
			r := make([]Bit, w)
			for i := range r {
				if op == token.QUO && i+sh < w {
					r[i] = v[i+sh]
				}
				if op == token.REM && i < sh {
					r[i] = v[i]
				}
			}
			if sg {
				r[w-1] = bit0
			}
			v2 := s.resInt(&Int{w: w, sg: sg, bits: r})
			if w == 64 && op == token.QUO {
				d := a.linear().sub(v2.linear().scale(cb))
				if !d.isConst() && (!s.addGE(d) || !s.addGE(lc(cb-1).sub(d))) {
					return nil
				}
			}
			return []sv{{s, v2}}
		}
		q := atomNamed(fmt.Sprintf("quo(%s/%d)", a.linear().key(), cb), w, sg)
		lo, hi := s.rng(a.linear())
		q.lo, q.hi = max(q.lo, 0), min(q.hi, inf)
		s.restrict(q, lo/cb, hi/cb)
		d := a.linear().sub(la(q).scale(cb))
		if !s.addGE(d) || !s.addGE(lc(cb-1).sub(d)) {
			return nil
		}
		x.quot[q.name] = &quot{a.linear(), lc(cb)}
		if op == token.QUO {
			return []sv{{s, intAtom(q)}}
		}
		return []sv{{s, intLin(d, w, sg)}}
	}
	q := atomNamed(fmt.Sprintf("%s(%s/%s)", op, a.linear().key(), b.linear().key()), w, sg)
	x.quot[q.name] = &quot{a.linear(), b.linear()}
	if op == token.QUO {
		alo, ahi := s.rng(a.linear())
		blo, bhi := s.rng(b.linear())
		if alo >= 0 && blo > 0 {
			s.restrict(q, alo/bhi, ahi/blo)
		}
	} else {
		blo, bhi := s.rng(b.linear())
		if nonneg && blo > 0 {
			s.restrict(q, 0, bhi-1)
		}
	}
	return []sv{{s, intAtom(q)}}
}

// ---------------------------------------------------------------------------
// Equality
// ---------------------------------------------------------------------------

func eqKey(kind, a, b string) *Cond {
	if a == b {
		return cTrue
	}
	if a > b {
		a, b = b, a
	}
	return ckey(kind + "(" + a + "," + b + ")")
}

func (x *Exec) equal(s *State, t types.Type, a, b Value) *Cond {
	if _, ok := a.(NilV); ok {
		a, b = b, a
	}
	if _, ok := b.(NilV); ok {
		return nilCond(a)
	}
	switch av := a.(type) {
	case *Int:
		if bv, ok := b.(*Int); ok {
			if av.key() == bv.key() {
				return cTrue
			}
			return &Cond{k: cEQ, a: av, b: bv}
		}
	case *Cond:
		if bv, ok := b.(*Cond); ok {
			switch {
			case av.k == cConst:
				if av.v {
					return bv
				}
				return cnot(bv)
			case bv.k == cConst:
				if bv.v {
					return av
				}
				return cnot(av)
			case av.String() == bv.String():
				return cTrue
			}
			return cor(cand(av, bv), cand(cnot(av), cnot(bv)))
		}
	case *Str:
		if bv, ok := b.(*Str); ok {
			return x.strEq(s, av, bv)
		}
	case *Ptr:
		if bv, ok := b.(*Ptr); ok {
			if av.o == bv.o {
				if pathKey(av.p) == pathKey(bv.p) {
					return cTrue
				}
				if len(av.p) != len(bv.p) {
					return cFalse
				}
				return eqKey("eqp", av.key(), bv.key())
			}
			if !av.o.sym && !bv.o.sym {
				return cFalse
			}
			if !types.Identical(av.o.t, bv.o.t) && len(av.p) == 0 && len(bv.p) == 0 {
				return cFalse
			}
			if !av.o.sym && !s.isPub(av.o) || !bv.o.sym && !s.isPub(bv.o) {
				return cFalse
			}
			return eqKey("eqp", av.key(), bv.key())
		}
	case *Slice:
		if bv, ok := b.(*Slice); ok && (av.o == nilObj || bv.o == nilObj) {
			if av.o == nilObj {
				return nilCond(bv)
			}
			return nilCond(av)
		}
	case *Iface:
		if bv, ok := b.(*Iface); ok {
			if av.dyn != nil && bv.dyn != nil {
				if !types.Identical(av.dyn, bv.dyn) {
					return cFalse
				}
				return x.equal(s, av.dyn, av.v, bv.v)
			}
			return eqKey("eqi", vkey(av), vkey(bv))
		}
		return eqKey("eqi", vkey(av), vkey(b))
	case *ChanV:
		if bv, ok := b.(*ChanV); ok {
			return eqKey("eqc", vkey(av), vkey(bv))
		}
	case *Func:
		if bv, ok := b.(*Func); ok {
			return eqKey("eqf", vkey(av), vkey(bv))
		}
	case *Node:
		if bv, ok := b.(*Node); ok {
			return x.nodeEq(s, t, av, bv)
		}
	}
	return eqKey("eq", vkey(a), vkey(b))
}

func (x *Exec) nodeEq(s *State, t types.Type, a, b *Node) *Cond {
	if a.key() == b.key() {
		return cTrue
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		ea, eb := x.expand(s, a), x.expand(s, b)
		if ea.k != nStruct || eb.k != nStruct {
			break
		}
		var cs []*Cond
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == "_" {
				continue
			}
			cs = append(cs, x.equal(s, u.Field(i).Type(), x.toVal(s, ea.f[i]), x.toVal(s, eb.f[i])))
		}
		return cand(cs...)
	case *types.Array:
		if u.Len() > 64 {
			break
		}
		ea, eb := x.expandArr(s, a), x.expandArr(s, b)
		var cs []*Cond
		for i := int64(0); i < u.Len(); i++ {
			va := x.toVal(s, x.elemAt(s, ea, lc(i), u.Elem()))
			vb := x.toVal(s, x.elemAt(s, eb, lc(i), u.Elem()))
			cs = append(cs, x.equal(s, u.Elem(), va, vb))
		}
		return cand(cs...)
	}
	return eqKey("eqn", a.key(), b.key())
}

// bytesOf describes the bytes of a string or slice as a key; ok is false when
// they are not known symbolically.
func segsKey(segs []Seg) string {
	n := &Node{k: nArr, segs: segs}
	return n.key()
}

func (x *Exec) strEq(s *State, a, b *Str) *Cond {
	la1, ok1 := a.lit()
	lb1, ok2 := b.lit()
	if ok1 && ok2 {
		return cBool(la1 == lb1)
	}
	if a.key() == b.key() {
		return cTrue
	}
	if len(a.parts) == 1 && len(b.parts) == 1 && len(a.parts[0].ip) == 4 && len(b.parts[0].ip) == 4 {
		var cs []*Cond
		for i, v := range a.parts[0].ip {
			cs = append(cs, x.equal(s, types.Typ[types.Uint8], v, b.parts[0].ip[i]))
		}
		return cand(cs...)
	}
	// literals of a different length
	if ok1 || ok2 {
		if s.entailsNE(x.strLen(s, a).sub(x.strLen(s, b))) {
			return cFalse
		}
	}
	// known characters that differ, or are all equal
	ba, oka := x.strSegs(s, a)
	bb, okb := x.strSegs(s, b)
	if oka && okb {
		na, nb := s.res(x.strLen(s, a)), s.res(x.strLen(s, b))
		if na.isConst() && nb.isConst() && na.c == nb.c && na.c <= 64 {
			bt := types.Typ[types.Uint8]
			var cs []*Cond
			xa, xb := &Node{k: nArr, t: bt, segs: ba}, &Node{k: nArr, t: bt, segs: bb}
			for i := int64(0); i < na.c; i++ {
				cs = append(cs, x.equal(s, bt, x.toVal(s, x.elemAt(s, xa, lc(i), bt)), x.toVal(s, x.elemAt(s, xb, lc(i), bt))))
			}
			return cand(cs...)
		}
		return eqBytes(ba, bb)
	}
	return eqKey("eqs", a.key(), b.key())
}

func eqBytes(a, b []Seg) *Cond { return eqKey("eqbytes", segsKey(a), segsKey(b)) }

// strSegs gives the bytes of a string as array segments.
func (x *Exec) strSegs(s *State, v *Str) ([]Seg, bool) {
	at := lc(0)
	var out []Seg
	for _, p := range v.parts {
		switch {
		case p.nm != "":
			n := x.strLen(s, &Str{parts: []SP{p}})
			out = append(out, Seg{lo: at, hi: at.add(n, 1), k: nLazy, src: "str<" + p.nm + ">", delta: at.scale(-1)})
			at = at.add(n, 1)
		case p.seq != nil:
			if p.cut || p.rn {
				return nil, false
			}
			sg, ok := x.rangeSegs(s, p.seq, p.lo, p.hi)
			if !ok {
				return nil, false
			}
			out = append(out, shiftSegs(s, sg, at)...)
			at = at.add(p.hi.sub(p.lo), 1)
		default:
			for i := 0; i < len(p.lit); i++ {
				out = append(out, Seg{lo: at, hi: at.plus(1), k: nLeaf, node: leaf(types.Typ[types.Uint8], mkInt(8, false, int64(p.lit[i])))})
				at = at.plus(1)
			}
		}
	}
	return mergeSegs(s, out), true
}

// ---------------------------------------------------------------------------
// Conversions
// ---------------------------------------------------------------------------

func isStringT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}

func isByteSlice(t types.Type) bool {
	u, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	w, sg, ok := intType(u.Elem())
	return ok && w == 8 && !sg
}

func (x *Exec) convert(s *State, v Value, from, to types.Type) Value {
	if w, sg, ok := intType(to); ok {
		if i, isi := v.(*Int); isi {
			return s.resInt(i).conv(s, w, sg)
		}
		return x.symVal(s, to, fmt.Sprintf("%s(%s)", shortT(to), vkey(v)), nil, "")
	}
	if isStringT(to) {
		switch y := v.(type) {
		case *Str:
			return y
		case *Int:
			return x.runeStr(s, y)
		case *Slice:
			if isByteSlice(from) {
				return x.bytesToStr(s, y)
			}
		}
		return strSym(fresh("str"))
	}
	if isByteSlice(to) {
		if st, ok := v.(*Str); ok {
			return x.strToBytes(s, st, to)
		}
	}
	switch to.Underlying().(type) {
	case *types.Basic:
		return x.symVal(s, to, fmt.Sprintf("%s(%s)", shortT(to), vkey(v)), nil, "")
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Slice:
		if _, ok := from.Underlying().(*types.Basic); !ok {
			return v
		}
	}
	return x.symVal(s, to, fresh("conv"), nil, "")
}

func (x *Exec) runeStr(s *State, i *Int) Value {
	i = s.resInt(i)
	if c, ok := i.konst(); ok {
		if c < 0 || c > 0x10ffff {
			c = utf8.RuneError
		}
		return strLit(string(rune(c)))
	}
	lo, hi := s.rng(i.linear())
	if lo >= 0 && hi <= 255 {
		v := i.conv(s, 8, false)
		bt := types.Typ[types.Uint8]
		// one character of a known sequence
		l := v.linear()
		if len(l.t) == 1 && l.c == 0 && l.t[0].k == 1 {
			if e, ok := in.elems[l.t[0].a.name]; ok {
				n := &Node{k: nArr, t: bt, segs: []Seg{{lo: lc(0), hi: lc(inf), k: nLazy, src: e.src, delta: lc(0)}}}
				return &Str{parts: []SP{{seq: n, lo: e.idx, hi: e.idx.plus(1), rn: true}}}
			}
		}
	}
	return strSym("rune(" + i.key() + ")")
}

func (x *Exec) bytesToStr(s *State, sl *Slice) *Str {
	if sl.o == nilObj {
		return strLit("")
	}
	a, _ := x.arrAt(s, sl.o, sl.p)
	n := s.res(sl.len)
	segs, ok := x.rangeSegs(s, a, sl.off, sl.off.add(n, 1))
	if !ok {
		return strSym(fresh("bytes"))
	}
	return x.segsToStr(s, segs, n)
}

// segsToStr makes a string of the bytes in segs (starting at 0, length n).
func (x *Exec) segsToStr(s *State, segs []Seg, n *Lin) *Str {
	bt := types.Typ[types.Uint8]
	r := &Str{}
	for _, g := range segs {
		switch g.k {
		case nLeaf:
			ln := s.res(g.hi.sub(g.lo))
			if iv, ok := x.toVal(s, g.node).(*Int); ok && ln.isConst() && ln.c == 1 {
				if c, isc := s.resInt(iv).konst(); isc {
					r = strCat(r, strLit(string([]byte{byte(c)})))
					continue
				}
			}
			r = strCat(r, &Str{parts: []SP{{seq: &Node{k: nArr, t: bt, segs: []Seg{g}}, lo: g.lo, hi: g.hi}}})
		case nZero:
			ln := s.res(g.hi.sub(g.lo))
			if ln.isConst() && ln.c >= 0 && ln.c <= 4096 {
				r = strCat(r, strLit(strings.Repeat("\x00", int(ln.c))))
				continue
			}
			r = strCat(r, &Str{parts: []SP{{seq: &Node{k: nArr, t: bt, segs: []Seg{g}}, lo: g.lo, hi: g.hi}}})
		case nLazy:
			if strings.HasPrefix(g.src, "str<") && s.res(g.lo.add(g.delta, 1)).key() == "0" {
				nm := strings.TrimSuffix(strings.TrimPrefix(g.src, "str<"), ">")
				full := x.strLen(s, strSym(nm))
				if s.entailsEQ(g.hi.sub(g.lo).sub(full)) {
					r = strCat(r, strSym(nm))
					continue
				}
			}
			nd := &Node{k: nArr, t: bt, segs: []Seg{{lo: lc(0), hi: lc(inf), k: nLazy, src: g.src, delta: lc(0)}}}
			lo := s.res(g.lo.add(g.delta, 1))
			hi := s.res(g.hi.add(g.delta, 1))
			r = strCat(r, &Str{parts: []SP{{seq: nd, lo: lo, hi: hi}}})
		}
	}
	return x.cutStr(s, r)
}

// nonul facts: bytes [lo,hi) of src are all different from zero.
type nonul struct {
	src    string
	lo, hi *Lin
}

func (s *State) addNonul(src string, lo, hi *Lin) {
	k := fmt.Sprintf("nonul|%s|%s|%s", src, lo.key(), hi.key())
	in.nonul[k] = &nonul{src, lo, hi}
	s.own()
	s.F.op[k] = true
}

func (s *State) nonulIn(src string, lo, hi *Lin) bool {
	if s.entails(lo.sub(hi)) {
		return true
	}
	var ks []string
	for k := range s.F.op {
		if strings.HasPrefix(k, "nonul|") {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		n := in.nonul[k]
		if n != nil && n.src == src && s.entails(lo.sub(n.lo)) && s.entails(n.hi.sub(hi)) {
			return true
		}
	}
	return false
}

// seqEnd is the end of a named byte sequence, where it is known.
func (x *Exec) cutStr(s *State, v *Str) *Str {
	if len(v.parts) != 1 {
		return v
	}
	p := v.parts[0]
	if p.seq == nil || p.cut || len(p.seq.segs) != 1 || p.seq.segs[0].k != nLazy {
		return v
	}
	src := p.seq.segs[0].src
	end, ok := in.seqLen[src]
	if !ok || !s.nonulIn(src, p.lo, p.hi) {
		return v
	}
	if !s.entailsEQ(p.hi.sub(end)) {
		bt := types.Typ[types.Uint8]
		if !s.zeroAt(p.hi, func(i *Lin) *Int {
			e, _ := x.toVal(s, x.elemAt(s, p.seq, i, bt)).(*Int)
			return e
		}) {
			return v
		}
	}
	return &Str{parts: []SP{{seq: p.seq, lo: p.lo, hi: end, cut: true, rn: p.rn}}}
}

func (x *Exec) strToBytes(s *State, v *Str, t types.Type) Value {
	el := t.Underlying().(*types.Slice).Elem()
	o := newObj(el, nil, "bytes")
	o.arr = true
	ln := x.strLen(s, v)
	segs, ok := x.strSegs(s, v)
	if !ok {
		segs = []Seg{{lo: lc(0), hi: ln, k: nLazy, src: fresh("bytes"), delta: lc(0)}}
	}
	s.setHeap(o, &Node{k: nArr, t: el, segs: segs})
	return &Slice{o: o, off: lc(0), len: ln, cap: ln, el: el}
}

// zeroAt: the element at a position is zero, or that at an equal position.
func (s *State) zeroAt(pos *Lin, at func(i *Lin) *Int) bool {
	zero := func(i *Lin) bool {
		e := at(i)
		if e == nil {
			return false
		}
		c, ok := s.resInt(e).konst()
		return ok && c == 0
	}
	if zero(pos) {
		return true
	}
	seen := map[*Atom]bool{}
	for a := range s.F.at {
		seen[a] = true
	}
	for _, f := range s.F.lin {
		for _, t := range f.t {
			seen[t.a] = true
		}
	}
	for a := range seen {
		if a.w == 64 && strings.Contains(a.name, "#") && s.entailsEQ(pos.sub(la(a))) && zero(la(a)) {
			return true
		}
	}
	return false
}
