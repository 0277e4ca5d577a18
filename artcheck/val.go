package main

import (
	"fmt"
	"sort"
	"strings"
)

// ---------------------------------------------------------------------------
// Integer symbols (atoms), linear forms and bit vectors.
// ---------------------------------------------------------------------------

const inf = int64(1) << 60

// Atom is an integer valued unknown.
type Atom struct {
	id   int
	name string
	w    int  // width in bits
	sg   bool // signed
	lo   int64
	hi   int64

	def *Lin  // the atom stands for the value of this linear form
	src *Atom // slice of bits [slo,shi) of src
	slo int
	shi int

	org *Origin // struct field it was read from, if any
	af  *AF     // what holds for it everywhere
}

// Origin names the struct field (or element) a symbol was read from.
type Origin struct {
	Obj   *Obj   // object
	Type  string // struct type (package path qualified)
	Field string
}

type interner struct {
	atoms map[string]*Atom
	list  []*Atom
	objs  map[string]*Obj
	nobj  int
	uniq  int

	elems  map[string]elemRef // symbolic elements of named sequences
	seqLen map[string]*Lin    // length of named sequences
	nonul  map[string]*nonul
}

type elemRef struct {
	src string
	idx *Lin
}

var in *interner

func resetInterner() {
	mins = map[string][2]*Lin{}
	in = &interner{atoms: map[string]*Atom{}, objs: map[string]*Obj{},
		elems: map[string]elemRef{}, seqLen: map[string]*Lin{}, nonul: map[string]*nonul{}}
}

func fresh(prefix string) string {
	in.uniq++
	return fmt.Sprintf("%s#%d", prefix, in.uniq)
}

func atomNamed(name string, w int, sg bool) *Atom {
	k := fmt.Sprintf("%s:%d:%v", name, w, sg)
	if a, ok := in.atoms[k]; ok {
		return a
	}
	a := &Atom{id: len(in.list) + 1, name: name, w: w, sg: sg}
	a.lo, a.hi = typeRange(w, sg)
	in.atoms[k] = a
	in.list = append(in.list, a)
	return a
}

func typeRange(w int, sg bool) (int64, int64) {
	if sg {
		if w >= 61 {
			return -inf, inf
		}
		return -(int64(1) << (w - 1)), int64(1)<<(w-1) - 1
	}
	if w >= 60 {
		return 0, inf
	}
	return 0, int64(1)<<w - 1
}

func sliceAtom(a *Atom, lo, hi int) *Atom {
	if lo == 0 && hi == a.w && !a.sg {
		return a
	}
	s := atomNamed(fmt.Sprintf("%s{%d:%d}", a.name, lo, hi), hi-lo, false)
	s.src, s.slo, s.shi = a, lo, hi
	return s
}

// defAtom returns the atom standing for the value of l in a w bit type.
func defAtom(l *Lin, w int, sg bool) *Atom {
	if len(l.t) == 1 && l.c == 0 && l.t[0].k == 1 && l.t[0].a.w == w && l.t[0].a.sg == sg && l.t[0].a.src == nil {
		return l.t[0].a
	}
	a := atomNamed("("+l.key()+")", w, sg)
	a.def = l
	return a
}

type LT struct {
	a *Atom
	k int64
}

// Lin is c + sum k*a.
type Lin struct {
	c  int64
	t  []LT
	ks string
}

func lc(c int64) *Lin { return &Lin{c: c} }

func la(a *Atom) *Lin {
	if a.def != nil {
		return a.def
	}
	return &Lin{t: []LT{{a, 1}}}
}

func (l *Lin) isConst() bool { return len(l.t) == 0 }

func (l *Lin) key() string {
	if l.ks != "" {
		return l.ks
	}
	var b strings.Builder
	fmt.Fprintf(&b, "%d", l.c)
	for _, t := range l.t {
		fmt.Fprintf(&b, "%+d*%s", t.k, t.a.name)
	}
	l.ks = b.String()
	return l.ks
}

func satAdd(a, b int64) int64 {
	s := a + b
	if s > 4*inf/2 || (a > 0 && b > 0 && s < 0) {
		return inf * 2
	}
	if s < -4*inf/2 || (a < 0 && b < 0 && s > 0) {
		return -inf * 2
	}
	return s
}

func satMul(a, b int64) int64 {
	if a == 0 || b == 0 {
		return 0
	}
	r := a * b
	if r/b != a || r > 2*inf || r < -2*inf {
		if (a > 0) == (b > 0) {
			return 2 * inf
		}
		return -2 * inf
	}
	return r
}

func (l *Lin) add(m *Lin, k int64) *Lin {
	r := &Lin{c: satAdd(l.c, satMul(m.c, k))}
	i, j := 0, 0
	for i < len(l.t) || j < len(m.t) {
		switch {
		case j >= len(m.t) || (i < len(l.t) && l.t[i].a.id < m.t[j].a.id):
			r.t = append(r.t, l.t[i])
			i++
		case i >= len(l.t) || m.t[j].a.id < l.t[i].a.id:
			if kk := satMul(m.t[j].k, k); kk != 0 {
				r.t = append(r.t, LT{m.t[j].a, kk})
			}
			j++
		default:
			if kk := satAdd(l.t[i].k, satMul(m.t[j].k, k)); kk != 0 {
				r.t = append(r.t, LT{l.t[i].a, kk})
			}
			i++
			j++
		}
	}
	return r
}

func (l *Lin) plus(c int64) *Lin  { return &Lin{c: satAdd(l.c, c), t: l.t} }
func (l *Lin) sub(m *Lin) *Lin    { return l.add(m, -1) }
func (l *Lin) scale(k int64) *Lin { return lc(0).add(l, k) }

// coef returns the coefficient of a in l.
func (l *Lin) coef(a *Atom) int64 {
	for _, t := range l.t {
		if t.a == a {
			return t.k
		}
	}
	return 0
}

// subst replaces a by m in l.
func (l *Lin) subst(a *Atom, m *Lin) *Lin {
	k := l.coef(a)
	if k == 0 {
		return l
	}
	r := &Lin{c: l.c}
	for _, t := range l.t {
		if t.a != a {
			r.t = append(r.t, t)
		}
	}
	return r.add(m, k)
}

// Bit of a bit vector.
type Bit struct {
	k   uint8 // 0, 1: constant; 2: bit i of a; 3: unknown
	neg bool
	a   *Atom
	i   int
}

var (
	bit0   = Bit{k: 0}
	bit1   = Bit{k: 1}
	bitTop = Bit{k: 3}
)

func (b Bit) not() Bit {
	switch b.k {
	case 0:
		return bit1
	case 1:
		return bit0
	case 2:
		b.neg = !b.neg
		return b
	}
	return b
}

// Int is an integer value of a fixed width type.
type Int struct {
	w    int
	sg   bool
	bits []Bit // nil: derive from lin
	lin  *Lin  // nil: derive from bits
}

func mkInt(w int, sg bool, v int64) *Int {
	if w < 64 {
		v &= int64(1)<<w - 1
		if sg && v>>(w-1) == 1 {
			v -= int64(1) << w
		}
	}
	return &Int{w: w, sg: sg, lin: lc(v)}
}

func intAtom(a *Atom) *Int { return &Int{w: a.w, sg: a.sg, lin: la(a)} }

func intLin(l *Lin, w int, sg bool) *Int { return &Int{w: w, sg: sg, lin: l} }

// constant value, if any.
func (x *Int) konst() (int64, bool) {
	if x.lin != nil {
		if x.lin.isConst() {
			return x.lin.c, true
		}
		return 0, false
	}
	var v uint64
	for i, b := range x.bits {
		switch b.k {
		case 0:
		case 1:
			v |= 1 << uint(i)
		default:
			return 0, false
		}
	}
	return mkInt(x.w, x.sg, int64(v)).lin.c, true
}

// vec returns the bit vector of x.
func (x *Int) vec() []Bit {
	if x.bits != nil {
		return x.bits
	}
	r := make([]Bit, x.w)
	if x.lin.isConst() {
		for i := range r {
			r[i] = Bit{k: uint8(uint64(x.lin.c) >> uint(i) & 1)}
		}
		x.bits = r
		return r
	}
	// an unsigned atom, possibly narrower, possibly a slice of a wider one
	if len(x.lin.t) == 1 && x.lin.c == 0 && x.lin.t[0].k == 1 {
		a := x.lin.t[0].a
		if !a.sg && a.w <= x.w {
			for i := range r {
				if i < a.w {
					r[i] = atomBit(a, i)
				}
			}
			x.bits = r
			return r
		}
		if a.w == x.w && a.sg == x.sg {
			for i := range r {
				r[i] = atomBit(a, i)
			}
			x.bits = r
			return r
		}
	}
	// a sum of disjoint shifted unsigned atoms
	if x.lin.c >= 0 {
		ok := true
		for i := range r {
			r[i] = Bit{k: uint8(uint64(x.lin.c) >> uint(i) & 1)}
		}
		for _, t := range x.lin.t {
			sh := log2(t.k)
			if sh < 0 || t.a.sg || t.a.w+sh > x.w {
				ok = false
				break
			}
			for i := 0; i < t.a.w; i++ {
				if r[sh+i] != bit0 {
					ok = false
					break
				}
				r[sh+i] = atomBit(t.a, i)
			}
			if !ok {
				break
			}
		}
		if ok {
			x.bits = r
			return r
		}
	}
	r = make([]Bit, x.w)
	a := defAtom(x.lin, x.w, x.sg)
	for i := range r {
		r[i] = atomBit(a, i)
	}
	x.bits = r
	return r
}

func atomBit(a *Atom, i int) Bit {
	for a.src != nil {
		i += a.slo
		a = a.src
	}
	return Bit{k: 2, a: a, i: i}
}

func log2(k int64) int {
	for i := 0; i < 62; i++ {
		if k == int64(1)<<uint(i) {
			return i
		}
	}
	return -1
}

// linear returns the linear form of x.
func (x *Int) linear() *Lin {
	if x.lin != nil {
		return x.lin
	}
	l := lc(0)
	i := 0
	for i < x.w {
		b := x.bits[i]
		wt := int64(1) << uint(min(i, 62))
		if b.k == 0 {
			i++
			continue
		}
		if b.k == 1 {
			if x.sg && i == x.w-1 {
				wt = -wt
			}
			l = l.plus(wt)
			i++
			continue
		}
		if b.k == 3 || b.neg {
			// give the whole vector a name of its own
			l = nil
			break
		}
		j := i + 1
		for j < x.w && x.bits[j].k == 2 && !x.bits[j].neg && x.bits[j].a == b.a && x.bits[j].i == b.i+(j-i) {
			j++
		}
		n := j - i
		if x.sg && j == x.w {
			// sign bit is an unknown bit
			if i == 0 && b.i == 0 && b.a.w == x.w && b.a.sg {
				l = la(b.a)
				break
			}
			l = nil
			break
		}
		if b.i == 0 && n == b.a.w {
			if b.a.sg {
				l = l.add(la(sliceAtom(b.a, 0, n)), wt)
			} else {
				l = l.add(la(b.a), wt)
			}
		} else {
			l = l.add(la(sliceAtom(b.a, b.i, b.i+n)), wt)
		}
		i = j
	}
	if l == nil {
		nm := "vec[" + bitsKey(x.bits) + "]"
		for _, b := range x.bits {
			if b.k == 3 {
				nm = fresh("top")
				break
			}
		}
		a := atomNamed(nm, x.w, x.sg)
		l = &Lin{t: []LT{{a, 1}}}
		x.lin = l
		return l
	}
	x.lin = l
	return l
}

func bitsKey(bs []Bit) string {
	var sb strings.Builder
	for i := 0; i < len(bs); {
		b := bs[i]
		switch b.k {
		case 0:
			sb.WriteByte('0')
			i++
		case 1:
			sb.WriteByte('1')
			i++
		case 3:
			sb.WriteByte('?')
			i++
		default:
			j := i + 1
			for j < len(bs) && bs[j].k == 2 && bs[j].neg == b.neg && bs[j].a == b.a && bs[j].i == b.i+(j-i) {
				j++
			}
			n := ""
			if b.neg {
				n = "~"
			}
			fmt.Fprintf(&sb, "<%s%s:%d+%d>", n, b.a.name, b.i, j-i)
			i = j
		}
	}
	return sb.String()
}

func (x *Int) key() string {
	if v, ok := x.konst(); ok {
		return fmt.Sprintf("#%d", v)
	}
	if x.lin == nil {
		x.linear()
	}
	return "i" + x.lin.key()
}

// conv converts x to another integer type; ok is false if the value does not
// provably fit (then only bits are kept).
func (x *Int) conv(s *State, w int, sg bool) *Int {
	if w == x.w && sg == x.sg {
		return x
	}
	if c, ok := x.konst(); ok {
		return mkInt(w, sg, c)
	}
	l := x.linear()
	lo, hi := s.rng(l)
	tlo, thi := typeRange(w, sg)
	if lo >= tlo && hi <= thi {
		r := &Int{w: w, sg: sg, lin: l}
		if x.bits != nil && !x.sg {
			r.bits = make([]Bit, w)
			for i := range r.bits {
				if i < x.w {
					r.bits[i] = x.bits[i]
				}
			}
		}
		return r
	}
	v := x.vec()
	r := make([]Bit, w)
	for i := range r {
		switch {
		case i < x.w:
			r[i] = v[i]
		case x.sg:
			r[i] = v[x.w-1]
		}
	}
	return &Int{w: w, sg: sg, bits: r}
}

// ---------------------------------------------------------------------------
// Conditions
// ---------------------------------------------------------------------------

type CK int

const (
	cConst CK = iota
	cEQ       // lin == 0 (a-b)
	cLE       // a <= b
	cKey      // opaque condition
	cAnd
	cOr
	cNot
)

type Cond struct {
	k   CK
	v   bool
	a   *Int
	b   *Int
	key string
	xs  []*Cond
	org *Origin // for opaque boolean fields
	val any     // payload of opaque conditions
}

var (
	cTrue  = &Cond{k: cConst, v: true}
	cFalse = &Cond{k: cConst, v: false}
)

func cBool(b bool) *Cond {
	if b {
		return cTrue
	}
	return cFalse
}

func cnot(c *Cond) *Cond {
	switch c.k {
	case cConst:
		return cBool(!c.v)
	case cNot:
		return c.xs[0]
	}
	return &Cond{k: cNot, xs: []*Cond{c}}
}

func cand(xs ...*Cond) *Cond {
	var r []*Cond
	for _, x := range xs {
		if x.k == cConst {
			if !x.v {
				return cFalse
			}
			continue
		}
		if x.k == cAnd {
			r = append(r, x.xs...)
			continue
		}
		r = append(r, x)
	}
	if len(r) == 0 {
		return cTrue
	}
	if len(r) == 1 {
		return r[0]
	}
	return &Cond{k: cAnd, xs: r}
}

func cor(xs ...*Cond) *Cond {
	ys := make([]*Cond, len(xs))
	for i, x := range xs {
		ys[i] = cnot(x)
	}
	return cnot(cand(ys...))
}

func ckey(k string) *Cond { return &Cond{k: cKey, key: k} }

func (c *Cond) String() string {
	switch c.k {
	case cConst:
		return fmt.Sprint(c.v)
	case cEQ:
		return "(" + c.a.key() + " == " + c.b.key() + ")"
	case cLE:
		return "(" + c.a.key() + " <= " + c.b.key() + ")"
	case cKey:
		return c.key
	case cNot:
		return "!" + c.xs[0].String()
	case cAnd, cOr:
		var ss []string
		for _, x := range c.xs {
			ss = append(ss, x.String())
		}
		sort.Strings(ss)
		if c.k == cAnd {
			return "(" + strings.Join(ss, " && ") + ")"
		}
		return "(" + strings.Join(ss, " || ") + ")"
	}
	return "?"
}
