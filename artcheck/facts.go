package main

import (
	"sort"
)

// Facts is what is known about symbols on one path (or after a join, on all
// merged paths).
type Facts struct {
	at  map[*Atom]*AF
	lin []*Lin // each >= 0
	lk  map[string]bool
	ne  map[string]*Lin // each != 0
	op  map[string]bool // opaque conditions
}

// AF is what is known about one atom.
type AF struct {
	k0, k1 uint64 // bits known to be 0 / 1
	lo, hi int64
	set    *[4]uint64 // possible values (atoms of at most 8 bits)
}

func newFacts() *Facts {
	return &Facts{at: map[*Atom]*AF{}, lk: map[string]bool{}, ne: map[string]*Lin{}, op: map[string]bool{}}
}

func (f *Facts) clone() *Facts {
	g := &Facts{at: make(map[*Atom]*AF, len(f.at)), lk: make(map[string]bool, len(f.lk)), ne: make(map[string]*Lin, len(f.ne)), op: make(map[string]bool, len(f.op))}
	for k, v := range f.at {
		g.at[k] = v
	}
	for k := range f.lk {
		g.lk[k] = true
	}
	for k, v := range f.ne {
		g.ne[k] = v
	}
	for k, v := range f.op {
		g.op[k] = v
	}
	g.lin = append([]*Lin(nil), f.lin...)
	return g
}

func defaultAF(a *Atom) *AF {
	if a.af != nil && a.af.lo == a.lo && a.af.hi == a.hi {
		return a.af
	}
	af := &AF{lo: a.lo, hi: a.hi}
	a.af = af
	if a.w <= 8 && !a.sg && a.def == nil && a.src == nil {
		var set [4]uint64
		for v := max(a.lo, 0); v <= min(a.hi, 255); v++ {
			set[v>>6] |= 1 << uint(v&63)
		}
		af.set = &set
	}
	if a.w > 8 && !a.sg && a.hi < inf {
		// leading zero bits
		for i := 62; i >= 0; i-- {
			if a.hi>>uint(i) != 0 {
				break
			}
			if i < a.w {
				af.k0 |= 1 << uint(i)
			}
		}
	}
	return af
}

func (s *State) af(a *Atom) *AF {
	if f, ok := s.F.at[a]; ok {
		return f
	}
	return defaultAF(a)
}

func (s *State) setAF(a *Atom, f *AF) bool {
	s.own()
	if f.set != nil {
		lo, hi := int64(-1), int64(-1)
		var and, or uint64 = ^uint64(0), 0
		for v := int64(0); v < 256; v++ {
			if f.set[v>>6]>>uint(v&63)&1 == 1 {
				if lo < 0 {
					lo = v
				}
				hi = v
				and &= uint64(v)
				or |= uint64(v)
			}
		}
		if lo < 0 {
			return false
		}
		f.lo, f.hi = lo, hi
		m := uint64(1)<<uint(a.w) - 1
		f.k1 = and & m
		f.k0 = ^or & m
	}
	if f.lo > f.hi || f.k0&f.k1 != 0 {
		return false
	}
	s.F.at[a] = f
	return true
}

func (s *State) setBit(a *Atom, i int, v bool) bool {
	f := *s.af(a)
	if f.set != nil {
		set := *f.set
		for x := 0; x < 256; x++ {
			if (x>>uint(i)&1 == 1) != v {
				set[x>>6] &^= 1 << uint(x&63)
			}
		}
		f.set = &set
	} else if v {
		f.k1 |= 1 << uint(i)
	} else {
		f.k0 |= 1 << uint(i)
	}
	if f.set == nil && !a.sg && a.w < 60 {
		m := uint64(1)<<uint(a.w) - 1
		f.lo = max(f.lo, int64(f.k1&m))
		f.hi = min(f.hi, int64(^f.k0&m))
	}
	return s.setAF(a, &f)
}

func (s *State) restrict(a *Atom, lo, hi int64) bool {
	if a.src != nil {
		// bounds on a slice of bits: filter the source when it is small
		r := rootAtom(a)
		if r.w <= 8 && !r.sg && r.def == nil {
			return s.filter(r, func(v int64) bool {
				x := sliceVal(a, v)
				return x >= lo && x <= hi
			})
		}
		// leading zero bits
		if hi >= 0 {
			for i := a.w - 1; i >= 0; i-- {
				if hi>>uint(i) != 0 {
					break
				}
				b := atomBit(a, i)
				if !s.setBit(b.a, b.i, false) {
					return false
				}
			}
		}
		f := *s.af(a)
		f.lo, f.hi = max(f.lo, lo), min(f.hi, hi)
		return s.setAF(a, &f)
	}
	f := *s.af(a)
	if lo <= f.lo && hi >= f.hi {
		return true
	}
	if f.set != nil {
		set := *f.set
		for x := int64(0); x < 256; x++ {
			if x < lo || x > hi {
				set[x>>6] &^= 1 << uint(x&63)
			}
		}
		f.set = &set
	} else {
		f.lo, f.hi = max(f.lo, lo), min(f.hi, hi)
		if !a.sg && a.w < 60 && f.hi >= 0 {
			for i := a.w - 1; i >= 0; i-- {
				if f.hi>>uint(i) != 0 {
					break
				}
				f.k0 |= 1 << uint(i)
			}
		}
	}
	return s.setAF(a, &f)
}

func rootAtom(a *Atom) *Atom {
	for a.src != nil {
		a = a.src
	}
	return a
}

func sliceVal(a *Atom, v int64) int64 {
	if a.src == nil {
		return v
	}
	v = sliceVal(a.src, v)
	return v >> uint(a.slo) & (int64(1)<<uint(a.shi-a.slo) - 1)
}

func (s *State) filter(a *Atom, ok func(int64) bool) bool {
	f := *s.af(a)
	if f.set == nil {
		return true
	}
	set := *f.set
	for x := int64(0); x < 256; x++ {
		if set[x>>6]>>uint(x&63)&1 == 1 && !ok(x) {
			set[x>>6] &^= 1 << uint(x&63)
		}
	}
	f.set = &set
	return s.setAF(a, &f)
}

// values lists the possible values of a small atom.
func (f *AF) values() []int64 {
	var r []int64
	if f.set == nil {
		return nil
	}
	for x := int64(0); x < 256; x++ {
		if f.set[x>>6]>>uint(x&63)&1 == 1 {
			r = append(r, x)
		}
	}
	return r
}

func (s *State) atomRng(a *Atom) (int64, int64) {
	if a.def != nil {
		lo, hi := s.rng(a.def)
		if f, ok := s.F.at[a]; ok {
			lo, hi = max(lo, f.lo), min(hi, f.hi)
		}
		return lo, hi
	}
	if a.src != nil {
		r := rootAtom(a)
		f := s.af(r)
		if f.set != nil {
			lo, hi := int64(1)<<40, int64(-1)
			for _, v := range f.values() {
				x := sliceVal(a, v)
				lo, hi = min(lo, x), max(hi, x)
			}
			return lo, hi
		}
		b := atomBit(a, 0)
		n := a.shi - a.slo
		m := uint64(1)<<uint(n) - 1
		lo := int64(f.k1 >> uint(b.i) & m)
		hi := int64(^(f.k0 >> uint(b.i)) & m)
		if g, ok := s.F.at[a]; ok {
			lo, hi = max(lo, g.lo), min(hi, g.hi)
		}
		return lo, hi
	}
	f := s.af(a)
	return f.lo, f.hi
}

func (s *State) rng(l *Lin) (int64, int64) {
	lo, hi := l.c, l.c
	for _, t := range l.t {
		alo, ahi := s.atomRng(t.a)
		x, y := satMul(alo, t.k), satMul(ahi, t.k)
		if x > y {
			x, y = y, x
		}
		lo, hi = satAdd(lo, x), satAdd(hi, y)
	}
	return lo, hi
}

// res replaces atoms of known value.
func (s *State) res(l *Lin) *Lin {
	ch := false
	for _, t := range l.t {
		lo, hi := s.atomRng(t.a)
		if lo == hi || t.a.src != nil && s.whole(t) {
			ch = true
		}
	}
	if !ch {
		return l
	}
	r := &Lin{c: l.c}
	var ex *Lin
	for _, t := range l.t {
		lo, hi := s.atomRng(t.a)
		switch {
		case lo == hi:
			r.c = satAdd(r.c, satMul(lo, t.k))
		case t.a.src != nil && s.whole(t):
			// all other bits of the source are known
			k := t.k >> uint(t.a.slo)
			if ex == nil {
				ex = lc(0)
			}
			ex = ex.add(la(t.a.src), k).plus(-k * int64(s.af(t.a.src).k1&^sliceMask(t.a)))
		default:
			r.t = append(r.t, t)
		}
	}
	if ex != nil {
		r = r.add(ex, 1)
	}
	return r
}

func sliceMask(a *Atom) uint64 {
	return (uint64(1)<<uint(a.shi) - 1) &^ (uint64(1)<<uint(a.slo) - 1)
}

// whole: the bits of the source outside of the slice are known.
func (s *State) whole(t LT) bool {
	a := t.a
	if a.src.sg || a.src.w > 32 || t.k%(int64(1)<<uint(a.slo)) != 0 {
		return false
	}
	f := s.af(a.src)
	all := uint64(1)<<uint(a.src.w) - 1
	return (f.k0|f.k1)&all&^sliceMask(a) == all&^sliceMask(a)
}

func (l *Lin) hasSlice() bool {
	for _, t := range l.t {
		if t.a.src != nil {
			return true
		}
	}
	return false
}

func (s *State) resBit(b Bit) Bit {
	if b.k != 2 {
		return b
	}
	f := s.af(b.a)
	if f.k0>>uint(b.i)&1 == 1 {
		if b.neg {
			return bit1
		}
		return bit0
	}
	if f.k1>>uint(b.i)&1 == 1 {
		if b.neg {
			return bit0
		}
		return bit1
	}
	return b
}

// resInt resolves what is known about the parts of x.
func (s *State) resInt(x *Int) *Int {
	if _, ok := x.konst(); ok {
		return x
	}
	if x.lin != nil {
		l := s.res(x.lin)
		if l.isConst() {
			return mkInt(x.w, x.sg, l.c)
		}
		if l != x.lin {
			x = &Int{w: x.w, sg: x.sg, lin: l}
		}
		if x.bits == nil {
			return x
		}
	}
	ch := false
	v := x.bits
	r := make([]Bit, len(v))
	for i, b := range v {
		r[i] = s.resBit(b)
		if r[i] != b {
			ch = true
		}
	}
	if !ch {
		return x
	}
	y := &Int{w: x.w, sg: x.sg, bits: r}
	if c, ok := y.konst(); ok {
		return mkInt(x.w, x.sg, c)
	}
	if x.lin != nil {
		y.lin = x.lin
	}
	return y
}

// entails reports whether l >= 0 is known.
func (s *State) entails(l *Lin) bool { return s.entailsD(l, 3) }

func (s *State) entailsD(l *Lin, depth int) bool {
	l = s.res(l)
	lo, _ := s.rng(l)
	if lo >= 0 {
		return true
	}
	if depth == 0 {
		return false
	}
	for _, f := range s.F.lin {
		if f.hasSlice() {
			f = s.res(f)
		}
		// use f to cancel a term that prevents the bound
		for _, t := range l.t {
			k := f.coef(t.a)
			if k == 0 || (k > 0) != (t.k > 0) {
				continue
			}
			q := t.k / k
			if q <= 0 || q*k != t.k {
				continue
			}
			if s.entailsD(l.add(f, -q), depth-1) {
				return true
			}
		}
	}
	return false
}

func (s *State) entailsEQ(l *Lin) bool {
	l = s.res(l)
	if l.isConst() {
		return l.c == 0
	}
	return s.entails(l) && s.entails(l.scale(-1))
}

func normNE(l *Lin) *Lin {
	if len(l.t) > 0 && l.t[0].k < 0 {
		return l.scale(-1)
	}
	return l
}

func (s *State) entailsNE(l *Lin) bool {
	l = s.res(l)
	if l.isConst() {
		return l.c != 0
	}
	lo, hi := s.rng(l)
	if lo > 0 || hi < 0 {
		return true
	}
	if _, ok := s.F.ne[normNE(l).key()]; ok {
		return true
	}
	if s.entails(l.plus(-1)) || s.entails(l.scale(-1).plus(-1)) {
		return true
	}
	return false
}

// addGE records l >= 0.
func (s *State) addGE(l *Lin) bool {
	l = s.res(l)
	lo, hi := s.rng(l)
	if lo >= 0 {
		return true
	}
	if hi < 0 {
		return false
	}
	if s.entailsD(l.scale(-1).plus(-1), 2) {
		return false
	}
	s.own()
	// tighten single atoms
	for _, t := range l.t {
		rest := &Lin{c: l.c}
		for _, u := range l.t {
			if u.a != t.a {
				rest.t = append(rest.t, u)
			}
		}
		_, rhi := s.rng(rest)
		if rhi >= inf {
			continue
		}
		// k*a >= -rhi
		if t.k > 0 {
			b := ceilDiv(-rhi, t.k)
			if !s.restrictAny(t.a, b, 2*inf) {
				return false
			}
		} else {
			b := floorDiv(rhi, -t.k)
			if !s.restrictAny(t.a, -2*inf, b) {
				return false
			}
		}
	}
	if len(l.t) > 1 && !s.F.lk[l.key()] {
		s.F.lk[l.key()] = true
		s.F.lin = append(s.F.lin, l)
	}
	return true
}

func (s *State) restrictAny(a *Atom, lo, hi int64) bool {
	alo, ahi := s.atomRng(a)
	if lo <= alo && hi >= ahi {
		return true
	}
	if a.def != nil {
		f := &AF{lo: max(lo, alo), hi: min(hi, ahi)}
		if g, ok := s.F.at[a]; ok {
			f.k0, f.k1 = g.k0, g.k1
		}
		if f.lo > f.hi {
			return false
		}
		s.own()
		s.F.at[a] = f
		return true
	}
	return s.restrict(a, lo, hi)
}

func ceilDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a > 0) == (b > 0) {
		q++
	}
	return q
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a > 0) != (b > 0) {
		q--
	}
	return q
}

// single returns the only small atom x and y depend on.
func (s *State) single(xs ...*Int) *Atom {
	var r *Atom
	use := func(a *Atom) bool {
		if a.def != nil {
			return false
		}
		a = rootAtom(a)
		if a.w > 8 || a.sg || a.def != nil {
			return false
		}
		if r != nil && r != a {
			return false
		}
		r = a
		return true
	}
	for _, x := range xs {
		if x.bits != nil {
			for _, b := range x.bits {
				if b.k == 3 || (b.k == 2 && !use(b.a)) {
					return nil
				}
			}
			continue
		}
		for _, t := range x.lin.t {
			if !use(t.a) {
				return nil
			}
		}
	}
	return r
}

func evalAt(x *Int, base *Atom, v int64) int64 {
	if x.bits != nil {
		var r uint64
		for i, b := range x.bits {
			switch b.k {
			case 1:
				r |= 1 << uint(i)
			case 2:
				bv := uint64(v) >> uint(b.i) & 1
				if b.neg {
					bv ^= 1
				}
				r |= bv << uint(i)
			}
		}
		return mkInt(x.w, x.sg, int64(r)).lin.c
	}
	r := x.lin.c
	for _, t := range x.lin.t {
		r += t.k * sliceVal(t.a, v)
	}
	return r
}

// decide returns 1 (true), 0 (false) or -1 (unknown).
func (s *State) decide(c *Cond) int {
	switch c.k {
	case cConst:
		if c.v {
			return 1
		}
		return 0
	case cNot:
		r := s.decide(c.xs[0])
		if r < 0 {
			return r
		}
		return 1 - r
	case cAnd:
		all := true
		for _, x := range c.xs {
			switch s.decide(x) {
			case 0:
				return 0
			case -1:
				all = false
			}
		}
		if all {
			return 1
		}
		if v, ok := s.F.op[c.String()]; ok {
			return b2i(v)
		}
		return -1
	case cKey:
		if v, ok := s.F.op[c.key]; ok {
			return b2i(v)
		}
		return -1
	case cEQ, cLE:
		a, b := s.resInt(c.a), s.resInt(c.b)
		if at := s.single(a, b); at != nil {
			n0, n1 := 0, 0
			for _, v := range s.af(at).values() {
				x, y := evalAt(a, at, v), evalAt(b, at, v)
				if (c.k == cEQ && x == y) || (c.k == cLE && x <= y) {
					n1++
				} else {
					n0++
				}
			}
			if n0 == 0 {
				return 1
			}
			if n1 == 0 {
				return 0
			}
			return -1
		}
		d := b.linear().sub(a.linear())
		if c.k == cLE {
			if s.entails(d) {
				return 1
			}
			if s.entails(d.scale(-1).plus(-1)) {
				return 0
			}
			return -1
		}
		if s.entailsEQ(d) {
			return 1
		}
		if s.entailsNE(d) {
			return 0
		}
		// bitwise disagreement
		va, vb := a.vec(), b.vec()
		if len(va) == len(vb) {
			for i := range va {
				x, y := s.resBit(va[i]), s.resBit(vb[i])
				if x.k < 2 && y.k < 2 && x.k != y.k {
					return 0
				}
			}
		}
		return -1
	}
	return -1
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// assume adds c == want; it reports false when that is impossible.
func (s *State) assume(c *Cond, want bool) bool {
	d := s.decide(c)
	if d >= 0 {
		return (d == 1) == want
	}
	s.own()
	switch c.k {
	case cNot:
		return s.assume(c.xs[0], !want)
	case cAnd:
		if want {
			for _, x := range c.xs {
				if !s.assume(x, true) {
					return false
				}
			}
			return true
		}
		var und *Cond
		n := 0
		for _, x := range c.xs {
			if s.decide(x) < 0 {
				und = x
				n++
			}
		}
		if n == 1 {
			return s.assume(und, false)
		}
		s.F.op[c.String()] = false
		return true
	case cKey:
		s.F.op[c.key] = want
		s.onAssume(c, want)
		return true
	}
	a, b := s.resInt(c.a), s.resInt(c.b)
	if at := s.single(a, b); at != nil {
		return s.filter(at, func(v int64) bool {
			x, y := evalAt(a, at, v), evalAt(b, at, v)
			var r bool
			if c.k == cEQ {
				r = x == y
			} else {
				r = x <= y
			}
			return r == want
		})
	}
	dl := b.linear().sub(a.linear())
	if c.k == cLE {
		if want {
			return s.addGE(dl)
		}
		return s.addGE(dl.scale(-1).plus(-1))
	}
	if want {
		// bitwise
		if kv, ok := b.konst(); ok && hasPlainBits(a) {
			return s.pin(a, kv) && s.addEQ(dl)
		}
		if kv, ok := a.konst(); ok && hasPlainBits(b) {
			return s.pin(b, kv) && s.addEQ(dl)
		}
		return s.addEQ(dl)
	}
	dl = s.res(dl)
	s.F.ne[normNE(dl).key()] = normNE(dl)
	// one undecided bit
	if len(dl.t) == 1 {
		t := dl.t[0]
		lo, hi := s.atomRng(t.a)
		if -dl.c%t.k == 0 {
			v := -dl.c / t.k
			if v == lo {
				return s.restrictAny(t.a, lo+1, 2*inf)
			}
			if v == hi {
				return s.restrictAny(t.a, -2*inf, hi-1)
			}
		}
	} else {
		lo, hi := s.rng(dl)
		if lo == 0 {
			return s.addGE(dl.plus(-1))
		}
		if hi == 0 {
			return s.addGE(dl.scale(-1).plus(-1))
		}
		if s.entails(dl) {
			return s.addGE(dl.plus(-1))
		}
		if s.entails(dl.scale(-1)) {
			return s.addGE(dl.scale(-1).plus(-1))
		}
	}
	return true
}

func (s *State) addEQ(l *Lin) bool { return s.addGE(l) && s.addGE(l.scale(-1)) }

func hasPlainBits(x *Int) bool {
	if x.lin != nil && x.bits == nil {
		x.vec()
	}
	for _, b := range x.bits {
		if b.k == 3 || (b.k == 2 && b.a.def != nil) {
			return false
		}
	}
	return true
}

func (s *State) pin(x *Int, v int64) bool {
	for i, b := range x.bits {
		bv := uint64(v)>>uint(min(i, 63))&1 == 1
		switch b.k {
		case 0, 1:
			if (b.k == 1) != bv {
				return false
			}
		case 2:
			if !s.setBit(b.a, b.i, bv != b.neg) {
				return false
			}
		}
	}
	return true
}

// joinFacts keeps what holds in both.
func joinFacts(f, g *Facts) *Facts {
	if f == g {
		return f
	}
	r := newFacts()
	for a, x := range f.at {
		y, ok := g.at[a]
		if !ok {
			continue
		}
		z := &AF{k0: x.k0 & y.k0, k1: x.k1 & y.k1, lo: min(x.lo, y.lo), hi: max(x.hi, y.hi)}
		if x.set != nil && y.set != nil {
			var st [4]uint64
			for i := range st {
				st[i] = x.set[i] | y.set[i]
			}
			z.set = &st
		}
		r.at[a] = z
	}
	gs := &State{F: g, shared: true}
	for _, l := range f.lin {
		if g.lk[l.key()] || gs.entails(l) {
			r.lin = append(r.lin, l)
			r.lk[l.key()] = true
		}
	}
	fs := &State{F: f, shared: true}
	for _, l := range g.lin {
		if !r.lk[l.key()] && fs.entails(l) {
			r.lin = append(r.lin, l)
			r.lk[l.key()] = true
		}
	}
	for k, l := range f.ne {
		if _, ok := g.ne[k]; ok || gs.entailsNE(l) {
			r.ne[k] = l
		}
	}
	for k, v := range f.op {
		if w, ok := g.op[k]; ok && w == v {
			r.op[k] = v
		}
	}
	return r
}

func sortedKeys[V any](m map[string]V) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func sameAF(a, b *AF) bool {
	if a == b {
		return true
	}
	if a == nil || b == nil {
		return false
	}
	if a.k0 != b.k0 || a.k1 != b.k1 || a.lo != b.lo || a.hi != b.hi || (a.set == nil) != (b.set == nil) {
		return false
	}
	return a.set == nil || *a.set == *b.set
}

// exactJoin joins two sets of facts if nothing is lost by it: one of them is
// weaker than the other, or they differ in one dimension whose union can be
// expressed.
func exactJoin(f, g *Facts) (*Facts, bool) {
	if f == g {
		return f, true
	}
	var da []*Atom
	fw, gw := true, true // f (g) is the weaker one
	for a, x := range f.at {
		y := g.at[a]
		if sameAF(x, y) {
			continue
		}
		da = append(da, a)
		if y == nil {
			y = defaultAF(a)
		}
		if !subAF(x, y) {
			gw = false
		}
		if !subAF(y, x) {
			fw = false
		}
	}
	for a, y := range g.at {
		if f.at[a] == nil {
			da = append(da, a)
			x := defaultAF(a)
			if !subAF(x, y) {
				gw = false
			}
			if !subAF(y, x) {
				fw = false
			}
		}
	}
	dl := 0
	for k := range f.lk {
		if !g.lk[k] {
			dl++
			fw = false
		}
	}
	for k := range g.lk {
		if !f.lk[k] {
			dl++
			gw = false
		}
	}
	for k := range f.ne {
		if _, ok := g.ne[k]; !ok {
			dl++
			fw = false
		}
	}
	for k := range g.ne {
		if _, ok := f.ne[k]; !ok {
			dl++
			gw = false
		}
	}
	var dop []string
	for k, v := range f.op {
		w, ok := g.op[k]
		if !ok {
			dl++
			fw = false
		} else if v != w {
			dop = append(dop, k)
			fw, gw = false, false
		}
	}
	for k := range g.op {
		if _, ok := f.op[k]; !ok {
			dl++
			gw = false
		}
	}
	switch {
	case fw:
		return f, true
	case gw:
		return g, true
	case dl == 0 && len(da) == 0 && len(dop) == 1:
		r := f.clone()
		delete(r.op, dop[0])
		return r, true
	case dl == 0 && len(dop) == 0 && len(da) == 1:
		x, y := f.at[da[0]], g.at[da[0]]
		if x == nil || y == nil {
			return nil, false // the weaker one was handled above
		}
		z := &AF{k0: x.k0 & y.k0, k1: x.k1 & y.k1, lo: min(x.lo, y.lo), hi: max(x.hi, y.hi)}
		if x.set != nil && y.set != nil {
			var st [4]uint64
			for i := range st {
				st[i] = x.set[i] | y.set[i]
			}
			z.set = &st
		} else if x.k0 != y.k0 || x.k1 != y.k1 || x.hi+1 < y.lo || y.hi+1 < x.lo {
			return nil, false
		}
		r := f.clone()
		r.at[da[0]] = z
		return r, true
	}
	return nil, false
}

// subAF: x implies y.
func subAF(x, y *AF) bool {
	if y.k0&^x.k0 != 0 || y.k1&^x.k1 != 0 || x.lo < y.lo || x.hi > y.hi {
		return false
	}
	if y.set != nil {
		if x.set == nil {
			return false
		}
		for i := range x.set {
			if x.set[i]&^y.set[i] != 0 {
				return false
			}
		}
	}
	return true
}

const maxSame = 24

// joinInto joins f into a list of facts, keeping distinct cases apart up to a
// limit. The result is the index of the entry f was joined into, or -1 if f
// was kept.
func joinInto(list []*Facts, f *Facts) (int, *Facts) {
	for i, g := range list {
		if r, ok := exactJoin(g, f); ok {
			return i, r
		}
	}
	if len(list) >= maxSame {
		return 0, joinFacts(list[0], f)
	}
	return -1, f
}
