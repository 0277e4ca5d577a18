package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// mcall is a call of a modelled library function.
type mcall struct {
	x  *Exec
	s  *State
	in ssa.Instruction
	fn *ssa.Function
	a  []Value
}

var models map[string]func(*mcall) []Out

func (m *mcall) rt(i int) types.Type { return m.fn.Signature.Results().At(i).Type() }

func (m *mcall) sym(nm string) []Out {
	return one(m.s, m.x.resultSym(m.s, m.fn.Signature.Results(), nm))
}

func errVal(nm string) *Iface {
	return &Iface{nm: nm, nn: true, t: types.Universe.Lookup("error").Type()}
}

func (m *mcall) slice(i int) *Slice {
	switch v := m.a[i].(type) {
	case *Slice:
		return v
	}
	return nilSlice(types.Typ[types.Uint8])
}

func (m *mcall) int(i int) *Int { return asInt(m.a[i], 64, true) }

// fork runs f on a copy of the state under the condition, and g under its
// negation.
func (m *mcall) fork(c *Cond, f, g func(s *State) []Out) []Out {
	var out []Out
	t := m.s.clone()
	if m.s.assume(c, true) {
		out = append(out, f(m.s)...)
	}
	if t.assume(c, false) {
		out = append(out, g(t)...)
	}
	return out
}

func keyOf(vs []Value) string {
	var ss []string
	for _, v := range vs {
		ss = append(ss, vkey(v))
	}
	return strings.Join(ss, ",")
}

// ---------------------------------------------------------------------------
// encoding/binary
// ---------------------------------------------------------------------------

type field struct {
	path  []Step
	off   int64
	size  int64 // bytes
	t     types.Type
	blank bool
	bytes bool // array of single bytes
	unexp bool
	name  string
}

// layout flattens a fixed size type; ok is false if it has no fixed size.
func layout(t types.Type) (fs []field, size int64, ok bool) {
	ok = true
	var walk func(t types.Type, p []Step, blank, unexp bool, name string)
	walk = func(t types.Type, p []Step, blank, unexp bool, name string) {
		if !ok {
			return
		}
		switch u := t.Underlying().(type) {
		case *types.Basic:
			w, _, isi := intType(t)
			if u.Info()&types.IsBoolean != 0 {
				w, isi = 8, true
			}
			if !isi || u.Kind() == types.Int || u.Kind() == types.Uint || u.Kind() == types.Uintptr {
				ok = false
				return
			}
			fs = append(fs, field{path: p, off: size, size: int64(w / 8), t: t, blank: blank, unexp: unexp, name: name})
			size += int64(w / 8)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				nm := f.Name()
				if name != "" && !f.Embedded() {
					nm = name + "." + nm
				}
				if f.Embedded() {
					nm = name
				}
				walk(f.Type(), append(append([]Step(nil), p...), Step{f: i}), blank || f.Name() == "_", unexp || !f.Exported() && f.Name() != "_", nm)
			}
		case *types.Array:
			if w, _, isi := intType(u.Elem()); isi && w == 8 {
				fs = append(fs, field{path: p, off: size, size: u.Len(), t: t, blank: blank, bytes: true, unexp: unexp, name: name})
				size += u.Len()
				return
			}
			for i := int64(0); i < u.Len() && ok; i++ {
				walk(u.Elem(), append(append([]Step(nil), p...), Step{idx: lc(i)}), blank, unexp, fmt.Sprintf("%s[%d]", name, i))
			}
		default:
			ok = false
		}
	}
	walk(t, nil, false, false, "")
	return
}

func orderOf(v Value) (big, ok bool) {
	i, isi := v.(*Iface)
	if !isi || i.dyn == nil {
		return false, false
	}
	switch n := typeName(i.dyn); {
	case strings.HasSuffix(n, "bigEndian"):
		return true, true
	case strings.HasSuffix(n, "littleEndian"):
		return false, true
	}
	return false, false
}

// stream is a *bytes.Buffer or *bytes.Reader.
type stream struct {
	p      *Ptr
	buf    *Slice
	pos    *Lin
	reader bool
}

func (x *Exec) stream(s *State, v Value) *stream {
	if i, ok := v.(*Iface); ok {
		v = i.v
	}
	p, ok := v.(*Ptr)
	if !ok {
		return nil
	}
	tn := typeName(p.t)
	if tn != "bytes.Buffer" && tn != "bytes.Reader" {
		return nil
	}
	n := x.expand(s, x.getFrom(s, p.o, p.p))
	if n.k != nStruct {
		return nil
	}
	sl, ok1 := x.toVal(s, n.f[0]).(*Slice)
	ps, ok2 := x.toVal(s, n.f[1]).(*Int)
	if !ok1 || !ok2 {
		return nil
	}
	return &stream{p: p, buf: sl, pos: ps.linear(), reader: tn == "bytes.Reader"}
}

func (x *Exec) setStream(s *State, st *stream) {
	u := st.p.t.Underlying().(*types.Struct)
	x.write(s, &Ptr{o: st.p.o, p: append(append([]Step(nil), st.p.p...), Step{f: 0}), t: u.Field(0).Type()}, leaf(u.Field(0).Type(), st.buf))
	x.write(s, &Ptr{o: st.p.o, p: append(append([]Step(nil), st.p.p...), Step{f: 1}), t: u.Field(1).Type()}, leaf(u.Field(1).Type(), intLin(st.pos, 64, true)))
}

// rest is the unread part of the stream.
func (st *stream) rest(s *State) *Slice {
	return &Slice{o: st.buf.o, p: st.buf.p, off: s.res(st.buf.off.add(st.pos, 1)), len: s.res(st.buf.len.sub(st.pos)), cap: s.res(st.buf.cap.sub(st.pos)), el: st.buf.el}
}

func joinBytes(bs []*Int, w int, sg bool, big bool) *Int {
	var bits []Bit
	for i := range bs {
		b := bs[i]
		if big {
			b = bs[len(bs)-1-i]
		}
		bits = append(bits, b.vec()...)
	}
	return &Int{w: w, sg: sg, bits: bits}
}

// decodeInto reads fields from segs (starting at 0) into memory at p.
func (x *Exec) decodeInto(s *State, in ssa.Instruction, p *Ptr, segs []Seg, big bool) {
	bt := types.Typ[types.Uint8]
	src := &Node{k: nArr, t: bt, segs: segs}
	fs, _, _ := layout(p.t)
	for _, f := range fs {
		if f.blank {
			continue
		}
		x.oblige(s, in, "decode unexported field", !f.unexp, "binary.Read into a struct with the unexported field "+f.name)
		q := &Ptr{o: p.o, p: append(append([]Step(nil), p.p...), f.path...), t: f.t}
		if f.bytes {
			var nd *Node
			if sub, ok := x.rangeSegs(s, src, lc(f.off), lc(f.off+f.size)); ok {
				nd = &Node{k: nArr, t: f.t, segs: sub}
			} else {
				nd = lazyNode(f.t, fresh("dec"), nil)
			}
			x.store(s, in, q, nd)
			continue
		}
		var bs []*Int
		for i := int64(0); i < f.size; i++ {
			bs = append(bs, asInt(x.toVal(s, x.elemAt(s, src, lc(f.off+i), bt)), 8, false))
		}
		w, sg, isi := intType(f.t)
		if !isi {
			x.store(s, in, q, leaf(f.t, cnot(&Cond{k: cEQ, a: bs[0], b: mkInt(8, false, 0)})))
			continue
		}
		x.store(s, in, q, leaf(f.t, s.resInt(joinBytes(bs, w, sg, big))))
	}
}

// encode turns the content n of type t into byte segments.
func (x *Exec) encode(s *State, n *Node, t types.Type, big bool) []Seg {
	bt := types.Typ[types.Uint8]
	fs, size, _ := layout(t)
	out := &Node{k: nArr, t: bt}
	if size > 0 {
		out.segs = []Seg{{lo: lc(0), hi: lc(size), k: nZero}}
	}
	for _, f := range fs {
		if f.blank {
			continue
		}
		c := x.get(s, n, f.path)
		if f.bytes {
			a := x.expandArr(s, c)
			sub, ok := x.rangeSegs(s, a, lc(0), lc(f.size))
			if !ok {
				for i := int64(0); i < f.size && f.size <= 64; i++ {
					out = x.putElem(s, out, lc(f.off+i), x.elemAt(s, a, lc(i), bt))
				}
				if f.size > 64 {
					sub = []Seg{{lo: lc(0), hi: lc(f.size), k: nLazy, src: fresh("enc"), delta: lc(0)}}
				}
			}
			for _, g := range shiftSegs(s, sub, lc(f.off)) {
				out, _ = x.putSeg(s, out, g)
			}
			continue
		}
		v := x.toVal(s, c)
		iv, ok := v.(*Int)
		if !ok {
			if cd, isc := v.(*Cond); isc && s.decide(cd) >= 0 {
				iv = mkInt(8, false, int64(s.decide(cd)))
			} else {
				iv = intAtom(atomNamed(fresh("encb"), int(f.size)*8, false))
			}
		}
		bits := s.resInt(iv).vec()
		for i := int64(0); i < f.size; i++ {
			j := i
			if big {
				j = f.size - 1 - i
			}
			b := s.resInt(&Int{w: 8, bits: bits[j*8 : j*8+8]})
			out = x.putElem(s, out, lc(f.off+i), leaf(bt, b))
		}
	}
	return out.segs
}

func binaryRead(m *mcall) []Out {
	x, s := m.x, m.s
	st := x.stream(s, m.a[0])
	big, ok := orderOf(m.a[1])
	d, isi := m.a[2].(*Iface)
	if st == nil || !ok || !isi || d.dyn == nil {
		x.fail("binary.Read with an unknown reader, byte order or target at %s", x.pos(m.in))
		x.havocReach(s, m.a[2])
		return m.sym(fresh("binary.Read"))
	}
	var size *Lin
	var into func(t *State, segs []Seg)
	switch v := d.v.(type) {
	case *Ptr:
		p := x.asPtr(s, m.in, v)
		if p == nil {
			return nil
		}
		_, n, ok := layout(p.t)
		if !ok {
			return one(s, errVal("binary.Read: invalid type"))
		}
		size = lc(n)
		into = func(t *State, segs []Seg) { x.decodeInto(t, m.in, p, segs, big) }
	case *Slice:
		w, _, isb := intType(v.el)
		if !isb || w != 8 {
			x.fail("binary.Read into %s at %s", typeName(d.dyn), x.pos(m.in))
			return m.sym(fresh("binary.Read"))
		}
		size = v.len
		into = func(t *State, segs []Seg) { x.putRange(t, m.in, v, v.len, segs) }
	default:
		return one(s, errVal("binary.Read: invalid type"))
	}
	rest := st.rest(s)
	full := &Cond{k: cLE, a: intLin(size, 64, true), b: intLin(rest.len, 64, true)}
	return m.fork(full, func(t *State) []Out {
		a, _ := x.arrAt(t, rest.o, rest.p)
		var segs []Seg
		good := rest.o == nilObj
		if rest.o != nilObj {
			segs, good = x.rangeSegs(t, a, rest.off, rest.off.add(size, 1))
		}
		if !good {
			segs = []Seg{{lo: lc(0), hi: size, k: nLazy, src: fresh("read"), delta: lc(0)}}
		}
		into(t, segs)
		st.pos = t.res(st.pos.add(size, 1))
		x.setStream(t, st)
		return one(t, NilV{})
	}, func(t *State) []Out {
		q := *st
		q.pos = t.res(st.buf.len)
		x.setStream(t, &q)
		return one(t, errVal("unexpected EOF"))
	})
}

func binaryWrite(m *mcall) []Out {
	x, s := m.x, m.s
	st := x.stream(s, m.a[0])
	big, ok := orderOf(m.a[1])
	d, isi := m.a[2].(*Iface)
	if st == nil || st.reader || !ok || !isi || d.dyn == nil {
		x.fail("binary.Write with an unknown writer, byte order or value at %s", x.pos(m.in))
		return m.sym(fresh("binary.Write"))
	}
	var segs []Seg
	var size *Lin
	switch v := d.v.(type) {
	case *Ptr:
		p := x.asPtr(s, m.in, v)
		if p == nil {
			return nil
		}
		_, n, ok := layout(p.t)
		if !ok {
			return one(s, errVal("binary.Write: invalid type"))
		}
		x.access(s, m.in, p, false)
		segs, size = x.encode(s, x.getFrom(s, p.o, p.p), p.t, big), lc(n)
	case *Slice:
		if w, _, isb := intType(v.el); !isb || w != 8 {
			x.fail("binary.Write of %s at %s", typeName(d.dyn), x.pos(m.in))
			return m.sym(fresh("binary.Write"))
		}
		var good bool
		segs, size, good = x.contentOf(s, v)
		if !good {
			segs = []Seg{{lo: lc(0), hi: v.len, k: nLazy, src: fresh("wr"), delta: lc(0)}}
			size = v.len
		}
	default:
		_, n, ok := layout(d.dyn)
		if !ok {
			return one(s, errVal("binary.Write: invalid type"))
		}
		segs, size = x.encode(s, x.toNode(d.dyn, d.v), d.dyn, big), lc(n)
	}
	x.appendBytes(s, m.in, st, segs, size)
	return one(s, NilV{})
}

// appendBytes writes bytes to a bytes.Buffer.
func (x *Exec) appendBytes(s *State, in ssa.Instruction, st *stream, segs []Seg, n *Lin) {
	bt := types.Typ[types.Uint8]
	if c := s.res(n); c.isConst() && c.c == 0 {
		return
	}
	o := newObj(bt, in, "tmp []byte")
	o.arr = true
	s.setHeap(o, &Node{k: nArr, t: bt, segs: segs})
	src := &Slice{o: o, off: lc(0), len: n, cap: n, el: bt}
	b := st.buf
	if b.el == nil {
		b.el = bt
	}
	for _, r := range x.appendTo(s, in, []Value{b, src}) {
		st.buf, _ = r.res.(*Slice)
	}
	x.setStream(s, st)
}

func newStream(tn string) func(m *mcall) []Out {
	return func(m *mcall) []Out {
		x, s := m.x, m.s
		pt := derefType(m.rt(0))
		o := newObj(pt, m.in, tn)
		s.setHeap(o, zeroNode(pt))
		p := &Ptr{o: o, t: pt}
		sl := m.a[0]
		if st, ok := sl.(*Str); ok {
			sl = x.strToBytes(s, st, types.NewSlice(types.Typ[types.Uint8]))
		}
		b, _ := sl.(*Slice)
		if b == nil {
			b = nilSlice(types.Typ[types.Uint8])
		}
		x.setStream(s, &stream{p: p, buf: b, pos: lc(0)})
		return one(s, p)
	}
}

// ---------------------------------------------------------------------------
// net
// ---------------------------------------------------------------------------

func (x *Exec) addrKey(s *State, v Value) string {
	if i, ok := v.(*Iface); ok {
		v = i.v
	}
	p, ok := v.(*Ptr)
	if !ok {
		return "nil"
	}
	n := x.getFrom(s, p.o, p.p)
	return "udpaddr:" + x.normKey(s, n)
}

// normKey is a key of the content of n that does not depend on whether it was
// looked at before.
func (x *Exec) normKey(s *State, n *Node) string {
	switch n.k {
	case nLazy, nZero:
		if isAgg(n.t) {
			if st, ok := n.t.Underlying().(*types.Struct); ok {
				_ = st
				return x.normKey(s, x.expand(s, n))
			}
			return n.key()
		}
		return vkey(x.toVal(s, n))
	case nStruct:
		r := "{"
		for _, f := range n.f {
			r += x.normKey(s, f) + ";"
		}
		return r + "}"
	case nLeaf:
		if i, ok := n.v.(*Int); ok {
			return s.resInt(i).key()
		}
	}
	return n.key()
}

func listenModel(m *mcall) []Out {
	x, s := m.x, m.s
	net, _ := m.a[0].(*Str)
	ad := ""
	switch v := m.a[1].(type) {
	case *Str:
		if len(v.parts) == 1 && strings.HasPrefix(v.parts[0].nm, "udpaddr:") {
			ad = v.parts[0].nm
		} else {
			ad = v.key()
		}
	default:
		ad = x.addrKey(s, v)
	}
	t := s.clone()
	e := t.ev("listenfail", m.in)
	e.args, e.str = m.a, ad
	er := errVal(fresh("listen error"))
	e = s.ev("listen", m.in)
	e.args, e.str = m.a, ad
	rt := m.rt(0)
	var ok, bad Value
	if _, isI := rt.Underlying().(*types.Interface); isI {
		i := &Iface{nm: fresh("conn"), nn: true, t: rt}
		if l, isl := net.lit(); isl && strings.HasPrefix(l, "udp") {
			pt := x.udpConn()
			if pt != nil {
				c := x.symVal(s, pt, fresh("conn"), nil, "")
				s.assume(nilCond(c), false)
				i = &Iface{dyn: pt, v: c, t: rt}
			}
		}
		ok, bad = i, NilV{}
	} else {
		c := x.symVal(s, rt, fresh("conn"), nil, "")
		s.assume(nilCond(c), false)
		ok, bad = c, NilV{}
	}
	e.res = ok
	return []Out{{s: s, res: Tuple{ok, NilV{}}}, {s: t, res: Tuple{bad, er}}}
}

func (x *Exec) udpConn() types.Type {
	for _, p := range x.prog.AllPackages() {
		if p.Pkg.Path() == "net" {
			if o := p.Pkg.Scope().Lookup("UDPConn"); o != nil {
				return types.NewPointer(o.Type())
			}
		}
	}
	return nil
}

// readModel: (n int, addr, err) = conn.ReadFrom...(b)
func readModel(m *mcall) []Out {
	x, s := m.x, m.s
	if x.asPtr(s, m.in, m.a[0]) == nil {
		return nil
	}
	b := m.slice(1)
	res := m.fn.Signature.Results()
	// the buffer is overwritten by an unknown datagram
	src := fresh("datagram")
	if b.o != nilObj {
		x.putRange(s, m.in, b, b.len, []Seg{{lo: lc(0), hi: b.len, k: nLazy, src: src, delta: lc(0)}})
	}
	mk := func(t *State, failed bool) Out {
		e := t.ev("read", m.in)
		e.args = m.a
		e.blk = true
		e.str = src
		x.blockPoint(t, m.in, e)
		na := atomNamed(fresh("num"), 64, true)
		na.lo, na.hi = 0, 1<<40
		t.addGE(b.len.sub(la(na)))
		r := Tuple{intAtom(na)}
		for i := 1; i < res.Len()-1; i++ {
			rt := res.At(i).Type()
			if failed {
				r = append(r, zeroVal(rt))
				continue
			}
			v := x.symVal(t, rt, fresh("from"), nil, "")
			if isPtrLike(v) {
				t.assume(nilCond(v), false)
			}
			r = append(r, v)
		}
		if failed {
			// an unsuccessful read delivers no data
			t.restrict(na, 0, 0)
			r = append(r, errVal(fresh("read error")))
		} else {
			r = append(r, NilV{})
		}
		e.res = r
		e.want = !failed
		return Out{s: t, res: r}
	}
	t := s.clone()
	return []Out{mk(s, false), mk(t, true)}
}

func writeModel(m *mcall) []Out {
	x, s := m.x, m.s
	if x.asPtr(s, m.in, m.a[0]) == nil {
		return nil
	}
	var ad Value = NilV{}
	if len(m.a) > 2 {
		ad = m.a[2]
	}
	mk := func(t *State, failed bool) Out {
		e := t.ev("write", m.in)
		e.args = m.a
		e.str = x.addrKey(t, ad)
		e.want = !failed
		na := atomNamed(fresh("num"), 64, true)
		na.lo, na.hi = 0, 1<<40
		if failed {
			return Out{s: t, res: Tuple{intAtom(na), errVal(fresh("write error"))}}
		}
		return Out{s: t, res: Tuple{intAtom(na), NilV{}}}
	}
	t := s.clone()
	return []Out{mk(s, false), mk(t, true)}
}

func (x *Exec) sliceKey(s *State, v Value) string {
	sl, ok := v.(*Slice)
	if !ok || sl.o == nilObj {
		return "nil"
	}
	segs, n, ok := x.contentOf(s, sl)
	if !ok {
		return vkey(v)
	}
	return segsKey(segs) + "/" + n.key()
}

func to4Model(m *mcall) []Out { return m.x.to4(m.s, m.slice(0), m.rt(0)) }

func (x *Exec) to4(s *State, sl *Slice, t types.Type) []Out {
	if sl.o == nilObj {
		return one(s, nilSlice(types.Typ[types.Uint8]))
	}
	n := s.res(sl.len)
	if n.isConst() && n.c == 4 {
		return one(s, sl)
	}
	if n.isConst() && n.c != 16 {
		return one(s, nilSlice(types.Typ[types.Uint8]))
	}
	nm := "to4(" + x.sliceKey(s, sl) + ")"
	r := x.symVal(s, t, nm, nil, "").(*Slice)
	// length 4, or nil
	if s.decide(nilCond(r)) < 0 {
		t := s.clone()
		var out []Out
		if s.assume(nilCond(r), true) {
			out = append(out, Out{s: s, res: nilSlice(r.el)})
		}
		if t.assume(nilCond(r), false) && t.addEQ(r.len.plus(-4)) {
			out = append(out, Out{s: t, res: r})
		}
		return out
	}
	return one(s, r)
}

// ---------------------------------------------------------------------------
// time
// ---------------------------------------------------------------------------

var clockObj = &Obj{name: "clock", t: types.Typ[types.Int64], glob: true}

func (x *Exec) now(s *State) *Int {
	a := atomNamed(fresh("now"), 64, true)
	a.lo, a.hi = 1<<55, 1<<58
	if n, ok := s.heap[clockObj]; ok {
		s.addGE(la(a).sub(n.v.(*Int).linear()))
	}
	s.setHeap(clockObj, leaf(types.Typ[types.Int64], intAtom(a)))
	return intAtom(a)
}

func timerModel(kind string) func(m *mcall) []Out {
	return func(m *mcall) []Out {
		x, s := m.x, m.s
		d := m.int(0)
		if kind == "ticker" {
			ok := s.entails(d.linear().plus(-1))
			x.oblige(s, m.in, "ticker interval", ok, "interval may not be positive: "+s.res(d.linear()).key())
			if !s.addGE(d.linear().plus(-1)) {
				return nil
			}
		}
		pt := derefType(m.rt(0))
		o := newObj(pt, m.in, kind)
		u := pt.Underlying().(*types.Struct)
		n := x.expand(s, zeroNode(pt))
		f := append([]*Node(nil), n.f...)
		ch := newObj(u.Field(0).Type(), m.in, kind+"C")
		s.setHeap(ch, leaf(types.Typ[types.Int], mkInt(64, true, 1)))
		f[0] = leaf(u.Field(0).Type(), &ChanV{o: ch})
		s.setHeap(o, &Node{k: nStruct, t: pt, f: f})
		r := &Ptr{o: o, t: pt}
		e := s.ev(kind, m.in)
		e.args, e.res, e.ch = m.a, r, &ChanV{o: ch}
		return one(s, r)
	}
}

func tickModel(kind string) func(m *mcall) []Out {
	return func(m *mcall) []Out {
		ch := newObj(m.rt(0), m.in, kind+"C")
		m.s.setHeap(ch, leaf(types.Typ[types.Int], mkInt(64, true, 1)))
		e := m.s.ev(kind, m.in)
		e.args, e.ch = m.a, &ChanV{o: ch}
		e.res = e.ch
		return one(m.s, e.ch)
	}
}

// ---------------------------------------------------------------------------
// sync
// ---------------------------------------------------------------------------

func lockID(p *Ptr) (key, field string) {
	fs := fieldsOf(p)
	if len(fs) > 0 {
		l := fs[len(fs)-1]
		return p.key(), l.Type + "." + l.Field
	}
	return p.key(), p.o.name
}

func (x *Exec) lock(m *mcall, read bool) []Out {
	s := m.s
	p := x.asPtr(s, m.in, m.a[0])
	if p == nil {
		return nil
	}
	key, fld := lockID(p)
	if x.quiet == 0 {
		x.lockOps[fld]++
	}
	for _, l := range s.locks {
		if l.key == key && !(l.read && read) {
			x.lockIssue(s, m.in, "takes "+fld+" while already holding it")
			return nil
		}
	}
	if x.quiet == 0 {
		for _, l := range s.locks {
			x.order[l.field+" -> "+fld] = &LockErr{Instr: m.in, Fn: s.fr.fn, What: l.field + " -> " + fld, Stack: x.stack(s), Entry: x.entry}
		}
	}
	held := map[string]bool{} // others cannot have changed these meanwhile
	for _, l := range s.locks {
		for _, f := range x.guards[l.field] {
			held[f] = true
		}
	}
	for _, f := range x.guards[fld] {
		if !held[f] {
			x.havocField(s, f, false)
		}
	}
	s.locks = append(append([]Lock(nil), s.locks...), Lock{key: key, field: fld, read: read, at: m.in})
	e := s.ev("lock", m.in)
	e.str, e.ptr = fld, p
	return one(s, Tuple{})
}

func (x *Exec) unlock(m *mcall, read bool) []Out {
	s := m.s
	p := x.asPtr(s, m.in, m.a[0])
	if p == nil {
		return nil
	}
	key, fld := lockID(p)
	for i := len(s.locks) - 1; i >= 0; i-- {
		if s.locks[i].key == key && s.locks[i].read == read {
			x.checkpoint(s, "unlock")
			e := s.ev("unlock", m.in)
			e.str, e.ptr = fld, p
			s.locks = append(append([]Lock(nil), s.locks[:i]...), s.locks[i+1:]...)
			return one(s, Tuple{})
		}
	}
	x.lockIssue(s, m.in, "releases "+fld+" without holding it")
	return nil
}

// ---------------------------------------------------------------------------
// strings
// ---------------------------------------------------------------------------

// sprint renders a format with known pieces.
func (x *Exec) sprintf(s *State, format *Str, args Value) *Str {
	f, ok := format.lit()
	var vs []Value
	if sl, isS := args.(*Slice); isS && sl.o != nilObj {
		n := s.res(sl.len)
		if !n.isConst() || n.c > 20 {
			return strSym(fresh("sprintf"))
		}
		a, el := x.arrAt(s, sl.o, sl.p)
		for i := int64(0); i < n.c; i++ {
			vs = append(vs, x.toVal(s, x.elemAt(s, a, sl.off.plus(i), el)))
		}
	}
	if !ok {
		return strSym(fmt.Sprintf("sprintf(%s,%s)", format.key(), keyOf(vs)))
	}
	r := strLit("")
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			r = strCat(r, strLit(f[i:i+1]))
			continue
		}
		if i+1 < len(f) && f[i+1] == '%' {
			r = strCat(r, strLit("%"))
			i++
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) || k >= len(vs) {
			return strSym(fmt.Sprintf("sprintf(%q,%s)", f, keyOf(vs)))
		}
		verb := f[i+1 : j+1]
		v := vs[k]
		k++
		i = j
		if iv, isI := v.(*Iface); isI && iv.dyn != nil {
			named := x.prog.MethodSets.MethodSet(iv.dyn).Lookup(nil, "String") != nil || x.prog.MethodSets.MethodSet(iv.dyn).Lookup(nil, "Error") != nil
			switch y := iv.v.(type) {
			case *Str:
				if verb == "s" || verb == "v" && !named {
					r = strCat(r, y)
					continue
				}
			case *Int:
				if verb == "d" || verb == "v" && !named {
					y = s.resInt(y)
					if c, isc := y.konst(); isc {
						r = strCat(r, strLit(fmt.Sprint(c)))
					} else {
						r = strCat(r, strSym("%d:"+y.key()))
					}
					continue
				}
			}
		}
		r = strCat(r, strSym("%"+verb+":"+vkey(v)))
	}
	return r
}

func init() {
	models = map[string]func(*mcall) []Out{
		"encoding/binary.Read":  binaryRead,
		"encoding/binary.Write": binaryWrite,
		"encoding/binary.Size": func(m *mcall) []Out {
			if d, ok := m.a[0].(*Iface); ok && d.dyn != nil {
				if _, n, ok := layout(derefType(d.dyn)); ok {
					return one(m.s, mkInt(64, true, n))
				}
				return one(m.s, mkInt(64, true, -1))
			}
			return m.sym(fresh("size"))
		},

		"bytes.NewReader":       newStream("Reader"),
		"bytes.NewBuffer":       newStream("Buffer"),
		"bytes.NewBufferString": newStream("Buffer"),
		"(*bytes.Buffer).Bytes": func(m *mcall) []Out {
			st := m.x.stream(m.s, m.a[0])
			if st == nil {
				return m.sym(fresh("bytes"))
			}
			if st.buf.o == nilObj {
				return one(m.s, nilSlice(types.Typ[types.Uint8]))
			}
			return one(m.s, st.rest(m.s))
		},
		"(*bytes.Buffer).String": func(m *mcall) []Out {
			st := m.x.stream(m.s, m.a[0])
			if st == nil {
				return m.sym(fresh("bytes"))
			}
			return one(m.s, m.x.bytesToStr(m.s, st.rest(m.s)))
		},
		"(*bytes.Buffer).Len":   streamLen,
		"(*bytes.Reader).Len":   streamLen,
		"(*bytes.Buffer).Grow":  func(m *mcall) []Out { return one(m.s, Tuple{}) },
		"(*bytes.Buffer).Reset": streamReset,
		"(*bytes.Buffer).Write": func(m *mcall) []Out {
			st := m.x.stream(m.s, m.a[0])
			segs, n, ok := m.x.contentOf(m.s, m.a[1])
			if st == nil || !ok {
				m.x.havocReach(m.s, m.a[0])
				return one(m.s, Tuple{intLin(m.x.lenOf(m.s, m.a[1]), 64, true), NilV{}})
			}
			m.x.appendBytes(m.s, m.in, st, segs, n)
			return one(m.s, Tuple{intLin(n, 64, true), NilV{}})
		},
		"(*bytes.Buffer).WriteString": func(m *mcall) []Out {
			st := m.x.stream(m.s, m.a[0])
			segs, n, ok := m.x.contentOf(m.s, m.a[1])
			if st == nil || !ok {
				m.x.havocReach(m.s, m.a[0])
				return one(m.s, Tuple{intLin(m.x.lenOf(m.s, m.a[1]), 64, true), NilV{}})
			}
			m.x.appendBytes(m.s, m.in, st, segs, n)
			return one(m.s, Tuple{intLin(n, 64, true), NilV{}})
		},
		"(*bytes.Buffer).WriteByte": func(m *mcall) []Out {
			st := m.x.stream(m.s, m.a[0])
			if st == nil {
				m.x.havocReach(m.s, m.a[0])
				return one(m.s, NilV{})
			}
			m.x.appendBytes(m.s, m.in, st, []Seg{elemSeg(lc(0), leaf(types.Typ[types.Uint8], m.a[1]))}, lc(1))
			return one(m.s, NilV{})
		},
		"(*bytes.Reader).Read": streamRead,
		"(*bytes.Buffer).Read": streamRead,
		"io.ReadFull":          readFull,
		"bytes.Equal":          bytesEqual,
		"bytes.IndexByte":      indexByte,
		"strings.IndexByte":    indexByte,
		"bytes.Clone":          cloneBytes,

		"errors.New": newErr,
		"fmt.Errorf": newErr,
		"errors.Is":  func(m *mcall) []Out { return one(m.s, ckey(fmt.Sprintf("errors.Is(%s)", keyOf(m.a)))) },
		"fmt.Sprintf": func(m *mcall) []Out {
			f, ok := m.a[0].(*Str)
			if !ok {
				return m.sym(fresh("sprintf"))
			}
			return one(m.s, m.x.sprintf(m.s, f, m.a[1]))
		},
		"strconv.Itoa": func(m *mcall) []Out {
			v := m.s.resInt(m.int(0))
			if c, ok := v.konst(); ok {
				return one(m.s, strLit(fmt.Sprint(c)))
			}
			return one(m.s, strSym("%d:"+v.key()))
		},
		"strconv.FormatUint": func(m *mcall) []Out {
			v := m.s.resInt(m.int(0))
			b, isc := m.int(1).konst()
			if !isc || b != 10 {
				return m.sym("strconv.FormatUint(" + keyOf(m.a) + ")")
			}
			if c, ok := v.konst(); ok {
				return one(m.s, strLit(fmt.Sprint(uint64(c))))
			}
			return one(m.s, strSym("%d:"+v.key()))
		},
		"strconv.FormatInt": func(m *mcall) []Out {
			v := m.s.resInt(m.int(0))
			b, isc := m.int(1).konst()
			if !isc || b != 10 {
				return m.sym("strconv.FormatInt(" + keyOf(m.a) + ")")
			}
			if c, ok := v.konst(); ok {
				return one(m.s, strLit(fmt.Sprint(c)))
			}
			return one(m.s, strSym("%d:"+v.key()))
		},

		"net.ListenPacket":           listenModel,
		"net.ListenUDP":              listenModel3,
		"(*net.UDPConn).ReadFromUDP": readModel,
		"(*net.UDPConn).ReadFrom":    readModel,
		"(*net.UDPConn).Read":        readModel,
		"(*net.conn).Read":           readModel,
		"(*net.UDPConn).WriteToUDP":  writeModel,
		"(*net.UDPConn).WriteTo":     writeModel,
		"(*net.conn).Write":          writeModel,
		"(*net.UDPConn).Close":       closeModel,
		"(*net.conn).Close":          closeModel,
		"(*net.UDPAddr).String": func(m *mcall) []Out {
			return one(m.s, strSym(m.x.addrKey(m.s, m.a[0])))
		},
		"(net.IP).To4": to4Model,
		"(net.IP).String": func(m *mcall) []Out {
			r := strSym("ip(" + m.x.sliceKey(m.s, m.a[0]) + ")")
			if c, n, ok := m.x.contentOf(m.s, m.a[0]); ok {
				if n = m.s.res(n); n.isConst() && n.c == 4 {
					bt := types.Typ[types.Uint8]
					for i := int64(0); i < 4; i++ {
						r.parts[0].ip = append(r.parts[0].ip, m.x.toVal(m.s, m.x.elemAt(m.s, &Node{k: nArr, t: bt, segs: c}, lc(i), bt)))
					}
				}
			}
			return one(m.s, r)
		},
		"(net.IP).Equal": func(m *mcall) []Out {
			_, na, ok1 := m.x.contentOf(m.s, m.a[0])
			_, nb, ok2 := m.x.contentOf(m.s, m.a[1])
			if ok1 && ok2 {
				if na, nb = m.s.res(na), m.s.res(nb); na.isConst() && nb.isConst() && na.c == nb.c {
					return bytesEqual(m)
				}
			}
			return one(m.s, eqKey("eqip", m.x.sliceKey(m.s, m.a[0]), m.x.sliceKey(m.s, m.a[1])))
		},
		"net.IPv4": func(m *mcall) []Out {
			bt := types.Typ[types.Uint8]
			o := newObj(bt, m.in, "ip")
			o.arr = true
			n := &Node{k: nArr, t: bt, segs: []Seg{{lo: lc(0), hi: lc(16), k: nZero}}}
			n = m.x.putElem(m.s, n, lc(10), leaf(bt, mkInt(8, false, 255)))
			n = m.x.putElem(m.s, n, lc(11), leaf(bt, mkInt(8, false, 255)))
			for i := int64(0); i < 4; i++ {
				n = m.x.putElem(m.s, n, lc(12+i), leaf(bt, m.a[i]))
			}
			m.s.setHeap(o, n)
			return one(m.s, &Slice{o: o, off: lc(0), len: lc(16), cap: lc(16), el: bt})
		},

		"time.Now":           func(m *mcall) []Out { return one(m.s, m.x.now(m.s)) },
		"(time.Time).Add":    func(m *mcall) []Out { return one(m.s, intLin(m.int(0).linear().add(m.int(1).linear(), 1), 64, true)) },
		"(time.Time).Sub":    func(m *mcall) []Out { return one(m.s, intLin(m.int(0).linear().sub(m.int(1).linear()), 64, true)) },
		"time.Since":         func(m *mcall) []Out { return one(m.s, intLin(m.x.now(m.s).linear().sub(m.int(0).linear()), 64, true)) },
		"time.Until":         func(m *mcall) []Out { return one(m.s, intLin(m.int(0).linear().sub(m.x.now(m.s).linear()), 64, true)) },
		"(time.Time).Before": func(m *mcall) []Out { return one(m.s, cnot(&Cond{k: cLE, a: m.int(1), b: m.int(0)})) },
		"(time.Time).After":  func(m *mcall) []Out { return one(m.s, cnot(&Cond{k: cLE, a: m.int(0), b: m.int(1)})) },
		"(time.Time).Equal":  func(m *mcall) []Out { return one(m.s, &Cond{k: cEQ, a: m.int(0), b: m.int(1)}) },
		"(time.Time).Compare": func(m *mcall) []Out {
			d := m.int(0).linear().sub(m.int(1).linear())
			var out []Out
			t, u := m.s.clone(), m.s.clone()
			if t.addGE(d.scale(-1).plus(-1)) {
				out = append(out, Out{s: t, res: mkInt(64, true, -1)})
			}
			if u.addEQ(d) {
				out = append(out, Out{s: u, res: mkInt(64, true, 0)})
			}
			if m.s.addGE(d.plus(-1)) {
				out = append(out, Out{s: m.s, res: mkInt(64, true, 1)})
			}
			return out
		},
		"(time.Time).IsZero":          func(m *mcall) []Out { return one(m.s, &Cond{k: cEQ, a: m.int(0), b: mkInt(64, true, 0)}) },
		"(time.Time).UnixNano":        func(m *mcall) []Out { return one(m.s, m.a[0]) },
		"(time.Duration).Nanoseconds": func(m *mcall) []Out { return one(m.s, m.a[0]) },
		"time.NewTicker":              timerModel("ticker"),
		"time.NewTimer":               timerModel("timer"),
		"time.Tick":                   tickModel("tick"),
		"time.After":                  tickModel("after"),
		"(*time.Ticker).Stop":         tickStop,
		"(*time.Timer).Stop":          tickStop,
		"(*time.Ticker).Reset": func(m *mcall) []Out {
			if m.x.asPtr(m.s, m.in, m.a[0]) == nil {
				return nil
			}
			d := m.int(1)
			m.x.oblige(m.s, m.in, "ticker interval", m.s.entails(d.linear().plus(-1)), "interval may not be positive")
			e := m.s.ev("tickreset", m.in)
			e.args = m.a
			return one(m.s, Tuple{})
		},
		"time.Sleep": func(m *mcall) []Out {
			e := m.s.ev("sleep", m.in)
			e.args, e.blk = m.a, true
			m.x.blockPoint(m.s, m.in, e)
			return one(m.s, Tuple{})
		},

		"(*sync.Mutex).Lock":      func(m *mcall) []Out { return m.x.lock(m, false) },
		"(*sync.Mutex).Unlock":    func(m *mcall) []Out { return m.x.unlock(m, false) },
		"(*sync.RWMutex).Lock":    func(m *mcall) []Out { return m.x.lock(m, false) },
		"(*sync.RWMutex).Unlock":  func(m *mcall) []Out { return m.x.unlock(m, false) },
		"(*sync.RWMutex).RLock":   func(m *mcall) []Out { return m.x.lock(m, true) },
		"(*sync.RWMutex).RUnlock": func(m *mcall) []Out { return m.x.unlock(m, true) },
		"(*sync.Once).Do": func(m *mcall) []Out {
			p := m.x.asPtr(m.s, m.in, m.a[0])
			if p == nil {
				return nil
			}
			c := ckey("once(" + p.key() + ")")
			return m.fork(c, func(t *State) []Out { return one(t, Tuple{}) }, func(t *State) []Out {
				delete(t.F.op, c.key)
				t.own()
				t.F.op[c.key] = true
				f, ok := m.a[1].(*Func)
				if !ok || f.fn == nil {
					return one(t, Tuple{})
				}
				var out []Out
				for _, o := range m.x.callFn(t, m.in, f.fn, nil, f.bind) {
					o.res = Tuple{}
					out = append(out, o)
				}
				return out
			})
		},
		"(*sync.WaitGroup).Add":  nop,
		"(*sync.WaitGroup).Done": nop,
		"(*sync.WaitGroup).Wait": func(m *mcall) []Out {
			e := m.s.ev("wgwait", m.in)
			e.blk = true
			e.args = m.a
			m.x.blockPoint(m.s, m.in, e)
			return one(m.s, Tuple{})
		},

		"strings.ToUpper": pureStr, "strings.ToLower": pureStr, "strings.TrimSpace": pureStr,
		"(*strings.Builder).WriteByte": builderAdd, "(*strings.Builder).WriteRune": builderAdd, "(*strings.Builder).WriteString": builderAdd,
		"(*strings.Builder).Grow":   nop,
		"(*strings.Builder).String": func(m *mcall) []Out { return one(m.s, m.x.cutStr(m.s, m.x.builder(m.s, m.a[0]))) },
		"(*strings.Builder).Len":    func(m *mcall) []Out { return one(m.s, intLin(m.x.strLen(m.s, m.x.builder(m.s, m.a[0])), 64, true)) },
	}
}

func nop(m *mcall) []Out { return one(m.s, Tuple{}) }

func pureStr(m *mcall) []Out {
	return one(m.s, strSym(m.fn.Name()+"("+keyOf(m.a)+")"))
}

func newErr(m *mcall) []Out {
	nm := "err:" + m.x.pos(m.in)
	if m.fn.Name() == "Errorf" {
		if st, ok := m.a[0].(*Str); ok {
			nm += ":" + st.key()
		}
	}
	return one(m.s, errVal(nm))
}

func streamLen(m *mcall) []Out {
	st := m.x.stream(m.s, m.a[0])
	if st == nil {
		return m.sym(fresh("len"))
	}
	return one(m.s, intLin(st.rest(m.s).len, 64, true))
}

func streamReset(m *mcall) []Out {
	st := m.x.stream(m.s, m.a[0])
	if st == nil {
		return one(m.s, Tuple{})
	}
	// the storage is kept: what Bytes returned before may be overwritten
	st.buf = &Slice{o: st.buf.o, p: st.buf.p, off: st.buf.off, len: lc(0), cap: st.buf.cap, el: st.buf.el}
	st.pos = lc(0)
	m.x.setStream(m.s, st)
	return one(m.s, Tuple{})
}

func streamRead(m *mcall) []Out {
	x, s := m.x, m.s
	st := x.stream(s, m.a[0])
	d := m.slice(1)
	if st == nil {
		x.havocReach(s, m.a[1])
		return m.sym(fresh("read"))
	}
	rest := st.rest(s)
	empty := &Cond{k: cLE, a: intLin(rest.len, 64, true), b: mkInt(64, true, 0)}
	return m.fork(empty, func(t *State) []Out {
		return one(t, Tuple{mkInt(64, true, 0), errVal("EOF")})
	}, func(t *State) []Out {
		var out []Out
		for _, o := range x.copyTo(t, m.in, []Value{d, rest}) {
			q := *st
			q.pos = o.s.res(st.pos.add(o.res.(*Int).linear(), 1))
			x.setStream(o.s, &q)
			out = append(out, Out{s: o.s, res: Tuple{o.res, NilV{}}})
		}
		return out
	})
}

func readFull(m *mcall) []Out {
	x, s := m.x, m.s
	st := x.stream(s, m.a[0])
	d := m.slice(1)
	if st == nil {
		x.havocReach(s, m.a[1])
		return m.sym(fresh("readfull"))
	}
	rest := st.rest(s)
	full := &Cond{k: cLE, a: intLin(d.len, 64, true), b: intLin(rest.len, 64, true)}
	return m.fork(full, func(t *State) []Out {
		var out []Out
		for _, o := range x.copyTo(t, m.in, []Value{d, rest}) {
			q := *st
			q.pos = o.s.res(st.pos.add(o.res.(*Int).linear(), 1))
			x.setStream(o.s, &q)
			out = append(out, Out{s: o.s, res: Tuple{o.res, NilV{}}})
		}
		return out
	}, func(t *State) []Out {
		var out []Out
		for _, o := range x.copyTo(t, m.in, []Value{d, rest}) {
			q := *st
			q.pos = o.s.res(st.buf.len)
			x.setStream(o.s, &q)
			out = append(out, Out{s: o.s, res: Tuple{o.res, errVal("unexpected EOF")}})
		}
		return out
	})
}

func cloneBytes(m *mcall) []Out {
	x, s := m.x, m.s
	sl := m.slice(0)
	if sl.o == nilObj {
		return one(s, sl)
	}
	segs, n, ok := x.contentOf(s, sl)
	if !ok {
		return m.sym(fresh("clone"))
	}
	o := newObj(sl.el, m.in, "clone")
	o.arr = true
	s.setHeap(o, &Node{k: nArr, t: sl.el, segs: segs})
	return one(s, &Slice{o: o, off: lc(0), len: n, cap: n, el: sl.el})
}

// indexByte: position of the first byte equal to c, or -1.
func indexByte(m *mcall) []Out {
	x, s := m.x, m.s
	segs, n, ok := x.contentOf(s, m.a[0])
	c, isc := s.resInt(asInt(m.a[1], 8, false)).konst()
	mkI := func(t *State) *Atom {
		a := atomNamed(fresh("index"), 64, true)
		a.lo, a.hi = 0, 1<<40
		t.addGE(n.sub(la(a)).plus(-1))
		return a
	}
	if n == nil {
		n = x.lenOf(s, m.a[0])
	}
	var out []Out
	if r := s.res(n); ok && isc && r.isConst() && r.c >= 0 && r.c <= 4 {
		// a short sequence: one case per position
		arr := &Node{k: nArr, t: types.Typ[types.Uint8], segs: segs}
		base := lc(0)
		if len(segs) > 0 {
			base = segs[0].lo
		}
		rest := s
		for i := int64(0); i < r.c; i++ {
			e, isI := x.toVal(rest, x.elemAt(rest, arr, base.plus(i), types.Typ[types.Uint8])).(*Int)
			if !isI {
				out = nil
				break
			}
			hit := rest.clone()
			if hit.assume(&Cond{k: cEQ, a: e, b: mkInt(8, false, c)}, true) {
				out = append(out, Out{s: hit, res: mkInt(64, true, i)})
			}
			rest = rest.clone()
			if !rest.assume(&Cond{k: cEQ, a: e, b: mkInt(8, false, c)}, false) {
				return out
			}
			if i == r.c-1 {
				return append(out, Out{s: rest, res: mkInt(64, true, -1)})
			}
		}
	}
	t := s.clone()
	u := s.clone()
	lazy := ok && isc && c == 0 && len(segs) == 1 && segs[0].k == nLazy
	// not found
	if lazy {
		t.addNonul(segs[0].src, segs[0].lo.add(segs[0].delta, 1), segs[0].hi.add(segs[0].delta, 1))
	}
	out = append(out, Out{s: t, res: mkInt(64, true, -1)})
	if u.entails(n.scale(-1)) {
		return out
	}
	a := mkI(u)
	if lazy {
		b := segs[0].lo.add(segs[0].delta, 1)
		u.addNonul(segs[0].src, b, b.add(la(a), 1))
		bt := types.Typ[types.Uint8]
		e := x.toVal(u, segElem(u, segs[0], la(a), bt))
		if i, isI := e.(*Int); isI {
			u.assume(&Cond{k: cEQ, a: i, b: mkInt(8, false, 0)}, true)
		}
	}
	out = append(out, Out{s: u, res: intAtom(a)})
	return out
}

func listenModel3(m *mcall) []Out { return listenModel(m) }

func closeModel(m *mcall) []Out {
	x, s := m.x, m.s
	if x.asPtr(s, m.in, m.a[0]) == nil {
		return nil
	}
	e := s.ev("connclose", m.in)
	e.args = m.a
	t := s.clone()
	return []Out{{s: s, res: NilV{}}, {s: t, res: errVal(fresh("close error"))}}
}

func tickStop(m *mcall) []Out {
	x, s := m.x, m.s
	p := x.asPtr(s, m.in, m.a[0])
	if p == nil {
		return nil
	}
	e := s.ev("tickstop", m.in)
	e.args = m.a
	e.ch = x.toVal(s, x.getFrom(s, p.o, append(append([]Step(nil), p.p...), Step{f: 0})))
	return one(s, x.resultSym(s, m.fn.Signature.Results(), fresh("stop")))
}

// builder returns the text collected by a strings.Builder.
func (x *Exec) builder(s *State, v Value) *Str {
	p, ok := v.(*Ptr)
	if !ok {
		return strSym(fresh("builder"))
	}
	n := x.getFrom(s, p.o, append(append([]Step(nil), p.p...), Step{f: 1}))
	switch y := x.toVal(s, n).(type) {
	case *Str:
		return y
	case *Slice:
		if y.o == nilObj {
			return &Str{}
		}
	}
	return strSym(fresh("builder"))
}

func builderAdd(m *mcall) []Out {
	x, s := m.x, m.s
	p, ok := m.a[0].(*Ptr)
	cur := x.builder(s, m.a[0])
	var add *Str
	switch v := m.a[1].(type) {
	case *Str:
		add = v
	case *Int:
		if m.fn.Name() == "WriteRune" {
			add, _ = x.runeStr(s, v).(*Str)
		} else {
			add = x.segsToStr(s, []Seg{elemSeg(lc(0), leaf(types.Typ[types.Uint8], v))}, lc(1))
		}
	}
	if add == nil {
		add = strSym(fresh("builder"))
	}
	if ok {
		x.write(s, &Ptr{o: p.o, p: append(append([]Step(nil), p.p...), Step{f: 1})}, leaf(types.NewSlice(types.Typ[types.Uint8]), strCat(cur, add)))
	}
	switch m.fn.Name() {
	case "WriteByte":
		return one(s, NilV{})
	}
	return one(s, Tuple{intLin(x.strLen(s, add), 64, true), NilV{}})
}

func bytesEqual(m *mcall) []Out {
	sa, na, ok1 := m.x.contentOf(m.s, m.a[0])
	sb, nb, ok2 := m.x.contentOf(m.s, m.a[1])
	if !ok1 || !ok2 {
		return one(m.s, eqKey("eqbytes", vkey(m.a[0]), vkey(m.a[1])))
	}
	if m.s.entailsNE(na.sub(nb)) {
		return one(m.s, cFalse)
	}
	ra, rb := m.s.res(na), m.s.res(nb)
	if ra.isConst() && rb.isConst() && ra.c <= 64 {
		bt := types.Typ[types.Uint8]
		var cs []*Cond
		xa, xb := &Node{k: nArr, t: bt, segs: sa}, &Node{k: nArr, t: bt, segs: sb}
		for i := int64(0); i < ra.c; i++ {
			cs = append(cs, m.x.equal(m.s, bt, m.x.toVal(m.s, m.x.elemAt(m.s, xa, lc(i), bt)), m.x.toVal(m.s, m.x.elemAt(m.s, xb, lc(i), bt))))
		}
		return one(m.s, cand(cs...))
	}
	return one(m.s, eqBytes(sa, sb))
}
