package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// The Art-Net 4 wire format (the specification the codec is compared with)
// ---------------------------------------------------------------------------

type fspec struct {
	name string
	off  int
	kind byte // '1' byte, 'H' 16 bit high byte first, 'L' 16 bit low byte first, 'A' bytes, 'P' port
	n    int
}

type pspec struct {
	typ    string
	op     int64
	size   int // encoded size
	min    int // shortest datagram accepted
	reply  bool
	lenLo  int64 // declared length
	lenHi  int64
	lenOff int
	fields []fspec
	fixed  map[string]string // payload fields encoding may set
}

var artnetID = []byte{'A', 'r', 't', '-', 'N', 'e', 't', 0}

var packets = []*pspec{
	{typ: "ArtPollPacket", op: 0x2000, size: 14, min: 14, fields: []fspec{{"TalkToMe", 12, '1', 1}, {"Priority", 13, '1', 1}}},
	{typ: "ArtPollReplyPacket", op: 0x2100, size: 239, min: 239, reply: true, fixed: map[string]string{"Port": ""}, fields: []fspec{
		{"IPAddress", 10, 'A', 4}, {"Port", 14, 'P', 2}, {"VersionInfo", 16, 'H', 2}, {"NetSwitch", 18, '1', 1}, {"SubSwitch", 19, '1', 1},
		{"Oem", 20, 'H', 2}, {"UBEAVersion", 22, '1', 1}, {"Status1", 23, '1', 1}, {"ESTAmanufacturer", 24, 'A', 2},
		{"ShortName", 26, 'A', 18}, {"LongName", 44, 'A', 64}, {"NodeReport", 108, 'A', 64}, {"NumPorts", 172, 'H', 2},
		{"PortTypes", 174, 'A', 4}, {"GoodInput", 178, 'A', 4}, {"GoodOutput", 182, 'A', 4}, {"SwIn", 186, 'A', 4}, {"SwOut", 190, 'A', 4},
		{"SwVideo", 194, '1', 1}, {"SwMacro", 195, '1', 1}, {"SwRemote", 196, '1', 1}, {"Style", 200, '1', 1}, {"Macaddress", 201, 'A', 6},
		{"BindIP", 207, 'A', 4}, {"BindIndex", 211, '1', 1}, {"Status2", 212, '1', 1}}},
	{typ: "ArtDiagDataPacket", op: 0x2300, size: 530, min: 530, lenHi: 512, lenOff: 16, fields: []fspec{{"Priority", 13, '1', 1}, {"Length", 16, 'H', 2}, {"Data", 18, 'A', 512}}},
	{typ: "ArtCommandPacket", op: 0x2400, size: 528, min: 528, lenHi: 512, lenOff: 14, fixed: map[string]string{"ESTAmanufacturer": ""},
		fields: []fspec{{"ESTAmanufacturer", 12, 'A', 2}, {"Length", 14, 'H', 2}, {"Data", 16, 'A', 512}}},
	{typ: "ArtDMXPacket", op: 0x5000, size: 530, min: 20, lenLo: 2, lenHi: 512, lenOff: 16, fixed: map[string]string{"Length": ""}, fields: []fspec{
		{"Sequence", 12, '1', 1}, {"Physical", 13, '1', 1}, {"SubUni", 14, '1', 1}, {"Net", 15, '1', 1}, {"Length", 16, 'H', 2}, {"Data", 18, 'A', 512}}},
	{typ: "ArtNzsPacket", op: 0x5100, size: 530, min: 530, lenLo: 1, lenHi: 512, lenOff: 16, fields: []fspec{
		{"Sequence", 12, '1', 1}, {"StartCode", 13, '1', 1}, {"SubUni", 14, '1', 1}, {"Net", 15, '1', 1}, {"Length", 16, 'H', 2}, {"Data", 18, 'A', 512}}},
	{typ: "ArtSyncPacket", op: 0x5200, size: 14, min: 14},
	{typ: "ArtAddressPacket", op: 0x6000, size: 107, min: 107, fields: []fspec{
		{"NetSwitch", 12, '1', 1}, {"BindIndex", 13, '1', 1}, {"ShortName", 14, 'A', 18}, {"LongName", 32, 'A', 64}, {"SwIn", 96, 'A', 4}, {"SwOut", 100, 'A', 4},
		{"SubSwitch", 104, '1', 1}, {"SwVideo", 105, '1', 1}, {"Command", 106, '1', 1}}},
	{typ: "ArtTimeCodePacket", op: 0x9700, size: 19, min: 19, fields: []fspec{
		{"Frames", 14, '1', 1}, {"Seconds", 15, '1', 1}, {"Minutes", 16, '1', 1}, {"Hours", 17, '1', 1}, {"Type", 18, '1', 1}}},
	{typ: "ArtTriggerPacket", op: 0x9900, size: 530, min: 530, fields: []fspec{{"Oem", 14, 'H', 2}, {"Key", 16, '1', 1}, {"SubKey", 17, '1', 1}, {"Data", 18, 'A', 512}}},
	{typ: "ArtIPProgPacket", op: 0xf800, size: 34, min: 34, fields: []fspec{
		{"Command", 14, '1', 1}, {"ProgIP", 16, 'A', 4}, {"ProgSubNet", 20, 'A', 4}, {"ProgPort", 24, 'A', 2}}},
	{typ: "ArtIPProgReplyPacket", op: 0xf900, size: 34, min: 34, fields: []fspec{
		{"ProgIP", 16, 'A', 4}, {"ProgSubNet", 20, 'A', 4}, {"ProgPort", 24, 'A', 2}, {"Status", 26, '1', 1}}},
}

func (t *pspec) dmx() bool { return t.typ == "ArtDMXPacket" }

// ---------------------------------------------------------------------------
// Runs
// ---------------------------------------------------------------------------

type codecRun struct {
	t    *pspec
	fn   *ssa.Function
	x    *Exec
	pre  *State
	recv *Ptr
	b    *Slice
	outs []Out
}

func (p *Prog) pktType(name string) types.Type {
	tn := p.pkt.Type(name)
	if tn == nil {
		return nil
	}
	return tn.Type()
}

// decodeRun interprets UnmarshalBinary of a packet type.
func decodeRun(r *Rep, t *pspec, setup func(s *State, c *codecRun)) *codecRun {
	c := &codecRun{t: t, fn: lookupFn(r.p.pkt, t.typ+".UnmarshalBinary")}
	if c.fn == nil {
		r.check("decoder exists", false, "packet", "%s has no UnmarshalBinary", t.typ)
		return nil
	}
	x := r.p.newExec()
	c.x = x
	x.entry = t.typ + ".UnmarshalBinary"
	s := x.entryState()
	c.recv = &Ptr{o: symObj("§recv", r.p.pktType(t.typ), nil, ""), t: r.p.pktType(t.typ)}
	s.assume(nilCond(c.recv), false)
	c.b = x.symVal(s, types.NewSlice(types.Typ[types.Uint8]), "b", nil, "").(*Slice)
	if setup != nil {
		setup(s, c)
	}
	c.pre = s.clone()
	c.outs = x.runFn(s, c.fn, []Value{c.recv, c.b}, nil, nil)
	r.absorb(x)
	return c
}

func encodeRun(r *Rep, t *pspec) *codecRun {
	c := &codecRun{t: t, fn: lookupFn(r.p.pkt, t.typ+".MarshalBinary")}
	if c.fn == nil {
		r.check("encoder exists", false, "packet", "%s has no MarshalBinary", t.typ)
		return nil
	}
	x := r.p.newExec()
	c.x = x
	x.entry = t.typ + ".MarshalBinary"
	s := x.entryState()
	c.recv = &Ptr{o: symObj("§recv", r.p.pktType(t.typ), nil, ""), t: r.p.pktType(t.typ)}
	s.assume(nilCond(c.recv), false)
	c.pre = s.clone()
	c.outs = x.runFn(s, c.fn, []Value{c.recv}, nil, nil)
	r.absorb(x)
	return c
}

func genericRun(r *Rep, setup func(s *State, c *codecRun)) *codecRun {
	c := &codecRun{fn: lookupFn(r.p.pkt, "Unmarshal")}
	if c.fn == nil {
		r.check("decoder exists", false, "packet", "no Unmarshal")
		return nil
	}
	x := r.p.newExec()
	c.x = x
	x.entry = "Unmarshal"
	s := x.entryState()
	c.b = x.symVal(s, types.NewSlice(types.Typ[types.Uint8]), "b", nil, "").(*Slice)
	if setup != nil {
		setup(s, c)
	}
	c.pre = s.clone()
	c.outs = x.runFn(s, c.fn, []Value{c.b}, nil, nil)
	r.absorb(x)
	return c
}

func specOf(t types.Type) *pspec {
	n, ok := types.Unalias(derefType(t)).(*types.Named)
	if !ok {
		return nil
	}
	for _, p := range packets {
		if p.typ == n.Obj().Name() {
			return p
		}
	}
	return nil
}

// byteN is byte i of the datagram.
func (c *codecRun) byteN(s *State, i int) *Int { return c.x.byteOf(s, c.b, lc(int64(i))) }

// accepted: the error result may be nil.
func (c *codecRun) accepted(o Out) bool {
	if o.pan {
		return false
	}
	e := o.res
	if t, ok := e.(Tuple); ok {
		e = t[len(t)-1]
	}
	return o.s.decide(nilCond(e)) != 0
}

func errNil(s *State, e Value) int { return s.decide(nilCond(e)) }

// pinHeader makes b a datagram with the identifier and op code.
func (c *codecRun) pinHeader(s *State, op int64, minLen int) {
	s.addGE(c.b.len.plus(int64(-minLen)))
	for i, v := range artnetID {
		s.assume(cmpConst(c.byteN(s, i), int64(v)), true)
	}
	if op >= 0 {
		s.assume(cmpConst(c.byteN(s, 8), op&0xff), true)
		s.assume(cmpConst(c.byteN(s, 9), op>>8), true)
	}
}

// requirements of acceptance.
func (c *codecRun) requireC02(r *Rep, s *State, t *pspec, where string) {
	rule := "acceptance implies compatibility"
	min := t.min
	if t.dmx() {
		min = 18
	}
	r.check(rule, s.entails(c.b.len.plus(int64(-min))), where, "%s accepts a datagram shorter than %d bytes", t.typ, min)
	for i, v := range artnetID {
		r.check(rule, eqConst(s, c.byteN(s, i), int64(v)), where, "%s accepts a datagram whose byte %d need not be %#x (Art-Net identifier)", t.typ, i, v)
	}
	r.check(rule, eqConst(s, c.byteN(s, 8), t.op&0xff) && eqConst(s, c.byteN(s, 9), t.op>>8), where, "%s accepts op codes other than %#x", t.typ, t.op)
	if !t.reply {
		v := c.byteN(s, 11)
		r.check(rule, s.decide(&Cond{k: cLE, a: mkInt(8, false, 14), b: v}) == 1, where, "%s accepts protocol revisions below 14", t.typ)
	}
	if t.reply {
		l, h := c.byteN(s, 14), c.byteN(s, 15)
		ok := eqConst(s, l, 0x36) && eqConst(s, h, 0x19) || eqConst(s, l, 0x19) && eqConst(s, h, 0x36)
		if !ok {
			// as a number
			d := word(l, h).linear()
			e := word(h, l).linear()
			ok = s.entailsEQ(d.plus(-6454)) || s.entailsEQ(e.plus(-6454))
		}
		r.check(rule, ok, where, "ArtPollReply accepts ports other than 6454")
		r.check(rule, s.decide(&Cond{k: cLE, a: c.byteN(s, 200), b: mkInt(8, false, 6)}) == 1, where, "ArtPollReply accepts unknown style codes")
	}
	if t.typ == "ArtCommandPacket" {
		r.check(rule, eqConst(s, c.byteN(s, 12), 0xff) && eqConst(s, c.byteN(s, 13), 0xff), where, "ArtCommand accepts manufacturer codes other than 0xFFFF")
	}
	if t.dmx() {
		l := word(c.byteN(s, 17), c.byteN(s, 16)).linear()
		r.check(rule, s.entails(c.b.len.sub(l).plus(-18)), where, "ArtDMX accepts a datagram that does not hold its declared data")
	}
}

func propC01(r *Rep) {
	r.desc = "Every operation in the decoders that can panic (index, slice, nil dereference, division, conversion, type assertion, recursion) is an obligation; each is discharged from the facts (intervals, known bits, linear inequalities on lengths) that hold on every partition of the paths reaching it, for a symbolic byte slice and a symbolic receiver."
	for _, t := range packets {
		if r.only != nil && !r.only[t.typ] {
			continue
		}
		c := decodeRun(r, t, nil)
		if c == nil {
			continue
		}
		r.panics(c.x, "no panic in "+t.typ+".UnmarshalBinary")
		r.check("returns", len(c.outs) > 0, r.fnPos(c.fn), "no path returns")
		for _, o := range c.outs {
			r.check("returns", !o.pan, r.fnPos(c.fn), "a path ends in a panic")
		}
	}
	c := genericRun(r, nil)
	if c == nil {
		return
	}
	r.panics(c.x, "no panic in Unmarshal")
	for _, o := range c.outs {
		r.check("returns", !o.pan, r.fnPos(c.fn), "a path ends in a panic")
	}
	// any further decoder of the package
	for _, fn := range r.p.modFuncs() {
		if fn.Pkg != r.p.pkt || fn.Signature.Recv() == nil || fn.Name() != "UnmarshalBinary" || fn.Synthetic != "" {
			continue
		}
		if specOf(fn.Signature.Recv().Type()) != nil {
			continue
		}
		x := r.p.newExec()
		x.entry = fn.String()
		s := x.entryState()
		args := x.symArgs(s, fn)
		for _, o := range x.runFn(s, fn, args, nil, nil) {
			r.check("returns", !o.pan, r.fnPos(fn), "a path ends in a panic")
		}
		r.absorb(x)
		r.panics(x, "no panic in other decoders")
	}
	r.atLeast("returns", 13, "packet")
}

func propC02(r *Rep) {
	r.desc = "For each packet type the facts that hold on every returning path whose error may be nil are collected by abstract interpretation with a symbolic datagram; they must entail the identifier, op code, revision, length, port, style and manufacturer requirements. The same is done for the generic decoder, per dynamic type it returns."
	for _, t := range packets {
		if r.only != nil && !r.only[t.typ] {
			continue
		}
		c := decodeRun(r, t, nil)
		if c == nil {
			continue
		}
		n := 0
		for _, o := range c.outs {
			if c.accepted(o) {
				n++
				c.requireC02(r, o.s, t, r.fnPos(c.fn))
			}
		}
	}
	c := genericRun(r, nil)
	if c == nil {
		return
	}
	seen := map[string]bool{}
	for _, o := range c.outs {
		if !c.accepted(o) {
			continue
		}
		i, _ := o.res.(Tuple)[0].(*Iface)
		var t *pspec
		if i != nil && i.dyn != nil {
			t = specOf(i.dyn)
		}
		if !r.check("accepted type known", t != nil, r.fnPos(c.fn), "accepts a datagram without a known packet type") {
			continue
		}
		seen[t.typ] = true
		c.requireC02(r, o.s, t, r.fnPos(c.fn)+" ("+t.typ+")")
	}
	r.atLeast("acceptance implies compatibility", 24*8, "packet")
}

// wellFormed assumes a well-formed datagram of type t.
func wellFormed(s *State, c *codecRun, t *pspec) {
	min := t.min
	if t.dmx() {
		min = 18
	}
	c.pinHeader(s, t.op, min)
	if !t.reply {
		s.assume(&Cond{k: cLE, a: mkInt(8, false, 14), b: c.byteN(s, 11)}, true)
	} else {
		s.assume(&Cond{k: cLE, a: c.byteN(s, 200), b: mkInt(8, false, 6)}, true)
	}
	if t.typ == "ArtCommandPacket" {
		s.assume(cmpConst(c.byteN(s, 12), 0xff), true)
		s.assume(cmpConst(c.byteN(s, 13), 0xff), true)
	}
	if t.lenHi > 0 {
		l := word(c.byteN(s, t.lenOff+1), c.byteN(s, t.lenOff)).linear()
		s.addGE(l.plus(-t.lenLo))
		s.addGE(lc(t.lenHi).sub(l))
		if t.dmx() {
			s.addGE(c.b.len.sub(l).plus(-18))
			// even: the lowest bit is 0
			s.setBit(c.byteN(s, 17).lin.t[0].a, 0, false)
		}
	}
}

func propC03(r *Rep) {
	r.desc = "For each supported op code, the generic decoder is interpreted on the set of all well-formed datagrams of that type (identifier, op code, revision, length and range conditions assumed, everything else symbolic): every path must return without error the packet type of the op code, whose GetOpCode reports it. On all other op codes every path must return an error and no packet."
	rule := "well-formed datagrams are accepted"
	for _, t := range packets {
		if r.only != nil && !r.only[t.typ] {
			continue
		}
		var variants []func(s *State, c *codecRun)
		if t.reply {
			for _, po := range [][2]int64{{0x36, 0x19}, {0x19, 0x36}} {
				variants = append(variants, func(s *State, c *codecRun) {
					wellFormed(s, c, t)
					s.assume(cmpConst(c.byteN(s, 14), po[0]), true)
					s.assume(cmpConst(c.byteN(s, 15), po[1]), true)
				})
			}
		} else {
			variants = append(variants, func(s *State, c *codecRun) { wellFormed(s, c, t) })
		}
		for _, v := range variants {
			c := genericRun(r, v)
			if c == nil {
				return
			}
			w := r.fnPos(c.fn)
			r.check(rule, len(c.outs) > 0, w, "no path returns for %s", t.typ)
			for _, o := range c.outs {
				if !r.check(rule, !o.pan, w, "a well-formed %s datagram panics", t.typ) {
					continue
				}
				tp, _ := o.res.(Tuple)
				if !r.check(rule, len(tp) == 2 && errNil(o.s, tp[1]) == 1, w, "a well-formed %s datagram may be rejected (%s)", t.typ, clip(vkey(o.res), 200)) {
					continue
				}
				i, _ := tp[0].(*Iface)
				if !r.check(rule, i != nil && i.dyn != nil && specOf(i.dyn) == t, w, "op code %#x decodes to %s instead of %s", t.op, vkey(tp[0]), t.typ) {
					continue
				}
				// GetOpCode
				g := methodOf(r.p.prog, i.dyn, "GetOpCode")
				if !r.check(rule, g != nil, w, "%s has no GetOpCode", t.typ) {
					continue
				}
				o.s.fr = &Frame{env: map[ssa.Value]Value{}}
				for _, q := range c.x.runFn(o.s, g, []Value{i.v}, nil, nil) {
					iv, _ := q.res.(*Int)
					r.check("reported op code", !q.pan && eqConst(q.s, iv, t.op), r.fnPos(g), "a decoded %s does not report op code %#x", t.typ, t.op)
				}
			}
		}
	}
	c := genericRun(r, func(s *State, c *codecRun) {
		c.pinHeader(s, -1, 12)
		op := word(c.byteN(s, 8), c.byteN(s, 9))
		for _, t := range packets {
			s.assume(cmpConst(op, t.op), false)
		}
	})
	if c != nil {
		for _, o := range c.outs {
			tp, _ := o.res.(Tuple)
			ok := !o.pan && len(tp) == 2 && errNil(o.s, tp[1]) == 0 && o.s.decide(nilCond(tp[0])) == 1
			r.check("unsupported op codes are refused", ok, r.fnPos(c.fn), "an unsupported op code may yield %s", clip(vkey(o.res), 200))
		}
	}
	r.atLeast(rule, 12*3, "packet")
	r.atLeast("unsupported op codes are refused", 1, "packet")
}

func methodOf(prog *ssa.Program, t types.Type, name string) *ssa.Function {
	ms := prog.MethodSets.MethodSet(t)
	for k := 0; k < ms.Len(); k++ {
		if ms.At(k).Obj().Name() == name {
			return prog.MethodValue(ms.At(k))
		}
	}
	return nil
}

// arrayEq checks that elements [lo,hi) of content n equal want(i).
func (x *Exec) arrayEq(s *State, n *Node, el types.Type, lo, hi *Lin, want func(s *State, i *Lin) *Int) bool {
	st := s.clone()
	a := atomNamed(fresh("i"), 64, true)
	i := la(a)
	if !st.addGE(i.sub(lo)) || !st.addGE(hi.sub(i).plus(-1)) {
		return true // empty
	}
	if eqInts(st, x.nodeInt(st, x.elem(st, n, i, el)), want(st, i)) {
		return true
	}
	l, h := s.res(lo), s.res(hi)
	if !l.isConst() || !h.isConst() || h.c-l.c > 2048 {
		return false
	}
	for k := l.c; k < h.c; k++ {
		if !eqInts(s, x.nodeInt(s, x.elem(s, n, lc(k), el)), want(s, lc(k))) {
			return false
		}
	}
	return true
}

// mirrors: the field holds what the datagram says.
func (c *codecRun) mirrors(s *State, f fspec) bool {
	n, ft := c.x.field(s, c.recv, f.name)
	if n == nil {
		return false
	}
	switch f.kind {
	case '1':
		return eqInts(s, c.x.nodeInt(s, n), c.byteN(s, f.off))
	case 'H':
		return eqInts(s, c.x.nodeInt(s, n), word(c.byteN(s, f.off+1), c.byteN(s, f.off)))
	case 'L':
		return eqInts(s, c.x.nodeInt(s, n), word(c.byteN(s, f.off), c.byteN(s, f.off+1)))
	case 'P':
		return eqConst(s, c.x.nodeInt(s, n), 6454)
	case 'A':
		hi := lc(int64(f.n))
		if c.t.dmx() && f.name == "Data" {
			hi = word(c.byteN(s, 17), c.byteN(s, 16)).linear()
		}
		at, ok := ft.Underlying().(*types.Array)
		if !ok || at.Len() != int64(f.n) {
			return false
		}
		return c.x.arrayEq(s, n, at.Elem(), lc(0), hi, func(s *State, i *Lin) *Int {
			return c.x.byteOf(s, c.b, i.plus(int64(f.off)))
		})
	}
	return false
}

func (t *pspec) allFields() []fspec {
	fs := []fspec{{"ID", 0, 'A', 8}, {"OpCode", 8, 'L', 2}}
	if !t.reply {
		fs = append(fs, fspec{"Version", 10, 'A', 2})
	}
	return append(fs, t.fields...)
}

func propC04(r *Rep) {
	r.desc = "On every returning path of each decoder whose error may be nil, the abstract content of every packet field is compared with the datagram bytes the Art-Net 4 layout assigns to it (bit provenance and element-wise array provenance, for a symbolic index)."
	for _, t := range packets {
		if r.only != nil && !r.only[t.typ] {
			continue
		}
		c := decodeRun(r, t, nil)
		if c == nil {
			continue
		}
		n := 0
		for _, o := range c.outs {
			if !c.accepted(o) {
				continue
			}
			n++
			for _, f := range t.allFields() {
				r.check("field mirrors datagram", c.mirrors(o.s, f), r.fnPos(c.fn), "%s.%s does not hold the bytes at offset %d", t.typ, f.name, f.off)
			}
		}
		r.check("decoder has accepting paths", n > 0, r.fnPos(c.fn), "%s is never accepted", t.typ)
	}
	r.atLeast("field mirrors datagram", 12*3, "packet")
}

// wire is the expected encoded byte k; nil if it is not specified.
func (c *codecRun) wire(s *State, k int) *Int {
	t := c.t
	b := func(v int64) *Int { return mkInt(8, false, v) }
	switch {
	case k < 8:
		return b(int64(artnetID[k]))
	case k == 8:
		return b(t.op & 0xff)
	case k == 9:
		return b(t.op >> 8)
	case !t.reply && k == 10:
		return b(0)
	case !t.reply && k == 11:
		return b(14)
	}
	for _, f := range t.fields {
		if k < f.off || k >= f.off+f.n {
			continue
		}
		switch {
		case f.kind == 'P':
			return b([]int64{0x36, 0x19}[k-f.off])
		case t.dmx() && f.name == "Length":
			return b([]int64{2, 0}[k-f.off])
		case t.typ == "ArtCommandPacket" && f.name == "ESTAmanufacturer":
			return b(0xff)
		}
		n, ft := c.x.field(c.pre, c.recv, f.name)
		if n == nil {
			return nil
		}
		switch f.kind {
		case '1':
			return c.x.nodeInt(s, n)
		case 'H':
			v := c.x.nodeInt(s, n)
			return intByte(v, 1-(k-f.off))
		case 'A':
			return c.x.nodeInt(s, c.x.elem(c.pre, n, lc(int64(k-f.off)), elemType(ft)))
		}
	}
	return b(0) // filler
}

func propC05(r *Rep) {
	r.desc = "Each encoder is interpreted with a packet whose fields are all symbolic (stale headers included): every path must return no error and a byte slice of the type's exact length whose bytes, one by one, are the constants and field bytes the Art-Net 4 layout assigns (bit provenance)."
	for _, t := range packets {
		if r.only != nil && !r.only[t.typ] {
			continue
		}
		c := encodeRun(r, t)
		if c == nil {
			continue
		}
		w := r.fnPos(c.fn)
		r.check("encoder returns", len(c.outs) > 0, w, "%s: no path returns", t.typ)
		for _, o := range c.outs {
			tp, _ := o.res.(Tuple)
			if !r.check("encoder returns", !o.pan && len(tp) == 2 && errNil(o.s, tp[1]) == 1, w, "encoding %s may fail", t.typ) {
				continue
			}
			sl, _ := tp[0].(*Slice)
			if !r.check("encoded length", sl != nil && o.s.entailsEQ(sl.len.plus(int64(-t.size))), w, "%s does not encode to %d bytes", t.typ, t.size) {
				continue
			}
			for k := 0; k < t.size; k++ {
				r.check("encoded byte", eqInts(o.s, c.x.byteOf(o.s, sl, lc(int64(k))), c.wire(o.s, k)), w, "%s: byte %d of the encoding is not what Art-Net 4 prescribes", t.typ, k)
			}
		}
		r.panics(c.x, "encoder does not panic")
	}
	r.atLeast("encoded byte", 2688, "packet")
}

func propC06(r *Rep) {
	r.desc = "Each encoder is interpreted twice in a row on a packet with symbolic content (any history): both encodings must agree byte for byte, the payload fields other than those Art-Net fixes must be unchanged, and both results must lie in distinct memory allocated by that very call (ownership)."
	for _, t := range packets {
		if r.only != nil && !r.only[t.typ] {
			continue
		}
		c := encodeRun(r, t)
		if c == nil {
			continue
		}
		w := r.fnPos(c.fn)
		x := c.x
		for _, o := range c.outs {
			tp, _ := o.res.(Tuple)
			if o.pan || len(tp) != 2 {
				continue
			}
			sl, _ := tp[0].(*Slice)
			if !r.check("encoding yields bytes", sl != nil, w, "%s: encoding is not known", t.typ) {
				continue
			}
			own := func(s *Slice) bool {
				_, old := x.base.heap[s.o]
				return s.o != nil && !s.o.sym && !s.o.glob && s.o != nilObj && !old && s.o != c.recv.o
			}
			r.check("result is not shared", own(sl), w, "%s: the encoding is not freshly allocated", t.typ)
			// not reachable from elsewhere
			r.check("result is not shared", !reachable(x, o.s, sl.o, c.recv.o), w, "%s: the encoding stays reachable from the packet or a package variable", t.typ)
			for _, f := range t.fields {
				if _, ok := t.fixed[f.name]; ok {
					continue
				}
				r.check("payload unchanged", x.sameField(c.pre, o.s, c.recv, f), w, "encoding changes %s.%s", t.typ, f.name)
			}
			// a second time
			o.s.fr = &Frame{env: map[ssa.Value]Value{}}
			o.s.fr.env[&ssa.Const{}] = sl
			first := o.s.clone()
			for _, q := range x.runFn(o.s, c.fn, []Value{c.recv}, nil, nil) {
				t2, _ := q.res.(Tuple)
				if !r.check("second encoding", !q.pan && len(t2) == 2 && errNil(q.s, t2[1]) == errNil(first, tp[1]), w, "%s: the second encoding fails", t.typ) {
					continue
				}
				s2, _ := t2[0].(*Slice)
				if !r.check("second encoding", s2 != nil, w, "%s: second encoding is not known", t.typ) {
					continue
				}
				r.check("result is not shared", own(s2) && s2.o != sl.o, w, "%s: two encodings share memory", t.typ)
				r.check("second encoding", q.s.entailsEQ(s2.len.sub(sl.len)), w, "%s: the second encoding has another length", t.typ)
				for k := 0; k < t.size; k++ {
					a := x.byteOf(first, sl, lc(int64(k)))
					b := x.byteOf(q.s, s2, lc(int64(k)))
					r.check("repeatable byte", eqInts(q.s, a, b), w, "%s: byte %d differs when the packet is encoded again", t.typ, k)
					a2 := x.byteOf(q.s, sl, lc(int64(k)))
					r.check("repeatable byte", eqInts(q.s, a, a2), w, "%s: encoding again overwrites byte %d of the earlier result", t.typ, k)
				}
				for _, f := range t.fields {
					if _, ok := t.fixed[f.name]; ok {
						continue
					}
					r.check("payload unchanged", x.sameField(c.pre, q.s, c.recv, f), w, "encoding again changes %s.%s", t.typ, f.name)
				}
			}
		}
		r.absorb(x)
	}
	r.atLeast("repeatable byte", 2688, "packet")
	r.atLeast("result is not shared", 36, "packet")
}

// reachable: is o referenced from the packet or a package variable?
func reachable(x *Exec, s *State, o *Obj, from *Obj) bool {
	hit := false
	var visit func(n *Node, depth int)
	refs := func(v Value) *Obj {
		switch v := v.(type) {
		case *Slice:
			return v.o
		case *Ptr:
			return v.o
		case *MapV:
			return v.o
		}
		return nil
	}
	seen := map[*Obj]bool{}
	var visitO func(q *Obj, depth int)
	visitO = func(q *Obj, depth int) {
		if q == nil || seen[q] || depth > 20 {
			return
		}
		seen[q] = true
		if q == o {
			hit = true
		}
		if n, ok := s.heap[q]; ok {
			visit(n, depth+1)
		}
	}
	visit = func(n *Node, depth int) {
		if n == nil {
			return
		}
		if n.v != nil {
			if i, ok := n.v.(*Iface); ok {
				visitO(refs(i.v), depth)
			}
			visitO(refs(n.v), depth)
		}
		for _, f := range n.f {
			visit(f, depth)
		}
		for _, g := range n.segs {
			visit(g.node, depth)
		}
		for _, g := range n.over {
			visit(g.node, depth)
		}
		for _, e := range n.ents {
			visit(e.val, depth)
			visitO(refs(e.key), depth)
		}
	}
	visitO(from, 0)
	for q := range s.heap {
		if q.glob {
			visitO(q, 0)
		}
	}
	return hit
}

// sameField compares a packet field in two states.
func (x *Exec) sameField(a, b *State, p *Ptr, f fspec) bool {
	n, ft := x.field(a, p, f.name)
	m, _ := x.field(b, p, f.name)
	if n == nil || m == nil {
		return false
	}
	if n.key() == m.key() {
		return true
	}
	if at, ok := ft.Underlying().(*types.Array); ok {
		return x.arrayEq(b, m, at.Elem(), lc(0), lc(at.Len()), func(s *State, i *Lin) *Int {
			return x.nodeInt(s, x.elem(s, n, i, at.Elem()))
		})
	}
	return eqInts(b, x.nodeInt(a, n), x.nodeInt(b, m))
}

func propC07(r *Rep) {
	r.desc = "On every accepting path of each decoder the facts must entail the declared-length range, and no payload field may hold a value derived from the packet's previous content (dependency of the abstract content and of the path facts on receiver symbols); ArtDMX channels from the declared length on must be zero for a symbolic index."
	for _, t := range packets {
		if r.only != nil && !r.only[t.typ] {
			continue
		}
		c := decodeRun(r, t, nil)
		if c == nil {
			continue
		}
		w := r.fnPos(c.fn)
		for _, o := range c.outs {
			if !c.accepted(o) {
				continue
			}
			if t.lenHi > 0 {
				n, _ := c.x.field(o.s, c.recv, "Length")
				l := c.x.nodeInt(o.s, n)
				if r.check("declared length in range", l != nil, w, "%s.Length is not known", t.typ) {
					ln := l.linear()
					r.check("declared length in range", o.s.entails(lc(t.lenHi).sub(ln)), w, "%s.Length may exceed %d", t.typ, t.lenHi)
					r.check("declared length in range", o.s.entails(ln.plus(-t.lenLo)), w, "%s.Length may be below %d", t.typ, t.lenLo)
					if t.dmx() {
						b0 := o.s.resBit(o.s.resInt(l).vec()[0])
						r.check("declared length in range", b0.k == 0, w, "ArtDMXPacket.Length may be odd")
					}
				}
			}
			if t.dmx() {
				n, ft := c.x.field(o.s, c.recv, "Data")
				l := word(c.byteN(o.s, 17), c.byteN(o.s, 16)).linear()
				ok := c.x.arrayEq(o.s, n, elemType(ft), l, lc(512), func(s *State, i *Lin) *Int { return mkInt(8, false, 0) })
				r.check("no stale data", ok, w, "ArtDMX channels beyond the declared length are not zero")
			}
			for _, f := range t.allFields() {
				n, _ := c.x.field(o.s, c.recv, f.name)
				r.check("no stale data", n != nil && !mentions(prune(o.s, n).key(), "§recv"), w, "%s.%s may keep content from before the decode", t.typ, f.name)
			}
			r.check("no stale data", !factsMention(o.s, "§recv"), w, "acceptance of %s depends on the packet's previous content", t.typ)
		}
	}
	r.atLeast("declared length in range", 8, "packet")
	r.atLeast("no stale data", 60, "packet")
}

func mentions(k, what string) bool {
	for i := 0; i+len(what) <= len(k); i++ {
		if k[i:i+len(what)] == what {
			return true
		}
	}
	return false
}

func factsMention(s *State, what string) bool {
	for a := range s.F.at {
		if mentions(a.name, what) {
			return true
		}
	}
	for _, l := range s.F.lin {
		if mentions(l.key(), what) {
			return true
		}
	}
	for k := range s.F.ne {
		if mentions(k, what) {
			return true
		}
	}
	for k := range s.F.op {
		if mentions(k, what) && k != fmt.Sprintf("nil(%s)", what) {
			return true
		}
	}
	return false
}

// prune drops the parts of an array that are empty on this path.
func prune(s *State, n *Node) *Node {
	if n.k != nArr {
		return n
	}
	r := &Node{k: nArr, t: n.t, over: n.over}
	for _, sg := range n.segs {
		if !s.entails(sg.lo.sub(sg.hi)) {
			r.segs = append(r.segs, sg)
		}
	}
	return r
}
