package main

import (
	"fmt"
	"go/types"
)

// strUpToNUL: v is the text of the first n elements of src up to the first
// zero byte.
func (x *Exec) strUpToNUL(s *State, v Value, src *Node, el types.Type, n int64) bool {
	str, ok := v.(*Str)
	if !ok {
		return false
	}
	at := func(s *State, i *Lin) *Int { return x.nodeInt(s, x.elem(s, src, i, el)) }
	pos := lc(0)
	bt := types.Typ[types.Uint8]
	for k, p := range str.parts {
		if p.nm != "" {
			return false
		}
		if p.seq == nil {
			for i := 0; i < len(p.lit); i++ {
				if p.lit[i] == 0 || !eqConst(s, at(s, pos), int64(p.lit[i])) {
					return false
				}
				pos = pos.plus(1)
			}
			continue
		}
		ln := s.res(p.hi.sub(p.lo))
		same := x.arrayEq(s, p.seq, bt, p.lo, p.hi, func(s *State, i *Lin) *Int { return at(s, i.sub(p.lo).add(pos, 1)) })
		if !same {
			return false
		}
		if p.cut {
			return k == len(str.parts)-1 && s.entailsEQ(pos.add(ln, 1).plus(-n))
		}
		// every byte is known not to be zero
		good := false
		for _, sg := range p.seq.segs {
			if sg.k == nLazy && s.entails(p.lo.sub(sg.lo)) && s.entails(sg.hi.sub(p.hi)) && s.nonulIn(sg.src, p.lo.add(sg.delta, 1), p.hi.add(sg.delta, 1)) {
				good = true
			}
		}
		if !good && ln.isConst() && ln.c <= 64 {
			good = true
			for i := int64(0); i < ln.c; i++ {
				b := at(s, pos.plus(i))
				if b == nil || s.decide(cmpConst(b, 0)) != 0 {
					good = false
				}
			}
		}
		if !good {
			return false
		}
		pos = s.res(pos.add(ln, 1))
	}
	if s.entailsEQ(pos.plus(-n)) {
		return true
	}
	return s.zeroAt(pos, func(i *Lin) *Int { return at(s, i) })
}

func bitsOf(a *Int, lo, hi int) []Bit { return append([]Bit(nil), a.vec()[lo:hi]...) }

func fromBits(bs ...[]Bit) *Int {
	var v []Bit
	for _, b := range bs {
		v = append(v, b...)
	}
	for len(v) < 8 {
		v = append(v, Bit{})
	}
	return &Int{w: 8, bits: v}
}

// split partitions a state by conditions.
func split(s *State, cs ...*Cond) []*State {
	sts := []*State{s}
	for _, c := range cs {
		var nx []*State
		for _, t := range sts {
			switch t.decide(c) {
			case 0, 1:
				nx = append(nx, t)
			default:
				u := t.clone()
				if t.assume(c, true) {
					nx = append(nx, t)
				}
				if u.assume(c, false) {
					nx = append(nx, u)
				}
			}
		}
		sts = nx
	}
	return sts
}

func leC(a *Int, v int64) *Cond { return &Cond{k: cLE, a: a, b: mkInt(a.w, a.sg, v)} }

func bitCond(a *Int, i int) *Cond {
	return cnot(cmpConst(&Int{w: 8, bits: append(bitsOf(a, i, i+1), make([]Bit, 7)...)}, 0))
}

func propC10(r *Rep) {
	r.desc = "ConfigFromArtPollReply is interpreted on a packet with all fields unknown. On every returning path, every identity field of the result is compared with the packet field it must mirror (bit provenance; strings as 'bytes up to the first NUL' of the packet array; slices element by element and located in memory the call allocated), and the port lists are compared, entry by entry and bit by bit, with the list the announced count and the direction bits of that path require."
	x := r.p.newExec()
	fn := lookupFn(r.p.root, "ConfigFromArtPollReply")
	if fn == nil {
		r.check("function exists", false, "config.go", "ConfigFromArtPollReply not found")
		return
	}
	s := x.entryState()
	x.entry = "ConfigFromArtPollReply"
	args := x.symArgs(s, fn)
	pkt, ok := args[0].(*Node)
	if !ok {
		r.check("signature", false, r.fnPos(fn), "the packet is not passed by value")
		return
	}
	outs := x.runFn(s, fn, args, nil, nil)
	r.absorb(x)
	r.panics(x, "no panic")
	w := r.fnPos(fn)
	n := 0
	for _, o := range outs {
		if o.pan {
			continue
		}
		n++
		cfg, ok := o.res.(*Node)
		if !ok {
			r.check("result is a configuration", false, w, "result is %s", clip(vkey(o.res), 80))
			continue
		}
		r.confIdentity(x, o.s, cfg, pkt, w)
		r.confPorts(x, o.s, cfg, pkt, w)
	}
	r.check("function returns", n > 0, w, "no returning path")
	r.atLeast("port list", 20, w)
}

func (r *Rep) confIdentity(x *Exec, s *State, cfg, pkt *Node, w string) {
	num := func(cf, pf string) {
		a, _ := x.fieldOf(s, cfg, cf)
		b, _ := x.fieldOf(s, pkt, pf)
		ok := a != nil && b != nil && eqInts(s, x.nodeInt(s, a), x.nodeInt(s, b))
		r.check("identity field", ok, w, "NodeConfig.%s does not carry the reply's %s", cf, pf)
	}
	num("OEM", "Oem")
	num("Version", "VersionInfo")
	num("BiosVersion", "UBEAVersion")
	num("Type", "Style")
	num("BindIndex", "BindIndex")
	num("Port", "Port")
	num("Status1", "Status1")
	num("Status2", "Status2")
	str := func(cf, pf string) {
		a, _ := x.fieldOf(s, cfg, cf)
		b, bt := x.fieldOf(s, pkt, pf)
		ok := false
		if a != nil && b != nil {
			at, isA := bt.Underlying().(*types.Array)
			ok = isA && x.strUpToNUL(s, x.toVal(s, a), b, at.Elem(), at.Len())
		}
		r.check("text field", ok, w, "NodeConfig.%s is not the reply's %s up to the first NUL", cf, pf)
	}
	str("Manufacturer", "ESTAmanufacturer")
	str("Name", "ShortName")
	str("Description", "LongName")
	sl := func(cf, pf string) {
		a, _ := x.fieldOf(s, cfg, cf)
		b, bt := x.fieldOf(s, pkt, pf)
		ok, priv := false, false
		if a != nil && b != nil {
			at, isA := bt.Underlying().(*types.Array)
			v, isS := x.toVal(s, a).(*Slice)
			if isA && isS {
				priv = !v.o.sym && !v.o.glob
				ok = s.entailsEQ(v.len.plus(-at.Len())) && x.sliceEq(s, v, at.Len(), func(s *State, i *Lin) *Int {
					return x.nodeInt(s, x.elem(s, b, i, at.Elem()))
				})
			}
		}
		r.check("byte field", ok, w, "NodeConfig.%s does not hold the bytes of the reply's %s", cf, pf)
		r.check("no sharing", priv, w, "NodeConfig.%s lies in memory the call did not allocate", cf)
	}
	sl("Ethernet", "Macaddress")
	sl("IP", "IPAddress")
	sl("BindIP", "BindIP")
	sl("Report", "NodeReport")
	base, _ := x.fieldOf(s, cfg, "BaseAddress")
	nw, _ := x.fieldOf(s, pkt, "NetSwitch")
	sw, _ := x.fieldOf(s, pkt, "SubSwitch")
	ok := false
	if base != nil && nw != nil && sw != nil {
		bn, _ := x.fieldOf(s, base, "Net")
		bs, _ := x.fieldOf(s, base, "SubUni")
		ok = bn != nil && bs != nil && eqInts(s, x.nodeInt(s, bn), fromBits(bitsOf(x.nodeInt(s, nw), 0, 7))) &&
			eqInts(s, x.nodeInt(s, bs), fromBits(make([]Bit, 4), bitsOf(x.nodeInt(s, sw), 0, 4)))
	}
	r.check("base address", ok, w, "NodeConfig.BaseAddress is not made of the 7-bit net and the 4-bit sub-net")
}

// sliceEq compares the first n elements of a slice of integers.
func (x *Exec) sliceEq(s *State, v *Slice, n int64, want func(s *State, i *Lin) *Int) bool {
	arr, _ := x.arrAt(s, v.o, v.p)
	if arr == nil {
		return false
	}
	return x.arrayEq(s, arr, v.el, v.off, v.off.plus(n), func(s *State, i *Lin) *Int { return want(s, i.sub(v.off)) })
}

func (r *Rep) confPorts(x *Exec, s0 *State, cfg, pkt *Node, w string) {
	np, _ := x.fieldOf(s0, pkt, "NumPorts")
	pt, ptt := x.fieldOf(s0, pkt, "PortTypes")
	if np == nil || pt == nil {
		r.check("port list", false, w, "packet fields missing")
		return
	}
	elT := elemType(ptt)
	num := x.nodeInt(s0, np)
	typ := func(s *State, i int64) *Int { return x.nodeInt(s, x.elem(s, pt, lc(i), elT)) }
	var cs []*Cond
	for i := int64(0); i < 4; i++ {
		cs = append(cs, leC(num, i))
	}
	for _, s := range split(s0.clone(), cs...) {
		for _, dir := range []struct {
			list, sw, good string
			bit            int
		}{{"OutputPorts", "SwOut", "GoodOutput", 7}, {"InputPorts", "SwIn", "GoodInput", 6}} {
			var bs []*Cond
			for i := int64(0); i < 4; i++ {
				if s.decide(leC(num, i)) == 0 {
					bs = append(bs, bitCond(typ(s, i), dir.bit))
				}
			}
			for _, t := range split(s.clone(), bs...) {
				var want []int64
				for i := int64(0); i < 4; i++ {
					if t.decide(leC(num, i)) == 0 && t.decide(bitCond(typ(t, i), dir.bit)) == 1 {
						want = append(want, i)
					}
				}
				why := r.portList(x, t, cfg, pkt, dir.list, dir.sw, dir.good, want, typ)
				r.check("port list", why == "", w, "%s for announced ports %v: %s", dir.list, want, why)
			}
		}
	}
}

func (r *Rep) portList(x *Exec, s *State, cfg, pkt *Node, list, sw, good string, want []int64, typ func(*State, int64) *Int) string {
	ln, _ := x.fieldOf(s, cfg, list)
	if ln == nil {
		return "no such field"
	}
	v, ok := x.toVal(s, ln).(*Slice)
	if !ok {
		if isNil(x.toVal(s, ln)) && len(want) == 0 {
			return ""
		}
		return "not a slice: " + clip(vkey(x.toVal(s, ln)), 60)
	}
	if !s.entailsEQ(v.len.plus(-int64(len(want)))) {
		return fmt.Sprintf("%d entries expected, length is %s", len(want), s.res(v.len).key())
	}
	if len(want) == 0 {
		return ""
	}
	if v.o.sym || v.o.glob {
		return "list lies in memory the call did not allocate"
	}
	arr, el := x.arrAt(s, v.o, v.p)
	if arr == nil {
		return "unknown content"
	}
	if v.el != nil {
		el = v.el
	}
	nsw, _ := x.fieldOf(s, pkt, "NetSwitch")
	ssw, _ := x.fieldOf(s, pkt, "SubSwitch")
	swn, swt := x.fieldOf(s, pkt, sw)
	gn, gt := x.fieldOf(s, pkt, good)
	for k, i := range want {
		e := x.elem(s, arr, v.off.plus(int64(k)), el)
		ad, _ := x.fieldOf(s, e, "Address")
		ty, _ := x.fieldOf(s, e, "Type")
		st, _ := x.fieldOf(s, e, "Status")
		if ad == nil || ty == nil || st == nil {
			return "port fields missing"
		}
		an, _ := x.fieldOf(s, ad, "Net")
		as, _ := x.fieldOf(s, ad, "SubUni")
		if !eqInts(s, x.nodeInt(s, ty), typ(s, i)) {
			return fmt.Sprintf("entry %d does not carry type %d", k, i)
		}
		if !eqInts(s, x.nodeInt(s, st), x.nodeInt(s, x.elem(s, gn, lc(i), elemType(gt)))) {
			return fmt.Sprintf("entry %d does not carry status %d", k, i)
		}
		if !eqInts(s, x.nodeInt(s, an), fromBits(bitsOf(x.nodeInt(s, nsw), 0, 7))) {
			return fmt.Sprintf("entry %d: net is not the 7-bit net switch", k)
		}
		swv := x.nodeInt(s, x.elem(s, swn, lc(i), elemType(swt)))
		if !eqInts(s, x.nodeInt(s, as), fromBits(bitsOf(swv, 0, 4), bitsOf(x.nodeInt(s, ssw), 0, 4))) {
			return fmt.Sprintf("entry %d: sub-universe is not sub-net and switch %d", k, i)
		}
	}
	return ""
}

func propC11(r *Rep) {
	r.desc = "ArtPollReplyFromConfig is interpreted on a configuration with all fields unknown and at most four ports per direction. On every returning path every field of the packet is compared with the configuration value it must announce (bit provenance; copied text and address bytes element by element up to the truncation limit, zero behind). The four port entries are examined one after the other, each time keeping only the path distinctions that concern that entry (the other entries are joined to unknown)."
	fn := lookupFn(r.p.root, "ArtPollReplyFromConfig")
	if fn == nil {
		r.check("function exists", false, "config.go", "ArtPollReplyFromConfig not found")
		return
	}
	w := r.fnPos(fn)
	r.trust = append(r.trust, "the configuration passed validation (at most four input and output ports; ports of equal index have equal protocols)")
	for k := int64(0); k < 4; k++ {
		x := r.p.newExec()
		s := x.entryState()
		x.entry = "ArtPollReplyFromConfig"
		args := x.symArgs(s, fn)
		cfg, ok := args[0].(*Node)
		if !ok {
			r.check("signature", false, w, "the configuration is not passed by value")
			return
		}
		lenOf := func(f string) *Lin {
			n, _ := x.fieldOf(s, cfg, f)
			return x.toVal(s, n).(*Slice).len
		}
		li, lo := lenOf("InputPorts"), lenOf("OutputPorts")
		s.addGE(lc(4).sub(li))
		s.addGE(lc(4).sub(lo))
		port := func(s *State, f string) *Node {
			n, _ := x.fieldOf(s, cfg, f)
			sl := x.toVal(s, n).(*Slice)
			arr, _ := x.arrAt(s, sl.o, sl.p)
			return x.elem(s, arr, sl.off.plus(k), sl.el)
		}
		ptype := func(s *State, f string) *Int {
			n, _ := x.fieldOf(s, port(s, f), "Type")
			return x.nodeInt(s, n)
		}
		has := func(s *State, l *Lin) int {
			switch {
			case s.entails(l.plus(-k - 1)):
				return 1
			case s.entails(lc(k).sub(l)):
				return 0
			}
			return 2
		}
		focusKey = func(s *State) string {
			key := fmt.Sprintf("%d%d%v%v", has(s, li), has(s, lo), s.entails(lo.sub(li)), s.entails(li.sub(lo).plus(-1)))
			for _, f := range []string{"InputPorts", "OutputPorts"} {
				t := ptype(s, f)
				for v := int64(0); v < 6; v++ {
					key += fmt.Sprint(s.decide(cmpConst(&Int{w: 8, bits: append(bitsOf(t, 0, 5), make([]Bit, 3)...)}, v)))
				}
			}
			for _, a := range sortedKeys(s.F.op) {
				key += fmt.Sprint(a, s.F.op[a])
			}
			return key
		}
		outs := x.runFn(s, fn, args, nil, nil)
		focusKey = nil
		r.absorb(x)
		if k == 0 {
			r.panics(x, "no panic")
		}
		n := 0
		for _, o := range outs {
			if o.pan {
				continue
			}
			n++
			p, ok := o.res.(*Ptr)
			if !ok {
				r.check("result is a packet", false, w, "result is %s", clip(vkey(o.res), 80))
				continue
			}
			r.check("packet is new", !p.o.sym && !p.o.glob, w, "the packet is not newly allocated")
			pkt := x.getFrom(o.s, p.o, p.p)
			if k == 0 {
				r.announce(x, o.s, cfg, pkt, w)
			}
			r.announcePort(x, o.s, cfg, pkt, k, li, lo, w)
		}
		r.check("function returns", n > 0, w, "no returning path")
	}
	r.atLeast("announced field", 20, w)
	r.atLeast("announced port", 16, w)
}

func (r *Rep) announce(x *Exec, s *State, cfg, pkt *Node, w string) {
	num := func(pf, cf string) {
		a, _ := x.fieldOf(s, cfg, cf)
		b, _ := x.fieldOf(s, pkt, pf)
		ok := a != nil && b != nil && eqInts(s, x.nodeInt(s, a), x.nodeInt(s, b))
		r.check("announced field", ok, w, "the reply's %s is not the configured %s", pf, cf)
	}
	num("Oem", "OEM")
	num("VersionInfo", "Version")
	num("UBEAVersion", "BiosVersion")
	num("Style", "Type")
	num("BindIndex", "BindIndex")
	num("Status1", "Status1")
	num("Status2", "Status2")
	base, _ := x.fieldOf(s, cfg, "BaseAddress")
	bn, _ := x.fieldOf(s, base, "Net")
	bs, _ := x.fieldOf(s, base, "SubUni")
	pn, _ := x.fieldOf(s, pkt, "NetSwitch")
	ps, _ := x.fieldOf(s, pkt, "SubSwitch")
	r.check("announced field", pn != nil && eqInts(s, x.nodeInt(s, bn), x.nodeInt(s, pn)), w, "NetSwitch is not the configured net")
	r.check("announced field", ps != nil && eqInts(s, fromBits(bitsOf(x.nodeInt(s, bs), 4, 8)), x.nodeInt(s, ps)), w, "SubSwitch is not the configured sub-net")
	// names, addresses
	bytesOf := func(pf string, limit int64, src []Seg, n *Lin) {
		b, bt := x.fieldOf(s, pkt, pf)
		ok := false
		if b != nil {
			at := bt.Underlying().(*types.Array)
			ok = x.padded(s, b, at.Elem(), at.Len(), limit, src, n)
		}
		r.check("announced bytes", ok, w, "the reply's %s is not the configured value, cut to %d and zero behind", pf, limit)
	}
	for _, f := range []struct {
		pf, cf string
		n      int64
	}{{"ShortName", "Name", 17}, {"LongName", "Description", 63}, {"ESTAmanufacturer", "Manufacturer", 2}} {
		c, _ := x.fieldOf(s, cfg, f.cf)
		str := x.toVal(s, c).(*Str)
		segs, ok := x.strSegs(s, str)
		if !ok {
			r.check("announced bytes", false, w, "%s: content of the configured text unknown", f.pf)
			continue
		}
		bytesOf(f.pf, f.n, segs, segsLen(segs))
	}
	for _, f := range []struct {
		pf, cf string
		n      int64
	}{{"NodeReport", "Report", 64}, {"Macaddress", "Ethernet", 6}} {
		c, _ := x.fieldOf(s, cfg, f.cf)
		v := x.toVal(s, c).(*Slice)
		bytesOf(f.pf, f.n, x.sliceSegs(s, v), v.len)
	}
	for _, f := range []struct{ pf, cf string }{{"IPAddress", "IP"}, {"BindIP", "BindIP"}} {
		c, _ := x.fieldOf(s, cfg, f.cf)
		v := x.toVal(s, c).(*Slice)
		r.checkIP4(x, s, pkt, f.pf, v, w)
	}
}

func segsLen(segs []Seg) *Lin {
	if len(segs) == 0 {
		return lc(0)
	}
	return segs[len(segs)-1].hi
}

func (x *Exec) sliceSegs(s *State, v *Slice) []Seg {
	arr, _ := x.arrAt(s, v.o, v.p)
	if arr == nil {
		return nil
	}
	g, ok := x.rangeSegs(s, arr, v.off, v.off.add(v.len, 1))
	if !ok {
		return nil
	}
	return shiftSegs(s, g, v.off.scale(-1))
}

// padded: dst (size n) holds min(len, limit) elements of src and zero behind.
func (x *Exec) padded(s0 *State, dst *Node, el types.Type, size, limit int64, src []Seg, ln *Lin) bool {
	if src == nil && !(ln.isConst() && ln.c == 0) {
		return false
	}
	sn := &Node{k: nArr, t: types.NewSlice(el), segs: src}
	long := &Cond{k: cLE, a: mkInt(64, true, limit), b: intLin(ln, 64, true)}
	for _, s := range split(s0.clone(), long) {
		m := ln
		if s.decide(long) == 1 {
			m = lc(limit)
		}
		s.resolveMins()
		st := s.clone()
		// element i, for i below and above m
		if !x.arrayEq(st, dst, el, lc(0), m, func(s *State, i *Lin) *Int { return x.nodeInt(s, x.elem(s, sn, i, el)) }) {
			// a short copy of unknown length: case by case
			ok := true
			if !(s.decide(long) == 1) {
				for v := int64(0); v <= limit && ok; v++ {
					u := s.clone()
					if !u.addEQ(ln.plus(-v)) {
						continue
					}
					ok = x.arrayEq(u, dst, el, lc(0), lc(v), func(s *State, i *Lin) *Int { return x.nodeInt(s, x.elem(s, sn, i, el)) }) &&
						x.arrayEq(u, dst, el, lc(v), lc(size), func(s *State, i *Lin) *Int { return mkInt(8, false, 0) })
				}
			} else {
				ok = false
			}
			if !ok {
				return false
			}
			continue
		}
		if !x.arrayEq(st, dst, el, m, lc(size), func(s *State, i *Lin) *Int { return mkInt(8, false, 0) }) {
			return false
		}
	}
	return true
}

// checkIP4: the field holds the IPv4 form of the configured address, or zero.
func (r *Rep) checkIP4(x *Exec, s *State, pkt *Node, pf string, ip *Slice, w string) {
	b, bt := x.fieldOf(s, pkt, pf)
	at := bt.Underlying().(*types.Array)
	ok := true
	for _, o := range x.to4(s.clone(), ip, types.NewSlice(types.Typ[types.Uint8])) {
		v, isS := o.res.(*Slice)
		switch {
		case !isS:
			ok = false
		case v.o == nilObj || o.s.decide(nilCond(v)) == 1:
			ok = ok && x.arrayEq(o.s, b, at.Elem(), lc(0), lc(4), func(s *State, i *Lin) *Int { return mkInt(8, false, 0) })
		default:
			arr, _ := x.arrAt(o.s, v.o, v.p)
			ok = ok && arr != nil && x.arrayEq(o.s, b, at.Elem(), lc(0), lc(4), func(s *State, i *Lin) *Int { return x.nodeInt(s, x.elem(s, arr, i.add(v.off, 1), v.el)) })
		}
	}
	r.check("announced bytes", ok, w, "the reply's %s is not the IPv4 form of the configured address", pf)
}

func (r *Rep) announcePort(x *Exec, s0 *State, cfg, pkt *Node, k int64, li, lo *Lin, w string) {
	hasIn := &Cond{k: cLE, a: mkInt(64, true, k+1), b: intLin(li, 64, true)}
	hasOut := &Cond{k: cLE, a: mkInt(64, true, k+1), b: intLin(lo, 64, true)}
	more := &Cond{k: cLE, a: intLin(lo, 64, true), b: intLin(li, 64, true)}
	port := func(s *State, f string) *Node {
		n, _ := x.fieldOf(s, cfg, f)
		sl := x.toVal(s, n).(*Slice)
		arr, _ := x.arrAt(s, sl.o, sl.p)
		return x.elem(s, arr, sl.off.plus(k), sl.el)
	}
	sub := func(s *State, n *Node, fs ...string) *Int {
		for _, f := range fs {
			if n, _ = x.fieldOf(s, n, f); n == nil {
				return nil
			}
		}
		return x.nodeInt(s, n)
	}
	entry := func(s *State, f string) *Int {
		n, t := x.fieldOf(s, pkt, f)
		return x.nodeInt(s, x.elem(s, n, lc(k), elemType(t)))
	}
	zero := mkInt(8, false, 0)
	for _, s := range split(s0.clone(), hasIn, hasOut, more) {
		np, _ := x.fieldOf(s, pkt, "NumPorts")
		n := lo
		if s.decide(more) == 1 {
			n = li
		}
		npi := x.nodeInt(s, np)
		r.check("number of ports", npi != nil && s.entailsEQ(npi.linear().sub(n)), w, "NumPorts is not the larger of the input and output counts")
		in, out := s.decide(hasIn) == 1, s.decide(hasOut) == 1
		for _, d := range []struct {
			has          bool
			list, sw, gd string
		}{{in, "InputPorts", "SwIn", "GoodInput"}, {out, "OutputPorts", "SwOut", "GoodOutput"}} {
			wantSw, wantGd := zero, zero
			if d.has {
				p := port(s, d.list)
				wantSw = fromBits(bitsOf(sub(s, p, "Address", "SubUni"), 0, 4))
				wantGd = sub(s, p, "Status")
			}
			r.check("announced port", eqInts(s, entry(s, d.sw), wantSw), w, "%s[%d] is not the low nibble of the port's universe (zero if unused)", d.sw, k)
			r.check("announced port", eqInts(s, entry(s, d.gd), wantGd), w, "%s[%d] is not the port's status (zero if unused)", d.gd, k)
		}
		pt := entry(s, "PortTypes")
		if pt == nil {
			r.check("announced port", false, w, "PortTypes[%d] unknown", k)
			continue
		}
		one := []Bit{{k: 1}}
		nul := []Bit{{}}
		flag := func(b bool) []Bit {
			if b {
				return one
			}
			return nul
		}
		if !in && !out {
			r.check("announced port", eqInts(s, pt, zero), w, "PortTypes[%d] is not zero for an unused port", k)
			continue
		}
		// protocol: only the documented ones, and equal in both directions
		for v := int64(0); v < 6; v++ {
			t := s.clone()
			ok := true
			for _, d := range []struct {
				has  bool
				list string
			}{{in, "InputPorts"}, {out, "OutputPorts"}} {
				if d.has {
					ty := sub(t, port(t, d.list), "Type")
					ok = ok && t.assume(cmpConst(&Int{w: 8, bits: append(bitsOf(ty, 0, 5), make([]Bit, 3)...)}, v), true)
				}
			}
			if !ok {
				continue
			}
			want := fromBits(bitsOf(mkInt(8, false, v), 0, 5), nul, flag(in), flag(out))
			r.check("announced port", eqInts(t, pt, want), w, "PortTypes[%d] does not carry direction bits (input %v, output %v) and protocol %d", k, in, out, v)
		}
	}
}
