package main

import (
	"go/types"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------------------
// The parts of the registry
// ---------------------------------------------------------------------------

// shape names the parts of the registry; unexported ones are found by type.
type shape struct {
	cn, buf          *types.Named
	bufs             string // ControlledNode: map of buffers
	seq, addr, conf  string // ControlledNode: sequence, UDP address, configuration
	seen             string // ControlledNode: time of the last reply
	data, flag, when string // buffer: content, new data, time of last sending
	bufMap           *types.Map
	list, out, inp   string // Controller: fields
	why              string
}

func (w *World) shape() *shape {
	sh := &shape{cn: w.rootType("ControlledNode")}
	c := w.rootType("Controller")
	if sh.cn == nil || c == nil {
		sh.why = "no type ControlledNode"
		return sh
	}
	one := func(t types.Type, pref string, is func(t types.Type) bool) string {
		st, ok := t.Underlying().(*types.Struct)
		if !ok {
			return ""
		}
		var hits []string
		for i := 0; i < st.NumFields(); i++ {
			if is(st.Field(i).Type()) {
				if st.Field(i).Name() == pref {
					return pref
				}
				hits = append(hits, st.Field(i).Name())
			}
		}
		if len(hits) == 1 {
			return hits[0]
		}
		if sh.why == "" {
			sh.why = "cannot tell which field of " + short(typeName(t)) + " is " + pref
		}
		return ""
	}
	isNamed := func(name string) func(t types.Type) bool {
		return func(t types.Type) bool { return typeName(types.Unalias(t)) == name }
	}
	is512 := func(t types.Type) bool {
		a, ok := t.Underlying().(*types.Array)
		if !ok || a.Len() != 512 {
			return false
		}
		b, ok := a.Elem().Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	}
	sh.bufs = one(sh.cn, "DMXBuffer", func(t types.Type) bool {
		m, ok := t.Underlying().(*types.Map)
		if !ok {
			return false
		}
		n, ok := types.Unalias(derefType(m.Elem())).(*types.Named)
		if !ok {
			return false
		}
		st, ok := n.Underlying().(*types.Struct)
		if !ok {
			return false
		}
		for i := 0; i < st.NumFields(); i++ {
			if is512(st.Field(i).Type()) {
				sh.buf, sh.bufMap = n, m
				return true
			}
		}
		return false
	})
	sh.seq = one(sh.cn, "Sequence", func(t types.Type) bool {
		b, ok := t.Underlying().(*types.Basic)
		return ok && b.Kind() == types.Uint8
	})
	sh.addr = one(sh.cn, "UDPAddress", func(t types.Type) bool { return isNamed("net.UDPAddr")(derefType(t)) })
	sh.conf = one(sh.cn, "Node", isNamed(typeName(w.rootType("NodeConfig"))))
	sh.seen = one(sh.cn, "LastSeen", isTime)
	if sh.buf != nil {
		sh.data = one(sh.buf, "Data", is512)
		sh.flag = one(sh.buf, "Stale", isBoolT)
		sh.when = one(sh.buf, "LastUpdate", isTime)
	}
	l, ts := w.registryFields()
	_, sh.list, _ = strings.Cut(strings.TrimPrefix(l, modulePath), ".")
	for _, t := range ts {
		n := t[strings.LastIndex(t, ".")+1:]
		switch n {
		case "OutputAddress":
			sh.out = n
		case "InputAddress":
			sh.inp = n
		}
	}
	if i := strings.LastIndex(l, "."); i >= 0 {
		sh.list = l[i+1:]
	}
	if sh.why == "" && (sh.list == "" || sh.out == "" || sh.inp == "") {
		sh.why = "the controller has no list of nodes, output table or input table"
	}
	return sh
}

func (w *World) isOutTable(v *Ev, sh *shape) bool {
	return strings.HasSuffix(w.isTable(v), "."+sh.out)
}

// slot is one possibility for what a map of pointers has for a key.
type slot struct {
	s *State
	p *Ptr // nil: no entry, or a nil one
}

// lookupPtr reads a map of pointers.
func (w *World) lookupPtr(s *State, mn *Node, mt *types.Map, key Value) []slot {
	x := w.x
	x.quiet++
	defer func() { x.quiet-- }()
	s = s.clone()
	if mn == nil {
		return []slot{{s, nil}}
	}
	m, ok := x.toVal(s, mn).(*MapV)
	if !ok {
		return []slot{{s, nil}}
	}
	var r []slot
	for _, h := range x.mapGet(s, m, mt, key) {
		no := h.s.clone()
		if no.assume(h.ok, false) {
			r = append(r, slot{no, nil})
		}
		if h.val == nil || !h.s.assume(h.ok, true) {
			continue
		}
		v := x.toVal(h.s, h.val)
		p, ok := v.(*Ptr)
		if !ok {
			r = append(r, slot{h.s, nil})
			continue
		}
		no = h.s.clone()
		if no.assume(nilCond(p), true) {
			r = append(r, slot{no, nil})
		}
		if h.s.assume(nilCond(p), false) {
			r = append(r, slot{h.s, p})
		}
	}
	return r
}

// bufOf: the buffer a node has for an address.
func (w *World) bufOf(s *State, sh *shape, cn *Ptr, key Value) []slot {
	n, _ := w.x.field(s, cn, sh.bufs)
	return w.lookupPtr(s, n, sh.bufMap, key)
}

// existed: the object was there in that state.
func existed(s *State, o *Obj) bool {
	if o.sym {
		return true
	}
	_, ok := s.heap[o]
	return ok
}

// boolOf reads a boolean: 1, 0 or unknown.
func (w *World) boolOf(s *State, n *Node) *Cond {
	if n == nil {
		return nil
	}
	c, _ := w.x.toVal(s, n).(*Cond)
	return c
}

// bufPre: flag and time of a buffer in an earlier state.
func (w *World) bufPre(s *State, sh *shape, b *Ptr) (flag *Cond, when *Int) {
	if b == nil || !existed(s, b.o) {
		return cFalse, mkInt(64, true, 0)
	}
	f, _ := w.x.field(s, b, sh.flag)
	t, _ := w.x.field(s, b, sh.when)
	return w.boolOf(s, f), w.x.nodeInt(s, t)
}

// ---------------------------------------------------------------------------
// Visits of the output table
// ---------------------------------------------------------------------------

// visit is one way to treat one universe during a pass over the output table.
type visit struct {
	e     *Entry
	t     *Trace
	nx    *Ev // the step of the iteration
	evs   []*Ev
	end   *State
	key   Value
	cn    *Ptr
	sends []*delivery // ArtDMX handed to the sender
	early bool        // ends the pass
}

func (w *World) visits(sh *shape, chans map[string]bool) []*visit {
	var r []*visit
	for _, e := range w.entries {
		for _, t := range w.traces(e) {
			for i, v := range t.evs {
				if v.k != "next" || !w.isOutTable(v, sh) || len(v.args) != 2 {
					continue
				}
				vi := &visit{e: e, t: t, nx: v, key: v.args[0], end: t.end, early: t.loop == nil || !passes(t.loop, v)}
				vi.cn, _ = v.args[1].(*Ptr)
				for _, u := range t.evs[i+1:] {
					if (u.k == "next" || u.k == "next-done") && u.ch != nil && vkey(u.ch) == vkey(v.ch) {
						vi.end = w.evState(u)
						vi.early = false
						break
					}
					vi.evs = append(vi.evs, u)
				}
				for _, u := range vi.evs {
					for _, y := range allEvents([]*Ev{u}) {
						d := w.delivered(y, chans)
						if d == nil {
							continue
						}
						vi.sends = append(vi.sends, d)
						if y != u { // in an inner loop: any number
							vi.sends = append(vi.sends, d)
						}
					}
				}
				r = append(r, vi)
			}
		}
	}
	return r
}

// passes: the step of the iteration belongs to this very loop.
func passes(l *LoopInfo, v *Ev) bool {
	return v.instr == nil || l.head == v.instr.Block() || v.instr.Parent() == l.fn && blockIn(l, v)
}

func blockIn(l *LoopInfo, v *Ev) bool {
	for _, a := range l.alts {
		for _, u := range a.evs {
			if u.instr == v.instr && u.k == "next" {
				return true
			}
		}
	}
	return false
}

// times lists the readings of the clock after an event (and its own value, if
// it is a time received from a ticker).
func (w *World) times(s *State, tick *Ev) []*Int {
	var r []*Int
	if tick != nil {
		if i, ok := tick.res.(*Int); ok {
			r = append(r, i)
		}
	}
	if n, ok := s.heap[clockObj]; ok {
		if i, ok := n.v.(*Int); ok {
			r = append(r, i)
		}
	}
	return r
}

func atomSerial(name string) int {
	i := strings.LastIndex(name, "#")
	if i < 0 {
		return -1
	}
	n, err := strconv.Atoi(name[i+1:])
	if err != nil {
		return -1
	}
	return n
}

// ---------------------------------------------------------------------------
// Passes
// ---------------------------------------------------------------------------

// dmxWorld is what the ArtDMX properties look at.
type dmxWorld struct {
	w      *World
	r      *Rep
	sh     *shape
	chans  map[string]bool
	visits []*visit
	tick   map[*visit]*Ev
}

func (r *Rep) dmx() *dmxWorld {
	w := r.world()
	d := &dmxWorld{w: w, r: r, sh: w.shape(), tick: map[*visit]*Ev{}}
	if !r.check("registry", d.sh.why == "", "controller.go", "%s", d.sh.why) {
		return nil
	}
	d.chans = w.sendChans()
	if !r.check("sender", len(d.chans) > 0, "node.go", "nothing is written to the socket") {
		return nil
	}
	d.visits = w.visits(d.sh, d.chans)
	return d
}

// isPass: iterations of the loop step through the output table.
func (d *dmxWorld) isPass(l *LoopInfo) bool {
	for _, a := range l.alts {
		for _, v := range a.evs {
			if v.k == "next" && d.w.isOutTable(v, d.sh) && passes(l, v) {
				return true
			}
		}
	}
	return false
}

// isDMX: an event hands an ArtDMX datagram, or bytes that are not known to be
// the encoding of another packet, to the sender.
func (d *dmxWorld) isDMX(v *Ev) (dl *delivery, en *Ev) {
	dl = d.w.delivered(v, d.chans)
	if dl == nil {
		return nil, nil
	}
	en = d.w.encoded(dl)
	if en != nil && en.name != "ArtDMXPacket" {
		return nil, nil
	}
	return dl, en
}

// walk goes through an entry in order, knowing the tick that was last
// received and whether a pass that sends took place since.
func (d *dmxWorld) walk(e *Entry, sending bool) {
	w, r := d.w, d.r
	byLoop := map[*LoopInfo][]*visit{}
	byEv := map[*Ev]*visit{}
	for _, vi := range d.visits {
		if vi.e != e {
			continue
		}
		if vi.t.loop != nil && passes(vi.t.loop, vi.nx) {
			byLoop[vi.t.loop] = append(byLoop[vi.t.loop], vi)
		}
		byEv[vi.nx] = vi
	}
	type ctx struct {
		tick *Ev
		used bool
	}
	var visit func(evs []*Ev, c ctx, depth int)
	visit = func(evs []*Ev, c ctx, depth int) {
		var cur *visitRef
		forward := false
		for _, v := range evs {
			if _, ok := received(v); ok && v.ch != nil && !w.isStop(v) {
				c = ctx{w.tickerOf(v), false}
				if c.tick != nil {
					c.tick = v
				}
				cur = nil
				forward = d.chans[w.chanName(v, v.ch)]
			}
			if v.k == "next" && w.isOutTable(v, d.sh) {
				cur = &visitRef{byEv[v]}
				if cur.v != nil && c.tick != nil {
					d.tick[cur.v] = c.tick
				}
			}
			if v.k == "next-done" {
				cur = nil
			}
			if v.loop != nil && depth < 6 {
				if d.isPass(v.loop) {
					sends := false
					for _, vi := range byLoop[v.loop] {
						if c.tick != nil {
							d.tick[vi] = c.tick
						}
						sends = sends || len(vi.sends) > 0
					}
					if sends {
						r.check("a universe is sent once per tick", !c.used, evPos(w, v), "%s goes through the universes again without waiting for a tick", w.baseName(e.name))
						r.check("DMX is sent at ticks only", c.tick != nil, evPos(w, v), "%s sends without waiting for a tick", w.baseName(e.name))
						c.used = true
					}
					for _, a := range v.loop.alts {
						visit(a.evs, ctx{c.tick, false}, depth+1)
					}
				} else {
					for _, a := range v.loop.alts {
						visit(a.evs, ctx{}, depth+1)
					}
				}
			}
			dl, _ := d.isDMX(v)
			if dl == nil || v.k == "write" && forward {
				continue
			}
			r.check("DMX is sent at ticks only", c.tick != nil && cur != nil, evPos(w, v), "%s sends data outside of a pass over the universes at a tick", w.baseName(e.name))
		}
	}
	done := map[*LoopInfo]bool{}
	for _, o := range e.outs {
		evs := events(nil, o.s.tr)
		for _, v := range allEvents(evs) {
			if v.loop != nil {
				done[v.loop] = true
			}
		}
		visit(evs, ctx{}, 0)
	}
	for _, l := range w.x.loops[e.name] {
		if !done[l] {
			for _, v := range allEvents(altEvents(l)) {
				if v.loop != nil {
					done[v.loop] = true
				}
			}
		}
	}
	for _, l := range w.x.loops[e.name] {
		if !done[l] {
			for _, a := range l.alts {
				visit(a.evs, ctx{}, 0)
			}
		}
	}
}

type visitRef struct{ v *visit }

func altEvents(l *LoopInfo) []*Ev {
	var r []*Ev
	for _, a := range l.alts {
		r = append(r, a.evs...)
	}
	return r
}

// ---------------------------------------------------------------------------
// C20
// ---------------------------------------------------------------------------

func propC20(r *Rep) {
	r.desc = "every path of SendDMXToAddress: the buffer the output table and its node have for the given address must hold the given array and be marked afterwards, no other buffer may be written, and without an entry in the table nothing may happen; every path through a pass over the output table: an ArtDMX datagram handed to the sender must be the unmodified encoding of a packet with the universe of the entry and the content of its node's buffer for it, and go to the node's address, which every registration must set to its IP and port 6454"
	d := r.dmx()
	if d == nil {
		return
	}
	d.stores()
	byField := d.sends()
	if byField {
		d.addresses()
	}
	w := d.w
	w.sender(r, "Controller", d.chans)
	w.wireChanged(r, "bytes stay as encoded")
	r.onlyFor(propC05, "ArtDMXPacket")
	r.sub(propC10, func(rule string) bool { return true })
}

// stores: SendDMXToAddress and whatever else writes to buffers.
func (d *dmxWorld) stores() {
	w, r, sh, x := d.w, d.r, d.sh, d.w.x
	const rule = "data is stored in the buffer of its address"
	e := w.entry("Controller.SendDMXToAddress")
	if !r.check(rule, e != nil && len(e.args) == 3, "controller.go", "there is no SendDMXToAddress(data, address)") {
		return
	}
	var data *Node
	var key Value
	for _, a := range e.args[1:] {
		n, ok := a.(*Node)
		if !ok {
			continue
		}
		if isArrT(n.t) {
			data = n
		} else {
			key = n
		}
	}
	c, _ := e.recv.(*Ptr)
	if !r.check(rule, data != nil && key != nil && c != nil, "controller.go", "SendDMXToAddress has other parameters") {
		return
	}
	bufT := typeName(sh.buf)
	known, unknown := 0, 0
	for _, t := range w.traces(e) {
		at := r.fnPos(e.fn)
		if t.loop != nil {
			for _, v := range t.evs {
				if _, ok := sent(v); ok {
					r.check(rule, false, evPos(w, v), "SendDMXToAddress sends in a loop")
				}
			}
		}
		// its own writes
		for _, v := range t.evs {
			if v.k == "store" && v.ptr != nil && typeName(v.ptr.o.t) == bufT {
				own := false
				for _, cs := range w.tableEntry(w.evState(v), sh, c, sh.out, key) {
					if cs.p == nil {
						continue
					}
					for _, b := range w.bufOf(cs.s, sh, cs.p, key) {
						own = own || b.p != nil && b.p.o == v.ptr.o
					}
				}
				r.check(rule, own, evPos(w, v), "SendDMXToAddress writes to a buffer that is not that of the address")
				if _, f, ok := ptrField(v.ptr); ok {
					r.check(rule, f != sh.when, evPos(w, v), "SendDMXToAddress changes the time of the last sending")
				}
			}
			dl, _ := d.isDMX(v)
			r.check("data is sent at ticks only", dl == nil, evPos(w, v), "SendDMXToAddress sends data itself")
			r.check("SendDMXToAddress leaves the registry alone", !w.changesRegistry(v) || v.k == "store" && typeName(v.ptr.o.t) == bufT, evPos(w, v), "SendDMXToAddress changes the registry")
		}
		if t.loop != nil || t.pan {
			continue
		}
		for _, cs := range w.tableEntry(t.end, sh, c, sh.out, key) {
			if cs.p == nil {
				unknown++
				for _, v := range t.evs {
					bad := v.k == "mapset" || v.k == "mapdel" || v.k == "mapclear" || v.k == "append" || v.k == "go" || v.k == "store" && v.ptr != nil && (typeName(v.ptr.o.t) == bufT || typeName(v.ptr.o.t) == typeName(sh.cn))
					_, snd := sent(v)
					r.check("nothing happens for an unknown address", !bad && !snd, evPos(w, v), "something is stored or sent for an unknown address")
				}
				continue
			}
			for _, b := range w.bufOf(cs.s, sh, cs.p, key) {
				if b.p == nil {
					continue // C22: every routable universe has a buffer
				}
				known++
				dn, _ := x.field(b.s, b.p, sh.data)
				r.check(rule, dn != nil && x.sameArr(b.s, dn, data), at, "the buffer of the address does not hold the data after the call")
				fl, _ := x.field(b.s, b.p, sh.flag)
				fc := w.boolOf(b.s, fl)
				r.check("data is marked for sending", fc != nil && b.s.decide(fc) == 1, at, "the buffer of the address is not marked after the call")
			}
		}
	}
	r.check(rule, known > 0, r.fnPos(e.fn), "no path stores the data")
	r.check("nothing happens for an unknown address", unknown > 0, r.fnPos(e.fn), "no path for an unknown address")
	// other writers
	for _, o := range w.entries {
		if o == e {
			continue
		}
		for _, t := range w.traces(o) {
			for _, v := range t.evs {
				if v.k != "store" || v.ptr == nil || v.ptr.o.t == nil || typeName(v.ptr.o.t) != bufT {
					continue
				}
				_, f, ok := ptrField(v.ptr)
				r.check("only SendDMXToAddress changes data", ok && f != sh.data, evPos(w, v), "%s writes to the data of a buffer", w.baseName(o.name))
			}
		}
	}
}

// tableEntry: what a table of the controller has for an address.
func (w *World) tableEntry(s *State, sh *shape, c *Ptr, field string, key Value) []slot {
	n, ft := w.x.field(s, c, field)
	mt, ok := ft.Underlying().(*types.Map)
	if !ok {
		return nil
	}
	return w.lookupPtr(s, n, mt, key)
}

// sends: the ArtDMX datagrams of a pass; it reports whether the destination is
// taken from the address field of the node.
func (d *dmxWorld) sends() (byField bool) {
	w, r, sh, x := d.w, d.r, d.sh, d.w.x
	n := 0
	in := map[*Ev]bool{}
	for _, vi := range d.visits {
		for _, dl := range vi.sends {
			in[dl.v] = true
			n++
			at := evPos(w, dl.v)
			nm := w.baseName(vi.e.name)
			en := w.encoded(dl)
			if !r.check("what is sent is an encoded ArtDMX packet", en != nil && en.name == "ArtDMXPacket" && en.node != nil, at, "%s sends something that is not the unmodified encoding of an ArtDMX packet", nm) {
				continue
			}
			if !r.check("registered nodes", vi.cn != nil, at, "the output table holds no node") {
				continue
			}
			es := w.evState(en)
			key, _ := vi.key.(*Node)
			for _, f := range []string{"SubUni", "Net"} {
				a, _ := x.fieldOf(es, en.node, f)
				b, _ := x.fieldOf(es, key, f)
				r.check("the packet names the universe", a != nil && b != nil && eqInts(es, x.nodeInt(es, a), x.nodeInt(es, b)), evPos(w, en), "%s: %s of the packet is not that of the universe", nm, f)
			}
			dn, _ := x.fieldOf(es, en.node, "Data")
			for _, b := range w.bufOf(es, sh, vi.cn, vi.key) {
				if b.p == nil {
					r.check("the packet carries the buffer of the universe", dn != nil && dn.k == nZero, evPos(w, en), "%s sends data for a universe without buffer", nm)
					continue
				}
				bn, _ := x.field(b.s, b.p, sh.data)
				r.check("the packet carries the buffer of the universe", dn != nil && bn != nil && x.sameArr(w.evState(en), dn, bn), evPos(w, en), "%s: the data of the packet is not the content of the universe's buffer", nm)
			}
			// destination
			s := w.evState(dl.v)
			an, at2 := x.field(s, vi.cn, sh.addr)
			if p, ok := at2.Underlying().(*types.Pointer); ok && an != nil {
				if q, ok := x.toVal(s, an).(*Ptr); ok {
					an, at2 = x.getFrom(s, q.o, q.p), p.Elem()
				}
			}
			if dl.addr != nil && an != nil && x.normKey(s, dl.addr) == x.normKey(s, an) {
				byField = true
				continue
			}
			cf, _ := x.field(s, vi.cn, sh.conf)
			r.check("DMX goes to the node of the universe", dl.addr != nil && w.isNodeAddr(s, dl.addr, cf), at, "%s: the datagram does not go to the IP address and port 6454 of the node of the universe", nm)
		}
	}
	for _, e := range w.entries {
		for _, t := range w.traces(e) {
			fwd := false
			for _, v := range t.evs {
				if _, ok := received(v); ok && v.ch != nil && d.chans[w.chanName(v, v.ch)] {
					fwd = true
				}
				dl, _ := d.isDMX(v)
				if dl == nil || v.k == "write" && fwd {
					continue
				}
				r.check("what is sent belongs to a universe", in[v], evPos(w, v), "%s sends data outside of a pass over the universes", w.baseName(e.name))
			}
		}
	}
	r.check("what is sent is an encoded ArtDMX packet", n > 0, "controller.go", "no ArtDMX datagrams are sent")
	return
}

// isNodeAddr: the address is the IP of the configuration and port 6454.
func (w *World) isNodeAddr(s *State, a, cf *Node) bool { return w.isNodeAddr2(s, a, cf, nil) }

// isNodeAddr2 accepts the port and zone it had before.
func (w *World) isNodeAddr2(s *State, a, cf, pre *Node) bool {
	x := w.x
	if a == nil || cf == nil {
		return false
	}
	ipn, _ := x.fieldOf(s, a, "IP")
	pn, _ := x.fieldOf(s, a, "Port")
	zn, _ := x.fieldOf(s, a, "Zone")
	cn, _ := x.fieldOf(s, cf, "IP")
	if ipn == nil || pn == nil || cn == nil {
		return false
	}
	same := func(f string, n *Node) bool {
		if pre == nil {
			return false
		}
		o, _ := x.fieldOf(s, pre, f)
		return o != nil && x.normKey(s, o) == x.normKey(s, n)
	}
	if p := x.nodeInt(s, pn); p == nil || s.decide(cmpConst(p, artNetPort)) != 1 && !same("Port", pn) {
		return false
	}
	if z, ok := x.toVal(s, zn).(*Str); ok {
		if l, ok := z.lit(); (!ok || l != "") && !same("Zone", zn) {
			return false
		}
	}
	return w.sameIP(s, x.toVal(s, ipn), x.toVal(s, cn))
}

// sameIP: two addresses are equal byte for byte.
func (w *World) sameIP(s *State, a, b Value) bool {
	x := w.x
	ka, kb := x.sliceKey(s, a), x.sliceKey(s, b)
	if ka == kb {
		return true
	}
	if s.decide(eqKey("eqip", ka, kb)) == 1 || s.decide(eqKey("eqbytes", vkey(a), vkey(b))) == 1 {
		return true
	}
	sa, _, ok1 := x.contentOf(s, a)
	sb, _, ok2 := x.contentOf(s, b)
	return ok1 && ok2 && s.decide(eqBytes(sa, sb)) == 1
}

// addresses: registration keeps the address field of a node right.
func (d *dmxWorld) addresses() {
	w, r, sh, x := d.w, d.r, d.sh, d.w.x
	const rule = "the address of a node is its IP and port 6454"
	cnT := typeName(sh.cn)
	n := 0
	addr := func(s *State, cn *Ptr) *Node {
		an, _ := x.field(s, cn, sh.addr)
		if an != nil {
			if q, ok := x.toVal(s, an).(*Ptr); ok {
				an = x.getFrom(s, q.o, q.p)
			}
		}
		return an
	}
	good := func(s *State, cn *Ptr, pre *Node) bool {
		cf, _ := x.field(s, cn, sh.conf)
		return w.isNodeAddr2(s, addr(s, cn), cf, pre)
	}
	for _, e := range w.entries {
		for _, t := range w.traces(e) {
			for _, v := range t.evs {
				s := w.evState(v)
				switch {
				case v.k == "mapset" && w.isTable(v) != "" && v.node != nil:
					cn, _ := x.toVal(s, v.node).(*Ptr)
					if cn == nil || cn.o.sym {
						continue
					}
					n++
					r.check(rule, good(s, cn, nil), evPos(w, v), "%s registers a node whose address is not its IP and port 6454", w.baseName(e.name))
				case v.k == "store" && v.ptr != nil && v.ptr.o.t != nil && typeName(v.ptr.o.t) == cnT:
					_, f, ok := ptrField(v.ptr)
					if ok && f != sh.conf && f != sh.addr {
						continue
					}
					n++
					cn := &Ptr{o: v.ptr.o, t: v.ptr.o.t}
					if ok && f == sh.conf && v.old != nil && v.node != nil {
						a, _ := x.fieldOf(s, v.old, "IP")
						b, _ := x.fieldOf(s, v.node, "IP")
						if a != nil && b != nil && w.sameIP(s, x.toVal(s, a), x.toVal(s, b)) {
							r.check(rule, true, "", "")
							continue
						}
					}
					r.check(rule, good(t.end, cn, addr(s, cn)), evPos(w, v), "%s changes a node whose address may then not be its IP and port 6454", w.baseName(e.name))
				}
			}
		}
	}
	r.check(rule, n >= 2, "controller.go", "no registration of nodes was found")
}

// ---------------------------------------------------------------------------
// C21
// ---------------------------------------------------------------------------

func propC21(r *Rep) {
	r.desc = "every path through a pass over the output table, and every wait that leads to one: a pass follows the receipt from a ticker, covers the table to its end unless stopped and takes place once per tick; the facts on a path that sends nothing must exclude new data older than the refresh interval and a last sending more than 250 ms ago, those on a path that sends must exclude old data sent less than 250 ms ago; a path sends at most once, and then clears the mark and notes the time, under one lock from reading the data on; other paths leave both alone; the sequence number of the packet is the successor of the node's in 1..255 and becomes the node's"
	d := r.dmx()
	if d == nil {
		return
	}
	w := d.w
	ls := w.launched("Controller")
	for _, e := range w.entries {
		d.walk(e, true)
	}
	serving := map[*Entry]map[string]bool{}
	n := 0
	tickers := map[*Obj]bool{}
	for _, vi := range d.visits {
		if d.refreshes(vi) {
			n++
			if serving[vi.e] == nil {
				serving[vi.e] = map[string]bool{}
			}
			if tk := d.tick[vi]; tk != nil {
				serving[vi.e][w.chanName(tk, tk.ch)] = true
				tickers[tk.ch.(*ChanV).o] = true
			}
			d.visit(vi)
		} else {
			d.idle(vi.t.evs, vi.e)
		}
	}
	r.check("the universes are refreshed", n >= 3, "controller.go", "no pass over the output table sends ArtDMX")
	runs := false
	for e, names := range serving {
		runs = runs || ls[e]
		w.endsOnlyAtStop(r, "refreshing goes on", e, nil)
		w.alwaysReady(r, "refreshing goes on", e, func(n string) bool { return names[n] })
		d.passesAll(e, names)
	}
	r.check("refreshing goes on", runs, "controller.go", "no goroutine launched by the start refreshes the universes")
	for _, g := range w.entries {
		for _, t := range w.traces(g) {
			for _, v := range t.evs {
				if (v.k == "tickstop" || v.k == "tickreset") && v.ch != nil && tickers[v.ch.(*ChanV).o] {
					r.check("refreshing goes on", w.cutShort(t), evPos(w, v), "%s stops the refresh ticker", w.baseName(g.name))
				}
			}
		}
	}
	d.others()
	d.stores()
	w.sender(r, "Controller", d.chans)
	r.onlyFor(propC05, "ArtDMXPacket")
	r.atLeast("new data is sent", 2, "controller.go")
	r.atLeast("the sequence number advances by one", 2, "controller.go")
}

// refreshes: the visit belongs to a pass that sends.
func (d *dmxWorld) refreshes(vi *visit) bool {
	if len(vi.sends) > 0 {
		return true
	}
	for _, o := range d.visits {
		if o.e == vi.e && o.nx.instr == vi.nx.instr && len(o.sends) > 0 {
			return true
		}
	}
	return false
}

func (d *dmxWorld) idle(evs []*Ev, e *Entry) {}

// interval: the time between two ticks.
func (d *dmxWorld) interval(tick *Ev) *Int {
	tk := d.w.tickerOf(tick)
	if tk == nil {
		return nil
	}
	i, _ := tk.args[0].(*Int)
	return i
}

func (d *dmxWorld) visit(vi *visit) {
	w, r, sh, x := d.w, d.r, d.sh, d.w.x
	nm := w.baseName(vi.e.name)
	at := evPos(w, vi.nx)
	tick := d.tick[vi]
	if !r.check("DMX is sent at ticks only", tick != nil, at, "%s goes through the universes without a tick", nm) {
		return
	}
	if !r.check("registered nodes", vi.cn != nil, at, "the output table holds no node") {
		return
	}
	stop := w.stopped(vi.end)
	for _, v := range vi.evs {
		stop = stop || w.isStop(v)
	}
	ns := w.evState(vi.nx)
	r.check("a universe is sent once per tick", len(vi.sends) <= 1, at, "%s can send a universe more than once in one tick", nm)
	if vi.early {
		r.check("every universe is considered", stop, at, "%s leaves the pass over the universes early", nm)
	}
	// sequence number
	seq0n, _ := x.field(ns, vi.cn, sh.seq)
	seq0 := x.nodeInt(ns, seq0n)
	seq1n, _ := x.field(vi.end, vi.cn, sh.seq)
	seq1 := x.nodeInt(vi.end, seq1n)
	if len(vi.sends) == 0 && !stop {
		r.check("the sequence number advances by one", eqInts(vi.end, seq0, seq1), at, "%s changes the sequence number without sending", nm)
	}
	for _, dl := range vi.sends {
		en := w.encoded(dl)
		if en == nil || en.node == nil {
			r.check("what is sent is an encoded ArtDMX packet", false, evPos(w, dl.v), "%s sends something that is not the unmodified encoding of an ArtDMX packet", nm)
			continue
		}
		sn, _ := x.fieldOf(vi.end, en.node, "Sequence")
		sq := x.nodeInt(vi.end, sn)
		ok := sq != nil && seq0 != nil && seq1 != nil
		if ok {
			lo := vi.end.clone()
			if lo.addGE(lc(254).sub(seq0.linear())) {
				ok = ok && lo.entailsEQ(sq.linear().sub(seq0.linear()).plus(-1))
			}
			hi := vi.end.clone()
			if hi.addGE(seq0.linear().plus(-255)) {
				ok = ok && hi.entailsEQ(sq.linear().plus(-1))
			}
			ok = ok && eqInts(vi.end, sq, seq1)
		}
		r.check("the sequence number advances by one", ok, evPos(w, en), "%s: the sequence number of the datagram is not the successor (1 to 255) of that of the previous one of the node", nm)
	}
	// which times can the decision have been based on?
	var cand []*Int
	serial := -1
	if ti, ok := tick.res.(*Int); ok {
		cand = append(cand, ti)
		for _, t := range ti.linear().terms() {
			serial = atomSerial(t)
		}
	}
	for _, s := range append(evStates(w, vi), vi.end) {
		if n, ok := s.heap[clockObj]; ok {
			if i, ok := n.v.(*Int); ok {
				late := false
				for _, t := range i.linear().terms() {
					late = atomSerial(t) > serial
				}
				if late {
					cand = append(cand, i)
				}
			}
		}
	}
	iv := d.interval(tick)
	for _, b := range w.bufOf(vi.end, sh, vi.cn, vi.key) {
		flag, when := w.bufPre(ns, sh, b.p)
		if !r.check("buffers", flag != nil && when != nil, at, "the content of a buffer cannot be determined") {
			continue
		}
		s := b.s
		if b.p == nil {
			r.check("every universe is refreshed", stop || len(vi.sends) > 0, at, "%s can skip a universe that has no buffer", nm)
			continue
		}
		fn, _ := x.field(s, b.p, sh.flag)
		tn, _ := x.field(s, b.p, sh.when)
		flag1, when1 := w.boolOf(s, fn), x.nodeInt(s, tn)
		try := func(now *Int, assume func(t *State) bool) bool {
			t := s.clone()
			return assume(t)
		}
		any := func(f func(now *Int) bool) bool {
			for _, c := range cand {
				if f(c) {
					return true
				}
			}
			return false
		}
		if len(vi.sends) == 0 && !stop {
			ok := iv != nil && any(func(now *Int) bool {
				return !try(now, func(t *State) bool {
					// new data, last sent more than an interval ago
					return t.assume(flag, true) && t.addGE(now.linear().sub(when.linear()).sub(iv.linear()).plus(-1))
				})
			})
			r.check("new data is sent", ok, at, "%s can leave out a universe that has new data and was not sent within the refresh interval", nm)
			ok = any(func(now *Int) bool {
				return !try(now, func(t *State) bool {
					return t.addGE(now.linear().sub(when.linear()).plus(-250000001))
				})
			})
			r.check("every universe is sent after 250 ms", ok, at, "%s can leave out a universe that was not sent for more than 250 ms", nm)
			same := flag1 != nil && (vkey(flag1) == vkey(flag) || s.decide(flag) >= 0 && s.decide(flag) == s.decide(flag1))
			r.check("new data stays pending until it is sent", same, at, "%s changes the mark of a universe it does not send", nm)
			r.check("the time of the last sending is noted", eqInts(s, when, when1), at, "%s changes the time of the last sending of a universe it does not send", nm)
		}
		if len(vi.sends) > 0 {
			ok := any(func(now *Int) bool {
				return !try(now, func(t *State) bool {
					return t.assume(flag, false) && t.addGE(lc(249999999).sub(now.linear().sub(when.linear())))
				})
			})
			r.check("old data is sent after 250 ms only", ok, at, "%s can send a universe without new data that was sent less than 250 ms ago", nm)
			r.check("sent data is no longer pending", flag1 != nil && s.decide(flag1) == 0, at, "%s leaves a universe marked that it sent", nm)
			r.check("the time of the last sending is noted", any(func(now *Int) bool { return eqInts(s, now, when1) }), at, "%s does not note the time of sending", nm)
			d.atomic(vi, b.p)
		}
	}
}

// terms lists the names of the atoms of a linear form.
func (l *Lin) terms() []string {
	var r []string
	for _, t := range l.t {
		r = append(r, t.a.name)
	}
	return r
}

func evStates(w *World, vi *visit) []*State {
	r := []*State{w.evState(vi.nx)}
	for _, v := range vi.evs {
		r = append(r, w.evState(v))
	}
	return r
}

// atomic: new data cannot arrive between reading the data and clearing the
// mark.
func (d *dmxWorld) atomic(vi *visit, buf *Ptr) {
	w, r, sh := d.w, d.r, d.sh
	var en, st *Ev
	ei, si := -1, -1
	for i, v := range vi.evs {
		if v.k == "encode" && en == nil {
			en, ei = v, i
		}
		if v.k == "store" && v.ptr != nil && v.ptr.o == buf.o {
			if _, f, ok := ptrField(v.ptr); ok && f == sh.flag {
				st, si = v, i
			}
		}
	}
	if en == nil || st == nil || si < ei {
		return
	}
	// the locks under which data is stored
	locks := map[string]bool{}
	if e := w.entry("Controller.SendDMXToAddress"); e != nil {
		for _, t := range w.traces(e) {
			for _, v := range t.evs {
				if v.k == "store" && v.ptr != nil && v.ptr.o.t != nil && typeName(v.ptr.o.t) == typeName(sh.buf) {
					for _, l := range v.locks {
						locks[l.field] = true
					}
				}
			}
		}
	}
	ok := false
	for _, l := range en.locks {
		if !locks[l.field] {
			continue
		}
		held := true
		for _, v := range vi.evs[ei : si+1] {
			has := false
			for _, k := range v.locks {
				has = has || k.key == l.key
			}
			held = held && has && !(v.k == "unlock" && v.name == l.field)
		}
		ok = ok || held
	}
	r.check("new data stays pending until it is sent", ok, evPos(w, st), "%s: no lock is held from reading the data to clearing the mark, new data in between is lost", w.baseName(vi.e.name))
}

// passesAll: every tick leads to a pass over the whole table.
func (d *dmxWorld) passesAll(e *Entry, names map[string]bool) {
	w, r := d.w, d.r
	n := 0
	for _, t := range w.traces(e) {
		for i, v := range t.evs {
			if _, ok := received(v); !ok || v.ch == nil || !names[w.chanName(v, v.ch)] {
				continue
			}
			pass, done := false, false
			for _, u := range t.evs[i+1:] {
				if _, ok := received(u); ok && !w.isStop(u) {
					break
				}
				pass = pass || u.loop != nil && d.isPass(u.loop)
				done = done || pass && u.k == "next-done" && w.isOutTable(u, d.sh)
			}
			if !done && (w.stopAfter(t, i) || w.stopped(t.end)) {
				continue
			}
			n++
			r.check("every universe is considered", pass && done, evPos(w, v), "%s does not go through all universes at a tick", w.baseName(e.name))
		}
	}
	r.check("every universe is considered", n > 0, r.fnPos(e.fn), "%s: no tick leads to a pass over the universes", w.baseName(e.name))
}

// others: nobody else changes marks, times, sequence numbers or buffers.
func (d *dmxWorld) others() {
	w, r, sh, x := d.w, d.r, d.sh, d.w.x
	in := map[*Ev]bool{}
	for _, vi := range d.visits {
		if d.refreshes(vi) {
			for _, v := range vi.evs {
				in[v] = true
			}
		}
	}
	bufT, cnT := typeName(sh.buf), typeName(sh.cn)
	for _, e := range w.entries {
		nm := w.baseName(e.name)
		for _, t := range w.traces(e) {
			for _, v := range t.evs {
				switch {
				case v.k == "store" && v.ptr != nil && v.ptr.o.t != nil && typeName(v.ptr.o.t) == bufT && nm != "Controller.SendDMXToAddress":
					r.check("only the refresh changes marks and times", in[v], evPos(w, v), "%s changes a buffer", nm)
				case v.k == "store" && v.ptr != nil && v.ptr.o.t != nil && typeName(v.ptr.o.t) == cnT && !in[v]:
					if fs := fieldsOf(v.ptr); len(fs) > 0 && fs[0].Field != sh.seq && fs[0].Field != sh.bufs {
						continue
					}
					ok := v.old != nil && v.node != nil
					if ok && len(v.ptr.p) == 1 {
						ok = x.normKey(w.evState(v), v.old) == x.normKey(w.evState(v), v.node)
					} else if ok {
						s := w.evState(v)
						for _, f := range []string{sh.seq, sh.bufs} {
							a, _ := x.fieldOf(s, v.old, f)
							b, _ := x.fieldOf(s, v.node, f)
							ok = ok && a != nil && b != nil && x.normKey(s, a) == x.normKey(s, b)
						}
					}
					r.check("sequence numbers and buffers of a known node are kept", ok, evPos(w, v), "%s replaces the sequence number or the buffers of a node", nm)
				case (v.k == "mapset" || v.k == "mapdel" || v.k == "mapclear") && w.holdsField(v, cnT+"."+sh.bufs):
					d.bufferChange(v, nm)
				}
			}
		}
	}
}

func (w *World) holdsField(v *Ev, field string) bool {
	for _, f := range w.fieldHolding(v.heap, v.ch) {
		if f == field {
			return true
		}
	}
	return false
}

// bufferChange: a change of the buffers of a registered node must not lose a
// buffer.
func (d *dmxWorld) bufferChange(v *Ev, nm string) {
	w, r, sh := d.w, d.r, d.sh
	const rule = "buffers of a known node are kept"
	m, ok := v.ch.(*MapV)
	if !ok || v.k != "mapset" {
		r.check(rule, false, evPos(w, v), "%s removes buffers of a node", nm)
		return
	}
	s := w.evState(v)
	nw, _ := w.x.toVal(s, v.node).(*Ptr)
	for _, h := range w.lookupPtr(s, leaf(m.o.t, m), sh.bufMap, v.args[0]) {
		r.check(rule, h.p == nil || nw != nil && h.p.o == nw.o, evPos(w, v), "%s replaces a buffer", nm)
	}
	if nw != nil && !nw.o.sym {
		f, t := w.bufPre(s, sh, nw)
		ok := f != nil && t != nil && s.entailsEQ(t.linear())
		r.check("new universes are sent at once", ok, evPos(w, v), "%s creates a buffer that counts as sent", nm)
	}
}

// sameArr: two arrays have the same content.
func (x *Exec) sameArr(s *State, a, b *Node) bool {
	if a.key() == b.key() {
		return true
	}
	if a.t == nil || b.t == nil || !isArrT(a.t) || !isArrT(b.t) || !types.Identical(a.t, b.t) {
		return false
	}
	at := a.t.Underlying().(*types.Array)
	return x.arrayEq(s, a, at.Elem(), lc(0), lc(at.Len()), func(s *State, i *Lin) *Int { return x.nodeInt(s, x.elem(s, b, i, at.Elem())) })
}
