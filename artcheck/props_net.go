package main

import (
	"go/types"
	"strings"
)

// ---------------------------------------------------------------------------
// Reading events
// ---------------------------------------------------------------------------

// sent: the event puts a value on a channel.
func sent(v *Ev) (Value, bool) {
	switch {
	case v.k == "send" && len(v.args) == 1:
		return v.args[0], true
	case v.k == "select" && v.idx >= 0 && v.idx < len(v.sel) && v.sel[v.idx].send && len(v.args) == 1:
		return v.args[0], true
	}
	return nil, false
}

// received: the event takes a value from a channel.
func received(v *Ev) (Value, bool) {
	switch {
	case v.k == "recv":
		return v.res, true
	case v.k == "select" && v.idx >= 0 && v.idx < len(v.sel) && !v.sel[v.idx].send:
		return v.res, true
	}
	return nil, false
}

func elemOfChan(v Value) types.Type {
	c, ok := v.(*ChanV)
	if !ok || c.o.t == nil {
		return nil
	}
	if ct, ok := c.o.t.Underlying().(*types.Chan); ok {
		return ct.Elem()
	}
	return c.o.t
}

// isStop: the event is the receipt of a stop signal.
func (w *World) isStop(v *Ev) bool {
	_, ok := received(v)
	return ok && v.ch != nil && w.stopChans()[w.chanName(v, v.ch)]
}

// stopped: the state says that a node or controller is stopped.
func (w *World) stopped(s *State) bool {
	for _, typ := range []string{"Node", "Controller"} {
		f := w.stopFlag(typ)
		if f == nil {
			continue
		}
		for _, o := range w.objsOf(s, f.typ) {
			if w.flagIs(s, f, o) == 1 {
				return true
			}
		}
	}
	return false
}

func (w *World) objsOf(s *State, tn string) []*Obj {
	var r []*Obj
	for o := range s.heap {
		if o.t != nil && !o.arr && typeName(o.t) == tn {
			r = append(r, o)
		}
	}
	sortObjs(r)
	return r
}

// cutShort: the trace ends because of a stop.
func (w *World) cutShort(t *Trace) bool {
	for _, v := range t.evs {
		if w.isStop(v) {
			return true
		}
	}
	return w.stopped(t.end)
}

// leaves visits the parts of a value that are not structs.
func (x *Exec) leaves(s *State, t types.Type, v Value, path string, f func(path string, t types.Type, v Value)) {
	x.leavesN(s, t, v, path, f, 0)
}

func (x *Exec) leavesN(s *State, t types.Type, v Value, path string, f func(path string, t types.Type, v Value), depth int) {
	if n, ok := v.(*Node); ok {
		t = n.t
		if st, ok := t.Underlying().(*types.Struct); ok && depth < 6 {
			for i := 0; i < st.NumFields(); i++ {
				fn := x.get(s, n, []Step{{f: i}})
				x.leavesN(s, st.Field(i).Type(), x.toVal(s, fn), path+"."+st.Field(i).Name(), f, depth+1)
			}
			return
		}
	}
	if p, ok := v.(*Ptr); ok && depth < 6 {
		if st, ok := p.t.Underlying().(*types.Struct); ok && strings.HasPrefix(typeName(p.t), modulePath) && s.decide(nilCond(p)) == 0 {
			for i := 0; i < st.NumFields(); i++ {
				fn := x.getFrom(s, p.o, append(append([]Step{}, p.p...), Step{f: i}))
				x.leavesN(s, st.Field(i).Type(), x.toVal(s, fn), path+"."+st.Field(i).Name(), f, depth+1)
			}
			return
		}
	}
	f(path, t, v)
}

func isBytes(t types.Type) bool {
	sl, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := sl.Elem().Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

// payload is what a message carries: its bytes and its destination.
func (w *World) payload(s *State, t types.Type, v Value) (data []*Slice, addr []*Node) {
	x := w.x
	if n, ok := v.(*Node); ok {
		t = n.t
	}
	if t == nil {
		return
	}
	if isBytes(t) && typeName(t) != "net.IP" {
		if sl, ok := v.(*Slice); ok {
			data = append(data, sl)
		}
		return
	}
	var visit func(n *Node, depth int)
	visit = func(n *Node, depth int) {
		if typeName(n.t) == "net.UDPAddr" {
			addr = append(addr, n)
			return
		}
		if st, ok := n.t.Underlying().(*types.Struct); ok && depth < 5 {
			for i := 0; i < st.NumFields(); i++ {
				ft := st.Field(i).Type()
				fn := x.get(s, n, []Step{{f: i}})
				if fn.t == nil {
					continue
				}
				if isBytes(ft) && typeName(ft) != "net.IP" {
					if sl, ok := x.toVal(s, fn).(*Slice); ok {
						data = append(data, sl)
					}
					continue
				}
				if p, ok := x.toVal(s, fn).(*Ptr); ok && s.decide(nilCond(p)) == 0 {
					visit(x.getFrom(s, p.o, p.p), depth+1)
					continue
				}
				visit(fn, depth+1)
			}
		}
	}
	switch v := v.(type) {
	case *Node:
		visit(v, 0)
	case *Ptr:
		if s.decide(nilCond(v)) == 0 {
			visit(x.getFrom(s, v.o, v.p), 0)
		}
	}
	return
}

// sameBytes: two slices have the same length and content in their states.
func (w *World) sameBytes(s *State, a *Slice, sb *State, b *Slice) bool {
	x := w.x
	if !s.entailsEQ(a.len.sub(b.len)) {
		return false
	}
	if a.o == b.o && pathKey(a.p) == pathKey(b.p) && a.off.key() == b.off.key() {
		m, _ := x.arrAt(s, a.o, a.p)
		n, _ := x.arrAt(sb, b.o, b.p)
		if m != nil && n != nil && m.key() == n.key() {
			return true
		}
	}
	st := s.clone()
	i := la(atomNamed(fresh("i"), 64, true))
	if !st.addGE(i) || !st.addGE(a.len.sub(i).plus(-1)) {
		return true
	}
	sb2 := sb.clone()
	sb2.F = st.F
	return eqInts(st, x.byteOf(st, a, i), x.byteOf(sb2, b, i))
}

// sameNode: two contents are equal.
func (w *World) sameNode(s *State, a, b *Node) bool {
	if a == nil || b == nil {
		return false
	}
	return w.x.normKey(s, a) == w.x.normKey(s, b)
}

// launched lists the functions a start runs in the background, on all of its
// successful paths.
func (w *World) launched(typ string) map[*Entry]bool {
	e := w.entry(typ + ".Start")
	if e == nil {
		return nil
	}
	var all map[any]bool
	for _, t := range w.traces(e) {
		if t.loop != nil || t.pan || t.end.decide(nilCond(t.res)) == 0 {
			continue
		}
		set := map[any]bool{}
		for _, v := range t.evs {
			if v.k == "go" {
				set[v.instr] = true
			}
		}
		if all == nil {
			all = set
			continue
		}
		for k := range all {
			if !set[k] {
				delete(all, k)
			}
		}
	}
	r := map[*Entry]bool{}
	for again := true; again; {
		again = false
		for _, g := range w.entries {
			if g.kind != "go" || r[g] || !all[g.site.ev.instr] {
				continue
			}
			r[g] = true
			again = true
			// what it launches before it waits, on every path
			var sub map[any]bool
			for _, t := range w.traces(g) {
				if t.loop != nil {
					continue
				}
				set := map[any]bool{}
				for _, v := range t.evs {
					if v.k == "go" {
						set[v.instr] = true
					}
				}
				if sub == nil {
					sub = set
				}
				for k := range sub {
					if !set[k] {
						delete(sub, k)
					}
				}
			}
			for k := range sub {
				all[k] = true
			}
		}
	}
	return r
}

// endsOnlyAtStop: a background goroutine goes on until it is stopped.
func (w *World) endsOnlyAtStop(r *Rep, rule string, e *Entry, other func(t *Trace) bool) {
	for _, t := range w.traces(e) {
		if t.loop != nil || t.pan {
			continue
		}
		ok := w.cutShort(t) || other != nil && other(t)
		at := r.fnPos(e.fn)
		if n := len(t.evs); n > 0 {
			at = evPos(w, t.evs[n-1])
		}
		r.check(rule, ok, at, "%s can end although nothing was stopped", w.baseName(e.name))
	}
}

// ---------------------------------------------------------------------------
// C17
// ---------------------------------------------------------------------------

// ownIPs lists the paths to the addresses in a Node that NewNode sets to the
// address of the node.
func (w *World) ownIPs() []string {
	e := w.entry("NewNode")
	nd := w.rootType("Node")
	if e == nil || nd == nil {
		return nil
	}
	var ip *Slice
	for i, a := range e.args {
		if sl, ok := a.(*Slice); ok && typeName(e.fn.Params[i].Type()) == "net.IP" {
			ip = sl
		}
	}
	if ip == nil {
		return nil
	}
	var r []string
	for k, o := range e.outs {
		p, ok := o.res.(*Ptr)
		if o.pan || !ok {
			continue
		}
		var got []string
		want := w.x.sliceKey(o.s, ip)
		w.x.leaves(o.s, p.t, w.x.getFrom(o.s, p.o, p.p), "", func(path string, t types.Type, v Value) {
			if typeName(t) == "net.IP" && w.x.sliceKey(o.s, v) == want {
				got = append(got, path)
			}
		})
		if k == 0 {
			r = got
		} else {
			var both []string
			for _, a := range r {
				for _, b := range got {
					if a == b {
						both = append(both, a)
					}
				}
			}
			r = both
		}
	}
	return r
}

// fromSelf: the sender of a datagram is known to be the node itself (1), known
// to be another (0) or neither.
func (w *World) fromSelf(s *State, from Value, own []string) int {
	x := w.x
	p, ok := from.(*Ptr)
	if !ok || typeName(p.t) != "net.UDPAddr" {
		return -1
	}
	n, _ := x.field(s, p, "IP")
	if n == nil {
		return -1
	}
	ip := x.sliceKey(s, x.toVal(s, n))
	for _, o := range w.objsOf(s, typeName(w.rootType("Node"))) {
		for _, path := range own {
			c := &Node{}
			if c = x.getFrom(s, o, nil); c == nil {
				continue
			}
			for _, f := range strings.Split(path[1:], ".") {
				if c != nil {
					c, _ = x.fieldOf(s, c, f)
				}
			}
			if c == nil {
				continue
			}
			if d := s.decide(eqKey("eqip", ip, x.sliceKey(s, x.toVal(s, c)))); d >= 0 {
				return d
			}
		}
	}
	return -1
}

func propC17(r *Rep) {
	r.desc = "every read of the socket on every path and loop iteration is followed to the one place its bytes are handed on: after a failed read, or when the facts say that the sender has the address NewNode stored, nothing may be handed on or decoded; otherwise exactly one message (or decode) must carry a slice of an object allocated after the read whose length is the read's count and whose bytes, for a symbolic index, are the datagram's; every receipt of such a message must lead to exactly one decode of exactly that slice, and nothing else may be decoded or put on that channel"
	w := r.world()
	x := w.x
	own := w.ownIPs()
	if !r.check("own address is stored", len(own) > 0, "node.go NewNode", "NewNode stores the address of the node nowhere") {
		return
	}
	hand := map[string]bool{} // channels datagrams are handed on with
	nread, nforeign, nown, nfail := 0, 0, 0, 0
	type mark struct {
		t *Trace
		i int
	}
	done := map[mark]bool{}
	readers := map[*Entry]bool{}
	for _, e := range w.entries {
		for _, t := range w.traces(e) {
			for i, v := range t.evs {
				if v.k != "read" {
					continue
				}
				nread++
				readers[e] = true
				rest := t.evs[i+1:]
				for j, u := range rest {
					if u.k == "read" {
						rest = rest[:j]
						break
					}
				}
				tu, _ := v.res.(Tuple)
				buf, isSl := v.args[1].(*Slice)
				if !r.check("read is understood", len(tu) >= 3 && isSl, evPos(w, v), "the read has an unknown form") {
					continue
				}
				var hs []int // hand-overs
				loops := false
				for j, u := range rest {
					val, ok := sent(u)
					if ok {
						if d, _ := w.payload(w.evState(u), elemOfChan(u.ch), val); len(d) > 0 || u.ch == nil {
							hs = append(hs, j)
						}
					}
					if u.k == "decode" || u.k == "decode-err" {
						hs = append(hs, j)
					}
					for _, y := range allEvents([]*Ev{u})[1:] {
						_, ok := sent(y)
						loops = loops || ok || y.k == "decode" || y.k == "decode-err"
					}
				}
				r.check("handed on directly", !loops, evPos(w, v), "%s hands a datagram on in an inner loop", e.name)
				if !v.want {
					nfail++
					r.check("failed reads are not decoded", len(hs) == 0, evPos(w, v), "%s hands on or decodes data after a failed read", w.baseName(e.name))
					continue
				}
				stop := false
				for _, u := range rest {
					stop = stop || w.isStop(u)
				}
				if len(hs) == 0 {
					d := w.fromSelf(t.end, tu[1], own)
					if d == 1 {
						nown++
						continue
					}
					r.check("foreign datagrams are handed on", stop || w.stopped(t.end), evPos(w, v), "%s can drop a datagram although it is not known to come from the node itself", w.baseName(e.name))
					continue
				}
				u := rest[hs[0]]
				us := w.evState(u)
				nforeign++
				r.check("handed on once", len(hs) == 1, evPos(w, u), "%s hands a datagram on %d times", w.baseName(e.name), len(hs))
				r.check("own datagrams are ignored", w.fromSelf(us, tu[1], own) == 0, evPos(w, u), "%s hands a datagram on without knowing that it does not come from the node itself", w.baseName(e.name))
				var data []*Slice
				if val, ok := sent(u); ok {
					data, _ = w.payload(us, elemOfChan(u.ch), val)
					hand[w.chanName(u, u.ch)] = true
				} else {
					if sl, ok := u.args[0].(*Slice); ok {
						data = append(data, sl)
					}
					done[mark{t, i + 1 + hs[0]}] = true
				}
				done[mark{t, i + 1 + hs[0]}] = true
				if !r.check("one copy is handed on", len(data) == 1, evPos(w, u), "the message carries %d byte slices", len(data)) {
					continue
				}
				num, _ := tu[0].(*Int)
				sl := data[0]
				_, old := v.heap[sl.o]
				r.check("the copy is private", !old && !sl.o.sym && !sl.o.glob && sl.o != buf.o, evPos(w, u), "%s hands on memory that the next read or others may change", w.baseName(e.name))
				r.check("the copy has the received length", num != nil && us.entailsEQ(sl.len.sub(num.linear())), evPos(w, u), "the copy handed on does not have the length of the datagram")
				st := us.clone()
				ix := la(atomNamed(fresh("i"), 64, true))
				same := true
				if st.addGE(ix) && st.addGE(sl.len.sub(ix).plus(-1)) {
					rs := w.evState(v)
					rs.F = st.F
					same = eqInts(st, x.byteOf(st, sl, ix), x.byteOf(rs, buf, ix))
				}
				r.check("the copy has the received bytes", same, evPos(w, u), "the copy handed on does not hold the bytes of the datagram")
			}
		}
	}
	r.check("reads found", nread > 0 && nforeign > 0 && nown > 0 && nfail > 0, "root package", "%d reads, %d handed on, %d own, %d failed", nread, nforeign, nown, nfail)
	for e := range readers {
		w.endsOnlyAtStop(r, "reading goes on", e, func(t *Trace) bool {
			// a particular error of the socket, told apart from others
			for i := len(t.evs) - 1; i >= 0; i-- {
				if v := t.evs[i]; v.k == "read" {
					return !v.want && w.errIdentified(t.end, v.res.(Tuple))
				}
			}
			return false
		})
		cont := false
		for _, t := range w.traces(e) {
			for _, v := range t.evs {
				cont = cont || t.loop != nil && v.k == "read" && !v.want
			}
		}
		r.check("reading goes on", cont, r.fnPos(e.fn), "%s never goes on after a failed read", w.baseName(e.name))
	}
	// the other end
	nd := 0
	for _, e := range w.entries {
		for _, t := range w.traces(e) {
			for i, v := range t.evs {
				if _, ok := sent(v); ok && v.ch != nil && hand[w.chanName(v, v.ch)] {
					r.check("only datagrams are decoded", done[mark{t, i}], evPos(w, v), "%s puts something else on %s", w.baseName(e.name), short(w.chanName(v, v.ch)))
				}
				if val, ok := received(v); ok && v.ch != nil && hand[w.chanName(v, v.ch)] {
					nd++
					var ds []*Ev
					for j, u := range t.evs[i+1:] {
						if val, ok := received(u); ok && val != nil && u.ch != nil && hand[w.chanName(u, u.ch)] {
							break
						}
						if u.k == "decode" || u.k == "decode-err" {
							ds = append(ds, u)
							done[mark{t, i + 1 + j}] = true
						}
					}
					if len(ds) == 0 && (w.stopped(t.end) || w.stopAfter(t, i)) {
						continue
					}
					if !r.check("decoded once", len(ds) == 1, evPos(w, v), "%s decodes a received datagram %d times", w.baseName(e.name), len(ds)) {
						continue
					}
					d := ds[0]
					dsl, _ := d.args[0].(*Slice)
					vs := w.evState(v)
					data, _ := w.payload(vs, elemOfChan(v.ch), val)
					ok := dsl != nil && len(data) == 1 && w.sameBytes(w.evState(d), dsl, vs, data[0])
					r.check("decoded completely", ok, evPos(w, d), "%s does not decode exactly the bytes received", w.baseName(e.name))
				}
			}
		}
	}
	for _, e := range w.entries {
		for _, t := range w.traces(e) {
			for i, v := range t.evs {
				if v.k == "decode" || v.k == "decode-err" {
					r.check("only datagrams are decoded", done[mark{t, i}], evPos(w, v), "%s decodes bytes that are not a received datagram", w.baseName(e.name))
				}
			}
		}
	}
	r.check("decodes found", nd > 0 || len(hand) == 0, "root package", "no receipt of handed-on datagrams was found")
	// who does it
	ls := w.launched("Node")
	nr, nc := 0, 0
	for e := range ls {
		if readers[e] {
			nr++
		}
		dec := false
		for _, t := range w.traces(e) {
			for _, v := range t.evs {
				dec = dec || v.k == "decode"
			}
		}
		if dec {
			nc++
			w.endsOnlyAtStop(r, "decoding goes on", e, nil)
		}
	}
	r.check("the receiver runs", nr > 0 && nc > 0, "node.go Start", "a successful start does not always launch the goroutines that read and decode")
	// no crash
	for _, o := range sortedBy(x.obl) {
		for e := range o.Entry {
			for re := range readers {
				if re.name == e {
					why, bad := o.BadIn[e]
					r.check("the receive loop cannot crash", !bad, x.pos(o.Instr)+" "+o.Fn.Name(), "%s possible: %s", o.Kind, why)
				}
			}
		}
	}
	r.atLeast("the receive loop cannot crash", 5, "node.go")
	r.atLeast("the copy has the received bytes", 1, "node.go")
	r.atLeast("decoded completely", 2, "node.go")
}

// stopAfter: a stop signal is received after event i.
func (w *World) stopAfter(t *Trace, i int) bool {
	for _, v := range t.evs[i+1:] {
		if w.isStop(v) {
			return true
		}
	}
	return false
}

// errIdentified: the error of a read was told apart from others.
func (w *World) errIdentified(s *State, res Tuple) bool {
	e, ok := res[len(res)-1].(*Iface)
	if !ok {
		return false
	}
	for k, v := range s.F.op {
		if v && strings.Contains(k, e.nm) && !strings.HasPrefix(k, "nil(") {
			return true
		}
	}
	return false
}

// ---------------------------------------------------------------------------
// C18
// ---------------------------------------------------------------------------

// carries: a launched function gets the value as an argument, or captures it.
func (w *World) carries(v *Ev, want Value, since *State, rest []*Ev) bool {
	vs := append([]Value{}, v.args...)
	if f, ok := v.res.(*Func); ok {
		vs = append(vs, f.bind...)
	}
	k := vkey(want)
	for _, a := range vs {
		if vkey(a) == k {
			return true
		}
		if p, ok := a.(*Ptr); ok {
			if n := w.x.getFrom(v.goSt, p.o, p.p); n != nil && vkey(w.x.toVal(v.goSt, n)) == k {
				// a variable shared with the goroutine: it must be a new one
				// for each packet and keep its value
				if _, old := since.heap[p.o]; old || p.o.sym {
					continue
				}
				changed := false
				for _, u := range rest {
					changed = changed || u.k == "store" && u.ptr != nil && u.ptr.o == p.o
				}
				if !changed {
					return true
				}
			}
		}
	}
	return false
}

func propC18(r *Rep) {
	r.desc = "each successful decode on every path and iteration must be followed by exactly one launch of a goroutine that carries the decoded packet and by no callback in the loop itself; on every path of that goroutine the callback table of the node is looked up again under the packet's own op code and the path must call exactly the function found, once, with that packet, or, where the lookup fails, nothing; a failed decode may launch and call nothing"
	w := r.world()
	x := w.x
	cbf := w.callbackField()
	ndT := w.rootType("Node")
	if !r.check("callback table", cbf != "" && ndT != nil, "node.go", "Node has no table of callbacks") {
		return
	}
	_, mft := fieldPath(ndT, cbf)
	mt, _ := mft.Underlying().(*types.Map)
	ngo, nerr, ncall, nmiss := 0, 0, 0, 0
	sites := map[any]bool{}
	packets := map[string]bool{}
	for _, e := range w.entries {
		for _, t := range w.traces(e) {
			for i, v := range t.evs {
				if v.k != "decode" && v.k != "decode-err" {
					continue
				}
				rest := t.evs[i+1:]
				for j, u := range rest {
					if u.k == "decode" || u.k == "decode-err" || u.k == "read" {
						rest = rest[:j]
						break
					}
				}
				var gos []*Ev
				for _, u := range allEvents(rest) {
					switch u.k {
					case "go":
						gos = append(gos, u)
					case "callback":
						r.check("callbacks run outside the receive loop", false, evPos(w, u), "%s calls a callback itself", w.baseName(e.name))
					}
				}
				if v.k == "decode-err" {
					nerr++
					r.check("undecodable datagrams are ignored", len(gos) == 0, evPos(w, v), "%s launches something for a datagram it could not decode", w.baseName(e.name))
					for _, u := range allEvents(rest) {
						_, snt := sent(u)
						r.check("undecodable datagrams are ignored", !snt && u.k != "write", evPos(w, u), "%s passes something on for a datagram it could not decode", w.baseName(e.name))
					}
					continue
				}
				packets[vkey(v.res)] = true
				if len(gos) == 0 && (w.stopAfter(t, i) || w.stopped(t.end)) {
					continue
				}
				if !r.check("dispatched exactly once", len(gos) == 1, evPos(w, v), "%s launches %d goroutines for a decoded packet", w.baseName(e.name), len(gos)) {
					continue
				}
				ngo++
				since := e.pre
				if t.loop != nil {
					since = t.loop.hst
				}
				var after []*Ev
				for j, u := range t.evs {
					if u == gos[0] {
						after = t.evs[j+1:]
					}
				}
				r.check("dispatched exactly once", w.carries(gos[0], v.res, since, after), evPos(w, gos[0]), "%s launches a goroutine that does not get the packet", w.baseName(e.name))
				sites[gos[0].instr] = true
			}
		}
	}
	// the dispatcher
	for _, e := range w.entries {
		if e.kind != "go" || !sites[e.site.ev.instr] {
			continue
		}
		var pk Value
		vs := append([]Value{}, e.site.ev.args...)
		if f, ok := e.site.ev.res.(*Func); ok {
			vs = append(vs, f.bind...)
		}
		for _, a := range vs {
			if packets[vkey(a)] {
				pk = a
			}
			if p, ok := a.(*Ptr); ok {
				if n := x.getFrom(e.site.ev.goSt, p.o, p.p); n != nil {
					if v := x.toVal(e.site.ev.goSt, n); packets[vkey(v)] {
						pk = v
					}
				}
			}
		}
		pi, ok := pk.(*Iface)
		if !r.check("the dispatcher knows the packet", ok, r.fnPos(e.fn), "%s does not get a decoded packet", e.name) {
			continue
		}
		for _, t := range w.traces(e) {
			var calls []*Ev
			for _, v := range t.evs {
				if v.k == "callback" {
					calls = append(calls, v)
					r.check("no lock is held during a callback", len(v.locks) == 0, evPos(w, v), "%s calls a callback while it holds a lock", w.baseName(e.name))
				}
				r.check("the packet is only dispatched", v.k != "go" && v.k != "send" && !(v.k == "select"), evPos(w, v), "%s does something else with the packet (%s)", w.baseName(e.name), v.k)
			}
			if t.loop != nil {
				r.check("called exactly once", len(calls) == 0, r.fnPos(e.fn), "%s calls callbacks in a loop", w.baseName(e.name))
				continue
			}
			if t.pan {
				continue
			}
			at := r.fnPos(e.fn)
			s := t.end.clone()
			if len(calls) > 0 {
				at = evPos(w, calls[0])
				s = w.evState(calls[0]).clone()
			}
			r.check("called exactly once", len(calls) <= 1, at, "%s calls %d callbacks for one packet", w.baseName(e.name), len(calls))
			op := x.symVal(s, mt.Key(), "opcode("+pi.nm+")", nil, "")
			found, missed := false, true
			for _, o := range w.objsOf(s, typeName(ndT)) {
				n, _ := x.field(s, &Ptr{o: o, t: o.t}, cbf)
				m, ok := x.toVal(s, n).(*MapV)
				if !ok {
					continue
				}
				for _, h := range x.mapGet(s.clone(), m, mt, op) {
					d := h.s.decide(h.ok)
					if d != 0 {
						missed = false
					}
					if len(calls) == 1 && d == 1 && h.val != nil && vkey(x.toVal(h.s, h.val)) == vkey(calls[0].ch) {
						found = true
					}
				}
			}
			if len(calls) == 0 {
				nmiss++
				r.check("no callback only without registration", missed, at, "%s can drop a packet whose op code has a callback", w.baseName(e.name))
				continue
			}
			ncall++
			r.check("the callback of the packet's op code is called", found, at, "%s does not call the function registered for the packet's op code (%s)", w.baseName(e.name), clip(short(vkey(calls[0].ch)), 100))
			r.check("the packet is passed unchanged", len(calls[0].args) == 1 && vkey(calls[0].args[0]) == vkey(pi), at, "%s passes %s instead of the packet", w.baseName(e.name), clip(keyOf(calls[0].args), 80))
		}
		// the goroutine does not write to the packet
		for _, t := range w.traces(e) {
			for _, v := range t.evs {
				if v.k == "store" && v.ptr != nil && strings.Contains(v.ptr.o.name, pi.nm) {
					r.check("the packet is passed unchanged", false, evPos(w, v), "%s changes the packet", w.baseName(e.name))
				}
			}
		}
	}
	// callbacks of the node are called nowhere else
	for _, e := range w.entries {
		for _, t := range w.traces(e) {
			for _, v := range t.evs {
				if v.k == "callback" && len(v.args) == 1 {
					if _, ok := v.args[0].(*Iface); ok && (e.kind != "go" || !sites[e.site.ev.instr]) {
						r.check("callbacks run outside the receive loop", false, evPos(w, v), "%s calls a callback", w.baseName(e.name))
					}
				}
			}
		}
	}
	r.check("dispatch found", ngo > 0 && nerr > 0 && ncall > 0 && nmiss > 0, "node.go", "%d dispatches, %d decode errors, %d calls, %d misses", ngo, nerr, ncall, nmiss)
	r.sub(propC03, func(rule string) bool { return rule == "reported op code" })
}
