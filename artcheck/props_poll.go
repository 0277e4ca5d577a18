package main

import (
	"go/types"
	"strings"
)

// ---------------------------------------------------------------------------
// What a node sends
// ---------------------------------------------------------------------------

// delivery is something handed to the sender, or written directly.
type delivery struct {
	v    *Ev
	data *Slice
	addr *Node
}

// sendChans lists the channels whose receivers write to the socket.
func (w *World) sendChans() map[string]bool {
	r := map[string]bool{}
	for _, e := range w.entries {
		for _, t := range w.traces(e) {
			last := ""
			for _, v := range t.evs {
				if val, ok := received(v); ok && v.ch != nil {
					last = ""
					if d, a := w.payload(w.evState(v), elemOfChan(v.ch), val); len(d) == 1 && len(a) == 1 {
						last = w.chanName(v, v.ch)
					}
				}
				if v.k == "write" && last != "" {
					r[last] = true
				}
			}
		}
	}
	return r
}

func (w *World) delivered(v *Ev, chans map[string]bool) *delivery {
	s := w.evState(v)
	if val, ok := sent(v); ok && v.ch != nil && chans[w.chanName(v, v.ch)] {
		d, a := w.payload(s, elemOfChan(v.ch), val)
		if len(d) == 1 && len(a) == 1 {
			return &delivery{v, d[0], a[0]}
		}
		return &delivery{v: v}
	}
	if v.k == "write" && len(v.args) >= 3 {
		d, _ := v.args[1].(*Slice)
		if i, ok := v.args[2].(*Iface); ok {
			v.args[2] = i.v
		}
		if p, ok := v.args[2].(*Ptr); ok {
			return &delivery{v, d, w.x.getFrom(s, p.o, p.p)}
		}
		return &delivery{v: v}
	}
	return nil
}

// encoded finds the encoding whose result the data is, unchanged.
func (w *World) encoded(d *delivery) *Ev {
	if d.data == nil {
		return nil
	}
	v := w.encodings()[d.data.o]
	if v == nil {
		return nil
	}
	sl := v.res.(*Slice)
	if !w.evState(d.v).entailsEQ(d.data.len.sub(sl.len)) || len(d.data.p) != 0 || !w.evState(d.v).entailsEQ(d.data.off) {
		return nil
	}
	n := w.x.getFrom(w.evState(d.v), d.data.o, nil)
	if n == nil || n.key() != lazyNode(d.data.o.t, v.str, nil).key() {
		return nil
	}
	return v
}

func (w *World) encodings() map[*Obj]*Ev {
	if w.encs == nil {
		w.encs = map[*Obj]*Ev{}
		for _, e := range w.entries {
			for _, t := range w.traces(e) {
				for _, v := range t.evs {
					if v.k == "encode" {
						w.encs[v.res.(*Slice).o] = v
					}
				}
			}
		}
	}
	return w.encs
}

// wireChanged: some code writes to the bytes of an encoding.
func (w *World) wireChanged(r *Rep, rule string) {
	for _, e := range w.entries {
		for _, t := range w.traces(e) {
			for _, v := range t.evs {
				if v.k == "store" && v.ptr != nil && w.encodings()[v.ptr.o] != nil {
					r.check(rule, false, evPos(w, v), "%s changes bytes that were handed to the sender", w.baseName(e.name))
				}
			}
		}
	}
}

// announced: the encoding is that of the announcement of the configuration of
// a node of the world.
func (w *World) announced(v *Ev) bool {
	p, ok := v.args[0].(*Ptr)
	if !ok || len(p.p) != 0 {
		return false
	}
	for _, e := range w.entries {
		for _, t := range w.traces(e) {
			for _, a := range t.evs {
				if a.k != "announce" || v.node == nil || a.node.key() != v.node.key() {
					continue
				}
				cfg, _ := a.args[0].(*Node)
				s := w.evState(a)
				for _, o := range w.objsOf(s, typeName(w.rootType("Node"))) {
					n, _ := w.x.field(s, &Ptr{o: o, t: o.t}, "Config")
					if cfg != nil && n != nil && w.x.normKey(s, cfg) == w.x.normKey(s, n) {
						return true
					}
				}
			}
		}
	}
	return false
}

// sender: whatever is put on a send channel is written to the socket once.
func (w *World) sender(r *Rep, typ string, chans map[string]bool) {
	const rule = "what is handed to the sender is written once"
	n := 0
	ls := w.launched(typ)
	runs := false
	for _, e := range w.entries {
		for _, t := range w.traces(e) {
			for i, v := range t.evs {
				val, ok := received(v)
				if !ok || v.ch == nil || !chans[w.chanName(v, v.ch)] {
					continue
				}
				runs = runs || ls[e]
				n++
				vs := w.evState(v)
				data, addr := w.payload(vs, elemOfChan(v.ch), val)
				var ws []*Ev
				for _, u := range t.evs[i+1:] {
					if _, ok := received(u); ok && u.ch != nil && chans[w.chanName(u, u.ch)] {
						break
					}
					if u.k == "write" {
						ws = append(ws, u)
					}
					for _, y := range allEvents([]*Ev{u})[1:] {
						r.check(rule, y.k != "write", evPos(w, y), "%s writes in an inner loop", w.baseName(e.name))
					}
				}
				if len(ws) == 0 && (w.stopAfter(t, i) || w.stopped(t.end)) {
					continue
				}
				if !r.check(rule, len(ws) == 1 && len(data) == 1 && len(addr) == 1, evPos(w, v), "%s writes a message %d times", w.baseName(e.name), len(ws)) {
					continue
				}
				d := w.delivered(ws[0], nil)
				us := w.evState(ws[0])
				r.check(rule, d.data != nil && w.sameBytes(us, d.data, vs, data[0]), evPos(w, ws[0]), "%s does not write exactly the bytes it was given", w.baseName(e.name))
				r.check(rule, d.addr != nil && w.x.normKey(us, d.addr) == w.x.normKey(vs, addr[0]), evPos(w, ws[0]), "%s does not write to the address it was given", w.baseName(e.name))
			}
		}
		if ls[e] {
			rcv := false
			for _, t := range w.traces(e) {
				for _, v := range t.evs {
					_, ok := received(v)
					rcv = rcv || ok && v.ch != nil && chans[w.chanName(v, v.ch)]
				}
			}
			if rcv {
				w.endsOnlyAtStop(r, rule, e, nil)
				w.alwaysReady(r, rule, e, func(n string) bool { return chans[n] })
			}
		}
	}
	r.check(rule, n > 0 && runs, "node.go", "no goroutine launched by the start writes what is handed to the sender")
}

// alwaysReady: a goroutine that serves a channel waits for it at the head of
// every iteration of its loop.
func (w *World) alwaysReady(r *Rep, rule string, e *Entry, is func(name string) bool) {
	serving := map[*LoopInfo]bool{}
	for _, t := range w.traces(e) {
		for _, v := range t.evs {
			if _, ok := received(v); ok && t.loop != nil && v.ch != nil && is(w.chanName(v, v.ch)) {
				serving[t.loop] = true
			}
		}
	}
	for _, t := range w.traces(e) {
		if t.loop == nil || !serving[t.loop] {
			continue
		}
		for _, v := range t.evs {
			if v.k == "sleep" {
				r.check(rule, false, evPos(w, v), "%s sleeps instead of waiting", w.baseName(e.name))
			}
		}
		for _, v := range t.evs {
			if v.k == "recv" || v.k == "select" || v.k == "send" {
				ok := v.k == "recv" && is(w.chanName(v, v.ch))
				for _, c := range v.sel {
					ok = ok || !c.send && is(w.chanName(v, c.ch))
				}
				r.check(rule, ok, evPos(w, v), "%s waits for something else first", w.baseName(e.name))
				break
			}
		}
	}
	r.check(rule, len(serving) > 0, r.fnPos(e.fn), "%s does not serve its channel in a loop", w.baseName(e.name))
}

// ---------------------------------------------------------------------------
// C19
// ---------------------------------------------------------------------------

func propC19(r *Rep) {
	r.desc = "a node and a controller are analysed from construction (with a symbolic broadcast address) through start: the callbacks the constructor registers for ArtPoll and ArtPollReply, every goroutine and every path and loop iteration; each receipt of a poll must deliver exactly one datagram, to that address, whose bytes are the unmodified encoding of the announcement of the node's Config; what is delivered must be written once; the controller must poll before its loop and in each iteration that receives from a ticker of at most 3 s; the facts on every path that changes the registry must exclude all other kinds of devices, and those on every path that does not must exclude nodes and controllers with outputs"
	w := r.world()
	for _, typ := range []string{"Node", "Controller"} {
		opt := map[string]string{"Node": "NodeBroadcastAddress", "Controller": "BroadcastAddr"}[typ]
		sc := w.live(typ, []string{opt}, nil)
		sw := sc.w
		r.absorb(sw.x)
		if !r.check("scenario", sc.fail == "" && len(sc.started()) > 0, "New"+typ, "a %s cannot be constructed, configured and started: %s", typ, sc.fail) {
			continue
		}
		bc, _ := sc.argOf[opt].(*Node)
		chans := sw.sendChans()
		sw.sender(r, typ, chans)
		polls := sc.pollAnswers(r, bc, chans)
		replies := sc.replyHandler(r)
		sw.wireChanged(r, "bytes stay as encoded")
		if typ == "Controller" {
			sc.polls(r, bc, chans, polls)
			sc.registers(r, replies)
		}
	}
	r.onlyFor(propC05, "ArtPollPacket", "ArtPollReplyPacket")
	r.sub(propC11, func(string) bool { return true })
}

// onlyFor decides another property for some packet types.
func (r *Rep) onlyFor(f func(*Rep), typ ...string) {
	only := map[string]bool{}
	for _, t := range typ {
		only[t] = true
	}
	r.sub(func(n *Rep) { n.only = only; f(n) }, func(rule string) bool { return rule != "instances" })
}

// pollAnswers checks that a decoded ArtPoll leads to one reply; it returns the
// names of the channels polls are put on.
func (sc *Scenario) pollAnswers(r *Rep, bc *Node, chans map[string]bool) map[string]bool {
	w := sc.w
	polls := map[string]bool{}
	f := sc.hand[opPoll]
	if !r.check("a poll is passed on once", f != nil, "node.go NewNode", "no callback for ArtPoll") {
		return polls
	}
	direct := false
	for _, s := range sc.started() {
		p, _ := sc.packetArg(s, f, "ArtPollPacket")
		if p == nil {
			r.check("a poll is passed on once", false, r.fnPos(f.fn), "the callback has another form")
			return polls
		}
		e := sc.call("poll handler", s, f, []Value{p})
		for _, t := range w.traces(e) {
			var ss []*Ev
			for _, v := range t.evs {
				if _, ok := sent(v); ok {
					ss = append(ss, v)
				}
				r.check("a poll is passed on once", v.k != "go", evPos(w, v), "the handler launches a goroutine")
			}
			if len(ss) == 0 && t.loop == nil && w.cutShort(t) {
				continue
			}
			if t.loop != nil {
				r.check("a poll is passed on once", len(ss) == 0, r.fnPos(f.fn), "the handler passes a poll on in a loop")
				continue
			}
			if !r.check("a poll is passed on once", len(ss) == 1, r.fnPos(f.fn), "the handler passes a poll on %d times", len(ss)) {
				continue
			}
			if d := w.delivered(ss[0], chans); d != nil {
				direct = true
				sc.isReply(r, d, bc)
				continue
			}
			polls[w.chanName(ss[0], ss[0].ch)] = true
		}
	}
	if direct && len(polls) == 0 {
		return polls
	}
	const rule = "a poll is answered once"
	n, runs := 0, false
	ls := w.launched(sc.typ)
	for _, e := range w.entries {
		serves := false
		for _, t := range w.traces(e) {
			for i, v := range t.evs {
				if _, ok := received(v); !ok || v.ch == nil || !polls[w.chanName(v, v.ch)] {
					continue
				}
				n++
				serves = true
				var ds []*delivery
				for _, u := range t.evs[i+1:] {
					if _, ok := received(u); ok && u.ch != nil && polls[w.chanName(u, u.ch)] {
						break
					}
					if d := w.delivered(u, chans); d != nil {
						ds = append(ds, d)
					}
					for _, y := range allEvents([]*Ev{u})[1:] {
						r.check(rule, w.delivered(y, chans) == nil, evPos(w, y), "%s answers in an inner loop", w.baseName(e.name))
					}
				}
				if len(ds) == 0 && (w.stopAfter(t, i) || w.stopped(t.end)) {
					continue
				}
				if r.check(rule, len(ds) == 1, evPos(w, v), "%s answers a poll %d times", w.baseName(e.name), len(ds)) {
					sc.isReply(r, ds[0], bc)
				}
			}
		}
		if serves {
			if ls[e] {
				runs = true
			}
			w.endsOnlyAtStop(r, rule, e, nil)
			w.alwaysReady(r, rule, e, func(n string) bool { return polls[n] })
		}
	}
	r.check(rule, n > 0 && runs, "node.go", "no goroutine launched by the start answers polls")
	return polls
}

func (sc *Scenario) isReply(r *Rep, d *delivery, bc *Node) {
	w := sc.w
	at := evPos(w, d.v)
	s := w.evState(d.v)
	r.check("replies go to the broadcast address", d.addr != nil && bc != nil && w.x.normKey(s, d.addr) == w.x.normKey(s, bc), at, "the reply does not go to the configured broadcast address")
	en := w.encoded(d)
	r.check("replies describe the node", en != nil && en.name == "ArtPollReplyPacket" && w.announced(en), at, "the reply is not the encoded announcement of the node's configuration")
}

// replyHandler checks the callback for ArtPollReply; it returns the channels
// replies are put on.
func (sc *Scenario) replyHandler(r *Rep) map[string]bool {
	const rule = "only controllers act on poll replies"
	w, x := sc.w, sc.w.x
	out := map[string]bool{}
	f := sc.hand[opPollReply]
	if !r.check(rule, f != nil, "node.go NewNode", "no callback for ArtPollReply") {
		return out
	}
	nd := w.rootType("Node")
	yes, no := 0, 0
	for _, s := range sc.started() {
		p, pp := sc.packetArg(s, f, "ArtPollReplyPacket")
		if p == nil {
			r.check(rule, false, r.fnPos(f.fn), "the callback has another form")
			return out
		}
		content := x.getFrom(s, pp.o, nil)
		e := sc.call("reply handler", s, f, []Value{p})
		for _, t := range w.traces(e) {
			var ss []*Ev
			var sv Value
			for _, v := range t.evs {
				if val, ok := sent(v); ok {
					ss = append(ss, v)
					sv = val
				}
				bad := v.k == "go" || v.k == "write" || v.k == "mapset" || v.k == "mapdel" || v.k == "append"
				r.check(rule, !bad, evPos(w, v), "the handler does something else with a reply (%s)", v.k)
			}
			at := r.fnPos(f.fn)
			if t.loop != nil {
				r.check(rule, len(ss) == 0, at, "the handler passes a reply on in a loop")
				continue
			}
			if t.pan {
				continue
			}
			ctl := -1
			es := t.end
			if len(ss) > 0 {
				es = w.evState(ss[0])
			}
			for _, o := range w.objsOf(es, typeName(nd)) {
				cfg, _ := x.field(es, &Ptr{o: o, t: o.t}, "Config")
				tn, _ := x.fieldOf(es, cfg, "Type")
				ctl = es.decide(cmpConst(x.nodeInt(es, tn), styleController))
			}
			switch {
			case len(ss) == 0 && w.cutShort(t):
			case len(ss) == 0:
				no++
				r.check(rule, ctl == 0, at, "a controller can drop a poll reply")
			default:
				yes++
				r.check(rule, ctl == 1, evPos(w, ss[0]), "a node that is not known to be a controller passes a poll reply on")
				r.check(rule, len(ss) == 1, evPos(w, ss[0]), "a poll reply is passed on %d times", len(ss))
				n, _ := sv.(*Node)
				if q, ok := sv.(*Ptr); ok {
					n = x.getFrom(es, q.o, q.p)
				}
				r.check("poll replies are passed on unchanged", n != nil && x.normKey(es, n) == x.normKey(es, content), evPos(w, ss[0]), "the reply passed on is not the one received")
				out[w.chanName(ss[0], ss[0].ch)] = true
			}
		}
	}
	r.check(rule, yes > 0 && (no > 0 || sc.typ == "Controller"), r.fnPos(f.fn), "%d paths pass replies on, %d do not", yes, no)
	return out
}

const styleNode, styleController = 0, 1

// tickerOf finds the creation of the ticker whose channel an event receives
// from.
func (w *World) tickerOf(v *Ev) *Ev {
	c, ok := v.ch.(*ChanV)
	if !ok {
		return nil
	}
	for _, e := range w.entries {
		for _, t := range w.traces(e) {
			for _, u := range t.evs {
				if (u.k == "ticker" || u.k == "tick") && u.ch != nil {
					if d, ok := u.ch.(*ChanV); ok && d.o == c.o {
						return u
					}
				}
			}
		}
	}
	return nil
}

// polls: the controller polls at start and at every tick.
func (sc *Scenario) polls(r *Rep, bc *Node, chans, polls map[string]bool) {
	w := sc.w
	ls := w.launched(sc.typ)
	isPoll := func(v *Ev) (net, own bool) {
		if d := w.delivered(v, chans); d != nil {
			if en := w.encoded(d); en != nil && en.name == "ArtPollPacket" {
				s := w.evState(v)
				r.check("polls go to the broadcast address", d.addr != nil && w.x.normKey(s, d.addr) == w.x.normKey(s, bc), evPos(w, v), "the poll does not go to the configured broadcast address")
				return true, false
			}
		}
		if _, ok := sent(v); ok && v.ch != nil && polls[w.chanName(v, v.ch)] {
			return false, true
		}
		return false, false
	}
	atStart, atTick := 0, 0
	for _, e := range w.entries {
		if !ls[e] {
			continue
		}
		// does it poll?
		ticks := map[*Obj]bool{}
		poller := false
		for _, t := range w.traces(e) {
			var last *Ev
			for _, v := range t.evs {
				if _, ok := received(v); ok && !w.isStop(v) {
					last = v
				}
				if n, _ := isPoll(v); n {
					poller = true
					if last != nil && w.tickerOf(last) != nil {
						ticks[last.ch.(*ChanV).o] = true
					}
				}
			}
		}
		if !poller {
			continue
		}
		w.endsOnlyAtStop(r, "polling goes on", e, nil)
		names := map[string]bool{}
		for _, t := range w.traces(e) {
			// at start
			if t.loop == nil && !t.pan {
				n, o, cut, waited := 0, 0, false, false
				for _, v := range t.evs {
					if w.isStop(v) {
						cut = true
						break
					}
					if _, ok := received(v); ok || v.loop != nil && w.waitsIn(v.loop) {
						waited = true
						break
					}
					a, b := isPoll(v)
					if a {
						n++
					}
					if b {
						o++
					}
				}
				if cut && !waited {
					continue
				}
				atStart++
				r.check("a poll is sent at start", n == 1 && o == 1, r.fnPos(e.fn), "%s sends %d polls, %d of them to itself, before it waits", w.baseName(e.name), n+o, o)
			}
			// at each tick
			for i, v := range t.evs {
				if _, ok := received(v); !ok || v.ch == nil || !ticks[v.ch.(*ChanV).o] {
					continue
				}
				names[w.chanName(v, v.ch)] = true
				n, o, cut := 0, 0, false
				for _, u := range t.evs[i+1:] {
					if w.isStop(u) {
						cut = true
						break
					}
					if _, ok := received(u); ok {
						break
					}
					a, b := isPoll(u)
					if a {
						n++
					}
					if b {
						o++
					}
				}
				if cut || w.stopped(t.end) {
					continue
				}
				atTick++
				r.check("a poll is sent at every interval", n == 1 && o == 1, evPos(w, v), "%s sends %d polls, %d of them to itself, at a tick", w.baseName(e.name), n+o, o)
				tk := w.tickerOf(v)
				d, _ := tk.args[0].(*Int)
				ok := d != nil && w.evState(tk).entails(lc(3000000000).sub(d.linear()))
				r.check("the poll interval is at most 3 seconds", ok, evPos(w, tk), "the poll interval may exceed 3 seconds")
			}
		}
		if len(names) > 0 {
			w.alwaysReady(r, "polling goes on", e, func(n string) bool { return names[n] })
		}
		for _, g := range w.entries {
			for _, t := range w.traces(g) {
				for _, v := range t.evs {
					if (v.k == "tickstop" || v.k == "tickreset") && v.ch != nil && ticks[v.ch.(*ChanV).o] {
						r.check("polling goes on", w.cutShort(t), evPos(w, v), "%s stops the poll ticker", w.baseName(g.name))
					}
				}
			}
		}
	}
	r.check("a poll is sent at start", atStart > 0, "controller.go", "no goroutine launched by the start polls")
	r.check("a poll is sent at every interval", atTick > 0, "controller.go", "no goroutine launched by the start polls at intervals")
}

// waitsIn: iterations of the loop take something from a channel.
func (w *World) waitsIn(l *LoopInfo) bool {
	for _, a := range l.alts {
		for _, v := range allEvents(a.evs) {
			if _, ok := received(v); ok {
				return true
			}
		}
	}
	return false
}

// registryFields: the tables and the list of a controller.
func (w *World) registryFields() (list string, tables []string) {
	c, cn := w.rootType("Controller"), w.rootType("ControlledNode")
	if c == nil || cn == nil {
		return
	}
	st := c.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch u := f.Type().Underlying().(type) {
		case *types.Slice:
			if types.Identical(types.Unalias(derefType(u.Elem())), cn) {
				list = typeName(c) + "." + f.Name()
			}
		case *types.Map:
			if types.Identical(types.Unalias(derefType(u.Elem())), cn) {
				tables = append(tables, typeName(c)+"."+f.Name())
			}
		}
	}
	return
}

func (w *World) isTable(v *Ev) string {
	_, ts := w.registryFields()
	for _, n := range w.fieldHolding(v.heap, v.ch) {
		for _, t := range ts {
			if n == t {
				return t
			}
		}
	}
	return ""
}

// changesRegistry: the event changes the list, a table or an entry.
func (w *World) changesRegistry(v *Ev) bool {
	list, _ := w.registryFields()
	switch v.k {
	case "mapset", "mapdel", "mapclear":
		return w.isTable(v) != ""
	case "store":
		t, f, ok := ptrField(v.ptr)
		return ok && (t+"."+f == list || t == typeName(w.rootType("ControlledNode")))
	}
	return false
}

// registers: which replies enter the registry.
func (sc *Scenario) registers(r *Rep, replies map[string]bool) {
	w, x := sc.w, sc.w.x
	ls := w.launched(sc.typ)
	in, out, runs := 0, 0, false
	rules := [2]string{"only nodes and controllers with outputs are registered", "every node and controller with outputs is registered"}
	for _, e := range w.entries {
		serves := false
		for _, t := range w.traces(e) {
			for i, v := range t.evs {
				val, ok := received(v)
				if !ok || v.ch == nil || !replies[w.chanName(v, v.ch)] {
					continue
				}
				serves = true
				rest := t.evs[i+1:]
				for j, u := range rest {
					if _, ok := received(u); ok && !w.isStop(u) {
						rest = rest[:j]
						break
					}
				}
				var cfgs []*Ev
				var first *Ev
				for _, u := range rest {
					if u.k == "config" {
						cfgs = append(cfgs, u)
					}
					if first == nil {
						for _, y := range allEvents([]*Ev{u}) {
							if w.changesRegistry(y) {
								first = u
								break
							}
						}
					}
				}
				if len(cfgs) == 0 && (w.stopAfter(t, i) || w.stopped(t.end)) {
					continue
				}
				if !r.check("replies are converted", len(cfgs) == 1, evPos(w, v), "%s converts a reply %d times", w.baseName(e.name), len(cfgs)) {
					continue
				}
				c := cfgs[0]
				cs := w.evState(c)
				same := false
				if an, ok := c.args[0].(*Node); ok {
					n, _ := val.(*Node)
					if q, ok := val.(*Ptr); ok {
						n = x.getFrom(cs, q.o, q.p)
					}
					same = n != nil && x.normKey(cs, an) == x.normKey(cs, n)
				}
				r.check("replies are converted", same, evPos(w, c), "%s converts something else than the reply received", w.baseName(e.name))
				cfg, _ := c.res.(*Node)
				try := func(s *State, typ []int64, not bool, outs int) bool {
					s = s.clone()
					tn, _ := x.fieldOf(s, cfg, "Type")
					ti := x.nodeInt(s, tn)
					for _, k := range typ {
						if !s.assume(cmpConst(ti, k), !not) {
							return false
						}
					}
					if outs >= 0 {
						on, _ := x.fieldOf(s, cfg, "OutputPorts")
						sl, ok := x.toVal(s, on).(*Slice)
						if !ok {
							return true
						}
						if outs == 0 {
							return s.addGE(lc(0).sub(sl.len)) && s.addGE(sl.len)
						}
						return s.addGE(sl.len.plus(-1))
					}
					return true
				}
				if first != nil {
					in++
					s := w.evState(first)
					r.check(rules[0], !try(s, []int64{styleNode, styleController}, true, -1), evPos(w, first), "%s registers devices that are neither nodes nor controllers", w.baseName(e.name))
					r.check(rules[0], !try(s, []int64{styleController}, false, 0), evPos(w, first), "%s registers controllers without outputs", w.baseName(e.name))
					continue
				}
				if w.stopAfter(t, i) {
					continue
				}
				out++
				r.check(rules[1], !try(t.end, []int64{styleNode}, false, -1), evPos(w, c), "%s can ignore a node", w.baseName(e.name))
				r.check(rules[1], !try(t.end, []int64{styleController}, false, 1), evPos(w, c), "%s can ignore a controller with outputs", w.baseName(e.name))
			}
		}
		if serves {
			runs = runs || ls[e]
			w.endsOnlyAtStop(r, "replies are converted", e, nil)
			w.alwaysReady(r, "replies are converted", e, func(n string) bool { return replies[n] })
		}
	}
	r.check(rules[0], in > 0 && out > 0 && runs, "controller.go", "%d paths register, %d do not, served by a launched goroutine: %v", in, out, runs)
	// nothing else enters
	ww := w.parent
	for _, e := range ww.entries {
		var visit func(evs []*Ev, after bool)
		seen := map[*LoopInfo]bool{}
		visit = func(evs []*Ev, after bool) {
			for _, v := range evs {
				if _, ok := received(v); ok && v.ch != nil {
					after = replies[ww.chanName(v, v.ch)]
				}
				if v.loop != nil && !seen[v.loop] {
					seen[v.loop] = true
					for _, a := range v.loop.alts {
						visit(a.evs, after)
					}
				}
				if v.k == "mapset" && ww.isTable(v) != "" {
					// a node that is listed already may be linked again
					if p, ok := ww.x.toVal(ww.evState(v), v.node).(*Ptr); ok && p.o.sym && p.o.elem != "" {
						r.check("nothing but replies enters the registry", true, evPos(ww, v), "")
						continue
					}
					r.check("nothing but replies enters the registry", after, evPos(ww, v), "%s adds to %s without a reply", ww.baseName(e.name), short(ww.isTable(v)))
				}
			}
		}
		for _, o := range e.outs {
			visit(events(nil, o.s.tr), false)
		}
		for _, l := range ww.x.loops[e.name] {
			if !seen[l] && ww.waitsIn(l) {
				seen[l] = true
				for _, a := range l.alts {
					visit(a.evs, false)
				}
			}
		}
	}
	r.atLeast("nothing but replies enters the registry", 2, "controller.go")
}

var _ = strings.Contains
