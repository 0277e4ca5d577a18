package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// objKey is the field of an object a pointer designates, if it is a direct
// field of a struct object.
func ptrField(p *Ptr) (typ, field string, ok bool) {
	if p == nil || len(p.p) != 1 || p.o.t == nil {
		return
	}
	fs := fieldsOf(p)
	if len(fs) != 1 {
		return
	}
	return fs[0].Type, fs[0].Field, true
}

// badIn lists obligations that an entry can violate.
func (w *World) badIn(r *Rep, rule, entry string) {
	for _, o := range sortedBy(w.x.obl) {
		if o.Entry[entry] {
			why, bad := o.BadIn[entry]
			r.check(rule, !bad, w.x.pos(o.Instr)+" "+o.Fn.Name(), "%s: %s possible: %s", entry, o.Kind, why)
		}
	}
}

// fieldChan: the named field of an object holds this channel.
func (w *World) heldBy(s *State, o *Obj, field string, ch Value) bool {
	n, _ := w.x.field(s, &Ptr{o: o, t: o.t}, field)
	if n == nil {
		return false
	}
	c, ok := w.x.toVal(s, n).(*ChanV)
	d, ok2 := ch.(*ChanV)
	return ok && ok2 && c.o == d.o
}

func propC16(r *Rep) {
	r.desc = "typestate of the stop flag and the stop signal on every path of every entry: each close of a channel follows the store running->stopped on its path, made under a lock; each store stopped->running follows the installation of a fresh stop channel; operations on the callback table are compared with the state of the flag on their path"
	w := r.world()
	x := w.x
	for _, typ := range []string{"Node", "Controller"} {
		f := w.stopFlag(typ)
		if f == nil {
			r.check("stop flag", false, typ+".Stop", "no flag is set by %s.Stop", typ)
			continue
		}
		// the stop channel
		nm := typ + ".Stop"
		e := w.entry(nm)
		r.check("Stop cannot panic", true, "", "")
		w.badIn(r, "Stop cannot panic", nm)
		for _, b := range sortedBy(x.blocks) {
			if b.Entry != nm {
				continue
			}
			for _, v := range b.Evs {
				r.check("Stop does not wait", !v.blk, x.pos(b.Instr), "%s can wait for a channel", nm)
			}
		}
		trans := 0
		for _, t := range w.traces(e) {
			for _, v := range t.evs {
				r.check("Stop does not wait", !v.blk || v.k == "lock", evPos(w, v), "%s can wait: %s", nm, v.k)
				if isFlagStore(v, f) && w.flagNode(w.evState(v), f, v.node) == 1 && w.flagNode(t.end, f, v.old) != 1 {
					trans++
				}
			}
			if t.loop == nil && !t.pan {
				p, ok := e.recv.(*Ptr)
				r.check("stopped after Stop", ok && w.flagIs(t.end, f, p.o) == 1, r.fnPos(e.fn), "%s can return while the flag does not say stopped", nm)
			}
		}
		r.check("stop transition found", trans > 0, r.fnPos(e.fn), "%s never sets the flag", nm)
	}
	// closes
	nclose, nstart := 0, 0
	for _, e := range w.entries {
		for _, t := range w.traces(e) {
			used := map[*Ev]bool{}
			for i, v := range t.evs {
				switch {
				case v.k == "close":
					nclose++
					nm := w.chanName(v, v.ch)
					var by *Ev
					for _, u := range t.evs[:i] {
						for _, typ := range []string{"Node", "Controller"} {
							f := w.stopFlag(typ)
							if f == nil || !isFlagStore(u, f) || used[u] || !strings.HasPrefix(nm, f.typ+".") {
								continue
							}
							if w.flagNode(w.evState(u), f, u.node) == 1 && w.flagNode(w.evState(v), f, u.old) == 0 && len(u.locks) > 0 && w.heldBy(w.evState(v), u.ptr.o, nm[len(f.typ)+1:], v.ch) {
								by = u
							}
						}
					}
					if by != nil {
						used[by] = true
					}
					r.check("closed once per start", by != nil, evPos(w, v), "%s closes %s although the flag was not changed from running to stopped before it on this path (%d events)", e.name, short(nm), i)
				case v.k == "store":
					for _, typ := range []string{"Node", "Controller"} {
						f := w.stopFlag(typ)
						if f == nil {
							continue
						}
						vs := w.evState(v)
						if isFlagStore(v, f) && w.flagNode(vs, f, v.node) != 1 {
							// a start
							nstart++
							r.check("only a stopped one starts", w.flagNode(vs, f, v.old) == 1 && len(v.locks) > 0 || e.kind == "func", evPos(w, v), "%s sets the flag to running without knowing that it was stopped", e.name)
							ok := false
							for _, u := range t.evs[:i] {
								if ut, uf, y := ptrField(u.ptr); u.k == "store" && y && ut == f.typ && u.ptr.o == v.ptr.o && w.stopChans()[ut+"."+uf] {
									c, isCh := x.toVal(w.evState(u), u.node).(*ChanV)
									ok = ok || isCh && c.o.instr != nil && !c.o.sym && w.heldBy(vs, v.ptr.o, uf, c)
								}
							}
							r.check("a start installs a fresh stop signal", ok, evPos(w, v), "%s sets the flag to running without having installed a new stop channel", e.name)
						}
						// replacing the stop channel
						if ut, uf, y := ptrField(v.ptr); y && ut == f.typ && w.stopChans()[ut+"."+uf] && e.kind != "func" {
							r.check("the stop signal is replaced only while stopped", w.flagIs(vs, f, v.ptr.o) == 1, evPos(w, v), "%s replaces %s although the flag may say running", e.name, short(ut+"."+uf))
						}
					}
				}
			}
		}
	}
	r.check("stop signals found", nclose >= 2, "root package", "only %d closes of a stop signal were found", nclose)
	r.check("starts found", nstart >= 2, "root package", "only %d transitions to running were found", nstart)
	// callbacks
	f := w.stopFlag("Node")
	if f == nil {
		return
	}
	cbField := w.callbackField()
	if !r.check("callback table", cbField != "", "node.go", "Node has no table of callbacks") {
		return
	}
	key := f.typ + "." + cbField
	isCB := func(v *Ev) (kind string) {
		switch v.k {
		case "mapset", "mapdel", "mapclear":
			for _, n := range w.fieldHolding(v.heap, v.ch) {
				if n == key {
					return v.k
				}
			}
		case "store":
			if ut, uf, y := ptrField(v.ptr); y && ut+"."+uf == key {
				return "store"
			}
		}
		return ""
	}
	for _, nm := range []string{"Node.RegisterCallback", "Node.DeregisterCallback"} {
		e := w.entry(nm)
		if e == nil || e.recv == nil {
			r.check("operation exists", false, "node.go", "%s not found", nm)
			continue
		}
		p := e.recv.(*Ptr)
		for _, t := range w.traces(e) {
			if t.loop != nil {
				for _, v := range t.evs {
					r.check("callback change is direct", isCB(v) == "", evPos(w, v), "%s changes callbacks in a loop", nm)
				}
				continue
			}
			st := w.flagIs(t.end, f, p.o)
			if !r.check("looks at the flag", st >= 0, r.fnPos(e.fn), "%s has a way through that does not depend on whether the node runs", nm) {
				continue
			}
			var ch []*Ev
			for _, v := range t.evs {
				if isCB(v) != "" {
					ch = append(ch, v)
				}
			}
			if st == 0 {
				ok := len(ch) == 0
				for _, v := range t.evs {
					ok = ok && v.k != "store" && !strings.HasPrefix(v.k, "map")
				}
				r.check("no effect while running", ok, r.fnPos(e.fn), "%s changes the node while it runs", nm)
				continue
			}
			if !r.check("takes effect while stopped", len(ch) == 1, r.fnPos(e.fn), "%s makes %d changes to the callbacks of a stopped node, not 1", nm, len(ch)) {
				continue
			}
			v := ch[0]
			vs := w.evState(v)
			want := "mapset"
			if nm == "Node.DeregisterCallback" {
				want = "mapdel"
			}
			op, _ := e.args[1].(*Int)
			ok := v.k == want && len(v.args) > 0
			if ok {
				k, _ := v.args[0].(*Int)
				ok = k != nil && op != nil && eqInts(vs, k, op)
			}
			if ok && want == "mapset" {
				fv, _ := x.toVal(vs, v.node).(*Func)
				av, _ := e.args[2].(*Func)
				ok = fv != nil && av != nil && vkey(fv) == vkey(av)
			}
			r.check("for that op code only", ok, evPos(w, v), "%s: %s", nm, w.evText(v))
		}
	}
	// nothing else changes the table of a node that may run
	for _, e := range w.entries {
		for _, t := range w.traces(e) {
			for i, v := range t.evs {
				k := isCB(v)
				if k == "" || e.name == "Node.RegisterCallback" || e.name == "Node.DeregisterCallback" {
					continue
				}
				if e.kind == "func" {
					// a constructor: before the options
					for _, u := range t.evs[:i] {
						opt := u.k == "callback"
						if u.loop != nil {
							for _, a := range u.loop.alts {
								for _, y := range a.evs {
									opt = opt || y.k == "callback"
								}
							}
						}
						r.check("options see the final table", !opt, evPos(w, v), "%s changes the callbacks after options were applied", e.name)
					}
					continue
				}
				r.check("the callbacks freeze at start", false, evPos(w, v), "%s changes the callbacks (%s)", e.name, k)
			}
			for _, v := range t.evs {
				if e.kind != "func" || v.k != "callback" || !strings.Contains(v.name, "Option") || len(v.args) != 1 {
					continue
				}
				p, ok := v.args[0].(*Ptr)
				if !ok || typeName(p.t) != f.typ {
					continue
				}
				vs := w.evState(v)
				r.check("options can register callbacks", w.flagIs(vs, f, p.o) == 1, evPos(w, v), "options are applied while the flag does not say stopped")
				n, _ := x.field(vs, p, cbField)
				m, isMap := x.toVal(vs, n).(*MapV)
				r.check("options can register callbacks", isMap && vs.decide(nilCond(m)) == 0, evPos(w, v), "options are applied before there is a table of callbacks")
			}
		}
	}
	r.atLeast("options can register callbacks", 2, "NewNode")
	r.atLeast("no effect while running", 2, "node.go")
	r.atLeast("for that op code only", 2, "node.go")
}

// callbackField is the field of Node that maps op codes to callbacks.
func (w *World) callbackField() string {
	nd := w.rootType("Node")
	if nd == nil {
		return ""
	}
	st := nd.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if m, ok := st.Field(i).Type().Underlying().(*types.Map); ok {
			if _, ok := m.Elem().Underlying().(*types.Signature); ok {
				return st.Field(i).Name()
			}
		}
	}
	return ""
}

var _ = fmt.Sprint

// protocol is the protocol number of a port type.
func protocol(t *Int) *Int { return fromBits(bitsOf(t, 0, 6)) }

// portTypes reads the types of the first n ports of a list.
func (w *World) portTypes(s *State, cfg *Node, list string, n int) []*Int {
	x := w.x
	ln, _ := x.fieldOf(s, cfg, list)
	if ln == nil {
		return nil
	}
	sl, ok := x.toVal(s, ln).(*Slice)
	if !ok {
		return nil
	}
	arr, el := x.arrAt(s, sl.o, sl.p)
	var r []*Int
	for i := 0; i < n; i++ {
		pn := x.elemAt(s, arr, sl.off.plus(int64(i)), el)
		tn, _ := x.fieldOf(s, pn, "Type")
		t := x.nodeInt(s, tn)
		if t == nil || t.w != 8 {
			return nil
		}
		r = append(r, t)
	}
	return r
}

func propC12(r *Rep) {
	r.desc = "Node.Start is interpreted for every pair of port counts 0..4 (and for counts above 4) with unknown ports of defined protocols: each path that opens the socket must entail equal protocols at every common index, each path refused by validation must entail a difference; on every path of both Start operations the order of the events listen, launch, ticker and flag store is checked against the outcome"
	w := r.world()
	x := w.x
	e := w.entry("Node.Start")
	f := w.stopFlag("Node")
	fc := w.stopFlag("Controller")
	ec := w.entry("Controller.Start")
	if e == nil || f == nil || ec == nil || fc == nil {
		r.check("operations exist", false, "node.go", "Start or the stop flags were not found")
		return
	}
	recv := e.recv.(*Ptr)
	where := r.fnPos(e.fn)
	listens := func(o Out) (ok, tried bool) {
		for _, v := range allEvents(events(nil, o.s.tr)) {
			switch v.k {
			case "listen":
				ok, tried = true, true
			case "listenfail":
				tried = true
			}
		}
		return
	}
	// start runs Node.Start with the given port counts (-1: any, 5: more
	// than four) and conditions on the protocols at the common indexes.
	start := func(a, b int, with func(s *State, in, out []*Int, set func(i int, t *Int)) bool) []Out {
		s := e.pre.clone()
		s.tr = nil
		feas := true
		var ts [2][]*Int
		for j, l := range []struct {
			n string
			k int
		}{{"InputPorts", a}, {"OutputPorts", b}} {
			cfg, _ := x.field(s, recv, "Config")
			ln, _ := x.fieldOf(s, cfg, l.n)
			sl, ok := x.toVal(s, ln).(*Slice)
			if !ok {
				r.check("ports", false, where, "%s is not a list", l.n)
				return nil
			}
			n := intLin(sl.len, 64, true)
			if l.k > 4 {
				ok = s.assume(leC(n, 4), false)
			} else if l.k >= 0 {
				ok = s.assume(cmpConst(n, int64(l.k)), true)
			}
			feas = feas && ok
			if l.k > 0 && l.k <= 4 {
				ts[j] = w.portTypes(s, cfg, l.n, l.k)
				feas = feas && len(ts[j]) == l.k
			}
		}
		if with != nil && feas {
			feas = with(s, ts[0], ts[1], func(i int, t *Int) {
				cfg, _ := x.field(s, recv, "Config")
				ln, _ := x.fieldOf(s, cfg, "OutputPorts")
				sl := x.toVal(s, ln).(*Slice)
				fp, ft := fieldPath(sl.el, "Type")
				p := &Ptr{o: sl.o, p: append(append(append([]Step{}, sl.p...), Step{idx: sl.off.plus(int64(i))}), fp...), t: ft}
				x.write(s, p, x.toNode(ft, t))
			})
		}
		if !r.check("configuration exists", feas, where, "no configuration with %d input and %d output ports", a, b) {
			return nil
		}
		x.quiet++
		outs := x.runFn(s, e.fn, e.args, nil, nil)
		x.quiet--
		return outs
	}
	refused := func(rule, what string, outs []Out) {
		n := 0
		for _, o := range outs {
			_, tried := listens(o)
			r.check(rule, !tried && !o.pan && o.s.decide(nilCond(o.res)) == 0, where, "a node with %s is not refused", what)
			n++
		}
		r.check(rule, n > 0, where, "Start with %s was not decided", what)
	}
	refused("too many ports are refused", "more than 4 input ports", start(5, -1, nil))
	refused("too many ports are refused", "more than 4 output ports", start(-1, 5, nil))
	for a := 0; a <= 4; a++ {
		for b := 0; b <= 4; b++ {
			m := min(a, b)
			acc := 0
			for _, o := range start(a, b, func(s *State, in, out []*Int, set func(i int, t *Int)) bool {
				for i := 0; i < m; i++ {
					// the same protocol bits, any other bits
					set(i, fromBits(bitsOf(in[i], 0, 6), bitsOf(out[i], 6, 8)))
				}
				return true
			}) {
				_, tried := listens(o)
				if tried {
					acc++
					continue
				}
				r.check("valid configurations pass", w.flagIs(o.s, f, recv.o) == 0, where, "a node with %d input and %d output ports of equal protocols is refused", a, b)
			}
			r.check("valid configurations pass", acc > 0, where, "a node with %d input and %d output ports never opens its socket", a, b)
			for i := 0; i < m; i++ {
				for u := int64(0); u <= 5; u++ {
					refused("different protocols are refused", fmt.Sprintf("%d input and %d output ports and different protocols (%d) at index %d", a, b, u, i),
						start(a, b, func(s *State, in, out []*Int, _ func(i int, t *Int)) bool {
							return s.assume(cmpConst(protocol(in[i]), u), true) && s.assume(cmpConst(protocol(out[i]), u), false) && s.assume(leC(protocol(out[i]), 5), true)
						}))
				}
			}
		}
	}
	// outcome and order of events
	for _, st := range []struct {
		e *Entry
		f *stopFlag
	}{{e, f}, {ec, fc}} {
		rp := st.e.recv.(*Ptr)
		where := r.fnPos(st.e.fn)
		nok, nfail := 0, 0
		for _, t := range w.traces(st.e) {
			if t.loop != nil {
				for _, v := range t.evs {
					r.check("start is direct", v.k != "go" && v.k != "listen" && v.k != "ticker", evPos(w, v), "%s in a loop of %s", v.k, st.e.name)
				}
				continue
			}
			if t.pan {
				continue
			}
			listened, launched := false, false
			for _, v := range t.evs {
				switch v.k {
				case "listen":
					listened = true
				case "go", "ticker", "timer", "tick":
					launched = true
					r.check("launched only with an open socket", listened, evPos(w, v), "%s: %s before the socket was opened", st.e.name, v.k)
				}
			}
			en := nilCond(t.res)
			d := t.end.decide(en)
			ok := r.check("outcome is known", d >= 0, where, "%s: a way through does not tell whether it failed (%s)", st.e.name, clip(vkey(t.res), 60))
			if !ok {
				continue
			}
			if d == 1 {
				nok++
				r.check("success means started", listened && launched && w.flagIs(t.end, st.f, rp.o) == 0, where, "%s reports success without having started", st.e.name)
				continue
			}
			nfail++
			fl := w.flagIs(t.end, st.f, rp.o)
			r.check("a failed start launches nothing", !launched, where, "%s reports an error after launching background activity", st.e.name)
			r.check("a failed start leaves it as it was", !w.flagChanged(t, st.f), where, "%s reports an error after changing the running state", st.e.name)
			r.check("a failed start leaves no socket", !listened, where, "%s reports an error after opening the socket", st.e.name)
			_ = fl
		}
		r.check("both outcomes", nok > 0 && nfail > 0, where, "%s: %d successful and %d failing ways", st.e.name, nok, nfail)
	}
	// the outcome of the socket: a failed open is reported
	for _, en := range []*Entry{e, ec} {
		n := 0
		for _, t := range w.traces(en) {
			for _, v := range t.evs {
				if v.k == "listenfail" && t.loop == nil {
					n++
					r.check("a failed open is reported", t.end.decide(nilCond(t.res)) == 0, evPos(w, v), "%s can succeed although the socket could not be opened", en.name)
				}
			}
		}
		r.check("failed opens found", n > 0, r.fnPos(en.fn), "%s never fails to open the socket", en.name)
	}
}

func (w *World) flagChanged(t *Trace, f *stopFlag) bool {
	for _, v := range t.evs {
		if isFlagStore(v, f) && w.flagNode(w.evState(v), f, v.node) != w.flagNode(w.evState(v), f, v.old) {
			return true
		}
		if isFlagStore(v, f) && w.flagNode(w.evState(v), f, v.old) < 0 {
			return true
		}
	}
	return false
}

// allEvents adds the events inside loops.
func allEvents(evs []*Ev) []*Ev {
	var r []*Ev
	seen := map[*LoopInfo]bool{}
	var visit func(evs []*Ev)
	visit = func(evs []*Ev) {
		for _, v := range evs {
			r = append(r, v)
			if v.loop != nil && !seen[v.loop] {
				seen[v.loop] = true
				for _, a := range v.loop.alts {
					visit(a.evs)
				}
			}
		}
	}
	visit(evs)
	return r
}

// bounded: the loop runs over a collection or up to a limit.
func (l *LoopInfo) bounded() bool {
	for _, b := range l.bounds {
		if b.coef(l.it) < 0 {
			return true
		}
	}
	if len(l.alts) == 0 {
		return true
	}
	for _, a := range l.alts {
		nx := false
		for _, v := range a.evs {
			nx = nx || v.k == "next"
		}
		if !nx {
			return false
		}
	}
	return true
}

// waits: an event at which a goroutine may stay until something happens.
func waits(v *Ev) bool {
	switch v.k {
	case "select", "send", "recv", "wait":
		return v.blk
	case "read", "sleep":
		return true
	}
	return false
}

func propC13(r *Rep) {
	r.desc = "every blocking operation reachable from a goroutine or handler must be a select with a receive from a stop channel (or a read of the socket that Stop closes); every iteration of a loop that waits must contain a stop-observing select whose stop case leaves the loop, or a fresh reading of the stop flag; every path of Stop that sets the flag must close the stop channel and the socket and stop the tickers; local tickers are stopped on every way out"
	w := r.world()
	x := w.x
	stops := w.stopChans()
	fn, fc := w.stopFlag("Node"), w.stopFlag("Controller")
	if fn == nil || fc == nil || len(stops) == 0 {
		r.check("stop signals found", false, "root package", "no stop flag or stop channel was found")
		return
	}
	stopCase := func(v *Ev) (idx int, ok bool) {
		for i, c := range v.sel {
			if !c.send && stops[w.chanName(v, c.ch)] {
				return i, true
			}
		}
		return 0, false
	}
	conns := map[string]bool{} // connection fields that are closed by Stop
	for _, v := range w.stopEvents() {
		if v.k == "connclose" {
			for _, n := range w.fieldHolding(v.heap, base(v.args[0])) {
				conns[n] = true
			}
		}
	}
	nl, nw := 0, 0
	for _, e := range w.entries {
		if e.kind != "go" && e.kind != "callback" {
			continue
		}
		// waiting points
		for _, t := range w.traces(e) {
			for _, v := range t.evs {
				if !waits(v) {
					continue
				}
				nw++
				switch v.k {
				case "sleep":
					r.check("waits end at stop", len(v.args) == 1 && w.boundedTime(v), evPos(w, v), "%s sleeps for an unknown time", e.name)
				case "read":
					ok := false
					for _, n := range w.fieldHolding(v.heap, base(v.args[0])) {
						ok = ok || conns[n]
					}
					r.check("waits end at stop", ok, evPos(w, v), "%s reads from a connection that Stop does not close", e.name)
				default:
					_, ok := stopCase(v)
					r.check("waits end at stop", ok, evPos(w, v), "%s waits (%s %s) without observing the stop signal", e.name, v.k, short(w.chanNames(v)))
				}
			}
		}
		// loops
		r.check("goroutines can end", len(e.outs) > 0, r.fnPos(e.fn), "no way through %s ends", e.name)
		seen := map[*LoopInfo]bool{}
		for _, t := range w.traces(e) {
			{
				l := t.loop
				if l == nil || seen[l] || l.bounded() {
					continue
				}
				seen[l] = true
				any := false
				for _, a := range l.alts {
					for _, v := range allEvents(a.evs) {
						any = any || waits(v)
					}
				}
				if !any {
					continue
				}
				nl++
				left := func(v *Ev) bool {
					// the stop case of this select never continues the loop
					for _, a := range l.alts {
						for _, u := range a.evs {
							if u.instr == v.instr && u.k == "select" && sameStack(u, v) {
								if i, ok := stopCase(u); ok && u.idx == i {
									return false
								}
							}
						}
					}
					return true
				}
				for _, a := range l.alts {
					ok := false
					var last *Ev
					for _, v := range a.evs {
						if v.k == "select" {
							last = v
							if _, has := stopCase(v); has && left(v) {
								ok = true
							}
						}
						if v.k == "lock" {
							for _, f := range []*stopFlag{fn, fc} {
								if v.ptr == nil {
									continue
								}
								g := false
								for _, lk := range w.x.guards[v.str] {
									g = g || lk == f.key()
								}
								if g && w.flagIs(a.s, f, v.ptr.o) == 0 {
									ok = true
								}
							}
						}
					}
					at := fmt.Sprintf("%s %s", x.pos(firstInstr(l)), l.fn.Name())
					why := "it never observes the stop signal"
					if last != nil {
						why = "the stop case does not leave the loop"
						at = evPos(w, last)
					}
					r.check("loops end at stop", ok, at, "%s: an iteration of the loop can be repeated after stop: %s", e.name, why)
				}
			}
		}
		// timers made by goroutines
		for _, t := range w.traces(e) {
			for i, v := range t.evs {
				switch v.k {
				case "tick":
					r.check("timers are stopped", false, evPos(w, v), "%s makes a ticker that nothing can stop", e.name)
				case "ticker", "timer":
					if t.loop != nil {
						// made in a loop: stopped in the same iteration
						ok := false
						for _, u := range t.evs[i:] {
							ok = ok || u.k == "tickstop" && len(u.args) > 0 && vkey(u.args[0]) == vkey(v.res)
						}
						r.check("timers are stopped", ok, evPos(w, v), "%s makes a timer in a loop and keeps it", e.name)
						continue
					}
					ok := false
					for _, u := range t.evs[i:] {
						ok = ok || u.k == "tickstop" && len(u.args) > 0 && vkey(u.args[0]) == vkey(v.res)
					}
					if v.k == "timer" {
						ok = true // ends by itself
					}
					r.check("timers are stopped", ok || t.pan, evPos(w, v), "%s can end without stopping its ticker", e.name)
				}
			}
		}
	}
	r.check("loops found", nl >= 6, "root package", "only %d waiting loops were found", nl)
	r.check("waits found", nw >= 12, "root package", "only %d waits were found", nw)
	// Stop
	for _, st := range []struct {
		name string
		f    *stopFlag
	}{{"Node.Stop", fn}, {"Controller.Stop", fc}} {
		e := w.entry(st.name)
		n := 0
		for _, t := range w.traces(e) {
			if t.loop != nil || t.pan {
				continue
			}
			r.check("stopped after Stop", w.flagIs(t.end, st.f, e.recv.(*Ptr).o) == 1, r.fnPos(e.fn), "%s can return without setting the flag", st.name)
			for _, v := range t.evs {
				for _, f := range []*stopFlag{fn, fc} {
					if !isFlagStore(v, f) || w.flagNode(t.end, f, v.old) == 1 {
						continue
					}
					n++
					w.stopEffects(r, t, f, v, e)
				}
			}
		}
		r.check("stop transition found", n > 0, r.fnPos(e.fn), "%s never stops anything", st.name)
	}
}

// stopEffects checks what a path that stops a node or controller does.
func (w *World) stopEffects(r *Rep, t *Trace, f *stopFlag, v *Ev, e *Entry) {
	x := w.x
	o := v.ptr.o
	nt, ok := o.t.(*types.Named)
	if !ok {
		return
	}
	st := nt.Underlying().(*types.Struct)
	for ch := range w.stopChans() {
		if !strings.HasPrefix(ch, f.typ+".") {
			continue
		}
		ok := false
		for _, u := range t.evs {
			ok = ok || u.k == "close" && w.heldBy(w.evState(u), o, ch[len(f.typ)+1:], u.ch)
		}
		r.check("Stop gives the signal", ok, evPos(w, v), "%s stops a %s without closing %s", e.name, short(f.typ), short(ch))
	}
	for i := 0; i < st.NumFields(); i++ {
		fd := st.Field(i)
		n, _ := x.field(t.end, &Ptr{o: o, t: o.t}, fd.Name())
		p, isPtr := x.toVal(t.end, n).(*Ptr)
		switch typeName(derefType(fd.Type())) {
		case "net.UDPConn":
			ok := false
			for _, u := range t.evs {
				if u.k == "connclose" && len(u.args) > 0 && isPtr && vkey(base(u.args[0])) == vkey(p) {
					ok = true
				}
			}
			if !ok && n != nil {
				if c := nilCond(x.toVal(t.end, n)); c != nil && t.end.decide(c) == 1 {
					ok = true
				}
			}
			r.check("Stop closes the socket", ok, evPos(w, v), "%s stops a %s without closing its %s", e.name, short(f.typ), fd.Name())
		case "time.Ticker":
			if _, isP := fd.Type().Underlying().(*types.Pointer); !isP || !w.madeBy(f.typ+"."+fd.Name()) {
				continue
			}
			ok := false
			for _, u := range t.evs {
				if u.k == "tickstop" && len(u.args) > 0 && isPtr && vkey(u.args[0]) == vkey(p) {
					ok = true
				}
			}
			r.check("Stop stops the tickers", ok, evPos(w, v), "%s stops a %s without stopping its %s", e.name, short(f.typ), fd.Name())
		}
		// a controller stops its node
		if g := w.stopFlag(short(typeName(derefType(fd.Type())))); g != nil && isPtr && f.typ != g.typ {
			if q, ok := x.toVal(t.end, n).(*Ptr); ok {
				r.check("Stop stops the node too", w.flagIs(t.end, g, q.o) == 1, evPos(w, v), "%s does not stop its %s", e.name, fd.Name())
			}
		}
	}
}

// madeBy: some path stores a value in this field.
func (w *World) madeBy(field string) bool {
	for _, e := range w.entries {
		for _, t := range w.traces(e) {
			for _, v := range t.evs {
				if ut, uf, ok := ptrField(v.ptr); v.k == "store" && ok && ut+"."+uf == field {
					return true
				}
			}
		}
	}
	return false
}

func (w *World) stopEvents() []*Ev {
	var r []*Ev
	for _, nm := range []string{"Node.Stop", "Controller.Stop"} {
		if e := w.entry(nm); e != nil {
			for _, t := range w.traces(e) {
				r = append(r, t.evs...)
			}
		}
	}
	return r
}

func (w *World) chanNames(v *Ev) string {
	var ns []string
	for _, c := range v.sel {
		ns = append(ns, w.chanName(v, c.ch))
	}
	if v.ch != nil && len(v.sel) == 0 {
		ns = append(ns, w.chanName(v, v.ch))
	}
	return strings.Join(ns, ", ")
}

func (w *World) boundedTime(v *Ev) bool {
	d, ok := v.args[0].(*Int)
	return ok && w.evState(v).decide(leC(d, int64(60e9))) == 1
}

func sameStack(a, b *Ev) bool {
	if len(a.stack) != len(b.stack) {
		return false
	}
	for i := range a.stack {
		if a.stack[i] != b.stack[i] {
			return false
		}
	}
	return true
}

func firstInstr(l *LoopInfo) ssa.Instruction {
	for _, b := range append([]*ssa.BasicBlock{l.head}, l.head.Succs...) {
		for _, i := range b.Instrs {
			if i.Pos().IsValid() {
				return i
			}
		}
	}
	return l.head.Instrs[0]
}

// base is the object a pointer points into.
func base(v Value) Value {
	if p, ok := v.(*Ptr); ok && len(p.p) > 0 {
		return &Ptr{o: p.o, t: p.o.t}
	}
	return v
}
