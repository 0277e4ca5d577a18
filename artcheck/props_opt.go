package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
)

// ---------------------------------------------------------------------------
// C24
// ---------------------------------------------------------------------------

const artNetPort = 6454

// udpNode builds the content of a net.UDPAddr.
func (w *World) udpNode(t types.Type, s *State, ip Value, port int64) *Node {
	x := w.x
	o := newObj(t, nil, "expected address")
	s.setHeap(o, zeroNode(t))
	for _, f := range []struct {
		n string
		v Value
	}{{"IP", ip}, {"Port", mkInt(64, true, port)}} {
		st, ft := fieldPath(t, f.n)
		if f.v != nil {
			x.write(s, &Ptr{o: o, p: st, t: ft}, x.toNode(ft, f.v))
		}
	}
	return x.getFrom(s, o, nil)
}

// isDefaultBroadcast: 2.255.255.255:6454.
func (w *World) isDefaultBroadcast(s *State, n *Node) bool {
	x := w.x
	ipn, _ := x.fieldOf(s, n, "IP")
	pn, _ := x.fieldOf(s, n, "Port")
	if ipn == nil || pn == nil {
		return false
	}
	p := x.nodeInt(s, pn)
	if p == nil || s.decide(cmpConst(p, artNetPort)) != 1 {
		return false
	}
	sl, ok := x.toVal(s, ipn).(*Slice)
	if !ok || !sl.len.isConst() {
		return false
	}
	want := []int64{2, 255, 255, 255}
	if sl.len.c == 16 {
		want = append([]int64{0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 255, 255}, want...)
	}
	if int64(len(want)) != sl.len.c {
		return false
	}
	for i, b := range want {
		v := x.byteOf(s, sl, lc(int64(i)))
		if v == nil || s.decide(cmpConst(v, b)) != 1 {
			return false
		}
	}
	return true
}

func propC24(r *Rep) {
	r.desc = "nodes and controllers are analysed from construction, with every option (and combinations in different orders) given to the constructor or to SetOption with a symbolic argument, through start and every goroutine: on every path the address the socket is bound to, the destination of every encoded ArtPoll and ArtPollReply handed to the sender and the interval of the ticker that drives ArtDMX must be the option's argument, or the documented default where it was not given; a rate outside 1..10^9 must yield an error and the previous rate; the configuration and address of the node must not change"
	w := r.world()
	const (
		nb, nl, ni     = "NodeBroadcastAddress", "NodeListenAddress", "NodeListenIP"
		cb, cl, ci, cf = "BroadcastAddr", "ListenAddress", "ListenIP", "MaxFPS"
		cf2            = "MaxFPS@invalid"
	)
	type run struct {
		typ         string
		opts, later []string
		bad         int // the frame rate is too low (1) or too high (2)
	}
	mk := func(typ string, opts, later []string) run { return run{typ, opts, later, 0} }
	runs := []run{mk("Node", nil, nil), mk("Controller", nil, nil)}
	for _, o := range []string{nb, nl, ni} {
		runs = append(runs, mk("Node", []string{o}, nil), mk("Node", nil, []string{o}))
	}
	for _, o := range []string{cb, cl, ci, cf} {
		runs = append(runs, mk("Controller", []string{o}, nil), mk("Controller", nil, []string{o}))
	}
	runs = append(runs,
		mk("Node", []string{nb, nl}, nil), mk("Node", []string{nl, nb}, nil), mk("Node", []string{nb, ni}, nil), mk("Node", []string{ni, nb}, nil), mk("Node", []string{nl, ni}, nil), mk("Node", []string{ni, nl}, nil),
		mk("Controller", []string{cb, cl, cf}, nil), mk("Controller", []string{cl, cb}, nil), mk("Controller", []string{cf, ci}, []string{cb}), mk("Controller", []string{ci, cl}, nil), mk("Controller", []string{cl, ci}, nil))
	for _, b := range []int{1, 2} {
		runs = append(runs, run{"Controller", []string{cf2}, nil, b}, run{"Controller", nil, []string{cf2}, b}, run{"Controller", []string{cf, cf2}, nil, b}, run{"Controller", []string{cf}, []string{cf2}, b})
	}
	config := map[string]string{}
	for _, rn := range runs {
		sc := w.liveIf(rn.typ, rn.opts, rn.later, func(s *State, opt string, arg Value) bool {
			f, ok := arg.(*Int)
			switch {
			case !ok:
				return true
			case opt == cf2 && rn.bad == 1:
				return s.addGE(lc(0).sub(f.linear()))
			case opt == cf2:
				return s.addGE(f.linear().plus(-1000000001))
			}
			return s.addGE(f.linear().plus(-1)) && s.addGE(lc(1000000000).sub(f.linear()))
		})
		sw, x := sc.w, sc.w.x
		what := rn.typ + " with " + strings.Join(sc.opts, ", ")
		if len(sc.opts) == 0 {
			what = rn.typ + " without options"
		}
		r.absorb(x)
		if !r.check("scenario", sc.fail == "" && len(sc.started()) > 0, "New"+rn.typ, "a %s cannot be constructed and started: %s", what, sc.fail) {
			continue
		}
		// what applies
		var bcast, fps Value
		var lis string
		for _, o := range sc.opts {
			switch o {
			case nb, cb:
				bcast = sc.argOf[o]
			case nl, cl, ni, ci:
				lis = o
			case cf:
				fps = sc.argOf[o]
			}
		}
		isB := func(s *State, n *Node) bool {
			if n == nil {
				return false
			}
			if bcast == nil {
				return sw.isDefaultBroadcast(s, n)
			}
			return x.normKey(s, n) == x.normKey(s, bcast.(*Node))
		}
		// the socket
		nlis := 0
		udpT := types.Type(nil)
		if f := w.p.rootFunc(nl); f != nil && len(f.Params) == 1 {
			udpT = f.Params[0].Type()
		}
		for _, e := range sc.runs {
			for _, t := range sw.traces(e) {
				for _, v := range t.evs {
					if v.k != "listen" && v.k != "listenfail" || udpT == nil {
						continue
					}
					nlis++
					s := sw.evState(v).clone()
					want := map[string]bool{}
					switch lis {
					case "":
						want["udpaddr:"+x.normKey(s, sw.udpNode(udpT, s, nil, artNetPort))] = true
						want[strLit(fmt.Sprintf(":%d", artNetPort)).key()] = true
						want[strLit(fmt.Sprintf("0.0.0.0:%d", artNetPort)).key()] = true
					case nl, cl:
						want["udpaddr:"+x.normKey(s, sc.argOf[lis].(*Node))] = true
					default:
						want["udpaddr:"+x.normKey(s, sw.udpNode(udpT, s, sc.argOf[lis], artNetPort))] = true
					}
					r.check("the socket is bound to the listen address", want[v.str], evPos(sw, v), "%s: the socket is bound to %s", what, clip(short(v.str), 120))
				}
			}
		}
		r.check("the socket is bound to the listen address", nlis > 0, "node.go Start", "%s opens no socket", what)
		// destinations
		chans := sw.sendChans()
		np, nr, nd := 0, 0, 0
		for _, e := range sw.entries {
			for _, t := range sw.traces(e) {
				for _, v := range t.evs {
					d := sw.delivered(v, chans)
					if d == nil {
						continue
					}
					en := sw.encoded(d)
					if en == nil {
						continue
					}
					switch en.name {
					case "ArtPollPacket":
						np++
						r.check("polls go to the broadcast address", isB(sw.evState(v), d.addr), evPos(sw, v), "%s: a poll goes to another address", what)
					case "ArtPollReplyPacket":
						nr++
						r.check("poll replies go to the broadcast address", isB(sw.evState(v), d.addr), evPos(sw, v), "%s: a poll reply goes to another address", what)
					}
				}
			}
			// the frame rate
			var visit func(evs []*Ev, tick *Ev)
			seen := map[*LoopInfo]bool{}
			visit = func(evs []*Ev, tick *Ev) {
				for _, v := range evs {
					if _, ok := received(v); ok && v.ch != nil && !sw.isStop(v) {
						tick = sw.tickerOf(v)
					}
					if v.loop != nil && !seen[v.loop] {
						seen[v.loop] = true
						for _, a := range v.loop.alts {
							visit(a.evs, tick)
						}
					}
					d := sw.delivered(v, chans)
					if d == nil {
						continue
					}
					if en := sw.encoded(d); en == nil || en.name != "ArtDMXPacket" {
						continue
					}
					nd++
					if !r.check("the frame rate is the configured one", tick != nil, evPos(sw, v), "%s: ArtDMX is sent without waiting for a ticker", what) {
						continue
					}
					iv, _ := tick.args[0].(*Int)
					ok := iv != nil && sw.rateIs(sw.evState(tick), iv, fps)
					r.check("the frame rate is the configured one", ok, evPos(sw, tick), "%s: the refresh interval is %s", what, clip(vkey(tick.args[0]), 100))
				}
			}
			visitEntry(sw, e, visit)
		}
		r.check("poll replies go to the broadcast address", nr > 0, "node.go", "%s: no poll replies were found", what)
		if rn.typ == "Controller" {
			r.check("polls go to the broadcast address", np > 0, "controller.go", "%s: no polls were found", what)
			r.check("the frame rate is the configured one", nd > 0, "controller.go", "%s: no ArtDMX is sent", what)
		}
		// nothing else changes
		own := w.ownIPs()
		for _, e := range sc.runs {
			s := e.pre
			for _, o := range sw.objsOf(s, typeName(w.rootType("Node"))) {
				cfg, _ := x.field(s, &Ptr{o: o, t: o.t}, "Config")
				k := x.normKey(s, cfg)
				if config[rn.typ] == "" {
					config[rn.typ] = k
				}
				r.check("options leave the configuration alone", config[rn.typ] == k, "options.go", "%s: the configuration of the node differs", what)
				for _, p := range own {
					n := x.getFrom(s, o, nil)
					for _, f := range strings.Split(p[1:], ".") {
						if n != nil {
							n, _ = x.fieldOf(s, n, f)
						}
					}
					same := n != nil && x.sliceKey(s, x.toVal(s, n)) == x.sliceKey(s, sc.bind)
					r.check("options leave the configuration alone", same, "options.go", "%s: the address of the node differs", what)
				}
			}
		}
		// results
		for _, u := range sc.set {
			isNil := u.s.decide(nilCond(u.res))
			if u.opt == cf || u.opt == cf2 {
				switch sw.validRate(u.s, sc.argOf[u.opt].(*Int)) {
				case 1:
					r.check("valid settings are accepted", isNil == 1, "options.go", "a valid frame rate can be refused")
				case 0:
					r.check("an invalid frame rate is refused", isNil == 0, "options.go", "an invalid frame rate is not refused")
				default:
					r.check("an invalid frame rate is refused", false, "options.go", "the option does not tell valid and invalid frame rates apart")
				}
				continue
			}
			r.check("valid settings are accepted", isNil == 1, "options.go", "option %s can fail", u.opt)
		}
	}
	r.atLeast("an invalid frame rate is refused", 1, "options.go")
	r.atLeast("valid settings are accepted", 4, "options.go")
	r.atLeast("options leave the configuration alone", 10, "options.go")
}

// visitEntry walks the paths of an entry and the loops no path leaves.
func visitEntry(w *World, e *Entry, visit func(evs []*Ev, tick *Ev)) {
	done := map[*LoopInfo]bool{}
	for _, o := range e.outs {
		evs := events(nil, o.s.tr)
		for _, v := range allEvents(evs) {
			if v.loop != nil {
				done[v.loop] = true
			}
		}
		visit(evs, nil)
	}
	for _, l := range w.x.loops[e.name] {
		if !done[l] && w.waitsIn(l) {
			for _, a := range l.alts {
				visit(a.evs, nil)
			}
		}
	}
}

// validRate: the frame rate is known to be in 1..10^9 (1), known not to be (0)
// or neither.
func (w *World) validRate(s *State, f *Int) int {
	if s.entails(f.linear().plus(-1)) && s.entails(lc(1000000000).sub(f.linear())) {
		return 1
	}
	t := s.clone()
	if !t.addGE(f.linear().plus(-1)) || !t.addGE(lc(1000000000).sub(f.linear())) {
		return 0
	}
	return -1
}

// rateIs: an interval is that of the frame rate, or of the default rate if
// none or an invalid one was given.
func (w *World) rateIs(s *State, iv *Int, fps Value) bool {
	def := s.decide(cmpConst(iv, 1000000)) == 1
	f, ok := fps.(*Int)
	if !ok {
		return def
	}
	switch w.validRate(s, f) {
	case 0:
		return def
	case 1:
		t := s.clone()
		w.x.quiet++
		defer func() { w.x.quiet-- }()
		for _, q := range w.x.divide(t, nil, token.QUO, mkInt(64, true, 1000000000), f) {
			if i, ok := q.v.(*Int); ok && eqInts(q.s, i, iv) {
				return true
			}
		}
	}
	return false
}
