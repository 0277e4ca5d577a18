package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// runs interprets every operation that changes the registry on every shape.
func (g *registry) runs(full bool) []*regRun {
	r := g.r
	shapes := regShapes(full)
	loops := g.loops()
	r.check("registry operations", len(loops) > 0, "controller.go", "no loop of a goroutine of the controller changes the registry")
	var out []*regRun
	for _, rl := range loops {
		t0 := time.Now()
		for _, h := range shapes {
			rs := g.iterate(rl, h)
			r.check("registry operations", len(rs) > 0, g.x.pos(rl.l.head.Instrs[0])+" "+rl.l.fn.Name(), "no iteration of the loop is completed with %s", h)
			out = append(out, rs...)
		}
		if os.Getenv("ARTCHECK_TIME") != "" {
			fmt.Fprintln(os.Stderr, "registry loop", rl.e.name, rl.l.fn.Name(), len(shapes), len(out), time.Since(t0))
		}
	}
	for _, fn := range g.ops() {
		for _, s := range g.sc.started() {
			for _, h := range shapes {
				rs := g.call(fn, s, h)
				r.check("registry operations", len(rs) > 0, g.x.pos(fn.Blocks[0].Instrs[0])+" "+fn.Name(), "%s does not return with %s", fnName(fn), h)
				out = append(out, rs...)
			}
			break
		}
	}
	if start := g.w.p.method("Controller", "Start"); start != nil {
		for _, h := range shapes {
			if h.ip >= 0 || len(h.cfg.outs) > 0 || len(h.cfg.ins) > 0 {
				continue
			}
			for _, e := range g.sc.runs {
				for _, o := range g.call(start, e.pre, h) {
					o.start = true
					out = append(out, o)
				}
			}
		}
	}
	for _, e := range sortedKeys(g.x.errs) {
		r.check("the analysis completes", false, "analyser", "%s", e)
	}
	r.absorb(g.x)
	g.cutoff()
	return out
}

// ops lists the operations, other than the goroutines, that change the registry.
func (g *registry) ops() []*ssa.Function {
	pw := g.w.parent
	var r []*ssa.Function
	for _, e := range pw.entries {
		if e.kind != "api" || e.fn.Signature.Recv() == nil || e.name == "Controller.Start" {
			continue
		}
		if t := types.Unalias(derefType(e.fn.Signature.Recv().Type())); !types.Identical(t, g.ctrl) {
			continue
		}
		for _, t := range pw.traces(e) {
			if g.changes(t.evs) {
				r = append(r, e.fn)
				break
			}
		}
	}
	return r
}

func propC22(r *Rep) {
	r.desc = "every operation that changes the registry (one iteration of the loops that do, with the reply, the clock and all tickers symbolic; deleteNode) is interpreted abstractly from registries of every analysed shape: 0 to 3 nodes with 0 to 4 output and input ports, in which universe addresses and IP addresses are symbolic and only their equalities are fixed, known and new nodes announcing the same, fewer, more, other, reordered, repeated and returning universes; the list, both tables and the buffers at the end of each path are compared with what the replies announced"
	g := newRegistry(r)
	if g == nil {
		return
	}
	n := 0
	for _, o := range g.runs(r.tier == "thorough") {
		g.consistent(o)
		n++
	}
	r.check("registry operations", n > 100, "controller.go", "only %d outcomes were analysed", n)
}

// consistent judges the registry after an operation.
func (g *registry) consistent(o *regRun) {
	r, x, s, b := g.r, g.x, o.end, o.b
	fail := func(rule string, ok bool, f string, a ...any) bool {
		msg := ""
		if !ok {
			msg = fmt.Sprintf(f, a...)
		}
		return r.check(rule, ok, o.pos, "%s: %s", o.where, msg)
	}
	isCall := o.res != nil && !o.start
	as, why := g.after(o)
	if !fail("the list of nodes is known", why == "", "%s (%s)", why, b.h) {
		return
	}
	in := map[int]bool{}
	fresh := 0
	for _, a := range as {
		if a.idx < 0 {
			fresh++
		} else {
			in[a.idx] = true
		}
	}
	// who is listed
	const one = "one entry per IP address"
	switch {
	case o.replied() && b.h.ip < 0:
		fail(one, fresh == 1, "a reply of a new node leads to %d new entries (%s)", fresh, b.h)
	case o.replied():
		fail(one, fresh == 0, "a reply of a known node leads to a new entry (%s)", b.h)
		fail(one, in[b.h.ip], "a node is dropped when it replies (%s)", b.h)
	default:
		fail(one, fresh == 0, "a node appears without a reply (%s)", b.h)
	}
	if o.replied() {
		for i := range b.nodes {
			if i != b.h.ip {
				fail("others stay", in[i] || g.silent(o, i), "the reply of a node drops another node (%s)", b.h)
			}
		}
	}
	if isCall {
		g.deleted(o, in, fail)
	}
	want := func(a regAfter) regNode {
		if a.idx < 0 {
			return b.h.cfg
		}
		return g.expect(o, a.idx)
	}
	// what the tables say
	for dir, field := range map[string]string{"output": g.sh.out, "input": g.sh.inp} {
		pf := "OutputPorts"
		if dir == "input" {
			pf = "InputPorts"
		}
		expect := map[int]*Ptr{}
		for _, a := range as {
			n := want(a)
			ids := n.outs
			if dir == "input" {
				ids = n.ins
			}
			for _, id := range ids {
				expect[id] = a.p
			}
			// the configuration kept for the node
			cf, _ := x.field(s, a.p, g.sh.conf)
			us, ok := g.universes(s, cf, pf)
			same := ok && len(us) == len(ids)
			for k := 0; same && k < len(ids); k++ {
				same = false
				for _, u := range us {
					same = same || g.sameAddr(s, u, g.address(b.h, ids[k]))
				}
			}
			fail("a node is listed with what it announced last", same, "the %s ports listed for a node are not those of its last reply (%s)", dir, b.h)
		}
		for id, p := range expect {
			q, ok := g.entry(s, b.ctrl, field, g.address(b.h, id))
			fail("announced universes are routed", ok && q != nil && q.o == p.o, "%s universe %d does not map to the node announcing it (%s)", dir, id, b.h)
			if dir == "output" {
				sl := g.w.bufOf(s, g.sh, p, g.address(b.h, id))
				has := len(sl) > 0
				for _, z := range sl {
					has = has && z.p != nil
				}
				fail("routable universes have a buffer", has, "output universe %d has no buffer (%s)", id, b.h)
			}
		}
		// nothing else
		tn, _ := x.field(s, b.ctrl, field)
		m, ok := x.toVal(s, tn).(*MapV)
		if !fail("nothing else is routed", ok, "the %s table is gone (%s)", dir, b.h) {
			continue
		}
		mn := x.mapNode(s, m)
		if !fail("nothing else is routed", mn.base == "", "the content of the %s table is not known (%s)", dir, b.h) {
			continue
		}
		for _, e := range mn.ents {
			if e.val == nil {
				continue
			}
			k, ok := e.key.(*Node)
			ok = ok && func() bool {
				for id, p := range expect {
					if q, isP := x.toVal(s, e.val).(*Ptr); isP && q.o == p.o && g.sameAddr(s, k, g.address(b.h, id)) {
						return true
					}
				}
				return false
			}()
			fail("nothing else is routed", ok, "the %s table has an entry for a universe that is not announced, or for a node that is not listed (%s)", dir, b.h)
		}
	}
	// what a known node keeps
	for _, a := range as {
		cf, _ := x.field(s, a.p, g.sh.conf)
		ip := b.h.ip
		if a.idx >= 0 {
			ip = a.idx
		} else {
			ip = len(b.h.nodes)
		}
		fail("a node is listed under its IP address", g.hasIP(s, cf, b.h, ip), "the IP address listed for a node is not its own (%s)", b.h)
		if a.idx < 0 {
			continue
		}
		q0, _ := x.field(b.pre, a.p, g.sh.seq)
		q1, _ := x.field(s, a.p, g.sh.seq)
		fail("a known node keeps its sequence number", eqInts(s, x.nodeInt(b.pre, q0), x.nodeInt(s, q1)), "the sequence number of a known node changes (%s)", b.h)
		after := want(a)
		for _, id := range b.h.nodes[a.idx].outs {
			keeps := false
			for _, k := range after.outs {
				keeps = keeps || k == id
			}
			if !keeps {
				continue
			}
			p0, p1 := g.w.bufOf(b.pre, g.sh, a.p, g.address(b.h, id)), g.w.bufOf(s, g.sh, a.p, g.address(b.h, id))
			ok := len(p0) == 1 && len(p1) == 1 && p0[0].p != nil && p1[0].p != nil
			if ok && p0[0].p.o != p1[0].p.o {
				ok = x.normKey(b.pre, x.root(b.pre, p0[0].p.o)) == x.normKey(s, x.root(s, p1[0].p.o))
			} else if ok {
				ok = b.pre.heap[p0[0].p.o].key() == s.heap[p0[0].p.o].key()
			}
			fail("a known node keeps its buffers", ok, "the buffer of universe %d of a known node is replaced or changed (%s)", id, b.h)
		}
	}
}

// deleted judges the operation that deletes a node.
func (g *registry) deleted(o *regRun, in map[int]bool, fail func(string, bool, string, ...any) bool) {
	b := o.b
	d := 2
	if _, ok := o.res.(*Iface); ok || isNil(o.res) {
		d = o.end.decide(nilCond(o.res))
	}
	const rule = "a deletion removes exactly the node asked for"
	for i := range b.nodes {
		if i != b.h.ip {
			fail(rule, in[i], "another node is removed (%s)", b.h)
		}
	}
	switch {
	case b.h.ip >= 0:
		fail(rule, !in[b.h.ip], "the node is still listed (%s)", b.h)
		fail(rule, d != 0, "an error is reported although the node is known (%s)", b.h)
	default:
		fail(rule, d != 1, "no error is reported although the node is not known (%s)", b.h)
	}
}

// hasIP: the configuration has the IP address of this number.
func (g *registry) hasIP(s *State, cf *Node, h *regShape, ip int) bool {
	n, _ := g.x.fieldOf(s, cf, "IP")
	sl, ok := g.x.toVal(s, n).(*Slice)
	if !ok || sl.o == nilObj {
		return false
	}
	k := s.res(sl.len)
	if !k.isConst() || k.c != 4 {
		return false
	}
	for i := int64(0); i < 4; i++ {
		nm := fmt.Sprintf("ip.%d", i)
		if int(i) == h.pos {
			nm = fmt.Sprintf("ip%d.%d", ip, i)
		}
		if !eqInts(s, g.x.byteOf(s, sl, lc(i)), intAtom(atomNamed(nm, 8, false))) {
			return false
		}
	}
	return true
}

// ---------------------------------------------------------------------------
// Expiry
// ---------------------------------------------------------------------------

const second = int64(1_000_000_000)

// clock is the last time read on a path.
func (g *registry) clock(s *State, b *regState) *Lin {
	if n, ok := s.heap[clockObj]; ok {
		return n.v.(*Int).linear()
	}
	return b.t0
}

// silent: more than two poll intervals passed since the node was seen.
func (g *registry) silent(o *regRun, i int) bool {
	least := 6 * second
	if g.poll != nil {
		if c, ok := g.poll.konst(); ok && 2*c < least {
			least = 2 * c
		}
	}
	return deep(o.end, g.clock(o.end, o.b).sub(o.b.seen[i].linear()).plus(-least))
}

// recent: no more than 15 seconds passed since the node was seen.
func (g *registry) recent(o *regRun, i int) bool {
	return deep(o.end, o.b.seen[i].linear().plus(15*second).sub(o.b.t0))
}

func propC23(r *Rep) {
	r.desc = "the same abstract runs as for C22, with the clock and the time each node was last seen symbolic: on every path on which a node leaves the list the path facts must entail that at least two poll intervals passed since it was seen, and on every iteration that handles the expiry tick, of a ticker of at most the poll interval, they must entail for every node that is kept that it was seen within 15 s; after every reply the node's time must be one read in that iteration"
	g := newRegistry(r)
	if g == nil {
		return
	}
	g.pollInterval()
	type tk struct {
		ev    *Ev
		all   bool
		n     int
		name  string
		where string
		why   string
	}
	ticks := map[*Obj]*tk{}
	n := 0
	for _, o := range g.runs(r.tier == "thorough") {
		if o.res != nil {
			continue
		}
		n++
		b := o.b
		as, why := g.after(o)
		if !r.check("the list of nodes is known", why == "", o.pos, "%s: %s (%s)", o.where, why, b.h) {
			continue
		}
		in := map[int]*Ptr{}
		var fresh *Ptr
		for _, a := range as {
			if a.idx >= 0 {
				in[a.idx] = a.p
			} else {
				fresh = a.p
			}
		}
		for i := range b.nodes {
			if in[i] == nil {
				r.check("only silent nodes expire", g.silent(o, i) && !(o.replied() && b.h.ip == i), o.pos, "%s: node %d can be dropped although it was seen within two poll intervals (%s)", o.where, i, b.h)
				continue
			}
			sn, _ := g.x.field(o.end, in[i], g.sh.seen)
			t := g.x.nodeInt(o.end, sn)
			if o.replied() && b.h.ip == i {
				r.check("a reply restarts the expiry time", t != nil && deep(o.end, t.linear().sub(b.t0)) && deep(o.end, g.clock(o.end, b).sub(t.linear())), o.pos, "%s: the time a node was last seen is not that of its reply (%s)", o.where, b.h)
				continue
			}
			r.check("only a reply restarts the expiry time", t != nil && o.end.entailsEQ(t.linear().sub(b.seen[i].linear())), o.pos, "%s: the time node %d was last seen changes without a reply (%s)", o.where, i, b.h)
		}
		if fresh != nil {
			sn, _ := g.x.field(o.end, fresh, g.sh.seen)
			t := g.x.nodeInt(o.end, sn)
			r.check("a reply restarts the expiry time", t != nil && deep(o.end, t.linear().sub(b.t0)) && deep(o.end, g.clock(o.end, b).sub(t.linear())), o.pos, "%s: the time a new node was last seen is not that of its reply (%s)", o.where, b.h)
		}
		// ticks
		for _, v := range o.evs {
			if _, ok := received(v); !ok || v.ch == nil {
				continue
			}
			te := g.w.tickerOf(v)
			if te == nil {
				continue
			}
			c := v.ch.(*ChanV)
			z := ticks[c.o]
			if z == nil {
				z = &tk{ev: te, all: true, where: o.pos, name: g.w.chanName(v, v.ch)}
				ticks[c.o] = z
			}
			z.n++
			for i := range b.nodes {
				if in[i] != nil && !g.recent(o, i) {
					z.all = false
					z.why = fmt.Sprintf("%s can keep node %d although it was not seen for more than 15 s (%s)", o.where, i, b.h)
				}
			}
			break
		}
	}
	r.check("registry operations", n > 100, "controller.go", "only %d outcomes were analysed", n)
	good := false
	names := map[string]bool{}
	msg := "no ticker leads to an examination of the nodes"
	pos := "controller.go"
	for _, z := range ticks {
		iv, ok := z.ev.args[0].(*Int)
		most := 3 * second
		if g.poll != nil {
			if c, ok := g.poll.konst(); ok && c < most {
				most = c
			}
		}
		fits := ok && g.w.evState(z.ev).entails(lc(most).sub(iv.linear()))
		if z.all && fits {
			good = true
			names[z.name] = true
			continue
		}
		if z.why != "" && msg == "no ticker leads to an examination of the nodes" {
			msg = z.why
		}
		if z.all && !fits {
			msg, pos = "the nodes are examined less than once per poll interval", evPos(g.w, z.ev)
		}
	}
	r.check("every silent node expires", good, pos, "%s", msg)
	r.check("every silent node expires", len(ticks) > 0, "controller.go", "no iteration handles a tick")
	const goes = "expiry goes on until the stop"
	ls := g.w.launched("Controller")
	for _, rl := range g.loops() {
		r.check(goes, ls[rl.e], g.x.pos(rl.l.head.Instrs[0]), "%s is not launched by every start", g.w.baseName(rl.e.name))
		g.w.endsOnlyAtStop(r, goes, rl.e, nil)
		if len(names) > 0 {
			g.w.alwaysReady(r, goes, rl.e, func(nm string) bool { return names[nm] })
		}
	}
	g.tickersLive()
}

// pollInterval finds the interval of the ticker at whose ticks polls are sent.
func (g *registry) pollInterval() {
	w := g.w
	for _, e := range w.entries {
		for _, t := range w.traces(e) {
			if t.loop == nil {
				continue
			}
			for i, v := range t.evs {
				if _, ok := received(v); !ok || v.ch == nil {
					continue
				}
				te := w.tickerOf(v)
				if te == nil {
					continue
				}
				chans := w.sendChans()
				for _, u := range t.evs[i+1:] {
					if d := w.delivered(u, chans); d != nil {
						if en := w.encoded(d); en != nil && en.name == "ArtPollPacket" {
							if iv, ok := te.args[0].(*Int); ok {
								g.poll = iv
							}
						}
					}
				}
			}
		}
	}
}

// tickersLive: nothing but the stop silences or slows the tickers.
func (g *registry) tickersLive() {
	w := g.w
	for _, e := range w.entries {
		for _, t := range w.traces(e) {
			for _, v := range t.evs {
				if v.k == "tickreset" {
					g.r.check("tickers keep their interval", false, evPos(w, v), "%s resets a ticker", w.baseName(e.name))
				}
				if v.k == "tickstop" && e.kind == "go" && t.loop != nil {
					g.r.check("tickers keep their interval", false, evPos(w, v), "%s stops a ticker in its loop", w.baseName(e.name))
				}
			}
		}
	}
	g.r.check("tickers keep their interval", true, "", "")
}

// deep is entails for long chains of inequalities (readings of the clock).
func deep(s *State, l *Lin) bool {
	seen := map[string]bool{}
	todo := []*Lin{s.res(l)}
	for n := 0; len(todo) > 0 && n < 3000; n++ {
		l := todo[0]
		todo = todo[1:]
		if lo, _ := s.rng(l); lo >= 0 {
			return true
		}
		for _, f := range s.F.lin {
			if f.hasSlice() {
				continue
			}
			for _, t := range l.t {
				k := f.coef(t.a)
				if k == 0 || (k > 0) != (t.k > 0) {
					continue
				}
				q := t.k / k
				if q <= 0 || q*k != t.k {
					continue
				}
				m := l.add(f, -q)
				if len(m.t) > 4 || seen[m.key()] {
					continue
				}
				seen[m.key()] = true
				todo = append(todo, m)
			}
		}
	}
	return false
}

// cutoff: the operations treat registries of other sizes like those that were
// analysed; no decision depends on a number of nodes or ports beyond them.
func (g *registry) cutoff() {
	const rule = "no decision depends on a number of entries beyond the analysed ones"
	r := g.r
	var fns []*ssa.Function
	for fn := range g.x.funcs {
		if fn.Pkg == g.w.p.root || fn.Parent() != nil && fn.Parent().Pkg == g.w.p.root {
			fns = append(fns, fn)
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].String() < fns[j].String() })
	for _, fn := range fns {
		if rc := fn.Signature.Recv(); rc != nil && isLoggerT(rc.Type()) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				switch i := in.(type) {
				case *ssa.BinOp:
					x, y := i.X, i.Y
					if _, ok := x.(*ssa.Const); ok {
						x, y = y, x
					}
					c, ok := y.(*ssa.Const)
					if !ok || c.Value == nil {
						continue
					}
					v, ok := constant.Int64Val(constant.ToInt(c.Value))
					if !ok || c.Value.Kind() != constant.Int {
						continue
					}
					if v < 0 {
						v = -v
					}
					switch i.Op {
					case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ, token.REM, token.AND, token.QUO:
					default:
						continue
					}
					if lim := counts(x, map[ssa.Value]bool{}); lim > 0 {
						r.check(rule, v <= lim, g.x.pos(in)+" "+fn.Name(), "a number of entries is compared with %d; registries with up to %d are analysed", v, lim)
					}
				case *ssa.Slice:
					if _, ok := i.X.Type().Underlying().(*types.Slice); !ok || !holdsEntries(i.X.Type()) {
						continue
					}
					for _, o := range []ssa.Value{i.Low, i.High, i.Max} {
						if c, ok := o.(*ssa.Const); ok && c.Value != nil {
							r.check(rule, c.Int64() <= 3, g.x.pos(in)+" "+fn.Name(), "entries are cut at %d", c.Int64())
						}
					}
				}
			}
		}
	}
	r.check(rule, true, "", "")
}

// holdsEntries: containers of nodes, ports or addresses.
func holdsEntries(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Map:
		return true
	case *types.Slice:
		_, basic := u.Elem().Underlying().(*types.Basic)
		return !basic
	}
	return false
}

// counts: the value is a number of entries or a position among them; the
// result is the largest one that is analysed, 0 for other values.
func counts(v ssa.Value, seen map[ssa.Value]bool) int64 {
	if seen[v] {
		return 0
	}
	seen[v] = true
	switch i := v.(type) {
	case *ssa.Call:
		if b, ok := i.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap") && holdsEntries(i.Call.Args[0].Type()) {
			if strings.Contains(typeName(i.Call.Args[0].Type()), "Port") {
				return 4
			}
			return 2
		}
	case *ssa.BinOp:
		a, b := counts(i.X, seen), counts(i.Y, seen)
		if a == 0 {
			return b
		}
		if b == 0 || a < b {
			return a
		}
		return b
	case *ssa.Convert:
		return counts(i.X, seen)
	case *ssa.Phi:
		// a position that is counted up or down from a constant
		for _, e := range i.Edges {
			if b, ok := e.(*ssa.BinOp); ok && (b.Op == token.ADD || b.Op == token.SUB) && (b.X == v || b.Y == v) {
				if _, ok := b.Y.(*ssa.Const); ok {
					return 4
				}
			}
		}
		for _, e := range i.Edges {
			if c := counts(e, seen); c > 0 {
				return c
			}
		}
	}
	return 0
}
