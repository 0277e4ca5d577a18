package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The registry of a controller is analysed shape by shape: the list of nodes,
// their ports and the tables are given a known form (how many nodes, how many
// ports, which universes and IP addresses are equal) with symbolic contents,
// and one iteration of every loop that can change the registry, or one call,
// is interpreted from there.

// regNode is a known node: its universes, by number.
type regNode struct{ outs, ins []int }

// regShape is the form of a registry and of what is to be added or removed.
type regShape struct {
	nodes []regNode
	ip    int // cfg has the address of this node, or a new one (-1)
	cfg   regNode
	pos   int // byte in which IP addresses differ
	fld   int // field in which universe addresses differ
}

func (h *regShape) String() string {
	var b strings.Builder
	for i, n := range h.nodes {
		fmt.Fprintf(&b, "node %d (outputs %v, inputs %v), ", i, n.outs, n.ins)
	}
	if len(h.nodes) == 0 {
		b.WriteString("no nodes, ")
	}
	if h.ip < 0 {
		fmt.Fprintf(&b, "a new IP")
	} else {
		fmt.Fprintf(&b, "the IP of node %d", h.ip)
	}
	fmt.Fprintf(&b, " with outputs %v, inputs %v", h.cfg.outs, h.cfg.ins)
	return b.String()
}

// registry analyses the operations on the registry.
type registry struct {
	r    *Rep
	w    *World
	x    *Exec
	sc   *Scenario
	sh   *shape
	cfgT *types.Named
	ctrl *types.Named
	adr  types.Type
	poll *Int // the poll interval
	cur  *regState
	n    int
}

// regState is a shape put into a state.
type regState struct {
	h     *regShape
	pre   *State
	ctrl  *Ptr
	nodes []*Ptr
	seen  []*Int
	t0    *Lin
	cfg   *Node
}

// regRun is one outcome of an operation.
type regRun struct {
	b     *regState
	evs   []*Ev
	end   *State
	res   Value
	cfgEv *Ev
	where string
	pos   string
	start bool
}

func newRegistry(r *Rep) *registry {
	w := r.world()
	sc := w.live("Controller", nil, nil)
	g := &registry{r: r, w: sc.w, sc: sc}
	if !r.check("scenario", sc.fail == "" && len(sc.started()) > 0, "NewController", "a controller cannot be constructed and started: %s", sc.fail) {
		return nil
	}
	g.sh = g.w.shape()
	if !r.check("shape of the registry", g.sh.why == "", "controller.go", "%s", g.sh.why) {
		return nil
	}
	g.cfgT, g.ctrl = g.w.rootType("NodeConfig"), g.w.rootType("Controller")
	_, mt := fieldPath(g.ctrl, g.sh.out)
	g.adr = mt.Underlying().(*types.Map).Key()
	x := *g.w.x // records of its own
	x.guards = nil
	x.obl, x.acc, x.lockErrs, x.order = map[string]*Obligation{}, map[string]*Access{}, map[string]*LockErr{}, map[string]*LockErr{}
	x.loops, x.escaped, x.elemBad = map[string][]*LoopInfo{}, map[*ssa.Function]*Func{}, map[string]string{}
	x.errs, x.gos, x.ckpt, x.onStore = map[string]bool{}, nil, nil, nil
	x.exactMaps = true
	x.steps = 0
	x.funcs = map[*ssa.Function]bool{}
	cm := map[string]func(*mcall) []Out{}
	for k, f := range x.cutModels {
		cm[k] = f
	}
	for k := range cm {
		if strings.HasSuffix(k, ".ConfigFromArtPollReply") {
			cm[k] = func(m *mcall) []Out {
				e := m.s.ev("config", m.in)
				e.args = m.a
				e.res = g.config(m.s, g.cur)
				return one(m.s, e.res)
			}
		}
	}
	x.cutModels = cm
	g.x = &x
	return g
}

// ---------------------------------------------------------------------------
// Building
// ---------------------------------------------------------------------------

func (g *registry) atom(name string, w int, lo, hi int64) *Int {
	a := atomNamed(name, w, w == 64)
	if w == 64 {
		a.lo, a.hi = lo, hi
	}
	return intAtom(a)
}

// address is universe number id.
func (g *registry) address(h *regShape, id int) *Node {
	st := g.adr.Underlying().(*types.Struct)
	n := &Node{k: nStruct, t: g.adr}
	for i := 0; i < st.NumFields(); i++ {
		ft := st.Field(i).Type()
		w, sg, ok := intType(ft)
		if !ok {
			n.f = append(n.f, lazyNode(ft, "universe."+st.Field(i).Name(), nil))
			continue
		}
		nm := fmt.Sprintf("universe.%s", st.Field(i).Name())
		if i == h.fld {
			nm = fmt.Sprintf("universe%d.%s", id, st.Field(i).Name())
		}
		n.f = append(n.f, leaf(ft, intAtom(atomNamed(nm, w, sg))))
	}
	return n
}

func (g *registry) slice(s *State, el types.Type, ns []*Node, what string) *Slice {
	o := newObj(el, nil, what)
	o.arr = true
	nd := &Node{k: nArr, t: el}
	for i, n := range ns {
		nd.segs = append(nd.segs, Seg{lo: lc(int64(i)), hi: lc(int64(i + 1)), k: nLeaf, node: n})
	}
	s.setHeap(o, nd)
	k := lc(int64(len(ns)))
	return &Slice{o: o, off: lc(0), len: k, cap: k, el: el}
}

// ports builds the port list of a configuration.
func (g *registry) ports(s *State, h *regShape, t types.Type, ids []int, who string) *Node {
	el := t.Underlying().(*types.Slice).Elem()
	if len(ids) == 0 {
		return leaf(t, nilSlice(el))
	}
	var ns []*Node
	for i, id := range ids {
		e := g.x.expand(s, lazyNode(el, fmt.Sprintf("%s.port%d", who, i), nil))
		st := el.Underlying().(*types.Struct)
		n := &Node{k: nStruct, t: el, f: append([]*Node(nil), e.f...)}
		for j := 0; j < st.NumFields(); j++ {
			if types.Identical(st.Field(j).Type(), g.adr) {
				n.f[j] = g.address(h, id)
			}
		}
		ns = append(ns, n)
	}
	return leaf(t, g.slice(s, el, ns, who+".ports"))
}

// conf builds a configuration.
func (g *registry) conf(s *State, h *regShape, n regNode, ip int, who string) *Node {
	e := g.x.expand(s, lazyNode(g.cfgT, who, nil))
	st := g.cfgT.Underlying().(*types.Struct)
	r := &Node{k: nStruct, t: g.cfgT, f: append([]*Node(nil), e.f...)}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		switch f.Name() {
		case "IP":
			bt := types.Typ[types.Uint8]
			var bs []*Node
			for k := 0; k < 4; k++ {
				nm := fmt.Sprintf("ip.%d", k)
				if k == h.pos {
					nm = fmt.Sprintf("ip%d.%d", ip, k)
				}
				bs = append(bs, leaf(bt, intAtom(atomNamed(nm, 8, false))))
			}
			r.f[i] = leaf(f.Type(), g.slice(s, bt, bs, who+".ip"))
		case "OutputPorts":
			r.f[i] = g.ports(s, h, f.Type(), n.outs, who+".out")
		case "InputPorts":
			r.f[i] = g.ports(s, h, f.Type(), n.ins, who+".in")
		case "Type":
			w, sg, _ := intType(f.Type())
			// a node, or a controller with outputs
			if len(n.outs) == 0 {
				r.f[i] = leaf(f.Type(), mkInt(w, sg, styleNode))
				continue
			}
			v := intAtom(atomNamed(who+".style", w, sg))
			s.addGE(v.linear().plus(-styleNode))
			s.addGE(v.linear().scale(-1).plus(styleController))
			r.f[i] = leaf(f.Type(), v)
		}
	}
	return r
}

// config is the configuration the reply is converted to.
func (g *registry) config(s *State, b *regState) *Node {
	ip := b.h.ip
	if ip < 0 {
		ip = len(b.h.nodes)
	}
	b.cfg = g.conf(s, b.h, b.h.cfg, ip, "reply")
	return b.cfg
}

// distinct adds that the integers differ pairwise.
func distinct(s *State, vs []*Int) {
	for i := range vs {
		for j := 0; j < i; j++ {
			s.assume(&Cond{k: cEQ, a: vs[i], b: vs[j]}, false)
		}
	}
}

// build puts a shape into a state of the controller.
func (g *registry) build(s *State, ctrl *Ptr, h *regShape) *regState {
	x := g.x
	s = s.clone()
	s.x = x
	s.tr = nil
	b := &regState{h: h, ctrl: ctrl}
	b.t0 = x.now(s).linear()
	// universes and addresses that differ
	ids := map[int]bool{}
	add := func(n regNode) {
		for _, k := range append(append([]int{}, n.outs...), n.ins...) {
			ids[k] = true
		}
	}
	for i, n := range h.nodes {
		add(n)
		ids[90+i] = true
	}
	add(h.cfg)
	var us, ips []*Int
	for k := 0; k < 100; k++ {
		if ids[k] {
			us = append(us, x.nodeInt(s, g.address(h, k).f[h.fld]))
		}
	}
	distinct(s, us)
	for i := 0; i <= len(h.nodes); i++ {
		ips = append(ips, intAtom(atomNamed(fmt.Sprintf("ip%d.%d", i, h.pos), 8, false)))
	}
	distinct(s, ips)
	field := func(p *Ptr, name string, v func(t types.Type) Value) {
		st, ft := fieldPath(p.t, name)
		x.write(s, &Ptr{o: p.o, p: append(append([]Step{}, p.p...), st...), t: ft}, x.toNode(ft, v(ft)))
	}
	table := func(t types.Type) (*MapV, *Node) {
		o := newObj(t, nil, "table")
		return &MapV{o: o}, &Node{k: nMap, t: t}
	}
	_, ot := fieldPath(g.ctrl, g.sh.out)
	_, it := fieldPath(g.ctrl, g.sh.inp)
	_, lt := fieldPath(g.ctrl, g.sh.list)
	out, outN := table(ot)
	inp, inpN := table(it)
	var list []*Node
	el := lt.Underlying().(*types.Slice).Elem()
	for i, n := range h.nodes {
		o := newObj(g.sh.cn, nil, fmt.Sprintf("node%d", i))
		s.setHeap(o, x.expand(s, lazyNode(g.sh.cn, fmt.Sprintf("node%d", i), nil)))
		p := &Ptr{o: o, t: g.sh.cn}
		b.nodes = append(b.nodes, p)
		seen := g.atom(fmt.Sprintf("seen%d", i), 64, 1<<55, 1<<58)
		s.addGE(b.t0.sub(seen.linear()))
		b.seen = append(b.seen, seen)
		field(p, g.sh.seen, func(types.Type) Value { return seen })
		field(p, g.sh.conf, func(types.Type) Value { return g.conf(s, h, n, i, fmt.Sprintf("node%d", i)) })
		field(p, g.sh.bufs, func(t types.Type) Value {
			m, mn := table(t)
			for _, id := range append(append([]int{}, n.outs...), 90+i) {
				bo := newObj(g.sh.buf, nil, fmt.Sprintf("buf%d.%d", i, id))
				s.setHeap(bo, lazyNode(g.sh.buf, fmt.Sprintf("buf%d.%d", i, id), nil))
				mn.ents = append(mn.ents, MEnt{key: g.address(h, id), val: x.toNode(g.sh.bufMap.Elem(), &Ptr{o: bo, t: g.sh.buf})})
			}
			s.setHeap(m.o, mn)
			return m
		})
		for _, id := range n.outs {
			outN.ents = append(outN.ents, MEnt{key: g.address(h, id), val: x.toNode(ot.Underlying().(*types.Map).Elem(), p)})
		}
		for _, id := range n.ins {
			inpN.ents = append(inpN.ents, MEnt{key: g.address(h, id), val: x.toNode(it.Underlying().(*types.Map).Elem(), p)})
		}
		list = append(list, x.toNode(el, p))
	}
	s.setHeap(out.o, outN)
	s.setHeap(inp.o, inpN)
	field(ctrl, g.sh.out, func(types.Type) Value { return out })
	field(ctrl, g.sh.inp, func(types.Type) Value { return inp })
	field(ctrl, g.sh.list, func(t types.Type) Value {
		if len(list) == 0 {
			return nilSlice(el)
		}
		return g.slice(s, el, list, "list")
	})
	s.publish(ctrl)
	b.pre = s
	return b
}

// ---------------------------------------------------------------------------
// Running
// ---------------------------------------------------------------------------

// regChange: the event changes the list, a table, what a node announces, when
// it was seen, or takes a buffer away.
func (g *registry) regChange(v *Ev) bool {
	switch v.k {
	case "mapset":
		return g.w.isTable(v) != ""
	case "mapdel", "mapclear":
		if g.w.isTable(v) != "" {
			return true
		}
		for _, n := range g.w.fieldHolding(v.heap, v.ch) {
			if n == typeName(g.sh.cn)+"."+g.sh.bufs {
				return true
			}
		}
	case "store":
		t, f, ok := ptrField(v.ptr)
		if !ok {
			return false
		}
		if t == typeName(g.ctrl) {
			return f == g.sh.list || f == g.sh.out || f == g.sh.inp
		}
		return t == typeName(g.sh.cn) && (f == g.sh.conf || f == g.sh.seen || f == g.sh.bufs)
	}
	return false
}

func (g *registry) changes(evs []*Ev) bool {
	for _, v := range allEvents(evs) {
		if g.regChange(v) {
			return true
		}
	}
	return false
}

// regLoop is a loop whose iterations change the registry.
type regLoop struct {
	e *Entry
	l *LoopInfo
}

// loops finds the loops that wait for something and then change the registry.
func (g *registry) loops() []regLoop {
	var r []regLoop
	for _, e := range g.w.entries {
		if e.kind != "go" {
			continue
		}
		var cand []*LoopInfo
		for _, l := range g.w.x.loops[e.name] {
			if !g.w.waitsIn(l) {
				continue
			}
			for _, a := range l.alts {
				if g.changes(a.evs) {
					cand = append(cand, l)
					break
				}
			}
		}
		inner := map[*LoopInfo]bool{}
		for _, l := range cand {
			for _, a := range l.alts {
				for _, v := range allEvents(a.evs) {
					if v.loop != nil && v.loop != l {
						inner[v.loop] = true
					}
				}
			}
		}
		for _, l := range cand {
			if !inner[l] {
				r = append(r, regLoop{e, l})
			}
		}
	}
	return r
}

// controller finds the controller in a state.
func (g *registry) controller(s *State) *Ptr {
	os := g.w.objsOf(s, typeName(g.ctrl))
	if len(os) != 1 {
		return nil
	}
	return &Ptr{o: os[0], t: g.ctrl}
}

// iterate runs one iteration of a loop.
func (g *registry) iterate(rl regLoop, h *regShape) []*regRun {
	x := g.x
	s := rl.l.hst.clone()
	c := g.controller(s)
	if c == nil {
		g.r.check("shape of the registry", false, x.pos(rl.l.head.Instrs[0]), "%s does not know which controller it serves", g.w.baseName(rl.e.name))
		return nil
	}
	b := g.build(s, c, h)
	g.cur = b
	x.entry = rl.e.name
	fi := x.fnInfo(rl.l.fn)
	var lp *Loop
	for _, l := range fi.loops {
		if l.head == rl.l.head {
			lp = l
		}
	}
	if lp == nil {
		return nil
	}
	fr := &fnRun{x: x, fi: fi}
	_, backs := fr.region(lp, []*State{b.pre.clone()})
	var r []*regRun
	for _, t := range backs {
		r = append(r, g.outcome(b, t, nil, g.w.baseName(rl.e.name), x.pos(rl.l.head.Instrs[0])+" "+rl.l.fn.Name()))
	}
	return r
}

func (g *registry) outcome(b *regState, t *State, res Value, where, pos string) *regRun {
	o := &regRun{b: b, evs: events(nil, t.tr), end: t, res: res, where: where, pos: pos}
	for _, v := range o.evs {
		if v.k == "config" {
			o.cfgEv = v
		}
	}
	return o
}

// call runs an operation of the controller.
func (g *registry) call(fn *ssa.Function, s *State, h *regShape) []*regRun {
	x := g.x
	c := g.controller(s)
	if c == nil {
		return nil
	}
	b := g.build(s, c, h)
	g.cur = b
	x.entry = fnName(fn)
	t := b.pre.clone()
	cfg := g.config(t, b)
	var args []Value
	for i, p := range fn.Params {
		switch {
		case i == 0:
			args = append(args, c)
		case types.Identical(p.Type(), g.cfgT):
			args = append(args, cfg)
		case typeName(p.Type()) == "net.IP":
			n, _ := x.fieldOf(t, cfg, "IP")
			args = append(args, x.toVal(t, n))
		default:
			a := x.symVal(t, p.Type(), "arg:"+p.Name(), nil, "")
			g.w.assumeArgs(t, []Value{a})
			args = append(args, a)
		}
	}
	var r []*regRun
	for _, o := range x.runFn(t, fn, args, nil, nil) {
		if o.pan {
			continue
		}
		r = append(r, g.outcome(b, o.s, o.res, fnName(fn), x.pos(fn.Blocks[0].Instrs[0])+" "+fn.Name()))
	}
	return r
}

// ---------------------------------------------------------------------------
// Reading
// ---------------------------------------------------------------------------

// list reads the nodes of the controller.
func (g *registry) list(s *State, c *Ptr) ([]*Ptr, string) {
	x := g.x
	n, ft := x.field(s, c, g.sh.list)
	v := x.toVal(s, n)
	if isNil(v) {
		return nil, ""
	}
	sl, ok := v.(*Slice)
	if !ok {
		return nil, "the list is not understood"
	}
	if sl.o == nilObj {
		return nil, ""
	}
	k := s.res(sl.len)
	if !k.isConst() || k.c > 64 {
		return nil, "the number of nodes is not known: " + clip(k.key(), 80)
	}
	a, _ := x.arrAt(s, sl.o, sl.p)
	el := ft.Underlying().(*types.Slice).Elem()
	var r []*Ptr
	for i := int64(0); i < k.c; i++ {
		p, ok := x.toVal(s, x.elemAt(s, a, sl.off.plus(i), el)).(*Ptr)
		if !ok || len(p.p) > 0 {
			return nil, fmt.Sprintf("entry %d of the list is not a known node", i)
		}
		r = append(r, p)
	}
	return r, ""
}

// entry reads a table: the node a universe maps to, nil for none.
func (g *registry) entry(s *State, c *Ptr, field string, key Value) (*Ptr, bool) {
	n, ft := g.x.field(s, c, field)
	if _, ok := g.x.toVal(s, n).(*MapV); !ok {
		return nil, isNil(g.x.toVal(s, n))
	}
	sl := g.w.lookupPtr(s, n, ft.Underlying().(*types.Map), key)
	if len(sl) != 1 {
		return nil, false
	}
	return sl[0].p, true
}

// universes reads the addresses of the ports of a configuration.
func (g *registry) universes(s *State, cf *Node, field string) ([]*Node, bool) {
	x := g.x
	n, ft := x.fieldOf(s, cf, field)
	v := x.toVal(s, n)
	if isNil(v) {
		return nil, true
	}
	sl, ok := v.(*Slice)
	if !ok {
		return nil, false
	}
	if sl.o == nilObj {
		return nil, true
	}
	k := s.res(sl.len)
	if !k.isConst() || k.c > 64 {
		return nil, false
	}
	el := ft.Underlying().(*types.Slice).Elem()
	a, _ := x.arrAt(s, sl.o, sl.p)
	var r []*Node
	for i := int64(0); i < k.c; i++ {
		e := x.expand(s, x.elemAt(s, a, sl.off.plus(i), el))
		if e.k != nStruct {
			return nil, false
		}
		st := el.Underlying().(*types.Struct)
		for j := 0; j < st.NumFields(); j++ {
			if types.Identical(st.Field(j).Type(), g.adr) {
				r = append(r, e.f[j])
			}
		}
	}
	return r, true
}

func (g *registry) sameAddr(s *State, a, b *Node) bool {
	return s.decide(g.x.keyEq(s, g.adr, a, b)) == 1
}

// announced is what node i announces after the operation.
func (g *registry) expect(o *regRun, i int) regNode {
	if o.replied() && o.b.h.ip == i {
		return o.b.h.cfg
	}
	return o.b.h.nodes[i]
}

// replied: the operation handled the reply.
func (o *regRun) replied() bool { return o.cfgEv != nil }

// regNodeState is a node after the operation.
type regAfter struct {
	p   *Ptr
	idx int // node of the shape, or -1: new
}

// after identifies the nodes in the list.
func (g *registry) after(o *regRun) ([]regAfter, string) {
	ps, why := g.list(o.end, o.b.ctrl)
	if why != "" {
		return nil, why
	}
	var r []regAfter
	for k, p := range ps {
		a := regAfter{p, -1}
		for i, q := range o.b.nodes {
			if q.o == p.o {
				a.idx = i
			}
		}
		for _, z := range r {
			if z.p.o == p.o {
				return nil, fmt.Sprintf("entry %d of the list repeats a node", k)
			}
		}
		r = append(r, a)
	}
	return r, ""
}

// regShapes lists the forms that are analysed.
func regShapes(full bool) []*regShape {
	var r []*regShape
	bases := [][]regNode{
		{},
		{{[]int{0}, nil}},
		{{nil, []int{10}}},
		{{[]int{0, 1}, []int{10, 11}}},
		{{[]int{0}, []int{0}}},
		{{[]int{0, 1, 2, 3}, []int{10, 11, 12, 13}}},
		{{[]int{0, 1}, []int{10}}, {[]int{2}, []int{11, 12}}},
		{{[]int{0}, []int{10}}, {[]int{1, 2}, nil}, {nil, []int{11, 12}}},
		{{[]int{0}, []int{1}}, {[]int{1}, []int{0}}, {[]int{2}, []int{2}}},
	}
	k := 0
	add := func(h regShape) {
		for pos := 0; pos < 4; pos++ {
			for fld := 0; fld < 2; fld++ {
				if full || pos == k%4 && fld == (k/4+k)%2 {
					c := h
					c.pos, c.fld = pos, fld
					r = append(r, &c)
				}
			}
		}
		k++
	}
	for _, b := range bases {
		for _, c := range []regNode{{}, {[]int{5}, []int{15}}, {[]int{5, 6, 7, 8}, []int{15, 16, 17, 18}}, {[]int{5, 5}, []int{15, 15}}, {[]int{5, 6}, []int{5}}, {nil, []int{15}}} {
			add(regShape{nodes: b, ip: -1, cfg: c})
		}
		for i, n := range b {
			vary := func(ids []int, fresh, stale int) [][]int {
				l := len(ids)
				r := [][]int{ids, nil, {fresh}, append(append([]int{}, ids...), fresh), append([]int{fresh}, ids...), {stale}}
				if l > 0 {
					r = append(r, ids[1:], ids[:l-1], []int{fresh, ids[l-1]}, []int{ids[0], fresh}, []int{ids[0], ids[0]})
				}
				if l > 1 {
					rev := append([]int{}, ids...)
					for a, z := 0, l-1; a < z; a, z = a+1, z-1 {
						rev[a], rev[z] = rev[z], rev[a]
					}
					r = append(r, rev)
				}
				return r
			}
			vo, vi := vary(n.outs, 5, 90+i), vary(n.ins, 15, 16)
			for j := 0; j < max(len(vo), len(vi)); j++ {
				add(regShape{nodes: b, ip: i, cfg: regNode{vo[j%len(vo)], vi[j%len(vi)]}})
			}
			add(regShape{nodes: b, ip: i, cfg: regNode{n.outs, nil}})
			add(regShape{nodes: b, ip: i, cfg: regNode{nil, n.ins}})
		}
	}
	return r
}
