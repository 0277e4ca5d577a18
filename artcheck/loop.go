package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type testRec struct {
	b              *ssa.BasicBlock
	c              *Cond
	taken, decided bool
}

func (r *fnRun) noteTest(s *State, b *ssa.BasicBlock, c *Cond, taken, decided bool) {
	if r.recTests > 0 {
		r.tests = append(r.tests, testRec{b, c, taken, decided})
	}
}

func (l *Loop) exitTest(t testRec) bool {
	if !l.blocks[t.b] || len(t.b.Succs) != 2 {
		return false
	}
	return l.blocks[t.b.Succs[0]] != l.blocks[t.b.Succs[1]]
}

// trial runs the loop body without recording anything.
func (r *fnRun) trial(l *Loop, ins []*State) (exits map[*ssa.BasicBlock][]*State, backs []*State, tests []testRec) {
	r.x.quiet++
	r.recTests++
	old := r.tests
	r.tests = nil
	n := len(r.outs)
	exits, backs = r.region(l, ins)
	tests = r.tests
	r.tests = old
	r.outs = r.outs[:n]
	r.recTests--
	r.x.quiet--
	return
}

func (r *fnRun) loop(l *Loop, ins []*State) []edge {
	var out []edge
	for _, s := range ins {
		out = append(out, r.loop1(l, s)...)
	}
	return out
}

func edgesOf(exits map[*ssa.BasicBlock][]*State) []edge {
	var bs []*ssa.BasicBlock
	for b := range exits {
		bs = append(bs, b)
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
	var out []edge
	for _, b := range bs {
		for _, s := range exits[b] {
			out = append(out, edge{s, b})
		}
	}
	return out
}

func (r *fnRun) loop1(l *Loop, s *State) []edge {
	_, _, tests := r.trial(l, []*State{s.clone()})
	// a test that always goes the same way at this point (and not the branch
	// on the outcome of a select, which goes both ways)
	dir := map[*ssa.BasicBlock]int{}
	for _, t := range tests {
		if l.exitTest(t) {
			d := 1
			if t.taken {
				d = 2
			}
			if !t.decided {
				d = 3
			}
			dir[t.b] |= d
		}
	}
	decided := false
	for _, d := range dir {
		if d != 3 {
			decided = true
		}
	}
	// a counter with few iterations left
	for _, t := range tests {
		if decided || !l.exitTest(t) || t.decided || l.mapWrites() {
			continue
		}
		for _, f := range append(linForms(t.c, true), linForms(t.c, false)...) {
			f = s.res(f)
			if f.isConst() {
				continue
			}
			if _, hi := s.rng(f); hi <= 8 {
				decided = true
			}
		}
	}
	if (decided || r.x.exactMaps) && r.unroll(l, s.clone(), true) != nil {
		return *r.unroll(l, s, false)
	}
	return r.summarise(l, s)
}

// mapWrites: the loop adds to or removes from a map, itself or in what it calls.
func (l *Loop) mapWrites() bool {
	for b := range l.blocks {
		if blockMapWrites(b, nil) {
			return true
		}
	}
	return false
}

func blockMapWrites(b *ssa.BasicBlock, seen map[*ssa.Function]bool) bool {
	for _, in := range b.Instrs {
		switch in := in.(type) {
		case *ssa.MapUpdate:
			return true
		case ssa.CallInstruction:
			c := in.Common()
			if f, ok := c.Value.(*ssa.Builtin); ok && f.Name() == "delete" {
				return true
			}
			f := c.StaticCallee()
			if f == nil || seen[f] || f.Pkg == nil || !strings.HasPrefix(f.Pkg.Pkg.Path(), modulePath) {
				continue
			}
			if seen == nil {
				seen = map[*ssa.Function]bool{}
			}
			seen[f] = true
			for _, fb := range f.Blocks {
				if blockMapWrites(fb, seen) {
					return true
				}
			}
		}
	}
	return false
}

// unroll executes the loop to its end; nil if it does not end soon.
func (r *fnRun) unroll(l *Loop, s *State, quiet bool) *[]edge {
	var out []edge
	if quiet {
		r.x.quiet++
		n := len(r.outs)
		defer func() { r.x.quiet--; r.outs = r.outs[:n] }()
	}
	cur := []*State{s}
	linear, most := true, 16
	for b := range l.blocks {
		for _, i := range b.Instrs {
			switch i := i.(type) {
			case *ssa.Select, *ssa.Send:
				linear, most = false, 4 // waits: hardly a loop that counts
			case *ssa.UnOp:
				if i.Op == token.ARROW {
					linear, most = false, 4
				}
			}
		}
	}
	for k := 0; ; k++ {
		if quiet && (k > most && !linear || k > 600 || len(cur) > 512) {
			return nil
		}
		for _, t := range cur {
			r.trim(t, l.head)
		}
		ex, backs := r.region(l, mergeStates(cur))
		out = append(out, edgesOf(ex)...)
		if len(backs) == 0 {
			return &out
		}
		if len(backs) > 1 || len(ex) > 0 {
			linear = false
		}
		cur = backs
	}
}

// ---------------------------------------------------------------------------
// Summaries
// ---------------------------------------------------------------------------

const (
	kInv = iota
	kInd
	kSlice
	kStr
	kArr
	kHavoc
)

type cell struct {
	kind int
	step int64
	// slices
	so, sl, sc int64
	// strings: appended part at iteration it
	part SP
	// arrays: element written at iteration it
	idx  *Lin
	seg  Seg
	name string
	nn   bool
	t    types.Type
	elem string
	org  *Origin
	v0   Value
	n0   *Node
	at   int   // round in which the kind changed
	iv   *ival // range of a havocked integer
	niv  int
	rel  int  // how the length of a havocked slice is bounded: relMin...
	back bool // a havocked slice keeps its backing array, offset and capacity
}

// bounds of the length of a havocked slice after it iterations
const (
	relShrink = 1 << iota // at least the initial length minus it
	relMax                // at most the initial length
	relMin                // at least the initial length
	relGrow               // at most the initial length plus it
)

func (c *cell) lenBounds(l, it *Lin) map[int]*Lin {
	v0, ok := c.v0.(*Slice)
	if !ok {
		return nil
	}
	d := l.sub(v0.len)
	return map[int]*Lin{relShrink: d.add(it, 1), relMax: d.scale(-1), relMin: d, relGrow: it.sub(d)}
}

func (g *gen) keepsBack(b *State, c *cell, after Value) bool {
	v0, ok := c.v0.(*Slice)
	v, ok2 := after.(*Slice)
	return ok && ok2 && v0.o != nilObj && v.o == v0.o && pathKey(v.p) == pathKey(v0.p) &&
		b.res(v.off.sub(v0.off)).key() == "0" && b.res(v.cap.sub(v0.cap)).key() == "0"
}

// checkLen drops the bounds an iteration breaks.
func (g *gen) checkLen(b *State, c *cell, after Value) {
	if c.back && c.at != g.round && !g.keepsBack(b, c, after) {
		c.back = false
		g.changed = true
	}
	if c.rel == 0 || c.at == g.round {
		return
	}
	l := lc(0)
	switch v := after.(type) {
	case *Slice:
		l = v.len
	case NilV:
	default:
		c.rel = 0
		g.changed = true
		return
	}
	for k, f := range c.lenBounds(l, la(g.it).plus(1)) {
		if c.rel&k != 0 && !b.entails(f) {
			c.rel &^= k
			g.changed = true
		}
	}
}

type gen struct {
	round int
	r     *fnRun
	x     *Exec
	l     *Loop
	s     *State // entry
	it    *Atom
	mark  int
	id    string
	phis  []*ssa.Phi
	cells map[string]*cell
	heap  map[*Obj]*Node
	epoch map[string]int
	pub   map[*Obj]bool
	nils  map[*Obj]ssa.Instruction
	cands map[string]*Lin
	drop  map[string]bool
	nn    map[string]*nonul
	dropN map[string]bool

	changed bool // a scalar cell, bound or epoch changed in this round
}

func (g *gen) cell(path string, t types.Type) *cell {
	c := g.cells[path]
	if c == nil {
		c = &cell{kind: kInv, t: t, name: fmt.Sprintf("%s:%s", g.id, path), nn: true}
		g.cells[path] = c
	}
	return c
}

// valueAt is the value of a scalar cell when it iterations are complete.
func (g *gen) valueAt(s *State, c *cell, it *Lin) Value {
	switch c.kind {
	case kInv:
		return c.v0
	case kInd:
		v := c.v0.(*Int)
		return intLin(v.linear().add(it, c.step), v.w, v.sg)
	case kSlice:
		v := c.v0.(*Slice)
		return &Slice{o: v.o, p: v.p, off: v.off.add(it, c.so), len: v.len.add(it, c.sl), cap: v.cap.add(it, c.sc), el: v.el, nm: v.nm}
	case kStr:
		p := c.part
		p.lo, p.hi = c.part.lo.subst(g.it, lc(0)), c.part.lo.subst(g.it, it)
		if p.lo.key() == p.hi.key() {
			return c.v0
		}
		return strCat(c.v0.(*Str), &Str{parts: []SP{p}})
	}
	v := g.x.symVal(s, c.t, c.name, c.org, c.elem)
	if i, ok := v.(*Int); ok && c.iv != nil {
		l := i.linear()
		if c.iv.lo > -inf {
			s.addGE(l.plus(-c.iv.lo))
		}
		if c.iv.hi < inf {
			s.addGE(lc(c.iv.hi).sub(l))
		}
	}
	if sl, ok := v.(*Slice); ok && c.back {
		v0 := c.v0.(*Slice)
		n := &Slice{o: v0.o, p: v0.p, off: v0.off, len: sl.len, cap: v0.cap, el: v0.el, nm: sl.nm}
		s.addGE(sl.len)
		s.addGE(v0.cap.sub(sl.len))
		v = n
	}
	if sl, ok := v.(*Slice); ok && c.rel != 0 {
		bs := c.lenBounds(sl.len, it)
		for _, k := range []int{relShrink, relMax, relMin, relGrow} {
			if c.rel&k != 0 {
				s.addGE(bs[k])
			}
		}
	}
	if c.nn {
		if nc := nilCond(v); nc.k == cKey && (isPtrLike(v)) {
			s.own()
			s.F.op[nc.key] = false
		}
	}
	return v
}

func isPtrLike(v Value) bool {
	switch v.(type) {
	case *Ptr, *Slice, *MapV, *ChanV, *Func, *Iface:
		return true
	}
	return false
}

// update compares the value after an iteration with the prediction.
func (g *gen) update(b *State, c *cell, cur, after Value, late bool) {
	x := g.x
	if isPtrLike(after) || isNil(after) {
		if c.nn && b.decide(nilCond(after)) != 0 {
			c.nn = false
			if c.kind == kHavoc {
				g.changed = true
			}
		}
	}
	if c.kind == kHavoc {
		if c.iv != nil {
			g.widen(b, c, after)
		}
		g.checkLen(b, c, after)
		return
	}
	if c.kind != kInv && c.at == g.round {
		return // the iteration was run with the old prediction
	}
	k0 := c.kind
	defer func() {
		if c.kind != k0 {
			c.at = g.round
		}
	}()
	if sl, ok := c.v0.(*Slice); ok && sl.o == nilObj && c.kind == kInv {
		if _, isS := after.(*Str); isS {
			c.v0 = &Str{} // strings.Builder
			cur = c.v0
		}
	}
	next := g.valueAt(b, c, la(g.it).plus(1))
	if sameVal(x, b, next, after) {
		return
	}
	if c.kind == kInv {
		switch v0 := c.v0.(type) {
		case *Int:
			if v1, ok := after.(*Int); ok {
				d := b.res(v1.linear().sub(v0.linear()))
				if d.isConst() && d.c != 0 {
					c.kind, c.step = kInd, d.c
					g.changed = true
					return
				}
			}
		case *Slice:
			if v1, ok := after.(*Slice); ok && v1.o == v0.o && pathKey(v1.p) == pathKey(v0.p) && v0.o != nilObj {
				a, l, k := b.res(v1.off.sub(v0.off)), b.res(v1.len.sub(v0.len)), b.res(v1.cap.sub(v0.cap))
				if a.isConst() && l.isConst() && k.isConst() {
					c.kind, c.so, c.sl, c.sc = kSlice, a.c, l.c, k.c
					g.changed = true
					return
				}
			}
		case *Str:
			if !late {
				return
			}
			if v1, ok := after.(*Str); ok && len(v1.parts) == len(v0.parts)+1 {
				p := v1.parts[len(v1.parts)-1]
				head := &Str{parts: v1.parts[:len(v1.parts)-1]}
				if p.seq != nil && !p.cut && head.key() == v0.key() && p.hi.sub(p.lo).key() == "1" && p.lo.coef(g.it) == 1 {
					c.kind, c.part = kStr, p
					g.changed = true
					return
				}
			}
		}
	}
	if v0, ok := c.v0.(*Int); ok && c.kind != kHavoc {
		lo, hi := g.s.rng(v0.linear())
		c.iv = &ival{lo, hi}
		g.widen(b, c, after)
	}
	if _, ok := c.v0.(*Slice); ok {
		c.rel = relShrink | relMax | relMin | relGrow
		c.back = g.keepsBack(b, c, after)
	}
	c.kind = kHavoc
	g.changed = true
}

// widen extends the range of a havocked integer.
func (g *gen) widen(b *State, c *cell, after Value) {
	v, ok := after.(*Int)
	if !ok {
		c.iv = nil
		g.changed = true
		return
	}
	lo, hi := b.rng(v.linear())
	if lo >= c.iv.lo && hi <= c.iv.hi {
		return
	}
	g.changed = true
	n := &ival{min(lo, c.iv.lo), max(hi, c.iv.hi)}
	if c.niv++; c.niv > 6 {
		if n.lo < c.iv.lo {
			n.lo = -inf
		}
		if n.hi > c.iv.hi {
			n.hi = inf
		}
	}
	c.iv = n
}

func isNil(v Value) bool { _, ok := v.(NilV); return ok }

func sameVal(x *Exec, s *State, a, b Value) bool {
	if vkey(a) == vkey(b) {
		return true
	}
	switch u := a.(type) {
	case *Int:
		if v, ok := b.(*Int); ok {
			return s.entailsEQ(u.linear().sub(v.linear()))
		}
	case *Slice:
		if v, ok := b.(*Slice); ok {
			return u.o == v.o && pathKey(u.p) == pathKey(v.p) && s.entailsEQ(u.off.sub(v.off)) && s.entailsEQ(u.len.sub(v.len)) && s.entailsEQ(u.cap.sub(v.cap))
		}
	case *Cond:
		if v, ok := b.(*Cond); ok {
			p, q := s.decide(u), s.decide(v)
			return p >= 0 && p == q
		}
	}
	return false
}

// moving: something at the path is expected to change in every iteration.
func (g *gen) moving(path string) bool {
	for k, c := range g.cells {
		if (c.kind == kInd || c.kind == kSlice || c.kind == kStr || c.kind == kArr) && strings.HasPrefix(k, path) {
			return true
		}
	}
	return false
}

// node generalises the content at path.
func (g *gen) node(b *State, n0, cur, after *Node, path string, late bool, el types.Type) *Node {
	if cur.key() == after.key() && !g.moving(path) {
		return cur
	}
	x := g.x
	t := n0.t
	if n0.k == nMap || after.k == nMap {
		if !late || cur.key() == after.key() {
			return cur
		}
		c := g.cell(path, t)
		if c.kind != kHavoc {
			c.kind = kHavoc
			g.changed = true
			return &Node{k: nMap, t: t, base: c.name}
		}
		return cur
	}
	if n0.k == nArr || (t != nil && isArrT(t) && isAgg(t)) {
		return g.arr(b, n0, cur, after, path, late, el)
	}
	if _, ok := t.Underlying().(*types.Struct); ok && isAgg(t) {
		e0, ec, ea := x.expand(g.s, n0), x.expand(b, cur), x.expand(b, after)
		if e0.k == nStruct && ec.k == nStruct && ea.k == nStruct {
			r := &Node{k: nStruct, t: t, f: make([]*Node, len(e0.f))}
			for i := range e0.f {
				r.f[i] = g.node(b, e0.f[i], ec.f[i], ea.f[i], fmt.Sprintf("%s.%d", path, i), late, nil)
			}
			return r
		}
	}
	// scalar
	c := g.cell(path, t)
	if c.v0 == nil {
		c.v0 = x.toVal(g.s, n0)
		if n0.k == nLazy {
			c.org, c.elem = n0.org, n0.elem
		}
	}
	k := c.kind
	g.update(b, c, x.toVal(b, cur), x.toVal(b, after), late)
	if c.kind == k {
		return cur
	}
	return leaf(t, g.valueAt(g.s, c, la(g.it)))
}

func (g *gen) arr(b *State, n0, cur, after *Node, path string, late bool, el types.Type) *Node {
	x := g.x
	if !late {
		return cur
	}
	c := g.cell(path, n0.t)
	if c.kind == kHavoc {
		return cur
	}
	havoc := func() *Node {
		c.kind = kHavoc
		g.changed = true
		if isArrT(n0.t) && isAgg(n0.t) && n0.k != nArr {
			return lazyNode(n0.t, c.name, nil)
		}
		if n0.k == nArr && isArrT(n0.t) && el == nil {
			return lazyNode(n0.t, c.name, nil)
		}
		es := ""
		for _, sg := range n0.segs {
			if sg.elem != "" && len(b.nils) == 0 {
				es = sg.elem
			}
		}
		return &Node{k: nArr, t: n0.t, segs: []Seg{{lo: lc(0), hi: lc(inf), k: nLazy, src: c.name, delta: lc(0), elem: es}}}
	}
	a0, ac, aa := x.expandArr(g.s, n0), x.expandArr(b, cur), x.expandArr(b, after)
	if a0.k != nArr || ac.k != nArr || aa.k != nArr || len(a0.over) > 0 {
		return havoc()
	}
	if c.kind == kArr && c.at == g.round {
		return cur
	}
	if c.kind == kArr {
		want, ok := g.arrAt(b, c, a0, la(g.it).plus(1))
		if ok && want.key() == aa.key() {
			return cur
		}
		return havoc()
	}
	// which element was written?
	var idx *Lin
	var nd *Node
	if len(aa.over) == len(ac.over)+1 {
		idx, nd = aa.over[0].idx, aa.over[0].node
	} else {
		for _, sg := range aa.segs {
			if d := b.res(sg.hi.sub(sg.lo)); d.isConst() && d.c == 1 && sg.lo.coef(g.it) != 0 {
				e := segElem(b, sg, sg.lo, elemOr(n0.t, el))
				if x.putElem(b, ac, sg.lo, e).key() == aa.key() {
					idx, nd = sg.lo, e
					break
				}
			}
		}
	}
	if idx == nil {
		return havoc()
	}
	k := idx.coef(g.it)
	if k != 1 && k != -1 {
		return havoc()
	}
	sg := elemSeg(idx, nd)
	if sg.k == nLazy && sg.delta.coef(g.it) != 0 || sg.k == nLeaf && g.nodeDepends(sg.node) {
		return havoc()
	}
	c.kind, c.idx, c.seg, c.at = kArr, idx, sg, g.round
	g.changed = true
	r, ok := g.arrAt(g.headFacts(), c, a0, la(g.it))
	if !ok {
		return havoc()
	}
	return r
}

func elemOr(t, el types.Type) types.Type {
	if el != nil {
		return el
	}
	return elemType(t)
}

var hashRe = regexp.MustCompile(`#(\d+)`)

// nodeDepends reports whether a value changes from iteration to iteration.
func (g *gen) nodeDepends(n *Node) bool { return g.nameDepends(n.key()) }

func (g *gen) nameDepends(k string) bool {
	for _, m := range hashRe.FindAllStringSubmatch(k, -1) {
		if v, _ := strconv.Atoi(m[1]); v > g.mark {
			return true
		}
	}
	return false
}

// headFacts is a state with the facts that hold at the loop head.
func (g *gen) headFacts() *State { return g.head() }

func (g *gen) arrAt(s *State, c *cell, a0 *Node, it *Lin) (*Node, bool) {
	sg := c.seg
	i0, i1 := c.idx.subst(g.it, lc(0)), c.idx.subst(g.it, it)
	if c.idx.coef(g.it) == 1 {
		sg.lo, sg.hi = i0, i1
	} else {
		sg.lo, sg.hi = i1.plus(1), i0.plus(1)
	}
	if sg.lo.key() == sg.hi.key() {
		return a0, true
	}
	return g.x.putSeg(s, a0, sg)
}

// head builds the state at the loop head after an arbitrary number of
// iterations.
func (g *gen) head() *State {
	t := g.s.clone()
	it := la(g.it)
	if len(g.epoch) > 0 {
		e := make(map[string]int, len(t.epoch)+len(g.epoch))
		for k, v := range t.epoch {
			e[k] = v
		}
		for k, v := range g.epoch {
			e[k] = v
		}
		t.epoch = e
	}
	for _, k := range sortedKeys(g.cands) {
		t.addGE(g.cands[k])
	}
	for _, k := range sortedKeys(g.nn) {
		n := g.nn[k]
		t.addNonul(n.src, n.lo, n.hi)
	}
	for _, p := range g.phis {
		c := g.cells["phi:"+p.Name()]
		if c != nil {
			t.fr.env[p] = g.valueAt(t, c, it)
		}
	}
	for o, n := range g.heap {
		t.setHeap(o, n)
	}
	if len(g.pub) > 0 {
		np := map[*Obj]bool{}
		for o := range t.pub {
			np[o] = true
		}
		for o := range g.pub {
			np[o] = true
		}
		t.pub = np
	}
	if len(g.nils) > 0 {
		nn := map[*Obj]ssa.Instruction{}
		for o, i := range g.nils {
			nn[o] = i
		}
		for o, i := range t.nils {
			nn[o] = i
		}
		t.nils = nn
	}
	// cells created for heap leaves may carry non-nil facts
	for _, k := range sortedKeys(g.cells) {
		c := g.cells[k]
		if c.kind == kHavoc && (c.nn || c.iv != nil || c.rel != 0) && c.v0 != nil {
			g.valueAt(t, c, it)
		}
	}
	return t
}

// linForms lists the linear constraints (>= 0) a test result implies.
func linForms(c *Cond, taken bool) []*Lin {
	switch c.k {
	case cNot:
		return linForms(c.xs[0], !taken)
	case cAnd:
		if taken {
			var r []*Lin
			for _, y := range c.xs {
				r = append(r, linForms(y, true)...)
			}
			return r
		}
	case cLE:
		d := c.b.linear().sub(c.a.linear())
		if taken {
			return []*Lin{d}
		}
		return []*Lin{d.scale(-1).plus(-1)}
	case cEQ:
		d := c.b.linear().sub(c.a.linear())
		if taken {
			return []*Lin{d, d.scale(-1)}
		}
		return []*Lin{d.plus(-1), d.scale(-1).plus(-1)}
	}
	return nil
}

func (r *fnRun) summarise(l *Loop, s *State) []edge {
	x := r.x
	in.uniq++
	g := &gen{r: r, x: x, l: l, s: s, mark: in.uniq, cells: map[string]*cell{}, heap: map[*Obj]*Node{}, epoch: map[string]int{},
		pub: map[*Obj]bool{}, nils: map[*Obj]ssa.Instruction{}, cands: map[string]*Lin{}, drop: map[string]bool{}, nn: map[string]*nonul{}, dropN: map[string]bool{}}
	g.id = fresh("L")
	g.it = atomNamed(fresh("it"), 64, true)
	g.it.lo, g.it.hi = 0, 1<<40
	for _, i := range l.head.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		v, ok := s.fr.env[p]
		if !ok {
			continue // dead
		}
		g.phis = append(g.phis, p)
		c := g.cell("phi:"+p.Name(), p.Type())
		c.v0 = v
		if isPtrLike(v) || isNil(v) {
			c.nn = s.decide(nilCond(v)) == 0
		}
	}
	late := false
	for round := 0; ; round++ {
		if round > 40 {
			x.fail("loop in %s does not stabilise", r.fi.fn)
			break
		}
		g.changed = false
		g.round = round
		if os.Getenv("ARTCHECK_LOOP") != "" {
			fmt.Fprintln(os.Stderr, "loop", r.fi.fn.Name(), l.head.Index, "round", round, "steps", x.steps)
		}
		t := g.head()
		_, backs, tests := r.trial(l, []*State{t.clone()})
		for _, b := range backs {
			for _, p := range g.phis {
				if v, ok := b.fr.env[p]; ok {
					g.update(b, g.cells["phi:"+p.Name()], t.fr.env[p], v, late)
				}
			}
			for k, e := range b.epoch {
				if t.epoch[k] != e {
					if _, ok := g.epoch[k]; !ok {
						in.uniq++
						g.epoch[k] = in.uniq
						g.changed = true
					}
				}
			}
			for o := range b.pub {
				if !t.pub[o] && !g.pub[o] {
					if _, ok := t.heap[o]; ok {
						g.pub[o] = true
						g.changed = true
					}
				}
			}
			for o, i := range b.nils {
				if t.nils[o] != nil || g.nils[o] != nil {
					continue
				}
				if _, ok := t.heap[o]; !late && (ok || o.sym && !g.nameDepends(o.name)) {
					g.s.setHeap(o, x.root(g.s, o))
					g.nils[o] = i
					g.changed = true
				} else if x.quiet == 0 {
					x.elemBad[typeName(types.NewSlice(o.t))] = x.pos(i) + " (nil)"
				}
			}
			g.heapDiff(b, t, late)
		}
		// bounds
		for _, k := range sortedKeys(g.cands) {
			h := g.cands[k].subst(g.it, la(g.it).plus(1))
			for _, b := range backs {
				if !b.entails(h) {
					delete(g.cands, k)
					g.drop[k] = true
					g.changed = true
					break
				}
			}
		}
		for _, ts := range tests {
			if !l.blocks[ts.b] {
				continue
			}
			for _, f := range linForms(ts.c, ts.taken) {
				h := f.subst(g.it, la(g.it).plus(-1))
				if h.coef(g.it) == 0 || g.drop[h.key()] || g.cands[h.key()] != nil {
					continue
				}
				bad := false
				for _, tm := range h.t {
					if tm.a != g.it && g.nameDepends(tm.a.name) {
						bad = true
					}
				}
				if bad || !s.entails(h.subst(g.it, lc(0))) {
					g.drop[h.key()] = true
					continue
				}
				ok := true
				for _, b := range backs {
					if !b.entails(f) {
						ok = false
					}
				}
				if !ok {
					continue // may become true once more is known
				}
				g.cands[h.key()] = h
				g.changed = true
			}
		}
		if g.changed {
			continue
		}
		if !late {
			late = true
			continue
		}
		if g.nonuls(backs) {
			continue
		}
		break
	}
	// final run
	t := g.head()
	li := &LoopInfo{fn: r.fi.fn, head: l.head, it: g.it, pre: s.clone(), cells: g.cells}
	e := t.ev("loop", l.head.Instrs[0])
	e.loop = li
	for _, k := range sortedKeys(g.cands) {
		li.bounds = append(li.bounds, g.cands[k])
	}
	li.hst = t.clone()
	exits, backs := r.region(l, []*State{t})
	for _, b := range backs {
		li.alts = append(li.alts, &LoopAlt{evs: events(e, b.tr), F: b.F, s: b})
		b.shared, b.hsh = true, true
		x.checkpoint(b, "loop")
		if !sameLocks(b.locks, s.locks) {
			x.lockIssue(s, l.head.Instrs[0], fmt.Sprintf("an iteration of the loop changes the held locks: %s -> %s", lockNames(s.locks), lockNames(b.locks)))
		}
		if len(b.fr.defers) != len(s.fr.defers) {
			x.fail("defer inside a loop in %s", r.fi.fn)
		}
	}
	if x.quiet == 0 {
		x.loops[x.entry] = append(x.loops[x.entry], li)
	}
	out := edgesOf(exits)
	for _, ed := range out {
		for _, k := range sortedVals(ed.s.fr.env) {
			v := ed.s.fr.env[k]
			if st, ok := v.(*Str); ok {
				ed.s.fr.env[k] = x.cutStr(ed.s, st)
			}
		}
	}
	return out
}

func sameLocks(a, b []Lock) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i].key != b[i].key || a[i].read != b[i].read {
			return false
		}
	}
	return true
}

func lockNames(ls []Lock) string {
	r := "["
	for i, l := range ls {
		if i > 0 {
			r += " "
		}
		r += l.field
	}
	return r + "]"
}

func (g *gen) heapDiff(b, t *State, late bool) {
	var os []*Obj
	for o := range t.heap {
		os = append(os, o)
	}
	sort.Slice(os, func(i, j int) bool { return os[i].id < os[j].id })
	for _, o := range os {
		after, ok := b.heap[o]
		if !ok {
			continue // unreachable in b
		}
		cur := t.heap[o]
		if g.heap[o] != nil {
			cur = g.heap[o]
		}
		if cur.key() == after.key() && !g.moving("obj:"+o.name) {
			continue
		}
		n0 := g.s.heap[o]
		if n0 == nil {
			n0 = g.x.root(g.s, o)
		}
		var el types.Type
		if o.arr || n0.k == nArr && !isArrT(o.t) {
			el = o.t
		}
		nn := g.node(b, n0, cur, after, "obj:"+o.name, late, el)
		if nn.key() != cur.key() {
			g.heap[o] = nn
		}
	}
}

// nonuls finds byte sequences the completed iterations have shown to contain
// no zero byte.
func (g *gen) nonuls(backs []*State) bool {
	if len(backs) == 0 {
		return false
	}
	cand := map[string]*nonul{}
	for a := range backs[0].F.at {
		e, ok := in.elems[a.name]
		if !ok || e.idx.coef(g.it) != 1 || g.nameDepends(e.src) {
			continue
		}
		good := true
		for _, b := range backs {
			f, ok := b.F.at[a]
			if !ok || f.set == nil || f.set[0]&1 == 1 {
				good = false
			}
		}
		if good {
			cand[a.name] = &nonul{e.src, e.idx.subst(g.it, lc(0)), e.idx}
		}
	}
	ch := false
	for k, n := range cand {
		if g.nn[k] == nil {
			g.nn[k] = n
			ch = true
		}
	}
	return ch
}
