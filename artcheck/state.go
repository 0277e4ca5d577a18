package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// State is the abstract state of one partition of the paths reaching a point.
type State struct {
	F      *Facts
	shared bool // F is shared with a snapshot
	heap   map[*Obj]*Node
	hsh    bool // heap is shared with a snapshot
	epoch  map[string]int
	pub    map[*Obj]bool // objects other goroutines may see
	locks  []Lock
	tr     *Ev
	fr     *Frame // innermost frame
	x      *Exec
	deadIt bool
	nils   map[*Obj]ssa.Instruction // backing arrays an element of which was set to nil
	dir    int                      // order in which known maps are visited on this path (0 not chosen, 1 forward, 2 backward)
}

type Lock struct {
	key   string // identity of the mutex
	field string // Type.field
	read  bool
	at    ssa.Instruction
}

// Frame is an activation of a function.
type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	defers []*deferred
	prev   *ssa.BasicBlock
	up     *Frame
	depth  int
	site   ssa.Instruction
}

type deferred struct {
	instr *ssa.Defer
	fn    Value
	args  []Value
}

func (s *State) own() {
	if s.shared {
		s.F = s.F.clone()
		s.shared = false
	}
}

func (s *State) clone() *State {
	t := &State{F: s.F, shared: true, heap: s.heap, hsh: true, epoch: s.epoch, pub: s.pub, tr: s.tr, x: s.x, dir: s.dir, nils: s.nils}
	s.shared, s.hsh = true, true
	t.locks = append([]Lock(nil), s.locks...)
	t.fr = s.fr.cloneChain()
	return t
}

func (s *State) setHeap(o *Obj, n *Node) {
	if s.hsh {
		h := make(map[*Obj]*Node, len(s.heap)+4)
		for k, v := range s.heap {
			h[k] = v
		}
		s.heap, s.hsh = h, false
	}
	s.heap[o] = n
}

func (s *State) bumpEpoch(k string) {
	e := make(map[string]int, len(s.epoch)+1)
	for a, b := range s.epoch {
		e[a] = b
	}
	in.uniq++
	e[k] = in.uniq
	s.epoch = e
}

// cloneChain copies the innermost frame; outer frames are only written after
// a return, which copies them then.
func (f *Frame) cloneChain() *Frame {
	if f == nil {
		return nil
	}
	g := &Frame{fn: f.fn, up: f.up, depth: f.depth, site: f.site}
	g.env = make(map[ssa.Value]Value, len(f.env))
	for k, v := range f.env {
		g.env[k] = v
	}
	g.defers = append([]*deferred(nil), f.defers...)
	return g
}

// Ev is an event of a path; events form a list ending in the newest.
type Ev struct {
	prev  *Ev
	n     int
	k     string // kind
	instr ssa.Instruction
	fn    *ssa.Function
	stack []ssa.Instruction // call sites, innermost last

	F     *Facts
	locks []Lock

	name  string
	args  []Value
	res   Value
	ptr   *Ptr
	node  *Node // stored content
	old   *Node
	str   string
	ch    Value
	sel   []SelCase
	idx   int // chosen case
	blk   bool
	loop  *LoopInfo
	cond  *Cond
	want  bool
	goSt  *State
	org   *Origin
	heap  map[*Obj]*Node
	epoch map[string]int
}

type SelCase struct {
	ch   Value
	send bool
	val  Value
	pos  token.Pos
}

// LoopInfo describes a summarised loop.
type LoopInfo struct {
	fn     *ssa.Function
	head   *ssa.BasicBlock
	it     *Atom // completed iterations
	alts   []*LoopAlt
	bounds []*Lin // hold at the head
	pre    *State // before the first iteration
	hst    *State // at the head, any number of iterations later
	cells  map[string]*cell
}

// LoopAlt is one way an iteration can be completed.
type LoopAlt struct {
	evs []*Ev
	F   *Facts
	s   *State
}

func (s *State) ev(k string, instr ssa.Instruction) *Ev {
	e := &Ev{prev: s.tr, k: k, instr: instr, F: s.F, locks: append([]Lock(nil), s.locks...), heap: s.heap, epoch: s.epoch}
	s.shared, s.hsh = true, true
	if s.tr != nil {
		e.n = s.tr.n + 1
	}
	if s.fr != nil {
		e.fn = s.fr.fn
		for f := s.fr; f != nil && f.site != nil; f = f.up {
			e.stack = append([]ssa.Instruction{f.site}, e.stack...)
		}
	}
	s.tr = e
	return e
}

// events lists the events after mark, oldest first.
func events(from, to *Ev) []*Ev {
	var r []*Ev
	for e := to; e != nil && e != from; e = e.prev {
		r = append(r, e)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (s *State) at(f *Facts) *State {
	return &State{F: f, shared: true, heap: s.heap, epoch: s.epoch, x: s.x}
}

func factState(f *Facts) *State {
	return &State{F: f, shared: true, heap: map[*Obj]*Node{}, epoch: map[string]int{}}
}

// gc drops unreachable objects allocated on the path.
func (s *State) gc() {
	seen := map[*Obj]bool{}
	var visit func(v Value)
	var visitN func(n *Node)
	visitO := func(o *Obj) {
		if o == nil || seen[o] {
			return
		}
		seen[o] = true
		if n, ok := s.heap[o]; ok {
			visitN(n)
		}
	}
	visitN = func(n *Node) {
		if n == nil {
			return
		}
		if n.v != nil {
			visit(n.v)
		}
		for _, f := range n.f {
			visitN(f)
		}
		for _, g := range n.segs {
			visitN(g.node)
		}
		for _, o := range n.over {
			visitN(o.node)
		}
		for _, e := range n.ents {
			visit(e.key)
			visitN(e.val)
		}
	}
	visit = func(v Value) {
		switch v := v.(type) {
		case *Ptr:
			visitO(v.o)
		case *Slice:
			visitO(v.o)
		case *MapV:
			visitO(v.o)
		case *ChanV:
			visitO(v.o)
		case *Func:
			for _, b := range v.bind {
				visit(b)
			}
		case *Iface:
			visit(v.v)
		case *Node:
			visitN(v)
		case Tuple:
			for _, y := range v {
				visit(y)
			}
		case *Iter:
			visit(v.m)
			visitO(v.o)
		}
	}
	for f := s.fr; f != nil; f = f.up {
		for _, v := range f.env {
			visit(v)
		}
		for _, d := range f.defers {
			visit(d.fn)
			for _, a := range d.args {
				visit(a)
			}
		}
	}
	for o := range s.heap {
		if o.sym || o.glob {
			visitO(o)
		}
	}
	var dead []*Obj
	for o := range s.heap {
		if !seen[o] && !o.sym && !o.glob {
			dead = append(dead, o)
		}
	}
	if len(dead) > 0 {
		h := make(map[*Obj]*Node, len(s.heap))
		for k, v := range s.heap {
			h[k] = v
		}
		for _, o := range dead {
			delete(h, o)
		}
		s.heap, s.hsh = h, false
	}
}

// dropIndex forgets positions found by a search that nothing refers to any more.
func (s *State) dropIndex() {
	if s.tr != nil {
		return
	}
	var dead []*Atom
	for a := range s.F.at {
		if strings.HasPrefix(a.name, "index#") {
			dead = append(dead, a)
		}
	}
	if len(dead) == 0 {
		return
	}
	fp := s.fingerprint()
	for _, a := range dead {
		word := regexp.MustCompile(regexp.QuoteMeta(a.name) + `\b`)
		if lo, hi := s.rng(la(a)); lo == hi || word.MatchString(fp) {
			continue
		}
		f := s.F.clone()
		for b := range f.at {
			if word.MatchString(b.name) {
				delete(f.at, b)
			}
		}
		var ls []*Lin
		for _, l := range f.lin {
			if word.MatchString(l.key()) {
				delete(f.lk, l.key())
				continue
			}
			ls = append(ls, l)
		}
		f.lin = ls
		for k := range f.ne {
			if word.MatchString(k) {
				delete(f.ne, k)
			}
		}
		for k := range f.op {
			if word.MatchString(k) {
				delete(f.op, k)
			}
		}
		s.F, s.shared = f, false
	}
}

// fingerprint identifies everything but the facts.
func (s *State) fingerprint() string {
	var b strings.Builder
	fmt.Fprintf(&b, "%p|", s.tr)
	for _, l := range s.locks {
		b.WriteString(l.key + ",")
	}
	var ks []string
	for o, n := range s.heap {
		if o.sym && n.k == nLazy {
			continue
		}
		ks = append(ks, fmt.Sprintf("%d=%s", o.id, n.key()))
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, "|"))
	for f := s.fr; f != nil; f = f.up {
		var es []string
		for k, v := range f.env {
			es = append(es, fmt.Sprintf("%p:%s", k, vkey(v)))
		}
		sort.Strings(es)
		b.WriteString("#" + strings.Join(es, "|"))
		for _, d := range f.defers {
			fmt.Fprintf(&b, "D%p", d.instr)
		}
	}
	return b.String()
}

// mergeStates joins states that only differ in facts.
func mergeStates(in []*State) []*State {
	if len(in) < 2 {
		return in
	}
	by := map[string][]*State{}
	var order []string
	for _, s := range in {
		s.gc()
		s.dropIndex()
		k := s.fingerprint()
		if by[k] == nil {
			order = append(order, k)
		}
		by[k] = joinState(by[k], s)
	}
	var r []*State
	for _, k := range order {
		r = append(r, by[k]...)
	}
	if focusKey != nil && len(r) > focusMin {
		r = focusMerge(r)
	}
	return r
}

func joinState(list []*State, s *State) []*State {
	fs := make([]*Facts, len(list))
	for i, t := range list {
		fs[i] = t.F
	}
	i, f := joinInto(fs, s.F)
	if i < 0 {
		return append(list, s)
	}
	list[i].F, list[i].shared = f, true
	s.shared = true
	return list
}

// onAssume draws consequences of an opaque fact.
func (s *State) onAssume(c *Cond, want bool) {
	if sl, ok := c.val.(*Slice); ok && want {
		// nil slice: empty
		s.addEQ(sl.len)
	}
	if s.x != nil && c.org != nil {
		s.x.flagInvariants(s, c, want)
	}
}

// underlying pointer helpers
func derefType(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}
