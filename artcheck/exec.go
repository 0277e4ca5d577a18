package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Exec is the abstract interpreter.
type Exec struct {
	prog  *ssa.Program
	fset  *token.FileSet
	info  map[*ssa.Function]*FnInfo
	inv   *Invariants
	cut   map[string]bool // functions not entered
	quiet int             // >0: trial run, nothing is recorded

	obl    map[string]*Obligation
	acc    map[string]*Access
	blocks map[string]*BlockPoint
	stores []*Ev
	errs   map[string]bool
	gos    []*GoSite
	funcs  map[*ssa.Function]bool // functions analysed
	steps  int
	budget int
	base   *State // state after package initialisation
	nstate int
	quot   map[string]*quot

	constGlobals map[*ssa.Global]bool
	globObj      map[*ssa.Global]*Obj
	entry        string
	lockErrs     map[string]*LockErr

	optWrites map[string][]string // fields user supplied options may write
	cutModels map[string]func(*mcall) []Out
	notes     map[string]bool
	guards    map[string][]string // mutex field -> fields it guards
	lockOps   map[string]int
	order     map[string]*LockErr
	ckpt      func(s *State, why string) // class invariants
	byVal     map[string]bool            // types with copies of values
	loops     map[string][]*LoopInfo     // summarised loops by entry
	onStore   func(*State, *Ptr, *Node, ssa.Instruction)
	escaped   map[*ssa.Function]*Func // function values stored in shared memory
	elemBad   map[string]string       // container types that may hold nil elements
	stays     map[string]bool         // fields that never become nil again
	nocand    map[string]bool         // refuted invariants
	elemTrust bool                    // containers hold no nil elements unless refuted
	exactMaps bool                    // iterations over known maps visit every entry
}

func (x *Exec) checkpoint(s *State, why string) {
	if x.ckpt != nil && x.quiet == 0 {
		x.ckpt(s, why)
	} else if len(s.nils) > 0 && why != "loop" {
		// settled when the path is run for the record
		left := map[*Obj]ssa.Instruction{}
		for o, i := range s.nils {
			if !o.sym && !o.glob && !s.isPub(o) {
				left[o] = i
			}
		}
		s.nils = left
	}
}

// Obligation is a condition that must hold for an operation not to panic.
type Obligation struct {
	Kind  string
	Fn    *ssa.Function
	Instr ssa.Instruction
	N     int // contexts
	Bad   int
	Why   string
	Stack string
	Entry map[string]bool
	BadIn map[string]string
}

type Access struct {
	Type, Field string
	Write       bool
	Fn          *ssa.Function
	Instr       ssa.Instruction
	Locks       []Lock
	Private     bool
	Stack       string
	Entry       string
	Obj         string
	N           int
}

type BlockPoint struct {
	Instr ssa.Instruction
	Fn    *ssa.Function
	Entry string
	Evs   []*Ev
}

type GoSite struct {
	ev    *Ev
	entry string
}

type Out struct {
	s   *State
	res Value
	pan bool
}

func (x *Exec) fail(format string, a ...any) {
	if x.quiet > 0 {
		return
	}
	x.errs[fmt.Sprintf(format, a...)] = true
}

func (x *Exec) pos(i ssa.Instruction) string {
	if i == nil {
		return "?"
	}
	p := i.Pos()
	if !p.IsValid() {
		// nearest positioned instruction of the block
		for _, j := range i.Block().Instrs {
			if j.Pos().IsValid() {
				p = j.Pos()
				break
			}
		}
		if !p.IsValid() {
			// of a loop head: its body
			for _, b := range i.Block().Succs {
				for _, j := range b.Instrs {
					if !p.IsValid() && j.Pos().IsValid() {
						p = j.Pos()
					}
				}
			}
		}
		if !p.IsValid() {
			p = i.Parent().Pos()
		}
	}
	ps := x.fset.Position(p)
	f := ps.Filename
	if k := strings.Index(f, repoDir+"/"); k >= 0 {
		f = f[k+len(repoDir)+1:]
	}
	return fmt.Sprintf("%s:%d", f, ps.Line)
}

func (x *Exec) stack(s *State) string {
	var r []string
	for f := s.fr; f != nil && f.fn != nil; f = f.up {
		r = append(r, f.fn.Name())
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return strings.Join(r, " > ")
}

// lockIssue records a misuse of locks.
func (x *Exec) lockIssue(s *State, instr ssa.Instruction, what string) {
	if x.quiet > 0 {
		return
	}
	k := fmt.Sprintf("%p|%s", instr, what)
	if x.lockErrs[k] == nil {
		x.lockErrs[k] = &LockErr{Instr: instr, Fn: s.fr.fn, What: what, Stack: x.stack(s), Entry: x.entry}
	}
}

// LockErr is a misuse of locks.
type LockErr struct {
	Instr ssa.Instruction
	Fn    *ssa.Function
	What  string
	Stack string
	Entry string
}

// oblige records a potential panic; ok tells whether it is excluded.
func (x *Exec) oblige(s *State, instr ssa.Instruction, kind string, ok bool, why string) {
	if x.quiet > 0 {
		return
	}
	k := fmt.Sprintf("%p|%s", instr, kind)
	o := x.obl[k]
	if o == nil {
		o = &Obligation{Kind: kind, Fn: s.fr.fn, Instr: instr, Entry: map[string]bool{}, BadIn: map[string]string{}}
		x.obl[k] = o
	}
	o.N++
	o.Entry[x.entry] = true
	if !ok {
		o.Bad++
		if o.Why == "" {
			o.Why = why
			o.Stack = x.stack(s)
		}
		if o.BadIn[x.entry] == "" {
			o.BadIn[x.entry] = why + " [" + x.stack(s) + "]"
		}
	}
}

func (x *Exec) fnInfo(fn *ssa.Function) *FnInfo {
	fi := x.info[fn]
	if fi == nil {
		fi = buildInfo(fn)
		x.info[fn] = fi
		if fi.bad {
			x.fail("irreducible control flow in %s", fn)
		}
	}
	return fi
}

// ---------------------------------------------------------------------------
// Functions, regions, blocks
// ---------------------------------------------------------------------------

type fnRun struct {
	x    *Exec
	fi   *FnInfo
	outs []Out

	tests    []testRec
	recTests int
}

func (x *Exec) runFn(s *State, fn *ssa.Function, args, bind []Value, site ssa.Instruction) []Out {
	n := 0
	for f := s.fr; f != nil; f = f.up {
		if f.fn == fn {
			n++
		}
	}
	depth := 0
	if s.fr != nil {
		depth = s.fr.depth + 1
	}
	if n > 0 || depth > 40 {
		x.fail("recursion through %s", fn)
		x.oblige(s, site, "unbounded recursion", false, "recursive call of "+fn.String())
		return []Out{{s: s, res: x.symVal(s, fn.Signature.Results(), fresh("rec"), nil, "")}}
	}
	if x.quiet == 0 {
		x.funcs[fn] = true
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, up: s.fr, depth: depth, site: site}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.env[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(bind) {
			fr.env[p] = bind[i]
		}
	}
	s.fr = fr
	fi := x.fnInfo(fn)
	r := &fnRun{x: x, fi: fi}
	r.region(fi.root, []*State{s})
	// merge results that only differ in facts
	by := map[string][]int{}
	var outs []Out
	for _, o := range r.outs {
		o.s.fr = o.s.fr.up.cloneChain()
		if o.pan {
			outs = append(outs, o)
			continue
		}
		o.s.gcWith(o.res)
		k := o.s.fingerprint() + "=>" + vkey(o.res)
		var fs []*Facts
		for _, j := range by[k] {
			fs = append(fs, outs[j].s.F)
		}
		if i, f := joinInto(fs, o.s.F); i >= 0 {
			t := outs[by[k][i]].s
			t.F, t.shared = f, true
			continue
		}
		by[k] = append(by[k], len(outs))
		outs = append(outs, o)
	}
	return outs
}

func (s *State) gcWith(v Value) {
	if s.fr == nil {
		return
	}
	key := &ssa.Const{}
	s.fr.env[key] = v
	s.gc()
	delete(s.fr.env, key)
}

func (r *fnRun) region(l *Loop, ins []*State) (exits map[*ssa.BasicBlock][]*State, backs []*State) {
	x := r.x
	exits = map[*ssa.BasicBlock][]*State{}
	pend := map[*ssa.BasicBlock][]*State{l.head: ins}
	route := func(to *ssa.BasicBlock, s *State) {
		switch {
		case to == l.head && l != r.fi.root:
			backs = append(backs, s)
		case l.blocks[to]:
			pend[to] = append(pend[to], s)
		default:
			exits[to] = append(exits[to], s)
		}
	}
	for _, it := range l.order {
		sts := pend[it.b]
		if len(sts) == 0 {
			continue
		}
		delete(pend, it.b)
		for _, s := range sts {
			r.trim(s, it.b)
		}
		sts = mergeStates(sts)
		if len(sts) > 20000 {
			x.fail("too many partitions (%d) in %s", len(sts), r.fi.fn)
			sts = sts[:20000]
		}
		if it.l != nil {
			for _, e := range r.loop(it.l, sts) {
				route(e.to, e.s)
			}
			continue
		}
		for _, s := range sts {
			for _, e := range r.block(s, it.b) {
				route(e.to, e.s)
			}
		}
	}
	return
}

// trim drops dead registers.
func (r *fnRun) trim(s *State, b *ssa.BasicBlock) {
	lv := r.fi.live[b]
	for v := range s.fr.env {
		if !lv[v] {
			delete(s.fr.env, v)
		}
	}
}

type edge struct {
	s  *State
	to *ssa.BasicBlock
}

// goTo moves s along the edge from -> to, evaluating the phis of to.
func (r *fnRun) goTo(s *State, from, to *ssa.BasicBlock, succ int) edge {
	var vals []Value
	var phis []*ssa.Phi
	// find the matching predecessor slot (parallel edges have equal phis)
	pi := -1
	cnt := 0
	for k := 0; k < succ; k++ {
		if from.Succs[k] == to {
			cnt++
		}
	}
	for k, p := range to.Preds {
		if p == from {
			if cnt == 0 {
				pi = k
				break
			}
			cnt--
		}
	}
	for _, in := range to.Instrs {
		phi, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, phi)
		vals = append(vals, r.x.val(s, phi.Edges[pi]))
	}
	for i, p := range phis {
		s.fr.env[p] = vals[i]
	}
	s.fr.prev = from
	return edge{s, to}
}

func (r *fnRun) block(s0 *State, b *ssa.BasicBlock) []edge {
	x := r.x
	var out []edge
	type wk struct {
		s *State
		i int
	}
	work := []wk{{s0, 0}}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		s, i := w.s, w.i
	run:
		for i < len(b.Instrs) {
			x.steps++
			if x.steps > x.budget {
				x.fail("analysis budget exhausted in %s", r.fi.fn)
				return out
			}
			instr := b.Instrs[i]
			if traceExec {
				fmt.Fprintf(os.Stderr, "%s%s: %v\n", strings.Repeat("  ", s.fr.depth), r.fi.fn.Name(), instr)
			}
			switch in := instr.(type) {
			case *ssa.Phi, *ssa.DebugRef:
				i++
				continue
			case *ssa.Jump:
				out = append(out, r.goTo(s, b, b.Succs[0], 0))
				break run
			case *ssa.If:
				c := asCond(x.val(s, in.Cond))
				switch s.decide(c) {
				case 1:
					r.noteTest(s, b, c, true, true)
					out = append(out, r.goTo(s, b, b.Succs[0], 0))
				case 0:
					r.noteTest(s, b, c, false, true)
					out = append(out, r.goTo(s, b, b.Succs[1], 1))
				default:
					t := s.clone()
					if s.assume(c, true) {
						r.noteTest(s, b, c, true, false)
						out = append(out, r.goTo(s, b, b.Succs[0], 0))
					}
					if t.assume(c, false) {
						r.noteTest(t, b, c, false, false)
						out = append(out, r.goTo(t, b, b.Succs[1], 1))
					}
				}
				break run
			case *ssa.Return:
				var res Value
				if len(in.Results) == 1 {
					res = x.val(s, in.Results[0])
				} else {
					var t Tuple
					for _, v := range in.Results {
						t = append(t, x.val(s, v))
					}
					res = t
				}
				r.outs = append(r.outs, Out{s: s, res: res})
				break run
			case *ssa.Panic:
				x.oblige(s, in, "explicit panic", false, "panic call reachable")
				r.outs = append(r.outs, Out{s: s, pan: true})
				break run
			}
			ss := x.instr(s, instr)
			for _, t := range ss[min(1, len(ss)):] {
				work = append(work, wk{t, i + 1})
			}
			if len(ss) == 0 {
				break run
			}
			s = ss[0]
			i++
		}
	}
	return out
}

func asCond(v Value) *Cond {
	if c, ok := v.(*Cond); ok {
		return c
	}
	return ckey(fresh("cond"))
}

// ---------------------------------------------------------------------------
// Values of operands
// ---------------------------------------------------------------------------

func (x *Exec) val(s *State, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Global:
		return &Ptr{o: x.global(v), t: derefType(v.Type())}
	case *ssa.Function:
		return &Func{fn: v}
	case *ssa.Builtin:
		return &Func{blt: v.Name()}
	}
	if r, ok := s.fr.env[v]; ok {
		return r
	}
	x.fail("no value for %s in %s", v.Name(), s.fr.fn)
	r := x.symVal(s, v.Type(), fresh("undef"), nil, "")
	s.fr.env[v] = r
	return r
}

func (x *Exec) global(g *ssa.Global) *Obj {
	if o, ok := x.globObj[g]; ok {
		return o
	}
	in.nobj++
	o := &Obj{id: in.nobj, name: g.String(), t: derefType(g.Type()), glob: true}
	if g.Pkg == nil || len(g.Pkg.Members) == 0 || !x.constGlobals[g] {
		o.sym = true
	}
	if types.Identical(o.t, types.Universe.Lookup("error").Type()) && g.Pkg != nil && g.Pkg.Pkg != nil && g.Object() != nil && g.Object().Exported() && !strings.HasPrefix(g.Pkg.Pkg.Path()+"/", modulePath+"/") {
		// the error values of libraries are set once and never nil
		o.nn = true
	}
	x.globObj[g] = o
	return o
}

func (x *Exec) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	if w, sg, ok := intType(t); ok {
		iv := constant.ToInt(c.Value)
		if i, exact := constant.Int64Val(iv); exact {
			return mkInt(w, sg, i)
		}
		if u, exact := constant.Uint64Val(iv); exact {
			return mkInt(w, sg, int64(u))
		}
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return cBool(constant.BoolVal(c.Value))
	case constant.String:
		return strLit(constant.StringVal(c.Value))
	}
	return &Iface{nm: "const " + c.Value.ExactString(), t: t}
}

func (x *Exec) toNode(t types.Type, v Value) *Node {
	if n, ok := v.(*Node); ok {
		return n
	}
	return leaf(t, v)
}

func (x *Exec) toVal(s *State, n *Node) Value {
	if n.k == nLeaf {
		return n.v
	}
	if isAgg(n.t) && n.k != nMap {
		return n
	}
	e := x.expand(s, n)
	if e.k == nLeaf {
		return e.v
	}
	return e
}

// ---------------------------------------------------------------------------
// Memory operations
// ---------------------------------------------------------------------------

// nonNil obliges v to be non-nil and continues under that assumption; it
// reports false if v is certainly nil.
func (x *Exec) nonNil(s *State, instr ssa.Instruction, v Value, what string) bool {
	c := nilCond(v)
	switch s.decide(c) {
	case 0:
		x.oblige(s, instr, "nil "+what, true, "")
		return true
	case 1:
		x.oblige(s, instr, "nil "+what, false, "nil "+what)
		return false
	}
	x.oblige(s, instr, "nil "+what, false, "possibly nil "+what+": "+vkey(v))
	return s.assume(c, false)
}

func (x *Exec) asPtr(s *State, instr ssa.Instruction, v Value) *Ptr {
	switch v := v.(type) {
	case *Ptr:
		if v.o.sym && len(v.p) == 0 && !v.o.glob {
			if !x.nonNil(s, instr, v, "dereference") {
				return nil
			}
		} else {
			x.oblige(s, instr, "nil dereference", true, "")
		}
		return v
	case NilV:
		x.oblige(s, instr, "nil dereference", false, "dereference of nil")
		return nil
	}
	x.fail("pointer expected in %s at %s, got %s", s.fr.fn, x.pos(instr), vkey(v))
	return nil
}

// fieldsOf lists the struct fields p passes through.
func fieldsOf(p *Ptr) []Origin {
	var r []Origin
	t := p.o.t
	first := true
	for _, st := range p.p {
		if st.idx != nil {
			if first && p.o.arr {
				first = false
				continue
			}
			t = elemType(t)
			first = false
			continue
		}
		first = false
		u, ok := t.Underlying().(*types.Struct)
		if !ok {
			return r
		}
		r = append(r, Origin{Obj: p.o, Type: typeName(t), Field: u.Field(st.f).Name()})
		t = u.Field(st.f).Type()
	}
	return r
}

func (x *Exec) access(s *State, instr ssa.Instruction, p *Ptr, write bool) {
	if x.quiet > 0 {
		return
	}
	if p.o.arr && len(p.p) > 0 && p.p[0].idx != nil {
		x.contentAccess(s, instr, p.o, write)
	}
	for _, f := range fieldsOf(p) {
		if !strings.Contains(f.Type, modulePath) {
			continue
		}
		x.logAccess(s, instr, f, p.o, write)
	}
}

func (x *Exec) logAccess(s *State, instr ssa.Instruction, f Origin, o *Obj, write bool) {
	priv := !o.sym && !o.glob && !s.isPub(o)
	var lk []string
	for _, l := range s.locks {
		lk = append(lk, l.key)
	}
	on := o.name
	if f.Obj != nil {
		on = f.Obj.name
	}
	k := fmt.Sprintf("%p|%s.%s|%v|%v|%s|%s|%s", instr, f.Type, f.Field, write, priv, strings.Join(lk, ","), x.entry, on)
	a := x.acc[k]
	if a == nil {
		a = &Access{Type: f.Type, Field: f.Field, Write: write, Fn: s.fr.fn, Instr: instr, Locks: append([]Lock(nil), s.locks...), Private: priv, Stack: x.stack(s), Entry: x.entry, Obj: on}
		x.acc[k] = a
	}
	a.N++
}

// isPub reports whether another goroutine may know the object.
func (s *State) isPub(o *Obj) bool {
	if s.pub[o] {
		return true
	}
	// reachable from symbolic or global memory
	seen := map[*Obj]bool{}
	found := false
	var visitN func(n *Node)
	var visitO func(p *Obj)
	var visit func(v Value)
	visitO = func(p *Obj) {
		if p == nil || seen[p] || found {
			return
		}
		seen[p] = true
		if p == o {
			found = true
			return
		}
		if n, ok := s.heap[p]; ok {
			visitN(n)
		}
	}
	visit = func(v Value) {
		switch v := v.(type) {
		case *Ptr:
			visitO(v.o)
		case *Slice:
			visitO(v.o)
		case *MapV:
			visitO(v.o)
		case *Func:
			for _, b := range v.bind {
				visit(b)
			}
		case *Iface:
			visit(v.v)
		case *Node:
			visitN(v)
		}
	}
	visitN = func(n *Node) {
		if n == nil || found {
			return
		}
		visit(n.v)
		for _, f := range n.f {
			visitN(f)
		}
		for _, g := range n.segs {
			visitN(g.node)
		}
		for _, q := range n.over {
			visitN(q.node)
		}
		for _, e := range n.ents {
			visit(e.key)
			visitN(e.val)
		}
	}
	for p := range s.heap {
		if p.sym || p.glob || s.pub[p] {
			visitO(p)
		}
	}
	return found
}

// publish marks everything reachable from vs as visible to others.
func (s *State) publish(vs ...Value) {
	np := map[*Obj]bool{}
	for k := range s.pub {
		np[k] = true
	}
	var visitN func(n *Node)
	var visit func(v Value)
	visitO := func(p *Obj) {
		if p == nil || np[p] {
			return
		}
		np[p] = true
		if n, ok := s.heap[p]; ok {
			visitN(n)
		}
	}
	visit = func(v Value) {
		switch v := v.(type) {
		case *Ptr:
			visitO(v.o)
		case *Slice:
			visitO(v.o)
		case *MapV:
			visitO(v.o)
		case *ChanV:
			visitO(v.o)
		case *Func:
			for _, b := range v.bind {
				visit(b)
			}
		case *Iface:
			visit(v.v)
		case *Node:
			visitN(v)
		case Tuple:
			for _, y := range v {
				visit(y)
			}
		}
	}
	visitN = func(n *Node) {
		if n == nil {
			return
		}
		visit(n.v)
		for _, f := range n.f {
			visitN(f)
		}
		for _, g := range n.segs {
			visitN(g.node)
		}
		for _, q := range n.over {
			visitN(q.node)
		}
		for _, e := range n.ents {
			visit(e.key)
			visitN(e.val)
		}
	}
	for _, v := range vs {
		visit(v)
	}
	s.pub = np
}

func (x *Exec) load(s *State, instr ssa.Instruction, p *Ptr) Value {
	x.access(s, instr, p, false)
	n := x.getFrom(s, p.o, p.p)
	if n.k == nArr && p.o.arr && len(p.p) == 0 {
		return n
	}
	// remember symbolic names of scalars so that later reads agree
	return x.toVal(s, n)
}

func (x *Exec) store(s *State, instr ssa.Instruction, p *Ptr, v *Node) {
	x.access(s, instr, p, true)
	if n := len(p.p); x.ckpt != nil && n == 1 && p.p[0].idx != nil && p.o.arr && p.t != nil && ptrLikeT(p.t) && s.decide(nilCond(x.toVal(s, v))) == 1 {
		// may be behind the end of the slice by the time others can see it
		m := map[*Obj]ssa.Instruction{p.o: instr}
		for o, i := range s.nils {
			m[o] = i
		}
		s.nils = m
	} else if x.quiet == 0 {
		if n := len(p.p); n > 0 && p.p[n-1].idx != nil && p.t != nil && !isAgg(p.t) {
			x.noteElem(s, typeName(types.NewSlice(p.t)), p.t, x.toVal(s, v), instr)
		} else if v.k == nLeaf {
			if f, ok := v.v.(*Func); ok && f.fn != nil && inModule(f.fn) && (p.o.sym || p.o.glob || s.isPub(p.o) || len(fieldsOf(p)) > 0) {
				x.escaped[f.fn] = f
			}
		}
	}
	if p.o.sym || p.o.glob || s.isPub(p.o) {
		if x.onStore != nil && x.quiet == 0 {
			x.onStore(s, p, v, instr)
		}
		e := s.ev("store", instr)
		e.ptr, e.node = p, v
		e.old = x.getFrom(s, p.o, p.p)
	}
	x.write(s, p, v)
}

func (x *Exec) write(s *State, p *Ptr, v *Node) {
	n := x.root(s, p.o)
	s.setHeap(p.o, x.put(s, n, p.p, v, p.o.arr || (n.k == nArr && !isArrT(p.o.t))))
	if p.o.sym && !p.o.glob {
		x.invalidate(s, p)
	}
}

// invalidate forgets what a write through p may change in other symbolic
// objects of the same type.
func (x *Exec) invalidate(s *State, p *Ptr) {
	fs := fieldsOf(p)
	var fld *Origin
	if len(fs) > 0 {
		fld = &fs[0]
	}
	for _, o := range s.objs() {
		n := s.heap[o]
		if o == p.o || !o.sym || o.glob || o.arr != p.o.arr || !types.Identical(o.t, p.o.t) {
			continue
		}
		if o.arr {
			// elements of another backing array
			s.setHeap(o, &Node{k: nArr, t: n.t, segs: []Seg{{lo: lc(0), hi: lc(inf), k: nLazy, src: fresh("arr"), delta: lc(0), elem: o.elem}}})
			continue
		}
		if len(p.p) == 0 {
			s.setHeap(o, lazyNode(o.t, fresh(o.name), nil))
			continue
		}
		if p.p[0].idx == nil {
			e := x.expand(s, n)
			if e.k == nStruct {
				m := &Node{k: nStruct, t: e.t, f: append([]*Node(nil), e.f...)}
				old := e.f[p.p[0].f]
				m.f[p.p[0].f] = lazyNode(old.t, fresh(o.name+"."+fld.Field), &Origin{Obj: o, Type: fld.Type, Field: fld.Field})
				s.setHeap(o, m)
			}
		}
	}
	if p.o.arr {
		s.bumpEpoch(arrEpoch(p.o))
	}
	if fld != nil {
		// symbolic objects not looked at yet
		s.bumpEpoch(fld.Type + "." + fld.Field)
	}
}

// havocNode returns an unknown content of the same shape.
func (x *Exec) havocNode(n *Node, nm string) *Node {
	switch n.k {
	case nMap:
		return &Node{k: nMap, t: n.t, base: fresh(nm)}
	case nArr:
		if isArrT(n.t) {
			return lazyNode(n.t, fresh(nm), nil)
		}
		el := ""
		if len(n.segs) > 0 {
			el = n.segs[0].elem
		}
		return &Node{k: nArr, t: n.t, segs: []Seg{{lo: lc(0), hi: lc(inf), k: nLazy, src: fresh(nm), delta: lc(0), elem: el}}}
	}
	r := lazyNode(n.t, fresh(nm), n.org)
	r.elem = n.elem
	return r
}
