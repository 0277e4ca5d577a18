package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// World is the result of interpreting every way into the root package:
// public operations, background goroutines (from the states they are
// launched in), callbacks the library registers itself and options.
type World struct {
	p       *Prog
	x       *Exec
	entries []*Entry
	learn   *Learned
	bad     map[string]string // invariants that did not hold in this round
	hull    map[string]*ival
	encs    map[*Obj]*Ev
	parent  *World // the whole analysis this scenario belongs to
	in      *interner
	mins    map[string][2]*Lin
}

// Entry is one way into the library.
type Entry struct {
	name string
	fn   *ssa.Function
	kind string // api, go, callback, option, constructor
	outs []Out
	pre  *State // state at entry
	recv Value
	args []Value
	site *GoSite
	from *Entry
	trs  []*Trace
}

// Learned is what one round tells the next.
type Learned struct {
	inv     *Invariants
	stays   map[string]bool // fields that never become nil again
	guards  map[string][]string
	mutable map[string]map[string]bool // field -> entries (api name) writing it
	opt     map[string][]string
	nocand  map[string]bool // refuted candidates
	round   int
}

func (l *Learned) key() string {
	var ks []string
	for k := range l.nocand {
		ks = append(ks, "n"+k)
	}
	for k, v := range l.guards {
		ks = append(ks, "g"+k+fmt.Sprint(v))
	}
	for k, v := range l.mutable {
		ks = append(ks, "m"+k+fmt.Sprint(sortedKeys(v)))
	}
	for k, v := range l.opt {
		ks = append(ks, "o"+k+fmt.Sprint(v))
	}
	for k, v := range l.inv.ints {
		ks = append(ks, fmt.Sprint("i", k, *v))
	}
	sort.Strings(ks)
	return strings.Join(ks, "\n")
}

func short(k string) string {
	k = strings.ReplaceAll(k, modulePath+"/packet/code.", "code.")
	k = strings.ReplaceAll(k, modulePath+"/packet.", "packet.")
	return strings.ReplaceAll(k, modulePath+".", "")
}

func ptrLikeT(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return true
	}
	return false
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// rootStructs lists the struct types of the root package.
func (p *Prog) rootStructs() []*types.Named {
	var r []*types.Named
	sc := p.root.Pkg.Scope()
	for _, n := range sc.Names() {
		tn, ok := sc.Lookup(n).(*types.TypeName)
		if !ok {
			continue
		}
		nt, ok := types.Unalias(tn.Type()).(*types.Named)
		if !ok || isLoggerT(nt) {
			continue
		}
		if _, ok := nt.Underlying().(*types.Struct); ok {
			r = append(r, nt)
		}
	}
	return r
}

// apiFuncs lists the functions that may be called from outside: exported
// ones and unexported ones without a static caller.
func (p *Prog) apiFuncs() (api []*ssa.Function) {
	called := map[*ssa.Function]bool{}
	used := map[*ssa.Function]bool{}
	fns := p.modFuncs()
	for _, fn := range fns {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				var ops []*ssa.Value
				for _, o := range i.Operands(ops) {
					if o == nil || *o == nil {
						continue
					}
					switch f := (*o).(type) {
					case *ssa.Function:
						if f != fn {
							used[f] = true
							if f.Synthetic != "" && f.Object() != nil {
								if d := p.prog.FuncValue(f.Object().(*types.Func)); d != nil {
									used[d] = true
								}
							}
						}
					}
				}
				if c, ok := i.(ssa.CallInstruction); ok {
					if f := c.Common().StaticCallee(); f != nil && f != fn {
						called[f] = true
					}
				}
			}
		}
	}
	for _, fn := range fns {
		if fn.Pkg != p.root || fn.Parent() != nil || fn.Synthetic != "" || fn.Blocks == nil || fn.Object() == nil {
			continue
		}
		if strings.HasPrefix(fn.Name(), "init") && fn.Signature.Recv() == nil {
			continue
		}
		if r := fn.Signature.Recv(); r != nil && isLoggerT(r.Type()) {
			continue
		}
		exp := fn.Object().Exported()
		if r := fn.Signature.Recv(); r != nil {
			if n, ok := types.Unalias(derefType(r.Type())).(*types.Named); ok && !n.Obj().Exported() {
				exp = false
			}
		}
		if exp || (!called[fn] && !used[fn]) {
			api = append(api, fn)
		}
	}
	sort.Slice(api, func(i, j int) bool {
		a, b := p.prog.Fset.Position(api[i].Pos()), p.prog.Fset.Position(api[j].Pos())
		if a.Filename != b.Filename {
			return a.Filename < b.Filename
		}
		return a.Offset < b.Offset
	})
	return
}

func optionType(t types.Type) bool {
	sg, ok := t.Underlying().(*types.Signature)
	if !ok || sg.Params().Len() != 1 {
		return false
	}
	n, ok := types.Unalias(derefType(sg.Params().At(0).Type())).(*types.Named)
	return ok && (n.Obj().Name() == "Controller" || n.Obj().Name() == "Node") && n.Obj().Pkg().Path() == modulePath
}

func fnName(fn *ssa.Function) string {
	if fn.Parent() != nil {
		return fnName(fn.Parent()) + "$" + fn.Name()[strings.LastIndex(fn.Name(), "$")+1:]
	}
	if r := fn.Signature.Recv(); r != nil {
		return short(typeName(derefType(r.Type()))) + "." + fn.Name()
	}
	return fn.Name()
}

// analyseRoot iterates until the assumed invariants are inductive.
func analyseRoot(p *Prog) *World {
	l := &Learned{inv: newInvariants(), stays: map[string]bool{}, guards: map[string][]string{}, mutable: map[string]map[string]bool{}, opt: map[string][]string{}, nocand: map[string]bool{}}
	for round := 0; ; round++ {
		t0 := time.Now()
		k := l.key()
		w := runRound(p, l)
		nl := w.relearn(l)
		if os.Getenv("ARTCHECK_TIME") != "" {
			fmt.Fprintf(os.Stderr, "round %d: %v, %d entries, %d steps\n", round, time.Since(t0), len(w.entries), w.x.steps)
		}
		if round > 0 && nl.key() == k {
			return w
		}
		if os.Getenv("ARTCHECK_TIME") != "" && round > 0 {
			a, b := strings.Split(k, "\n"), strings.Split(nl.key(), "\n")
			in := map[string]bool{}
			for _, y := range a {
				in[y] = true
			}
			for _, y := range b {
				if !in[y] {
					fmt.Fprintln(os.Stderr, "  new:", short(y))
				}
			}
		}
		if round > 15 {
			w.x.fail("the class invariants do not stabilise")
			return w
		}
		l = nl
	}
}

func (w *World) refute(k, why string) {
	if w.bad[k] == "" {
		w.bad[k] = why
	}
}

// newWorld prepares an analysis under the assumptions l.
func newWorld(p *Prog, l *Learned) *World {
	x := p.newExec()
	w := &World{p: p, x: x, learn: l, bad: map[string]string{}, hull: map[string]*ival{}}
	x.inv = l.inv
	// optimistic candidates that were not refuted
	byVal := p.byValue()
	x.byVal = byVal
	for _, nt := range p.rootStructs() {
		st := nt.Underlying().(*types.Struct)
		tn := typeName(nt)
		if byVal[tn] {
			continue
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if ptrLikeT(f.Type()) && !l.nocand["nonnil "+tn+"."+f.Name()] {
				x.inv.nonnil[tn+"."+f.Name()] = true
			}
			if ptrLikeT(f.Type()) {
				l.stays[tn+"."+f.Name()] = !l.nocand["stays "+tn+"."+f.Name()]
			}
		}
	}
	x.stays = l.stays
	x.guards = l.guards
	x.optWrites = l.opt
	x.nocand = l.nocand
	x.elemTrust = true
	x.ckpt = w.checkpoint
	x.onStore = w.stored
	x.cutModels = cutModels()
	return w
}

func runRound(p *Prog, l *Learned) *World {
	w := newWorld(p, l)
	x := w.x
	for _, fn := range p.apiFuncs() {
		if x.cutModels[fnKey(fn)] != nil {
			continue // has checks of its own
		}
		t0 := time.Now()
		w.runAPI(fn)
		if d := time.Since(t0); d > 2*time.Second && os.Getenv("ARTCHECK_TIME") != "" {
			fmt.Fprintln(os.Stderr, "slow", fnName(fn), d)
		}
	}
	// callbacks registered by the library itself
	for done := false; !done; {
		done = true
		var fs []*ssa.Function
		for fn := range x.escaped {
			fs = append(fs, fn)
		}
		sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
		for _, fn := range fs {
			if w.has("callback " + fn.String()) {
				continue
			}
			done = false
			w.runEscaped(fn, x.escaped[fn])
		}
		if w.runGos() {
			done = false
		}
	}
	return w
}

func (w *World) has(name string) bool {
	for _, e := range w.entries {
		if e.name == name {
			return true
		}
	}
	return false
}

func (w *World) assumeArgs(s *State, args []Value) {
	for _, a := range args {
		switch a.(type) {
		case *Ptr, *Iface, *Func:
			s.assume(nilCond(a), false)
		}
	}
}

func (w *World) runAPI(fn *ssa.Function) {
	x := w.x
	s := x.entryState()
	e := &Entry{name: fnName(fn), fn: fn, kind: "api"}
	if fn.Signature.Recv() == nil {
		e.kind = "func"
	}
	x.entry = e.name
	e.args = x.symArgs(s, fn)
	w.assumeArgs(s, e.args)
	if fn.Signature.Recv() != nil {
		e.recv = e.args[0]
	}
	e.pre = s.clone()
	e.outs = x.runFn(s, fn, e.args, nil, nil)
	w.entries = append(w.entries, e)
	var opts []Out
	for _, o := range e.outs {
		if o.pan {
			continue
		}
		if f, ok := o.res.(*Func); ok && f.fn != nil && fn.Signature.Results().Len() == 1 && optionType(fn.Signature.Results().At(0).Type()) {
			opts = append(opts, o)
			continue
		}
		w.exit(o)
	}
	for _, o := range opts {
		// an option: run the closure on a controller or node
		f := o.res.(*Func)
		s := o.s.clone()
		s.tr = nil
		oe := &Entry{name: "option " + e.name, fn: f.fn, kind: "option", from: e}
		x.entry = oe.name
		oe.args = x.symArgs(s, f.fn)
		w.assumeArgs(s, oe.args)
		oe.pre = s.clone()
		oe.outs = x.runFn(s, f.fn, oe.args, f.bind, nil)
		w.entries = append(w.entries, oe)
		for _, o := range oe.outs {
			if !o.pan {
				w.exit(o)
			}
		}
	}
}

// exit is the end of an entry: what it returns becomes visible.
func (w *World) exit(o Out) {
	s := o.s.clone()
	s.publish(o.res)
	w.x.checkpoint(s, "exit")
}

func (w *World) runEscaped(fn *ssa.Function, f *Func) {
	x := w.x
	s := x.entryState()
	e := &Entry{name: "callback " + fn.String(), fn: fn, kind: "callback"}
	x.entry = e.name
	e.args = x.symArgs(s, fn)
	w.assumeArgs(s, e.args)
	var bind []Value
	for i, fv := range fn.FreeVars {
		var v Value
		nm := fmt.Sprintf("free%d:%s", i, fv.Name())
		if i < len(f.bind) {
			if p, ok := f.bind[i].(*Ptr); ok {
				nm = "recv:" + typeName(p.t)
			}
		}
		v = x.symVal(s, fv.Type(), nm, nil, "")
		bind = append(bind, v)
	}
	w.assumeArgs(s, bind)
	if len(bind) > 0 {
		e.recv = bind[0]
	}
	e.pre = s.clone()
	e.outs = x.runFn(s, fn, e.args, bind, nil)
	w.entries = append(w.entries, e)
	for _, o := range e.outs {
		if !o.pan {
			w.exit(o)
		}
	}
}

func (w *World) entry(name string) *Entry {
	for _, e := range w.entries {
		if e.name == name {
			return e
		}
	}
	return nil
}

// runGos starts the goroutines found so far; it reports whether any were new.
func (w *World) runGos() bool {
	x := w.x
	gos := x.gos
	x.gos = nil
	type job struct {
		g *GoSite
		s *State
		f *Func
		c *canon
	}
	var jobs []job
	seen := map[string]int{}
	for _, g := range gos {
		f, ok := g.ev.res.(*Func)
		if !ok || f.fn == nil {
			continue // user code
		}
		s := g.ev.goSt.clone()
		s.tr = nil
		s.locks = nil
		root := g.entry
		if e := w.entry(g.entry); e != nil && e.site != nil {
			root = e.rootEntry()
		}
		w.age(s, root, g)
		s.fr = &Frame{env: map[ssa.Value]Value{}}
		key := &ssa.Const{}
		s.fr.env[key] = Tuple(append([]Value{f}, g.ev.args...))
		s.gc()
		c := canonState(s, s.fr.env[key])
		k := fmt.Sprintf("%p|%s", g.ev.instr, c.key)
		// what it was given stays in the first frame: reports look at it
		if i, ok := seen[k]; ok {
			joinCanon(jobs[i].s, jobs[i].c, s, c)
			continue
		}
		seen[k] = len(jobs)
		jobs = append(jobs, job{g, s, f, c})
	}
	n := 0
	for _, j := range jobs {
		e := &Entry{name: fmt.Sprintf("go %s#%d", fnName(j.f.fn), len(w.entries)), fn: j.f.fn, kind: "go", site: j.g, from: w.entry(j.g.entry)}
		if n++; n > 64 {
			x.fail("too many launch states for goroutines")
			break
		}
		x.entry = e.name
		e.args = j.g.ev.args
		e.pre = j.s.clone()
		w.entries = append(w.entries, e)
		t0 := time.Now()
		e.outs = x.runFn(j.s, j.f.fn, j.g.ev.args, j.f.bind, nil)
		if d := time.Since(t0); d > 2*time.Second && os.Getenv("ARTCHECK_TIME") != "" {
			fmt.Fprintln(os.Stderr, "slow", e.name, d)
		}
		for _, o := range e.outs {
			if !o.pan {
				w.exit(o)
			}
		}
	}
	return len(jobs) > 0
}

func (e *Entry) rootEntry() string {
	for e.from != nil && e.site != nil {
		e = e.from
	}
	return e.name
}

// age forgets what other parts of the library may have changed between the
// launch of a goroutine and the time it runs.
func (w *World) age(s *State, root string, g *GoSite) {
	for _, f := range sortedKeys(w.learn.mutable) {
		for e := range w.learn.mutable[f] {
			if e == root || w.launches(e) {
				continue
			}
			w.x.havocField(s, f, false)
			break
		}
	}
}

// launches: the entry starts goroutines (start operations do not run while
// the goroutines of an earlier start are alive: assumption).
func (w *World) launches(e string) bool {
	return w.learn.mutable["launch"][e]
}

// relearn derives the assumptions of the next round.
func (w *World) relearn(l *Learned) *Learned {
	n := &Learned{inv: newInvariants(), stays: map[string]bool{}, guards: map[string][]string{}, mutable: map[string]map[string]bool{}, opt: map[string][]string{}, nocand: map[string]bool{}}
	for k := range l.nocand {
		n.nocand[k] = true
	}
	for k := range w.bad {
		n.nocand[k] = true
	}
	for c := range w.x.elemBad {
		n.nocand["elem "+c] = true
	}
	// integer ranges: what was seen under the ranges assumed so far
	for k, h := range w.hull {
		if w.x.byVal[k[:strings.LastIndex(k, ".")]] {
			continue
		}
		o := l.inv.ints[k]
		if o == nil {
			o = h
		} else if h.lo < o.lo || h.hi > o.hi {
			o = &ival{min(o.lo, h.lo), max(o.hi, h.hi)}
			if l.round > 0 {
				o = &ival{-inf, inf}
			}
		}
		n.inv.ints[k] = o
	}
	for k, h := range l.inv.ints {
		if n.inv.ints[k] == nil {
			n.inv.ints[k] = h
		}
	}
	n.round = l.round + 1
	// who writes what
	kinds := map[string]string{}
	n.mutable["launch"] = map[string]bool{}
	for _, e := range w.entries {
		kinds[e.name] = e.kind
		if e.site != nil && e.kind == "go" {
			n.mutable["launch"][e.rootEntry()] = true
		}
	}
	type fa struct {
		locks map[string]int
		n     int
		wr    bool
	}
	by := map[string]*fa{}
	opt := map[string]map[string]bool{}
	for _, a := range w.x.acc {
		k := a.Type + "." + a.Field
		if a.Write && kinds[a.Entry] == "option" {
			for _, e := range w.entries {
				if e.name == a.Entry {
					tn := typeName(e.from.fn.Signature.Results().At(0).Type())
					if opt[tn] == nil {
						opt[tn] = map[string]bool{}
					}
					opt[tn][k] = true
				}
			}
		}
		if a.Private {
			continue
		}
		if a.Write && kinds[a.Entry] != "func" && kinds[a.Entry] != "option" {
			if n.mutable[k] == nil {
				n.mutable[k] = map[string]bool{}
			}
			nm, _, _ := strings.Cut(a.Entry, "#")
			n.mutable[k][nm] = true
		}
		if kinds[a.Entry] == "func" || kinds[a.Entry] == "option" {
			continue
		}
		f := by[k]
		if f == nil {
			f = &fa{locks: map[string]int{}}
			by[k] = f
		}
		f.n++
		f.wr = f.wr || a.Write
		seen := map[string]bool{}
		for _, lk := range a.Locks {
			if !seen[lk.field] {
				seen[lk.field] = true
				f.locks[lk.field]++
			}
		}
	}
	for k, f := range by {
		if !f.wr {
			continue
		}
		for _, lk := range sortedKeys(f.locks) {
			if f.locks[lk] == f.n {
				n.guards[lk] = append(n.guards[lk], k)
			}
		}
	}
	for k := range n.guards {
		sort.Strings(n.guards[k])
	}
	for t, m := range opt {
		n.opt[t] = sortedKeys(m)
	}
	return n
}

// noNils: no element of the slice is known to be, or may have become, nil.
func (x *Exec) noNils(s *State, v *Slice) bool {
	arr, _ := x.arrAt(s, v.o, v.p)
	if arr == nil || arr.k != nArr {
		return false
	}
	end := v.off.add(v.len, 1)
	for _, o := range arr.over {
		if s.entails(o.idx.sub(end)) || s.entails(v.off.sub(o.idx).plus(-1)) {
			continue
		}
		if s.decide(nilCond(x.toVal(s, o.node))) != 0 {
			return false
		}
	}
	for _, g := range arr.segs {
		if s.entails(g.lo.sub(end)) || s.entails(v.off.sub(g.hi)) {
			continue
		}
		switch g.k {
		case nZero:
			return false
		case nLazy:
			if !x.trustElem(g.elem) {
				return false
			}
		default:
			if s.decide(nilCond(x.toVal(s, g.node))) != 0 {
				return false
			}
		}
	}
	return true
}

// checkpoint tests the candidate invariants on a state.
func (w *World) checkpoint(s *State, why string) {
	x := w.x
	var os []*Obj
	for o, n := range s.heap {
		if o.arr || o.t == nil || n.k != nStruct || !strings.HasPrefix(typeName(o.t), modulePath+".") {
			continue
		}
		if o.sym || o.glob || s.isPub(o) {
			os = append(os, o)
		}
	}
	sortObjs(os)
	held := map[*Obj]bool{}
	defer func() {
		if why == "loop" {
			return
		}
		left := map[*Obj]ssa.Instruction{}
		for o, i := range s.nils {
			if held[o] {
				continue
			}
			if o.sym || o.glob || s.isPub(o) {
				x.elemBad[typeName(types.NewSlice(o.t))] = x.pos(i) + " (nil)"
			} else {
				left[o] = i
			}
		}
		s.nils = left
	}()
	for _, o := range os {
		n := s.heap[o]
		st, ok := o.t.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		tn := typeName(o.t)
		at := fmt.Sprintf("%s in %s, %s", why, x.stack(s), x.entry)
		var flags []int
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			fn := n.f[i]
			if isBoolT(f.Type()) {
				flags = append(flags, i)
			}
			if len(s.nils) > 0 && why != "loop" {
				if sl, ok := f.Type().Underlying().(*types.Slice); ok && ptrLikeT(sl.Elem()) {
					if v, ok := x.toVal(s, fn).(*Slice); ok && s.nils[v.o] != nil {
						held[v.o] = true
						if !x.noNils(s, v) {
							x.elemBad[typeName(f.Type())] = at + ": " + x.pos(s.nils[v.o]) + " (nil)"
						}
					}
				}
			}
			if x.untouched(fn, o, tn, f.Name()) {
				continue
			}
			w.checkField(s, o, tn, f, fn, at)
			if sl, ok := f.Type().Underlying().(*types.Slice); ok && ptrLikeT(sl.Elem()) {
				if v, ok := x.toVal(s, fn).(*Slice); ok && v.o != nilObj {
					for _, g := range x.sliceSegs(s, v) {
						if g.k == nZero {
							x.elemBad[typeName(f.Type())] = at + ": " + vkey(v) + " " + segsKey(x.sliceSegs(s, v))
						}
					}
				}
			}
		}
		// flag => other field is there
		for _, i := range flags {
			fl := st.Field(i).Name()
			if w.guardHeld(s, tn+"."+fl) {
				continue
			}
			for j := 0; j < st.NumFields(); j++ {
				f := st.Field(j)
				if !ptrLikeT(f.Type()) {
					continue
				}
				if x.untouched(n.f[i], o, tn, fl) && x.untouched(n.f[j], o, tn, f.Name()) {
					continue
				}
				fv, ok := x.toVal(s, n.f[i]).(*Cond)
				if !ok {
					continue
				}
				there := s.decide(nilCond(x.toVal(s, n.f[j]))) == 0
				for _, val := range []bool{true, false} {
					d := s.decide(fv)
					if there || d == 0 && val || d == 1 && !val {
						continue
					}
					w.refute(flagKey(tn, fl, val, f.Name()), at)
				}
			}
		}
	}
}

// checkField tests the invariants of one field on a value it now holds.
func (w *World) checkField(s *State, o *Obj, tn string, f *types.Var, fn *Node, at string) {
	x := w.x
	k := tn + "." + f.Name()
	if isTime(f.Type()) {
		return
	}
	if _, _, ok := intType(f.Type()); ok {
		if fn.k == nLazy && fn.org != nil && fn.org.Type == tn && fn.org.Field == f.Name() {
			return // was there before, or set by an option
		}
		v := x.nodeInt(s, fn)
		if v == nil {
			w.hull[k] = &ival{-inf, inf}
			return
		}
		l := v.linear()
		if len(l.t) == 1 && l.c == 0 && l.t[0].k == 1 {
			if g := l.t[0].a.org; g != nil && g.Type == tn && g.Field == f.Name() {
				return
			}
		}
		lo, hi := s.rng(l)
		if os.Getenv("ARTCHECK_HULL") != "" {
			fmt.Fprintln(os.Stderr, "hull", k, lo, hi, l.key(), at)
		}
		h := w.hull[k]
		if h == nil {
			h = &ival{lo, hi}
			w.hull[k] = h
		}
		h.lo, h.hi = min(h.lo, lo), max(h.hi, hi)
		return
	}
	if ptrLikeT(f.Type()) {
		if s.decide(nilCond(x.toVal(s, fn))) != 0 {
			w.refute("nonnil "+k, at)
			if o.sym {
				w.refute("stays "+k, at)
			}
		}
	}
}

// stored tests the invariants when a field others can see is written.
func (w *World) stored(s *State, p *Ptr, v *Node, in ssa.Instruction) {
	if len(p.p) != 1 || p.p[0].idx != nil || p.o.arr || p.o.t == nil || !strings.HasPrefix(typeName(p.o.t), modulePath+".") {
		return
	}
	st, ok := p.o.t.Underlying().(*types.Struct)
	if !ok {
		return
	}
	w.checkField(s, p.o, typeName(p.o.t), st.Field(p.p[0].f), v, "store at "+w.x.pos(in)+", "+w.x.entry)
}

// byValue lists the struct types of the root package of which values exist
// outside of objects of their own (copies, elements, parts of others).
func (p *Prog) byValue() map[string]bool {
	r := map[string]bool{}
	seen := map[types.Type]bool{}
	var walk func(t types.Type, val bool)
	walk = func(t types.Type, val bool) {
		t = types.Unalias(t)
		if n, ok := t.(*types.Named); ok {
			if _, st := n.Underlying().(*types.Struct); st && val {
				r[typeName(n)] = true
			}
			if seen[t] {
				return
			}
			seen[t] = true
			if n.Obj().Pkg() == nil || !strings.HasPrefix(n.Obj().Pkg().Path(), modulePath) {
				return
			}
			walk(n.Underlying(), true)
			return
		}
		switch u := t.(type) {
		case *types.Pointer:
			walk(u.Elem(), false)
		case *types.Slice:
			walk(u.Elem(), true)
		case *types.Array:
			walk(u.Elem(), true)
		case *types.Chan:
			walk(u.Elem(), true)
		case *types.Map:
			walk(u.Key(), true)
			walk(u.Elem(), true)
		case *types.Struct:
			for i := 0; i < u.NumFields(); i++ {
				walk(u.Field(i).Type(), true)
			}
		case *types.Tuple:
			for i := 0; i < u.Len(); i++ {
				walk(u.At(i).Type(), true)
			}
		case *types.Signature:
			walk(u.Params(), true)
			walk(u.Results(), true)
		}
	}
	for _, nt := range p.rootStructs() {
		walk(nt, false)
	}
	for _, fn := range p.modFuncs() {
		walk(fn.Signature, true)
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				if v, ok := i.(ssa.Value); ok {
					walk(v.Type(), true)
				}
				for _, o := range i.Operands(nil) {
					if *o != nil {
						if g, ok := (*o).(*ssa.Global); ok {
							walk(derefType(g.Type()), true)
							continue
						}
						walk((*o).Type(), true)
					}
				}
			}
		}
	}
	return r
}

func flagKey(tn, flag string, val bool, field string) string {
	return fmt.Sprintf("flag %s.%s=%v => %s", tn, flag, val, field)
}

// guardHeld: the lock that guards the field is held.
func (w *World) guardHeld(s *State, field string) bool {
	for _, l := range s.locks {
		for _, f := range w.learn.guards[l.field] {
			if f == field {
				return true
			}
		}
	}
	return false
}

// untouched: the field still has the symbolic value it had before.
func (x *Exec) untouched(n *Node, o *Obj, tn, fld string) bool {
	if !o.sym {
		return false
	}
	var org *Origin
	switch {
	case n.k == nLazy:
		org = n.org
	case n.k == nLeaf:
		switch v := n.v.(type) {
		case *Ptr:
			if len(v.p) == 0 {
				org = v.o.org
			}
		case *MapV:
			org = v.o.org
		case *ChanV:
			org = v.o.org
		case *Iface:
			org = v.org
		case *Func:
			org = v.org
		case *Cond:
			org = v.org
		}
	}
	return org != nil && org.Type == tn && org.Field == fld && org.Obj == o
}

// ---------------------------------------------------------------------------
// Functions with properties of their own are replaced by their contracts
// ---------------------------------------------------------------------------

func cutModels() map[string]func(*mcall) []Out {
	r := map[string]func(*mcall) []Out{
		modulePath + "/packet.Unmarshal": func(m *mcall) []Out {
			x, s := m.x, m.s
			t := s.clone()
			nm := fresh("packet")
			p := &Iface{nm: nm, t: m.rt(0)}
			s.assume(nilCond(p), false)
			e := s.ev("decode", m.in)
			e.args, e.res = m.a, p
			f := t.ev("decode-err", m.in)
			f.args = m.a
			err := &Iface{nm: fresh("decodeErr"), t: m.rt(1), nn: true}
			_ = x
			return []Out{{s: s, res: Tuple{p, zeroVal(m.rt(1))}}, {s: t, res: Tuple{zeroVal(m.rt(0)), err}}}
		},
		modulePath + ".ConfigFromArtPollReply": func(m *mcall) []Out {
			e := m.s.ev("config", m.in)
			e.args = m.a
			e.res = m.x.symVal(m.s, m.rt(0), fresh("config"), nil, "")
			return one(m.s, e.res)
		},
		modulePath + ".ArtPollReplyFromConfig": func(m *mcall) []Out {
			pt := derefType(m.rt(0))
			o := newObj(pt, m.in, "reply")
			n := lazyNode(pt, fresh("reply"), nil)
			m.s.setHeap(o, n)
			e := m.s.ev("announce", m.in)
			e.node = n
			e.args = m.a
			e.res = &Ptr{o: o, t: pt}
			return one(m.s, e.res)
		},
	}
	for _, t := range packets {
		for _, k := range []string{"(*" + modulePath + "/packet." + t.typ + ").MarshalBinary", "(" + modulePath + "/packet." + t.typ + ").MarshalBinary"} {
			r[k] = func(m *mcall) []Out { return encodeModel(m, t) }
		}
	}
	return r
}

// encodeModel: the contract C05 and C06 establish for encoders.
func encodeModel(m *mcall, t *pspec) []Out {
	x, s := m.x, m.s
	e := s.ev("encode", m.in)
	e.name = t.typ
	e.args = m.a
	var p *Ptr
	if q, ok := m.a[0].(*Ptr); ok {
		if p = x.asPtr(s, m.in, q); p == nil {
			return nil
		}
		e.node = x.getFrom(s, p.o, p.p)
		// identifier, op code, version and the fixed fields are set
		if st, ok := p.t.Underlying().(*types.Struct); ok {
			pay := map[string]bool{}
			for _, f := range t.fields {
				_, fx := t.fixed[f.name]
				pay[f.name] = !fx
			}
			for i := 0; i < st.NumFields(); i++ {
				if f := st.Field(i); !pay[f.Name()] {
					x.write(s, &Ptr{o: p.o, p: append(append([]Step{}, p.p...), Step{f: i}), t: f.Type()}, lazyNode(f.Type(), fresh("encoded"), nil))
				}
			}
		}
	} else {
		e.node = x.toNode(m.fn.Signature.Recv().Type(), m.a[0])
	}
	e.str = fresh("wire")
	el := types.Typ[types.Uint8]
	o := newObj(types.NewArray(el, int64(t.size)), m.in, "wire")
	s.setHeap(o, lazyNode(types.NewArray(el, int64(t.size)), e.str, nil))
	sl := &Slice{o: o, off: lc(0), len: lc(int64(t.size)), cap: lc(int64(t.size)), el: el}
	e.res = sl
	return one(s, Tuple{sl, zeroVal(m.rt(1))})
}
