package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
)

var worldCache *World

// world runs the analysis of the root package once.
func (r *Rep) world() *World {
	if worldCache == nil {
		worldCache = analyseRoot(r.p)
		worldCache.in, worldCache.mins = in, mins
	}
	in, mins = worldCache.in, worldCache.mins // others may have analysed something since
	r.absorb(worldCache.x)
	r.trust = append(r.trust,
		"controllers and nodes are made by their constructors, with a logger; options are applied before the start",
		"a start does not overlap with goroutines of an earlier start",
		"users do not write the exported registry fields themselves")
	return worldCache
}

// ---------------------------------------------------------------------------
// C25
// ---------------------------------------------------------------------------

func propC25(r *Rep) {
	r.desc = "abstract interpretation of every public operation, option, library callback and goroutine (from every state it can be launched in): each dereference, index, slice, type assertion, division, map write, channel close and timer interval is an obligation proved on every path, under class invariants proved inductive in the same run"
	w := r.world()
	r.panics(w.x, "no panic")
	r.atLeast("no panic", 100, "root package")
	n := 0
	for _, e := range w.entries {
		if e.kind == "go" {
			n++
		}
		for _, o := range e.outs {
			r.check("no panic on a path", !o.pan, r.fnPos(e.fn), "%s can end in a panic", e.name)
		}
	}
	r.check("goroutines found", n >= 6, "root package", "only %d goroutines were found", n)
	// what the root package was analysed against the contract of
	for _, f := range []func(*Rep){propC01, propC05, propC09, propC10, propC11} {
		r.sub(f, func(rule string) bool {
			return strings.Contains(rule, "panic") || rule == "returns" || rule == "rendering is total" || rule == "decidable" || rule == "function returns" || rule == "encoder returns"
		})
	}
}

// ---------------------------------------------------------------------------
// C14
// ---------------------------------------------------------------------------

// sharedFields lists the fields (and contents) that need a lock: the tables
// of a controller, what it keeps per node and the stop flags of nodes.
func (w *World) sharedFields() map[string]bool {
	fs := map[string]bool{}
	cn := w.rootType("ControlledNode")
	c := w.rootType("Controller")
	nd := w.rootType("Node")
	if cn == nil || c == nil || nd == nil {
		return fs
	}
	isCN := func(t types.Type) bool {
		p, ok := t.Underlying().(*types.Pointer)
		return ok && types.Identical(types.Unalias(p.Elem()), cn)
	}
	st := c.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		var el types.Type
		switch u := f.Type().Underlying().(type) {
		case *types.Slice:
			el = u.Elem()
		case *types.Map:
			el = u.Elem()
		}
		if el != nil && isCN(el) {
			fs[typeName(c)+"."+f.Name()] = true
			fs[typeName(c)+"."+f.Name()+"[]"] = true
		}
	}
	var walk func(n *types.Named)
	walk = func(n *types.Named) {
		st, ok := n.Underlying().(*types.Struct)
		if !ok || n.Obj().Pkg().Path() != modulePath {
			return
		}
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			k := typeName(n) + "." + f.Name()
			if fs[k] || strings.HasPrefix(typeName(f.Type()), "sync.") {
				continue
			}
			fs[k] = true
			if m, ok := f.Type().Underlying().(*types.Map); ok {
				fs[k+"[]"] = true
				if e, ok := types.Unalias(derefType(m.Elem())).(*types.Named); ok {
					walk(e)
				}
			}
		}
	}
	walk(cn)
	st = nd.Underlying().(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if isBoolT(st.Field(i).Type()) {
			fs[typeName(nd)+"."+st.Field(i).Name()] = true
		}
	}
	return fs
}

func propC14(r *Rep) {
	r.desc = "lockset analysis: for every field of the shared state, all accesses by public operations, callbacks and goroutines to objects other goroutines can see hold one common mutex (exclusively for writes, of the same object where the mutex lives in it); accesses through aliases, closures, slices and maps taken earlier are included"
	w := r.world()
	fs := w.sharedFields()
	r.check("shared state found", len(fs) >= 12, "root package", "only %d shared fields were recognised", len(fs))
	kinds := map[string]string{}
	for _, e := range w.entries {
		kinds[e.name] = e.kind
	}
	by := map[string][]*Access{}
	for _, a := range w.x.acc {
		k := a.Type + "." + a.Field
		if !fs[k] || a.Private || kinds[a.Entry] == "func" || kinds[a.Entry] == "option" {
			continue
		}
		by[k] = append(by[k], a)
	}
	for _, k := range sortedKeys(by) {
		as := by[k]
		written := false
		for _, a := range as {
			written = written || a.Write
		}
		if !written {
			r.check("never written after construction", true, "", "")
			continue
		}
		holds := func(a *Access, lk string) bool {
			for _, l := range a.Locks {
				if l.field != lk || l.read && a.Write {
					continue
				}
				if i := strings.LastIndex(lk, "."); lk[:i] == a.Type && !strings.HasPrefix(l.key, "&"+a.Obj+".") {
					continue
				}
				return true
			}
			return false
		}
		cnt := map[string]int{}
		for _, a := range as {
			seen := map[string]bool{}
			for _, l := range a.Locks {
				if !seen[l.field] && holds(a, l.field) {
					seen[l.field] = true
					cnt[l.field]++
				}
			}
		}
		best := ""
		for _, lk := range sortedKeys(cnt) {
			if best == "" || cnt[lk] > cnt[best] || cnt[lk] == cnt[best] && strings.Contains(lk, ".Controller.") {
				best = lk
			}
		}
		sort.Slice(as, func(i, j int) bool { return w.x.pos(as[i].Instr) < w.x.pos(as[j].Instr) })
		for _, a := range as {
			what := "read"
			if a.Write {
				what = "written"
			}
			ok := best != "" && holds(a, best)
			r.check("accesses share a lock", ok, w.x.pos(a.Instr)+" "+a.Fn.Name(), "%s is %s by %s without %s (held: %s)", short(k), what, a.Entry, short(or(best, "any lock")), short(lockNames(a.Locks)))
		}
	}
	r.atLeast("accesses share a lock", 40, "root package")
}

func or(a, b string) string {
	if a != "" {
		return a
	}
	return b
}

// ---------------------------------------------------------------------------
// C15
// ---------------------------------------------------------------------------

func propC15(r *Rep) {
	r.desc = "lock typestate on every path of every entry and loop iteration, acyclicity of the lock-order graph, and a check of every blocking operation, callback and socket operation against the locks held at it"
	w := r.world()
	x := w.x
	for _, l := range sortedBy(x.lockErrs) {
		r.check("locks are used correctly", false, x.pos(l.Instr)+" "+l.Fn.Name(), "%s [%s]", short(l.What), l.Stack)
	}
	nops := 0
	for range x.lockOps {
		nops++
	}
	r.check("locks found", nops >= 3, "root package", "only %d locks were found", nops)
	for _, e := range w.entries {
		for _, o := range e.outs {
			r.check("every lock is released", len(o.s.locks) == 0, r.fnPos(e.fn), "%s ends while holding %s", e.name, short(lockNames(o.s.locks)))
		}
	}
	// order
	succ := map[string][]string{}
	for k := range x.order {
		a, b, _ := strings.Cut(k, " -> ")
		succ[a] = append(succ[a], b)
	}
	for k := range succ {
		sort.Strings(succ[k])
	}
	for _, k := range sortedKeys(x.order) {
		a, b, _ := strings.Cut(k, " -> ")
		// a path back from b to a closes a cycle
		seen := map[string]bool{}
		var reach func(n string) bool
		reach = func(n string) bool {
			if n == a {
				return true
			}
			if seen[n] {
				return false
			}
			seen[n] = true
			for _, m := range succ[n] {
				if reach(m) {
					return true
				}
			}
			return false
		}
		o := x.order[k]
		r.check("one lock order", !reach(b), x.pos(o.Instr)+" "+o.Fn.Name(), "takes %s while holding %s, but elsewhere they are nested the other way round", short(b), short(a))
	}
	stops := w.stopChans()
	type heldWait struct {
		stop  string
		locks []Lock
		at    string
	}
	var hw []heldWait
	for _, b := range sortedBy(x.blocks) {
		for _, e := range b.Evs {
			if !e.blk || e.k == "sleep" {
				continue
			}
			if len(e.locks) == 0 {
				r.check("no wait under a lock without the stop signal", true, "", "")
				continue
			}
			st := ""
			for _, c := range e.sel {
				if n := w.chanName(e, c.ch); !c.send && stops[n] {
					st = n
				}
			}
			if st != "" {
				hw = append(hw, heldWait{st, e.locks, x.pos(b.Instr)})
			}
			r.check("no wait under a lock without the stop signal", st != "", x.pos(b.Instr)+" "+b.Fn.Name(), "%s waits while holding %s and the stop signal does not end the wait", b.Entry, short(lockNames(e.locks)))
		}
	}
	for _, e := range w.entries {
		for _, t := range w.traces(e) {
			for i, v := range t.evs {
				switch v.k {
				case "callback", "read", "write":
					r.check("no callback or socket operation under a lock", len(v.locks) == 0, x.pos(v.instr), "%s: %s while holding %s", e.name, v.k, short(lockNames(v.locks)))
				case "close":
					nm := w.chanName(v, v.ch)
					for _, h := range hw {
						if h.stop != nm {
							continue
						}
						for _, l := range h.locks {
							bad := false
							for _, u := range t.evs[:i] {
								if u.k == "lock" && u.str == l.field {
									bad = true
								}
							}
							for _, m := range v.locks {
								bad = bad || m.field == l.field
							}
							r.check("the stop signal does not wait for its waiters", !bad, x.pos(v.instr), "%s takes %s before it gives the stop signal, but %s holds it while waiting for that signal", e.name, short(l.field), h.at)
						}
					}
				}
			}
		}
	}
	r.atLeast("no callback or socket operation under a lock", 4, "root package")
	r.atLeast("no wait under a lock without the stop signal", 8, "root package")
}

// stopChans lists the channel fields that are closed by a Stop operation.
func (w *World) stopChans() map[string]bool {
	if w.parent != nil {
		return w.parent.stopChans()
	}
	r := map[string]bool{}
	for _, nm := range []string{"Node.Stop", "Controller.Stop"} {
		e := w.entry(nm)
		if e == nil {
			continue
		}
		for _, t := range w.traces(e) {
			for _, v := range t.evs {
				if v.k == "close" {
					r[w.chanName(v, v.ch)] = true
				}
			}
		}
	}
	return r
}

// ---------------------------------------------------------------------------
// Stop flags
// ---------------------------------------------------------------------------

// stopFlag is the boolean field that says whether a node or controller runs,
// and the value that means stopped.
type stopFlag struct {
	typ, field string
	val        bool
}

func (f *stopFlag) key() string { return f.typ + "." + f.field }

// stopFlags finds, for a type with Start and Stop, the flag its Stop sets.
func (w *World) stopFlag(typ string) *stopFlag {
	if w.parent != nil {
		return w.parent.stopFlag(typ)
	}
	e := w.entry(typ + ".Stop")
	nt := w.rootType(typ)
	if e == nil || nt == nil {
		return nil
	}
	tn := typeName(nt)
	for _, t := range w.traces(e) {
		for _, v := range t.evs {
			if v.k != "store" || v.ptr == nil || len(v.ptr.p) != 1 || v.ptr.o.t == nil || typeName(v.ptr.o.t) != tn {
				continue
			}
			fs := fieldsOf(v.ptr)
			if len(fs) != 1 || !isBoolT(v.ptr.t) {
				continue
			}
			if c, ok := w.x.toVal(w.evState(v), v.node).(*Cond); ok {
				switch w.evState(v).decide(c) {
				case 1:
					return &stopFlag{tn, fs[0].Field, true}
				case 0:
					return &stopFlag{tn, fs[0].Field, false}
				}
			}
		}
	}
	return nil
}

// flagIs: the flag of object o is known to say stopped (1), running (0) or
// unknown (-1) in a state.
func (w *World) flagIs(s *State, f *stopFlag, o *Obj) int {
	p := &Ptr{o: o, t: o.t}
	n, _ := w.x.field(s, p, f.field)
	if n == nil {
		return -1
	}
	c, ok := w.x.toVal(s, n).(*Cond)
	if !ok {
		return -1
	}
	d := s.decide(c)
	if d >= 0 && !f.val {
		d = 1 - d
	}
	return d
}

func (w *World) flagNode(s *State, f *stopFlag, n *Node) int {
	if n == nil {
		return -1
	}
	c, ok := w.x.toVal(s, n).(*Cond)
	if !ok {
		return -1
	}
	d := s.decide(c)
	if d >= 0 && !f.val {
		d = 1 - d
	}
	return d
}

func isFlagStore(v *Ev, f *stopFlag) bool {
	if v.k != "store" || v.ptr == nil || len(v.ptr.p) != 1 {
		return false
	}
	fs := fieldsOf(v.ptr)
	return len(fs) == 1 && fs[0].Type == f.typ && fs[0].Field == f.field
}

func evPos(w *World, v *Ev) string {
	return fmt.Sprintf("%s %s", w.x.pos(v.instr), v.fn.Name())
}
