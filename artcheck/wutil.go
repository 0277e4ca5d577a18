package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Trace is the list of events of one way through an entry, or through one
// iteration of a loop in it.
type Trace struct {
	e    *Entry
	evs  []*Ev
	end  *State
	res  Value
	loop *LoopInfo // iteration of this loop, or nil
	pan  bool
}

func (t *Trace) kind() string {
	if t.loop != nil {
		return "iteration"
	}
	return "path"
}

// traces lists the ways through an entry and, for each loop on them, the ways
// through one iteration.
func (w *World) traces(e *Entry) []*Trace {
	if e.trs != nil {
		return e.trs
	}
	seen := map[*LoopInfo]bool{}
	var r []*Trace
	var loops func(evs []*Ev)
	loops = func(evs []*Ev) {
		for _, v := range evs {
			if v.loop == nil || seen[v.loop] {
				continue
			}
			seen[v.loop] = true
			for _, a := range v.loop.alts {
				r = append(r, &Trace{e: e, evs: a.evs, end: a.s, loop: v.loop})
				loops(a.evs)
			}
		}
	}
	for _, o := range e.outs {
		evs := events(nil, o.s.tr)
		r = append(r, &Trace{e: e, evs: evs, end: o.s, res: o.res, pan: o.pan})
		loops(evs)
	}
	// loops that no path leaves
	for _, l := range w.x.loops[e.name] {
		if !seen[l] {
			seen[l] = true
			for _, a := range l.alts {
				r = append(r, &Trace{e: e, evs: a.evs, end: a.s, loop: l})
				loops(a.evs)
			}
		}
	}
	e.trs = r
	return r
}

// evState is the state an event happened in (facts and memory).
func (w *World) evState(v *Ev) *State {
	return &State{F: v.F, shared: true, heap: v.heap, hsh: true, epoch: v.epoch, x: w.x, fr: &Frame{env: map[ssa.Value]Value{}}, locks: v.locks}
}

// fieldHolding lists the fields (Type.Field) that hold the channel, map or
// object a value refers to.
func (w *World) fieldHolding(heap map[*Obj]*Node, v Value) []string {
	var o *Obj
	switch v := v.(type) {
	case *ChanV:
		o = v.o
	case *MapV:
		o = v.o
	case *Ptr:
		if len(v.p) > 0 {
			return nil
		}
		o = v.o
	case *Slice:
		o = v.o
	case *Func:
		if v.org != nil {
			return []string{v.org.Type + "." + v.org.Field}
		}
		return nil
	default:
		return nil
	}
	set := map[string]bool{}
	if o.org != nil && o.org.Field != "" {
		set[o.org.Type+"."+o.org.Field] = true
	}
	var visit func(n *Node)
	visit = func(n *Node) {
		if n.k != nStruct {
			return
		}
		st, ok := n.t.Underlying().(*types.Struct)
		if !ok {
			return
		}
		for i, f := range n.f {
			if f.k == nStruct {
				visit(f)
			}
			if f.k != nLeaf {
				continue
			}
			hit := false
			switch u := f.v.(type) {
			case *ChanV:
				hit = u.o == o
			case *MapV:
				hit = u.o == o
			case *Ptr:
				hit = u.o == o && len(u.p) == 0
			case *Slice:
				hit = u.o == o
			}
			if hit {
				set[typeName(n.t)+"."+st.Field(i).Name()] = true
			}
		}
	}
	for _, n := range heap {
		visit(n)
	}
	return sortedKeys(set)
}

// chanName is the field that holds a channel, or its own name.
func (w *World) chanName(v *Ev, ch Value) string {
	fs := w.fieldHolding(v.heap, ch)
	for _, f := range fs {
		if strings.Contains(f, modulePath) {
			return f
		}
	}
	if len(fs) > 0 {
		// the channel of a timer: say which field holds the timer
		if c, ok := ch.(*ChanV); ok {
			for o, n := range v.heap {
				if n.k != nStruct || len(n.f) == 0 || n.f[0].k != nLeaf {
					continue
				}
				if u, ok := n.f[0].v.(*ChanV); ok && u.o == c.o {
					for _, f := range w.fieldHolding(v.heap, &Ptr{o: o}) {
						if strings.Contains(f, modulePath) {
							return f
						}
					}
				}
			}
			if c.o.org != nil && c.o.org.Obj != nil && c.o.org.Obj.org != nil {
				return c.o.org.Obj.org.Type + "." + c.o.org.Obj.org.Field
			}
		}
		return fs[0]
	}
	return vkey(ch)
}

func (w *World) evText(v *Ev) string {
	x := w.x
	var b strings.Builder
	fmt.Fprintf(&b, "%s %s", v.k, x.pos(v.instr))
	if v.name != "" {
		b.WriteString(" " + short(v.name))
	}
	if v.str != "" {
		b.WriteString(" " + short(v.str))
	}
	if v.ch != nil {
		b.WriteString(" on " + short(w.chanName(v, v.ch)))
	}
	if v.ptr != nil {
		b.WriteString(" " + short(v.ptr.key()))
	}
	if v.k == "select" {
		fmt.Fprintf(&b, " case %d of %d", v.idx, len(v.sel))
	}
	for _, a := range v.args {
		b.WriteString(" " + clip(short(vkey(a)), 100))
	}
	if v.node != nil {
		b.WriteString(" := " + clip(short(v.node.key()), 100))
	}
	if v.res != nil {
		b.WriteString(" = " + clip(short(vkey(v.res)), 100))
	}
	if len(v.locks) > 0 {
		b.WriteString(" {")
		for _, l := range v.locks {
			b.WriteString(short(l.field) + " ")
		}
		b.WriteString("}")
	}
	if v.loop != nil {
		fmt.Fprintf(&b, " loop %s:%d (%d alternatives)", v.loop.fn.Name(), v.loop.head.Index, len(v.loop.alts))
	}
	return b.String()
}

func (w *World) dump(e *Entry) {
	for i, t := range w.traces(e) {
		fmt.Printf("-- %s %s %d", e.name, t.kind(), i)
		if t.loop != nil {
			fmt.Printf(" of loop %s:%d", t.loop.fn.Name(), t.loop.head.Index)
		} else {
			fmt.Printf(" -> %s", clip(short(vkey(t.res)), 100))
		}
		fmt.Println()
		for _, v := range t.evs {
			fmt.Println("    ", w.evText(v))
		}
	}
}

// entriesOf lists the entries with this name (goroutines carry a number).
func (w *World) entriesOf(name string) []*Entry {
	var r []*Entry
	for _, e := range w.entries {
		nm, _, _ := strings.Cut(e.name, "#")
		if nm == name {
			r = append(r, e)
		}
	}
	return r
}

func (w *World) baseName(e string) string {
	nm, _, _ := strings.Cut(e, "#")
	return nm
}

func (w *World) rootType(name string) *types.Named {
	tn, ok := w.p.root.Pkg.Scope().Lookup(name).(*types.TypeName)
	if !ok {
		return nil
	}
	n, _ := types.Unalias(tn.Type()).(*types.Named)
	return n
}

func sortedBy[T any](m map[string]T) []T {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var r []T
	for _, k := range ks {
		r = append(r, m[k])
	}
	return r
}
