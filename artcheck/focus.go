package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// focusKey, when set, tells which distinctions between paths matter for the
// question at hand.  States at the same program point with the same key are
// joined: values they disagree on become unknown.  This only ever adds
// behaviours.
var focusKey func(s *State) string

const focusMin = 48

func focusMerge(in []*State) []*State {
	by := map[string][]*State{}
	var order []string
	for _, s := range in {
		k := focusGroup(s) + focusKey(s)
		if by[k] == nil {
			order = append(order, k)
		}
		done := false
		for _, t := range by[k] {
			if t.absorb(s) {
				done = true
				break
			}
		}
		if !done {
			by[k] = append(by[k], s)
		}
	}
	var r []*State
	for _, k := range order {
		r = append(r, by[k]...)
	}
	return r
}

// focusGroup identifies the program point and the shape of a state.
func focusGroup(s *State) string {
	var b strings.Builder
	fmt.Fprintf(&b, "%p|", s.tr)
	for _, l := range s.locks {
		b.WriteString(l.key + ",")
	}
	var os []int
	for o, n := range s.heap {
		if o.sym && n.k == nLazy {
			continue
		}
		os = append(os, o.id)
	}
	sort.Ints(os)
	fmt.Fprint(&b, os)
	for f := s.fr; f != nil; f = f.up {
		var es []string
		for k := range f.env {
			es = append(es, fmt.Sprintf("%p", k))
		}
		sort.Strings(es)
		b.WriteString("#" + strings.Join(es, "|"))
		for _, d := range f.defers {
			fmt.Fprintf(&b, "D%p", d.instr)
		}
	}
	return b.String()
}

// absorb joins o into s; false if they differ in more than scalar values.
func (s *State) absorb(o *State) bool {
	x := s.x
	type env struct {
		f *Frame
		k ssa.Value
		v Value
	}
	var es []env
	j := &joiner{x: x, a: s, b: o, memo: map[string]*Node{}}
	for f, g := s.fr, o.fr; f != nil && g != nil; f, g = f.up, g.up {
		for _, k := range sortedVals(f.env) {
			v := f.env[k]
			w := g.env[k]
			if vkey(v) == vkey(w) {
				continue
			}
			t := k.Type()
			if c, ok := k.(*ssa.Const); ok && c.Value == nil {
				return false
			}
			n := j.node(x.toNode(t, v), x.toNode(t, w))
			if n == nil {
				return false
			}
			es = append(es, env{f, k, x.toVal(s, n)})
		}
	}
	hs := map[*Obj]*Node{}
	for _, ob := range s.objs() {
		n := s.heap[ob]
		m, ok := o.heap[ob]
		if !ok || n.key() == m.key() {
			continue
		}
		r := j.node(n, m)
		if r == nil {
			return false
		}
		hs[ob] = r
	}
	s.F, s.shared = joinFacts(s.F, o.F), false
	for _, a := range j.atoms {
		s.own()
		s.F.at[a.a] = a.f
	}
	for ob, n := range hs {
		s.setHeap(ob, n)
	}
	for _, e := range es {
		e.f.env[e.k] = e.v
	}
	return true
}

type joiner struct {
	x     *Exec
	a, b  *State
	memo  map[string]*Node
	atoms []struct {
		a *Atom
		f *AF
	}
}

func (j *joiner) node(n, m *Node) *Node {
	if n.key() == m.key() {
		return n
	}
	x := j.x
	if n.t == nil || m.t == nil || !types.Identical(n.t, m.t) {
		return nil
	}
	mk := n.key() + "\x00" + m.key()
	if r, ok := j.memo[mk]; ok {
		return r
	}
	r := j.node1(x, n, m)
	j.memo[mk] = r
	return r
}

func (j *joiner) node1(x *Exec, n, m *Node) *Node {
	if n.k == nMap || m.k == nMap {
		return nil
	}
	switch u := n.t.Underlying().(type) {
	case *types.Struct:
		if isTime(n.t) {
			return nil
		}
		a, b := x.expand(j.a, n), x.expand(j.b, m)
		if a.k != nStruct || b.k != nStruct {
			return nil
		}
		r := &Node{k: nStruct, t: n.t, f: make([]*Node, len(a.f))}
		for i := range a.f {
			if r.f[i] = j.node(a.f[i], b.f[i]); r.f[i] == nil {
				return nil
			}
		}
		return r
	case *types.Array:
		if u.Len() > 16 {
			return nil
		}
		a, b := x.expandArr(j.a, n), x.expandArr(j.b, m)
		if a.k != nArr || b.k != nArr {
			return nil
		}
		r := a
		for i := int64(0); i < u.Len(); i++ {
			p, q := x.elemAt(j.a, a, lc(i), u.Elem()), x.elemAt(j.b, b, lc(i), u.Elem())
			if p.key() == q.key() {
				continue
			}
			e := j.node(p, q)
			if e == nil {
				return nil
			}
			r = x.putElem(j.a, r, lc(i), e)
		}
		return r
	}
	if w, sg, ok := intType(n.t); ok {
		p, ok1 := x.toVal(j.a, n).(*Int)
		q, ok2 := x.toVal(j.b, m).(*Int)
		if !ok1 || !ok2 {
			return nil
		}
		at := atomNamed(fresh("join"), w, sg)
		lo, hi := j.a.rng(p.linear())
		lo2, hi2 := j.b.rng(q.linear())
		tl, th := typeRange(w, sg)
		cp := *defaultAF(at)
		f := &cp
		f.lo, f.hi = max(min(lo, lo2), tl), min(max(hi, hi2), th)
		j.atoms = append(j.atoms, struct {
			a *Atom
			f *AF
		}{at, f})
		return leaf(n.t, intAtom(at))
	}
	if b, ok := n.t.Underlying().(*types.Basic); ok && b.Info()&(types.IsBoolean|types.IsString) != 0 {
		if b.Info()&types.IsBoolean != 0 {
			return leaf(n.t, ckey(fresh("join")))
		}
		return leaf(n.t, strSym(fresh("join")))
	}
	return nil
}

func sortedVals(m map[ssa.Value]Value) []ssa.Value {
	r := make([]ssa.Value, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Name() < r[j].Name() })
	return r
}
