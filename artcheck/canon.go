package main

import (
	"fmt"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

var freshRe = regexp.MustCompile(`[!#~]\d+`)

// canon renames the fresh names of a state by order of appearance, so that
// states that differ only in such names can be recognised.
type canon struct {
	m   map[string]string
	key string
}

func (c *canon) ren(s string) string {
	return freshRe.ReplaceAllStringFunc(s, func(n string) string {
		r, ok := c.m[n]
		if !ok {
			r = fmt.Sprintf("%s%d", n[:1], len(c.m))
			c.m[n] = r
		}
		return r
	})
}

// known renames names seen before only; ok is false otherwise.
func (c *canon) known(s string) (string, bool) {
	ok := true
	r := freshRe.ReplaceAllStringFunc(s, func(n string) string {
		r, has := c.m[n]
		if !has {
			ok = false
		}
		return r
	})
	return r, ok
}

func canonState(s *State, roots Value) *canon {
	c := &canon{m: map[string]string{}}
	var b strings.Builder
	b.WriteString(c.ren(vkey(roots)))
	byID := map[int]*Obj{}
	var syms []*Obj
	for o, n := range s.heap {
		if o == clockObj {
			continue
		}
		if o.sym || o.glob {
			if n.k == nLazy {
				continue
			}
			syms = append(syms, o)
			continue
		}
		byID[o.id] = o
	}
	strip := func(s string) string { return freshRe.ReplaceAllString(s, "") }
	sort.Slice(syms, func(i, j int) bool {
		a, b := strip(syms[i].name), strip(syms[j].name)
		if a != b {
			return a < b
		}
		return syms[i].id < syms[j].id
	})
	seen := map[int]bool{}
	var queue []int
	note := func(t string) {
		for _, m := range freshRe.FindAllString(t, -1) {
			if m[0] == '!' {
				id, _ := strconv.Atoi(m[1:])
				if byID[id] != nil && !seen[id] {
					seen[id] = true
					queue = append(queue, id)
				}
			}
		}
	}
	note(vkey(roots))
	for _, o := range syms {
		k := o.name + "=" + s.heap[o].key()
		note(k)
		b.WriteString("|" + c.ren(k))
	}
	for len(queue) > 0 {
		id := queue[0]
		queue = queue[1:]
		o := byID[id]
		k := o.name + "=" + s.heap[o].key()
		note(k)
		b.WriteString("|" + c.ren(k))
	}
	c.key = b.String()
	return c
}

// joinCanon weakens the facts of a to those that also hold in b.
func joinCanon(a *State, ca *canon, b *State, cb *canon) {
	r := newFacts()
	bat := map[string]*AF{}
	for at, f := range b.F.at {
		if k, ok := cb.known(at.name); ok {
			bat[k] = f
		}
	}
	for at, x := range a.F.at {
		k, ok := ca.known(at.name)
		if !ok {
			continue
		}
		y := bat[k]
		if y == nil {
			continue
		}
		z := &AF{k0: x.k0 & y.k0, k1: x.k1 & y.k1, lo: min(x.lo, y.lo), hi: max(x.hi, y.hi)}
		if x.set != nil && y.set != nil {
			var st [4]uint64
			for i := range st {
				st[i] = x.set[i] | y.set[i]
			}
			z.set = &st
		}
		r.at[at] = z
	}
	bl := map[string]bool{}
	for _, l := range b.F.lin {
		if k, ok := cb.known(l.key()); ok {
			bl[k] = true
		}
	}
	for _, l := range a.F.lin {
		if k, ok := ca.known(l.key()); ok && bl[k] {
			r.lin = append(r.lin, l)
			r.lk[l.key()] = true
		}
	}
	bn := map[string]bool{}
	for k := range b.F.ne {
		if q, ok := cb.known(k); ok {
			bn[q] = true
		}
	}
	for k, l := range a.F.ne {
		if q, ok := ca.known(k); ok && bn[q] {
			r.ne[k] = l
		}
	}
	bo := map[string]bool{}
	for k, v := range b.F.op {
		if q, ok := cb.known(k); ok {
			bo[fmt.Sprint(q, v)] = true
		}
	}
	for k, v := range a.F.op {
		if q, ok := ca.known(k); ok && bo[fmt.Sprint(q, v)] {
			r.op[k] = v
		}
	}
	a.F, a.shared = r, false
}
