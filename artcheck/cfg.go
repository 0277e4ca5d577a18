package main

import (
	"sort"

	"golang.org/x/tools/go/ssa"
)

// Loop is a natural loop.
type Loop struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *Loop
	kids   []*Loop
	order  []*item // topological order of the collapsed body
	latch  []*ssa.BasicBlock
}

type item struct {
	b *ssa.BasicBlock
	l *Loop
}

// FnInfo is the control flow information of a function.
type FnInfo struct {
	fn    *ssa.Function
	root  *Loop // pseudo loop: the whole function
	loops []*Loop
	live  map[*ssa.BasicBlock]map[ssa.Value]bool // live-in
	bad   bool                                   // irreducible
}

func buildInfo(fn *ssa.Function) *FnInfo {
	fi := &FnInfo{fn: fn}
	byHead := map[*ssa.BasicBlock]*Loop{}
	reach := map[*ssa.BasicBlock]bool{}
	var dfs func(b *ssa.BasicBlock)
	onst := map[*ssa.BasicBlock]bool{}
	dfs = func(b *ssa.BasicBlock) {
		reach[b] = true
		onst[b] = true
		for _, c := range b.Succs {
			if onst[c] && !c.Dominates(b) {
				fi.bad = true
			}
			if !reach[c] {
				dfs(c)
			}
		}
		onst[b] = false
	}
	dfs(fn.Blocks[0])
	for _, b := range fn.Blocks {
		if !reach[b] {
			continue
		}
		for _, h := range b.Succs {
			if h.Dominates(b) {
				l := byHead[h]
				if l == nil {
					l = &Loop{head: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
					byHead[h] = l
					fi.loops = append(fi.loops, l)
				}
				l.latch = append(l.latch, b)
				var up func(c *ssa.BasicBlock)
				up = func(c *ssa.BasicBlock) {
					if l.blocks[c] || !reach[c] {
						return
					}
					l.blocks[c] = true
					for _, p := range c.Preds {
						up(p)
					}
				}
				up(b)
			}
		}
	}
	fi.root = &Loop{head: fn.Blocks[0], blocks: reach}
	sort.Slice(fi.loops, func(i, j int) bool { return len(fi.loops[i].blocks) < len(fi.loops[j].blocks) })
	for i, l := range fi.loops {
		l.parent = fi.root
		for _, m := range fi.loops[i+1:] {
			if m != l && m.blocks[l.head] {
				l.parent = m
				break
			}
		}
		l.parent.kids = append(l.parent.kids, l)
	}
	for _, l := range append([]*Loop{fi.root}, fi.loops...) {
		l.order = topo(l)
	}
	fi.live = liveness(fn, reach)
	return fi
}

// kidOf returns the direct child loop of l containing b.
func (l *Loop) kidOf(b *ssa.BasicBlock) *Loop {
	for _, k := range l.kids {
		if k.blocks[b] {
			return k
		}
	}
	return nil
}

func topo(l *Loop) []*item {
	seen := map[any]bool{}
	var out []*item
	var visit func(b *ssa.BasicBlock, first bool)
	visit = func(b *ssa.BasicBlock, first bool) {
		if !l.blocks[b] {
			return
		}
		if b == l.head && !first {
			return
		}
		k := l.kidOf(b)
		if k != nil {
			if seen[k] {
				return
			}
			seen[k] = true
			var bs []*ssa.BasicBlock
			for c := range k.blocks {
				bs = append(bs, c)
			}
			sort.Slice(bs, func(i, j int) bool { return bs[i].Index < bs[j].Index })
			for _, c := range bs {
				for _, d := range c.Succs {
					if !k.blocks[d] {
						visit(d, false)
					}
				}
			}
			out = append(out, &item{l: k, b: k.head})
			return
		}
		if seen[b] {
			return
		}
		seen[b] = true
		for _, c := range b.Succs {
			visit(c, false)
		}
		out = append(out, &item{b: b})
	}
	visit(l.head, true)
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func liveness(fn *ssa.Function, reach map[*ssa.BasicBlock]bool) map[*ssa.BasicBlock]map[ssa.Value]bool {
	live := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for b := range reach {
		live[b] = map[ssa.Value]bool{}
	}
	for ch := true; ch; {
		ch = false
		for i := len(fn.Blocks) - 1; i >= 0; i-- {
			b := fn.Blocks[i]
			if !reach[b] {
				continue
			}
			cur := map[ssa.Value]bool{}
			for _, c := range b.Succs {
				for v := range live[c] {
					if phi, ok := v.(*ssa.Phi); ok && phi.Block() == c {
						continue
					}
					cur[v] = true
				}
				for _, in := range c.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					for k, p := range c.Preds {
						if p == b {
							cur[phi.Edges[k]] = true
						}
					}
				}
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if v, ok := in.(ssa.Value); ok {
					if _, isphi := in.(*ssa.Phi); !isphi {
						delete(cur, v)
					}
				}
				if _, isphi := in.(*ssa.Phi); isphi {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil {
						cur[*op] = true
					}
				}
			}
			if len(cur) != len(live[b]) {
				live[b] = cur
				ch = true
			}
		}
	}
	return live
}
