package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type sv struct {
	s *State
	v Value
}

// instr executes one instruction and returns the successor states.
func (x *Exec) instr(s *State, instr ssa.Instruction) []*State {
	set := func(v Value) []*State {
		s.fr.env[instr.(ssa.Value)] = v
		return []*State{s}
	}
	setAll := func(vs []sv) []*State {
		var r []*State
		for _, o := range vs {
			o.s.fr.env[instr.(ssa.Value)] = o.v
			r = append(r, o.s)
		}
		return r
	}
	one := []*State{s}
	switch in := instr.(type) {
	case *ssa.Alloc:
		t := derefType(in.Type())
		o := newObj(t, in, "new "+shortT(t))
		if isMapT(t) || !isAgg(t) {
			s.setHeap(o, leaf(t, zeroVal(t)))
		} else {
			s.setHeap(o, zeroNode(t))
		}
		return set(&Ptr{o: o, t: t})

	case *ssa.FieldAddr:
		p := x.asPtr(s, in, x.val(s, in.X))
		if p == nil {
			return nil
		}
		st := derefType(in.X.Type()).Underlying().(*types.Struct)
		return set(&Ptr{o: p.o, p: append(append([]Step(nil), p.p...), Step{f: in.Field}), t: st.Field(in.Field).Type()})

	case *ssa.Field:
		n, ok := x.val(s, in.X).(*Node)
		if !ok {
			x.fail("Field of non aggregate at %s", x.pos(in))
			return set(x.symVal(s, in.Type(), fresh("field"), nil, ""))
		}
		return set(x.toVal(s, x.get(s, n, []Step{{f: in.Field}})))

	case *ssa.IndexAddr:
		return setAll(x.indexAddr(s, in))

	case *ssa.Index:
		return setAll(x.index(s, in, x.val(s, in.X), x.val(s, in.Index), in.X.Type(), in.Type()))

	case *ssa.UnOp:
		return setAll(x.unop(s, in))

	case *ssa.BinOp:
		return setAll(x.binop(s, in, in.Op, x.val(s, in.X), x.val(s, in.Y), in.X.Type(), in.Type()))

	case *ssa.Store:
		p := x.asPtr(s, in, x.val(s, in.Addr))
		if p == nil {
			return nil
		}
		x.store(s, in, p, x.toNode(p.t, x.val(s, in.Val)))
		return one

	case *ssa.ChangeType:
		v := x.val(s, in.X)
		if n, ok := v.(*Node); ok && (n.k == nLazy || n.k == nZero) {
			m := *n
			m.t = in.Type()
			v = &m
		}
		return set(v)

	case *ssa.ChangeInterface:
		return set(x.val(s, in.X))

	case *ssa.MakeInterface:
		return set(&Iface{dyn: in.X.Type(), v: x.val(s, in.X), t: in.Type()})

	case *ssa.Convert:
		return set(x.convert(s, x.val(s, in.X), in.X.Type(), in.Type()))

	case *ssa.MultiConvert:
		return set(x.convert(s, x.val(s, in.X), in.X.Type(), in.Type()))

	case *ssa.MakeClosure:
		var b []Value
		for _, v := range in.Bindings {
			b = append(b, x.val(s, v))
		}
		return set(&Func{fn: in.Fn.(*ssa.Function), bind: b})

	case *ssa.MakeMap:
		o := newObj(in.Type(), in, "map")
		s.setHeap(o, &Node{k: nMap, t: in.Type()})
		return set(&MapV{o: o})

	case *ssa.MakeChan:
		o := newObj(in.Type(), in, "chan")
		s.setHeap(o, leaf(types.Typ[types.Int], asInt(x.val(s, in.Size), 64, true)))
		return set(&ChanV{o: o})

	case *ssa.MakeSlice:
		el := in.Type().Underlying().(*types.Slice).Elem()
		ln := asInt(x.val(s, in.Len), 64, true).linear()
		cp := asInt(x.val(s, in.Cap), 64, true).linear()
		ok := s.entails(ln) && s.entails(cp.sub(ln))
		x.oblige(s, in, "slice size", ok, "make with a length that may be negative: "+ln.key())
		if !s.addGE(ln) || !s.addGE(cp.sub(ln)) {
			return nil
		}
		o := newObj(el, in, "make []"+shortT(el))
		o.arr = true
		n := &Node{k: nArr, t: el}
		if c := s.res(ln); !c.isConst() || c.c != 0 {
			n.segs = []Seg{{lo: lc(0), hi: ln, k: nZero}}
		}
		s.setHeap(o, n)
		return set(&Slice{o: o, off: lc(0), len: ln, cap: cp, el: el})

	case *ssa.Slice:
		return setAll(x.slice(s, in))

	case *ssa.SliceToArrayPointer:
		sl, ok := x.val(s, in.X).(*Slice)
		at := derefType(in.Type()).Underlying().(*types.Array)
		if ok {
			good := s.entails(sl.len.plus(-at.Len()))
			x.oblige(s, in, "slice to array", good, "slice may be too short")
		}
		return set(x.symVal(s, in.Type(), fresh("arrptr"), nil, ""))

	case *ssa.Lookup:
		return setAll(x.lookup(s, in))

	case *ssa.MapUpdate:
		m := x.val(s, in.Map)
		return x.mapUpdate(s, in, m, x.val(s, in.Key), x.toNode(in.Value.Type(), x.val(s, in.Value)))

	case *ssa.Extract:
		switch t := x.val(s, in.Tuple).(type) {
		case Tuple:
			if in.Index < len(t) {
				return set(t[in.Index])
			}
		}
		x.fail("extract from non tuple at %s", x.pos(in))
		return set(x.symVal(s, in.Type(), fresh("extract"), nil, ""))

	case *ssa.Range:
		v := x.val(s, in.X)
		it := &Iter{m: v, nm: fresh("iter")}
		if m, ok := v.(*MapV); ok {
			it.o = m.o
		}
		if st, ok := v.(*Str); ok {
			it.str = st
		}
		return set(it)

	case *ssa.Next:
		return setAll(x.next(s, in))

	case *ssa.TypeAssert:
		return setAll(x.typeAssert(s, in))

	case *ssa.Select:
		return setAll(x.selectStmt(s, in))

	case *ssa.Send:
		ch := x.val(s, in.Chan)
		v := x.val(s, in.X)
		x.chanOp(s, in, ch)
		s.publish(v)
		e := s.ev("send", in)
		e.ch, e.args, e.blk = ch, []Value{v}, true
		e.sel = []SelCase{{ch: ch, send: true, val: v, pos: in.Pos()}}
		x.blockPoint(s, in, e)
		if s.decide(nilCond(ch)) == 1 {
			return nil
		}
		return one

	case *ssa.Go:
		fn, args := x.callee(s, in, &in.Call)
		s.publish(append([]Value{fn}, args...)...)
		e := s.ev("go", in)
		e.res, e.args = fn, args
		e.goSt = s.clone()
		if x.quiet == 0 {
			x.gos = append(x.gos, &GoSite{ev: e, entry: x.entry})
		}
		if f, ok := fn.(*Func); ok && f.fn == nil && f.nm != "" {
			x.nonNil(s, in, fn, "function call")
		}
		return one

	case *ssa.Defer:
		fn, args := x.callee(s, in, &in.Call)
		s.fr.defers = append(s.fr.defers, &deferred{instr: in, fn: fn, args: args})
		return one

	case *ssa.RunDefers:
		return x.runDefers(s, in)

	case *ssa.Call:
		return setAll(x.call(s, in, &in.Call))
	}
	x.fail("unsupported instruction %T in %s", instr, s.fr.fn)
	if v, ok := instr.(ssa.Value); ok {
		return set(x.symVal(s, v.Type(), fresh("unsup"), nil, ""))
	}
	return one
}

func shortT(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func asInt(v Value, w int, sg bool) *Int {
	if i, ok := v.(*Int); ok {
		return i
	}
	return intAtom(atomNamed(fresh("int"), w, sg))
}

func (x *Exec) runDefers(s *State, at ssa.Instruction) []*State {
	sts := []*State{s}
	for {
		var next []*State
		done := true
		for _, t := range sts {
			n := len(t.fr.defers)
			if n == 0 {
				next = append(next, t)
				continue
			}
			done = false
			d := t.fr.defers[n-1]
			t.fr.defers = t.fr.defers[: n-1 : n-1]
			for _, o := range x.callValue(t, d.instr, &d.instr.Call, d.fn, d.args) {
				next = append(next, o.s)
			}
		}
		sts = next
		if done {
			return sts
		}
	}
}

// ---------------------------------------------------------------------------
// Indexing and slicing
// ---------------------------------------------------------------------------

func (x *Exec) bounds(s *State, instr ssa.Instruction, idx, n *Lin) bool {
	lo, hi := s.entails(idx), s.entails(n.sub(idx).plus(-1))
	why := ""
	if !lo || !hi {
		why = fmt.Sprintf("index %s, length %s", s.res(idx).key(), s.res(n).key())
	}
	x.oblige(s, instr, "index range", lo && hi, why)
	return s.addGE(idx) && s.addGE(n.sub(idx).plus(-1))
}

// forkIdx splits on the value of an index into a small table.
func (x *Exec) forkIdx(s *State, n *Node, idx *Lin) []*State {
	if len(n.segs) <= 1 && len(n.over) == 0 {
		return []*State{s}
	}
	r := s.res(idx)
	if r.isConst() {
		return []*State{s}
	}
	for _, g := range n.segs {
		if s.entails(r.sub(g.lo)) && s.entails(g.hi.sub(r).plus(-1)) && len(n.over) == 0 {
			return []*State{s}
		}
	}
	lo, hi := s.rng(r)
	if lo < 0 || hi-lo > 64 {
		return []*State{s}
	}
	var out []*State
	for v := lo; v <= hi; v++ {
		t := s.clone()
		if t.assume(&Cond{k: cEQ, a: intLin(r, 64, true), b: mkInt(64, true, v)}, true) {
			out = append(out, t)
		}
	}
	return out
}

func (x *Exec) indexAddr(s *State, in *ssa.IndexAddr) []sv {
	idx := asInt(x.val(s, in.Index), 64, true).linear()
	switch v := x.val(s, in.X).(type) {
	case *Slice:
		if !x.bounds(s, in, idx, v.len) {
			return nil
		}
		a, el := x.arrAt(s, v.o, v.p)
		var out []sv
		for _, t := range x.forkIdx(s, a, v.off.add(idx, 1)) {
			ix := t.res(v.off.add(idx, 1))
			out = append(out, sv{t, &Ptr{o: v.o, p: append(append([]Step(nil), v.p...), Step{idx: ix}), t: el}})
		}
		return out
	case *Ptr:
		p := x.asPtr(s, in, v)
		if p == nil {
			return nil
		}
		at := derefType(in.X.Type()).Underlying().(*types.Array)
		if !x.bounds(s, in, idx, lc(at.Len())) {
			return nil
		}
		a := x.expandArr(s, x.getFrom(s, p.o, p.p))
		var out []sv
		for _, t := range x.forkIdx(s, a, idx) {
			out = append(out, sv{t, &Ptr{o: p.o, p: append(append([]Step(nil), p.p...), Step{idx: t.res(idx)}), t: at.Elem()}})
		}
		return out
	}
	x.oblige(s, in, "index range", false, "index of nil")
	return nil
}

func (x *Exec) index(s *State, in ssa.Instruction, xv, iv Value, xt, rt types.Type) []sv {
	idx := asInt(iv, 64, true).linear()
	switch v := xv.(type) {
	case *Node:
		at, ok := xt.Underlying().(*types.Array)
		if !ok {
			break
		}
		if !x.bounds(s, in, idx, lc(at.Len())) {
			return nil
		}
		a := x.expandArr(s, v)
		var out []sv
		for _, t := range x.forkIdx(s, a, idx) {
			out = append(out, sv{t, x.toVal(t, x.elemAt(t, a, idx, at.Elem()))})
		}
		return out
	case *Str:
		if !x.bounds(s, in, idx, x.strLen(s, v)) {
			return nil
		}
		if segs, ok := x.strSegs(s, v); ok {
			bt := types.Typ[types.Uint8]
			a := &Node{k: nArr, t: bt, segs: segs}
			var out []sv
			for _, t := range x.forkIdx(s, a, idx) {
				out = append(out, sv{t, x.toVal(t, x.elemAt(t, a, idx, bt))})
			}
			return out
		}
		return []sv{{s, intAtom(atomNamed(fmt.Sprintf("%s[%s]", v.key(), s.res(idx).key()), 8, false))}}
	}
	x.fail("index of %s at %s", vkey(xv), x.pos(in))
	return []sv{{s, x.symVal(s, rt, fresh("index"), nil, "")}}
}

func (x *Exec) strLen(s *State, v *Str) *Lin {
	l := lc(0)
	for _, p := range v.parts {
		switch {
		case p.nm != "":
			a := atomNamed("len<"+p.nm+">", 64, true)
			a.lo, a.hi = 0, 1<<40
			l = l.add(la(a), 1)
		case p.seq != nil && !p.cut && !p.rn:
			l = l.add(p.hi.sub(p.lo), 1)
		case p.seq != nil:
			a := atomNamed("seqlen<"+(&Str{parts: []SP{p}}).key()+">", 64, true)
			a.lo, a.hi = 0, 1<<40
			l = l.add(la(a), 1)
		default:
			l = l.plus(int64(len(p.lit)))
		}
	}
	return l
}

func (x *Exec) slice(s *State, in *ssa.Slice) []sv {
	opt := func(v ssa.Value) *Lin {
		if v == nil {
			return nil
		}
		return asInt(x.val(s, v), 64, true).linear()
	}
	lo, hi, mx := opt(in.Low), opt(in.High), opt(in.Max)
	if lo == nil {
		lo = lc(0)
	}
	check := func(ln, cp *Lin) bool {
		h := hi
		if h == nil {
			h = ln
		}
		m := mx
		if m == nil {
			m = cp
		}
		ok := s.entails(lo) && s.entails(h.sub(lo)) && s.entails(m.sub(h)) && s.entails(cp.sub(m))
		why := ""
		if !ok {
			why = fmt.Sprintf("bounds %s:%s of %s (capacity %s)", s.res(lo).key(), s.res(h).key(), s.res(ln).key(), s.res(cp).key())
		}
		x.oblige(s, in, "slice range", ok, why)
		return s.addGE(lo) && s.addGE(h.sub(lo)) && s.addGE(m.sub(h)) && s.addGE(cp.sub(m))
	}
	switch v := x.val(s, in.X).(type) {
	case *Str:
		ln := x.strLen(s, v)
		if !check(ln, ln) {
			return nil
		}
		h := hi
		if h == nil {
			h = ln
		}
		rl, rh := s.res(lo), s.res(h)
		if l, ok := v.lit(); ok && rl.isConst() && rh.isConst() {
			return []sv{{s, strLit(l[rl.c:rh.c])}}
		}
		if rl.isConst() && rl.c == 0 && rh.key() == ln.key() {
			return []sv{{s, v}}
		}
		if segs, ok := x.strSegs(s, v); ok {
			if sub, ok := x.rangeSegs(s, &Node{k: nArr, t: types.Typ[types.Uint8], segs: segs}, rl, rh); ok {
				return []sv{{s, x.segsToStr(s, sub, rh.sub(rl))}}
			}
		}
		nm := fmt.Sprintf("%s[%s:%s]", v.key(), rl.key(), rh.key())
		a := atomNamed("len<"+nm+">", 64, true)
		a.lo, a.hi = 0, 1<<40
		s.addEQ(la(a).sub(rh.sub(rl)))
		return []sv{{s, strSym(nm)}}
	case *Slice:
		if !check(v.len, v.cap) {
			return nil
		}
		h := hi
		if h == nil {
			h = v.len
		}
		cp := v.cap
		if mx != nil {
			cp = mx
		}
		nm := ""
		if v.nm != "" && s.decide(nilCond(v)) != 0 {
			nm = v.nm
		}
		return []sv{{s, &Slice{o: v.o, p: v.p, off: s.res(v.off.add(lo, 1)), len: s.res(h.sub(lo)), cap: s.res(cp.sub(lo)), el: v.el, nm: nm}}}
	case *Ptr:
		p := x.asPtr(s, in, v)
		if p == nil {
			return nil
		}
		at := derefType(in.X.Type()).Underlying().(*types.Array)
		ln := lc(at.Len())
		if !check(ln, ln) {
			return nil
		}
		h := hi
		if h == nil {
			h = ln
		}
		cp := ln
		if mx != nil {
			cp = mx
		}
		return []sv{{s, &Slice{o: p.o, p: p.p, off: s.res(lo), len: s.res(h.sub(lo)), cap: s.res(cp.sub(lo)), el: at.Elem()}}}
	}
	x.fail("slice of %s at %s", vkey(x.val(s, in.X)), x.pos(in))
	return []sv{{s, x.symVal(s, in.Type(), fresh("slice"), nil, "")}}
}

// ---------------------------------------------------------------------------
// Maps
// ---------------------------------------------------------------------------

// keyEq is the condition that two map keys are equal.
func (x *Exec) keyEq(s *State, t types.Type, a, b Value) *Cond {
	return x.equal(s, t, a, b)
}

func (x *Exec) mapNode(s *State, m *MapV) *Node {
	n := x.root(s, m.o)
	if n.k != nMap {
		return &Node{k: nMap, t: m.o.t, base: fresh("map")}
	}
	return n
}

type mapHit struct {
	s   *State
	ok  *Cond // present
	val *Node // value if present
}

func (x *Exec) mapGet(s *State, m *MapV, mt *types.Map, key Value) []mapHit {
	n := x.mapNode(s, m)
	// decide against all entries first: avoids useless partitions
	for i, e := range n.ents {
		c := x.keyEq(s, mt.Key(), e.key, key)
		switch s.decide(c) {
		case 1:
			if e.val == nil {
				return []mapHit{{s, cFalse, nil}}
			}
			return []mapHit{{s, cTrue, e.val}}
		case 0:
			continue
		}
		// split on equality
		var out []mapHit
		t := s.clone()
		if t.assume(c, true) {
			if e.val == nil {
				out = append(out, mapHit{t, cFalse, nil})
			} else {
				out = append(out, mapHit{t, cTrue, e.val})
			}
		}
		if s.assume(c, false) {
			rest := &Node{k: nMap, t: n.t, base: n.base, ents: n.ents[i+1:]}
			out = append(out, x.mapGetN(s, rest, mt, key)...)
		}
		return out
	}
	return x.mapGetN(s, &Node{k: nMap, t: n.t, base: n.base}, mt, key)
}

func (x *Exec) mapGetN(s *State, n *Node, mt *types.Map, key Value) []mapHit {
	for i, e := range n.ents {
		c := x.keyEq(s, mt.Key(), e.key, key)
		switch s.decide(c) {
		case 1:
			if e.val == nil {
				return []mapHit{{s, cFalse, nil}}
			}
			return []mapHit{{s, cTrue, e.val}}
		case 0:
			continue
		}
		var out []mapHit
		t := s.clone()
		if t.assume(c, true) {
			if e.val == nil {
				out = append(out, mapHit{t, cFalse, nil})
			} else {
				out = append(out, mapHit{t, cTrue, e.val})
			}
		}
		if s.assume(c, false) {
			out = append(out, x.mapGetN(s, &Node{k: nMap, t: n.t, base: n.base, ents: n.ents[i+1:]}, mt, key)...)
		}
		return out
	}
	if n.base == "" {
		return []mapHit{{s, cFalse, nil}}
	}
	k := vkey(x.canonKey(s, key))
	v := lazyNode(mt.Elem(), fmt.Sprintf("%s[%s]", n.base, k), nil)
	v.elem = typeName(n.t)
	return []mapHit{{s, ckey(fmt.Sprintf("in(%s,%s)", n.base, k)), v}}
}

// canonKey resolves known parts of a key.
func (x *Exec) canonKey(s *State, v Value) Value {
	switch v := v.(type) {
	case *Int:
		return s.resInt(v)
	case *Node:
		if st, ok := v.t.Underlying().(*types.Struct); ok {
			e := x.expand(s, v)
			r := &Node{k: nStruct, t: v.t}
			for i := 0; i < st.NumFields(); i++ {
				f := x.toVal(s, e.f[i])
				r.f = append(r.f, x.toNode(st.Field(i).Type(), x.canonKey(s, f)))
			}
			return r
		}
	}
	return v
}

func (x *Exec) lookup(s *State, in *ssa.Lookup) []sv {
	xv, key := x.val(s, in.X), x.val(s, in.Index)
	if st, ok := xv.(*Str); ok {
		return x.index(s, in, st, key, in.X.Type(), in.Type())
	}
	mt := in.X.Type().Underlying().(*types.Map)
	ret := func(t *State, v Value, ok *Cond) sv {
		if in.CommaOk {
			return sv{t, Tuple{v, ok}}
		}
		return sv{t, v}
	}
	m, ok := xv.(*MapV)
	if !ok {
		return []sv{ret(s, zeroVal(mt.Elem()), cFalse)}
	}
	x.mapAccess(s, in, m, false)
	var out []sv
	if m.o.sym {
		// a nil map is empty
		nc := nilCond(m)
		if d := s.decide(nc); d == 1 {
			return []sv{ret(s, zeroVal(mt.Elem()), cFalse)}
		}
	}
	for _, h := range x.mapGet(s, m, mt, key) {
		e := h.s
		switch e.decide(h.ok) {
		case 1:
			out = append(out, ret(e, x.toVal(e, h.val), cTrue))
		case 0:
			out = append(out, ret(e, zeroVal(mt.Elem()), cFalse))
		default:
			t := e.clone()
			if e.assume(h.ok, true) {
				out = append(out, ret(e, x.toVal(e, h.val), cTrue))
			}
			if t.assume(h.ok, false) {
				out = append(out, ret(t, zeroVal(mt.Elem()), cFalse))
			}
		}
	}
	return out
}

// mapAccess logs an access to the contents of a map held in a field.
func (x *Exec) mapAccess(s *State, in ssa.Instruction, m *MapV, write bool) {
	x.contentAccess(s, in, m.o, write)
}

// contentAccess logs an access to the elements of a map or slice under the
// fields that hold it.
func (x *Exec) contentAccess(s *State, in ssa.Instruction, o *Obj, write bool) {
	if x.quiet > 0 {
		return
	}
	for _, f := range x.holders(s, o) {
		f.Field += "[]"
		x.logAccess(s, in, f, o, write)
	}
}

// holders lists the struct fields of the module known to hold the map or
// backing array o.
func (x *Exec) holders(s *State, o *Obj) []Origin {
	if o.org != nil && o.org.Field != "" {
		if !strings.Contains(o.org.Type, modulePath) {
			return nil
		}
		return []Origin{*o.org}
	}
	if o.sym {
		return nil
	}
	var r []Origin
	var visit func(own *Obj, n *Node)
	visit = func(own *Obj, n *Node) {
		st, ok := n.t.Underlying().(*types.Struct)
		if n.k != nStruct || !ok || !strings.Contains(typeName(n.t), modulePath) {
			return
		}
		for i, f := range n.f {
			switch f.k {
			case nStruct:
				visit(own, f)
			case nLeaf:
				switch v := f.v.(type) {
				case *MapV:
					if v.o == o {
						r = append(r, Origin{Obj: own, Type: typeName(n.t), Field: st.Field(i).Name()})
					}
				case *Slice:
					if v.o == o {
						r = append(r, Origin{Obj: own, Type: typeName(n.t), Field: st.Field(i).Name()})
					}
				}
			}
		}
	}
	for _, own := range s.objs() {
		if n := s.heap[own]; n.k == nStruct {
			visit(own, n)
		}
	}
	return r
}

func (x *Exec) mapUpdate(s *State, in ssa.Instruction, mv, key Value, val *Node) []*State {
	m, ok := mv.(*MapV)
	if !ok {
		x.oblige(s, in, "nil map write", false, "write to nil map")
		return nil
	}
	if m.o.sym {
		if !x.nonNil(s, in, m, "map write") {
			return nil
		}
	} else {
		x.oblige(s, in, "nil map write", true, "")
	}
	x.mapAccess(s, in, m, true)
	mt := m.o.t.Underlying().(*types.Map)
	x.noteElem(s, typeName(m.o.t), mt.Elem(), x.toVal(s, val), in)
	if _, isI := mt.Elem().Underlying().(*types.Interface); !isI {
		e := s.ev("mapset", in)
		e.ch, e.args, e.node = m, []Value{x.canonKey(s, key)}, val
	}
	x.mapPut(s, m, key, val)
	return []*State{s}
}

func (x *Exec) mapPut(s *State, m *MapV, key Value, val *Node) {
	n := x.mapNode(s, m)
	key = x.canonKey(s, key)
	mt := m.o.t.Underlying().(*types.Map)
	ents := []MEnt{{key, val}}
	for _, e := range n.ents {
		if s.decide(x.keyEq(s, mt.Key(), e.key, key)) == 1 {
			continue
		}
		ents = append(ents, e)
	}
	s.setHeap(m.o, &Node{k: nMap, t: n.t, base: n.base, ents: ents})
	if m.o.sym {
		s.bumpEpoch(mapEpoch(m.o))
		for _, o := range s.objs() {
			if o != m.o && o.sym && isMapT(o.t) && types.Identical(o.t, m.o.t) && !sameOwnerDifferentField(o, m.o) {
				s.setHeap(o, &Node{k: nMap, t: o.t, base: fresh(o.name)})
			}
		}
	}
}

// sameOwnerDifferentField: maps held by different fields are different maps
// (the analysis checks that no map is stored into two fields).
func sameOwnerDifferentField(a, b *Obj) bool {
	if a.org == nil || b.org == nil {
		return false
	}
	return a.org.Type != b.org.Type || a.org.Field != b.org.Field
}

func (x *Exec) next(s *State, in *ssa.Next) []sv {
	it, ok := x.val(s, in.Iter).(*Iter)
	tt := in.Type().(*types.Tuple)
	if !ok {
		x.fail("next of non iterator at %s", x.pos(in))
		return []sv{{s, x.symVal(s, tt, fresh("next"), nil, "")}}
	}
	done := s.clone()
	doneTuple := Tuple{cFalse, zeroValT(tt.At(1).Type()), zeroValT(tt.At(2).Type())}
	if it.o == nil {
		// string or nil map
		if _, isnil := it.m.(NilV); isnil {
			return []sv{{done, doneTuple}}
		}
		nm := fresh("rune")
		return []sv{
			{s, Tuple{cTrue, intAtom(atomNamed(nm+".i", 64, true)), intAtom(atomNamed(nm, 32, true))}},
			{done, doneTuple},
		}
	}
	m := &MapV{o: it.o}
	x.mapAccess(s, in, m, false)
	mt := it.o.t.Underlying().(*types.Map)
	n := x.mapNode(s, m)
	if n.base == "" && len(n.ents) == 0 {
		return []sv{{done, doneTuple}}
	}
	if x.exactMaps && n.base == "" {
		return x.nextExact(s, in, it, n, mt, doneTuple)
	}
	k := fresh("key(" + it.o.name + ")")
	kv := x.symVal(s, mt.Key(), k, nil, "")
	nm := fresh("mapval")
	if len(n.ents) == 0 {
		ck := vkey(x.canonKey(s, kv))
		nm = fmt.Sprintf("%s[%s]", n.base, ck)
		s.own()
		s.F.op[fmt.Sprintf("in(%s,%s)", n.base, ck)] = true
	}
	val := lazyNode(mt.Elem(), nm, nil)
	val.elem = typeName(it.o.t)
	vv := x.toVal(s, val)
	e := s.ev("next", in)
	e.ch, e.args = m, []Value{kv, vv}
	de := done.ev("next-done", in)
	de.ch = m
	return []sv{{s, Tuple{cTrue, kv, vv}}, {done, doneTuple}}
}

// nextExact visits the entries of a known map, forward or backward.
func (x *Exec) nextExact(s *State, in *ssa.Next, it *Iter, n *Node, mt *types.Map, doneTuple Tuple) []sv {
	var left []MEnt
	for _, e := range n.ents {
		if e.val == nil {
			continue
		}
		seen := false
		for _, k := range it.did {
			if vkey(x.canonKey(s, k)) == vkey(x.canonKey(s, e.key)) {
				seen = true
			}
		}
		if !seen {
			left = append(left, e)
		}
	}
	m := &MapV{o: it.o}
	if len(left) == 0 {
		e := s.ev("next-done", in)
		e.ch = m
		return []sv{{s, doneTuple}}
	}
	if len(left) > 1 {
		switch s.dir {
		case 0:
			left = []MEnt{left[0], left[len(left)-1]}
		case 1:
			left = left[:1]
		default:
			left = left[len(left)-1:]
		}
	}
	var r []sv
	for i, e := range left {
		t := s
		if i < len(left)-1 {
			t = s.clone()
		}
		if len(left) > 1 {
			t.dir = i + 1
		}
		t.fr.env[in.Iter] = &Iter{m: it.m, o: it.o, nm: it.nm, did: append(append([]Value{}, it.did...), e.key)}
		v := x.toVal(t, e.val)
		ev := t.ev("next", in)
		ev.ch, ev.args = m, []Value{e.key, v}
		r = append(r, sv{t, Tuple{cTrue, e.key, v}})
	}
	return r
}

func zeroValT(t types.Type) Value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return NilV{}
	}
	return zeroVal(t)
}

// ---------------------------------------------------------------------------
// Interfaces
// ---------------------------------------------------------------------------

func (x *Exec) typeAssert(s *State, in *ssa.TypeAssert) []sv {
	v := x.val(s, in.X)
	ret := func(t *State, r Value, ok bool) sv {
		if in.CommaOk {
			return sv{t, Tuple{r, cBool(ok)}}
		}
		return sv{t, r}
	}
	zero := zeroVal(in.AssertedType)
	_, toIface := in.AssertedType.Underlying().(*types.Interface)
	match := func(dyn types.Type) bool {
		if toIface {
			return types.Implements(dyn, in.AssertedType.Underlying().(*types.Interface))
		}
		return types.Identical(dyn, in.AssertedType)
	}
	i, ok := v.(*Iface)
	if !ok || (i.dyn != nil && !match(i.dyn)) {
		if in.CommaOk {
			return []sv{ret(s, zero, false)}
		}
		x.oblige(s, in, "type assertion", false, "assertion to "+shortT(in.AssertedType)+" fails")
		return nil
	}
	if i.dyn != nil {
		if !in.CommaOk {
			x.oblige(s, in, "type assertion", true, "")
		}
		if toIface {
			return []sv{ret(s, i, true)}
		}
		return []sv{ret(s, i.v, true)}
	}
	c := ckey("dyn(" + i.nm + "," + typeName(in.AssertedType) + ")")
	d := s.decide(c)
	if s.decide(nilCond(i)) == 1 {
		d = 0
	}
	var out []sv
	if !in.CommaOk {
		x.oblige(s, in, "type assertion", d == 1, "assertion of "+i.nm+" to "+shortT(in.AssertedType)+" may fail")
	}
	if d != 0 {
		t := s.clone()
		if t.assume(c, true) && t.assume(nilCond(i), false) {
			if toIface {
				out = append(out, ret(t, i, true))
			} else {
				nm := i.nm + ".(" + shortT(in.AssertedType) + ")"
				r := x.symVal(t, in.AssertedType, nm, nil, "")
				if _, isp := r.(*Ptr); isp {
					t.assume(nilCond(r), false)
				}
				out = append(out, ret(t, r, true))
			}
		}
	}
	if d != 1 && in.CommaOk {
		if s.assume(c, false) {
			out = append(out, ret(s, zero, false))
		}
	}
	return out
}

// ---------------------------------------------------------------------------
// Channels
// ---------------------------------------------------------------------------

func (x *Exec) chanOp(s *State, in ssa.Instruction, ch Value) {}

func (x *Exec) blockPoint(s *State, in ssa.Instruction, e *Ev) {
	if x.quiet > 0 {
		return
	}
	k := fmt.Sprintf("%p|%s", in, x.entry)
	b := x.blocks[k]
	if b == nil {
		b = &BlockPoint{Instr: in, Fn: s.fr.fn, Entry: x.entry}
		x.blocks[k] = b
	}
	b.Evs = append(b.Evs, e)
}

func chanElem(t types.Type) types.Type { return t.Underlying().(*types.Chan).Elem() }

func (x *Exec) recvVal(s *State, ch Value, t types.Type) Value {
	nm := "recv"
	if c, ok := ch.(*ChanV); ok {
		nm = "recv(" + c.o.name + ")"
	}
	return x.symVal(s, t, fresh(nm), nil, "chan "+typeName(t))
}

func (x *Exec) selectStmt(s *State, in *ssa.Select) []sv {
	tt := in.Type().(*types.Tuple)
	var cases []SelCase
	for _, c := range in.States {
		sc := SelCase{ch: x.val(s, c.Chan), send: c.Dir == types.SendOnly, pos: c.Pos}
		if sc.send {
			sc.val = x.val(s, c.Send)
		}
		cases = append(cases, sc)
	}
	mk := func(t *State, idx int, rok *Cond, recv Value) Tuple {
		r := Tuple{mkInt(64, true, int64(idx)), rok}
		k := 0
		for i, c := range in.States {
			if c.Dir != types.RecvOnly {
				continue
			}
			et := tt.At(2 + k).Type()
			if i == idx {
				r = append(r, recv)
			} else {
				r = append(r, zeroVal(et))
			}
			k++
		}
		return r
	}
	// the wait itself
	probe := s.clone()
	pe := probe.ev("wait", in)
	pe.sel, pe.blk = cases, in.Blocking
	x.blockPoint(s, in, pe)
	var out []sv
	for i, c := range cases {
		if s.decide(nilCond(c.ch)) == 1 {
			continue
		}
		t := s.clone()
		e := t.ev("select", in)
		e.sel, e.idx, e.blk, e.ch = cases, i, in.Blocking, c.ch
		if c.send {
			t.publish(c.val)
			e.args = []Value{c.val}
			out = append(out, sv{t, mk(t, i, cFalse, nil)})
			continue
		}
		v := x.recvVal(t, c.ch, chanElem(in.States[i].Chan.Type()))
		e.res = v
		out = append(out, sv{t, mk(t, i, ckey(fresh("recvok")), v)})
	}
	if !in.Blocking {
		t := s.clone()
		e := t.ev("select", in)
		e.sel, e.idx = cases, -1
		out = append(out, sv{t, mk(t, -1, cFalse, nil)})
	}
	return out
}

func (x *Exec) unop(s *State, in *ssa.UnOp) []sv {
	v := x.val(s, in.X)
	switch in.Op {
	case token.MUL:
		p := x.asPtr(s, in, v)
		if p == nil {
			return nil
		}
		return []sv{{s, x.load(s, in, p)}}
	case token.NOT:
		return []sv{{s, cnot(asCond(v))}}
	case token.SUB:
		if i, ok := v.(*Int); ok {
			return x.arith(s, in, token.SUB, mkInt(i.w, i.sg, 0), i)
		}
		return []sv{{s, x.symVal(s, in.Type(), fresh("neg"), nil, "")}}
	case token.XOR:
		if i, ok := v.(*Int); ok {
			bs := s.resInt(i).vec()
			r := make([]Bit, len(bs))
			for k, b := range bs {
				r[k] = b.not()
			}
			return []sv{{s, s.resInt(&Int{w: i.w, sg: i.sg, bits: r})}}
		}
	case token.ARROW:
		e := s.ev("recv", in)
		e.ch, e.blk = v, true
		e.sel = []SelCase{{ch: v, pos: in.Pos()}}
		x.blockPoint(s, in, e)
		if s.decide(nilCond(v)) == 1 {
			return nil
		}
		r := x.recvVal(s, v, chanElem(in.X.Type()))
		e.res = r
		if in.CommaOk {
			return []sv{{s, Tuple{r, ckey(fresh("recvok"))}}}
		}
		return []sv{{s, r}}
	}
	return []sv{{s, x.symVal(s, in.Type(), fresh("unop"), nil, "")}}
}

// noteElem records an element put into a container.
func (x *Exec) noteElem(s *State, container string, et types.Type, v Value, in ssa.Instruction) {
	if x.quiet > 0 {
		return
	}
	if f, ok := v.(*Func); ok && f.fn != nil && inModule(f.fn) {
		x.escaped[f.fn] = f
	}
	switch et.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Interface, *types.Slice:
	default:
		return
	}
	if s.decide(nilCond(v)) != 0 && x.elemBad[container] == "" {
		x.elemBad[container] = fmt.Sprintf("%s (%s)", x.pos(in), vkey(v))
	}
}
