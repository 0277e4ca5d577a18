package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) callee(s *State, in ssa.Instruction, call *ssa.CallCommon) (Value, []Value) {
	var args []Value
	if call.IsInvoke() {
		args = append(args, x.val(s, call.Value))
		for _, a := range call.Args {
			args = append(args, x.val(s, a))
		}
		return &Func{blt: "invoke"}, args
	}
	for _, a := range call.Args {
		args = append(args, x.val(s, a))
	}
	return x.val(s, call.Value), args
}

func (x *Exec) call(s *State, in ssa.Instruction, call *ssa.CallCommon) []sv {
	fn, args := x.callee(s, in, call)
	var out []sv
	for _, o := range x.callValue(s, in, call, fn, args) {
		if o.pan {
			continue
		}
		out = append(out, sv{o.s, o.res})
	}
	return out
}

func one(s *State, v Value) []Out { return []Out{{s: s, res: v}} }

func (x *Exec) callValue(s *State, in ssa.Instruction, call *ssa.CallCommon, fn Value, args []Value) []Out {
	if call.IsInvoke() {
		return x.invoke(s, in, call, args)
	}
	f, ok := fn.(*Func)
	if !ok {
		x.oblige(s, in, "nil function call", false, "call of a nil function")
		return nil
	}
	if f.blt != "" {
		return x.builtin(s, in, call, f.blt, args)
	}
	if f.fn != nil {
		return x.callFn(s, in, f.fn, args, f.bind)
	}
	// unknown function value: user code
	if !x.nonNil(s, in, f, "function call") {
		return nil
	}
	e := s.ev("callback", in)
	e.ch, e.args, e.org = f, args, f.org
	e.name = typeName(call.Value.Type())
	s.publish(args...)
	x.userCode(s, call.Value.Type(), args)
	return one(s, x.resultSym(s, call.Signature().Results(), fresh("cb")))
}

// userCode forgets what a user supplied option may have changed.
func (x *Exec) userCode(s *State, t types.Type, args []Value) {
	for _, a := range args {
		p, ok := a.(*Ptr)
		if !ok {
			continue
		}
		for _, k := range x.optWrites[typeName(t)] {
			x.havocField(s, k, true)
		}
		_ = p
	}
}

// havocField forgets a struct field (Type.Field, or Type.Field[] for the
// contents of a map held in it) in every object others can see.
func (x *Exec) havocField(s *State, key string, private bool) {
	if strings.HasSuffix(key, "[]") {
		fk := strings.TrimSuffix(key, "[]")
		for _, o := range s.objs() {
			if o.org != nil && o.org.Type+"."+o.org.Field == fk && isMapT(o.t) {
				s.setHeap(o, &Node{k: nMap, t: o.t, base: fresh(o.name)})
			}
			// maps made on the path and stored in the field
		}
		for _, o := range s.objs() {
			if !o.arr {
				continue
			}
			for _, h := range x.holders(s, o) {
				if h.Type+"."+h.Field == fk {
					s.setHeap(o, x.havocNode(x.root(s, o), o.name))
					if o.sym {
						s.bumpEpoch(arrEpoch(o))
					}
					break
				}
			}
		}
		for _, o := range sortedObjs(x.mapsIn(s, fk)) {
			s.setHeap(o, &Node{k: nMap, t: o.t, base: fresh(o.name)})
		}
		s.bumpEpoch("map:" + fk)
		return
	}
	i := strings.LastIndex(key, ".")
	tn, fld := key[:i], key[i+1:]
	for _, o := range x.objsOfType(s, tn) {
		if !private && !o.sym && !o.glob && !s.isPub(o) {
			continue
		}
		n := x.root(s, o)
		st, ok := o.t.Underlying().(*types.Struct)
		if !ok {
			continue
		}
		e := x.expand(s, n)
		if e.k != nStruct {
			continue
		}
		for j := 0; j < st.NumFields(); j++ {
			if st.Field(j).Name() != fld {
				continue
			}
			m := &Node{k: nStruct, t: e.t, f: append([]*Node(nil), e.f...)}
			keep := x.stays[key] && s.decide(nilCond(x.toVal(s, e.f[j]))) == 0
			m.f[j] = lazyNode(st.Field(j).Type(), fresh(o.name+"."+fld), &Origin{Obj: o, Type: tn, Field: fld})
			s.setHeap(o, m)
			if keep {
				s.assume(nilCond(x.toVal(s, m.f[j])), false)
			}
		}
	}
	s.bumpEpoch(key)
}

func (x *Exec) objsOfType(s *State, tn string) []*Obj {
	var r []*Obj
	for o := range s.heap {
		if !o.arr && o.t != nil && typeName(o.t) == tn {
			r = append(r, o)
		}
	}
	sortObjs(r)
	return r
}

func sortObjs(r []*Obj) { sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id }) }

func sortedObjs[V any](m map[*Obj]V) []*Obj {
	r := make([]*Obj, 0, len(m))
	for o := range m {
		r = append(r, o)
	}
	sortObjs(r)
	return r
}

func (s *State) objs() []*Obj { return sortedObjs(s.heap) }

// mapsIn finds the maps currently stored in a field.
func (x *Exec) mapsIn(s *State, fk string) map[*Obj]bool {
	r := map[*Obj]bool{}
	i := strings.LastIndex(fk, ".")
	tn, fld := fk[:i], fk[i+1:]
	for _, o := range x.objsOfType(s, tn) {
		n := s.heap[o]
		st, ok := o.t.Underlying().(*types.Struct)
		if !ok || n.k != nStruct {
			continue
		}
		for j := 0; j < st.NumFields(); j++ {
			if st.Field(j).Name() == fld && n.f[j].k == nLeaf {
				if m, ok := n.f[j].v.(*MapV); ok {
					r[m.o] = true
				}
			}
		}
	}
	return r
}

func (x *Exec) resultSym(s *State, t *types.Tuple, nm string) Value {
	switch t.Len() {
	case 0:
		return Tuple{}
	case 1:
		return x.symVal(s, t.At(0).Type(), nm, nil, "")
	}
	var r Tuple
	for i := 0; i < t.Len(); i++ {
		r = append(r, x.symVal(s, t.At(i).Type(), fmt.Sprintf("%s.%d", nm, i), nil, ""))
	}
	return r
}

func (x *Exec) invoke(s *State, in ssa.Instruction, call *ssa.CallCommon, args []Value) []Out {
	m := call.Method
	i, ok := args[0].(*Iface)
	if !ok {
		x.oblige(s, in, "nil interface call", false, "method call on nil interface")
		return nil
	}
	if i.dyn != nil {
		x.oblige(s, in, "nil interface call", true, "")
		fn := x.prog.LookupMethod(i.dyn, m.Pkg(), m.Name())
		if fn == nil {
			x.fail("no method %s on %s", m.Name(), i.dyn)
			return one(s, x.resultSym(s, call.Signature().Results(), fresh("meth")))
		}
		return x.callFn(s, in, fn, append([]Value{i.v}, args[1:]...), nil)
	}
	if !x.nonNil(s, in, i, "interface call") {
		return nil
	}
	it := call.Value.Type()
	if isLoggerT(it) {
		return x.logCall(s, in, m.Name(), call.Signature())
	}
	tn := typeName(it)
	if strings.HasSuffix(tn, "/packet.ArtNetPacket") {
		return x.packetInvoke(s, in, call, i, m.Name(), args)
	}
	e := s.ev("ext", in)
	e.name, e.args = tn+"."+m.Name(), args
	return one(s, x.resultSym(s, call.Signature().Results(), fresh(m.Name()+"("+i.nm+")")))
}

func (x *Exec) packetInvoke(s *State, in ssa.Instruction, call *ssa.CallCommon, i *Iface, name string, args []Value) []Out {
	switch name {
	case "GetOpCode":
		return one(s, x.symVal(s, call.Signature().Results().At(0).Type(), "opcode("+i.nm+")", nil, ""))
	}
	e := s.ev("ext", in)
	e.name, e.args = "packet."+name, args
	return one(s, x.resultSym(s, call.Signature().Results(), fresh(name+"("+i.nm+")")))
}

func isLoggerT(t types.Type) bool {
	if p, ok := t.(*types.Pointer); ok {
		t = p.Elem()
	}
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	pp := n.Obj().Pkg().Path()
	if strings.HasSuffix(pp, "sirupsen/logrus") {
		return true
	}
	return pp == modulePath && strings.EqualFold(n.Obj().Name(), "logger")
}

func (x *Exec) logCall(s *State, in ssa.Instruction, name string, sig *types.Signature) []Out {
	if strings.HasPrefix(name, "Fatal") || strings.HasPrefix(name, "Panic") || name == "Exit" {
		x.oblige(s, in, "process exit", false, "call of "+name+" ends the process")
		return nil
	}
	r := x.resultSym(s, sig.Results(), fresh("log"))
	if c := nilCond(r); isPtrLike(r) {
		s.assume(c, false)
	}
	return one(s, r)
}

func recvNamed(fn *ssa.Function) string {
	r := fn.Signature.Recv()
	if r == nil {
		return ""
	}
	return typeName(r.Type())
}

func fnKey(fn *ssa.Function) string {
	if fn.Object() != nil {
		if f, ok := fn.Object().(*types.Func); ok {
			return f.FullName()
		}
	}
	return fn.String()
}

func inModule(fn *ssa.Function) bool {
	f := fn
	for f.Parent() != nil {
		f = f.Parent()
	}
	if f.Pkg != nil {
		return strings.HasPrefix(f.Pkg.Pkg.Path(), modulePath)
	}
	if f.Object() != nil && f.Object().Pkg() != nil {
		return strings.HasPrefix(f.Object().Pkg().Path(), modulePath)
	}
	return false
}

// pure standard library code that is analysed like the module's own
func inlineStd(fn *ssa.Function) bool {
	if fn.Blocks == nil || fn.Object() == nil || fn.Object().Pkg() == nil {
		return false
	}
	switch fn.Object().Pkg().Path() {
	case "math/bits":
		return true
	case "encoding/binary":
		r := recvNamed(fn)
		return strings.HasSuffix(r, "Endian")
	}
	return false
}

func (x *Exec) callFn(s *State, in ssa.Instruction, fn *ssa.Function, args, bind []Value) []Out {
	if r := fn.Signature.Recv(); r != nil && isLoggerT(r.Type()) {
		return x.logCall(s, in, fn.Name(), fn.Signature)
	}
	if fn.Signature.Recv() == nil && len(fn.FreeVars) == 0 && fn.Object() == nil && fn.Synthetic != "" && len(fn.Params) > 0 && isLoggerT(fn.Params[0].Type()) {
		return x.logCall(s, in, fn.Name(), fn.Signature)
	}
	key := fnKey(fn)
	if fn.Synthetic == "" || fn.Blocks == nil || !inModuleSynthetic(fn) {
		if m, ok := models[key]; ok {
			return m(&mcall{x: x, s: s, in: in, fn: fn, a: args})
		}
		if m, ok := x.cutModels[key]; ok {
			return m(&mcall{x: x, s: s, in: in, fn: fn, a: args})
		}
	}
	if fn.Blocks != nil && (inModule(fn) || fn.Synthetic != "" || inlineStd(fn)) {
		return x.runFn(s, fn, args, bind, in)
	}
	return x.external(s, in, fn, key, args)
}

// wrappers and bound methods of module types are entered, not modelled
func inModuleSynthetic(fn *ssa.Function) bool {
	return strings.Contains(fn.Synthetic, "wrapper") || strings.Contains(fn.Synthetic, "bound") || strings.Contains(fn.Synthetic, "thunk")
}

// external is the default model of code outside of the module.
func (x *Exec) external(s *State, in ssa.Instruction, fn *ssa.Function, key string, args []Value) []Out {
	e := s.ev("ext", in)
	e.name, e.args = key, args
	pkg := ""
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = fn.Object().Pkg().Path()
	}
	switch pkg {
	case "os":
		if fn.Name() == "Exit" {
			x.oblige(s, in, "process exit", false, "call of os.Exit")
			return nil
		}
	case "log":
		if strings.HasPrefix(fn.Name(), "Fatal") || strings.HasPrefix(fn.Name(), "Panic") {
			x.oblige(s, in, "process exit", false, "call of log."+fn.Name())
			return nil
		}
	}
	pure := map[string]bool{"fmt": true, "errors": true, "strings": true, "strconv": true, "log": true, "bytes": true, "net": true, "time": true, "math": true, "unicode": true, "unicode/utf8": true, "os": true, "context": true, "sync": true}
	if !pure[pkg] {
		for _, a := range args {
			x.havocReach(s, a)
		}
		x.note("unmodelled function " + key)
	}
	nm := key + "("
	for i, a := range args {
		if i > 0 {
			nm += ","
		}
		nm += vkey(a)
	}
	nm += ")"
	if !pure[pkg] || pkg == "time" || pkg == "net" || pkg == "os" {
		nm = fresh(key)
	}
	r := x.resultSym(s, fn.Signature.Results(), nm)
	if strings.HasSuffix(pkg, "sirupsen/logrus") && isPtrLike(r) {
		s.assume(nilCond(r), false)
	}
	return one(s, r)
}

func (x *Exec) note(n string) {
	if x.notes == nil {
		x.notes = map[string]bool{}
	}
	x.notes[n] = true
}

func (x *Exec) havocReach(s *State, v Value) {
	switch v := v.(type) {
	case *Ptr:
		n := x.getFrom(s, v.o, v.p)
		x.write(s, v, x.havocNode(n, v.o.name))
	case *Slice:
		if v.o == nilObj {
			return
		}
		if v.o.arr {
			s.setHeap(v.o, x.havocNode(x.root(s, v.o), v.o.name))
		} else {
			p := &Ptr{o: v.o, p: v.p}
			x.write(s, p, x.havocNode(x.getFrom(s, v.o, v.p), v.o.name))
		}
	case *MapV:
		s.setHeap(v.o, &Node{k: nMap, t: v.o.t, base: fresh(v.o.name)})
	case *Iface:
		if v.v != nil {
			x.havocReach(s, v.v)
		}
	}
}

// ---------------------------------------------------------------------------
// Builtins
// ---------------------------------------------------------------------------

func (x *Exec) lenOf(s *State, v Value) *Lin {
	switch v := v.(type) {
	case *Slice:
		return v.len
	case *Str:
		return x.strLen(s, v)
	case *MapV:
		n := x.mapNode(s, v)
		if n.base == "" && len(n.ents) == 0 {
			return lc(0)
		}
		if n.base == "" {
			all := true
			cnt := int64(0)
			for _, e := range n.ents {
				if e.val == nil {
					all = false
				}
				cnt++
			}
			if all {
				// entries may have equal keys
				a := atomNamed("maplen("+n.key()+")", 64, true)
				a.lo, a.hi = 1, cnt
				return la(a)
			}
		}
		a := atomNamed("maplen("+n.key()+")", 64, true)
		a.lo, a.hi = 0, 1<<40
		return la(a)
	case NilV:
		return lc(0)
	case *Node:
		if at, ok := v.t.Underlying().(*types.Array); ok {
			return lc(at.Len())
		}
	case *Ptr:
		if at, ok := v.t.Underlying().(*types.Array); ok {
			return lc(at.Len())
		}
	}
	a := atomNamed(fresh("len"), 64, true)
	a.lo, a.hi = 0, 1<<40
	return la(a)
}

func (x *Exec) builtin(s *State, in ssa.Instruction, call *ssa.CallCommon, name string, args []Value) []Out {
	switch name {
	case "len":
		return one(s, intLin(x.lenOf(s, args[0]), 64, true))
	case "cap":
		if sl, ok := args[0].(*Slice); ok {
			return one(s, intLin(sl.cap, 64, true))
		}
		return one(s, intLin(x.lenOf(s, args[0]), 64, true))
	case "append":
		return x.appendTo(s, in, args)
	case "copy":
		return x.copyTo(s, in, args)
	case "delete":
		m, ok := args[0].(*MapV)
		if !ok {
			return one(s, Tuple{})
		}
		x.mapAccess(s, in, m, true)
		e := s.ev("mapdel", in)
		e.ch, e.args = m, []Value{x.canonKey(s, args[1])}
		x.mapPut(s, m, args[1], nil)
		return one(s, Tuple{})
	case "close":
		if _, ok := args[0].(NilV); ok {
			x.oblige(s, in, "nil close", false, "close of nil channel")
			return nil
		}
		if !x.nonNil(s, in, args[0], "close") {
			return nil
		}
		e := s.ev("close", in)
		e.ch = args[0]
		return one(s, Tuple{})
	case "print", "println":
		return one(s, Tuple{})
	case "recover":
		return one(s, NilV{})
	case "ssa:wrapnilchk":
		p := x.asPtr(s, in, args[0])
		if p == nil {
			return nil
		}
		return one(s, p)
	case "min", "max":
		r := []sv{{s, args[0]}}
		for _, b := range args[1:] {
			var nx []sv
			for _, v := range r {
				ia, ok1 := v.v.(*Int)
				ib, ok2 := b.(*Int)
				if !ok1 || !ok2 {
					nx = append(nx, sv{v.s, x.symVal(v.s, call.Signature().Results().At(0).Type(), fresh(name), nil, "")})
					continue
				}
				c := &Cond{k: cLE, a: ia, b: ib}
				small, big := ia, ib
				if name == "max" {
					small, big = ib, ia
				}
				t := v.s.clone()
				if v.s.assume(c, true) {
					nx = append(nx, sv{v.s, small})
				}
				if t.assume(c, false) {
					nx = append(nx, sv{t, big})
				}
			}
			r = nx
		}
		var out []Out
		for _, v := range r {
			out = append(out, Out{s: v.s, res: v.v})
		}
		return out
	case "clear":
		switch v := args[0].(type) {
		case *MapV:
			x.mapAccess(s, in, v, true)
			e := s.ev("mapclear", in)
			e.ch = v
			s.setHeap(v.o, &Node{k: nMap, t: v.o.t})
			if v.o.sym {
				s.bumpEpoch(mapEpoch(v.o))
			}
		case *Slice:
			if v.o != nilObj {
				x.putRange(s, in, v, v.len, []Seg{{lo: lc(0), hi: v.len, k: nZero}})
			}
		}
		return one(s, Tuple{})
	}
	x.fail("unsupported builtin %s", name)
	return one(s, x.resultSym(s, call.Signature().Results(), fresh(name)))
}

// contentOf returns the elements of a slice or string, starting at 0.
func (x *Exec) contentOf(s *State, v Value) (segs []Seg, n *Lin, ok bool) {
	switch v := v.(type) {
	case *Str:
		segs, ok = x.strSegs(s, v)
		return segs, x.strLen(s, v), ok
	case *Slice:
		if v.o == nilObj {
			return nil, lc(0), true
		}
		a, _ := x.arrAt(s, v.o, v.p)
		n = s.res(v.len)
		segs, ok = x.rangeSegs(s, a, v.off, v.off.add(n, 1))
		return segs, n, ok
	case NilV:
		return nil, lc(0), true
	}
	return nil, nil, false
}

// putRange overwrites the first n elements of a slice.
func (x *Exec) putRange(s *State, in ssa.Instruction, dst *Slice, n *Lin, segs []Seg) {
	if dst.o == nilObj {
		return
	}
	p := &Ptr{o: dst.o, p: append(append([]Step(nil), dst.p...), Step{idx: dst.off}), t: dst.el}
	x.access(s, in, p, true)
	a, el := x.arrAt(s, dst.o, dst.p)
	ok := true
	r := a
	for _, g := range shiftSegs(s, segs, dst.off) {
		r, ok = x.putSeg(s, r, g)
		if !ok {
			break
		}
	}
	if !ok {
		r = x.havocNode(a, "arr")
		if isArrT(a.t) && isAgg(a.t) && !dst.o.arr {
			r = lazyNode(a.t, fresh("arr"), nil)
		}
	}
	_ = el
	if dst.o.sym || dst.o.glob || s.isPub(dst.o) {
		e := s.ev("store", in)
		e.ptr, e.node = &Ptr{o: dst.o, p: dst.p}, r
		e.old = a
	}
	if len(dst.p) == 0 && (dst.o.arr || !isArrT(dst.o.t)) {
		s.setHeap(dst.o, r)
		if dst.o.sym {
			x.invalidate(s, &Ptr{o: dst.o, p: []Step{{idx: dst.off}}})
			s.setHeap(dst.o, r)
		}
		return
	}
	x.write(s, &Ptr{o: dst.o, p: dst.p}, r)
}

func (x *Exec) copyTo(s *State, in ssa.Instruction, args []Value) []Out {
	dst, ok := args[0].(*Slice)
	if !ok {
		return one(s, mkInt(64, true, 0))
	}
	_, n, _ := x.contentOf(s, args[1])
	if n == nil {
		n = x.lenOf(s, args[1])
	}
	var out []Out
	do := func(t *State, k *Lin) {
		src := args[1]
		var segs []Seg
		good := false
		switch v := src.(type) {
		case *Slice:
			if v.o != nilObj {
				pr := &Ptr{o: v.o, p: append(append([]Step(nil), v.p...), Step{idx: v.off}), t: v.el}
				x.access(t, in, pr, false)
				a, _ := x.arrAt(t, v.o, v.p)
				segs, good = x.rangeSegs(t, a, v.off, v.off.add(k, 1))
			} else {
				good = true
			}
		default:
			all, _, ok := x.contentOf(t, src)
			if ok {
				segs, good = x.rangeSegs(t, &Node{k: nArr, t: dst.el, segs: all}, lc(0), k)
			}
		}
		if !good {
			segs = []Seg{{lo: lc(0), hi: k, k: nLazy, src: fresh("copy"), delta: lc(0)}}
		}
		x.putRange(t, in, dst, k, segs)
		out = append(out, Out{s: t, res: intLin(k, 64, true)})
	}
	d := s.res(dst.len.sub(n)) // >= 0: all of src fits
	if s.entails(d) {
		do(s, s.res(n))
		return out
	}
	if s.entails(d.scale(-1)) {
		do(s, s.res(dst.len))
		return out
	}
	do(s, la(minAtom(s, n, dst.len)))
	return out
}

// minAtom is the smaller of two lengths.
func minAtom(s *State, a, b *Lin) *Atom {
	a, b = s.res(a), s.res(b)
	ka, kb := a.key(), b.key()
	if ka > kb {
		ka, kb = kb, ka
	}
	m := atomNamed("min("+ka+","+kb+")", 64, true)
	alo, ahi := s.rng(a)
	blo, bhi := s.rng(b)
	if m.lo < 0 {
		m.lo = 0
	}
	s.restrict(m, min(alo, blo), min(ahi, bhi))
	s.addGE(a.sub(la(m)))
	s.addGE(b.sub(la(m)))
	mins[m.name] = [2]*Lin{a, b}
	return m
}

var mins = map[string][2]*Lin{}

// resolveMins decides minima whose arguments are ordered by now.
func (s *State) resolveMins() {
	var as []*Atom
	for a := range s.F.at {
		if _, ok := mins[a.name]; ok {
			as = append(as, a)
		}
	}
	sort.Slice(as, func(i, j int) bool { return as[i].name < as[j].name })
	for _, a := range as {
		d := mins[a.name]
		if s.entails(d[1].sub(d[0])) {
			s.addEQ(d[0].sub(la(a)))
		} else if s.entails(d[0].sub(d[1])) {
			s.addEQ(d[1].sub(la(a)))
		}
	}
}

func (x *Exec) appendTo(s *State, in ssa.Instruction, args []Value) []Out {
	dst, ok := args[0].(*Slice)
	if !ok {
		x.fail("append to %s", vkey(args[0]))
		return nil
	}
	el := dst.el
	segs, m, good := x.contentOf(s, args[1])
	if m == nil {
		m = x.lenOf(s, args[1])
	}
	m = s.res(m)
	if !good {
		segs = []Seg{{lo: lc(0), hi: m, k: nLazy, src: fresh("app"), delta: lc(0), elem: elemOfSlice(args[1])}}
	}
	if src, ok := args[1].(*Slice); ok && src.o != nilObj {
		pr := &Ptr{o: src.o, p: append(append([]Step(nil), src.p...), Step{idx: src.off}), t: el}
		x.access(s, in, pr, false)
	}
	x.noteElems(s, types.NewSlice(el), el, segs, in)
	ev := s.ev("append", in)
	ev.args = args
	n := s.res(dst.len)
	tot := s.res(n.add(m, 1))
	if m.isConst() && m.c == 0 {
		ev.res = dst
		return one(s, dst)
	}
	if dst.o != nilObj && s.entails(dst.cap.sub(tot)) {
		// in place
		d := &Slice{o: dst.o, p: dst.p, off: s.res(dst.off.add(n, 1)), len: m, cap: m, el: el}
		x.putRange(s, in, d, m, segs)
		r := &Slice{o: dst.o, p: dst.p, off: dst.off, len: tot, cap: dst.cap, el: el}
		ev.res = r
		return one(s, r)
	}
	old, _, ok0 := x.contentOf(s, dst)
	if dst.o != nilObj && !s.entailsEQ(dst.cap.sub(dst.len)) {
		// the old backing array may have been written
		es := ""
		if a, _ := x.arrAt(s, dst.o, dst.p); len(a.segs) > 0 {
			es = a.segs[0].elem
		}
		d := &Slice{o: dst.o, p: dst.p, off: s.res(dst.off.add(n, 1)), len: m, cap: m, el: el}
		x.putRange(s, in, d, m, []Seg{{lo: lc(0), hi: m, k: nLazy, src: fresh("old"), delta: lc(0), elem: es}})
	}
	o := newObj(el, in, "append []"+shortT(el))
	o.arr = true
	var all []Seg
	if ok0 {
		all = append(all, old...)
	} else {
		all = append(all, Seg{lo: lc(0), hi: n, k: nLazy, src: fresh("app"), delta: lc(0), elem: elemOfSlice(dst)})
	}
	all = append(all, shiftSegs(s, segs, n)...)
	s.setHeap(o, &Node{k: nArr, t: el, segs: mergeSegs(s, all)})
	cp := atomNamed(fresh("cap"), 64, true)
	cp.lo, cp.hi = 0, 1<<41
	s.addGE(la(cp).sub(tot))
	r := &Slice{o: o, off: lc(0), len: tot, cap: la(cp), el: el}
	ev.res = r
	return one(s, r)
}

func elemOfSlice(v Value) string {
	if s, ok := v.(*Slice); ok && s.o != nil {
		return s.o.elem
	}
	return ""
}

// noteElems records the elements put into a slice.
func (x *Exec) noteElems(s *State, ct, el types.Type, segs []Seg, in ssa.Instruction) {
	if x.quiet > 0 {
		return
	}
	switch el.Underlying().(type) {
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Interface, *types.Slice:
	default:
		return
	}
	cn := typeName(ct)
	for _, g := range segs {
		switch g.k {
		case nZero:
			if x.elemBad[cn] == "" {
				x.elemBad[cn] = x.pos(in) + " (nil)"
			}
		case nLazy:
			if !x.trustElem(g.elem) {
				if x.elemBad[cn] == "" {
					x.elemBad[cn] = fmt.Sprintf("%s (%s)", x.pos(in), g.src)
				}
			}
		default:
			x.noteElem(s, cn, el, x.toVal(s, g.node), in)
		}
	}
}
