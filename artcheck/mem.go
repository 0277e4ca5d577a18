package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// Values
// ---------------------------------------------------------------------------

// Value is one of *Int, *Cond, *Str, *Ptr, *Slice, *MapV, *ChanV, *Func,
// *Iface, *Node (aggregates), Tuple, *Iter, NilV.
type Value any

// Obj is an abstract memory object.
type Obj struct {
	id    int
	name  string
	t     types.Type // type of the content (array element type for backing arrays)
	sym   bool       // exists outside of the analysed path: may alias others, may be nil
	glob  bool
	nn    bool // an error value of a library, never nil
	instr ssa.Instruction
	org   *Origin
	elem  string // key of the container type it was read from
	arr   bool   // backing array of unknown length
}

type Step struct {
	f   int
	idx *Lin // index step if not nil
}

type Ptr struct {
	o *Obj
	p []Step
	t types.Type // pointee type
}

type NilV struct{}

type Slice struct {
	o   *Obj // memory holding the backing array
	p   []Step
	off *Lin
	len *Lin
	cap *Lin
	el  types.Type
	nm  string // name for nil tests of symbolic slices
}

type MapV struct {
	o *Obj
}

type ChanV struct {
	o *Obj
}

type Func struct {
	fn   *ssa.Function
	bind []Value
	nm   string // symbolic function
	org  *Origin
	blt  string
}

type Iface struct {
	dyn types.Type
	v   Value
	nm  string // symbolic
	org *Origin
	t   types.Type
	nn  bool // known not nil
}

type Tuple []Value

type Iter struct {
	m   Value
	o   *Obj
	str *Str
	nm  string
	did []Value // keys visited (exact iteration)
}

// Str is a string: a list of parts.
type Str struct {
	parts []SP
}

type SP struct {
	lit string
	nm  string // opaque
	// prefix of byte content: elements [lo,hi) of an array snapshot
	seq *Node
	lo  *Lin
	hi  *Lin
	cut bool    // up to the first NUL byte (or all of it)
	rn  bool    // every byte is written as a code point
	ip  []Value // the bytes of the IPv4 address it is the text of
}

func strLit(x string) *Str {
	if x == "" {
		return &Str{}
	}
	return &Str{parts: []SP{{lit: x}}}
}

func strSym(nm string) *Str { return &Str{parts: []SP{{nm: nm}}} }

func (x *Str) lit() (string, bool) {
	var b strings.Builder
	for _, p := range x.parts {
		if p.nm != "" || p.seq != nil {
			return "", false
		}
		b.WriteString(p.lit)
	}
	return b.String(), true
}

func strCat(a, b *Str) *Str {
	r := &Str{parts: append([]SP(nil), a.parts...)}
	for _, p := range b.parts {
		if n := len(r.parts); n > 0 && p.seq != nil && !p.cut && r.parts[n-1].seq != nil && !r.parts[n-1].cut &&
			p.rn == r.parts[n-1].rn && p.seq.key() == r.parts[n-1].seq.key() && p.lo.key() == r.parts[n-1].hi.key() {
			r.parts[n-1].hi = p.hi
			continue
		}
		if n := len(r.parts); n > 0 && p.nm == "" && p.seq == nil && r.parts[n-1].nm == "" && r.parts[n-1].seq == nil {
			r.parts[n-1].lit += p.lit
			continue
		}
		r.parts = append(r.parts, p)
	}
	return r
}

func (x *Str) key() string {
	var b strings.Builder
	b.WriteString("s")
	for _, p := range x.parts {
		switch {
		case p.nm != "":
			fmt.Fprintf(&b, "<%s>", p.nm)
		case p.seq != nil:
			fmt.Fprintf(&b, "<seq %s %s %s %v>", p.seq.key(), p.lo.key(), p.hi.key(), p.cut)
			if p.rn {
				b.WriteString("r")
			}
		default:
			fmt.Fprintf(&b, "%q", p.lit)
		}
	}
	return b.String()
}

func (p *Ptr) key() string { return "&" + p.o.name + pathKey(p.p) }

func pathKey(p []Step) string {
	var b strings.Builder
	for _, s := range p {
		if s.idx != nil {
			fmt.Fprintf(&b, "[%s]", s.idx.key())
		} else {
			fmt.Fprintf(&b, ".%d", s.f)
		}
	}
	return b.String()
}

func vkey(v Value) string {
	switch v := v.(type) {
	case nil:
		return "<none>"
	case *Int:
		return v.key()
	case *Cond:
		return "c" + v.String()
	case *Str:
		return v.key()
	case *Ptr:
		return v.key()
	case NilV:
		return "nil"
	case *Slice:
		return fmt.Sprintf("[%s%s %s %s]", v.o.name, pathKey(v.p), v.off.key(), v.len.key())
	case *MapV:
		return "map " + v.o.name
	case *ChanV:
		return "chan " + v.o.name
	case *Func:
		if v.fn != nil {
			s := "func " + v.fn.String()
			for _, b := range v.bind {
				s += "," + vkey(b)
			}
			return s
		}
		return "func " + v.nm + v.blt
	case *Iface:
		if v.dyn != nil {
			return "iface " + types.TypeString(v.dyn, nil) + " " + vkey(v.v)
		}
		return "iface " + v.nm
	case *Node:
		return v.key()
	case Tuple:
		var ss []string
		for _, x := range v {
			ss = append(ss, vkey(x))
		}
		return "(" + strings.Join(ss, ",") + ")"
	case *Iter:
		k := "iter " + v.nm
		for _, d := range v.did {
			k += " " + vkey(d)
		}
		return k
	}
	return fmt.Sprintf("?%T", v)
}

// ---------------------------------------------------------------------------
// Content trees
// ---------------------------------------------------------------------------

type NK int

const (
	nLeaf NK = iota
	nStruct
	nArr
	nLazy // symbolic, named
	nZero
	nMap
)

// Node is the (immutable) content of memory.
type Node struct {
	k    NK
	t    types.Type
	v    Value
	f    []*Node
	segs []Seg
	over []Over // array elements at indices of unknown order, newest first
	name string
	org  *Origin
	elem string // container key, for elements
	// maps
	base string // "" = empty, otherwise symbolic base name
	ents []MEnt // newest first
	ks   string
}

// Seg is the content of the elements [lo,hi) of an array.
type Seg struct {
	lo, hi *Lin
	k      NK     // nZero, nLazy (copy of a symbolic source), nLeaf (node at one index, or same for all)
	src    string // nLazy: element i is src[i+delta]
	delta  *Lin
	node   *Node // nLeaf: content of each element
	elem   string
}

type Over struct {
	idx  *Lin
	node *Node
}

type MEnt struct {
	key Value
	val *Node // nil: deleted
}

func (n *Node) key() string {
	if n == nil {
		return "_"
	}
	if n.ks != "" {
		return n.ks
	}
	var b strings.Builder
	switch n.k {
	case nLeaf:
		b.WriteString(vkey(n.v))
	case nZero:
		b.WriteString("0")
	case nLazy:
		b.WriteString("~" + n.name)
	case nStruct:
		b.WriteString("{")
		for _, f := range n.f {
			b.WriteString(f.key() + ";")
		}
		b.WriteString("}")
	case nArr:
		b.WriteString("[")
		for _, o := range n.over {
			b.WriteString("@" + o.idx.key() + "=" + o.node.key() + ";")
		}
		for _, s := range n.segs {
			b.WriteString(s.lo.key() + ".." + s.hi.key() + ":")
			switch s.k {
			case nZero:
				b.WriteString("0;")
			case nLazy:
				b.WriteString(s.src + "+" + s.delta.key() + ";")
			default:
				b.WriteString(s.node.key() + ";")
			}
		}
		b.WriteString("]")
	case nMap:
		b.WriteString("map<" + n.base + ">")
		for _, e := range n.ents {
			b.WriteString(vkey(e.key) + "=>")
			if e.val == nil {
				b.WriteString("X;")
			} else {
				b.WriteString(e.val.key() + ";")
			}
		}
	}
	n.ks = b.String()
	return n.ks
}

func leaf(t types.Type, v Value) *Node { return &Node{k: nLeaf, t: t, v: v} }

func zeroNode(t types.Type) *Node { return &Node{k: nZero, t: t} }

func lazyNode(t types.Type, name string, org *Origin) *Node {
	return &Node{k: nLazy, t: t, name: name, org: org}
}

func typeName(t types.Type) string {
	return types.TypeString(t, nil)
}

func isTime(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" && n.Obj().Name() == "Time"
}

func isAgg(t types.Type) bool {
	if isTime(t) {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func intType(t types.Type) (w int, sg bool, ok bool) {
	if isTime(t) {
		return 64, true, true
	}
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

// zeroVal is the zero value of a scalar type.
func zeroVal(t types.Type) Value {
	if w, sg, ok := intType(t); ok {
		return mkInt(w, sg, 0)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return cFalse
		case u.Info()&types.IsString != 0:
			return strLit("")
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return NilV{}
		default:
			return &Iface{nm: "float0", t: t} // floats are opaque
		}
	case *types.Slice:
		return nilSlice(u.Elem())
	case *types.Struct, *types.Array:
		return zeroNode(t)
	case *types.Tuple:
		return Tuple{}
	}
	return NilV{}
}

var nilObj = &Obj{name: "nil"}

func nilSlice(el types.Type) *Slice {
	return &Slice{o: nilObj, off: lc(0), len: lc(0), cap: lc(0), el: el}
}

// symVal is a symbolic value of type t called name.
func (x *Exec) symVal(s *State, t types.Type, name string, org *Origin, elem string) Value {
	if w, sg, ok := intType(t); ok {
		a := atomNamed(name, w, sg)
		if a.org == nil {
			a.org = org
			if org != nil {
				if iv := x.inv.ints[org.Type+"."+org.Field]; iv != nil {
					a.lo, a.hi = max(a.lo, iv.lo), min(a.hi, iv.hi)
				}
			}
		}
		return intAtom(a)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 {
			c := ckey("bool(" + name + ")")
			c.org = org
			return c
		}
		if u.Info()&types.IsString != 0 {
			return strSym(name)
		}
		return &Iface{nm: name, t: t, org: org}
	case *types.Pointer:
		o := symObj(name, u.Elem(), org, elem)
		x.noteNil(s, o.name, org, elem)
		return &Ptr{o: o, t: u.Elem()}
	case *types.Slice:
		o := symObj(name+"[]", u.Elem(), org, typeName(t))
		o.arr = true
		la1 := atomNamed("len("+name+")", 64, true)
		la1.lo, la1.hi = 0, 1<<40
		ca := atomNamed("cap("+name+")", 64, true)
		ca.lo, ca.hi = 0, 1<<41
		s.addGE(la(ca).sub(la(la1)))
		x.noteNil(s, name, org, elem)
		in.seqLen[name] = la(la1)
		return &Slice{o: o, off: lc(0), len: la(la1), cap: la(ca), el: u.Elem(), nm: name}
	case *types.Map:
		o := symObj(name, t, org, elem)
		x.noteNil(s, name, org, elem)
		return &MapV{o: o}
	case *types.Chan:
		o := symObj(name, t, org, elem)
		x.noteNil(s, name, org, elem)
		return &ChanV{o: o}
	case *types.Signature:
		x.noteNil(s, name, org, elem)
		return &Func{nm: name, org: org}
	case *types.Interface:
		x.noteNil(s, name, org, elem)
		return &Iface{nm: name, t: t, org: org}
	case *types.Tuple:
		var r Tuple
		for i := 0; i < u.Len(); i++ {
			r = append(r, x.symVal(s, u.At(i).Type(), fmt.Sprintf("%s.%d", name, i), nil, ""))
		}
		return r
	case *types.Struct, *types.Array:
		n := lazyNode(t, name, org)
		n.elem = elem
		return n
	}
	return &Iface{nm: name, t: t, org: org}
}

func symObj(name string, t types.Type, org *Origin, elem string) *Obj {
	if o, ok := in.objs[name]; ok {
		return o
	}
	in.nobj++
	o := &Obj{id: in.nobj, name: name, t: t, sym: true, org: org, elem: elem}
	in.objs[name] = o
	return o
}

func newObj(t types.Type, instr ssa.Instruction, what string) *Obj {
	in.nobj++
	return &Obj{id: in.nobj, name: fmt.Sprintf("%s!%d", what, in.nobj), t: t, instr: instr}
}

// trustElem: containers of this type hold no nil elements.
func (x *Exec) trustElem(elem string) bool {
	return elem != "" && (x.inv.elemNN[elem] || x.elemTrust && strings.Contains(elem, modulePath) && !x.nocand["elem "+elem])
}

// noteNil records a class invariant that makes the symbol non-nil.
func (x *Exec) noteNil(s *State, name string, org *Origin, elem string) {
	if org != nil && x.inv.nonnil[org.Type+"."+org.Field] || x.trustElem(elem) {
		k := "nil(" + name + ")"
		if _, ok := s.F.op[k]; !ok {
			s.own()
			s.F.op[k] = false
		}
	}
}

// nilCond is the condition "v is nil".
func nilCond(v Value) *Cond {
	switch v := v.(type) {
	case NilV:
		return cTrue
	case *Ptr:
		if !v.o.sym || len(v.p) > 0 {
			return cFalse
		}
		c := ckey("nil(" + v.o.name + ")")
		c.val = v
		return c
	case *Slice:
		if v.nm == "" {
			return cBool(v.o == nilObj)
		}
		c := ckey("nil(" + v.nm + ")")
		c.val = v
		return c
	case *MapV:
		if !v.o.sym {
			return cFalse
		}
		return ckey("nil(" + v.o.name + ")")
	case *ChanV:
		if !v.o.sym {
			return cFalse
		}
		return ckey("nil(" + v.o.name + ")")
	case *Func:
		if v.fn != nil || v.blt != "" {
			return cFalse
		}
		return ckey("nil(" + v.nm + ")")
	case *Iface:
		if v.dyn != nil || v.nn {
			return cFalse
		}
		return ckey("nil(" + v.nm + ")")
	}
	return ckey(fresh("nil?"))
}

// expand turns a lazy or zero aggregate into one with explicit parts.
func (x *Exec) expand(s *State, n *Node) *Node {
	if n.k != nLazy && n.k != nZero {
		return n
	}
	if !isAgg(n.t) {
		if n.k == nZero {
			return leaf(n.t, zeroVal(n.t))
		}
		if mt, ok := n.t.Underlying().(*types.Map); ok && mt == nil {
			return n
		}
		return leaf(n.t, x.symVal(s, n.t, n.name, n.org, n.elem))
	}
	switch u := n.t.Underlying().(type) {
	case *types.Struct:
		r := &Node{k: nStruct, t: n.t, f: make([]*Node, u.NumFields())}
		tn := typeName(n.t)
		for i := range r.f {
			f := u.Field(i)
			if n.k == nZero {
				r.f[i] = zeroNode(f.Type())
				continue
			}
			nm := n.name + "." + f.Name()
			if f.Name() == "_" {
				nm = fmt.Sprintf("%s._%d", n.name, i)
			}
			if e, ok := s.epoch[tn+"."+f.Name()]; ok {
				nm = fmt.Sprintf("%s~%d", nm, e)
			}
			var ob *Obj
			if n.org != nil {
				ob = n.org.Obj
			}
			r.f[i] = lazyNode(f.Type(), nm, &Origin{Obj: ob, Type: tn, Field: f.Name()})
		}
		return r
	case *types.Array:
		if n.k == nLazy {
			in.seqLen[n.name] = lc(u.Len())
		}
		return x.arrNode(n, lc(u.Len()), u.Elem())
	}
	return n
}

// arrNode builds the content of an array from a lazy/zero node.
func (x *Exec) arrNode(n *Node, ln *Lin, el types.Type) *Node {
	r := &Node{k: nArr, t: n.t}
	sg := Seg{lo: lc(0), hi: ln, k: n.k}
	if n.k == nLazy {
		sg.src = n.name
		sg.delta = lc(0)
		sg.elem = n.elem
	}
	if ln.isConst() && ln.c == 0 {
		return r
	}
	r.segs = []Seg{sg}
	return r
}

// root returns the content of o.
func (x *Exec) root(s *State, o *Obj) *Node {
	if n, ok := s.heap[o]; ok {
		return n
	}
	var n *Node
	switch {
	case o.arr:
		// backing array of a symbolic slice: the length is not represented
		src := strings.TrimSuffix(o.name, "[]")
		if e, ok := s.epoch[arrEpoch(o)]; ok {
			src = fmt.Sprintf("%s~%d", src, e)
		}
		n = &Node{k: nArr, t: o.t, segs: []Seg{{lo: lc(0), hi: lc(inf), k: nLazy, src: src, delta: lc(0), elem: o.elem}}}
	case isMapT(o.t) && o.sym:
		nm := o.name
		if e, ok := s.epoch[mapEpoch(o)]; ok {
			nm = fmt.Sprintf("%s~%d", nm, e)
		}
		n = &Node{k: nMap, t: o.t, base: nm}
	case o.sym && o.nn:
		n = leaf(o.t, &Iface{nm: o.name, t: o.t, nn: true})
	case o.sym:
		n = lazyNode(o.t, o.name, &Origin{Obj: o})
	default:
		n = zeroNode(o.t)
	}
	return n
}

func arrEpoch(o *Obj) string { return "arr:" + typeName(o.t) }

func mapEpoch(o *Obj) string {
	if o.org != nil && o.org.Field != "" {
		return "map:" + o.org.Type + "." + o.org.Field
	}
	return "map:" + typeName(o.t)
}

func isMapT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// elemAt reads element idx of an array node.
func (x *Exec) elemAt(s *State, n *Node, idx *Lin, el types.Type) *Node {
	idx = s.res(idx)
	for _, o := range n.over {
		d := o.idx.sub(idx)
		if s.entailsEQ(d) {
			return o.node
		}
		if !s.entailsNE(d) {
			return lazyNode(el, fresh("elem"), nil)
		}
	}
	for _, g := range n.segs {
		if s.entails(idx.sub(g.lo)) && s.entails(g.hi.sub(idx).plus(-1)) {
			return segElem(s, g, idx, el)
		}
	}
	// all segments agree?
	return lazyNode(el, fresh("elem"), nil)
}

func segElem(s *State, g Seg, idx *Lin, el types.Type) *Node {
	switch g.k {
	case nZero:
		return zeroNode(el)
	case nLazy:
		j := s.res(idx.add(g.delta, 1))
		n := lazyNode(el, fmt.Sprintf("%s[%s]", g.src, j.key()), nil)
		n.elem = g.elem
		in.elems[n.name] = elemRef{g.src, j}
		return n
	}
	return g.node
}

// get reads the content at a path.
func (x *Exec) get(s *State, n *Node, p []Step) *Node {
	for _, st := range p {
		if st.idx != nil {
			el := elemType(n.t)
			n = x.expandArr(s, n)
			n = x.elemAt(s, n, st.idx, el)
			continue
		}
		n = x.expand(s, n)
		if n.k != nStruct {
			return lazyNode(types.Typ[types.Int], fresh("bad"), nil)
		}
		n = n.f[st.f]
	}
	return n
}

func (x *Exec) expandArr(s *State, n *Node) *Node {
	if n.k == nArr {
		return n
	}
	return x.expand(s, n)
}

func elemType(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Array:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	}
	return t // backing objects carry the element type
}

func elemTypeOf(n *Node, o *Obj, p []Step) types.Type {
	return elemType(n.t)
}

// put returns n with the content at p replaced by v.
func (x *Exec) put(s *State, n *Node, p []Step, v *Node, backing bool) *Node {
	if len(p) == 0 {
		return v
	}
	st := p[0]
	if st.idx != nil {
		var el types.Type
		if backing {
			el = n.t
		} else {
			el = elemType(n.t)
		}
		a := x.expandArr(s, n)
		nv := v
		if len(p) > 1 {
			old := x.elemAt(s, a, st.idx, el)
			nv = x.put(s, old, p[1:], v, false)
		}
		return x.putElem(s, a, st.idx, nv)
	}
	e := x.expand(s, n)
	if e.k != nStruct {
		return n
	}
	r := &Node{k: nStruct, t: e.t, f: append([]*Node(nil), e.f...)}
	r.f[st.f] = x.put(s, e.f[st.f], p[1:], v, false)
	return r
}

func (x *Exec) putElem(s *State, a *Node, idx *Lin, v *Node) *Node {
	idx = s.res(idx)
	if len(a.over) == 0 {
		if r, ok := x.putSeg(s, a, elemSeg(idx, v)); ok {
			return r
		}
	}
	r := &Node{k: nArr, t: a.t, segs: a.segs}
	r.over = append([]Over{{idx, v}}, a.over...)
	return r
}

// elemSeg is a segment of one element, in normal form.
func elemSeg(idx *Lin, v *Node) Seg {
	g := Seg{lo: idx, hi: idx.plus(1), k: nLeaf, node: v}
	nm, el := "", v.elem
	switch {
	case v.k == nZero:
		g.k, g.node = nZero, nil
		return g
	case v.k == nLazy:
		nm = v.name
	case v.k == nLeaf:
		switch y := v.v.(type) {
		case *Int:
			if c, ok := y.konst(); ok {
				if c == 0 {
					g.k, g.node = nZero, nil
				}
				return g
			}
			if y.lin != nil && len(y.lin.t) == 1 && y.lin.c == 0 && y.lin.t[0].k == 1 && y.lin.t[0].a.w == y.w {
				nm = y.lin.t[0].a.name
			} else if y.lin == nil {
				if l := y.linear(); len(l.t) == 1 && l.c == 0 && l.t[0].k == 1 && l.t[0].a.w == y.w {
					nm = l.t[0].a.name
				}
			}
		case *Ptr:
			if y.o.sym && len(y.p) == 0 {
				nm = y.o.name
				if el == "" {
					el = y.o.elem
				}
			}
		}
	}
	if nm != "" {
		if e, ok := in.elems[nm]; ok {
			return Seg{lo: idx, hi: idx.plus(1), k: nLazy, src: e.src, delta: e.idx.sub(idx), elem: el}
		}
	}
	return g
}

// cutSegs splits the segments at b; ok is false if b cannot be placed.
func cutSegs(s *State, segs []Seg, b *Lin) ([]Seg, int, bool) {
	// returns segments and the index of the first segment starting at b
	for i, g := range segs {
		if s.entailsEQ(b.sub(g.lo)) {
			return segs, i, true
		}
		if s.entails(b.sub(g.hi)) {
			continue
		}
		if s.entails(b.sub(g.lo)) && s.entails(g.hi.sub(b)) {
			l, r := g, g
			l.hi, r.lo = b, b
			out := append([]Seg(nil), segs[:i]...)
			out = append(out, l, r)
			out = append(out, segs[i+1:]...)
			return out, i + 1, true
		}
		return nil, 0, false
	}
	return segs, len(segs), true
}

// putSeg overwrites a range of an array.
func (x *Exec) putSeg(s *State, a *Node, g Seg) (*Node, bool) {
	if len(a.over) > 0 {
		return nil, false
	}
	if s.entailsEQ(g.hi.sub(g.lo)) {
		return a, true
	}
	segs, i, ok := cutSegs(s, a.segs, g.lo)
	if !ok {
		return nil, false
	}
	segs, j, ok := cutSegs(s, segs, g.hi)
	if !ok || j < i {
		return nil, false
	}
	// recompute i: a cut after it does not move it
	out := append([]Seg(nil), segs[:i]...)
	out = append(out, g)
	out = append(out, segs[j:]...)
	return &Node{k: nArr, t: a.t, segs: mergeSegs(s, out)}, true
}

func mergeSegs(s *State, segs []Seg) []Seg {
	var out []Seg
	for _, g := range segs {
		if g.lo.key() == g.hi.key() {
			continue
		}
		if n := len(out); n > 0 {
			p := &out[n-1]
			if p.k == g.k && p.hi.key() == g.lo.key() {
				if g.k == nZero {
					p.hi = g.hi
					continue
				}
				if g.k == nLazy && g.src == p.src && g.delta.key() == p.delta.key() {
					p.hi = g.hi
					continue
				}
			}
		}
		out = append(out, g)
	}
	return out
}

// rangeSegs extracts the content of [lo,hi) shifted so that it starts at 0.
func (x *Exec) rangeSegs(s *State, a *Node, lo, hi *Lin) ([]Seg, bool) {
	if s.entailsEQ(hi.sub(lo)) {
		return nil, true
	}
	if len(a.over) > 0 {
		return nil, false
	}
	segs, i, ok := cutSegs(s, a.segs, lo)
	if !ok {
		return nil, false
	}
	segs, j, ok := cutSegs(s, segs, hi)
	if !ok || j < i {
		return nil, false
	}
	var out []Seg
	for _, g := range segs[i:j] {
		h := g
		h.lo, h.hi = s.res(g.lo.sub(lo)), s.res(g.hi.sub(lo))
		if g.k == nLazy {
			h.delta = s.res(g.delta.add(lo, 1))
		}
		out = append(out, h)
	}
	return out, true
}

func shiftSegs(s *State, segs []Seg, by *Lin) []Seg {
	var out []Seg
	for _, g := range segs {
		h := g
		h.lo, h.hi = s.res(g.lo.add(by, 1)), s.res(g.hi.add(by, 1))
		if g.k == nLazy {
			h.delta = s.res(g.delta.sub(by))
		}
		out = append(out, h)
	}
	return out
}

// arrAt returns the array node at (o,p) and its element type.
func (x *Exec) arrAt(s *State, o *Obj, p []Step) (*Node, types.Type) {
	n := x.root(s, o)
	if o.arr || len(p) == 0 && n.k == nArr && o.t != nil && !isArrT(o.t) {
		if len(p) == 0 {
			return n, o.t
		}
	}
	m := x.getFrom(s, o, p)
	el := elemType(m.t)
	return x.expandArr(s, m), el
}

func isArrT(t types.Type) bool {
	_, ok := t.Underlying().(*types.Array)
	return ok
}

// getFrom reads the content of o at p, keeping expansions in the heap.
func (x *Exec) getFrom(s *State, o *Obj, p []Step) *Node {
	n := x.root(s, o)
	if len(p) > 0 && n.k != nArr && n.k != nStruct {
		n = x.expand(s, n)
	}
	if o.arr || (n.k == nArr && !isArrT(o.t)) {
		if len(p) == 0 {
			return n
		}
		e := x.elemAt(s, n, p[0].idx, o.t)
		return x.get(s, e, p[1:])
	}
	return x.get(s, n, p)
}
