package main

import (
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------------------
// C26
// ---------------------------------------------------------------------------

// decimal: a part of a text is the decimal rendering of a number.
func decimal(s *State, p SP, v *Int) bool {
	v = s.resInt(v)
	return p.lit == "" && p.seq == nil && p.nm == "%d:"+intLin(v.linear(), 64, true).key()
}

func propC26(r *Rep) {
	r.desc = "Address.Integer and Address.String are interpreted on an address of sixteen independent unknown bits: the number must be 256 times the net plus the sub-net/universe byte and the text must consist of the decimal renderings of the net, the high and the low nibble. The constructors of nodes and controllers are interpreted with unknown arguments: on every path, the configuration of the node must hold the very name, style and address given (StController for a controller), every other part of it zero. Every packet constructor must return an object it allocated itself (never shared with another call) whose payload is zero."
	x := r.p.newExec()
	sym := func() (*State, *Node, *Int, *Int) {
		s := x.entryState()
		t := r.p.root.Type("Address").Type()
		n := lazyNode(t, "address", nil)
		nt, _ := x.fieldOf(s, n, "Net")
		su, _ := x.fieldOf(s, n, "SubUni")
		if nt == nil || su == nil {
			return s, n, nil, nil
		}
		a, _ := x.toVal(s, nt).(*Int)
		b, _ := x.toVal(s, su).(*Int)
		return s, n, a, b
	}
	if r.p.root.Type("Address") == nil {
		r.check("universe number", false, "config.go", "no type Address")
		return
	}
	s, n, nt, su := sym()
	if !r.check("universe number", nt != nil && su != nil, "config.go Address", "an address has no net and sub-universe") {
		return
	}
	if fn := lookupFn(r.p.root, "Address.Integer"); r.check("universe number", fn != nil, "config.go", "no Address.Integer") {
		x.entry = "Address.Integer"
		for _, o := range x.runFn(s, fn, []Value{n}, nil, nil) {
			i, _ := o.res.(*Int)
			want := fromBits(bitsOf(su, 0, 8), bitsOf(nt, 0, 8))
			ok := !o.pan && i != nil
			if ok {
				v := i.vec()
				for k := range v {
					w := bit0
					if k < 16 {
						w = want.vec()[k]
					}
					if v[k] != w && !eqInts(o.s, fromBits([]Bit{v[k]}), fromBits([]Bit{w})) {
						ok = false
					}
				}
			}
			r.check("universe number", ok, r.fnPos(fn), "the number of an address is not 256*Net+SubUni")
		}
	}
	s, n, nt, su = sym()
	if fn := lookupFn(r.p.root, "Address.String"); r.check("universe text", fn != nil, "config.go", "no Address.String") {
		x.entry = "Address.String"
		for _, o := range x.runFn(s, fn, []Value{n}, nil, nil) {
			st, _ := o.res.(*Str)
			ok := !o.pan && st != nil && len(st.parts) == 5 && st.parts[1].lit == ":" && st.parts[3].lit == "." &&
				decimal(o.s, st.parts[0], nt) && decimal(o.s, st.parts[2], fromBits(bitsOf(su, 4, 8))) && decimal(o.s, st.parts[4], fromBits(bitsOf(su, 0, 4)))
			r.check("universe text", ok, r.fnPos(fn), "an address does not render as net:sub-net.universe but as %s", vkey(o.res))
		}
	}
	// packets
	var names []string
	for name := range r.p.pkt.Members {
		if strings.HasPrefix(name, "New") && strings.HasSuffix(name, "Packet") {
			names = append(names, name)
		}
	}
	sort.Strings(names)
	for _, name := range names {
		fn, ok := r.p.pkt.Members[name].(*ssa.Function)
		if !ok || len(fn.Params) != 0 {
			continue
		}
		s := x.entryState()
		x.entry = name
		outs := x.runFn(s, fn, nil, nil, nil)
		r.check("fresh packet", len(outs) > 0, r.fnPos(fn), "%s does not return", name)
		for _, o := range outs {
			p, _ := o.res.(*Ptr)
			if !r.check("fresh packet", !o.pan && p != nil && p.o != nilObj && !p.o.sym && !p.o.glob && p.o.instr != nil && !strings.HasPrefix(p.o.instr.Parent().Name(), "init"), r.fnPos(fn), "%s does not return a packet of its own", name) {
				continue
			}
			st, ok := p.t.Underlying().(*types.Struct)
			if !r.check("fresh packet", ok && strings.HasSuffix(typeName(p.t), "."+name[3:]), r.fnPos(fn), "%s returns a %s", name, typeName(p.t)) {
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				switch st.Field(i).Name() {
				case "Header", "ID", "OpCode", "Version":
					continue
				}
				v := x.getFrom(o.s, p.o, append(append([]Step{}, p.p...), Step{f: i}))
				r.check("fresh packet", x.normKey(o.s, v) == x.normKey(o.s, zeroNode(st.Field(i).Type())), r.fnPos(fn), "%s sets %s", name, st.Field(i).Name())
			}
		}
	}
	r.panics(x, "no panic")
	r.absorb(x)
	// nodes and controllers
	w0 := r.world()
	for _, typ := range []string{"Node", "Controller"} {
		w := newWorld(w0.p, w0.learn)
		w.parent = w0
		x := w.x
		ctor := r.p.rootFunc("New" + typ)
		if !r.check("constructor", ctor != nil, "New"+typ, "no constructor") {
			continue
		}
		s := x.entryState()
		x.entry = "New" + typ
		args := x.symArgs(s, ctor)
		w.assumeArgs(s, args)
		last := len(args) - 1
		sl, isSl := ctor.Params[last].Type().Underlying().(*types.Slice)
		if !r.check("constructor", isSl, r.fnPos(ctor), "New%s takes no options", typ) {
			continue
		}
		args[last] = nilSlice(sl.Elem())
		want := map[string]Value{"Type": mkInt(8, false, 1)}
		for i, p := range ctor.Params {
			switch {
			case typeName(p.Type()) == "net.IP":
				want["IP"] = args[i]
			case types.Identical(p.Type(), types.Typ[types.String]):
				want["Name"] = args[i]
			case strings.HasSuffix(typeName(p.Type()), ".StyleCode"):
				want["Type"] = args[i]
			}
		}
		outs := x.runFn(s, ctor, args, nil, nil)
		r.check("constructor", len(outs) > 0, r.fnPos(ctor), "New%s does not return", typ)
		for _, o := range outs {
			if o.pan {
				r.check("constructor", false, r.fnPos(ctor), "New%s panics", typ)
				continue
			}
			nodes := w.objsOf(o.s, typeName(w0.rootType("Node")))
			if !r.check("constructor", len(nodes) == 1 && !nodes[0].sym && !nodes[0].glob, r.fnPos(ctor), "New%s does not make exactly one node", typ) {
				continue
			}
			cfg, _ := x.field(o.s, &Ptr{o: nodes[0], t: nodes[0].t}, "Config")
			st, ok := cfg.t.Underlying().(*types.Struct)
			if !ok {
				r.check("constructor", false, r.fnPos(ctor), "the configuration is not a struct")
				continue
			}
			for i := 0; i < st.NumFields(); i++ {
				f := st.Field(i)
				n, _ := x.fieldOf(o.s, cfg, f.Name())
				same := false
				switch v := want[f.Name()].(type) {
				case nil:
					same = n != nil && x.normKey(o.s, n) == x.normKey(o.s, zeroNode(f.Type()))
				case *Slice:
					same = n != nil && x.sliceKey(o.s, x.toVal(o.s, n)) == x.sliceKey(o.s, v)
				case *Int:
					i, isI := x.toVal(o.s, n).(*Int)
					same = isI && eqInts(o.s, i, v)
				default:
					same = n != nil && vkey(x.toVal(o.s, n)) == vkey(v)
				}
				r.check("constructed configuration", same, r.fnPos(ctor), "the %s of a new %s is not what was asked for", f.Name(), typ)
			}
		}
		r.panics(x, "no panic")
		r.absorb(x)
	}
	r.atLeast("universe number", 3, "config.go")
	r.atLeast("universe text", 2, "config.go")
	r.atLeast("fresh packet", 40, "packet")
	r.atLeast("constructed configuration", 20, "node.go")
}
