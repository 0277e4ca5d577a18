package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// A Scenario is a whole life of a node or controller up to its start,
// analysed with symbolic arguments: constructed, given options and started,
// with the goroutines that start launches.
type Scenario struct {
	w     *World
	typ   string
	opts  []string
	argOf map[string]Value // option -> its argument
	bind  Value            // IP given to the constructor
	runs  []*Entry         // the starts
	hand  map[int64]*Func  // callbacks the constructor registers
	set   []setResult      // what SetOption returned
	fail  string
}

type setResult struct {
	opt string
	s   *State
	res Value
}

func (p *Prog) rootFunc(name string) *ssa.Function { return p.root.Func(name) }

func (p *Prog) method(typ, name string) *ssa.Function {
	tn, ok := p.root.Pkg.Scope().Lookup(typ).(*types.TypeName)
	if !ok {
		return nil
	}
	o, _, _ := types.LookupFieldOrMethod(types.NewPointer(tn.Type()), true, p.root.Pkg, name)
	f, ok := o.(*types.Func)
	if !ok {
		return nil
	}
	return p.prog.FuncValue(f)
}

// live runs: New<typ>(…, options given at construction…), SetOption(later…),
// Start, and what Start launches.
func (w0 *World) live(typ string, opts, later []string) *Scenario {
	return w0.liveIf(typ, opts, later, nil)
}

// liveIf is live for option arguments that satisfy a condition.
func (w0 *World) liveIf(typ string, opts, later []string, cond func(s *State, opt string, arg Value) bool) *Scenario {
	w := newWorld(w0.p, w0.learn)
	w.parent = w0
	x := w.x
	sc := &Scenario{w: w, typ: typ, opts: append(append([]string{}, opts...), later...), argOf: map[string]Value{}, hand: map[int64]*Func{}}
	ctor, set, start := w.p.rootFunc("New"+typ), w.p.method(typ, "SetOption"), w.p.method(typ, "Start")
	if ctor == nil || set == nil || start == nil {
		sc.fail = "no constructor, SetOption or Start"
		return sc
	}
	states := []*State{x.entryState()}
	root := &ssa.Const{}
	// hold keeps values alive that the analysed code does not refer to
	hold := func(s *State, vs ...Value) {
		old, _ := s.fr.env[root].(Tuple)
		s.fr = &Frame{env: map[ssa.Value]Value{root: append(append(Tuple{}, old...), vs...)}}
	}
	fns := map[string]Value{}
	option := func(name string) {
		base, _, _ := strings.Cut(name, "@") // a second use of an option
		fn := w.p.rootFunc(base)
		if fn == nil || len(fn.Params) != 1 {
			sc.fail = "no option " + name
			return
		}
		var next []*State
		for _, s := range states {
			x.entry = name
			arg := x.symVal(s, fn.Params[0].Type(), "arg:"+name, nil, "")
			sc.argOf[name] = arg
			if cond != nil && !cond(s, name, arg) {
				continue
			}
			for _, o := range x.runFn(s, fn, []Value{arg}, nil, nil) {
				if _, ok := o.res.(*Func); !ok || o.pan || fns[name] != nil && vkey(fns[name]) != vkey(o.res) {
					sc.fail = "option " + name + " is not understood"
					return
				}
				fns[name] = o.res
				hold(o.s, o.res, arg)
				next = append(next, o.s)
			}
		}
		states = next
	}
	for _, n := range sc.opts {
		if fns[n] == nil && sc.fail == "" {
			option(n)
		}
	}
	if sc.fail != "" {
		return sc
	}
	type inst struct {
		s *State
		p Value
	}
	var made []inst
	for _, s := range states {
		x.entry = "New" + typ
		args := x.symArgs(s, ctor)
		w.assumeArgs(s, args)
		for i, p := range ctor.Params {
			if typeName(p.Type()) == "net.IP" {
				sc.bind = args[i]
			}
		}
		last := len(args) - 1
		el := ctor.Params[last].Type().Underlying().(*types.Slice).Elem()
		o := newObj(el, nil, "options")
		o.arr = true
		nd := &Node{k: nArr, t: el}
		for i, n := range opts {
			nd.segs = append(nd.segs, Seg{lo: lc(int64(i)), hi: lc(int64(i + 1)), k: nLeaf, node: leaf(el, fns[n])})
		}
		s.setHeap(o, nd)
		args[last] = &Slice{o: o, off: lc(0), len: lc(int64(len(opts))), cap: lc(int64(len(opts))), el: el}
		for _, u := range x.runFn(s, ctor, args, nil, nil) {
			if u.pan {
				continue
			}
			if cbf := w.callbackField(); cbf != "" {
				sc.handlers(u.s, cbf)
			}
			u.s.publish(u.res)
			hold(u.s, u.res)
			if p, ok := u.res.(*Ptr); ok && typ == "Node" {
				w.configure(u.s, p)
			}
			made = append(made, inst{u.s, u.res})
		}
	}
	for _, n := range later {
		var next []inst
		for _, m := range made {
			x.entry = "option " + n
			for _, u := range x.runFn(m.s, set, []Value{m.p, fns[n]}, nil, nil) {
				if !u.pan {
					sc.set = append(sc.set, setResult{n, u.s.clone(), u.res})
					next = append(next, inst{u.s, m.p})
				}
			}
		}
		made = next
	}
	x.gos = nil
	for i, m := range made {
		m.s.tr = nil
		e := &Entry{name: typ + ".Start", fn: start, kind: "api", recv: m.p, args: []Value{m.p}}
		if i > 0 {
			e.name = fmt.Sprintf("%s.Start%d", typ, i)
		}
		x.entry = typ + ".Start"
		e.pre = m.s.clone()
		e.outs = x.runFn(m.s, start, e.args, nil, nil)
		w.entries = append(w.entries, e)
		sc.runs = append(sc.runs, e)
	}
	for w.runGos() {
	}
	return sc
}

// handlers notes the callbacks a new node has.
func (sc *Scenario) handlers(s *State, cbf string) {
	x := sc.w.x
	nd := sc.w.rootType("Node")
	_, mft := fieldPath(nd, cbf)
	mt, ok := mft.Underlying().(*types.Map)
	if !ok {
		return
	}
	kw, ksg, _ := intType(mt.Key())
	for _, o := range sc.w.objsOf(s, typeName(nd)) {
		n, _ := x.field(s, &Ptr{o: o, t: o.t}, cbf)
		m, ok := x.toVal(s, n).(*MapV)
		if !ok {
			continue
		}
		for _, op := range []int64{opPoll, opPollReply} {
			for _, h := range x.mapGet(s.clone(), m, mt, mkInt(kw, ksg, op)) {
				f, ok := (*Func)(nil), false
				if h.val != nil && h.s.decide(h.ok) == 1 {
					f, ok = x.toVal(h.s, h.val).(*Func)
				}
				if !ok || f.fn == nil || sc.hand[op] != nil && vkey(sc.hand[op]) != vkey(f) {
					sc.fail = fmt.Sprintf("the callback of op code %#x is not known", op)
					continue
				}
				sc.hand[op] = f
			}
		}
	}
}

const opPoll, opPollReply = 0x2000, 0x2100

// started is a state after a successful start.
func (sc *Scenario) started() []*State {
	var r []*State
	for _, e := range sc.runs {
		for _, t := range sc.w.traces(e) {
			if t.loop == nil && !t.pan && t.end.decide(nilCond(t.res)) == 1 {
				s := t.end.clone()
				s.tr, s.locks = nil, nil
				r = append(r, s)
			}
		}
	}
	return r
}

// call runs a function of the node after its start.
func (sc *Scenario) call(name string, s *State, f *Func, args []Value) *Entry {
	x := sc.w.x
	s = s.clone()
	e := &Entry{name: name, fn: f.fn, kind: "callback", args: args}
	x.entry = name
	delete(x.loops, name)
	e.pre = s.clone()
	e.outs = x.runFn(s, f.fn, args, f.bind, nil)
	return e
}

// packetArg is a decoded packet of a type.
func (sc *Scenario) packetArg(s *State, f *Func, typ string) (*Iface, *Ptr) {
	x := sc.w.x
	tn, ok := sc.w.p.pkt.Pkg.Scope().Lookup(typ).(*types.TypeName)
	if !ok || len(f.fn.Params) == 0 {
		return nil, nil
	}
	pt := types.NewPointer(tn.Type())
	p := x.symVal(s, pt, "decoded "+typ, nil, "").(*Ptr)
	s.assume(nilCond(p), false)
	return &Iface{dyn: pt, v: p, t: f.fn.Params[len(f.fn.Params)-1].Type()}, p
}

// configure: the user completes the configuration of a node before its start.
func (w *World) configure(s *State, p *Ptr) {
	st, ft := fieldPath(p.t, "Config")
	if st == nil {
		return
	}
	cs, ok := ft.Underlying().(*types.Struct)
	if !ok {
		return
	}
	for i := 0; i < cs.NumFields(); i++ {
		f := cs.Field(i)
		switch f.Name() {
		case "Name", "IP", "Type":
			continue
		}
		q := &Ptr{o: p.o, p: append(append(append([]Step{}, p.p...), st...), Step{f: i}), t: f.Type()}
		n := lazyNode(f.Type(), "configured "+f.Name(), nil)
		if !isAgg(f.Type()) {
			n = leaf(f.Type(), w.x.symVal(s, f.Type(), "configured "+f.Name(), nil, ""))
		}
		w.x.write(s, q, n)
	}
}
