package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *Exec) symArgs(s *State, fn *ssa.Function) []Value {
	var args []Value
	for i, p := range fn.Params {
		nm := p.Name()
		if i == 0 && fn.Signature.Recv() != nil {
			nm = "recv:" + typeName(derefType(p.Type()))
		} else if nm == "" || nm == "_" {
			nm = fmt.Sprintf("arg%d", i)
		}
		v := x.symVal(s, p.Type(), nm, nil, "")
		if i == 0 && fn.Signature.Recv() != nil {
			s.assume(nilCond(v), false)
		}
		args = append(args, v)
	}
	return args
}

func debugRun(p *Prog, x *Exec, names []string) {
	for _, nm := range names {
		var fn *ssa.Function
		for _, pk := range []*ssa.Package{p.code, p.pkt, p.root, p.ver} {
			if fn = lookupFn(pk, nm); fn != nil {
				break
			}
		}
		if fn == nil {
			fmt.Println("no such function", nm)
			continue
		}
		s := x.start()
		s.fr = &Frame{env: map[ssa.Value]Value{}}
		x.entry = nm
		outs := x.runFn(s, fn, x.symArgs(s, fn), nil, nil)
		fmt.Printf("== %s: %d outs, steps %d\n", nm, len(outs), x.steps)
		for i, o := range outs {
			if i > 12 {
				break
			}
			fmt.Printf("-- out %d pan=%v res=%s\n", i, o.pan, vkey(o.res))
			dumpState(x, o.s)
		}
	}
	for _, o := range x.obl {
		if o.Bad > 0 {
			fmt.Printf("BAD %s %s: %s %s [%s]\n", x.pos(o.Instr), o.Fn.Name(), o.Kind, o.Why, o.Stack)
		}
	}
	for e := range x.errs {
		fmt.Println("ERR", e)
	}
	for n := range x.notes {
		if !strings.HasSuffix(n, ".init") {
			fmt.Println("NOTE", n)
		}
	}
	for _, l := range x.lockErrs {
		fmt.Println("LOCK", x.pos(l.Instr), l.What, l.Stack)
	}
}

func dumpState(x *Exec, s *State) {
	for _, e := range events(nil, s.tr) {
		fmt.Printf("   ev %s %s %s %s", e.k, x.pos(e.instr), e.name, e.str)
		for _, a := range e.args {
			fmt.Printf(" %s", clip(vkey(a), 120))
		}
		fmt.Println()
	}
	for a, f := range s.F.at {
		fmt.Printf("   at %s [%d,%d] k0=%x k1=%x set=%v\n", a.name, f.lo, f.hi, f.k0, f.k1, f.set != nil)
	}
	for _, l := range s.F.lin {
		fmt.Printf("   ge %s\n", l.key())
	}
	for k := range s.F.ne {
		fmt.Printf("   ne %s\n", k)
	}
	for k, v := range s.F.op {
		if _, ok := x.base.F.op[k]; ok {
			continue
		}
		fmt.Printf("   op %s=%v\n", k, v)
	}
	for o, n := range s.heap {
		if bn, ok := x.base.heap[o]; o.glob || n.k == nLazy || ok && bn == n {
			continue
		}
		fmt.Printf("   heap %s = %s\n", o.name, clip(n.key(), 600))
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

func debugC03(p *Prog) {
	r := newRep("x", p)
	for _, t := range packets {
		if t.typ != "ArtNzsPacket" {
			continue
		}
		c := genericRun(r, func(s *State, c *codecRun) { wellFormed(s, c, t); dumpState(c.x, s) })
		for _, o := range c.outs {
			fmt.Println("out", vkey(o.res))
			dumpState(c.x, o.s)
		}
	}
}

func debugWorld(p *Prog, names []string) {
	w := analyseRoot(p)
	x := w.x
	if len(names) > 0 {
		for _, nm := range names {
			for _, e := range w.entriesOf(nm) {
				w.dump(e)
			}
		}
		return
	}
	for _, e := range w.entries {
		fmt.Printf("entry %-60s %-8s outs %d\n", e.name, e.kind, len(e.outs))
	}
	for _, k := range sortedKeys(x.inv.nonnil) {
		fmt.Println("nonnil", short(k))
	}
	for _, k := range sortedKeys(x.stays) {
		if x.stays[k] {
			fmt.Println("stays", short(k))
		}
	}
	for _, k := range sortedKeys(w.learn.nocand) {
		fmt.Println("refuted", short(k))
	}
	for k, v := range x.elemBad {
		fmt.Println("elembad", short(k), short(v))
	}
	for k, v := range x.inv.ints {
		fmt.Println("int", short(k), *v)
	}
	for k, v := range w.learn.guards {
		fmt.Println("guard", short(k), short(strings.Join(v, " ")))
	}
	for k, v := range w.learn.mutable {
		fmt.Println("mutable", short(k), sortedKeys(v))
	}
	for k, v := range w.learn.opt {
		fmt.Println("opt", short(k), short(strings.Join(v, " ")))
	}
	for _, o := range x.obl {
		if o.Bad > 0 {
			fmt.Printf("BAD %s %s: %s %s [%s]\n", x.pos(o.Instr), o.Fn.Name(), o.Kind, short(o.Why), o.Stack)
		}
	}
	for e := range x.errs {
		fmt.Println("ERR", e)
	}
	for _, e := range x.lockErrs {
		fmt.Println("LOCK", x.pos(e.Instr), short(e.What), e.Stack)
	}
	for k := range x.order {
		fmt.Println("ORDER", short(k))
	}
}
