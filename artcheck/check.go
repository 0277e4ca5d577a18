package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Rep collects the outcome of one property.
type Rep struct {
	tier  string
	only  map[string]bool // packet types, nil: all
	prop  string
	p     *Prog
	viol  map[string]string // message -> rule
	order []string
	obl   int // obligations decided
	ok    int
	rules map[string]int // rule -> instances
	funcs map[string]bool
	steps int
	notes map[string]bool
	desc  string
	trust []string
}

func newRep(prop string, p *Prog) *Rep {
	return &Rep{prop: prop, p: p, viol: map[string]string{}, rules: map[string]int{}, funcs: map[string]bool{}, notes: map[string]bool{}}
}

// check records the outcome of one obligation.
func (r *Rep) check(rule string, ok bool, where, format string, a ...any) bool {
	r.obl++
	r.rules[rule]++
	if ok {
		r.ok++
		return true
	}
	m := fmt.Sprintf("%s: %s: %s", where, rule, fmt.Sprintf(format, a...))
	if r.viol[m] == "" {
		r.viol[m] = rule
		r.order = append(r.order, m)
	}
	return false
}

// atLeast guards against a rule that found nothing to apply to.
func (r *Rep) atLeast(rule string, n int, where string) {
	if r.rules[rule] < n {
		r.check("instances", false, where, "rule %q applied to %d instances, expected at least %d: the construct it is about is missing", rule, r.rules[rule], n)
	}
}

// sub decides part of another property: the obligations under the rules that
// keep accepts count for this one.
func (r *Rep) sub(f func(*Rep), keep func(rule string) bool) {
	i, m := in, mins
	n := newRep(r.prop, r.p)
	f(n)
	in, mins = i, m
	r.steps += n.steps
	for f := range n.funcs {
		r.funcs[f] = true
	}
	for k := range n.notes {
		r.notes[k] = true
	}
	for rule, c := range n.rules {
		if keep(rule) {
			r.rules[rule] += c
			r.obl += c
			r.ok += c
		}
	}
	for _, m := range n.order {
		if keep(n.viol[m]) {
			r.ok--
			if r.viol[m] == "" {
				r.viol[m] = n.viol[m]
				r.order = append(r.order, m)
			}
		}
	}
}

// absorb takes over what an interpreter run covered; analysis failures count
// as undecided.
func (r *Rep) absorb(x *Exec) {
	r.steps += x.steps
	for f := range x.funcs {
		r.funcs[f.String()] = true
	}
	for n := range x.notes {
		if !strings.HasSuffix(n, ".init") {
			r.notes[n] = true
		}
	}
	for _, e := range sortedKeys(x.errs) {
		r.check("decidable", false, "analysis", "%s", e)
	}
}

func (r *Rep) fnPos(fn *ssa.Function) string {
	if fn == nil {
		return "?"
	}
	ps := r.p.fset.Position(fn.Pos())
	return fmt.Sprintf("%s:%d %s", relFile(ps.Filename), ps.Line, fn.Name())
}

// panics checks all recorded obligations against panics.
func (r *Rep) panics(x *Exec, rule string) {
	var ks []string
	for k := range x.obl {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool {
		a, b := x.obl[ks[i]], x.obl[ks[j]]
		pa, pb := x.pos(a.Instr), x.pos(b.Instr)
		if pa != pb {
			return pa < pb
		}
		return a.Kind < b.Kind
	})
	for _, k := range ks {
		o := x.obl[k]
		name := "?"
		if o.Fn != nil {
			name = o.Fn.Name()
		}
		r.check(rule, o.Bad == 0, x.pos(o.Instr)+" "+name, "%s possible: %s [%s]", o.Kind, o.Why, o.Stack)
	}
}

// ---------------------------------------------------------------------------
// Reading states
// ---------------------------------------------------------------------------

func (x *Exec) entryState() *State {
	s := x.start()
	s.fr = &Frame{env: map[ssa.Value]Value{}}
	return s
}

func structField(t types.Type, name string) (int, *types.Var) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i, st.Field(i)
		}
	}
	// promoted through embedded structs
	return -1, nil
}

// fieldPath resolves a (possibly promoted) field name to steps.
func fieldPath(t types.Type, name string) ([]Step, types.Type) {
	if i, f := structField(t, name); f != nil {
		return []Step{{f: i}}, f.Type()
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		if f.Embedded() {
			if p, ft := fieldPath(derefType(f.Type()), name); p != nil && derefType(f.Type()) == f.Type() {
				return append([]Step{{f: i}}, p...), ft
			}
		}
	}
	return nil, nil
}

// field reads a field of the object a pointer points to.
func (x *Exec) field(s *State, p *Ptr, name string) (*Node, types.Type) {
	st, ft := fieldPath(p.t, name)
	if st == nil {
		return nil, nil
	}
	return x.getFrom(s, p.o, append(append([]Step{}, p.p...), st...)), ft
}

func (x *Exec) fieldOf(s *State, n *Node, name string) (*Node, types.Type) {
	st, ft := fieldPath(n.t, name)
	if st == nil {
		return nil, nil
	}
	return x.get(s, n, st), ft
}

func (x *Exec) nodeInt(s *State, n *Node) *Int {
	if n == nil {
		return nil
	}
	v := x.toVal(s, n)
	i, _ := v.(*Int)
	return i
}

// elem reads an element of array content.
func (x *Exec) elem(s *State, n *Node, i *Lin, el types.Type) *Node {
	return x.elemAt(s, x.expandArr(s, n), i, el)
}

// byteOf reads an element of a slice.
func (x *Exec) byteOf(s *State, sl *Slice, i *Lin) *Int {
	a, el := x.arrAt(s, sl.o, sl.p)
	return x.nodeInt(s, x.elemAt(s, a, sl.off.add(i, 1), el))
}

func eqInts(s *State, a, b *Int) bool {
	if a == nil || b == nil {
		return false
	}
	if s.decide(&Cond{k: cEQ, a: a, b: b}) == 1 {
		return true
	}
	va, vb := a.vec(), b.vec()
	if len(va) != len(vb) {
		return false
	}
	for i := range va {
		p, q := s.resBit(va[i]), s.resBit(vb[i])
		if p.k == 3 || q.k == 3 || p != q {
			return false
		}
	}
	return true
}

func eqConst(s *State, a *Int, v int64) bool {
	if a == nil {
		return false
	}
	return s.decide(&Cond{k: cEQ, a: a, b: mkInt(a.w, a.sg, v)}) == 1
}

func cmpConst(a *Int, v int64) *Cond { return &Cond{k: cEQ, a: a, b: mkInt(a.w, a.sg, v)} }

// byteParts: byte k (0 = least significant) of an integer.
func intByte(a *Int, k int) *Int {
	v := a.vec()
	return &Int{w: 8, bits: append([]Bit(nil), v[8*k:8*k+8]...)}
}

func word(lo, hi *Int) *Int {
	return &Int{w: 16, bits: append(append([]Bit(nil), lo.vec()...), hi.vec()...)}
}

// ---------------------------------------------------------------------------
// Outcome
// ---------------------------------------------------------------------------

var verifDir = "/verif"

func (r *Rep) finish(tier string, seed int, start time.Time, level string) int {
	fixed, known := readFindings()
	_ = fixed
	exit := 0
	var viols, knownHits []string
	for _, v := range r.order {
		hit := ""
		for _, k := range known {
			if k.prop == r.prop && strings.Contains(v, k.what) {
				hit = k.what
			}
		}
		if hit != "" {
			knownHits = append(knownHits, hit)
			continue
		}
		viols = append(viols, v)
	}
	for _, k := range knownHits {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop, k)
	}
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(dir, 0o755)
	replay := filepath.Join(dir, r.prop+".violations.txt")
	os.Remove(replay)
	if len(viols) > 0 {
		exit = 1
		os.WriteFile(replay, []byte(strings.Join(viols, "\n")+"\n"), 0o644)
		for i, v := range viols {
			if i == 20 {
				fmt.Printf("... %d more in %s\n", len(viols)-20, replay)
				break
			}
			fmt.Println(v)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.prop, replay)
	}
	var rules []string
	for _, k := range sortedKeys(r.rules) {
		rules = append(rules, fmt.Sprintf("%s: %d", k, r.rules[k]))
	}
	cov := map[string]any{
		"explanation":        r.desc,
		"obligations":        r.obl,
		"discharged":         r.ok,
		"rules_applied":      rules,
		"functions_analysed": sortedKeys(r.funcs),
		"source_files":       r.p.files,
		"abstract_steps":     r.steps,
		"checker_cmd":        fmt.Sprintf("bash check.sh %s %s", r.prop, tier),
		"trusted_base":       []string{"go/types and golang.org/x/tools/go/ssa (front end)", "the transfer functions and library models of /verif/artcheck"},
	}
	if len(r.notes) > 0 {
		cov["library_functions_taken_as_opaque"] = sortedKeys(r.notes)
	}
	ev := map[string]any{
		"property": r.prop, "tier": tier, "seed": seed, "level": level, "coverage": cov,
		"wall_s":      time.Since(start).Seconds(),
		"assumptions": append([]string{"int arithmetic does not exceed 60 bits", "standard library functions behave as documented and do not panic on valid arguments"}, r.trust...),
		"violations":  len(viols),
	}
	b, _ := json.MarshalIndent(ev, "", "  ")
	os.WriteFile(filepath.Join(dir, r.prop+".json"), append(b, '\n'), 0o644)
	if exit == 0 {
		fmt.Printf("property %s: %d obligations, all discharged (%d functions)\n", r.prop, r.obl, len(r.funcs))
	}
	return exit
}

type finding struct{ prop, what string }

// readFindings reads known-findings.txt: lines
//
//	fixed: property=<id> <commit> <what failed>
//	known: property=<id> <text of the violation>
func readFindings() (fixed, known []finding) {
	b, err := os.ReadFile(filepath.Join(verifDir, "known-findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		kind, rest, ok := strings.Cut(l, ": property=")
		if !ok {
			continue
		}
		id, what, _ := strings.Cut(rest, " ")
		switch kind {
		case "fixed":
			fixed = append(fixed, finding{id, what})
		case "known":
			known = append(known, finding{id, what})
		}
	}
	return
}
