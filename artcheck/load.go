package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

var (
	repoDir    = "/repo"
	modulePath = "github.com/jsimonetti/go-artnet"
	traceExec  = os.Getenv("ARTCHECK_TRACE") != ""
)

// Prog is the loaded program.
type Prog struct {
	prog  *ssa.Program
	fset  *token.FileSet
	root  *ssa.Package
	pkt   *ssa.Package
	code  *ssa.Package
	ver   *ssa.Package
	mod   []*ssa.Package // packages of the module, dependencies first
	syn   map[*types.Package]*packages.Package
	consG map[*ssa.Global]bool
	files int
}

func loadProg() (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  repoDir,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off",
			"CGO_ENABLED=0", "GO111MODULE=on"),
		Tests: false,
	}
	pkgs, err := packages.Load(cfg, ".", "./packet/...", "./version/...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modulePath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("cannot load the program: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	p := &Prog{prog: prog, fset: prog.Fset, syn: map[*types.Package]*packages.Package{}}
	packages.Visit(pkgs, nil, func(q *packages.Package) {
		sp := prog.Package(q.Types)
		if sp == nil {
			return
		}
		p.syn[q.Types] = q
		switch {
		case strings.HasPrefix(q.PkgPath, modulePath):
			sp.Build()
			p.mod = append(p.mod, sp)
			p.files += len(q.Syntax)
		case q.PkgPath == "math/bits" || q.PkgPath == "encoding/binary" || q.PkgPath == "slices" || q.PkgPath == "maps" || q.PkgPath == "cmp":
			sp.Build()
		}
		switch q.PkgPath {
		case modulePath:
			p.root = sp
		case modulePath + "/packet":
			p.pkt = sp
		case modulePath + "/packet/code":
			p.code = sp
		case modulePath + "/version":
			p.ver = sp
		}
	})
	if p.root == nil || p.pkt == nil || p.code == nil {
		return nil, fmt.Errorf("packages of %s not found", modulePath)
	}
	p.findConstGlobals()
	return p, nil
}

// modFuncs lists all functions of the module, closures included.
func (p *Prog) modFuncs() []*ssa.Function {
	var r []*ssa.Function
	for fn := range ssautil.AllFunctions(p.prog) {
		if fn.Blocks != nil && inModule(fn) {
			r = append(r, fn)
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i].String() < r[j].String() })
	return r
}

// findConstGlobals: globals only written by package initialisers.
func (p *Prog) findConstGlobals() {
	p.consG = map[*ssa.Global]bool{}
	for _, m := range p.mod {
		for _, mem := range m.Members {
			if g, ok := mem.(*ssa.Global); ok {
				p.consG[g] = true
			}
		}
	}
	var pure func(v ssa.Value, depth int) bool // only read through
	pure = func(v ssa.Value, depth int) bool {
		if depth > 6 || v.Referrers() == nil {
			return false
		}
		for _, r := range *v.Referrers() {
			switch r := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				if !pure(r, depth+1) {
					return false
				}
			case *ssa.IndexAddr:
				if !pure(r, depth+1) {
					return false
				}
			case *ssa.Slice:
				if !pure(r, depth+1) {
					return false
				}
			case *ssa.Call:
				// passing a slice of it to a copy or comparison
				if b, ok := r.Call.Value.(*ssa.Builtin); ok && (b.Name() == "len" || b.Name() == "cap" || b.Name() == "copy" && r.Call.Args[0] != v || b.Name() == "append" && r.Call.Args[0] != v) {
					continue
				}
				if f := r.Call.StaticCallee(); f != nil {
					switch fnKey(f) {
					case "bytes.Equal", "(*net.UDPAddr).String", "bytes.HasPrefix":
						continue
					}
				}
				return false
			default:
				return false
			}
		}
		return true
	}
	for fn := range ssautil.AllFunctions(p.prog) {
		if !inModule(fn) || fn.Blocks == nil {
			continue
		}
		isInit := fn.Name() == "init" && fn.Synthetic != ""
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || !p.consG[g] || isInit {
						continue
					}
					switch i := in.(type) {
					case *ssa.UnOp, *ssa.DebugRef:
					case *ssa.FieldAddr:
						if !pure(i, 0) {
							p.consG[g] = false
						}
					case *ssa.IndexAddr:
						if !pure(i, 0) {
							p.consG[g] = false
						}
					case *ssa.Slice:
						if !pure(i, 0) {
							p.consG[g] = false
						}
					case *ssa.Call:
						ok := false
						if f := i.Call.StaticCallee(); f != nil {
							switch fnKey(f) {
							case "(*net.UDPAddr).String":
								ok = true
							}
						}
						if !ok {
							p.consG[g] = false
						}
					default:
						p.consG[g] = false
					}
				}
			}
		}
	}
}

// newExec prepares an interpreter; the package initialisers are evaluated.
func (p *Prog) newExec() *Exec {
	resetInterner()
	x := &Exec{prog: p.prog, fset: p.fset, info: map[*ssa.Function]*FnInfo{}, inv: newInvariants(), cut: map[string]bool{},
		obl: map[string]*Obligation{}, acc: map[string]*Access{}, blocks: map[string]*BlockPoint{}, errs: map[string]bool{},
		funcs: map[*ssa.Function]bool{}, budget: 40_000_000, quot: map[string]*quot{}, constGlobals: p.consG,
		globObj: map[*ssa.Global]*Obj{}, lockErrs: map[string]*LockErr{}, optWrites: map[string][]string{},
		cutModels: map[string]func(*mcall) []Out{}, notes: map[string]bool{}, guards: map[string][]string{}, lockOps: map[string]int{},
		order: map[string]*LockErr{}, escaped: map[*ssa.Function]*Func{}, elemBad: map[string]string{}, loops: map[string][]*LoopInfo{}}
	s := &State{F: newFacts(), heap: map[*Obj]*Node{}, epoch: map[string]int{}, pub: map[*Obj]bool{}, x: x}
	s.fr = &Frame{env: map[ssa.Value]Value{}}
	x.quiet++
	for _, m := range p.mod {
		fn := m.Func("init")
		if fn == nil || fn.Blocks == nil {
			continue
		}
		s = x.runInit(s, fn)
	}
	x.quiet--
	// keep the initial values of globals that never change, and what they
	// refer to
	x.base = s
	s.tr = nil
	s.fr = nil
	return x
}

// runInit evaluates a package initialiser: straight line code apart from the
// guard at its start.
func (x *Exec) runInit(s *State, fn *ssa.Function) *State {
	var guard *ssa.Global
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
				if g, ok := u.X.(*ssa.Global); ok && strings.HasPrefix(g.Name(), "init$guard") {
					guard = g
				}
			}
		}
	}
	if guard != nil {
		o := x.global(guard)
		s.setHeap(o, leaf(types.Typ[types.Bool], cFalse))
	}
	outs := x.runFn(s, fn, nil, nil, nil)
	for _, o := range outs {
		if !o.pan {
			return o.s
		}
	}
	x.quiet--
	x.fail("package initialiser %s could not be evaluated", fn.Pkg.Pkg.Path())
	x.quiet++
	return s
}

// start is a fresh state with the package variables initialised.
func (x *Exec) start() *State {
	s := &State{F: x.base.F, shared: true, heap: x.base.heap, hsh: true, epoch: x.base.epoch, pub: map[*Obj]bool{}, x: x}
	return s
}

// lookupFn finds a function or method by name ("Type.Method" or "Func").
func lookupFn(pk *ssa.Package, name string) *ssa.Function {
	if i := strings.Index(name, "."); i >= 0 {
		tn := pk.Type(name[:i])
		if tn == nil {
			return nil
		}
		for _, t := range []types.Type{tn.Type(), types.NewPointer(tn.Type())} {
			ms := pk.Prog.MethodSets.MethodSet(t)
			for k := 0; k < ms.Len(); k++ {
				if ms.At(k).Obj().Name() == name[i+1:] {
					return pk.Prog.MethodValue(ms.At(k))
				}
			}
		}
		return nil
	}
	return pk.Func(name)
}

func relFile(f string) string {
	if r, err := filepath.Rel(repoDir, f); err == nil && !strings.HasPrefix(r, "..") {
		return r
	}
	return f
}

func (p *Prog) posOf(n ast.Node) string {
	ps := p.fset.Position(n.Pos())
	return fmt.Sprintf("%s:%d", relFile(ps.Filename), ps.Line)
}
