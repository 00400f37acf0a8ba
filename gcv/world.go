package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type World struct {
	prog     *ssa.Program
	pkgs     []*packages.Package
	specs    *Specs
	solver   *Solver
	mu       sync.Mutex
	loops    map[*ssa.Function]loopInfo
	fns      map[string]*ssa.Function
	typeIdx  map[string]types.Type
	constIdx map[string]Val
	globIdx  map[string]*ssa.Global
	globRef  map[*ssa.Global]int
	globMut  map[*ssa.Global]bool
	globInit map[*ssa.Global]ssa.Value
	modPkgs  map[*types.Package]bool
}

func Load(dir string, specDir string, overlay map[string][]byte) (*World, error) {
	cfg := &packages.Config{Dir: dir, Mode: packages.LoadSyntax | packages.NeedModule, Overlay: overlay,
		Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "PATH=/opt/veriftools/go1.24.13/bin:"+os.Getenv("PATH"))}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("loading %s: %s", dir, strings.Join(errs, "; "))
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	w := &World{prog: prog, pkgs: pkgs, solver: NewSolver(), loops: map[*ssa.Function]loopInfo{}, fns: map[string]*ssa.Function{}, typeIdx: map[string]types.Type{},
		constIdx: map[string]Val{}, globIdx: map[string]*ssa.Global{}, globRef: map[*ssa.Global]int{}, globMut: map[*ssa.Global]bool{}, globInit: map[*ssa.Global]ssa.Value{}, modPkgs: map[*types.Package]bool{}}
	for _, p := range sp {
		if p != nil {
			w.modPkgs[p.Pkg] = true
		}
	}
	// types and constants of all packages; module packages win
	all := prog.AllPackages()
	sort.Slice(all, func(i, j int) bool {
		mi, mj := w.modPkgs[all[i].Pkg], w.modPkgs[all[j].Pkg]
		if mi != mj {
			return mi
		}
		pi, pj := all[i].Pkg.Path(), all[j].Pkg.Path()
		if len(pi) != len(pj) {
			return len(pi) < len(pj)
		}
		return pi < pj
	})
	alias := map[string]string{"github.com/google/certificate-transparency-go/x509": "ctx509", "github.com/google/certificate-transparency-go": "ct", "github.com/google/certificate-transparency-go/x509/pkix": "ctpkix", "github.com/google/certificate-transparency-go/asn1": "ctasn1"}
	for _, p := range all {
		sc := p.Pkg.Scope()
		for _, n := range sc.Names() {
			o := sc.Lookup(n)
			keys := []string{p.Pkg.Name() + "." + n, p.Pkg.Path() + "." + n}
			if a, ok := alias[p.Pkg.Path()]; ok {
				keys = append(keys, a+"."+n)
			}
			for _, k := range keys {
				switch o := o.(type) {
				case *types.TypeName:
					if _, ok := w.typeIdx[k]; !ok {
						w.typeIdx[k] = o.Type()
					}
				case *types.Const:
					if _, ok := w.constIdx[k]; !ok {
						if o.Val().Kind() != constant.Float && o.Val().Kind() != constant.Complex {
							w.constIdx[k] = constVal(ssa.NewConst(o.Val(), o.Type()))
						}
					}
				}
			}
		}
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				k := p.Pkg.Name() + "." + g.Name()
				if _, ok := w.globIdx[k]; !ok {
					w.globIdx[k] = g
				}
			}
		}
	}
	var gl []*ssa.Global
	for fn := range ssautil.AllFunctions(prog) {
		if w.inModule(fn) {
			w.fns[shortFn(fn)] = fn
			w.scanGlobals(fn)
		}
	}
	for _, p := range all {
		for _, m := range p.Members {
			if g, ok := m.(*ssa.Global); ok {
				gl = append(gl, g)
			}
		}
	}
	sort.Slice(gl, func(i, j int) bool { return gl[i].String() < gl[j].String() })
	for i, g := range gl {
		w.globRef[g] = i + 1
	}
	specs, err := LoadSpecs(specDir)
	if err != nil {
		return nil, err
	}
	w.specs = specs
	return w, w.buildTheory()
}

func (w *World) inModule(fn *ssa.Function) bool {
	if fn.Pkg != nil {
		return w.modPkgs[fn.Pkg.Pkg]
	}
	if fn.Parent() != nil {
		return w.inModule(fn.Parent())
	}
	if o := fn.Origin(); o != nil && o != fn {
		return w.inModule(o)
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return w.modPkgs[o.Pkg()]
	}
	return false
}

func (w *World) scanGlobals(fn *ssa.Function) {
	isInit := fn.Name() == "init" || strings.HasPrefix(fn.Name(), "init#")
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if s, ok := ins.(*ssa.Store); ok {
				if g, ok := s.Addr.(*ssa.Global); ok {
					if isInit && fn.Synthetic != "" {
						w.globInit[g] = s.Val
					} else {
						w.globMut[g] = true
					}
					if v, ok := s.Val.(*ssa.Global); ok {
						w.globMut[v] = true
					}
					continue
				}
			}
			if u, ok := ins.(*ssa.UnOp); ok && u.Op == token.MUL {
				if _, ok := u.X.(*ssa.Global); ok {
					continue
				}
			}
			var ops []*ssa.Value
			for _, o := range ins.Operands(ops) {
				if *o == nil {
					continue
				}
				if g, ok := (*o).(*ssa.Global); ok {
					w.globMut[g] = true
				}
			}
		}
	}
}

func (w *World) loopsOf(fn *ssa.Function) loopInfo {
	w.mu.Lock()
	defer w.mu.Unlock()
	l, ok := w.loops[fn]
	if !ok {
		l = findLoops(fn)
		w.loops[fn] = l
	}
	return l
}

func (w *World) globalPtr(st *State, g *ssa.Global) Val {
	return Val{T: g.Type(), L: []*Term{IntC(int64(w.globRef[g]))}}
}

func globName(g *ssa.Global) string { return shortKey(g.Pkg.Pkg.Path() + "." + g.Name()) }

// globalConst is the value of a package variable that is never written after initialisation.
func (w *World) globalConst(st *State, g *ssa.Global) (Val, bool) {
	if w.globMut[g] {
		return Val{}, false
	}
	t := deref(g.Type())
	if init, ok := w.globInit[g]; ok {
		if v, ok := w.litVal(init, 0); ok {
			v.T = t
			if len(v.L) == len(leaves(t)) {
				if !st.axd["g:"+g.String()] {
					st.axd["g:"+g.String()] = true
					if len(v.L) == 1 && v.L[0].kind != KInt {
						if leaves(t)[0].Ref {
							st.assume(Gt(v.L[0], IntC(0)), Le(v.L[0], st.allocBound()))
						}
					}
				}
				return v, true
			}
		}
	}
	v := Val{T: t}
	for _, l := range leaves(t) {
		v.L = append(v.L, Sym("glob:"+globName(g)+l.Path, l.Sort))
	}
	key := "g:" + g.String()
	if !st.axd[key] {
		st.axd[key] = true
		st.valFacts(v)
		if len(v.L) == 1 {
			_, hasInit := w.globInit[g]
			if v.L[0].sort == SIface && (hasInit || !w.modPkgs[g.Pkg.Pkg]) {
				st.assume(Neq(v.L[0], NilIface))
			}
			if leaves(t)[0].Ref && hasInit {
				st.assume(Gt(v.L[0], IntC(0)))
			}
		}
	}
	return v, true
}

// litVal interprets constant initialisers.
func (w *World) litVal(v ssa.Value, depth int) (Val, bool) {
	if depth > 4 {
		return Val{}, false
	}
	switch c := v.(type) {
	case *ssa.Const:
		return constVal(c), true
	case *ssa.ChangeType:
		return w.litVal(c.X, depth+1)
	case *ssa.Convert:
		if isByteSlice(c.Type()) {
			return Val{}, false
		}
		r, ok := w.litVal(c.X, depth+1)
		if ok && len(r.L) == 1 && len(leaves(c.Type())) == 1 && leaves(c.Type())[0].Sort == r.L[0].sort {
			r.T = c.Type()
			return r, true
		}
	case *ssa.Call:
		fn := c.Call.StaticCallee()
		if fn == nil || fn.Name() == "New" && fn.Pkg != nil && fn.Pkg.Pkg.Path() == "errors" {
			return Val{}, false
		}
		ls := leaves(c.Type())
		if len(ls) != 1 || fn.Signature.Variadic() || w.inModule(fn) {
			return Val{}, false
		}
		var as []*Term
		for _, a := range c.Call.Args {
			r, ok := w.litVal(a, depth+1)
			if !ok {
				return Val{}, false
			}
			as = append(as, r.L...)
		}
		return Val{T: c.Type(), L: []*Term{UF("lit:"+fnKey(fn), ls[0].Sort, as...)}}, true
	case *ssa.Slice:
		al, ok := c.X.(*ssa.Alloc)
		if !ok || c.Low != nil || c.High != nil {
			return Val{}, false
		}
		arr, ok := deref(al.Type()).Underlying().(*types.Array)
		if !ok || len(leaves(arr.Elem())) != 1 || leaves(arr.Elem())[0].Sort != SInt || isByte(arr.Elem()) {
			return Val{}, false
		}
		as := make([]*Term, arr.Len())
		for i := range as {
			as[i] = IntC(0)
		}
		for _, r := range *al.Referrers() {
			if ia, ok := r.(*ssa.IndexAddr); ok {
				ix, ok1 := ia.Index.(*ssa.Const)
				for _, q := range *ia.Referrers() {
					if s, ok := q.(*ssa.Store); ok && ok1 {
						val, ok := s.Val.(*ssa.Const)
						if !ok {
							return Val{}, false
						}
						as[ix.Int64()] = constVal(val).L[0]
					}
				}
			}
		}
		n := IntC(arr.Len())
		return Val{T: c.Type(), L: []*Term{UF("lit:"+typeKey(c.Type()), SInt, as...), IntC(0), n, n}}, true
	}
	return Val{}, false
}

// isConstType: values of these types are immutable library handles.
func (w *World) isConstType(t types.Type) bool {
	switch shortKey(typeKey(t)) {
	case "regexp.Regexp", "net/url.URL", "math/big.Int":
		return true
	}
	return false
}

// ---- theory: axioms, lemmas, recursive definitions ----

func (w *World) theoryEnv(pos string) *Env {
	x := &Exec{w: w, assum: map[string]bool{}, used: map[string]bool{}}
	st := newState(x)
	return &Env{x: x, st: st, pure: true, pos: pos, vars: map[string]Val{}}
}

func newState(x *Exec) *State {
	return &State{x: x, heaps: map[string]*Term{}, ghosts: map[string]*Term{}, iters: map[string]*Term{}, bounds: map[*Term]bound{}, writes: map[string]Write{}, axd: map[string]bool{}, meta: map[string]Val{}}
}

func (w *World) buildTheory() (err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(unsupportedErr); ok {
				err = e
				return
			}
			panic(r)
		}
	}()
	for _, n := range sortedKeys(w.specs.Recs) {
		d := w.specs.Recs[n]
		env := w.theoryEnv(d.Pos)
		env.bnd = map[string]Val{}
		r := &RecDef{Name: n, Fuel: d.Fuel}
		for i, p := range d.PNames {
			s, _ := w.sortOf(d.Params[i])
			b := BVar(p+"!r"+n, s)
			r.Params = append(r.Params, b)
			env.bnd[p] = Val{L: []*Term{b}}
		}
		r.Body = env.term(d.Body)
		w.solver.defs[n] = r
	}
	for _, a := range w.specs.Axioms {
		env := w.theoryEnv(a.Pos)
		t := env.Bool(a.E)
		var syms []string
		for n := range funcSyms([]*Term{t}) {
			if !strings.HasPrefix(n, "box:") && !strings.HasPrefix(n, "unbox:") {
				syms = append(syms, n)
			}
		}
		// the axiom is relevant when the symbols of its patterns occur
		if t.kind == KQuant && len(t.pats) > 0 {
			var ps []string
			for n := range funcSyms(t.pats[0]) {
				ps = append(ps, n)
			}
			if len(ps) > 0 {
				syms = ps
			}
		}
		// an axiom named after a symbol is only needed where that symbol occurs
		base := strings.TrimRight(strings.SplitN(a.Name, "-", 2)[0], "0123456789")
		for _, z := range collect([]*Term{t}) {
			if (z.kind == KApp && z.decl != "" && z.op == base) || (z.kind == KConst && (z.op == base || z.op == "c:"+base)) {
				syms = append(syms, z.op)
				break
			}
		}
		if a.Lemma && a.Only {
			syms = []string{"no such symbol"}
		}
		sort.Strings(syms)
		w.solver.axioms = append(w.solver.axioms, Axiom{Name: a.Name, T: t, Syms: syms, Lemma: a.Lemma})
	}
	return nil
}

var _ = time.Now
