package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- dispatch ----

type callSite struct {
	pos    token.Pos
	retTo  ssa.Value
	drain  bool
	isGo   bool
	resT   types.Type // *types.Tuple or single type or nil
}

func resultTuple(sig *types.Signature) *types.Tuple { return sig.Results() }

func fnKey(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	return shortKey(fn.RelString(nil))
}

func (x *Exec) call(st *State, f *Frame, c *ssa.CallCommon, to *ssa.Call) bool {
	var args []Val
	for _, a := range c.Args {
		args = append(args, x.val(st, f, a))
	}
	cs := callSite{pos: c.Pos()}
	if to != nil {
		cs.retTo = to
	}
	return x.callWith(st, f, c, args, Val{}, cs)
}

func (x *Exec) callDeferred(st *State, f *Frame, d deferred) bool {
	return x.callWith(st, f, d.call, d.args, d.fn, callSite{pos: d.call.Pos(), drain: true})
}

func (x *Exec) goStmt(st *State, f *Frame, g *ssa.Go) bool {
	var args []Val
	for _, a := range g.Call.Args {
		args = append(args, x.val(st, f, a))
	}
	x.assum["goroutines run to completion at their go statement (one interleaving); channel contents are tracked as sets"] = true
	return x.callWith(st, f, &g.Call, args, Val{}, callSite{pos: g.Pos(), drain: true, isGo: true})
}

// callWith performs the call; fv is the callee value if it was evaluated earlier.
func (x *Exec) callWith(st *State, f *Frame, c *ssa.CallCommon, args []Val, fv Val, cs callSite) bool {
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return x.builtin(st, f, b, c, args, cs)
	}
	if c.IsInvoke() {
		recv := fv
		if recv.L == nil {
			recv = x.val(st, f, c.Value)
		}
		key := "(" + shortKey(typeKey(types.Unalias(c.Value.Type()))) + ")." + c.Method.Name()
		if sp, a := x.specFor(key, append([]Val{recv}, args...)); sp != nil && !sp.Inline {
			return x.apply(st, sp, a, c.Method.Type().(*types.Signature), cs)
		}
		if recv.D != nil {
			if m := x.w.prog.LookupMethod(recv.D.T, c.Method.Pkg(), c.Method.Name()); m != nil {
				return x.callFn(st, f, m, append([]Val{*recv.D}, args...), nil, cs)
			}
		}
		x.mustNotPanic(st, Neq(recv.term(), NilIface), "method call on nil interface", c.Pos())
		return x.external(st, f, key, append([]Val{recv}, args...), c.Method.Type().(*types.Signature), cs, c.Method.Pkg())
	}
	if fn := c.StaticCallee(); fn != nil {
		var bind []Val
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			v := fv
			if v.F == nil {
				v = x.val(st, f, mc)
			}
			bind = v.F.Bind
		}
		return x.callFn(st, f, fn, args, bind, cs)
	}
	if fv.L == nil {
		fv = x.val(st, f, c.Value)
	}
	if fv.F != nil {
		switch {
		case fv.F.Spec != nil:
			return x.apply(st, fv.F.Spec, append(append([]Val{}, fv.F.Args...), args...), c.Signature(), cs)
		case fv.F.Fn != nil:
			return x.callFn(st, f, fv.F.Fn, args, fv.F.Bind, cs)
		}
	}
	key := "fn:" + shortKey(typeKey(types.Unalias(c.Value.Type())))
	if sp := x.w.specs.Funcs[key]; sp != nil {
		return x.apply(st, sp, append([]Val{fv}, args...), c.Signature(), cs)
	}
	return x.external(st, f, key, args, c.Signature(), cs, nil)
}

// specFor finds the contract of a callee: one for the dynamic types of its interface arguments, key[T], if there is one.
func (x *Exec) specFor(key string, args []Val) (*FuncSpec, []Val) {
	for i, a := range args {
		if a.D == nil {
			continue
		}
		if sp := x.w.specs.Funcs[key+"["+shortKey(typeKey(a.D.T))+"]"]; sp != nil {
			out := append([]Val{}, args...)
			out[i] = *a.D
			return sp, out
		}
	}
	return x.w.specs.Funcs[key], args
}

// callFn calls a known function.
func (x *Exec) callFn(st *State, f *Frame, fn *ssa.Function, args []Val, bind []Val, cs callSite) bool {
	key := fnKey(fn)
	if sp, a := x.specFor(key, args); sp != nil && !sp.Inline && !(x.fn == fn && len(st.frames) == 0) {
		if sp.Exit {
			return x.endThread(st, key, cs.pos)
		}
		return x.apply(st, sp, a, fn.Signature, cs)
	}
	if h := natives[key]; h != nil {
		return h(x, st, f, fn, args, cs)
	}
	if strings.HasPrefix(key, "github.com/golang/glog.") {
		n := fn.Name()
		if strings.HasPrefix(n, "Fatal") || strings.HasPrefix(n, "Exit") {
			return x.endThread(st, "glog."+n, cs.pos)
		}
	}
	if key == "os.Exit" {
		return x.endThread(st, "os.Exit", cs.pos)
	}
	if fn.Blocks != nil && x.w.inModule(fn) {
		return x.inline(st, fn, args, bind, cs)
	}
	if fn.Synthetic != "" && fn.Blocks != nil {
		return x.inline(st, fn, args, bind, cs) // wrappers, bound methods
	}
	var pkg *types.Package
	if fn.Pkg != nil {
		pkg = fn.Pkg.Pkg
	} else if o := fn.Object(); o != nil {
		pkg = o.Pkg()
	}
	return x.external(st, f, key, args, fn.Signature, cs, pkg)
}

func (x *Exec) inline(st *State, fn *ssa.Function, args []Val, bind []Val, cs callSite) bool {
	fr := x.pushFrame(st, fn, args, bind, cs.retTo)
	fr.drain = cs.drain
	fr.isGo = cs.isGo
	return true
}

var ignoredPkgs = []string{"github.com/golang/glog", "github.com/armon/go-metrics", "github.com/hashicorp/go-metrics", "sync", "sync/atomic", "github.com/vbauerster/mpb"}

var effectPkgs = []string{"os", "io/ioutil", "path/filepath", "github.com/google/renameio", "github.com/redis/go-redis", "github.com/go-redis", "net/http", "syscall"}

func pkgIs(p *types.Package, list []string) bool {
	if p == nil {
		return false
	}
	for _, l := range list {
		if p.Path() == l || strings.HasPrefix(p.Path(), l+"/") {
			return true
		}
	}
	return false
}

// external is a call without a contract: arbitrary results, and anything the arguments point to may change.
func (x *Exec) external(st *State, f *Frame, key string, args []Val, sig *types.Signature, cs callSite, pkg *types.Package) bool {
	x.assum["no contract (arbitrary results, may change only what its arguments point to): "+key] = true
	if !pkgIs(pkg, ignoredPkgs) {
		st.newEpoch()
		done := map[string]bool{}
		for _, a := range args {
			x.havocReach(st, a, key, 0, done)
		}
		if x.strictEffects() && pkgIs(pkg, effectPkgs) {
			x.oblige(st, "effect", key+"@"+shortFn(st.top().fn), False, cs.pos, x.prop)
		}
	}
	x.finish(st, cs, x.freshResults(st, key, sig))
	return true
}

func (x *Exec) strictEffects() bool { return x.spec != nil && x.spec.Strict }

// havocReach forgets what an argument points to.
func (x *Exec) havocReach(st *State, a Val, why string, depth int, done map[string]bool) {
	if a.D != nil {
		x.havocReach(st, *a.D, why, depth, done)
		return
	}
	if a.T == nil || len(a.L) == 0 {
		return
	}
	switch t := a.T.Underlying().(type) {
	case *types.Pointer:
		if a.L[0].kind == KInt && a.L[0].ival.Sign() == 0 {
			return
		}
		if x.w.isConstType(t.Elem()) {
			return
		}
		if n, ok := types.Unalias(t.Elem()).(*types.Named); ok && n.Obj().Pkg() != nil && pkgIs(n.Obj().Pkg(), ignoredPkgs) {
			return
		}
		ad := st.addrOf(a)
		k := heapName(ad, "") + fmt.Sprint(ad.Ref.id)
		if done[k] {
			return
		}
		done[k] = true
		st.havocAddr(ad, "ext")
	case *types.Slice:
		x.havocElems(st, a, t)
	case *types.Map:
		x.havocMap(st, a, t)
	}
}

func (x *Exec) havocElems(st *State, a Val, t *types.Slice) {
	if a.L[0].kind == KInt && a.L[0].ival.Sign() == 0 {
		return
	}
	if isByte(t.Elem()) {
		old := st.sel(st.heap("B", ArrSort(SInt, SStr)), a.L[0])
		nw := st.fresh("buf", SStr)
		st.assume(Eq(SLen(nw), SLen(old)))
		st.setHeap("B", ArrSort(SInt, SStr), a.L[0], nw)
		return
	}
	for _, l := range leaves(t.Elem()) {
		hs := heapSort(true, l.Sort)
		_, in := arrParts(hs)
		st.setHeap("E:"+typeKey(t.Elem())+l.Path, hs, a.L[0], st.fresh("elems", in))
	}
}

func (x *Exec) havocMap(st *State, a Val, t *types.Map) {
	dn, ks, vn, vl := mapNames(t)
	st.setHeap(dn, ArrSort(SInt, ArrSort(ks, SBool)), a.L[0], st.fresh("dom", ArrSort(ks, SBool)))
	for i, l := range vl {
		st.setHeap(vn[i], ArrSort(SInt, ArrSort(ks, l.Sort)), a.L[0], st.fresh("vals", ArrSort(ks, l.Sort)))
	}
}

func baseName(key string) string {
	if i := strings.LastIndexByte(key, '.'); i >= 0 {
		return key[i+1:]
	}
	return key
}

func (x *Exec) freshResults(st *State, key string, sig *types.Signature) []Val {
	var out []Val
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, st.havoc(baseName(key)+fmt.Sprintf(".r%d", i), sig.Results().At(i).Type()))
	}
	return out
}

func (x *Exec) finish(st *State, cs callSite, rs []Val) {
	if cs.drain || cs.retTo == nil {
		return
	}
	x.bindResults(st, cs.retTo, rs)
}

// ---- contracts ----

func (x *Exec) specEnv(st *State, sp *FuncSpec, args []Val) *Env {
	e := &Env{x: x, st: st, vars: map[string]Val{}, pos: sp.Pos}
	for i, p := range sp.Params {
		if p == "_" {
			continue
		}
		if i < len(args) {
			e.vars[p] = args[i]
		}
	}
	return e
}

func (x *Exec) checkArity(sp *FuncSpec, n int) {
	if len(sp.Params) != n {
		panic(unsupported(fmt.Sprintf("contract %s (%s) has %d parameters, the function has %d", sp.Key, sp.Pos, len(sp.Params), n)))
	}
}

// apply uses a callee's contract at a call.
func (x *Exec) apply(st *State, sp *FuncSpec, args []Val, sig *types.Signature, cs callSite) bool {
	x.used[sp.Key] = true
	if sp.Ignore {
		x.finish(st, cs, x.freshResults(st, sp.Key, sig))
		return true
	}
	x.checkArity(sp, len(args))
	env := x.specEnv(st, sp, args)
	pre := st.clone()
	env.old = pre
	n := 0
	for _, c := range sp.Clauses {
		if c.Kind != "requires" || !c.applies(x.prop) {
			continue
		}
		n++
		lbl := c.Name
		if lbl == "" {
			lbl = fmt.Sprintf("requires%d", n)
		}
		env.pos = c.Pos
		t := env.Bool(c.E)
		x.oblige(st, "pre", sp.Key+"."+lbl+"@"+shortFn(st.top().fn), t, cs.pos, x.prop)
		st.assume(t)
	}
	if sp.Callback != "" {
		return x.applyCallback(st, sp, args, pre, sig, cs)
	}
	return x.applyCases(st, sp, args, pre, sig, cs, nil)
}

// applyCallback runs the function an external is given, once, and then applies the external's cases.
func (x *Exec) applyCallback(st *State, sp *FuncSpec, args []Val, pre *State, sig *types.Signature, cs callSite) bool {
	for i, p := range sp.Params {
		if p != sp.Callback {
			continue
		}
		cl := args[i].F
		if cl == nil || cl.Fn == nil {
			panic(unsupported("callback of " + sp.Key + " is not a known function"))
		}
		env := x.specEnv(st, sp, args)
		env.old = pre
		for _, c := range sp.Clauses {
			if c.Kind == "start" && c.applies(x.prop) {
				env.pos = c.Pos
				x.setLoc(env, c.LHS, c.E)
			}
		}
		var as []Val
		for _, fp := range cl.Fn.Params {
			v := st.havoc("cb."+fp.Name(), fp.Type())
			if types.IsInterface(fp.Type()) {
				st.assume(Neq(v.term(), NilIface))
			}
			as = append(as, v)
		}
		rt := cl.Fn.Signature.Results()
		fr := x.pushFrame(st, cl.Fn, as, cl.Bind, nil)
		fr.onRet = func(s *State, rs []Val) bool {
			s.frames = s.frames[:len(s.frames)-1]
			cb := map[string]Val{}
			for k, r := range rs {
				r.T = rt.At(k).Type()
				cb["cb"+[]string{"", "1", "2", "3"}[k]] = r
			}
			return x.applyCases(s, sp, args, pre, sig, cs, cb)
		}
		return true
	}
	panic(unsupported("no callback parameter in " + sp.Key))
}

func (x *Exec) applyCases(st *State, sp *FuncSpec, args []Val, pre *State, sig *types.Signature, cs callSite, extra map[string]Val) bool {
	cases := sp.Cases
	if len(cases) == 0 {
		cases = []*Case{nil}
	}
	states := []*State{}
	for i, c := range cases {
		s := st
		if i < len(cases)-1 {
			s = st.clone()
		}
		if c != nil {
			s.trace = append(s.trace, fmt.Sprintf("%s %s: case %s", x.pos(cs.pos), baseName(sp.Key), c.Name))
		}
		states = append(states, s)
	}
	for i, c := range cases {
		s := states[i]
		if !x.applyCase(s, sp, c, args, pre, sig, cs, extra) {
			continue
		}
		if len(cases) > 1 && c != nil && !x.feasible(s, True) {
			s.dead = true
		}
		if i < len(cases)-1 && !s.dead {
			x.push(s)
		}
	}
	return !st.dead
}

func (x *Exec) applyCase(s *State, sp *FuncSpec, c *Case, args []Val, pre *State, sig *types.Signature, cs callSite, extra map[string]Val) bool {
	env := x.specEnv(s, sp, args)
	for k, v := range extra {
		env.vars[k] = v
	}
	env.old = pre
	all := append([]*Clause{}, sp.Clauses...)
	if c != nil {
		all = append(all, c.Clauses...)
	}
	if !sp.Pure {
		s.newEpoch()
	}
	// havoc first, then sets in order
	for _, cl := range all {
		if (cl.Kind == "havoc" || cl.Kind == "modifies") && cl.applies(x.prop) {
			env.pos = cl.Pos
			x.havocLoc(env, cl.LHS)
		}
	}
	// results
	rts := sig.Results()
	isRes := map[string]int{}
	for i, r := range sp.Results {
		if r != "_" {
			isRes[r] = i
		}
	}
	defined := map[string]*Clause{}
	for _, cl := range all {
		if cl.Kind == "ensures" && cl.applies(x.prop) && cl.E.op == "bin" && cl.E.name == "==" && cl.E.args[0].op == "id" {
			r := cl.E.args[0].name
			if _, ok := isRes[r]; ok && defined[r] == nil && !mentions(cl.E.args[1], isRes) {
				defined[r] = cl
			}
		}
	}
	fresh := map[string]bool{}
	for _, cl := range all {
		if cl.Kind == "fresh" && cl.LHS.op == "id" {
			fresh[cl.LHS.name] = true
		}
	}
	res := make([]Val, rts.Len())
	for i := 0; i < rts.Len(); i++ {
		name := fmt.Sprintf("#%d", i)
		if i < len(sp.Results) {
			name = sp.Results[i]
		}
		if defined[name] != nil {
			continue
		}
		res[i] = s.havoc(baseName(sp.Key)+"."+strings.TrimPrefix(name, "#"), rts.At(i).Type())
		if fresh[name] {
			ref := s.alloc()
			res[i].L[0] = ref
			if _, ok := res[i].T.Underlying().(*types.Slice); ok {
				if x.mayNil == nil {
					x.mayNil = map[*Term]bool{}
				}
				x.mayNil[ref] = true
			}
			if isByteSlice(res[i].T) {
				cnt := s.fresh("content", SStr)
				s.setHeap("B", ArrSort(SInt, SStr), ref, cnt)
				s.assume(Eq(SLen(cnt), res[i].L[2]), Eq(res[i].L[1], IntC(0)))
			}
			if m, ok := res[i].T.Underlying().(*types.Map); ok {
				x.havocMap(s, res[i], m)
			}
		}
		env.vars[name] = res[i]
	}
	for _, cl := range all {
		if cl.Kind != "set" || !cl.applies(x.prop) {
			continue
		}
		env.pos = cl.Pos
		x.setLoc(env, cl.LHS, cl.E)
	}
	for name, cl := range defined {
		i := isRes[name]
		env.pos = cl.Pos
		v := env.eval(cl.E.args[1])
		v = x.adapt(env, v, rts.At(i).Type())
		res[i] = v
		s.valFacts(v)
	}
	for name, i := range isRes {
		if i < len(res) {
			res[i].T = rts.At(i).Type()
			env.vars[name] = res[i]
		}
	}
	for _, cl := range all {
		if (cl.Kind == "ensures" || cl.Kind == "assume") && cl.applies(x.prop) {
			if cl.Kind == "ensures" && cl.E.op == "bin" && cl.E.args[0].op == "id" && defined[cl.E.args[0].name] == cl {
				continue
			}
			env.pos = cl.Pos
			s.assume(env.Bool(cl.E))
		}
	}
	if s.dead {
		return false
	}
	x.finish(s, cs, res)
	x.checkAlways(s, cs.pos, baseName(sp.Key))
	return true
}

func mentions(e *Expr, names map[string]int) bool {
	if e.op == "id" {
		_, ok := names[e.name]
		return ok
	}
	for _, a := range e.args {
		if mentions(a, names) {
			return true
		}
	}
	return false
}

// adapt gives a spec value the Go type of a result.
func (x *Exec) adapt(env *Env, v Val, t types.Type) Val {
	if v.T != nil && isNilV(v) {
		return zeroVal(t)
	}
	if _, isI := t.Underlying().(*types.Interface); isI && v.T != nil {
		if _, vi := v.T.Underlying().(*types.Interface); !vi {
			return env.st.mkIface(t, v)
		}
	}
	ls := leaves(t)
	if isByteSlice(t) && len(v.L) == 1 && v.L[0].sort == SStr {
		return env.st.newBytes(t, v.L[0])
	}
	if len(ls) != len(v.L) {
		env.fail("result has %d parts, expected %d", len(v.L), len(ls))
	}
	for i := range ls {
		if ls[i].Sort != v.L[i].sort {
			env.fail("result sort %s, expected %s", v.L[i].sort, ls[i].Sort)
		}
	}
	v.T = t
	return v
}

// havocLoc forgets a location named by a contract.
func (x *Exec) havocLoc(env *Env, l *Expr) {
	st := env.st
	w := x.w
	switch l.op {
	case "id":
		if ty, ok := w.specs.Ghosts[l.name]; ok {
			s, _ := w.sortOf(ty)
			st.setGhost(l.name, st.fresh("G:"+l.name, s), nil)
			return
		}
	case "index":
		if l.args[0].op == "id" {
			if ty, ok := w.specs.Ghosts[l.args[0].name]; ok {
				s, _ := w.sortOf(ty)
				_, vs := arrParts(s)
				k := env.one(env.eval(l.args[1]))
				st.setGhost(l.args[0].name, Store(st.ghost(l.args[0].name, s), k, st.fresh("g", vs)), k)
				return
			}
		}
		a := env.addr(l)
		st.havocAddr(a, "havoc")
		return
	case "field":
		a := env.addr(l)
		st.havocAddr(a, "mod."+l.name)
		return
	case "un":
		if l.name == "*" {
			st.havocAddr(env.addr(l), "mod")
			return
		}
	case "call":
		switch l.name {
		case "anyfield": // a field of every object of its type
			a := env.addr(l.args[0])
			for _, lf := range leaves(a.T) {
				n := heapName(a, lf.Path)
				h := st.heap(n, heapSort(a.Elem, lf.Sort))
				st.heaps[n] = st.fresh("H:"+n, h.sort)
				st.logWrite(n, nil)
			}
			return
		case "bytes":
			v := env.eval(l.args[0])
			x.havocBytes(st, v)
			return
		case "elems":
			v := env.eval(l.args[0])
			x.havocElems(st, v, v.T.Underlying().(*types.Slice))
			return
		case "contents":
			v := env.eval(l.args[0])
			x.havocMap(st, v, v.T.Underlying().(*types.Map))
			return
		case "sent", "delivered":
			v := env.eval(l.args[0])
			n, ks := chanHeap(l.name, v)
			st.setHeap(n, ArrSort(SInt, ArrSort(ks, SBool)), v.term(), st.fresh(l.name, ArrSort(ks, SBool)))
			return
		case "closed":
			v := env.eval(l.args[0])
			st.setHeap("C:closed", ArrSort(SInt, SBool), v.term(), st.fresh("closed", SBool))
			return
		case "nsent":
			v := env.eval(l.args[0])
			st.setHeap("C:nsent", ArrSort(SInt, SInt), v.term(), st.fresh("nsent", SInt))
			return
		case "pointee": // what an interface argument points to, if known
			v := env.eval(l.args[0])
			if v.D != nil {
				x.havocReach(st, *v.D, "pointee", 0, map[string]bool{})
			}
			return
		}
	}
	env.fail("cannot modify this expression")
}

func (x *Exec) havocBytes(st *State, v Val) {
	old := st.sel(st.heap("B", ArrSort(SInt, SStr)), v.L[0])
	nw := st.fresh("buf", SStr)
	st.assume(Eq(SLen(nw), v.L[2]))
	st.setHeap("B", ArrSort(SInt, SStr), v.L[0], splice(old, v.L[1], v.L[2], nw))
}

func (x *Exec) setLoc(env *Env, l *Expr, r *Expr) {
	st := env.st
	w := x.w
	switch l.op {
	case "id":
		if ty, ok := w.specs.Ghosts[l.name]; ok {
			s, _ := w.sortOf(ty)
			v := env.one(env.eval(r))
			if v.sort != s {
				env.fail("ghost %s has sort %s, got %s", l.name, s, v.sort)
			}
			st.setGhost(l.name, v, nil)
			return
		}
	case "index":
		if l.args[0].op == "id" {
			if ty, ok := w.specs.Ghosts[l.args[0].name]; ok {
				s, _ := w.sortOf(ty)
				k := env.one(env.eval(l.args[1]))
				v := env.one(env.eval(r))
				st.setGhost(l.args[0].name, Store(st.ghost(l.args[0].name, s), k, v), k)
				return
			}
		}
		a := env.addr(l)
		st.storeTo(a, x.adapt(env, env.eval(r), a.T))
		return
	case "field", "un":
		a := env.addr(l)
		v := env.eval(r)
		st.storeTo(a, x.adapt(env, v, a.T))
		x.keepMeta(st, a, v)
		return
	case "call":
		switch l.name {
		case "sent", "delivered":
			c := env.eval(l.args[0])
			n, ks := chanHeap(l.name, c)
			st.setHeap(n, ArrSort(SInt, ArrSort(ks, SBool)), c.term(), env.one(env.eval(r)))
			return
		case "closed":
			c := env.eval(l.args[0])
			st.setHeap("C:closed", ArrSort(SInt, SBool), c.term(), env.one(env.eval(r)))
			return
		case "bytes":
			v := env.eval(l.args[0])
			nw := env.strOf(env.eval(r))
			old := st.sel(st.heap("B", ArrSort(SInt, SStr)), v.L[0])
			st.setHeap("B", ArrSort(SInt, SStr), v.L[0], splice(old, v.L[1], v.L[2], nw))
			return
		}
	}
	env.fail("cannot assign this expression")
}

// checkAlways checks the always clauses of the function under verification.
func (x *Exec) checkAlways(st *State, pos token.Pos, after string) {
	if x.spec == nil || x.quiet > 0 || st.dead {
		return
	}
	for i, c := range x.spec.Clauses {
		if c.Kind != "always" || !c.applies(x.prop) {
			continue
		}
		if st.lastGhosts != nil && sameGhosts(st.lastGhosts, st.ghosts) {
			return
		}
		env := x.bodyEnv(st)
		env.pos = c.Pos
		lbl := c.Name
		if lbl == "" {
			lbl = fmt.Sprint(i)
		}
		t := env.Bool(c.E)
		x.oblige(st, "always", lbl+".after."+after, t, pos, x.prop)
		st.assume(t)
	}
	st.lastGhosts = cloneMap(st.ghosts)
}

func sameGhosts(a, b map[string]*Term) bool {
	for k, v := range b {
		if o, ok := a[k]; !ok && v.kind == KConst && v.op == "G:"+k {
			continue
		} else if o != v {
			return false
		}
	}
	return true
}

func (x *Exec) checkExit(st *State, pos token.Pos) {
	x.checkAlways(st, pos, "exit")
}

// bodyEnv evaluates clauses of the verified function over its parameters.
func (x *Exec) bodyEnv(st *State) *Env {
	e := x.specEnv(st, x.spec, x.params)
	e.old = x.entry
	return e
}

// ---- channels ----

func chanElem(v Val) types.Type { return v.T.Underlying().(*types.Chan).Elem() }

func chanHeap(kind string, c Val) (string, Sort) {
	el := chanElem(c)
	ls := leaves(el)
	ks := SIface
	if len(ls) == 1 {
		ks = ls[0].Sort
	}
	return "C:" + kind + ":" + typeKey(el), ks
}

func chanKey(v Val) *Term {
	if len(v.L) == 1 {
		return v.L[0]
	}
	if len(v.L) == 0 {
		return Sym("box:"+typeKey(v.T)+":unit", SIface)
	}
	return UF("box:"+typeKey(v.T), SIface, v.L...)
}

func (st *State) chanSet(kind string, c Val) *Term {
	n, ks := chanHeap(kind, c)
	return st.sel(st.heap(n, ArrSort(SInt, ArrSort(ks, SBool))), c.term())
}

func (st *State) chanInit(t types.Type, ref *Term) {
	c := scalar(t, ref)
	for _, k := range []string{"sent", "delivered"} {
		n, ks := chanHeap(k, c)
		st.setHeap(n, ArrSort(SInt, ArrSort(ks, SBool)), ref, ConstArr(ArrSort(ks, SBool), False))
	}
	st.setHeap("C:closed", ArrSort(SInt, SBool), ref, False)
	st.setHeap("C:nsent", ArrSort(SInt, SInt), ref, IntC(0))
}

func (x *Exec) hook(kind string, st *State, c Val, v Val, pos token.Pos) {
	key := kind + ":" + shortKey(typeKey(chanElem(c)))
	sp := x.w.specs.Funcs[key]
	if sp == nil {
		return
	}
	x.used[key] = true
	env := x.specEnv(st, sp, []Val{c, v})
	env.old = st.clone()
	for _, cl := range sp.Clauses {
		if !cl.applies(x.prop) {
			continue
		}
		env.pos = cl.Pos
		switch cl.Kind {
		case "requires":
			t := env.Bool(cl.E)
			x.oblige(st, "pre", key+"."+cl.Name+"@"+shortFn(st.top().fn), t, pos, x.prop)
			st.assume(t)
		case "ensures", "assume":
			st.assume(env.Bool(cl.E))
		case "set":
			x.setLoc(env, cl.LHS, cl.E)
		case "havoc":
			x.havocLoc(env, cl.LHS)
		}
	}
	x.checkAlways(st, pos, key)
}

func (x *Exec) send(st *State, f *Frame, c, v Val, pos token.Pos) bool {
	v.T = chanElem(c)
	if _, ok := v.T.Underlying().(*types.Interface); !ok {
		v.D = nil
	}
	n, ks := chanHeap("sent", c)
	cur := st.chanSet("sent", c)
	st.setHeap(n, ArrSort(SInt, ArrSort(ks, SBool)), c.term(), Store(cur, chanKey(v), True))
	cn := st.sel(st.heap("C:nsent", ArrSort(SInt, SInt)), c.term())
	st.setHeap("C:nsent", ArrSort(SInt, SInt), c.term(), Add(cn, IntC(1)))
	x.hook("send", st, c, v, pos)
	return true
}

// recvOne receives in two variants: a value, or closed. It returns the states.
func (x *Exec) recvVariants(st *State, c Val, commaOk bool, pos token.Pos) (okS *State, v Val, clS *State) {
	clS = st.clone()
	ok := st
	v = ok.havoc("recv", chanElem(c))
	n, ks := chanHeap("delivered", c)
	hs := ArrSort(SInt, ArrSort(ks, SBool))
	k := chanKey(v)
	ok.assume(Select(ok.chanSet("sent", c), k))
	ok.setHeap(n, hs, c.term(), Store(ok.chanSet("delivered", c), k, True))
	if ls := leaves(chanElem(c)); len(ls) > 1 {
		_ = ls
	}
	x.hook("recv", ok, c, v, pos)
	// closed and drained
	clS.assume(clS.sel(clS.heap("C:closed", ArrSort(SInt, SBool)), c.term()))
	sent, del := clS.chanSet("sent", c), clS.chanSet("delivered", c)
	kb := BVar("k!c"+strings.ReplaceAll(ks, " ", ""), ks)
	all := Forall([]*Term{kb}, Implies(Select(sent, kb), Select(del, kb)))
	if _, fr := freshRef(c.term()); !fr {
		all = Implies(UF("exclusive", SBool, c.term()), all)
	}
	clS.assume(all)
	return ok, v, clS
}

func (x *Exec) recv(st *State, f *Frame, i *ssa.UnOp) bool {
	c := x.val(st, f, i.X)
	okS, v, clS := x.recvVariants(st, c, i.CommaOk, i.Pos())
	z := zeroVal(chanElem(c))
	if i.CommaOk {
		clS.top().env[i] = Val{T: i.Type(), Tup: []Val{z, scalar(types.Typ[types.Bool], False)}}
		okS.top().env[i] = Val{T: i.Type(), Tup: []Val{v, scalar(types.Typ[types.Bool], True)}}
	} else {
		clS.top().env[i] = z
		okS.top().env[i] = v
	}
	clS.trace = append(clS.trace, x.pos(i.Pos())+" recv closed")
	okS.trace = append(okS.trace, x.pos(i.Pos())+" recv value")
	if x.feasible(clS, True) {
		x.push(clS)
	}
	return x.feasible(okS, True)
}

func (x *Exec) selectStmt(st *State, f *Frame, i *ssa.Select) bool {
	tp := i.Type().(*types.Tuple)
	mk := func(s *State, idx int, ok *Term, vals map[int]Val) {
		r := Val{T: tp, Tup: []Val{scalar(types.Typ[types.Int], IntC(int64(idx))), scalar(types.Typ[types.Bool], ok)}}
		k := 2
		for j, sc := range i.States {
			if sc.Dir == types.RecvOnly {
				if v, o := vals[j]; o {
					r.Tup = append(r.Tup, v)
				} else {
					r.Tup = append(r.Tup, zeroVal(tp.At(k).Type()))
				}
				k++
			}
		}
		s.top().env[i] = r
		s.trace = append(s.trace, fmt.Sprintf("%s select case %d", x.pos(i.Pos()), idx))
		if x.feasible(s, True) {
			x.push(s)
		}
	}
	for j, sc := range i.States {
		s := st.clone()
		fr := s.top()
		c := x.val(s, fr, sc.Chan)
		if sc.Dir == types.SendOnly {
			x.send(s, fr, c, x.val(s, fr, sc.Send), i.Pos())
			mk(s, j, False, nil)
			continue
		}
		okS, v, clS := x.recvVariants(s, c, true, i.Pos())
		mk(clS, j, False, map[int]Val{j: zeroVal(chanElem(c))})
		mk(okS, j, True, map[int]Val{j: v})
	}
	if !i.Blocking {
		s := st.clone()
		mk(s, -1, False, nil)
	}
	return false
}

// ---- builtins ----

func (x *Exec) builtin(st *State, f *Frame, b *ssa.Builtin, c *ssa.CallCommon, args []Val, cs callSite) bool {
	var out Val
	switch b.Name() {
	case "len", "cap":
		v := args[0]
		switch t := v.T.Underlying().(type) {
		case *types.Slice:
			out = scalar(types.Typ[types.Int], v.L[map[string]int{"len": 2, "cap": 3}[b.Name()]])
		case *types.Map:
			out = scalar(types.Typ[types.Int], st.mapLen(t, v.term()))
		case *types.Basic:
			out = scalar(types.Typ[types.Int], SLen(v.term()))
		case *types.Chan:
			out = st.havoc("chanlen", types.Typ[types.Int])
			st.assume(Le(IntC(0), out.term()))
		case *types.Array:
			out = scalar(types.Typ[types.Int], IntC(t.Len()))
		case *types.Pointer:
			out = scalar(types.Typ[types.Int], IntC(t.Elem().Underlying().(*types.Array).Len()))
		default:
			panic(unsupported("len of " + v.T.String()))
		}
	case "append":
		out = x.append_(st, args, c.Args[0].Type())
	case "copy":
		n := x.copy_(st, args)
		out = scalar(types.Typ[types.Int], n)
	case "delete":
		m := c.Args[0].Type().Underlying().(*types.Map)
		st.mapDelete(m, args[0].term(), x.mapKey(st, args[1]))
		return true
	case "close":
		st.setHeap("C:closed", ArrSort(SInt, SBool), args[0].term(), True)
		return true
	case "print", "println":
		return true
	case "panic":
		return x.endThread(st, "panic", cs.pos)
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			cnd := Le(r.term(), a.term())
			if b.Name() == "max" {
				cnd = Ge(r.term(), a.term())
			}
			r = scalar(r.T, Ite(cnd, r.term(), a.term()))
		}
		out = r
	case "recover":
		out = zeroVal(b.Type().(*types.Signature).Results().At(0).Type())
	case "clear":
		if m, ok := args[0].T.Underlying().(*types.Map); ok {
			dn, ks, _, _ := mapNames(m)
			st.setHeap(dn, ArrSort(SInt, ArrSort(ks, SBool)), args[0].term(), ConstArr(ArrSort(ks, SBool), False))
			return true
		}
		panic(unsupported("clear"))
	case "ssa:wrapnilchk":
		out = args[0]
	default:
		panic(unsupported("builtin " + b.Name()))
	}
	if cs.retTo != nil && !cs.drain {
		x.set(st, cs.retTo, out)
	}
	return true
}

// append copies to a fresh backing array (in-place growth is not observable in the verified code).
func (x *Exec) append_(st *State, args []Val, t types.Type) Val {
	x.assum["append always moves to a fresh backing array (no aliasing through spare capacity)"] = true
	a := args[0]
	if len(args) == 1 {
		return a
	}
	b := args[1]
	el := t.Underlying().(*types.Slice).Elem()
	if isByte(el) {
		var bs *Term
		if b.L[0].sort == SStr {
			bs = b.L[0]
		} else {
			bs = st.bytesOf(b)
		}
		return st.newBytes(t, Cat(st.bytesOf(a), bs))
	}
	na, nb := a.L[2], b.L[2]
	if nb.kind == KInt && nb.ival.Sign() == 0 {
		return a
	}
	ref := st.alloc()
	n := Add(na, nb)
	for _, l := range leaves(el) {
		name := "E:" + typeKey(el) + l.Path
		hs := heapSort(true, l.Sort)
		h := st.heap(name, hs)
		_, in := arrParts(hs)
		sa, sb := st.sel(h, a.L[0]), st.sel(h, b.L[0])
		var dst *Term
		zoff := a.L[1].kind == KInt && a.L[1].ival.Sign() == 0
		if zoff {
			dst = sa // same indices; cells beyond na are overwritten or unreachable
		} else {
			dst = st.fresh("app", in)
			i := BVar("i!a", SInt)
			sd := rawApp("select", l.Sort, "", dst, i)
			st.assume(Forall([]*Term{i}, Implies(And(Le(IntC(0), i), Lt(i, na)), Eq(sd, Select(sa, Add(a.L[1], i)))), []*Term{sd}))
			// the same, for an element of the old slice
			if so := rawApp("select", l.Sort, "", sa, i); sa.kind != KApp || sa.op == "select" {
				st.assume(Forall([]*Term{i}, Implies(And(Le(a.L[1], i), Lt(i, Add(a.L[1], na))), Eq(rawApp("select", l.Sort, "", dst, Sub(i, a.L[1])), so)), []*Term{so}))
			}
		}
		if nb.kind == KInt && nb.ival.IsInt64() && nb.ival.Int64() <= 8 {
			for k := int64(0); k < nb.ival.Int64(); k++ {
				dst = Store(dst, Add(na, IntC(k)), Select(sb, Add(b.L[1], IntC(k))))
			}
			// a reading of what was added, for the solvers to match on
			for k := int64(0); k < nb.ival.Int64() && k < 2; k++ {
				st.assume(rawApp("=", SBool, "", rawApp("select", l.Sort, "", dst, Add(na, IntC(k))), Select(sb, Add(b.L[1], IntC(k)))))
			}
		} else {
			d2 := st.fresh("app", in)
			i := BVar("i!a", SInt)
			sd := rawApp("select", l.Sort, "", d2, i)
			st.assume(Forall([]*Term{i}, Implies(And(Le(IntC(0), i), Lt(i, na)), Eq(sd, Select(dst, i))), []*Term{sd}),
				Forall([]*Term{i}, Implies(And(Le(na, i), Lt(i, n)), Eq(sd, Select(sb, Add(b.L[1], Sub(i, na))))), []*Term{sd}))
			// the same, for an element of either slice
			if so := rawApp("select", l.Sort, "", dst, i); dst.kind != KApp || dst.op == "select" {
				st.assume(Forall([]*Term{i}, Implies(And(Le(IntC(0), i), Lt(i, na)), Eq(sd, so)), []*Term{so}))
			}
			if so := rawApp("select", l.Sort, "", sb, i); sb.kind != KApp || sb.op == "select" {
				st.assume(Forall([]*Term{i}, Implies(And(Le(b.L[1], i), Lt(i, Add(b.L[1], nb))), Eq(rawApp("select", l.Sort, "", d2, Add(na, Sub(i, b.L[1]))), so)), []*Term{so}))
			}
			dst = d2
		}
		st.setHeap(name, hs, ref, dst)
	}
	st.assume(Le(n, IntBig(pow2(62))))
	return Val{T: t, L: []*Term{ref, IntC(0), n, n}}
}

func (x *Exec) copy_(st *State, args []Val) *Term {
	d, s := args[0], args[1]
	el := d.T.Underlying().(*types.Slice).Elem()
	var sn *Term
	if s.L[0].sort == SStr {
		sn = SLen(s.L[0])
	} else {
		sn = s.L[2]
	}
	n := Ite(Le(d.L[2], sn), d.L[2], sn)
	if st.decide(Le(d.L[2], sn)) == 1 {
		n = d.L[2]
	} else if st.decide(Le(sn, d.L[2])) == 1 {
		n = sn
	}
	if isByte(el) {
		src := s.L[0]
		if src.sort != SStr {
			src = Substr(st.sel(st.heap("B", ArrSort(SInt, SStr)), s.L[0]), s.L[1], n)
		} else {
			src = Substr(src, IntC(0), n)
		}
		old := st.sel(st.heap("B", ArrSort(SInt, SStr)), d.L[0])
		st.setHeap("B", ArrSort(SInt, SStr), d.L[0], splice(old, d.L[1], n, src))
		return n
	}
	for _, l := range leaves(el) {
		name := "E:" + typeKey(el) + l.Path
		hs := heapSort(true, l.Sort)
		h := st.heap(name, hs)
		_, in := arrParts(hs)
		sd0, ss := st.sel(h, d.L[0]), st.sel(h, s.L[0])
		dst := st.fresh("cpy", in)
		i := BVar("i!a", SInt)
		sd := rawApp("select", l.Sort, "", dst, i)
		st.assume(Forall([]*Term{i}, Implies(And(Le(d.L[1], i), Lt(i, Add(d.L[1], n))), Eq(sd, Select(ss, Add(s.L[1], Sub(i, d.L[1]))))), []*Term{sd}),
			Forall([]*Term{i}, Implies(Not(And(Le(d.L[1], i), Lt(i, Add(d.L[1], n)))), Eq(sd, Select(sd0, i))), []*Term{sd}))
		st.setHeap(name, hs, d.L[0], dst)
	}
	return n
}

// ---- library functions interpreted by the verifier ----

type nativeFn func(x *Exec, st *State, f *Frame, fn *ssa.Function, args []Val, cs callSite) bool

var natives map[string]nativeFn

func ret1(x *Exec, st *State, cs callSite, v Val) bool {
	x.finish(st, cs, []Val{v})
	return true
}

func newError(st *State, name string, t types.Type) Val {
	e := st.fresh(name, SIface)
	st.assume(Neq(e, NilIface))
	return Val{T: t, L: []*Term{e}}
}

// variadic returns the elements of a variadic slice of known length.
func (x *Exec) variadic(st *State, v Val) ([]*Term, bool) {
	n := v.L[2]
	if n.kind != KInt || !n.ival.IsInt64() {
		return nil, false
	}
	el := v.T.Underlying().(*types.Slice).Elem()
	var out []*Term
	for i := int64(0); i < n.ival.Int64(); i++ {
		e := st.load(&Addr{Elem: true, Ref: v.L[0], Idx: Add(v.L[1], IntC(i)), Root: el, T: el})
		if len(e.L) != 1 {
			return nil, false
		}
		out = append(out, e.L[0])
	}
	return out, true
}

// sprintf renders a format with the arguments as a term.
func (x *Exec) sprintf(st *State, f *Term, v Val) *Term {
	args, ok := x.variadic(st, v)
	if f.kind != KStr || !ok {
		return UF("sprintf", SStr, f, v.L[0])
	}
	var out []*Term
	s := f.op
	k := 0
	lit := ""
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			lit += string(s[i])
			continue
		}
		j := i + 1
		for j < len(s) && strings.IndexByte("0123456789.+-# ", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			break
		}
		if s[j] == '%' {
			lit += "%"
			i = j
			continue
		}
		if k >= len(args) {
			return UF("sprintf", SStr, f, v.L[0])
		}
		out = append(out, StrC(lit))
		lit = ""
		a := args[k]
		k++
		verb := s[i : j+1]
		out = append(out, fmtArg(verb, a))
		i = j
	}
	out = append(out, StrC(lit))
	if k != len(args) {
		return UF("sprintf", SStr, f, v.L[0])
	}
	return Cat(out...)
}

func fmtArg(verb string, a *Term) *Term {
	if isBox(a) && len(a.args) == 1 {
		in := a.args[0]
		switch {
		case in.sort == SStr && (verb == "%s" || verb == "%v") && a.op == "box:string":
			return in
		case in.sort == SInt && (verb == "%d" || verb == "%v") && !strings.Contains(a.op, "time.") && !strings.HasPrefix(a.op, "box:*"):
			return UF("itoa", SStr, in)
		case in.sort == SInt && !strings.HasPrefix(a.op, "box:*") && (verb[len(verb)-1] == 'x' || verb[len(verb)-1] == 'd') && !strings.ContainsAny(verb, "+-# ."):
			return UF("fmt_"+verb[1:], SStr, in)
		case in.sort == SStr && verb == "%x" && a.op == "box:string":
			return UF("hex", SStr, in)
		}
	}
	return UF("fmt:"+verb, SStr, a)
}

func init() {
	pureStr := func(g func(a []*Term) *Term) nativeFn {
		return func(x *Exec, st *State, f *Frame, fn *ssa.Function, args []Val, cs callSite) bool {
			var ts []*Term
			for _, a := range args {
				if isByteSlice(a.T) {
					ts = append(ts, st.bytesOf(a))
				} else {
					ts = append(ts, a.term())
				}
			}
			t := fn.Signature.Results().At(0).Type()
			r := g(ts)
			if isByteSlice(t) {
				return ret1(x, st, cs, st.newBytes(t, r))
			}
			return ret1(x, st, cs, scalar(t, r))
		}
	}
	timeFn := func(g func(a []*Term) []*Term) nativeFn {
		return func(x *Exec, st *State, f *Frame, fn *ssa.Function, args []Val, cs callSite) bool {
			var ts []*Term
			for _, a := range args {
				ts = append(ts, a.L...)
			}
			v := Val{T: fn.Signature.Results().At(0).Type(), L: g(ts)}
			st.valFacts(v)
			return ret1(x, st, cs, v)
		}
	}
	str := func(op string, s Sort) func(a []*Term) *Term {
		return func(a []*Term) *Term { return rawApp(op, s, "", a...) }
	}
	natives = map[string]nativeFn{
		"fmt.Errorf": func(x *Exec, st *State, f *Frame, fn *ssa.Function, args []Val, cs callSite) bool {
			return ret1(x, st, cs, newError(st, "errorf", fn.Signature.Results().At(0).Type()))
		},
		"errors.New": func(x *Exec, st *State, f *Frame, fn *ssa.Function, args []Val, cs callSite) bool {
			return ret1(x, st, cs, newError(st, "error", fn.Signature.Results().At(0).Type()))
		},
		"fmt.Sprintf": func(x *Exec, st *State, f *Frame, fn *ssa.Function, args []Val, cs callSite) bool {
			return ret1(x, st, cs, scalar(fn.Signature.Results().At(0).Type(), x.sprintf(st, args[0].term(), args[1])))
		},
		"strings.HasPrefix":  pureStr(func(a []*Term) *Term { return rawApp("str.prefixof", SBool, "", a[1], a[0]) }),
		"strings.HasSuffix":  pureStr(func(a []*Term) *Term { return rawApp("str.suffixof", SBool, "", a[1], a[0]) }),
		"strings.Contains":   pureStr(str("str.contains", SBool)),
		"strings.Index":      pureStr(func(a []*Term) *Term { return rawApp("str.indexof", SInt, "", a[0], a[1], IntC(0)) }),
		"strings.EqualFold":  pureStr(func(a []*Term) *Term { return UF("equalFold", SBool, a...) }),
		"strings.ToLower":    pureStr(func(a []*Term) *Term { return UF("toLower", SStr, a...) }),
		"strings.ToUpper":    pureStr(func(a []*Term) *Term { return UF("toUpper", SStr, a...) }),
		"strings.TrimSpace":  pureStr(func(a []*Term) *Term { return UF("trimSpace", SStr, a...) }),
		"strings.TrimPrefix": pureStr(func(a []*Term) *Term {
			return Ite(rawApp("str.prefixof", SBool, "", a[1], a[0]), Substr(a[0], SLen(a[1]), Sub(SLen(a[0]), SLen(a[1]))), a[0])
		}),
		"strings.TrimSuffix": pureStr(func(a []*Term) *Term {
			return Ite(rawApp("str.suffixof", SBool, "", a[1], a[0]), Substr(a[0], IntC(0), Sub(SLen(a[0]), SLen(a[1]))), a[0])
		}),
		"bytes.Equal": pureStr(func(a []*Term) *Term { return Eq(a[0], a[1]) }),
		"bytes.Compare": pureStr(func(a []*Term) *Term {
			return Ite(Eq(a[0], a[1]), IntC(0), Ite(StrLt(a[0], a[1]), IntC(-1), IntC(1)))
		}),
		"(time.Time).Unix":      timeFn(func(a []*Term) []*Term { return []*Term{DivT(a[0], IntC(1000000000))} }),
		"(time.Time).UnixMilli": timeFn(func(a []*Term) []*Term { return []*Term{DivT(a[0], IntC(1000000))} }),
		"(time.Time).UnixNano":  timeFn(func(a []*Term) []*Term { return []*Term{a[0]} }),
		"(time.Time).After":     timeFn(func(a []*Term) []*Term { return []*Term{Gt(a[0], a[2])} }),
		"(time.Time).Before":    timeFn(func(a []*Term) []*Term { return []*Term{Lt(a[0], a[2])} }),
		"(time.Time).Compare":   timeFn(func(a []*Term) []*Term { return []*Term{Ite(Lt(a[0], a[2]), IntC(-1), Ite(Gt(a[0], a[2]), IntC(1), IntC(0)))} }),
		"(time.Time).Equal":     timeFn(func(a []*Term) []*Term { return []*Term{Eq(a[0], a[2])} }),
		"(time.Time).IsZero":    timeFn(func(a []*Term) []*Term { return []*Term{Eq(a[0], TimeZero)} }),
		"(time.Time).UTC":       timeFn(func(a []*Term) []*Term { return []*Term{a[0], IntC(0)} }),
		"(time.Time).Local":     timeFn(func(a []*Term) []*Term { return []*Term{a[0], Sym("time.Local", SInt)} }),
		"(time.Time).Add":       timeFn(func(a []*Term) []*Term { return []*Term{Add(a[0], a[2]), a[1]} }),
		"(time.Time).Sub":       timeFn(func(a []*Term) []*Term { return []*Term{Sub(a[0], a[2])} }),
		"time.Unix":             timeFn(func(a []*Term) []*Term { return []*Term{Add(Mul(a[0], IntC(1000000000)), a[1]), Sym("time.Local", SInt)} }),
		"time.UnixMilli":        timeFn(func(a []*Term) []*Term { return []*Term{Mul(a[0], IntC(1000000)), Sym("time.Local", SInt)} }),
		"(time.Time).Truncate": timeFn(func(a []*Term) []*Term {
			// relative to the zero time, which is a whole number of hours before the epoch
			d := a[2]
			rel := Sub(a[0], TimeZero)
			return []*Term{Ite(Le(d, IntC(0)), a[0], Sub(a[0], ModT(rel, d))), a[1]}
		}),
		"(time.Time).Format": timeFn(func(a []*Term) []*Term { return []*Term{UF("fmtTime", SStr, a[2], a[0], a[1])} }),
		"(time.Duration).Milliseconds": timeFn(func(a []*Term) []*Term { return []*Term{truncDiv(a[0], 1000000)} }),
		"(time.Duration).Nanoseconds":  timeFn(func(a []*Term) []*Term { return []*Term{a[0]} }),
		"path/filepath.Join": func(x *Exec, st *State, f *Frame, fn *ssa.Function, args []Val, cs callSite) bool {
			es, ok := x.variadic(st, args[0])
			if !ok || len(es) == 0 {
				return ret1(x, st, cs, st.havoc("join", fn.Signature.Results().At(0).Type()))
			}
			r := es[0]
			for _, e := range es[1:] {
				r = UF("join", SStr, r, e)
			}
			return ret1(x, st, cs, scalar(fn.Signature.Results().At(0).Type(), r))
		},
		"strconv.Itoa": pureStr(func(a []*Term) *Term { return UF("itoa", SStr, a[0]) }),
		"encoding/hex.EncodeToString": pureStr(func(a []*Term) *Term { return UF("hex", SStr, a[0]) }),
	}
}

func truncDiv(a *Term, k int64) *Term {
	return Ite(Ge(a, IntC(0)), DivT(a, IntC(k)), Sub(IntC(0), DivT(Sub(IntC(0), a), IntC(k))))
}

func sortedSet(m map[string]bool) []string {
	var o []string
	for k := range m {
		o = append(o, k)
	}
	sort.Strings(o)
	return o
}
