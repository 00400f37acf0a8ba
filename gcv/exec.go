package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Obl is one proof obligation: the assumptions imply the goal.
type Obl struct {
	Name  string // stable name: function/kind/label
	Fn    string
	Kind  string
	Prop  string
	Pos   string
	As    []*Term
	Goal  *Term
	Trace []string
	Vals  []*Term
	Res   Result
	Back  string
	Msg   string
	Millis int64
	lemmaIdx int
}

type Exec struct {
	w      *World
	fn     *ssa.Function
	spec   *FuncSpec
	prop   string
	entry  *State
	params []Val
	obls   []*Obl
	quiet  int // >0: no obligations, exits of the explored loop dropped
	noinv  int // >0: nested loops get no invariants (mod-set discovery)
	work   []*State
	paths  int
	steps  int
	assum  map[string]bool // assumptions used
	used   map[string]bool // contracts used
	inlined map[string]bool
	reached map[string]bool
	nRet   int
	loopLog []string
	effort   int
	t0       time.Time
	deadline time.Time
	mayNil map[*Term]bool
	houdini map[string]map[string]bool // loop key -> candidates known to fail (hint only)
	smoke  []*Obl
	heapSorts map[string]*Term
	invUsed map[string]bool
	invProved, invObls int
	err    string
}

type stopPath struct{ why string }

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.w.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", strings.TrimPrefix(q.Filename, repoGo+"/"), q.Line)
}

func (x *Exec) oblige(st *State, kind, label string, goal *Term, pos token.Pos, prop string) {
	if x.quiet > 0 || st.dead {
		return
	}
	o := &Obl{Name: shortFn(x.fn) + "/" + kind + "/" + label, Fn: shortFn(x.fn), Kind: kind, Prop: prop, Pos: x.pos(pos), As: append([]*Term(nil), st.pc...), Goal: goal,
		Trace: append([]string(nil), st.trace...)}
	for _, v := range x.params {
		o.Vals = append(o.Vals, v.L...)
	}
	x.obls = append(x.obls, o)
}

func shortFn(f *ssa.Function) string { return shortKey(f.RelString(nil)) }

const repoGo = "/repo/go"

// ---- running ----

func (x *Exec) run(st *State) {
	save := x.work
	x.work = []*State{st}
	for len(x.work) > 0 {
		s := x.work[len(x.work)-1]
		x.work = x.work[:len(x.work)-1]
		x.runPath(s)
	}
	x.work = save
}

func (x *Exec) push(st *State) { x.work = append(x.work, st) }

func (x *Exec) runPath(st *State) {
	for {
		if st.dead || len(st.frames) == 0 {
			return
		}
		x.steps++
		if x.steps%256 == 0 && (time.Now().After(x.deadline) || hurryCtx.Err() != nil) {
			panic(unsupported("execution time limit"))
		}
		f := st.top()
		if f.pc >= len(f.block.Instrs) {
			panic("fell off block")
		}
		ins := f.block.Instrs[f.pc]
		f.pc++
		if !x.step(st, f, ins) {
			return
		}
	}
}

func (x *Exec) val(st *State, f *Frame, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return constVal(c)
	case *ssa.Global:
		return x.w.globalPtr(st, c)
	case *ssa.Function:
		return Val{T: c.Type(), L: []*Term{Sym("fn:"+c.String(), SFn)}, F: &FuncV{Fn: c}}
	case *ssa.Builtin:
		return Val{T: c.Type()}
	case *ssa.FreeVar:
		for i, fv := range f.fn.FreeVars {
			if fv == c {
				return f.free[i]
			}
		}
	}
	if r, ok := f.env[v]; ok {
		return r
	}
	panic(unsupported(fmt.Sprintf("value %s (%T) in %s has no binding", v.Name(), v, f.fn)))
}

func constVal(c *ssa.Const) Val {
	t := c.Type()
	if c.Value == nil {
		return zeroVal(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return scalar(t, BoolC(constant.BoolVal(c.Value)))
	case constant.String:
		return scalar(t, StrC(constant.StringVal(c.Value)))
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&(types.IsFloat|types.IsComplex) != 0 {
			return scalar(t, Sym("flt:"+c.Value.ExactString(), SFlt))
		}
		i, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if !ok {
			panic(unsupported("const " + c.String()))
		}
		return scalar(t, IntBig(i))
	case constant.Float:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			i, _ := new(big.Int).SetString(constant.ToInt(c.Value).ExactString(), 10)
			return scalar(t, IntBig(i))
		}
		return scalar(t, Sym("flt:"+c.Value.ExactString(), SFlt))
	}
	panic(unsupported("const " + c.String()))
}

func (x *Exec) set(st *State, v ssa.Value, r Val) {
	if r.T == nil {
		r.T = v.Type()
	}
	st.top().env[v] = r
}

// decide returns 1/0 when the condition is known on this path, -1 otherwise.
func (st *State) decide(c *Term) int {
	if c == True {
		return 1
	}
	if c == False {
		return 0
	}
	n := Not(c)
	for _, p := range st.pc {
		if p == c {
			return 1
		}
		if p == n {
			return 0
		}
	}
	if c.kind == KApp && c.op == "and" {
		all := true
		for _, a := range c.args {
			d := st.decide(a)
			if d == 0 {
				return 0
			}
			if d != 1 {
				all = false
			}
		}
		if all {
			return 1
		}
	}
	if c.kind == KApp && c.op == "or" {
		all := true
		for _, a := range c.args {
			d := st.decide(a)
			if d == 1 {
				return 1
			}
			if d != 0 {
				all = false
			}
		}
		if all {
			return 0
		}
	}
	if c.kind == KApp && c.op == "not" {
		switch st.decide(c.args[0]) {
		case 0:
			return 1
		case 1:
			return 0
		}
	}
	return -1
}

// feasible prunes contradictory paths (unknown counts as feasible).
func (x *Exec) feasible(st *State, c *Term) bool {
	if st.dead {
		return false
	}
	as := append(st.pc[:len(st.pc):len(st.pc)], c)
	if x.noinv > 0 { // only what the loop may write is asked: paths too many do no harm
		return x.w.solver.Abs(groundOnly(as), nil, 200) != Proved
	}
	return x.w.solver.Abs(as, nil, 500) != Proved
}

func (x *Exec) branch(st *State, c *Term) (t, e *State) {
	switch st.decide(c) {
	case 1:
		return st, nil
	case 0:
		return nil, st
	}
	ft := x.feasible(st, c)
	fe := x.feasible(st, Not(c))
	switch {
	case ft && fe:
		e = st.clone()
		st.assume(c)
		e.assume(Not(c))
		return st, e
	case ft:
		st.assume(c)
		return st, nil
	case fe:
		st.assume(Not(c))
		return nil, st
	}
	st.dead = true
	return nil, nil
}

func (x *Exec) step(st *State, f *Frame, ins ssa.Instruction) bool {
	switch i := ins.(type) {
	case *ssa.DebugRef:
	case *ssa.Phi:
		// handled on block entry
	case *ssa.If:
		c := x.val(st, f, i.Cond).term()
		tb, eb := f.block.Succs[0], f.block.Succs[1]
		a, b := x.branch(st, c)
		if b != nil {
			b.trace = append(b.trace, x.pos(i.Cond.Pos())+" else")
			ok := x.jump(b, eb)
			if a == nil {
				return ok
			}
			if ok {
				x.push(b)
			}
		}
		if a != nil {
			a.trace = append(a.trace, x.pos(i.Cond.Pos())+" then")
			return x.jump(a, tb)
		}
		return false
	case *ssa.Jump:
		return x.jump(st, f.block.Succs[0])
	case *ssa.Return:
		var rs []Val
		for _, r := range i.Results {
			rs = append(rs, x.val(st, f, r))
		}
		return x.ret(st, rs)
	case *ssa.Panic:
		return x.endThread(st, "panic", i.Pos())
	case *ssa.RunDefers:
		if n := len(f.defers); n > 0 {
			d := f.defers[n-1]
			f.defers = f.defers[:n-1]
			f.pc-- // come back for the next one
			return x.callDeferred(st, f, d)
		}
	case *ssa.Defer:
		d := deferred{call: &i.Call}
		for _, a := range i.Call.Args {
			d.args = append(d.args, x.val(st, f, a))
		}
		if i.Call.IsInvoke() || i.Call.StaticCallee() == nil {
			if _, ok := i.Call.Value.(*ssa.Builtin); !ok {
				d.fn = x.val(st, f, i.Call.Value)
			}
		} else {
			d.fn = x.val(st, f, i.Call.Value)
		}
		f.defers = append(f.defers, d)
	case *ssa.Go:
		return x.goStmt(st, f, i)
	case *ssa.Call:
		return x.call(st, f, &i.Call, i)
	case *ssa.Store:
		a := st.addrOf(x.val(st, f, i.Addr))
		v := x.val(st, f, i.Val)
		x.nilCheck(st, f, i.Addr, i.Pos())
		st.storeTo(a, x.conv(v, a.T))
		x.keepMeta(st, a, v)
	case *ssa.MapUpdate:
		m := x.val(st, f, i.Map)
		mt := i.Map.Type().Underlying().(*types.Map)
		st.assume(Neq(m.term(), IntC(0)))
		st.mapSet(mt, m.term(), x.mapKey(st, x.val(st, f, i.Key)), x.val(st, f, i.Value))
	case *ssa.Send:
		return x.send(st, f, x.val(st, f, i.Chan), x.val(st, f, i.X), i.Pos())
	case ssa.Value:
		return x.stepValue(st, f, i)
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", ins)))
	}
	return true
}

func (x *Exec) conv(v Val, t types.Type) Val {
	v.T = t
	return v
}

// keepMeta remembers function values and dynamic interface values stored in cells.
func (x *Exec) keepMeta(st *State, a *Addr, v Val) {
	if a.Elem || a.Byte != nil {
		return
	}
	k := heapName(a, "") + "@" + fmt.Sprint(a.Ref.id)
	if v.F != nil || v.D != nil || (v.A != nil && v.L[0] != a.Ref) {
		st.meta[k] = v
	} else {
		delete(st.meta, k)
	}
}

func (x *Exec) getMeta(st *State, a *Addr, v Val) Val {
	if a.Elem || a.Byte != nil || len(v.L) != 1 {
		return v
	}
	if m, ok := st.meta[heapName(a, "")+"@"+fmt.Sprint(a.Ref.id)]; ok && len(m.L) == 1 && m.L[0] == v.L[0] {
		v.F, v.D, v.A = m.F, m.D, m.A
	}
	return v
}

func (x *Exec) nilCheck(st *State, f *Frame, v ssa.Value, pos token.Pos) {
	p := x.val(st, f, v)
	if p.A != nil && (p.A.Path != "" || p.A.Elem) {
		return
	}
	if len(p.L) != 1 || p.L[0].kind == KInt && p.L[0].ival.Sign() != 0 {
		return
	}
	if _, ok := freshRef(p.L[0]); ok {
		return
	}
	x.mustNotPanic(st, Neq(p.L[0], IntC(0)), "nil dereference", pos)
}

// mustNotPanic: with nopanic the condition is an obligation; in any case the path continues only if it holds.
func (x *Exec) mustNotPanic(st *State, c *Term, what string, pos token.Pos) {
	if c == True {
		return
	}
	if x.spec != nil && x.spec.noPanicFor(x.prop) {
		if st.decide(c) != 1 {
			x.oblige(st, "nopanic", what+"@"+shortFn(st.top().fn), c, pos, x.prop)
		}
	}
	st.assume(c)
}

// ---- control flow ----

// jump moves the top frame to a block; false if the path is suspended or finished.
func (x *Exec) jump(st *State, to *ssa.BasicBlock) bool {
	f := st.top()
	from := f.block
	li := x.w.loopsOf(f.fn)
	// leaving loops
	for h, lc := range f.active {
		if !lc.body[to] {
			delete(f.active, h)
			if lc.onExit != nil {
				lc.onExit(st)
				return false
			}
		}
	}
	if body, ok := li[to]; ok {
		if lc, act := f.active[to]; act {
			// back edge
			x.phis(st, f, from, to)
			f.prev, f.block, f.pc = from, to, x.firstNonPhi(to)
			lc.onBack(st)
			return false
		}
		return x.enterLoop(st, f, from, to, body)
	}
	x.phis(st, f, from, to)
	f.prev, f.block, f.pc = from, to, x.firstNonPhi(to)
	return true
}

func (x *Exec) firstNonPhi(b *ssa.BasicBlock) int {
	n := 0
	for _, i := range b.Instrs {
		if _, ok := i.(*ssa.Phi); ok {
			n++
		} else {
			break
		}
	}
	return n
}

func (x *Exec) phis(st *State, f *Frame, from, to *ssa.BasicBlock) {
	idx := -1
	for k, p := range to.Preds {
		if p == from {
			idx = k
		}
	}
	type pv struct {
		p *ssa.Phi
		v Val
	}
	var out []pv
	for _, i := range to.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, pv{p, x.val(st, f, p.Edges[idx])})
	}
	for _, o := range out {
		v := o.v
		v.T = o.p.Type()
		f.env[o.p] = v
	}
}

func (x *Exec) ret(st *State, rs []Val) bool {
	f := st.top()
	for _, lc := range f.active {
		if lc.onExit != nil {
			return false // leaves a loop under exploration
		}
	}
	if f.onRet != nil {
		return f.onRet(st, rs)
	}
	st.frames = st.frames[:len(st.frames)-1]
	if len(st.frames) == 0 {
		return false
	}
	if f.drain {
		return true
	}
	if f.retTo != nil {
		x.bindResults(st, f.retTo, rs)
	}
	return true
}

func (x *Exec) bindResults(st *State, to ssa.Value, rs []Val) {
	if tp, ok := to.Type().(*types.Tuple); ok {
		v := Val{T: tp}
		for k, r := range rs {
			r.T = tp.At(k).Type()
			v.Tup = append(v.Tup, r)
		}
		x.set(st, to, v)
		return
	}
	if len(rs) == 1 {
		r := rs[0]
		r.T = to.Type()
		x.set(st, to, r)
	}
}

// endThread: process exit or panic. In a goroutine the rest of the program may still run for a while.
func (x *Exec) endThread(st *State, why string, pos token.Pos) bool {
	if why == "panic" && x.spec != nil && x.spec.noPanicFor(x.prop) {
		x.oblige(st, "nopanic", "panic@"+shortFn(st.top().fn), False, pos, x.prop)
	}
	for k := len(st.frames) - 1; k >= 0; k-- {
		for _, lc := range st.frames[k].active {
			if lc.onExit != nil {
				return false
			}
		}
		if st.frames[k].isGo {
			st.frames = st.frames[:k]
			st.trace = append(st.trace, x.pos(pos)+" goroutine stops: "+why)
			return len(st.frames) > 0
		}
	}
	if x.spec != nil && x.quiet == 0 {
		x.checkExit(st, pos)
	}
	return false
}

func (x *Exec) pushFrame(st *State, fn *ssa.Function, args []Val, free []Val, retTo ssa.Value) *Frame {
	if fn.Blocks == nil {
		panic(unsupported("no body for " + fn.String()))
	}
	n := 0
	for _, fr := range st.frames {
		if fr.fn == fn {
			n++
		}
	}
	if n > 2 || len(st.frames) > 40 {
		panic(unsupported("recursion through " + fn.String()))
	}
	x.inlined[shortFn(fn)] = true
	fr := &Frame{fn: fn, block: fn.Blocks[0], env: map[ssa.Value]Val{}, free: free, retTo: retTo, active: map[*ssa.BasicBlock]*LoopCtx{}}
	if len(args) != len(fn.Params) {
		panic(unsupported(fmt.Sprintf("arity of %s: %d args %d params", fn, len(args), len(fn.Params))))
	}
	for k, p := range fn.Params {
		a := args[k]
		a.T = p.Type()
		fr.env[p] = a
	}
	st.frames = append(st.frames, fr)
	return fr
}

// ---- values ----

func (x *Exec) stepValue(st *State, f *Frame, v ssa.Value) bool {
	switch i := v.(type) {
	case *ssa.Alloc:
		t := deref(i.Type())
		ref := st.alloc()
		p := Val{T: i.Type(), L: []*Term{ref}}
		a := st.addrOf(p)
		if arr, ok := t.Underlying().(*types.Array); ok && !isByte(arr.Elem()) && len(leaves(t)) == 1 && leaves(t)[0].Sort == SOpq {
			for _, l := range leaves(arr.Elem()) {
				hs := heapSort(true, l.Sort)
				_, in := arrParts(hs)
				st.setHeap("E:"+typeKey(arr.Elem())+l.Path, hs, ref, ConstArr(in, zeroLeaf(l)))
			}
		} else {
			st.storeTo(a, zeroVal(t))
		}
		p.A = a
		x.set(st, v, p)
	case *ssa.FieldAddr:
		p := x.val(st, f, i.X)
		x.nilCheck(st, f, i.X, i.Pos())
		a := st.addrOf(p)
		stt := deref(i.X.Type())
		fld := stt.Underlying().(*types.Struct).Field(i.Field)
		x.set(st, v, st.ptrVal(i.Type(), a.with("."+fld.Name(), fld.Type())))
	case *ssa.Field:
		s := x.val(st, f, i.X)
		r, ok := s.field(i.Field)
		if !ok {
			fld := s.T.Underlying().(*types.Struct).Field(i.Field)
			r = Val{T: fld.Type()}
			for _, l := range leaves(fld.Type()) {
				r.L = append(r.L, UF("fld:"+typeKey(s.T)+"."+fld.Name()+l.Path, l.Sort, s.L[0]))
			}
			st.valFacts(r)
		}
		x.set(st, v, r)
	case *ssa.IndexAddr:
		base := x.val(st, f, i.X)
		idx := x.val(st, f, i.Index).term()
		switch t := i.X.Type().Underlying().(type) {
		case *types.Slice:
			x.mustNotPanic(st, And(Le(IntC(0), idx), Lt(idx, base.L[2])), "index", i.Pos())
			a := &Addr{Elem: true, Ref: base.L[0], Idx: Add(base.L[1], idx), Root: t.Elem(), T: t.Elem()}
			x.set(st, v, st.ptrVal(i.Type(), a))
		case *types.Pointer:
			arr := t.Elem().Underlying().(*types.Array)
			x.mustNotPanic(st, And(Le(IntC(0), idx), Lt(idx, IntC(arr.Len()))), "index", i.Pos())
			a := st.addrOf(base)
			var b *Addr
			switch {
			case a.Elem && a.Idx == nil:
				b = &Addr{Elem: true, Ref: a.Ref, Idx: idx, Root: arr.Elem(), T: arr.Elem()}
			case isByte(arr.Elem()):
				c := *a
				c.Byte, c.T = idx, arr.Elem()
				b = &c
			case idx.kind == KInt && len(leaves(a.T)) != 1:
				b = a.with(fmt.Sprintf("[%d]", idx.ival.Int64()), arr.Elem())
			default:
				panic(unsupported("index of embedded array"))
			}
			x.set(st, v, st.ptrVal(i.Type(), b))
		default:
			panic(unsupported("IndexAddr " + i.X.Type().String()))
		}
	case *ssa.Index:
		base := x.val(st, f, i.X)
		idx := x.val(st, f, i.Index).term()
		if _, ok := isByteArray(i.X.Type()); ok || base.L[0].sort == SStr {
			x.mustNotPanic(st, And(Le(IntC(0), idx), Lt(idx, SLen(base.L[0]))), "index", i.Pos())
			c := StrAtCode(base.L[0], idx)
			st.assume(Le(IntC(0), c), Le(c, IntC(255)))
			x.set(st, v, scalar(i.Type(), c))
			return true
		}
		x.set(st, v, st.havoc("idx", i.Type()))
	case *ssa.Lookup:
		if m, ok := i.X.Type().Underlying().(*types.Map); ok {
			mv := x.val(st, f, i.X)
			k := x.mapKey(st, x.val(st, f, i.Index))
			r, in := st.mapGet(m, mv.term(), k)
			r.T = m.Elem()
			if i.CommaOk {
				x.set(st, v, Val{T: i.Type(), Tup: []Val{r, scalar(types.Typ[types.Bool], in)}})
			} else {
				x.set(st, v, r)
			}
			return true
		}
		s := x.val(st, f, i.X).term()
		idx := x.val(st, f, i.Index).term()
		x.mustNotPanic(st, And(Le(IntC(0), idx), Lt(idx, SLen(s))), "index", i.Pos())
		c := StrAtCode(s, idx)
		st.assume(Le(IntC(0), c), Le(c, IntC(255)))
		x.set(st, v, scalar(i.Type(), c))
	case *ssa.UnOp:
		return x.unop(st, f, i)
	case *ssa.BinOp:
		r := x.binop(st, i.Op, x.val(st, f, i.X), x.val(st, f, i.Y), i.Type(), i.Pos())
		x.set(st, v, r)
	case *ssa.ChangeType:
		r := x.val(st, f, i.X)
		r.T = i.Type()
		x.set(st, v, r)
	case *ssa.ChangeInterface:
		r := x.val(st, f, i.X)
		r.T = i.Type()
		x.set(st, v, r)
	case *ssa.MakeInterface:
		x.set(st, v, st.mkIface(i.Type(), x.val(st, f, i.X)))
	case *ssa.Convert:
		x.set(st, v, x.convert(st, x.val(st, f, i.X), i.Type()))
	case *ssa.SliceToArrayPointer:
		s := x.val(st, f, i.X)
		at := deref(i.Type())
		n, ok := isByteArray(at)
		if !ok {
			panic(unsupported("SliceToArrayPointer"))
		}
		x.mustNotPanic(st, Ge(s.L[2], IntC(n)), "slice to array", i.Pos())
		// read-only view: used as [N]byte(slice)
		ref := st.alloc()
		c := Substr(st.sel(st.heap("B", ArrSort(SInt, SStr)), s.L[0]), s.L[1], IntC(n))
		st.setHeap("B", ArrSort(SInt, SStr), ref, c)
		x.set(st, v, Val{T: i.Type(), L: []*Term{ref}, A: &Addr{Elem: true, Ref: ref, Root: at.Underlying().(*types.Array).Elem(), T: at}})
	case *ssa.TypeAssert:
		return x.typeAssert(st, f, i)
	case *ssa.Extract:
		t := x.val(st, f, i.Tuple)
		if i.Index >= len(t.Tup) {
			panic(unsupported("extract"))
		}
		r := t.Tup[i.Index]
		r.T = i.Type()
		x.set(st, v, r)
	case *ssa.MakeSlice:
		n := x.val(st, f, i.Len).term()
		c := x.val(st, f, i.Cap).term()
		el := i.Type().Underlying().(*types.Slice).Elem()
		x.mustNotPanic(st, And(Le(IntC(0), n), Le(n, c)), "make", i.Pos())
		ref := st.alloc()
		if isByte(el) {
			var z *Term
			if c.kind == KInt && c.ival.IsInt64() && c.ival.Int64() <= 64 {
				z = zeroBytes(c.ival.Int64())
			} else {
				z = UF("zeroBytes", SStr, c)
				st.assume(Eq(SLen(z), c))
			}
			st.setHeap("B", ArrSort(SInt, SStr), ref, z)
		} else {
			for _, l := range leaves(el) {
				hs := heapSort(true, l.Sort)
				_, in := arrParts(hs)
				st.setHeap("E:"+typeKey(el)+l.Path, hs, ref, ConstArr(in, zeroLeaf(l)))
			}
		}
		st.assume(Le(n, IntBig(new(big.Int).Sub(pow2(62), bigOne))))
		x.set(st, v, Val{T: i.Type(), L: []*Term{ref, IntC(0), n, c}})
	case *ssa.MakeMap:
		x.set(st, v, st.newMap(i.Type()))
	case *ssa.MakeChan:
		ref := st.alloc()
		st.chanInit(i.Type(), ref)
		st.assume(UF("exclusive", SBool, ref))
		x.set(st, v, scalar(i.Type(), ref))
	case *ssa.MakeClosure:
		fv := &FuncV{Fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			fv.Bind = append(fv.Bind, x.val(st, f, b))
		}
		x.set(st, v, Val{T: i.Type(), L: []*Term{st.fresh("closure", SFn)}, F: fv})
	case *ssa.Slice:
		x.set(st, v, x.slice(st, f, i))
	case *ssa.Range:
		m, ok := i.X.Type().Underlying().(*types.Map)
		if !ok {
			panic(unsupported("range over " + i.X.Type().String()))
		}
		_, ks, _, _ := mapNames(m)
		key := iterKey(f, i)
		st.iters[key] = ConstArr(ArrSort(ks, SBool), False)
		st.logWrite("I:"+key, nil)
		r := x.val(st, f, i.X)
		x.set(st, v, Val{T: i.Type(), Tup: []Val{r}})
	case *ssa.Next:
		return x.next(st, f, i)
	case *ssa.Select:
		return x.selectStmt(st, f, i)
	case *ssa.MultiConvert:
		panic(unsupported("multiconvert"))
	default:
		panic(unsupported(fmt.Sprintf("value %T", v)))
	}
	return true
}

func iterKey(f *Frame, r *ssa.Range) string {
	return fmt.Sprintf("%s.%s", f.fn.RelString(nil), r.Name())
}

func (x *Exec) mapKey(st *State, k Val) *Term {
	if len(k.L) != 1 {
		panic(unsupported("map key"))
	}
	return k.L[0]
}

func (st *State) mkIface(t types.Type, v Val) Val {
	if _, ok := v.T.Underlying().(*types.Interface); ok {
		v.T = t
		return v
	}
	d := v
	ls := leaves(v.T)
	if len(ls) == 0 {
		return Val{T: t, L: []*Term{Sym("box:"+typeKey(v.T)+":unit", SIface)}, D: &d}
	}
	b := UF("box:"+typeKey(v.T), SIface, v.L...)
	return Val{T: t, L: []*Term{b}, D: &d}
}

func (x *Exec) unop(st *State, f *Frame, i *ssa.UnOp) bool {
	switch i.Op {
	case token.MUL:
		if g, ok := i.X.(*ssa.Global); ok {
			if v, ok := x.w.globalConst(st, g); ok {
				x.set(st, i, v)
				return true
			}
		}
		x.nilCheck(st, f, i.X, i.Pos())
		a := st.addrOf(x.val(st, f, i.X))
		v := st.load(a)
		v.T = i.Type()
		x.set(st, i, x.getMeta(st, a, v))
	case token.NOT:
		x.set(st, i, scalar(i.Type(), Not(x.val(st, f, i.X).term())))
	case token.SUB:
		v := x.val(st, f, i.X).term()
		if v.sort == SFlt {
			x.set(st, i, scalar(i.Type(), UF("fneg", SFlt, v)))
			return true
		}
		x.set(st, i, scalar(i.Type(), wrap(Sub(IntC(0), v), i.Type())))
	case token.XOR:
		v := x.val(st, f, i.X).term()
		lo, hi, _ := intRange(i.Type())
		if lo.Sign() == 0 {
			x.set(st, i, scalar(i.Type(), Sub(IntBig(hi), v)))
		} else {
			x.set(st, i, scalar(i.Type(), Sub(IntC(-1), v)))
		}
	case token.ARROW:
		return x.recv(st, f, i)
	default:
		panic(unsupported("unop " + i.Op.String()))
	}
	return true
}

func mathInt(t types.Type) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Name() == "Duration" && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "time" {
		return true
	}
	b, ok := t.Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Int || b.Kind() == types.UntypedInt)
}

// wrap reduces a mathematical result of one addition or subtraction to the machine type.
func wrap(r *Term, t types.Type) *Term {
	if mathInt(t) {
		return r
	}
	lo, hi, ok := intRange(t)
	if !ok {
		return r
	}
	if r.kind == KInt {
		return wrapMod(r, t)
	}
	mod := IntBig(new(big.Int).Add(new(big.Int).Sub(hi, lo), bigOne))
	l, h := IntBig(lo), IntBig(hi)
	// cheap cases: adding or subtracting a constant keeps one side in range
	_, off := splitOff(r)
	switch {
	case off.Sign() > 0 && isAtomOff(r):
		return Ite(Gt(r, h), Sub(r, mod), r)
	case off.Sign() < 0 && isAtomOff(r):
		return Ite(Lt(r, l), Add(r, mod), r)
	}
	return Ite(Gt(r, h), Sub(r, mod), Ite(Lt(r, l), Add(r, mod), r))
}

func isAtomOff(r *Term) bool {
	b, _ := splitOff(r)
	return b != nil && !(b.kind == KApp && (b.op == "+" || b.op == "-" || b.op == "*"))
}

func wrapMod(r *Term, t types.Type) *Term {
	lo, hi, ok := intRange(t)
	if !ok || mathInt(t) && r.kind != KInt {
		return r
	}
	mod := new(big.Int).Add(new(big.Int).Sub(hi, lo), bigOne)
	if r.kind == KInt {
		v := new(big.Int).Sub(r.ival, lo)
		v.Mod(v, mod)
		return IntBig(v.Add(v, lo))
	}
	return Add(ModT(Sub(r, IntBig(lo)), IntBig(mod)), IntBig(lo))
}

func (x *Exec) binop(st *State, op token.Token, a, b Val, t types.Type, pos token.Pos) Val {
	switch op {
	case token.EQL, token.NEQ:
		e := x.equal(st, a, b)
		if op == token.NEQ {
			e = Not(e)
		}
		return scalar(t, e)
	}
	p, q := a.term(), b.term()
	if p.sort == SFlt {
		if op == token.LSS || op == token.LEQ || op == token.GTR || op == token.GEQ {
			return scalar(t, UF("f"+op.String(), SBool, p, q))
		}
		return scalar(t, UF("f"+op.String(), SFlt, p, q))
	}
	if p.sort == SStr {
		switch op {
		case token.ADD:
			return scalar(t, Cat(p, q))
		case token.LSS:
			return scalar(t, StrLt(p, q))
		case token.GTR:
			return scalar(t, StrLt(q, p))
		case token.LEQ:
			return scalar(t, Not(StrLt(q, p)))
		case token.GEQ:
			return scalar(t, Not(StrLt(p, q)))
		}
	}
	if p.sort == SBool {
		switch op {
		case token.AND:
			return scalar(t, And(p, q))
		case token.OR:
			return scalar(t, Or(p, q))
		}
	}
	switch op {
	case token.LSS:
		return scalar(t, Lt(p, q))
	case token.LEQ:
		return scalar(t, Le(p, q))
	case token.GTR:
		return scalar(t, Gt(p, q))
	case token.GEQ:
		return scalar(t, Ge(p, q))
	case token.ADD:
		return scalar(t, wrap(Add(p, q), t))
	case token.SUB:
		return scalar(t, wrap(Sub(p, q), t))
	case token.MUL:
		return scalar(t, wrapMod(Mul(p, q), t))
	case token.QUO, token.REM:
		x.mustNotPanic(st, Neq(q, IntC(0)), "division by zero", pos)
		lo, _, _ := intRange(t)
		var dv, md *Term
		if lo != nil && lo.Sign() == 0 {
			dv, md = DivT(p, q), ModT(p, q)
		} else {
			ap := Ite(Lt(p, IntC(0)), Sub(IntC(0), p), p)
			aq := Ite(Lt(q, IntC(0)), Sub(IntC(0), q), q)
			d, m := DivT(ap, aq), ModT(ap, aq)
			if q.kind == KInt && q.ival.Sign() > 0 {
				dv = Ite(Lt(p, IntC(0)), Sub(IntC(0), d), d)
			} else {
				dv = Ite(Eq(BoolC(true), And(Lt(p, IntC(0)), Ge(q, IntC(0)))), Sub(IntC(0), d), Ite(And(Ge(p, IntC(0)), Lt(q, IntC(0))), Sub(IntC(0), d), d))
			}
			md = Ite(Lt(p, IntC(0)), Sub(IntC(0), m), m)
		}
		if op == token.QUO {
			return scalar(t, wrap(dv, t))
		}
		return scalar(t, md)
	case token.SHL:
		if q.kind == KInt && q.ival.IsInt64() && q.ival.Int64() < 128 {
			return scalar(t, wrapMod(Mul(p, IntBig(pow2(uint(q.ival.Int64())))), t))
		}
		if p.kind == KInt && p.ival.Cmp(bigOne) == 0 {
			if _, hi, ok := intRange(t); ok {
				bitsN := hi.BitLen()
				r := Ite(Lt(q, IntC(int64(bitsN))), UF("pow2", SInt, q), UF("bv.shl", SInt, p, q))
				return scalar(t, r)
			}
		}
		return x.bvop(st, "bv.shl", p, q, t)
	case token.SHR:
		if q.kind == KInt && q.ival.IsInt64() && q.ival.Int64() < 128 {
			return scalar(t, DivT(p, IntBig(pow2(uint(q.ival.Int64())))))
		}
		return x.bvop(st, "bv.shr", p, q, t)
	case token.AND:
		if q.kind == KInt && q.ival.Sign() >= 0 && new(big.Int).And(q.ival, new(big.Int).Add(q.ival, bigOne)).Sign() == 0 {
			return scalar(t, ModT(p, IntBig(new(big.Int).Add(q.ival, bigOne))))
		}
		return x.bvop(st, "bv.and", p, q, t)
	case token.OR:
		return x.bvop(st, "bv.or", p, q, t)
	case token.XOR:
		return x.bvop(st, "bv.xor", p, q, t)
	case token.AND_NOT:
		return x.bvop(st, "bv.andnot", p, q, t)
	}
	panic(unsupported("binop " + op.String()))
}

func (x *Exec) bvop(st *State, name string, p, q *Term, t types.Type) Val {
	if p.kind == KInt && q.kind == KInt && p.ival.Sign() >= 0 && q.ival.Sign() >= 0 {
		r := new(big.Int)
		switch name {
		case "bv.and":
			return scalar(t, IntBig(r.And(p.ival, q.ival)))
		case "bv.or":
			return scalar(t, IntBig(r.Or(p.ival, q.ival)))
		case "bv.xor":
			return scalar(t, IntBig(r.Xor(p.ival, q.ival)))
		}
	}
	if (name == "bv.and" || name == "bv.or" || name == "bv.xor") && p.id > q.id {
		p, q = q, p
	}
	r := scalar(t, UF(name, SInt, p, q))
	st.valFacts(r)
	return r
}

func (x *Exec) equal(st *State, a, b Val) *Term {
	ai, aok := a.T.Underlying().(*types.Interface)
	bi, bok := b.T.Underlying().(*types.Interface)
	_, _ = ai, bi
	if aok && !bok {
		b = st.mkIface(a.T, b)
	} else if bok && !aok {
		a = st.mkIface(b.T, a)
	}
	if _, ok := a.T.Underlying().(*types.Slice); ok {
		// only comparison with nil is legal
		for _, v := range []Val{a, b} {
			if x.mayNil[v.L[0]] {
				// a slice that a contract calls fresh may also be nil when it is empty
				nb := UF("nilSlice", SBool, v.L[0])
				st.assume(Implies(nb, Eq(v.L[2], IntC(0))))
				return nb
			}
		}
		return Eq(a.L[0], b.L[0])
	}
	if len(a.L) != len(b.L) {
		if len(a.L) == 1 && a.L[0].sort == SFn {
			return Eq(a.L[0], b.L[0])
		}
		panic(unsupported("comparison of " + a.T.String() + " and " + b.T.String()))
	}
	if len(a.L) == 1 && a.L[0].sort == SFn {
		if a.F != nil && b.L[0].op == "nilFn" || b.F != nil && a.L[0].op == "nilFn" {
			return False
		}
	}
	var cs []*Term
	for k := range a.L {
		cs = append(cs, Eq(a.L[k], b.L[k]))
	}
	return And(cs...)
}

func (x *Exec) convert(st *State, v Val, t types.Type) Val {
	from, to := v.T.Underlying(), t.Underlying()
	if fb, ok := from.(*types.Basic); ok {
		if tb, ok := to.(*types.Basic); ok {
			switch {
			case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsInteger != 0:
				flo, fhi, _ := intRange(v.T)
				tlo, thi, _ := intRange(t)
				if tlo.Cmp(flo) <= 0 && thi.Cmp(fhi) >= 0 {
					return scalar(t, v.term())
				}
				mod := new(big.Int).Add(new(big.Int).Sub(thi, tlo), bigOne)
				p := v.term()
				if p.kind == KInt {
					return scalar(t, wrapModForce(p, t))
				}
				if new(big.Int).Sub(fhi, flo).Cmp(new(big.Int).Sub(thi, tlo)) == 0 {
					if tlo.Sign() == 0 { // signed -> unsigned of the same width
						return scalar(t, Ite(Lt(p, IntC(0)), Add(p, IntBig(mod)), p))
					}
					return scalar(t, Ite(Gt(p, IntBig(thi)), Sub(p, IntBig(mod)), p))
				}
				return scalar(t, Add(ModT(Sub(p, IntBig(tlo)), IntBig(mod)), IntBig(tlo)))
			case fb.Info()&types.IsString != 0 && tb.Info()&types.IsString != 0:
				return scalar(t, v.term())
			case fb.Info()&types.IsInteger != 0 && tb.Info()&types.IsString != 0:
				return scalar(t, UF("runeString", SStr, v.term()))
			case tb.Info()&types.IsFloat != 0:
				return scalar(t, UF("toFlt:"+fb.Name(), SFlt, v.term()))
			case fb.Info()&types.IsFloat != 0 && tb.Info()&types.IsInteger != 0:
				r := scalar(t, UF("fltToInt:"+tb.Name(), SInt, v.term()))
				st.valFacts(r)
				return r
			}
		}
		if _, ok := to.(*types.Slice); ok && fb.Info()&types.IsString != 0 {
			if isByteSlice(t) {
				return st.newBytes(t, v.term())
			}
		}
	}
	if isByteSlice(v.T) {
		if tb, ok := to.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
			return scalar(t, st.bytesOf(v))
		}
	}
	if types.Identical(from, to) {
		v.T = t
		return v
	}
	if len(leaves(v.T)) == len(leaves(t)) {
		v.T = t
		return v
	}
	panic(unsupported("convert " + v.T.String() + " to " + t.String()))
}

func wrapModForce(r *Term, t types.Type) *Term {
	lo, hi, _ := intRange(t)
	mod := new(big.Int).Add(new(big.Int).Sub(hi, lo), bigOne)
	v := new(big.Int).Sub(r.ival, lo)
	v.Mod(v, mod)
	return IntBig(v.Add(v, lo))
}

func (x *Exec) slice(st *State, f *Frame, i *ssa.Slice) Val {
	base := x.val(st, f, i.X)
	var lo, hi *Term
	lo = IntC(0)
	if i.Low != nil {
		lo = x.val(st, f, i.Low).term()
	}
	if i.High != nil {
		hi = x.val(st, f, i.High).term()
	}
	switch t := i.X.Type().Underlying().(type) {
	case *types.Basic: // string
		s := base.term()
		n := SLen(s)
		if hi == nil {
			hi = n
		}
		x.mustNotPanic(st, And(Le(IntC(0), lo), Le(lo, hi), Le(hi, n)), "slice bounds", i.Pos())
		return scalar(i.Type(), Substr(s, lo, Sub(hi, lo)))
	case *types.Slice:
		if hi == nil {
			hi = base.L[2]
		}
		cp := base.L[3]
		if i.Max != nil {
			cp = x.val(st, f, i.Max).term()
		}
		x.mustNotPanic(st, And(Le(IntC(0), lo), Le(lo, hi), Le(hi, cp)), "slice bounds", i.Pos())
		r := Val{T: i.Type(), L: []*Term{base.L[0], Add(base.L[1], lo), Sub(hi, lo), Sub(cp, lo)}}
		return r
	case *types.Pointer:
		arr := t.Elem().Underlying().(*types.Array)
		n := IntC(arr.Len())
		if hi == nil {
			hi = n
		}
		x.mustNotPanic(st, And(Le(IntC(0), lo), Le(lo, hi), Le(hi, n)), "slice bounds", i.Pos())
		a := st.addrOf(base)
		if a.Elem && a.Idx == nil {
			return Val{T: i.Type(), L: []*Term{a.Ref, lo, Sub(hi, lo), Sub(n, lo)}}
		}
		if isByte(arr.Elem()) {
			// read-only snapshot of an embedded byte array
			v := st.newBytes(i.Type(), st.loadStr(a))
			x.assum["slices of byte arrays inside structs are treated as copies"] = true
			return Val{T: i.Type(), L: []*Term{v.L[0], lo, Sub(hi, lo), Sub(n, lo)}}
		}
	}
	panic(unsupported("slice of " + i.X.Type().String()))
}

func (x *Exec) typeAssert(st *State, f *Frame, i *ssa.TypeAssert) bool {
	v := x.val(st, f, i.X)
	_, toI := i.AssertedType.Underlying().(*types.Interface)
	var ok *Term
	var r Val
	if v.D != nil {
		if toI {
			ok = BoolC(types.AssertableTo(i.AssertedType.Underlying().(*types.Interface), v.D.T) && types.Implements(v.D.T, i.AssertedType.Underlying().(*types.Interface)))
			r = v
		} else {
			ok = BoolC(types.Identical(v.D.T, i.AssertedType))
			if ok == True {
				r = *v.D
			} else {
				r = zeroVal(i.AssertedType)
			}
		}
	} else if toI {
		ok = UF("implements:"+typeKey(i.AssertedType), SBool, v.term())
		ok = And(ok, Neq(v.term(), NilIface))
		r = v
	} else {
		op := "box:" + typeKey(i.AssertedType)
		ok = And(Neq(v.term(), NilIface), Eq(UF("ifaceTag", SInt, v.term()), IntC(int64(tagID(op)))))
		r = unboxVal(st, i.AssertedType, v.term(), ok)
	}
	r.T = i.AssertedType
	if i.CommaOk {
		z := zeroVal(i.AssertedType)
		out := r
		if ok != True {
			out = Val{T: i.AssertedType}
			for k := range r.L {
				out.L = append(out.L, Ite(ok, r.L[k], z.L[k]))
			}
		}
		x.set(st, i, Val{T: i.Type(), Tup: []Val{out, scalar(types.Typ[types.Bool], ok)}})
		return true
	}
	x.mustNotPanic(st, ok, "type assertion", i.Pos())
	x.set(st, i, r)
	return true
}

func unboxVal(st *State, t types.Type, iv *Term, cond *Term) Val {
	op := "box:" + typeKey(t)
	r := Val{T: t}
	for k, l := range leaves(t) {
		if isBox(iv) && iv.op == op {
			r.L = append(r.L, iv.args[k])
		} else {
			r.L = append(r.L, unboxTerm(op, k, l.Sort, iv))
		}
	}
	if st != nil {
		n := len(st.pc)
		st.valFacts(r)
		facts := append([]*Term(nil), st.pc[n:]...)
		st.pc = st.pc[:n:n]
		st.assume(Implies(cond, And(facts...)))
		if !iv.open && !(isBox(iv) && iv.op == op) && len(r.L) > 0 {
			// a value of that dynamic type is the box of its content
			st.assume(Implies(cond, rawApp("=", SBool, "", iv, UF(op, SIface, r.L...))))
		}
	}
	return r
}

func (x *Exec) next(st *State, f *Frame, i *ssa.Next) bool {
	if i.IsString {
		panic(unsupported("range over string"))
	}
	rg := i.Iter.(*ssa.Range)
	m := rg.X.Type().Underlying().(*types.Map)
	key := iterKey(f, rg)
	vis := st.iters[key]
	mv := x.val(st, f, i.Iter).Tup[0]
	ref := mv.term()
	dom := st.mapDom(m, ref)
	_, ks, _, _ := mapNames(m)
	// done: every key of the map was visited
	d := st.clone()
	kb := BVar("k!n", ks)
	din := rawApp("select", SBool, "", dom, kb)
	if dom.kind == KApp {
		din = Select(dom, kb)
	}
	empty := Eq(ref, IntC(0))
	if _, ok := freshRef(ref); ok {
		empty = False
	}
	d.assume(Or(empty, Forall([]*Term{kb}, Implies(din, Select(vis, kb)))))
	df := d.top()
	df.env[i] = Val{T: i.Type(), Tup: []Val{scalar(types.Typ[types.Bool], False), zeroVal(m.Key()), zeroVal(m.Elem())}}
	d.trace = append(d.trace, "range done")
	x.push(d)
	// another key
	st.assume(Not(empty))
	kv := st.havoc("key", m.Key())
	k := kv.term()
	st.assume(Select(dom, k), Not(Select(vis, k)))
	st.iters[key] = Store(vis, k, True)
	st.logWrite("I:"+key, nil)
	v, _ := st.mapGet(m, ref, k)
	// the key is present
	raw := Val{T: m.Elem()}
	_, _, vn, vl := mapNames(m)
	for j, l := range vl {
		raw.L = append(raw.L, Select(st.sel(st.heap(vn[j], ArrSort(SInt, ArrSort(ks, l.Sort))), ref), k))
	}
	_ = v
	st.valFacts(raw)
	st.top().env[i] = Val{T: i.Type(), Tup: []Val{scalar(types.Typ[types.Bool], True), kv, raw}}
	return true
}

// ---- loops of a function ----

type loopInfo map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool

func findLoops(fn *ssa.Function) loopInfo {
	li := loopInfo{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) { // back edge b->s
				body := li[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					li[s] = body
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[n] {
						continue
					}
					body[n] = true
					stack = append(stack, n.Preds...)
				}
			}
		}
	}
	return li
}

var _ = os.Getenv
var _ = sort.Strings
var _ sync.Mutex
