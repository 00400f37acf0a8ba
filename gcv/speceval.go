package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"
)

// Env evaluates contract expressions in a state.
type Env struct {
	x    *Exec
	st   *State
	old  *State // state old() refers to
	loop *State // state loopentry() refers to
	vars map[string]Val
	get  map[string]func(st *State) Val // lazily bound metavariables
	bnd  map[string]Val
	pos  string
	pure bool // only spec terms, no program state
}

func (e *Env) fail(f string, a ...any) {
	panic(unsupported("contract " + e.pos + ": " + fmt.Sprintf(f, a...)))
}

// sortOf maps a spec type name to a sort; go types yield their type.
func (w *World) sortOf(s string) (Sort, types.Type) {
	s = strings.TrimSpace(s)
	switch s {
	case "int", "ref":
		return SInt, nil
	case "bool":
		return SBool, nil
	case "string", "bytes":
		return SStr, nil
	case "iface", "error":
		return SIface, nil
	case "opq":
		return SOpq, nil
	case "fn":
		return SFn, nil
	}
	if strings.HasPrefix(s, "map[") || strings.HasPrefix(s, "set[") {
		d, k := 0, -1
		for i := 3; i < len(s); i++ {
			if s[i] == '[' {
				d++
			}
			if s[i] == ']' {
				d--
				if d == 0 {
					k = i
					break
				}
			}
		}
		ks, _ := w.sortOf(s[4:k])
		if s[0] == 's' {
			return ArrSort(ks, SBool), nil
		}
		vs, _ := w.sortOf(s[k+1:])
		return ArrSort(ks, vs), nil
	}
	t := w.goType(s)
	if t == nil {
		panic(unsupported("unknown type " + s))
	}
	l := leaves(t)
	if len(l) == 1 {
		return l[0].Sort, t
	}
	return "", t
}

// goType resolves a Go type name such as "*storage.RedisCache", "[]types.Serial" or "map[string]int".
func (w *World) goType(s string) types.Type {
	s = strings.TrimSpace(s)
	switch {
	case s == "":
		return nil
	case strings.HasPrefix(s, "go."):
		return w.goType(s[3:])
	case s == "struct{}":
		return types.NewStruct(nil, nil)
	case s[0] == '*':
		if t := w.goType(s[1:]); t != nil {
			return types.NewPointer(t)
		}
		return nil
	case strings.HasPrefix(s, "[]"):
		if t := w.goType(s[2:]); t != nil {
			return types.NewSlice(t)
		}
		return nil
	case strings.HasPrefix(s, "chan "):
		if t := w.goType(s[5:]); t != nil {
			return types.NewChan(types.SendRecv, t)
		}
		return nil
	case strings.HasPrefix(s, "gomap["):
		d := 0
		for i := 5; i < len(s); i++ {
			if s[i] == '[' {
				d++
			}
			if s[i] == ']' {
				d--
				if d == 0 {
					k, v := w.goType(s[6:i]), w.goType(s[i+1:])
					if k != nil && v != nil {
						return types.NewMap(k, v)
					}
					return nil
				}
			}
		}
	}
	if b := types.Universe.Lookup(s); b != nil {
		if tn, ok := b.(*types.TypeName); ok {
			return tn.Type()
		}
	}
	if t, ok := w.typeIdx[s]; ok {
		return t
	}
	return nil
}

func (e *Env) eval(x *Expr) Val {
	switch x.op {
	case "num":
		v, _ := new(big.Int).SetString(x.name, 10)
		return Val{L: []*Term{IntBig(v)}}
	case "str":
		return Val{L: []*Term{StrC(x.name)}}
	case "id":
		return e.ident(x.name)
	case "un":
		switch x.name {
		case "!":
			return boolV(Not(e.term(x.args[0])))
		case "-":
			return intV(Sub(IntC(0), e.term(x.args[0])))
		case "*":
			p := e.eval(x.args[0])
			if p.T == nil {
				e.fail("dereference of a spec term")
			}
			return e.st.load(e.st.addrOf(p))
		case "&":
			a := e.addr(x.args[0])
			return e.st.ptrVal(types.NewPointer(a.T), a)
		}
	case "bin":
		return e.bin(x)
	case "ite":
		c := e.term(x.args[0])
		a, b := e.eval(x.args[1]), e.eval(x.args[2])
		a, b = e.unify(a, b)
		r := Val{T: a.T}
		for i := range a.L {
			r.L = append(r.L, Ite(c, a.L[i], b.L[i]))
		}
		return r
	case "quant":
		return e.quant(x)
	case "field":
		if x.args[0].op == "id" {
			// package constants: pkg.Name
			if _, ok := e.lookup(x.args[0].name); !ok {
				if v, ok := e.pkgMember(x.args[0].name + "." + x.name); ok {
					return v
				}
			}
		}
		return e.field(e.eval(x.args[0]), x.name)
	case "index":
		return e.index(e.eval(x.args[0]), e.eval(x.args[1]))
	case "idxset":
		a := e.eval(x.args[0])
		k, v := e.eval(x.args[1]), e.eval(x.args[2])
		return Val{L: []*Term{Store(a.term(), k.term(), e.one(v))}}
	case "slice":
		s := e.strOf(e.eval(x.args[0]))
		lo := e.term(x.args[1])
		hi := e.term(x.args[2])
		return Val{L: []*Term{Substr(s, lo, Sub(hi, lo))}}
	case "call":
		return e.call(x)
	}
	e.fail("cannot evaluate %s %s", x.op, x.name)
	return Val{}
}

func boolV(t *Term) Val { return Val{L: []*Term{t}} }
func intV(t *Term) Val  { return Val{L: []*Term{t}} }

func (e *Env) one(v Val) *Term {
	if len(v.L) != 1 {
		e.fail("scalar expected")
	}
	return v.L[0]
}

func (e *Env) term(x *Expr) *Term { return e.one(e.eval(x)) }

// Bool evaluates a formula.
func (e *Env) Bool(x *Expr) *Term {
	t := e.term(x)
	if t.sort != SBool {
		e.fail("formula expected, got %s", t.sort)
	}
	return t
}

func (e *Env) lookup(n string) (Val, bool) {
	if v, ok := e.bnd[n]; ok {
		return v, true
	}
	if v, ok := e.vars[n]; ok {
		return v, true
	}
	if g, ok := e.get[n]; ok {
		return g(e.st), true
	}
	return Val{}, false
}

func (e *Env) ident(n string) Val {
	switch n {
	case "true":
		return boolV(True)
	case "false":
		return boolV(False)
	case "nil":
		return Val{T: types.Typ[types.UntypedNil], L: []*Term{NilIface}}
	}
	if v, ok := e.lookup(n); ok {
		return v
	}
	w := e.x.w
	if ty, ok := w.specs.Ghosts[n]; ok {
		if e.pure {
			e.fail("ghost %s in a pure formula", n)
		}
		s, _ := w.sortOf(ty)
		return Val{L: []*Term{e.st.ghost(n, s)}}
	}
	if ty, ok := w.specs.Consts[n]; ok {
		s, t := w.sortOf(ty)
		if s == "" {
			v := Val{T: t}
			for _, l := range leaves(t) {
				v.L = append(v.L, Sym("c:"+n+l.Path, l.Sort))
			}
			if !e.pure {
				e.st.constFacts("c:"+n, v)
			}
			return v
		}
		v := Val{T: t, L: []*Term{Sym("c:"+n, s)}}
		if t != nil && !e.pure {
			e.st.constFacts("c:"+n, v)
		}
		return v
	}
	if m, ok := w.specs.Macros[n]; ok && len(m.PNames) == 0 {
		return e.eval(m.Body)
	}
	if v, ok := e.pkgMember(n); ok {
		return v
	}
	e.fail("unknown name %s", n)
	return Val{}
}

// constFacts assumes type facts about a spec constant once per path.
func (s *State) constFacts(key string, v Val) {
	if s.axd["K:"+key] {
		return
	}
	s.axd["K:"+key] = true
	s.valFacts(v)
}

func (s *State) ghost(n string, sort Sort) *Term {
	g, ok := s.ghosts[n]
	if !ok {
		g = Sym("G:"+n, sort)
		s.ghosts[n] = g
	}
	return g
}

func (s *State) setGhost(n string, v *Term, ref *Term) {
	s.ghosts[n] = v
	s.logWrite("G:"+n, ref)
}

func (e *Env) pkgMember(n string) (Val, bool) {
	if v, ok := e.x.w.constIdx[n]; ok {
		return v, true
	}
	if g, ok := e.x.w.globIdx[n]; ok && !e.pure {
		if v, ok := e.x.w.globalConst(e.st, g); ok {
			return v, true
		}
		return e.st.load(e.st.addrOf(e.x.w.globalPtr(e.st, g))), true
	}
	return Val{}, false
}

func isNilV(v Val) bool {
	b, ok := v.T.(*types.Basic)
	return ok && b.Kind() == types.UntypedNil
}

func (e *Env) unify(a, b Val) (Val, Val) {
	if a.T != nil && isNilV(a) && !(b.T != nil && isNilV(b)) {
		return e.nilFor(b), b
	}
	if b.T != nil && isNilV(b) && !(a.T != nil && isNilV(a)) {
		return a, e.nilFor(a)
	}
	if len(a.L) != len(b.L) {
		e.fail("operands with %d and %d parts", len(a.L), len(b.L))
	}
	return a, b
}

func (e *Env) nilFor(o Val) Val {
	if o.T == nil {
		switch o.L[0].sort {
		case SInt:
			return Val{L: []*Term{IntC(0)}}
		case SIface:
			return Val{L: []*Term{NilIface}}
		}
		e.fail("nil compared with %s", o.L[0].sort)
	}
	return zeroVal(o.T)
}

func (e *Env) bin(x *Expr) Val {
	switch x.name {
	case "&&", "||", "==>", "<==>":
		a, b := e.Bool(x.args[0]), e.Bool(x.args[1])
		switch x.name {
		case "&&":
			return boolV(And(a, b))
		case "||":
			return boolV(Or(a, b))
		case "==>":
			return boolV(Implies(a, b))
		}
		return boolV(Eq(a, b))
	case "in":
		k, m := e.eval(x.args[0]), e.eval(x.args[1])
		if m.T == nil {
			return boolV(Select(m.term(), e.one(k)))
		}
		if mt, ok := m.T.Underlying().(*types.Map); ok {
			_, in := e.st.mapGet(mt, m.term(), e.one(k))
			return boolV(in)
		}
		e.fail("'in' needs a map or set")
	}
	a, b := e.eval(x.args[0]), e.eval(x.args[1])
	switch x.name {
	case "==", "!=":
		var r *Term
		if a.T != nil && b.T != nil && !isNilV(a) && !isNilV(b) {
			_, ai := a.T.Underlying().(*types.Interface)
			_, bi := b.T.Underlying().(*types.Interface)
			if ai != bi {
				r = e.x.equal(e.st, a, b)
			}
		}
		if r == nil {
			if a.T != nil && !isNilV(a) && b.T != nil && isNilV(b) {
				if _, ok := a.T.Underlying().(*types.Slice); ok {
					r = Eq(a.L[0], IntC(0))
				}
			}
		}
		if r == nil {
			a, b = e.unify(a, b)
			var cs []*Term
			for i := range a.L {
				if a.L[i].sort != b.L[i].sort {
					e.fail("== between %s and %s", a.L[i].sort, b.L[i].sort)
				}
				cs = append(cs, Eq(a.L[i], b.L[i]))
			}
			r = And(cs...)
		}
		if x.name == "!=" {
			r = Not(r)
		}
		return boolV(r)
	}
	p, q := e.one(a), e.one(b)
	if p.sort == SStr && x.name != "++" {
		switch x.name {
		case "<":
			return boolV(StrLt(p, q))
		case "<=":
			return boolV(Not(StrLt(q, p)))
		}
	}
	switch x.name {
	case "<":
		return boolV(Lt(p, q))
	case "<=":
		return boolV(Le(p, q))
	case ">":
		return boolV(Gt(p, q))
	case ">=":
		return boolV(Ge(p, q))
	case "+":
		return intV(Add(p, q))
	case "-":
		return intV(Sub(p, q))
	case "*":
		return intV(Mul(p, q))
	case "/":
		return intV(DivT(p, q))
	case "%":
		return intV(ModT(p, q))
	case "++":
		return Val{L: []*Term{Cat(e.strOf(a), e.strOf(b))}}
	}
	e.fail("operator %s", x.name)
	return Val{}
}

func (e *Env) strOf(v Val) *Term {
	if v.T != nil && isByteSlice(v.T) {
		return e.st.bytesOf(v)
	}
	if len(v.L) == 1 && v.L[0].sort == SStr {
		return v.L[0]
	}
	e.fail("string expected")
	return nil
}

var bvN int

func (e *Env) quant(x *Expr) Val {
	save := e.bnd
	e.bnd = map[string]Val{}
	for k, v := range save {
		e.bnd[k] = v
	}
	var bs []*Term
	var rng []*Term
	for _, b := range x.bvars {
		s, t := e.x.w.sortOf(b[1])
		if b[1] == "int" {
			t = nil
		}
		if s == "" {
			v := Val{T: t}
			for _, l := range leaves(t) {
				bv := BVar(b[0]+l.Path+"!q", l.Sort)
				bs = append(bs, bv)
				v.L = append(v.L, bv)
			}
			e.bnd[b[0]] = v
			continue
		}
		bv := BVar(b[0]+"!q"+strings.ReplaceAll(s, " ", ""), s)
		bs = append(bs, bv)
		e.bnd[b[0]] = Val{T: t, L: []*Term{bv}}
		if t != nil && s == SInt {
			if lo, hi, ok := intRange(t); ok {
				rng = append(rng, Le(IntBig(lo), bv), Le(bv, IntBig(hi)))
			}
		}
	}
	body := e.Bool(x.args[0])
	var pats [][]*Term
	for _, p := range x.pats {
		// a value of several parts is matched on any of them
		alts := [][]*Term{nil}
		for _, q := range p {
			v := e.eval(q)
			ls := v.L
			if len(ls) <= 1 {
				ls = []*Term{e.one(v)}
			}
			var na [][]*Term
			if len(alts) == len(ls) && len(ls) > 1 {
				// the same part of each
				for i, a := range alts {
					na = append(na, append(append([]*Term{}, a...), ls[i]))
				}
				alts = na
				continue
			}
			for _, a := range alts {
				for _, l := range ls {
					na = append(na, append(append([]*Term{}, a...), l))
				}
			}
			alts = na
		}
		pats = append(pats, alts...)
	}
	e.bnd = save
	all := And(And(rng...), body)
	if x.name == "forall" {
		all = Implies(And(rng...), body)
	}
	all, pats = shiftIndex(bs, all, pats)
	if x.name == "forall" {
		return boolV(Forall(bs, all, pats...))
	}
	return boolV(Exists(bs, all, pats...))
}

// shiftIndex renames an index i that selects at off+i to k-off, so that the solver can match on the selection.
func shiftIndex(bs []*Term, body *Term, pats [][]*Term) (*Term, [][]*Term) {
	has := func(t *Term, f func(*Term) bool) bool {
		for _, z := range collect([]*Term{t}) {
			if f(z) {
				return true
			}
		}
		return false
	}
	for _, b := range bs {
		if b.sort != SInt {
			continue
		}
		var roots []*Term
		for _, p := range pats {
			roots = append(roots, p...)
		}
		if len(roots) == 0 {
			roots = []*Term{body}
		}
		plain := false
		var off *Term
		for _, t := range collect(roots) {
			if t.kind != KApp || t.op != "select" || t.args[1].sort != SInt {
				continue
			}
			ix := t.args[1]
			if ix == b {
				plain = true
				break
			}
			o := Sub(ix, b)
			if off == nil && ix != b && o.kind != KInt && has(ix, func(z *Term) bool { return z == b }) && !has(o, func(z *Term) bool { return z == b }) {
				off = o
			}
		}
		if plain || off == nil {
			continue
		}
		m := map[*Term]*Term{b: Sub(b, off)}
		body = Subst(body, m)
		for i := range pats {
			np := make([]*Term, len(pats[i]))
			for j := range np {
				np[j] = Subst(pats[i][j], m)
			}
			pats[i] = np
		}
	}
	return body, pats
}

func structField(t types.Type, name string) (int, *types.Var) {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return -1, nil
	}
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return i, st.Field(i)
		}
	}
	return -1, nil
}

func (e *Env) field(v Val, name string) Val {
	if v.T == nil {
		e.fail("field %s of a spec term", name)
	}
	if p, ok := v.T.Underlying().(*types.Pointer); ok {
		_, f := structField(p.Elem(), name)
		if f == nil {
			// embedded struct
			if st, ok := p.Elem().Underlying().(*types.Struct); ok {
				for i := 0; i < st.NumFields(); i++ {
					if st.Field(i).Embedded() {
						et := st.Field(i).Type()
						if pt, ok := et.Underlying().(*types.Pointer); ok {
							et = pt.Elem()
						}
						if _, g := structField(et, name); g != nil {
							return e.field(e.field(v, st.Field(i).Name()), name)
						}
					}
				}
			}
			e.fail("no field %s in %s", name, p.Elem())
		}
		a := e.st.addrOf(v).with("."+name, f.Type())
		r := e.st.load(a)
		return e.x.getMeta(e.st, a, r)
	}
	i, f := structField(v.T, name)
	if f == nil {
		if st, ok := v.T.Underlying().(*types.Struct); ok {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Embedded() {
					if _, g := structField(st.Field(i).Type(), name); g != nil {
						return e.field(e.field(v, st.Field(i).Name()), name)
					}
				}
			}
		}
		e.fail("no field %s in %s", name, v.T)
	}
	r, ok := v.field(i)
	if !ok {
		r = Val{T: f.Type()}
		for _, l := range leaves(f.Type()) {
			r.L = append(r.L, UF("fld:"+typeKey(v.T)+"."+name+l.Path, l.Sort, v.L[0]))
		}
	}
	return r
}

func (e *Env) index(b, i Val) Val {
	if b.T == nil {
		t := b.term()
		if t.sort == SStr {
			return intV(StrAtCode(t, e.one(i)))
		}
		return Val{L: []*Term{Select(t, e.one(i))}}
	}
	switch t := b.T.Underlying().(type) {
	case *types.Map:
		v, _ := e.st.mapGet(t, b.term(), e.one(i))
		return v
	case *types.Slice:
		return e.st.load(&Addr{Elem: true, Ref: b.L[0], Idx: Add(b.L[1], e.one(i)), Root: t.Elem(), T: t.Elem()})
	case *types.Pointer:
		if arr, ok := t.Elem().Underlying().(*types.Array); ok {
			a := e.st.addrOf(b)
			return e.st.load(&Addr{Elem: true, Ref: a.Ref, Idx: e.one(i), Root: arr.Elem(), T: arr.Elem()})
		}
	}
	if b.L[0].sort == SStr {
		return intV(StrAtCode(b.L[0], e.one(i)))
	}
	e.fail("index of %s", b.T)
	return Val{}
}

// in another state
func (e *Env) inState(o *State, f func() Val) Val {
	if o == nil {
		e.fail("no earlier state here")
	}
	c := *o
	c.heaps, c.ghosts, c.axd, c.bounds = cloneMap(o.heaps), cloneMap(o.ghosts), cloneMap(e.st.axd), cloneMap(e.st.bounds)
	c.pc = nil
	c.writes = map[string]Write{}
	c.cnt, c.epoch, c.off = e.st.cnt, e.st.epoch, e.st.off
	cur := e.st
	e.st = &c
	r := f()
	e.st = cur
	cur.cnt = c.cnt
	cur.bounds, cur.axd = c.bounds, c.axd
	cur.assume(c.pc...)
	// remember initial symbols that were created on demand
	for n, h := range c.heaps {
		if _, ok := o.heaps[n]; !ok {
			o.heaps[n] = h
			if _, ok := cur.heaps[n]; !ok {
				cur.heaps[n] = h
			}
		}
	}
	for n, g := range c.ghosts {
		if _, ok := o.ghosts[n]; !ok {
			o.ghosts[n] = g
			if _, ok := cur.ghosts[n]; !ok {
				cur.ghosts[n] = g
			}
		}
	}
	return r
}

func (e *Env) sub(vars map[string]Val) *Env {
	n := *e
	n.vars = vars
	n.bnd = nil
	n.get = nil
	return &n
}

func (e *Env) call(x *Expr) Val {
	w := e.x.w
	arg := func(i int) Val {
		if i >= len(x.args) {
			e.fail("%s needs %d arguments", x.name, i+1)
		}
		return e.eval(x.args[i])
	}
	switch x.name {
	case "old":
		return e.inState(e.old, func() Val { return e.eval(x.args[0]) })
	case "loopentry":
		return e.inState(e.loop, func() Val { return e.eval(x.args[0]) })
	case "len":
		v := arg(0)
		if v.T != nil {
			switch t := v.T.Underlying().(type) {
			case *types.Slice:
				return intV(v.L[2])
			case *types.Map:
				return intV(e.st.mapLen(t, v.term()))
			case *types.Array:
				return intV(IntC(t.Len()))
			}
		}
		if v.L[0].sort == SStr {
			return intV(SLen(v.L[0]))
		}
		e.fail("len of %v", v.T)
	case "card":
		return intV(e.st.card(e.one(arg(0))))
	case "bytes", "str":
		return Val{L: []*Term{e.strOf(arg(0))}}
	case "dom":
		m := arg(0)
		mt, ok := m.T.Underlying().(*types.Map)
		if !ok {
			e.fail("dom of %v", m.T)
		}
		return Val{L: []*Term{e.st.mapDom(mt, m.term())}}
	case "mapval": // value array of a single-leaf map
		m := arg(0)
		mt := m.T.Underlying().(*types.Map)
		_, ks, vn, vl := mapNames(mt)
		if len(vl) != 1 {
			e.fail("mapval")
		}
		return Val{L: []*Term{e.st.sel(e.st.heap(vn[0], ArrSort(SInt, ArrSort(ks, vl[0].Sort))), m.term())}}
	case "distinct":
		var cs []*Term
		for i := range x.args {
			for j := i + 1; j < len(x.args); j++ {
				ne := *x
				ne.op, ne.name, ne.args = "bin", "!=", []*Expr{x.args[j], x.args[i]}
				cs = append(cs, e.Bool(&ne))
			}
		}
		return boolV(And(cs...))
	case "ref":
		return intV(arg(0).L[0])
	case "owner": // the object a pointer to one of its fields points into
		t := arg(0).L[0]
		for t.kind == KApp && strings.HasPrefix(t.op, "interior:") {
			t = t.args[0]
		}
		return intV(t)
	case "ns": // nanoseconds of a time.Time
		return intV(arg(0).L[0])
	case "loc": // location of a time.Time, 0 is UTC
		return intV(arg(0).L[1])
	case "as":
		t := w.goType(x.bvars[0][1])
		if t == nil {
			e.fail("unknown type %s", x.bvars[0][1])
		}
		v := arg(0)
		if v.D != nil && types.Identical(v.D.T, t) {
			return *v.D
		}
		if v.L[0].sort == SIface {
			if _, isI := t.Underlying().(*types.Interface); isI {
				v.T = t
				return v
			}
			return unboxVal(nil, t, v.L[0], True)
		}
		v.T = t
		return v
	case "istype":
		t := w.goType(x.bvars[0][1])
		v := arg(0)
		if v.D != nil {
			return boolV(BoolC(types.Identical(v.D.T, t)))
		}
		iv := e.one(v)
		return boolV(And(Neq(iv, NilIface), Eq(UF("ifaceTag", SInt, iv), IntC(int64(tagID("box:"+typeKey(t)))))))
	case "box":
		v := arg(0)
		if len(x.bvars) > 0 && x.bvars[0][1] != "" {
			v.T = w.goType(x.bvars[0][1])
		}
		if v.T == nil {
			e.fail("box of untyped")
		}
		return Val{L: []*Term{e.st.mkIface(types.NewInterfaceType(nil, nil), v).L[0]}}
	case "ikey": // key of a value in a channel set
		return Val{L: []*Term{chanKey(arg(0))}}
	case "zero":
		return zeroVal(w.goType(x.bvars[0][1]))
	case "sent", "delivered":
		c := arg(0)
		return Val{L: []*Term{e.st.chanSet(x.name, c)}}
	case "closed":
		c := arg(0)
		return boolV(e.st.sel(e.st.heap("C:closed", ArrSort(SInt, SBool)), c.term()))
	case "exclusive": // nobody else receives from the channel
		return boolV(UF("exclusive", SBool, arg(0).term()))
	case "nsent":
		c := arg(0)
		return intV(e.st.sel(e.st.heap("C:nsent", ArrSort(SInt, SInt)), c.term()))
	case "store":
		return Val{L: []*Term{Store(e.one(arg(0)), e.one(arg(1)), e.one(arg(2)))}}
	case "constarr":
		s, _ := w.sortOf(x.args[0].name)
		return Val{L: []*Term{ConstArr(s, e.one(arg(1)))}}
	case "emptyset": // emptyset(kind of another set)
		a := e.one(arg(0))
		return Val{L: []*Term{ConstArr(a.sort, False)}}
	case "isalloc": // allocated before the call
		v := arg(0)
		return boolV(Le(v.L[0], e.oldBound()))
	case "substr":
		return Val{L: []*Term{Substr(e.strOf(arg(0)), e.one(arg(1)), e.one(arg(2)))}}
	case "code":
		return intV(StrAtCode(e.strOf(arg(0)), e.one(arg(1))))
	case "fromcode":
		return Val{L: []*Term{FromCode(e.one(arg(0)))}}
	case "prefixof":
		return boolV(rawApp("str.prefixof", SBool, "", e.strOf(arg(0)), e.strOf(arg(1))))
	case "suffixof":
		return boolV(rawApp("str.suffixof", SBool, "", e.strOf(arg(0)), e.strOf(arg(1))))
	case "contains":
		return boolV(rawApp("str.contains", SBool, "", e.strOf(arg(0)), e.strOf(arg(1))))
	case "indexof":
		return intV(rawApp("str.indexof", SInt, "", e.strOf(arg(0)), e.strOf(arg(1)), e.one(arg(2))))
	case "nilfn":
		v := arg(0)
		return boolV(Eq(v.L[0], Sym("nilFn", SFn)))
	case "min":
		a, b := e.one(arg(0)), e.one(arg(1))
		return intV(Ite(Le(a, b), a, b))
	case "max":
		a, b := e.one(arg(0)), e.one(arg(1))
		return intV(Ite(Ge(a, b), a, b))
	}
	if m, ok := w.specs.Macros[x.name]; ok {
		if len(m.PNames) != len(x.args) {
			e.fail("macro %s needs %d arguments", x.name, len(m.PNames))
		}
		vars := map[string]Val{}
		for i, p := range m.PNames {
			v := arg(i)
			if m.Params[i] != "" && v.T == nil {
				if _, t := w.sortOf(m.Params[i]); t != nil && m.Params[i] != "int" && m.Params[i] != "string" && m.Params[i] != "bool" {
					v.T = t
				}
			}
			vars[p] = v
		}
		n := e.sub(vars)
		r := n.eval(m.Body)
		e.st = n.st
		return r
	}
	name, ok := "", false
	var d *FnDecl
	if d, ok = w.specs.Fns[x.name]; ok {
		name = d.Name
	} else if d, ok = w.specs.Recs[x.name]; ok {
		name = d.Name
	}
	if d != nil {
		if len(d.Params) != len(x.args) {
			e.fail("%s needs %d arguments", x.name, len(d.Params))
		}
		var as []*Term
		for i := range x.args {
			want, _ := w.sortOf(d.Params[i])
			v := arg(i)
			var t *Term
			if v.T != nil && isNilV(v) && want == SInt {
				t = IntC(0)
			} else if want == SStr && v.T != nil && isByteSlice(v.T) {
				t = e.st.bytesOf(v)
			} else if want == SInt && v.T != nil && len(v.L) == 4 {
				t = v.L[0]
			} else if want == SIface && v.T != nil && len(v.L) > 0 {
				if _, isI := v.T.Underlying().(*types.Interface); !isI {
					t = e.st.mkIface(types.NewInterfaceType(nil, nil), v).L[0]
				} else {
					t = v.L[0]
				}
			} else {
				t = e.one(v)
			}
			if t.sort != want {
				e.fail("argument %d of %s has sort %s, want %s", i, x.name, t.sort, want)
			}
			as = append(as, t)
		}
		rs, rt := w.sortOf(d.Ret)
		if d.Ret == "int" || d.Ret == "string" || d.Ret == "bool" {
			rt = nil
		}
		return Val{T: rt, L: []*Term{UF(name, rs, as...)}}
	}
	e.fail("unknown function %s", x.name)
	return Val{}
}

func (e *Env) oldBound() *Term {
	if e.old == nil {
		e.fail("no old state")
	}
	return e.old.allocBound()
}

// addr evaluates a location expression.
func (e *Env) addr(x *Expr) *Addr {
	switch x.op {
	case "un":
		if x.name == "*" {
			return e.st.addrOf(e.eval(x.args[0]))
		}
	case "field":
		b := e.eval(x.args[0])
		if b.T == nil {
			e.fail("field of a spec term")
		}
		p, ok := b.T.Underlying().(*types.Pointer)
		if !ok {
			// field of a struct location
			a := e.addr(x.args[0])
			_, f := structField(a.T, x.name)
			if f == nil {
				e.fail("no field %s", x.name)
			}
			return a.with("."+x.name, f.Type())
		}
		_, f := structField(p.Elem(), x.name)
		if f == nil {
			e.fail("no field %s", x.name)
		}
		return e.st.addrOf(b).with("."+x.name, f.Type())
	case "index":
		b := e.eval(x.args[0])
		i := e.term(x.args[1])
		if t, ok := b.T.Underlying().(*types.Slice); ok {
			return &Addr{Elem: true, Ref: b.L[0], Idx: Add(b.L[1], i), Root: t.Elem(), T: t.Elem()}
		}
	}
	e.fail("not a location")
	return nil
}
