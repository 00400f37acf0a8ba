package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Val struct {
	T   types.Type
	L   []*Term
	A   *Addr    // pointers: where they point, when known
	F   *FuncV   // functions
	D   *Val     // interfaces: dynamic value, when known
	Tup []Val    // tuples
}

type FuncV struct {
	Fn   *ssa.Function
	Bind []Val
	Recv *Val // bound method receiver
	Spec *FuncSpec // result of an extern that returns a callable
	Args []Val
}

// Addr is a location: a path inside an object, or inside an element of a slice backing array.
type Addr struct {
	Elem bool
	Ref  *Term
	Idx  *Term
	Root types.Type // object type, or element type of the backing array
	Path string
	T    types.Type // type stored here
	Byte *Term      // index of a byte inside a string-sorted leaf
}

func (a *Addr) with(path string, t types.Type) *Addr {
	b := *a
	b.Path += path
	b.T = t
	return &b
}

type bound struct{ epoch, off int }

type deferred struct {
	call *ssa.CallCommon
	args []Val
	fn   Val
	cond *Term
}

type LoopCtx struct {
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	onBack func(st *State)
	onExit func(st *State)
}

type Frame struct {
	fn      *ssa.Function
	block   *ssa.BasicBlock
	prev    *ssa.BasicBlock
	pc      int
	env     map[ssa.Value]Val
	free    []Val
	defers  []deferred
	retTo   ssa.Value // value in the caller frame
	onRet   func(st *State, res []Val) bool // special continuation; true if it handled the state
	active  map[*ssa.BasicBlock]*LoopCtx
	drain   bool // results of this frame are discarded (defer, go)
	tag     string
	isGo    bool
}

func (f *Frame) clone() *Frame {
	g := *f
	g.env = make(map[ssa.Value]Val, len(f.env)+8)
	for k, v := range f.env {
		g.env[k] = v
	}
	g.defers = append([]deferred(nil), f.defers...)
	g.active = make(map[*ssa.BasicBlock]*LoopCtx, len(f.active))
	for k, v := range f.active {
		g.active[k] = v
	}
	return &g
}

type Write struct {
	Name string
	Ref  *Term // nil: everything
}

type State struct {
	x      *Exec
	frames []*Frame
	heaps  map[string]*Term
	ghosts map[string]*Term
	iters  map[string]*Term // visited sets of map iterators
	pc     []*Term
	bounds map[*Term]bound
	epoch  int
	off    int
	cnt    int
	writes map[string]Write
	trace  []string
	axd    map[string]bool // heap reference axioms already emitted
	lastGhosts map[string]*Term
	meta   map[string]Val
	dead   bool
}

func (s *State) clone() *State {
	n := *s
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		n.frames[i] = f.clone()
	}
	n.heaps = cloneMap(s.heaps)
	n.ghosts = cloneMap(s.ghosts)
	n.iters = cloneMap(s.iters)
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.bounds = cloneMap(s.bounds)
	n.writes = cloneMap(s.writes)
	n.trace = s.trace[:len(s.trace):len(s.trace)]
	n.axd = cloneMap(s.axd)
	n.meta = cloneMap(s.meta)
	return &n
}

func cloneMap[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m)+2)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) assume(ts ...*Term) {
	for _, t := range ts {
		if t == True {
			continue
		}
		if t == False {
			s.dead = true
		}
		if t.kind == KApp && t.op == "and" {
			s.assume(t.args...)
			continue
		}
		s.pc = append(s.pc, t)
	}
}

func (s *State) fresh(name string, sort Sort) *Term {
	s.cnt++
	return Sym(fmt.Sprintf("%s!%d", name, s.cnt), sort)
}

// symIndex returns the creation index of a fresh symbol (0 for initial ones).
func symIndex(name string) int {
	i := strings.LastIndexByte(name, '!')
	if i < 0 {
		return 0
	}
	n, err := strconv.Atoi(name[i+1:])
	if err != nil {
		return 0
	}
	return n
}

func maxSymIndex(t *Term) int {
	m := 0
	for _, x := range collect([]*Term{t}) {
		if x.kind == KConst {
			if k := symIndex(x.op); k > m {
				m = k
			}
		}
	}
	return m
}

func epochSym(k int) *Term { return Sym(fmt.Sprintf("alloc%d", k), SInt) }

// alloc returns a new reference distinct from every earlier one.
func (s *State) alloc() *Term {
	s.off++
	return Add(epochSym(s.epoch), IntC(int64(s.off)))
}

// newEpoch is used when an unknown number of allocations happened (loops, calls).
func (s *State) newEpoch() {
	old := Add(epochSym(s.epoch), IntC(int64(s.off)))
	// epochs are numbered by the path-local counter so that names never clash on one path
	s.cnt++
	s.epoch = s.cnt
	s.off = 0
	s.assume(Ge(epochSym(s.epoch), old))
	s.axd = map[string]bool{}
}

func (s *State) allocBound() *Term { return Add(epochSym(s.epoch), IntC(int64(s.off))) }

func freshRef(t *Term) (bound, bool) {
	b, o := splitOff(t)
	if b != nil && b.kind == KConst && strings.HasPrefix(b.op, "alloc") && o.Sign() > 0 {
		k, err := strconv.Atoi(b.op[5:])
		if err == nil {
			return bound{k, int(o.Int64())}, true
		}
	}
	return bound{}, false
}

func (b bound) after(c bound) bool { return b.epoch > c.epoch || (b.epoch == c.epoch && b.off > c.off) }

// distinctRefs decides syntactically when it can: 1 distinct, 0 equal, -1 unknown.
func (s *State) distinctRefs(a, b *Term) int {
	if a == b {
		return 0
	}
	fa, oka := freshRef(a)
	fb, okb := freshRef(b)
	if oka && okb {
		return 1
	}
	if a.kind == KInt && b.kind == KInt {
		return 1
	}
	if oka && b.kind == KInt || okb && a.kind == KInt {
		return 1 // globals and nil are below every allocation
	}
	if oka {
		if bb, ok := s.bounds[b]; ok && fa.after(bb) {
			return 1
		}
	}
	if okb {
		if ba, ok := s.bounds[a]; ok && fb.after(ba) {
			return 1
		}
	}
	return -1
}

// sel reads arr[ref] skipping stores at references known to be different.
func (s *State) sel(arr, ref *Term) *Term {
	for arr.kind == KApp && arr.op == "store" {
		d := s.distinctRefs(arr.args[1], ref)
		if d == 0 {
			return arr.args[2]
		}
		if d == 1 {
			arr = arr.args[0]
			continue
		}
		break
	}
	return Select(arr, ref)
}

func (s *State) heap(name string, sort Sort) *Term {
	h, ok := s.heaps[name]
	if !ok {
		h = Sym("H:"+name, sort)
		s.heaps[name] = h
	}
	return h
}

func (s *State) setHeap(name string, sort Sort, ref, v *Term) {
	h := s.heap(name, sort)
	s.heaps[name] = s.storeAt(h, ref, v)
	s.logWrite(name, ref)
}

func (s *State) storeAt(arr, ref, v *Term) *Term {
	// drop an overwritten store under stores at distinct references
	if arr.kind == KApp && arr.op == "store" && s.distinctRefs(arr.args[1], ref) == 0 {
		return Store(arr.args[0], ref, v)
	}
	if arr.kind == KApp && arr.op == "store" && s.distinctRefs(arr.args[1], ref) == 1 {
		// look deeper for an earlier store at the same reference
		d := arr
		for i := 0; i < 40 && d.kind == KApp && d.op == "store"; i++ {
			r := s.distinctRefs(d.args[1], ref)
			if r == 0 {
				return Store(s.dropStore(arr, ref), ref, v)
			}
			if r == -1 {
				break
			}
			d = d.args[0]
		}
	}
	return Store(arr, ref, v)
}

func (s *State) dropStore(arr, ref *Term) *Term {
	if arr.kind == KApp && arr.op == "store" {
		if s.distinctRefs(arr.args[1], ref) == 0 {
			return arr.args[0]
		}
		return rawApp("store", arr.sort, "", s.dropStore(arr.args[0], ref), arr.args[1], arr.args[2])
	}
	return arr
}

func (s *State) logWrite(name string, ref *Term) {
	key := name + "@*"
	if ref != nil {
		key = name + "@" + strconv.Itoa(ref.id)
	}
	s.writes[key] = Write{name, ref}
}

// ---- typed values ----

func heapSort(elem bool, leaf Sort) Sort {
	if elem {
		return ArrSort(SInt, ArrSort(SInt, leaf))
	}
	return ArrSort(SInt, leaf)
}

// rangeFacts are the type invariants of a leaf value.
func (s *State) leafFacts(l Leaf, t *Term) {
	if t.open || isLit(t) {
		return
	}
	if l.Ref {
		if _, ok := freshRef(t); ok {
			return
		}
		if _, ok := s.bounds[t]; !ok {
			s.bounds[t] = bound{s.epoch, s.off}
			s.assume(Le(IntC(0), t), Le(t, s.allocBound()))
		}
		return
	}
	switch l.Part {
	case "off":
		s.assume(Le(IntC(0), t))
		return
	case "len", "cap":
		s.assume(Le(IntC(0), t), Le(t, IntBig(new(big.Int).Sub(pow2(62), bigOne))))
		return
	}
	if l.T == nil {
		return
	}
	if l.Sort == SInt {
		if lo, hi, ok := intRange(l.T); ok {
			s.assume(Le(IntBig(lo), t), Le(t, IntBig(hi)))
		}
		return
	}
	if l.Sort == SStr {
		if n, ok := isByteArray(l.T); ok {
			s.assume(Eq(SLen(t), IntC(n)))
		}
	}
}

// sliceFacts adds len<=cap and nil-ness facts for slice leaf groups.
func (s *State) valFacts(v Val) {
	ls := leaves(v.T)
	for i, l := range ls {
		s.leafFacts(l, v.L[i])
		if l.Part == "ref" && !v.L[i].open {
			ref, off, ln, cp := v.L[i], v.L[i+1], v.L[i+2], v.L[i+3]
			s.assume(Le(ln, cp))
			if ref.kind != KInt {
				if _, ok := freshRef(ref); !ok {
					s.assume(Implies(Eq(ref, IntC(0)), And(Eq(ln, IntC(0)), Eq(cp, IntC(0)))))
				}
			}
			if isByteSlice(l.T) {
				_ = off
				b := s.sel(s.heap("B", ArrSort(SInt, SStr)), ref)
				s.assume(Le(Add(off, ln), SLen(b)))
			}
		}
	}
}

func (s *State) havoc(name string, t types.Type) Val {
	if tp, ok := t.(*types.Tuple); ok {
		v := Val{T: t}
		for i := 0; i < tp.Len(); i++ {
			v.Tup = append(v.Tup, s.havoc(fmt.Sprintf("%s.%d", name, i), tp.At(i).Type()))
		}
		return v
	}
	v := Val{T: t}
	for _, l := range leaves(t) {
		v.L = append(v.L, s.fresh(name+l.Path, l.Sort))
	}
	s.valFacts(v)
	return v
}

func zeroVal(t types.Type) Val {
	if tp, ok := t.(*types.Tuple); ok {
		v := Val{T: t}
		for i := 0; i < tp.Len(); i++ {
			v.Tup = append(v.Tup, zeroVal(tp.At(i).Type()))
		}
		return v
	}
	v := Val{T: t}
	for _, l := range leaves(t) {
		v.L = append(v.L, zeroLeaf(l))
	}
	return v
}

func scalar(t types.Type, x *Term) Val { return Val{T: t, L: []*Term{x}} }

func (v Val) term() *Term {
	if len(v.L) != 1 {
		panic(unsupported(fmt.Sprintf("scalar expected, got %d leaves of %v", len(v.L), v.T)))
	}
	return v.L[0]
}

type unsupportedErr struct{ msg string }

func unsupported(m string) unsupportedErr { return unsupportedErr{m} }

func (e unsupportedErr) Error() string { return "unsupported: " + e.msg }

// field projects a struct value.
func (v Val) field(i int) (Val, bool) {
	ls := leaves(v.T)
	if len(ls) == 1 && ls[0].Sort == SOpq {
		return Val{}, false
	}
	a, b, t := fieldRange(v.T, i)
	return Val{T: t, L: v.L[a:b]}, true
}

// ---- addresses ----

func deref(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	panic(unsupported("deref of " + t.String()))
}

// addrOf returns the location a pointer value designates.
func (s *State) addrOf(v Val) *Addr {
	if v.A != nil {
		return v.A
	}
	el := deref(v.T)
	if n, ok := el.Underlying().(*types.Array); ok {
		// arrays live in backing stores
		return &Addr{Elem: true, Ref: v.L[0], Idx: nil, Root: n.Elem(), T: el}
	}
	return &Addr{Ref: v.L[0], Root: el, T: el}
}

func (s *State) ptrVal(t types.Type, a *Addr) Val {
	v := Val{T: t, A: a}
	if a.Path == "" && !a.Elem && a.Byte == nil {
		v.L = []*Term{a.Ref}
	} else if a.Elem && a.Idx == nil {
		v.L = []*Term{a.Ref}
	} else {
		idx := IntC(0)
		if a.Idx != nil {
			idx = a.Idx
		}
		t := UF("interior:"+shortKey(typeKey(a.Root))+a.Path, SInt, a.Ref, idx)
		v.L = []*Term{t}
		if !t.open {
			s.bounds[t] = bound{s.epoch, s.off}
			s.assume(Gt(t, IntC(0)), Le(t, s.allocBound()))
		}
	}
	return v
}

func heapName(a *Addr, leafPath string) string {
	if a.Elem {
		return "E:" + typeKey(a.Root) + a.Path + leafPath
	}
	return "O:" + typeKey(a.Root) + a.Path + leafPath
}

func (s *State) refAxiom(name string, elem bool, h *Term) {
	// every reference stored in an allocated cell was allocated before
	if h.kind != KConst || s.axd[name+h.op] {
		return
	}
	s.axd[name+h.op] = true
	r, i := BVar("r!b", SInt), BVar("i!b", SInt)
	if elem {
		v := rawApp("select", SInt, "", rawApp("select", ArrSort(SInt, SInt), "", h, r), i)
		s.assume(Forall([]*Term{r, i}, Implies(Le(r, s.allocBound()), And(Le(IntC(0), v), Le(v, s.allocBound()))), []*Term{v}))
	} else {
		v := rawApp("select", SInt, "", h, r)
		s.assume(Forall([]*Term{r}, Implies(Le(r, s.allocBound()), And(Le(IntC(0), v), Le(v, s.allocBound()))), []*Term{v}))
	}
}

func (s *State) load(a *Addr) Val {
	if a.Byte != nil {
		// one byte of a string-sorted leaf or of a byte backing array
		b := *a
		b.Byte = nil
		str := s.loadStr(&b)
		v := scalar(a.T, StrAtCode(str, a.Byte))
		if !v.L[0].open {
			s.assume(Le(IntC(0), v.L[0]), Le(v.L[0], IntC(255)))
		}
		return v
	}
	if a.Elem && a.Idx == nil {
		// whole array object
		if n, ok := isByteArray(a.T); ok {
			c := s.sel(s.heap("B", ArrSort(SInt, SStr)), a.Ref)
			v := scalar(a.T, c)
			if !c.open {
				s.assume(Eq(SLen(c), IntC(n)))
			}
			return v
		}
		at := a.T.Underlying().(*types.Array)
		ls := leaves(a.T)
		if len(ls) == 1 && ls[0].Sort == SOpq {
			return s.havoc("arr", a.T)
		}
		v := Val{T: a.T}
		for i := int64(0); i < at.Len(); i++ {
			e := s.load(&Addr{Elem: true, Ref: a.Ref, Idx: IntC(i), Root: at.Elem(), T: at.Elem()})
			v.L = append(v.L, e.L...)
		}
		return v
	}
	if a.Elem && isByte(a.Root) {
		c := s.sel(s.heap("B", ArrSort(SInt, SStr)), a.Ref)
		t := StrAtCode(c, a.Idx)
		if !t.open {
			s.assume(Le(IntC(0), t), Le(t, IntC(255)))
		}
		return scalar(a.T, t)
	}
	ls := leaves(a.T)
	v := Val{T: a.T}
	for _, l := range ls {
		name := heapName(a, l.Path)
		h := s.heap(name, heapSort(a.Elem, l.Sort))
		var t *Term
		if a.Elem {
			t = Select(s.sel(h, a.Ref), a.Idx)
		} else {
			t = s.sel(h, a.Ref)
		}
		if l.Ref {
			b := h
			for b.kind == KApp && b.op == "store" {
				b = b.args[0]
			}
			s.refAxiom(name, a.Elem, b)
		}
		v.L = append(v.L, t)
	}
	s.valFacts(v)
	return v
}

func (s *State) loadStr(a *Addr) *Term {
	if a.Elem && a.Idx == nil {
		return s.sel(s.heap("B", ArrSort(SInt, SStr)), a.Ref)
	}
	v := s.load(a)
	return v.term()
}

func splice(old, off, n, nw *Term) *Term {
	// old[0:off] ++ nw ++ old[off+n:]
	end := Add(off, n)
	return Cat(Substr(old, IntC(0), off), nw, Substr(old, end, Sub(SLen(old), end)))
}

func (s *State) storeTo(a *Addr, v Val) {
	if a.Byte != nil {
		b := *a
		b.Byte = nil
		old := s.loadStr(&b)
		nw := splice(old, a.Byte, IntC(1), FromCode(v.term()))
		if b.Elem && b.Idx == nil {
			s.setHeap("B", ArrSort(SInt, SStr), b.Ref, nw)
		} else {
			s.storeTo(&b, scalar(b.T, nw))
		}
		return
	}
	if a.Elem && a.Idx == nil {
		if _, ok := isByteArray(a.T); ok {
			s.setHeap("B", ArrSort(SInt, SStr), a.Ref, v.term())
			return
		}
		at := a.T.Underlying().(*types.Array)
		ls := leaves(a.T)
		if len(ls) == 1 && ls[0].Sort == SOpq {
			for _, l := range leaves(at.Elem()) {
				n := "E:" + typeKey(at.Elem()) + l.Path
				hs := heapSort(true, l.Sort)
				_, in := arrParts(hs)
				s.setHeap(n, hs, a.Ref, s.fresh("arr", in))
			}
			return
		}
		per := len(leaves(at.Elem()))
		for i := int64(0); i < at.Len(); i++ {
			s.storeTo(&Addr{Elem: true, Ref: a.Ref, Idx: IntC(i), Root: at.Elem(), T: at.Elem()}, Val{T: at.Elem(), L: v.L[int(i)*per : int(i+1)*per]})
		}
		return
	}
	if a.Elem && isByte(a.Root) {
		old := s.sel(s.heap("B", ArrSort(SInt, SStr)), a.Ref)
		s.setHeap("B", ArrSort(SInt, SStr), a.Ref, splice(old, a.Idx, IntC(1), FromCode(v.term())))
		return
	}
	ls := leaves(a.T)
	if len(ls) == 1 && ls[0].Sort == SOpq {
		// opaque struct: forget every field below
		pre := heapName(a, "")
		for n, h := range s.heaps {
			if strings.HasPrefix(n, pre) {
				_, in := arrParts(h.sort)
				s.setHeap(n, h.sort, a.Ref, s.fresh("opq", in))
			}
		}
	}
	for i, l := range ls {
		name := heapName(a, l.Path)
		hs := heapSort(a.Elem, l.Sort)
		h := s.heap(name, hs)
		if a.Elem {
			s.setHeap(name, hs, a.Ref, Store(s.sel(h, a.Ref), a.Idx, v.L[i]))
		} else {
			s.setHeap(name, hs, a.Ref, v.L[i])
		}
	}
}

func (s *State) havocAddr(a *Addr, why string) {
	if a.Byte != nil {
		s.storeTo(a, s.havoc(why, a.T))
		return
	}
	s.storeTo(a, s.havoc(why, a.T))
}

// ---- byte slices ----

func (s *State) bytesOf(v Val) *Term {
	switch {
	case isByteSlice(v.T):
		c := s.sel(s.heap("B", ArrSort(SInt, SStr)), v.L[0])
		return Substr(c, v.L[1], v.L[2])
	case len(v.L) == 1 && v.L[0].sort == SStr:
		return v.L[0]
	}
	panic(unsupported("bytesOf " + v.T.String()))
}

func (s *State) newBytes(t types.Type, content *Term) Val {
	ref := s.alloc()
	s.setHeap("B", ArrSort(SInt, SStr), ref, content)
	n := SLen(content)
	return Val{T: t, L: []*Term{ref, IntC(0), n, n}}
}

// ---- maps ----

func mapNames(m *types.Map) (dom string, ks Sort, vals []string, vl []Leaf) {
	kl := leaves(m.Key())
	if len(kl) != 1 {
		panic(unsupported("map key type " + m.Key().String()))
	}
	base := "M:" + typeKey(m.Key().Underlying()) + ">" + typeKey(m.Elem())
	vl = leaves(m.Elem())
	for _, l := range vl {
		vals = append(vals, base+l.Path)
	}
	return base + "#dom", kl[0].Sort, vals, vl
}

func (s *State) mapDom(m *types.Map, ref *Term) *Term {
	dn, ks, _, _ := mapNames(m)
	return s.sel(s.heap(dn, ArrSort(SInt, ArrSort(ks, SBool))), ref)
}

func (s *State) mapGet(m *types.Map, ref, key *Term) (Val, *Term) {
	_, ks, vn, vl := mapNames(m)
	dom := s.mapDom(m, ref)
	in := And(Neq(ref, IntC(0)), Select(dom, key))
	if ref.kind == KInt && ref.ival.Sign() == 0 {
		in = False
	} else if _, ok := freshRef(ref); ok {
		in = Select(dom, key)
	}
	v := Val{T: m.Elem()}
	z := zeroVal(m.Elem())
	raw := Val{T: m.Elem()}
	for i, l := range vl {
		h := s.heap(vn[i], ArrSort(SInt, ArrSort(ks, l.Sort)))
		t := Select(s.sel(h, ref), key)
		if l.Ref {
			s.mapRefAxiom(vn[i], s.sel(h, ref))
		}
		raw.L = append(raw.L, t)
		v.L = append(v.L, Ite(in, t, z.L[i]))
	}
	s.mapFacts(raw, in)
	return v, in
}

// mapRefAxiom: the references a map held before it was updated were allocated by now.
func (s *State) mapRefAxiom(name string, vals *Term) {
	for vals.kind == KApp && vals.op == "store" {
		vals = vals.args[0]
	}
	if vals.open {
		return
	}
	if vals.kind != KConst && !(vals.kind == KApp && vals.op == "select" && vals.args[0].kind == KConst) {
		return
	}
	id := name + "@" + fmt.Sprint(vals.id)
	if s.axd[id] {
		return
	}
	s.axd[id] = true
	ks, _ := arrParts(vals.sort)
	k := BVar("k!b"+strings.ReplaceAll(ks, " ", ""), ks)
	v := rawApp("select", SInt, "", vals, k)
	s.assume(Forall([]*Term{k}, And(Le(IntC(0), v), Le(v, s.allocBound())), []*Term{v}))
}

func (s *State) mapFacts(raw Val, in *Term) {
	// facts hold for stored values only
	n := len(s.pc)
	s.valFacts(raw)
	facts := append([]*Term(nil), s.pc[n:]...)
	s.pc = s.pc[:n:n]
	s.assume(Implies(in, And(facts...)))
}

func (s *State) mapSet(m *types.Map, ref, key *Term, v Val) {
	dn, ks, vn, vl := mapNames(m)
	d := s.mapDom(m, ref)
	s.setHeap(dn, ArrSort(SInt, ArrSort(ks, SBool)), ref, Store(d, key, True))
	for i, l := range vl {
		hs := ArrSort(SInt, ArrSort(ks, l.Sort))
		h := s.heap(vn[i], hs)
		s.setHeap(vn[i], hs, ref, Store(s.sel(h, ref), key, v.L[i]))
	}
}

func (s *State) mapDelete(m *types.Map, ref, key *Term) {
	dn, ks, _, _ := mapNames(m)
	d := s.mapDom(m, ref)
	s.setHeap(dn, ArrSort(SInt, ArrSort(ks, SBool)), ref, Store(d, key, False))
}

func (s *State) newMap(t types.Type) Val {
	m := t.Underlying().(*types.Map)
	ref := s.alloc()
	dn, ks, vn, vl := mapNames(m)
	s.setHeap(dn, ArrSort(SInt, ArrSort(ks, SBool)), ref, ConstArr(ArrSort(ks, SBool), False))
	for i, l := range vl {
		s.setHeap(vn[i], ArrSort(SInt, ArrSort(ks, l.Sort)), ref, ConstArr(ArrSort(ks, l.Sort), zeroLeaf(l)))
	}
	return scalar(t, ref)
}

// mapLen is the cardinality of a domain; only its relation to emptiness and single updates is known.
func (s *State) mapLen(m *types.Map, ref *Term) *Term {
	d := s.mapDom(m, ref)
	n := s.card(d)
	if _, ok := freshRef(ref); ok {
		return n
	}
	return Ite(Eq(ref, IntC(0)), IntC(0), n)
}

func (s *State) card(d *Term) *Term {
	ks, _ := arrParts(d.sort)
	n := UF("card:"+ks, SInt, d)
	if d.open {
		return n
	}
	if d.kind == KApp && strings.HasPrefix(d.op, "(as const") && d.args[0] == False {
		return IntC(0)
	}
	if d.kind == KApp && d.op == "store" && d.args[2] == True {
		b := s.card(d.args[0])
		s.assume(Eq(n, Ite(Select(d.args[0], d.args[1]), b, Add(b, IntC(1)))))
	}
	k := BVar("k!c", ks)
	sk := rawApp("select", SBool, "", d, k)
	s.assume(Le(IntC(0), n), Forall([]*Term{k}, Implies(sk, Gt(n, IntC(0))), []*Term{sk}),
		Implies(Gt(n, IntC(0)), Exists([]*Term{k}, sk)))
	return n
}
