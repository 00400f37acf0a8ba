package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

// Sorts are SMT-LIB sort strings.
type Sort = string

const (
	SInt   Sort = "Int"
	SBool  Sort = "Bool"
	SStr   Sort = "String"
	SIface Sort = "Iface"
	SOpq   Sort = "Opq"
	SFlt   Sort = "Flt"
	SFn    Sort = "Fn"
)

func ArrSort(k, v Sort) Sort { return "(Array " + k + " " + v + ")" }

// arrParts splits "(Array K V)".
func arrParts(s Sort) (Sort, Sort) {
	in := s[len("(Array ") : len(s)-1]
	d := 0
	for i, c := range in {
		switch c {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

type Kind uint8

const (
	KConst Kind = iota // free symbol, declared on use
	KInt               // integer literal
	KStr               // string literal (bytes)
	KBool              // true / false
	KApp               // operator or function application
	KQuant             // forall / exists (args: body; bound vars in Bound; Pats)
	KBound             // bound variable
)

type Term struct {
	id    int
	kind  Kind
	op    string // symbol, operator
	sort  Sort
	args  []*Term
	ival  *big.Int
	bound []*Term
	pats  [][]*Term
	open  bool // mentions bound variables
	decl  string // for uninterpreted functions: signature "(A B) C"
}

var (
	termMu  sync.Mutex
	termTab = map[string]*Term{}
	termN   int
)

func intern(key string, mk func() *Term) *Term {
	termMu.Lock()
	defer termMu.Unlock()
	if t, ok := termTab[key]; ok {
		return t
	}
	t := mk()
	termN++
	t.id = termN
	termTab[key] = t
	return t
}

func Sym(name string, s Sort) *Term {
	return intern("c|"+name+"|"+s, func() *Term { return &Term{kind: KConst, op: name, sort: s} })
}
func BVar(name string, s Sort) *Term {
	return intern("b|"+name+"|"+s, func() *Term { return &Term{kind: KBound, op: name, sort: s, open: true} })
}
func IntBig(v *big.Int) *Term {
	return intern("i|"+v.String(), func() *Term { return &Term{kind: KInt, ival: v, sort: SInt} })
}
func IntC(v int64) *Term { return IntBig(big.NewInt(v)) }
func StrC(s string) *Term {
	return intern("s|"+s, func() *Term { return &Term{kind: KStr, op: s, sort: SStr} })
}

var True = intern("true", func() *Term { return &Term{kind: KBool, op: "true", sort: SBool} })
var False = intern("false", func() *Term { return &Term{kind: KBool, op: "false", sort: SBool} })

func BoolC(b bool) *Term {
	if b {
		return True
	}
	return False
}

func rawApp(op string, s Sort, decl string, args ...*Term) *Term {
	var sb strings.Builder
	sb.WriteString("a|")
	sb.WriteString(op)
	sb.WriteString("|")
	sb.WriteString(s)
	for _, a := range args {
		sb.WriteString("|")
		sb.WriteString(strconv.Itoa(a.id))
	}
	return intern(sb.String(), func() *Term {
		open := false
		for _, a := range args {
			open = open || a.open
		}
		return &Term{kind: KApp, op: op, sort: s, args: append([]*Term(nil), args...), open: open, decl: decl}
	})
}

// UF applies an uninterpreted function.
func UF(name string, ret Sort, args ...*Term) *Term {
	ss := make([]string, len(args))
	for i, a := range args {
		ss[i] = a.sort
	}
	return rawApp(name, ret, "("+strings.Join(ss, " ")+") "+ret, args...)
}

func Quant(q string, bound []*Term, body *Term, pats [][]*Term) *Term {
	if body == True || body == False {
		return body
	}
	for i, p := range pats {
		for j, t := range p {
			if u := noIte(t); u != t {
				np := append([]*Term{}, pats[i]...)
				np[j] = u
				pats = append(append(append([][]*Term{}, pats[:i]...), np), pats[i+1:]...)
			}
		}
	}
	// a pattern has to cover the bound variables
	var ok [][]*Term
	for _, p := range pats {
		if covers(p, bound) && !hasConnective(p) {
			ok = append(ok, p)
		}
	}
	pats = ok
	// what is read from an updated array is mostly read from the array before the update
	for _, p := range pats {
		if np := beneathStores(p); np != nil {
			pats = append(append([][]*Term{}, pats...), np)
		}
	}
	var sb strings.Builder
	sb.WriteString("q|" + q)
	for _, b := range bound {
		sb.WriteString("|" + strconv.Itoa(b.id))
	}
	sb.WriteString("|" + strconv.Itoa(body.id))
	for _, p := range pats {
		sb.WriteString("|p")
		for _, t := range p {
			sb.WriteString("," + strconv.Itoa(t.id))
		}
	}
	return intern(sb.String(), func() *Term {
		t := &Term{kind: KQuant, op: q, sort: SBool, args: []*Term{body}, bound: bound, pats: pats}
		t.open = hasFreeBound(body, bound)
		return t
	})
}

// hasConnective: solvers do not match patterns that contain logical connectives.
func hasConnective(ts []*Term) bool {
	for _, t := range ts {
		if t.kind == KQuant {
			return true
		}
		switch t.op {
		case "and", "or", "not", "=>", "=", "<", "<=", ">", ">=", "ite", "xor":
			if t.decl == "" {
				return true
			}
		}
		if hasConnective(t.args) {
			return true
		}
	}
	return false
}

func covers(p []*Term, bound []*Term) bool {
	have := map[*Term]bool{}
	for _, t := range p {
		if t.kind == KBound {
			return false
		}
	}
	for _, t := range collect(p) {
		have[t] = true
	}
	for _, b := range bound {
		if !have[b] {
			return false
		}
	}
	return true
}

// noIte drops the choices in a pattern, where the solvers do not accept them: a map that lacks the key reads as zero.
func isLitTerm(t *Term) bool { return t.kind == KInt || t.kind == KStr }

func noIte(t *Term) *Term {
	if t.kind != KApp {
		return t
	}
	if t.op == "ite" {
		a, b := t.args[1], t.args[2]
		if !t.open && !isLitTerm(a) && !isLitTerm(b) {
			return t
		}
		if a.open || !b.open && (b.kind == KInt || b.kind == KStr) {
			return noIte(a)
		}
		if b.open || a.kind == KInt || a.kind == KStr {
			return noIte(b)
		}
		return noIte(a)
	}
	ch := false
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = noIte(a)
		ch = ch || as[i] != a
	}
	if !ch {
		return t
	}
	return rawApp(t.op, t.sort, t.decl, as...)
}

func beneathStores(p []*Term) []*Term {
	var np []*Term
	for i, t := range p {
		if t.op == "select" && len(t.args) == 2 && t.args[0].op == "store" && t.args[1].open {
			b := t.args[0]
			for b.op == "store" && len(b.args) == 3 {
				b = b.args[0]
			}
			if np == nil {
				np = append([]*Term{}, p...)
			}
			np[i] = rawApp("select", t.sort, "", b, t.args[1])
		}
	}
	return np
}

func hasFreeBound(t *Term, bound []*Term) bool {
	m := map[*Term]bool{}
	for _, b := range bound {
		m[b] = true
	}
	found := false
	var walk func(t *Term, m map[*Term]bool)
	walk = func(t *Term, m map[*Term]bool) {
		if found || !t.open {
			return
		}
		if t.kind == KBound {
			if !m[t] {
				found = true
			}
			return
		}
		if t.kind == KQuant {
			m2 := map[*Term]bool{}
			for k := range m {
				m2[k] = true
			}
			for _, b := range t.bound {
				m2[b] = true
			}
			walk(t.args[0], m2)
			return
		}
		for _, a := range t.args {
			walk(a, m)
		}
	}
	walk(t, m)
	return found
}

func Forall(bound []*Term, body *Term, pats ...[]*Term) *Term {
	return Quant("forall", bound, body, pats)
}
func Exists(bound []*Term, body *Term, pats ...[]*Term) *Term {
	return Quant("exists", bound, body, pats)
}

// Subst replaces constants/bound variables by terms.
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		var r *Term
		if t.kind == KQuant {
			b := walk(t.args[0])
			var ps [][]*Term
			for _, p := range t.pats {
				var q []*Term
				for _, x := range p {
					q = append(q, walk(x))
				}
				ps = append(ps, q)
			}
			r = Quant(t.op, t.bound, b, ps)
		} else {
			na := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				na[i] = walk(a)
				ch = ch || na[i] != a
			}
			if !ch {
				r = t
			} else {
				r = rebuild(t, na)
			}
		}
		memo[t] = r
		return r
	}
	return walk(t)
}

func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case "not":
		return Not(a[0])
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "=>":
		return Implies(a[0], a[1])
	case "=":
		return Eq(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "+":
		return Add(a...)
	case "-":
		if len(a) == 2 {
			return Sub(a[0], a[1])
		}
	case "*":
		return Mul(a[0], a[1])
	case "<=":
		return Le(a[0], a[1])
	case "<":
		return Lt(a[0], a[1])
	case "select":
		return Select(a[0], a[1])
	case "store":
		return Store(a[0], a[1], a[2])
	case "str.++":
		return Cat(a...)
	case "str.len":
		return SLen(a[0])
	case "str.substr":
		return Substr(a[0], a[1], a[2])
	}
	return rawApp(t.op, t.sort, t.decl, a...)
}

// ---- constructors with simplification ----

func Not(a *Term) *Term {
	switch {
	case a == True:
		return False
	case a == False:
		return True
	case a.kind == KApp && a.op == "not":
		return a.args[0]
	}
	return rawApp("not", SBool, "", a)
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var add func(a *Term) bool
	add = func(a *Term) bool {
		if a == True || seen[a] {
			return true
		}
		if a == False || seen[Not(a)] {
			return false
		}
		if a.kind == KApp && a.op == "and" {
			for _, x := range a.args {
				if !add(x) {
					return false
				}
			}
			return true
		}
		seen[a] = true
		out = append(out, a)
		return true
	}
	for _, a := range as {
		if !add(a) {
			return False
		}
	}
	if len(out) == 0 {
		return True
	}
	if len(out) == 1 {
		return out[0]
	}
	return rawApp("and", SBool, "", out...)
}

func Or(as ...*Term) *Term {
	na := make([]*Term, len(as))
	for i, a := range as {
		na[i] = Not(a)
	}
	// flatten manually to keep disjunctions readable
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		xs := []*Term{a}
		if a.kind == KApp && a.op == "or" {
			xs = a.args
		}
		for _, x := range xs {
			if x == True || seen[Not(x)] {
				return True
			}
			if x == False || seen[x] {
				continue
			}
			seen[x] = true
			out = append(out, x)
		}
	}
	if len(out) == 0 {
		return False
	}
	if len(out) == 1 {
		return out[0]
	}
	return rawApp("or", SBool, "", out...)
}

func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True || a == b {
		return True
	}
	if b == False {
		return Not(a)
	}
	return rawApp("=>", SBool, "", a, b)
}

func isLit(t *Term) bool { return t.kind == KInt || t.kind == KStr || t.kind == KBool }

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch %s:%s vs %s:%s", a, a.sort, b, b.sort))
	}
	if isLit(a) && isLit(b) {
		return False
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	}
	if isBox(a) && isBox(b) {
		if a.op != b.op {
			return False
		}
		cs := []*Term{}
		for i := range a.args {
			cs = append(cs, Eq(a.args[i], b.args[i]))
		}
		return And(cs...)
	}
	if (isBox(a) && b == NilIface) || (isBox(b) && a == NilIface) {
		return False
	}
	if a.sort == SInt {
		// constant offset comparison
		ab, ao := splitOff(a)
		bb, bo := splitOff(b)
		if ab == bb {
			return BoolC(ao.Cmp(bo) == 0)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return rawApp("=", SBool, "", a, b)
}
func Neq(a, b *Term) *Term { return Not(Eq(a, b)) }

var NilIface = Sym("nilI", SIface)

func isBox(t *Term) bool { return t.kind == KApp && strings.HasPrefix(t.op, "box:") }

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.sort == SBool {
		return And(Implies(c, a), Implies(Not(c), b))
	}
	return rawApp("ite", a.sort, "", c, a, b)
}

// splitOff views t as base + constant (base nil for constants).
func splitOff(t *Term) (*Term, *big.Int) {
	if t.kind == KInt {
		return nil, t.ival
	}
	if t.kind == KApp && t.op == "+" && len(t.args) == 2 && t.args[1].kind == KInt {
		return t.args[0], t.args[1].ival
	}
	return t, big.NewInt(0)
}

func Add(as ...*Term) *Term {
	if len(as) > 2 {
		r := as[0]
		for _, x := range as[1:] {
			r = Add(r, x)
		}
		return r
	}
	if len(as) == 1 {
		return as[0]
	}
	a, b := as[0], as[1]
	ab, ao := splitOff(a)
	bb, bo := splitOff(b)
	off := new(big.Int).Add(ao, bo)
	var base *Term
	switch {
	case ab == nil:
		base = bb
	case bb == nil:
		base = ab
	default:
		// cancel x + (y - x)
		if bb.kind == KApp && bb.op == "-" && len(bb.args) == 2 && bb.args[1] == ab {
			base = bb.args[0]
			return Add(base, IntBig(off))
		}
		if ab.kind == KApp && ab.op == "-" && len(ab.args) == 2 && ab.args[1] == bb {
			base = ab.args[0]
			return Add(base, IntBig(off))
		}
		base = rawApp("+", SInt, "", ab, bb)
	}
	if base == nil {
		return IntBig(off)
	}
	if off.Sign() == 0 {
		return base
	}
	return rawApp("+", SInt, "", base, IntBig(off))
}

func Sub(a, b *Term) *Term {
	if a == b {
		return IntC(0)
	}
	ab, ao := splitOff(a)
	bb, bo := splitOff(b)
	if bb == nil {
		return Add(a, IntBig(new(big.Int).Neg(bo)))
	}
	off := new(big.Int).Sub(ao, bo)
	if ab == bb {
		return IntBig(off)
	}
	if ab != nil && ab.kind == KApp && ab.op == "+" && len(ab.args) == 2 {
		if ab.args[0] == bb {
			return Add(ab.args[1], IntBig(off))
		}
		if ab.args[1] == bb {
			return Add(ab.args[0], IntBig(off))
		}
	}
	var base *Term
	if ab == nil {
		base = rawApp("-", SInt, "", IntC(0), bb)
	} else {
		base = rawApp("-", SInt, "", ab, bb)
	}
	return Add(base, IntBig(off))
}

func Mul(a, b *Term) *Term {
	if a.kind == KInt && b.kind == KInt {
		return IntBig(new(big.Int).Mul(a.ival, b.ival))
	}
	if a.kind == KInt {
		a, b = b, a
	}
	if b.kind == KInt {
		if b.ival.Sign() == 0 {
			return IntC(0)
		}
		if b.ival.Cmp(big.NewInt(1)) == 0 {
			return a
		}
	}
	return rawApp("*", SInt, "", a, b)
}

func Le(a, b *Term) *Term {
	ab, ao := splitOff(a)
	bb, bo := splitOff(b)
	if ab == bb {
		return BoolC(ao.Cmp(bo) <= 0)
	}
	return rawApp("<=", SBool, "", a, b)
}
func Lt(a, b *Term) *Term {
	ab, ao := splitOff(a)
	bb, bo := splitOff(b)
	if ab == bb {
		return BoolC(ao.Cmp(bo) < 0)
	}
	return rawApp("<", SBool, "", a, b)
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func DivT(a, b *Term) *Term { // SMT div (Euclidean)
	if a.kind == KInt && b.kind == KInt && b.ival.Sign() != 0 {
		q, _ := new(big.Int).DivMod(a.ival, b.ival, new(big.Int))
		return IntBig(q)
	}
	if b.kind == KInt && b.ival.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return rawApp("div", SInt, "", a, b)
}
func ModT(a, b *Term) *Term {
	if a.kind == KInt && b.kind == KInt && b.ival.Sign() != 0 {
		_, m := new(big.Int).DivMod(a.ival, b.ival, new(big.Int))
		return IntBig(m)
	}
	return rawApp("mod", SInt, "", a, b)
}

func Select(arr, idx *Term) *Term {
	for {
		if arr.kind == KApp && arr.op == "store" {
			e := Eq(arr.args[1], idx)
			if e == True {
				return arr.args[2]
			}
			if e == False {
				arr = arr.args[0]
				continue
			}
		}
		if arr.kind == KApp && strings.HasPrefix(arr.op, "(as const") {
			return arr.args[0]
		}
		break
	}
	_, v := arrParts(arr.sort)
	return rawApp("select", v, "", arr, idx)
}

func Store(arr, idx, v *Term) *Term {
	if arr.kind == KApp && arr.op == "store" && arr.args[1] == idx {
		return Store(arr.args[0], idx, v)
	}
	_, vs := arrParts(arr.sort)
	if vs != v.sort {
		panic(fmt.Sprintf("Store sort mismatch: %s into %s", v.sort, arr.sort))
	}
	return rawApp("store", arr.sort, "", arr, idx, v)
}

func ConstArr(s Sort, v *Term) *Term { return rawApp("(as const "+s+")", s, "", v) }

func Cat(as ...*Term) *Term {
	var out []*Term
	var add func(a *Term)
	add = func(a *Term) {
		if a.kind == KApp && a.op == "str.++" {
			for _, x := range a.args {
				add(x)
			}
			return
		}
		if a.kind == KStr {
			if a.op == "" {
				return
			}
			if n := len(out); n > 0 && out[n-1].kind == KStr {
				out[n-1] = StrC(out[n-1].op + a.op)
				return
			}
		}
		out = append(out, a)
	}
	for _, a := range as {
		add(a)
	}
	if len(out) == 0 {
		return StrC("")
	}
	if len(out) == 1 {
		return out[0]
	}
	return rawApp("str.++", SStr, "", out...)
}

func SLen(a *Term) *Term {
	if a.kind == KStr {
		return IntC(int64(len(a.op)))
	}
	if a.kind == KApp && a.op == "str.++" {
		r := IntC(0)
		for _, x := range a.args {
			r = Add(r, SLen(x))
		}
		return r
	}
	return rawApp("str.len", SInt, "", a)
}

func Substr(s, off, n *Term) *Term {
	if off.kind == KInt && off.ival.Sign() == 0 && n == SLen(s) {
		return s
	}
	if s.kind == KStr && off.kind == KInt && n.kind == KInt {
		o, l := int(off.ival.Int64()), int(n.ival.Int64())
		if o >= 0 && l >= 0 && o+l <= len(s.op) {
			return StrC(s.op[o : o+l])
		}
	}
	return rawApp("str.substr", SStr, "", s, off, n)
}

func StrLt(a, b *Term) *Term { return rawApp("str.<", SBool, "", a, b) }
func StrAtCode(s, i *Term) *Term {
	if s.kind == KStr && i.kind == KInt {
		k := int(i.ival.Int64())
		if k >= 0 && k < len(s.op) {
			return IntC(int64(s.op[k]))
		}
	}
	return rawApp("str.to_code", SInt, "", rawApp("str.at", SStr, "", s, i))
}
func FromCode(c *Term) *Term {
	if c.kind == KInt && c.ival.IsInt64() && c.ival.Int64() >= 0 && c.ival.Int64() < 256 {
		return StrC(string([]byte{byte(c.ival.Int64())}))
	}
	return rawApp("str.from_code", SStr, "", c)
}

// ---- printing ----

func smtStr(s string) string {
	var sb strings.Builder
	sb.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		switch {
		case c == '"':
			sb.WriteString(`""`)
		case c < 32 || c > 126 || c == '\\':
			fmt.Fprintf(&sb, `\u{%x}`, c)
		default:
			sb.WriteByte(c)
		}
	}
	sb.WriteByte('"')
	return sb.String()
}

func smtName(s string) string {
	ok := true
	for i := 0; i < len(s); i++ {
		c := s[i]
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.IndexByte("_.!$-@", c) >= 0) {
			ok = false
		}
	}
	if ok && len(s) > 0 && !(s[0] >= '0' && s[0] <= '9') {
		return s
	}
	return "|" + strings.NewReplacer("|", "!", "\\", "!").Replace(s) + "|"
}

func (t *Term) String() string {
	s := printTerm(t, nil)
	if len(s) > 4000 {
		s = s[:4000] + "..."
	}
	return s
}

func printTerm(t *Term, names map[*Term]string) string { return (&printer{names: names}).term(t) }

// printer renders terms; with opaque set, strings become an uninterpreted sort.
type printer struct {
	names  map[*Term]string
	opaque bool
	lits   map[string]string
	ops    map[string]string // opaque string operations in use and their declarations
}

func (p *printer) sort(s Sort) string {
	if p.opaque {
		return strings.ReplaceAll(s, "String", "Str")
	}
	return s
}

func (p *printer) term(t *Term) string {
	if p.names != nil {
		if n, ok := p.names[t]; ok {
			return n
		}
	}
	return p.body(t)
}

func (p *printer) body(t *Term) string {
	switch t.kind {
	case KConst, KBound:
		return smtName(t.op)
	case KInt:
		if t.ival.Sign() < 0 {
			return "(- " + new(big.Int).Neg(t.ival).String() + ")"
		}
		return t.ival.String()
	case KStr:
		if p.opaque {
			n, ok := p.lits[t.op]
			if !ok {
				n = fmt.Sprintf("lit!%d", len(p.lits))
				p.lits[t.op] = n
			}
			return n
		}
		return smtStr(t.op)
	case KBool:
		return t.op
	case KQuant:
		var sb strings.Builder
		sb.WriteString("(" + t.op + " (")
		for _, b := range t.bound {
			sb.WriteString("(" + smtName(b.op) + " " + p.sort(b.sort) + ")")
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		sb.WriteString(p.term(t.args[0]))
		if len(t.pats) > 0 {
			for _, pt := range t.pats {
				sb.WriteString(" :pattern (")
				for i, x := range pt {
					if i > 0 {
						sb.WriteByte(' ')
					}
					sb.WriteString(p.term(x))
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return sb.String()
	}
	op := t.op
	if t.decl != "" {
		op = smtName(op)
	}
	if len(t.args) == 0 {
		return op
	}
	if p.opaque && strings.HasPrefix(op, "str.") {
		op = "o" + op
		n := len(t.args)
		if op == "ostr.++" {
			n = 2
		}
		if _, ok := p.ops[op]; !ok {
			d := "(declare-fun " + op + " ("
			for i := 0; i < n; i++ {
				d += p.sort(t.args[i].sort) + " "
			}
			p.ops[op] = d + ") " + p.sort(t.sort) + ")\n"
		}
		if op == "ostr.++" {
			r := p.term(t.args[len(t.args)-1])
			for i := len(t.args) - 2; i >= 0; i-- {
				r = "(" + op + " " + p.term(t.args[i]) + " " + r + ")"
			}
			return r
		}
	} else if p.opaque && strings.HasPrefix(op, "(as const") {
		op = p.sort(op)
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(op)
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(p.term(a))
	}
	sb.WriteByte(')')
	return sb.String()
}

// collect walks all sub-terms once, in dependency order.
func collect(roots []*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, a := range t.args {
			walk(a)
		}
		for _, p := range t.pats {
			for _, x := range p {
				walk(x)
			}
		}
		out = append(out, t)
	}
	for _, r := range roots {
		walk(r)
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
