package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// verifyFunc symbolically executes a function against its contract and collects obligations.
func (w *World) verifyFunc(fn *ssa.Function, spec *FuncSpec, prop string, limit time.Duration, effort int) (x *Exec) {
	x = &Exec{w: w, fn: fn, spec: spec, prop: prop, assum: map[string]bool{}, used: map[string]bool{}, inlined: map[string]bool{}, reached: map[string]bool{},
		houdini: map[string]map[string]bool{}, heapSorts: map[string]*Term{}, invUsed: map[string]bool{}, deadline: time.Now().Add(limit), effort: effort, t0: time.Now()}
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(unsupportedErr); ok {
				x.err = e.msg
				return
			}
			if os.Getenv("GCV_PANIC") != "" {
				panic(r)
			}
			x.err = fmt.Sprintf("internal: %v", r)
		}
	}()
	st := newState(x)
	st.assume(Ge(epochSym(0), IntC(1000000)))
	if len(spec.Params) != len(fn.Params) {
		panic(unsupported(fmt.Sprintf("contract %s names %d parameters, the function has %d", spec.Key, len(spec.Params), len(fn.Params))))
	}
	for _, p := range fn.Params {
		v := st.havoc(p.Name(), p.Type())
		x.params = append(x.params, v)
	}
	var free []Val
	for _, fv := range fn.FreeVars {
		v := st.havoc(fv.Name(), fv.Type())
		free = append(free, v)
	}
	env := x.specEnv(st, spec, x.params)
	env.old = st
	for _, c := range spec.Clauses {
		if (c.Kind == "requires" || c.Kind == "assume") && c.applies(prop) {
			env.pos = c.Pos
			st.assume(env.Bool(c.E))
		}
	}
	x.entry = st.clone()
	// the contract must not be vacuous
	if w.solver.Quick(st.pc, nil, 2000) == Proved {
		x.oblige(st, "vacuous", "precondition", False, fn.Pos(), prop)
	}
	fr := x.pushFrame(st, fn, x.params, free, nil)
	fr.onRet = func(s *State, rs []Val) bool {
		x.atReturn(s, rs)
		return false
	}
	x.checkAlways(st, fn.Pos(), "entry")
	st.lastGhosts = cloneMap(st.ghosts)
	x.run(st)
	if x.nRet == 0 && !spec.Exit {
		o := &Obl{Name: shortFn(fn) + "/vacuous/no-return", Fn: shortFn(fn), Kind: "vacuous", Prop: prop, Goal: False}
		x.obls = append(x.obls, o)
	}
	return x
}

func (x *Exec) atReturn(st *State, rs []Val) {
	if x.quiet > 0 {
		return
	}
	if st.dead {
		return
	}
	if x.w.solver.Quick(st.pc, nil, 500) == Proved {
		return
	}
	x.nRet++
	sp := x.spec
	x.checkAlways(st, x.fn.Pos(), "return")
	env := x.bodyEnv(st)
	for i, r := range sp.Results {
		if r != "_" && i < len(rs) {
			v := rs[i]
			v.T = x.fn.Signature.Results().At(i).Type()
			env.vars[r] = v
		}
	}
	n := 0
	for _, c := range sp.Clauses {
		if !c.applies(x.prop) {
			continue
		}
		env.pos = c.Pos
		switch c.Kind {
		case "ensures", "assert":
			n++
			lbl := c.Name
			if lbl == "" {
				lbl = fmt.Sprintf("ensures%d", n)
			}
			x.oblige(st, "post", lbl, env.Bool(c.E), x.fn.Pos(), x.prop)
		case "set":
			lbl := c.Name
			if lbl == "" {
				lbl = "set." + strings.TrimSpace(strings.SplitN(c.Src, ":=", 2)[0])
			}
			x.oblige(st, "post", lbl, x.setGoal(env, c), x.fn.Pos(), x.prop)
		case "fresh":
			if v, ok := env.vars[c.LHS.name]; ok {
				x.oblige(st, "post", "fresh."+c.LHS.name, Or(Gt(v.L[0], x.entry.allocBound()), Eq(v.L[0], IntC(0))), x.fn.Pos(), x.prop)
			}
		}
	}
	if len(sp.Cases) > 0 {
		var alts []*Term
		for _, c := range sp.Cases {
			var cs []*Term
			set := map[string]bool{}
			for _, cl := range c.Clauses {
				if !cl.applies(x.prop) {
					continue
				}
				env.pos = cl.Pos
				switch cl.Kind {
				case "ensures", "assert", "requires":
					cs = append(cs, env.Bool(cl.E))
				case "set":
					cs = append(cs, x.setGoal(env, cl))
					set[rootName(cl.LHS)] = true
				case "havoc", "modifies":
					set[rootName(cl.LHS)] = true
				case "fresh":
					if v, ok := env.vars[cl.LHS.name]; ok {
						cs = append(cs, Or(Gt(v.L[0], x.entry.allocBound()), Eq(v.L[0], IntC(0))))
					}
				}
			}
			for _, g := range sortedKeys(x.w.specs.Ghosts) {
				if !set[g] && x.ghostListed(g, nil) == 2 {
					s, _ := x.w.sortOf(x.w.specs.Ghosts[g])
					cs = append(cs, Eq(st.ghost(g, s), x.entry.ghost(g, s)))
				}
			}
			alts = append(alts, And(cs...))
		}
		x.oblige(st, "post", "cases", Or(alts...), x.fn.Pos(), x.prop)
	}
	x.checkFrame(st)
}

func rootName(e *Expr) string {
	for e.op != "id" {
		if len(e.args) == 0 {
			return ""
		}
		e = e.args[0]
	}
	return e.name
}

func (x *Exec) setGoal(env *Env, c *Clause) *Term {
	switch c.LHS.op {
	case "id", "index", "field", "un", "call":
		var l Val
		if c.LHS.op == "index" {
			l = env.eval(c.LHS)
		} else {
			l = env.eval(c.LHS)
		}
		r := env.eval(c.E)
		l, r = env.unify(l, r)
		var cs []*Term
		for i := range l.L {
			cs = append(cs, Eq(l.L[i], r.L[i]))
		}
		return And(cs...)
	}
	env.fail("set")
	return nil
}

// ghostListed: 0 not listed, 1 listed in the common clauses, 2 only in cases.
func (x *Exec) ghostListed(g string, keys *[]*Expr) int {
	res := 0
	for _, c := range x.spec.Clauses {
		if (c.Kind == "set" || c.Kind == "havoc" || c.Kind == "modifies") && rootName(c.LHS) == g && c.applies(x.prop) && (c.LHS.op == "id" || c.LHS.op == "index") {
			res = 1
			if keys != nil && c.LHS.op == "index" {
				*keys = append(*keys, c.LHS.args[1])
			} else if keys != nil {
				*keys = append(*keys, nil)
			}
		}
	}
	for _, cs := range x.spec.Cases {
		for _, c := range cs.Clauses {
			if (c.Kind == "set" || c.Kind == "havoc" || c.Kind == "modifies") && rootName(c.LHS) == g && c.applies(x.prop) && (c.LHS.op == "id" || c.LHS.op == "index") {
				if res == 0 {
					res = 2
				}
				if keys != nil && c.LHS.op == "index" {
					*keys = append(*keys, c.LHS.args[1])
				} else if keys != nil {
					*keys = append(*keys, nil)
				}
			}
		}
	}
	return res
}

// checkFrame: only what the contract lists may have changed.
func (x *Exec) checkFrame(st *State) {
	if x.spec.NoFrame {
		return
	}
	names := map[string]bool{}
	for _, w := range st.writes {
		names[w.Name] = true
	}
	env := x.bodyEnv(st)
	allowed := x.allowed(env)
	for _, n := range sortedKeys(names) {
		switch {
		case strings.HasPrefix(n, "I:"):
		case strings.HasPrefix(n, "G:"):
			g := n[2:]
			var keys []*Expr
			s, _ := x.w.sortOf(x.w.specs.Ghosts[g])
			cur, old := st.ghost(g, s), x.entry.ghost(g, s)
			if cur == old {
				continue
			}
			byRef := strings.HasPrefix(x.w.specs.Ghosts[g], "map[ref]") || x.w.specs.Ghosts[g] == "set[ref]"
			same := func(exp *Term) *Term {
				if !byRef {
					return Eq(cur, exp)
				}
				// entries of objects allocated since are the function's own
				b0 := bound{x.entry.epoch, x.entry.off}
				strip := cur
				for strip.kind == KApp && strip.op == "store" {
					if fb, ok := freshRef(strip.args[1]); ok && fb.after(b0) {
						strip = strip.args[0]
						continue
					}
					break
				}
				if strip == exp {
					return True
				}
				r := BVar("r!f", SInt)
				_, in := arrParts(cur.sort)
				s1 := rawApp("select", in, "", strip, r)
				return Forall([]*Term{r}, Implies(And(Lt(IntC(0), r), Le(r, x.entry.allocBound())), Eq(s1, Select(exp, r))), []*Term{s1})
			}
			if x.ghostListed(g, &keys) == 0 {
				x.oblige(st, "frame", "ghost."+g, same(old), x.fn.Pos(), x.prop)
				continue
			}
			whole := false
			exp := old
			for _, k := range keys {
				if k == nil {
					whole = true
					break
				}
				kt := env.inState(x.entry, func() Val { return env.eval(k) }).term()
				exp = Store(exp, kt, Select(cur, kt))
			}
			if !whole {
				x.oblige(st, "frame", "ghost."+g, same(exp), x.fn.Pos(), x.prop)
			}
		default:
			cur := st.heaps[n]
			if cur == nil {
				continue
			}
			old := x.entry.heaps[n]
			if old == nil {
				old = Sym("H:"+n, cur.sort)
			}
			b0 := bound{x.entry.epoch, x.entry.off}
			strip := cur
			for strip.kind == KApp && strip.op == "store" {
				if fb, ok := freshRef(strip.args[1]); ok && fb.after(b0) {
					strip = strip.args[0]
					continue
				}
				break
			}
			if strip == old {
				continue
			}
			r := BVar("r!f", SInt)
			var ex []*Term
			all := false
			for _, a := range allowed {
				if a.match(n) {
					if a.ref == nil {
						all = true
					} else {
						ex = append(ex, Eq(r, a.ref))
					}
				}
			}
			if all {
				continue
			}
			_, in := arrParts(cur.sort)
			s1 := rawApp("select", in, "", strip, r)
			g := Forall([]*Term{r}, Implies(And(Lt(IntC(0), r), Le(r, x.entry.allocBound()), Not(Or(ex...))), Eq(s1, Select(old, r))), []*Term{s1})
			x.oblige(st, "frame", "heap."+shortKey(n), g, x.fn.Pos(), x.prop)
		}
	}
}

type allow struct {
	prefix string
	exact  bool
	ref    *Term
}

func (a allow) match(n string) bool {
	if a.exact {
		return n == a.prefix
	}
	return strings.HasPrefix(n, a.prefix)
}

func (x *Exec) allowed(env *Env) []allow {
	var out []allow
	add := func(c *Clause) {
		if !c.applies(x.prop) || !(c.Kind == "modifies" || c.Kind == "havoc" || c.Kind == "set") {
			return
		}
		l := c.LHS
		env.pos = c.Pos
		env.inState(x.entry, func() Val {
			switch {
			case l.op == "field" || l.op == "un":
				a := env.addr(l)
				out = append(out, allow{prefix: heapName(a, ""), ref: a.Ref})
			case l.op == "index" && !(l.args[0].op == "id" && x.w.specs.Ghosts[l.args[0].name] != ""):
				a := env.addr(l)
				out = append(out, allow{prefix: heapName(a, ""), ref: a.Ref})
			case l.op == "call" && l.name == "anyfield":
				a := env.addr(l.args[0])
				out = append(out, allow{prefix: heapName(a, "")})
			case l.op == "call":
				v := env.eval(l.args[0])
				switch l.name {
				case "bytes":
					out = append(out, allow{prefix: "B", exact: true, ref: v.L[0]})
				case "elems":
					el := v.T.Underlying().(*types.Slice).Elem()
					if isByte(el) {
						out = append(out, allow{prefix: "B", exact: true, ref: v.L[0]})
					}
					out = append(out, allow{prefix: "E:" + typeKey(el), ref: v.L[0]})
				case "contents":
					dn, _, _, _ := mapNames(v.T.Underlying().(*types.Map))
					out = append(out, allow{prefix: strings.TrimSuffix(dn, "#dom"), ref: v.L[0]})
				case "sent", "delivered", "nsent", "closed":
					out = append(out, allow{prefix: "C:", ref: v.L[0]})
				}
			}
			return Val{L: []*Term{True}}
		})
	}
	for _, c := range x.spec.Clauses {
		add(c)
	}
	for _, cs := range x.spec.Cases {
		for _, c := range cs.Clauses {
			add(c)
		}
	}
	return out
}

// ---- lemmas ----

func (w *World) lemmaObls(names map[string]bool) []*Obl {
	var out []*Obl
	for i, a := range w.specs.Axioms {
		if !a.Lemma || (names != nil && !names[a.Name]) {
			continue
		}
		t := w.solver.axioms[i].T
		mk := func(kind string, as []*Term, g *Term) {
			out = append(out, &Obl{Name: "lemma/" + a.Name + "/" + kind, Fn: "lemma", Kind: "lemma", As: as, Goal: g, Pos: a.Pos, lemmaIdx: i + 1})
		}
		if a.Induct == "" {
			// skolemise the outer quantifier
			if t.kind == KQuant && t.op == "forall" {
				mk("direct", nil, skolem(t, nil))
			} else {
				mk("direct", nil, t)
			}
			continue
		}
		if t.kind != KQuant || t.op != "forall" {
			panic(unsupported("induction needs a universal lemma " + a.Name))
		}
		var iv *Term
		var rest []*Term
		for _, b := range t.bound {
			if strings.HasPrefix(b.op, a.Induct+"!q") {
				iv = b
			} else {
				rest = append(rest, b)
			}
		}
		if iv == nil {
			panic(unsupported("no induction variable " + a.Induct + " in " + a.Name))
		}
		k := Sym("k!ind", SInt)
		body := t.args[0]
		// strong induction: the statement holds for every smaller non-negative value
		j := BVar("j!ind", SInt)
		var pats [][]*Term
		for _, p := range t.pats {
			var q []*Term
			for _, z := range p {
				q = append(q, Subst(z, map[*Term]*Term{iv: j}))
			}
			pats = append(pats, q)
		}
		hyp := Forall(append([]*Term{j}, rest...), Implies(And(Le(IntC(0), j), Lt(j, k)), Subst(body, map[*Term]*Term{iv: j})), pats...)
		m := map[*Term]*Term{iv: k}
		for _, r := range rest {
			m[r] = Sym("sk."+r.op, r.sort)
		}
		mk("induction", []*Term{Le(IntC(0), k), hyp}, Subst(body, m))
	}
	return out
}

func skolem(t *Term, m map[*Term]*Term) *Term {
	if m == nil {
		m = map[*Term]*Term{}
	}
	for _, b := range t.bound {
		m[b] = Sym("sk."+b.op, b.sort)
	}
	return Subst(t.args[0], m)
}

var _ = sort.Strings
var _ token.Pos
