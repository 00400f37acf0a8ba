package main

import "fmt"

// skolemize names the witnesses of the ground existentials of a query and offers them, as instances, to the goal's
// own existentials: the solvers' triggers often miss that the witness of an invariant before a step is its witness
// after it.
func skolemize(roots []*Term, goal int) []*Term {
	var sks []*Term
	seen := map[*Term]bool{}
	offs := map[*Term]*Term{} // what the constant is more than the index its quantifier is about
	var walk func(t *Term, pos bool) *Term
	walk = func(t *Term, pos bool) *Term {
		if t.sort != SBool {
			return t
		}
		switch {
		case t.kind == KQuant && !t.open && (t.op == "exists") == pos:
			m := map[*Term]*Term{}
			for _, b := range t.bound {
				c := Sym(fmt.Sprintf("sk!%d!%s", t.id, b.op), b.sort)
				m[b] = c
				offs[c] = indexOffset(t, b)
				if !seen[c] {
					seen[c] = true
					sks = append(sks, c)
				}
			}
			return walk(Subst(t.args[0], m), pos)
		case t.kind == KApp && t.op == "not":
			return Not(walk(t.args[0], !pos))
		case t.kind == KApp && t.op == "and":
			as := make([]*Term, len(t.args))
			for i, a := range t.args {
				as[i] = walk(a, pos)
			}
			return And(as...)
		case t.kind == KApp && t.op == "or":
			as := make([]*Term, len(t.args))
			for i, a := range t.args {
				as[i] = walk(a, pos)
			}
			return Or(as...)
		case t.kind == KApp && t.op == "=>":
			return Implies(walk(t.args[0], !pos), walk(t.args[1], pos))
		}
		return t
	}
	out := make([]*Term, len(roots))
	for i, r := range roots {
		out[i] = walk(r, true)
	}
	if goal < 0 {
		return out
	}
	// instances for the goal
	var inst func(t *Term, pos bool) *Term
	inst = func(t *Term, pos bool) *Term {
		if t.sort != SBool {
			return t
		}
		switch {
		case t.kind == KQuant && !t.open && (t.op == "forall") == pos:
			as := []*Term{t}
			for _, m := range choices(t, sks, offs, 40) {
				as = append(as, Subst(t.args[0], m))
			}
			if pos {
				return And(as...)
			}
			return Or(as...)
		case t.kind == KApp && t.op == "not":
			return Not(inst(t.args[0], !pos))
		case t.kind == KApp && (t.op == "and" || t.op == "or"):
			as := make([]*Term, len(t.args))
			for i, a := range t.args {
				as[i] = inst(a, pos)
			}
			if t.op == "and" {
				return And(as...)
			}
			return Or(as...)
		case t.kind == KApp && t.op == "=>":
			return Implies(inst(t.args[0], !pos), inst(t.args[1], pos))
		}
		return t
	}
	out[goal] = inst(out[goal], true)
	// solvers do not see, for their triggers, ground terms inside of quantifiers: mention those of the goal outside
	ment := map[*Term]bool{}
	var ground func(t *Term, in bool)
	walked := map[*Term]bool{}
	ground = func(t *Term, in bool) {
		if in && !t.open {
			if t.kind == KApp && t.sort != SBool && len(t.args) > 0 && !ment[t] {
				ment[t] = true
				out = append(out, UF("mention!"+t.sort, SBool, t))
			}
			if t.sort != SBool {
				return
			}
		}
		if walked[t] && !in {
			return
		}
		walked[t] = true
		for _, a := range t.args {
			ground(a, in || t.kind == KQuant)
		}
	}
	ground(out[goal], false)
	return out
}

// choices lists the ways to put one of the constants for each bound variable, at most max of them.
func choices(t *Term, cs []*Term, offs map[*Term]*Term, max int) []map[*Term]*Term {
	out := []map[*Term]*Term{{}}
	cs = append([]*Term{}, cs...)
	abs := map[*Term]bool{}
	for _, z := range collect(t.args) {
		// an element written in a slice: (store heap ref (store elems index v))
		if z.kind == KApp && z.op == "store" && z.args[2].kind == KApp && z.args[2].op == "store" && !z.open {
			if ix := z.args[2].args[1]; ix.sort == SInt && !abs[ix] {
				abs[ix] = true
				cs = append(cs, ix)
			}
		}
		// what was put into a set or map that the bound variable is looked up in
		if z.kind == KApp && z.op == "select" && z.args[1].kind != KApp {
			for a := z.args[0]; a.kind == KApp && a.op == "store"; a = a.args[0] {
				if k := a.args[1]; k.sort != SInt && k.sort == z.args[1].sort && !k.open && !abs[k] {
					abs[k] = true
					cs = append(cs, k)
				}
			}
		}
	}
	for _, b := range t.bound {
		off := indexOffset(t, b)
		var next []map[*Term]*Term
		for _, m := range out {
			for _, c := range cs {
				if c.sort != b.sort {
					continue
				}
				v := c
				if !abs[c] && offs[c] != off {
					v = Add(Sub(c, offs[c]), off)
				}
				n := map[*Term]*Term{b: v}
				for k, v := range m {
					n[k] = v
				}
				next = append(next, n)
			}
		}
		out = next
	}
	if len(out) > max {
		return nil
	}
	return out
}

// indexOffset is what shiftIndex added to the bound variable: the body speaks of b - offset.
func indexOffset(t, b *Term) *Term {
	if b.sort == SInt {
		for _, z := range collect(t.args) {
			if z.kind == KApp && z.op == "-" && len(z.args) == 2 && z.args[0] == b && !z.args[1].open {
				return z.args[1]
			}
		}
	}
	return IntC(0)
}
