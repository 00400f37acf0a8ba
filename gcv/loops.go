package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type cand struct {
	name string
	spec bool
	eval func(st *State) *Term
	at   *Term // value at the head, for reports

	slow    bool // the last failure was a time-out
	strikes int
}

// variant reports whether a term may change between iterations started after cnt0.
func variant(t *Term, cnt0 int) bool {
	for _, x := range collect([]*Term{t}) {
		if x.kind != KConst {
			continue
		}
		k := symIndex(x.op)
		if strings.HasPrefix(x.op, "alloc") {
			fmt.Sscanf(x.op[5:], "%d", &k)
		}
		if k > cnt0 {
			return true
		}
	}
	return false
}

func (x *Exec) havocPhis(st *State, f *Frame, to *ssa.BasicBlock) {
	for _, i := range to.Instrs {
		p, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		n := p.Comment
		if n == "" {
			n = p.Name()
		}
		f.env[p] = st.havoc("φ"+n, p.Type())
	}
}

// havocWrites forgets the locations a loop may write.
func (x *Exec) havocWrites(st *State, ws map[string]Write) {
	keys := sortedKeys(ws)
	whole := map[string]bool{}
	for _, k := range keys {
		if ws[k].Ref == nil {
			whole[ws[k].Name] = true
		}
	}
	for _, k := range keys {
		w := ws[k]
		if w.Ref != nil && whole[w.Name] {
			continue
		}
		switch {
		case strings.HasPrefix(w.Name, "I:"):
			if cur, ok := st.iters[w.Name[2:]]; ok {
				st.iters[w.Name[2:]] = st.fresh("visited", cur.sort)
			}
			st.logWrite(w.Name, nil)
		case strings.HasPrefix(w.Name, "G:"):
			g := w.Name[2:]
			s, _ := x.w.sortOf(x.w.specs.Ghosts[g])
			if w.Ref == nil {
				st.setGhost(g, st.fresh("G:"+g, s), nil)
			} else {
				_, vs := arrParts(s)
				st.setGhost(g, Store(st.ghost(g, s), w.Ref, st.fresh("g", vs)), w.Ref)
			}
		default:
			h, ok := st.heaps[w.Name]
			if !ok {
				// created inside the loop: same initial symbol everywhere
				h = x.heapSorts[w.Name]
				if h == nil {
					continue
				}
				st.heaps[w.Name] = h
			}
			_, in := arrParts(h.sort)
			if w.Ref == nil {
				nh := st.fresh("H:"+w.Name, h.sort)
				if w.Name == "B" {
					r := BVar("r!b", SInt)
					sel := rawApp("select", SStr, "", nh, r)
					st.assume(Forall([]*Term{r}, Implies(Le(r, st.allocBound()), Eq(SLen(sel), SLen(Select(h, r)))), []*Term{sel}))
				}
				st.heaps[w.Name] = nh
				st.logWrite(w.Name, nil)
			} else {
				nv := st.fresh("h:"+w.Name, in)
				if w.Name == "B" {
					st.assume(Eq(SLen(nv), SLen(st.sel(h, w.Ref))))
				}
				st.setHeap(w.Name, h.sort, w.Ref, nv)
				// references stored there are allocated
				if in == SInt && x.isRefHeap(w.Name) {
					st.assume(Le(IntC(0), nv), Le(nv, st.allocBound()))
					st.bounds[nv] = bound{st.epoch, st.off}
				}
			}
		}
	}
}

func (x *Exec) isRefHeap(name string) bool { return strings.HasSuffix(name, ".#ref") }

// modSet finds what one iteration of the loop may write, closed under repetition.
func (x *Exec) modSet(st *State, f *Frame, to *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) map[string]Write {
	ws := map[string]Write{}
	for round := 0; round < 12; round++ {
		s := st.clone()
		fr := s.top()
		cnt0 := s.cnt
		b0 := bound{s.epoch, s.off}
		s.newEpoch()
		x.havocPhis(s, fr, to)
		x.havocWrites(s, ws)
		s.writes = map[string]Write{}
		grew := false
		lc := &LoopCtx{header: to, body: body}
		lc.onExit = func(*State) {}
		lc.onBack = func(e *State) {
			for n, h := range e.heaps {
				if _, ok := x.heapSorts[n]; !ok {
					x.heapSorts[n] = Sym("H:"+n, h.sort)
				}
			}
			for _, w := range e.writes {
				k, wr := w.Name+"@*", Write{w.Name, nil}
				if w.Ref != nil {
					if fb, ok := freshRef(w.Ref); ok && fb.after(b0) {
						continue // object created in this iteration
					}
					if !variant(w.Ref, cnt0) {
						k, wr = fmt.Sprintf("%s@%d", w.Name, w.Ref.id), w
					}
				}
				if _, ok := ws[k]; !ok {
					if _, all := ws[w.Name+"@*"]; !all {
						ws[k] = wr
						grew = true
					}
				}
			}
		}
		fr.active[to] = lc
		fr.prev, fr.block, fr.pc = fr.block, to, x.firstNonPhi(to)
		x.quiet++
		x.noinv++
		x.run(s)
		x.quiet--
		x.noinv--
		if !grew {
			return ws
		}
	}
	panic(unsupported("loop modification set does not stabilise in " + shortFn(f.fn)))
}

func (x *Exec) loopName(f *Frame, h *ssa.BasicBlock) string {
	return fmt.Sprintf("%s#%d", shortFn(f.fn), h.Index)
}

func (x *Exec) enterLoop(st *State, f *Frame, from, to *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	x.phis(st, f, from, to)
	f.prev, f.block, f.pc = from, to, x.firstNonPhi(to)
	if st.dead {
		return false
	}
	ws := x.modSet(st, f, to, body)
	entry := st.clone()
	nDef := len(f.defers)

	head := func() *State {
		s := entry.clone()
		fr := s.top()
		s.newEpoch()
		x.havocPhis(s, fr, to)
		x.havocWrites(s, ws)
		return s
	}

	var cs []*cand
	if x.noinv == 0 {
		cs = x.candidates(entry, head(), f, to, body, ws)
		cs = x.houdini_(entry, head, f, to, body, cs, nDef)
	}

	// final run from an arbitrary iteration
	s := head()
	for _, c := range cs {
		s.assume(c.eval(s))
	}
	*st = *s
	fr := st.top()
	lc := &LoopCtx{header: to, body: body}
	lc.onBack = func(e *State) {
		if len(e.top().defers) != nDef {
			panic(unsupported("defer inside a loop in " + shortFn(e.top().fn)))
		}
	}
	fr.active[to] = lc
	st.trace = append(st.trace, "loop "+x.loopName(fr, to))
	return !st.dead
}

func (x *Exec) safeEval(c *cand, st *State) (t *Term, ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if e, is := r.(unsupportedErr); is {
				if os.Getenv("GCV_LOOP") != "" {
					fmt.Fprintln(os.Stderr, "  candidate", c.name, "not evaluable:", e.msg)
				}
				t, ok = nil, false
				return
			}
			panic(r)
		}
	}()
	return c.eval(st), true
}

type query struct {
	c  *cand
	as []*Term
	g  *Term
}

// filter proves each query in parallel and returns the candidates with a failing one.
func (x *Exec) filter(qs []query, why string) map[*cand]bool {
	bad := map[*cand]bool{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	lim := make(chan struct{}, 12)
	for _, q := range qs {
		if q.g == True {
			continue
		}
		wg.Add(1)
		lim <- struct{}{}
		go func(q query) {
			defer wg.Done()
			defer func() { <-lim }()
			mu.Lock()
			b := bad[q.c]
			mu.Unlock()
			if b {
				return
			}
			var r Result
			tq, lim := time.Now(), 2000
			if x.effort > 0 {
				lim = 6000
			}
			defer func() {
				if r != Proved {
					mu.Lock()
					q.c.slow = q.c.spec && time.Since(tq) > time.Duration(lim)*9*time.Millisecond/10
					mu.Unlock()
				}
			}()
			switch {
			case q.c.spec && x.effort == 0:
				r = x.w.solver.Abs(q.as, q.g, 2000)
			case q.c.spec:
				r = x.w.solver.Quick(q.as, q.g, 3000)
				if r == Unknown {
					r, _, _ = x.w.solver.Full(q.as, q.g, 6000)
				}
			case strings.HasPrefix(q.c.name, "auto:frame"), strings.HasPrefix(q.c.name, "auto:gframe"):
				r = x.w.solver.Abs(q.as, q.g, 1500)
			default:
				q.as = groundOnly(q.as)
				r = x.w.solver.Abs(q.as, q.g, 1000)
			}
			if r != Proved {
				mu.Lock()
				bad[q.c] = true
				mu.Unlock()
				if os.Getenv("GCV_LOOP") != "" {
					fmt.Fprintf(os.Stderr, "  drop %s (%s): %v\n", q.c.name, why, r)
				}
				if os.Getenv("GCV_DUMP") != "" && q.c.spec {
					fn := fmt.Sprintf("%s/%d-inv-%s-%s.smt2", os.Getenv("GCV_DUMP"), time.Since(x.t0).Milliseconds(), strings.NewReplacer("/", "_", " ", "_", "*", "").Replace(q.c.name), why)
					os.WriteFile(fn, []byte(x.w.solver.Text(q.as, q.g)), 0644)
					ot, _ := x.w.solver.text(q.as, q.g, 0, true)
					os.WriteFile(fn+".o", []byte(ot), 0644)
				}
			}
		}(q)
	}
	wg.Wait()
	return bad
}

func without(cs []*cand, bad map[*cand]bool) []*cand {
	var out []*cand
	for _, c := range cs {
		if !bad[c] {
			out = append(out, c)
		}
	}
	return out
}

func (x *Exec) houdini_(entry *State, head func() *State, f *Frame, to *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, cs []*cand, nDef int) []*cand {
	key := x.loopName(f, to)
	hk := x.pathKey(entry, key)
	hint := x.houdini[hk]
	if hint == nil {
		hint = map[string]bool{}
		x.houdini[hk] = hint
	}
	t0 := time.Now()
	if os.Getenv("GCV_LOOP") != "" {
		fmt.Fprintf(os.Stderr, "loop %s quiet=%d: %d candidates\n", key, x.quiet, len(cs))
	}
	// entry
	var qs []query
	var keep []*cand
	for _, c := range cs {
		if hint[c.name] {
			continue
		}
		e := entry.clone()
		g, ok := x.safeEval(c, e)
		if !ok {
			continue
		}
		keep = append(keep, c)
		qs = append(qs, query{c, e.pc, g})
	}
	badEntry := x.filter(qs, "entry")
	for c := range badEntry {
		hint[c.name] = true
	}
	cs = without(keep, badEntry)
	entryQ := len(qs)
	rounds, backs := 0, 0
	stepQ := 0
	for ; len(cs) > 0 && rounds < 30; rounds++ {
		s := head()
		var ok2 []*cand
		for _, c := range cs {
			if t, ok := x.safeEval(c, s); ok {
				s.assume(t)
				ok2 = append(ok2, c)
			}
		}
		cs = ok2
		var ends []*State
		lc := &LoopCtx{header: to, body: body}
		lc.onExit = func(*State) {}
		lc.onBack = func(e *State) { ends = append(ends, e) }
		fr := s.top()
		fr.active[to] = lc
		x.quiet++
		if !s.dead {
			x.run(s)
		}
		x.quiet--
		backs = len(ends)
		qs = nil
		for _, e := range ends {
			for _, c := range cs {
				e2 := e.clone()
				g, ok := x.safeEval(c, e2)
				if !ok {
					g = False
				}
				qs = append(qs, query{c, e2.pc, g})
			}
		}
		stepQ = len(qs)
		bad := x.filter(qs, "step")
		if len(bad) == 0 {
			break
		}
		// a candidate that only ran out of time may hold once the ones that do not are gone
		slow := 0
		for c := range bad {
			if c.slow && c.strikes < 2 {
				slow++
			}
		}
		if slow < len(bad) {
			for c := range bad {
				if c.slow && c.strikes < 2 {
					c.strikes++
					delete(bad, c)
				}
			}
		}
		for c := range bad {
			hint[c.name] = true
		}
		cs = without(cs, bad)
	}
	if x.quiet == 0 {
		var names []string
		for _, c := range cs {
			if c.spec {
				names = append(names, c.name)
				x.invUsed[baseInv(c.name)] = true
			}
			x.invProved++
		}
		x.invObls += len(cs) + stepQ
		_ = entryQ
		sort.Strings(names)
		x.loopLog = append(x.loopLog, fmt.Sprintf("%s: %d invariants (%s), %d back-edge paths, %d rounds", key, len(cs), strings.Join(names, ", "), backs, rounds+1))
		if os.Getenv("GCV_LOOP") != "" {
			fmt.Fprintf(os.Stderr, "loop %s: kept %d of them, %v: %v\n", key, len(cs), time.Since(t0), names)
		}
	}
	return cs
}

// pathKey names a loop entry by the path that led to it. Candidates that fail there keep failing in later
// rounds, because the assumptions of an enclosing loop only shrink; skipping them is only a loss of precision.
func (x *Exec) pathKey(entry *State, key string) string {
	var sb strings.Builder
	sb.WriteString(key)
	for _, t := range entry.trace {
		if !strings.HasPrefix(t, "loop ") {
			sb.WriteString("|" + t)
		}
	}
	for _, fr := range entry.frames {
		sb.WriteString("/" + shortFn(fr.fn))
	}
	return sb.String()
}

// groundOnly drops quantified assumptions.
func groundOnly(as []*Term) []*Term {
	var out []*Term
	for _, a := range as {
		q := false
		for _, t := range collect([]*Term{a}) {
			if t.kind == KQuant {
				q = true
				break
			}
		}
		if !q {
			out = append(out, a)
		}
	}
	return out
}

func baseInv(n string) string {
	if k := strings.IndexByte(n, '{'); k >= 0 {
		return n[:k]
	}
	return n
}

// candidates lists the invariants to try at a loop head.
func (x *Exec) candidates(entry, head *State, f *Frame, to *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, ws map[string]Write) []*cand {
	var out []*cand
	fi := len(entry.frames) - 1
	seen := map[*Term]bool{}
	add := func(name string, spec bool, ev func(st *State) *Term) {
		c := &cand{name: name, spec: spec, eval: ev}
		t, ok := x.safeEval(c, head.clone())
		if !ok || t == True || seen[t] {
			return
		}
		seen[t] = true
		c.at = t
		out = append(out, c)
	}
	ev := func(v ssa.Value) func(st *State) Val {
		return func(st *State) Val { return x.val(st, st.frames[fi], v) }
	}
	var phis []*ssa.Phi
	for _, i := range to.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			phis = append(phis, p)
		}
	}
	// comparisons against loop-invariant values
	var bounds_ []ssa.Value
	inBody := func(v ssa.Value) bool {
		if i, ok := v.(ssa.Instruction); ok {
			return body[i.Block()]
		}
		return false
	}
	blocks := make([]*ssa.BasicBlock, 0, len(body))
	for b := range body {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	for _, b := range blocks {
		for _, i := range b.Instrs {
			if bo, ok := i.(*ssa.BinOp); ok {
				switch bo.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ:
					for _, v := range []ssa.Value{bo.X, bo.Y} {
						if _, isInt := v.Type().Underlying().(*types.Basic); isInt && leaves(v.Type())[0].Sort == SInt && !inBody(v) {
							bounds_ = append(bounds_, v)
						}
					}
				}
			}
		}
	}
	for _, p := range phis {
		p := p
		nm := p.Comment
		if nm == "" {
			nm = p.Name()
		}
		g := ev(p)
		ls := leaves(p.Type())
		for k, l := range ls {
			k := k
			ent := entry.frames[fi].env[p].L[k]
			add(fmt.Sprintf("auto:%s%s==entry", nm, l.Path), false, func(st *State) *Term { return Eq(g(st).L[k], ent) })
			if l.Ref {
				add(fmt.Sprintf("auto:%s%s new", nm, l.Path), false, func(st *State) *Term {
					return Or(Gt(g(st).L[k], x.entry.allocBound()), Eq(g(st).L[k], IntC(0)))
				})
			}
			if l.Sort == SInt && !l.Ref {
				add(fmt.Sprintf("auto:%s%s>=entry", nm, l.Path), false, func(st *State) *Term { return Ge(g(st).L[k], ent) })
				if l.Part == "" {
					add(fmt.Sprintf("auto:%s%s<=entry", nm, l.Path), false, func(st *State) *Term { return Le(g(st).L[k], ent) })
				}
			}
		}
		if len(ls) == 1 && ls[0].Sort == SInt && !ls[0].Ref {
			for bi, bv := range bounds_ {
				h := ev(bv)
				add(fmt.Sprintf("auto:%s<=b%d", nm, bi), false, func(st *State) *Term { return Le(g(st).L[0], h(st).L[0]) })
				add(fmt.Sprintf("auto:%s<b%d", nm, bi), false, func(st *State) *Term { return Lt(g(st).L[0], h(st).L[0]) })
				add(fmt.Sprintf("auto:%s>=b%d", nm, bi), false, func(st *State) *Term { return Ge(g(st).L[0], h(st).L[0]) })
			}
		}
	}
	// objects that existed before the loop keep their content in heaps written as a whole
	for _, k := range sortedKeys(ws) {
		w := ws[k]
		if w.Ref != nil || strings.HasPrefix(w.Name, "G:") || strings.HasPrefix(w.Name, "I:") {
			continue
		}
		n := w.Name
		h0 := entry.heaps[n]
		if h0 == nil {
			h0 = x.heapSorts[n]
		}
		if h0 == nil {
			continue
		}
		bnd := entry.allocBound()
		add("auto:frame:"+n, false, func(st *State) *Term {
			r := BVar("r!f", SInt)
			h := st.heap(n, h0.sort)
			// drop updates at references allocated since
			for h.kind == KApp && h.op == "store" {
				if fb, ok := freshRef(h.args[1]); ok && fb.after(bound{entry.epoch, entry.off}) {
					h = h.args[0]
					continue
				}
				break
			}
			if h == h0 {
				return True
			}
			_, in := arrParts(h.sort)
			s1 := rawApp("select", in, "", h, r)
			return Forall([]*Term{r}, Implies(And(Le(IntC(0), r), Le(r, bnd)), Eq(s1, Select(h0, r))), []*Term{s1})
		})
	}
	// the same for specification state kept per object, for the objects that existed when the function began
	for _, n := range sortedKeys(ws) {
		if !strings.HasPrefix(n, "G:") && !strings.HasPrefix(ws[n].Name, "G:") {
			continue
		}
		g := strings.TrimPrefix(ws[n].Name, "G:")
		ty := x.w.specs.Ghosts[g]
		if !strings.HasPrefix(ty, "map[ref]") && ty != "set[ref]" {
			continue
		}
		s0, _ := x.w.sortOf(ty)
		bnd := x.entry.allocBound()
		add("auto:gframe:"+g, false, func(st *State) *Term {
			h, h0 := st.ghost(g, s0), x.entry.ghost(g, s0)
			if h == h0 {
				return True
			}
			r := BVar("r!f", SInt)
			_, in := arrParts(s0)
			s1 := rawApp("select", in, "", h, r)
			return Forall([]*Term{r}, Implies(And(Le(IntC(0), r), Le(r, bnd)), Eq(s1, Select(h0, r))), []*Term{s1})
		})
	}
	// contract invariants
	if x.spec != nil {
		for _, cl := range x.spec.Clauses {
			if cl.Kind != "inv" || !cl.applies(x.prop) {
				continue
			}
			cl := cl
			for _, b := range x.bindings(entry, head, f, fi, to, body, phis, cl) {
				b := b
				nm := cl.Name
				if nm == "" {
					nm = cl.Pos
				}
				add("inv:"+nm+"{"+b.desc+"}", true, func(st *State) *Term {
					env := x.bodyEnv(st)
					env.pos = cl.Pos
					env.loop = entry
					env.get = b.get
					return env.Bool(cl.E)
				})
			}
		}
	}
	return out
}

type binding struct {
	desc string
	get  map[string]func(st *State) Val
	used map[string]bool
}

type bindOpt struct {
	name string
	get  func(st *State) Val
}

func (x *Exec) bindings(entry, head *State, f *Frame, fi int, to *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, phis []*ssa.Phi, cl *Clause) []binding {
	// metavariables of one type stand for different values where there are enough of them
	res := x.bindings_(entry, head, fi, to, body, phis, cl, true)
	if len(res) == 0 {
		res = x.bindings_(entry, head, fi, to, body, phis, cl, false)
	}
	return res
}

func (x *Exec) bindings_(entry, head *State, fi int, to *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, phis []*ssa.Phi, cl *Clause, distinct bool) []binding {
	res := []binding{{get: map[string]func(*State) Val{}, used: map[string]bool{}}}
	for _, m := range cl.Meta {
		opts := x.metaOptions(entry, head, fi, to, body, phis, m[1])
		var nx []binding
		for _, r := range res {
			for _, o := range opts {
				if distinct && r.used[m[1]+" "+o.name] {
					continue
				}
				g := map[string]func(*State) Val{}
				used := map[string]bool{m[1] + " " + o.name: true}
				for k := range r.used {
					used[k] = true
				}
				for k, v := range r.get {
					g[k] = v
				}
				g[m[0]] = o.get
				d := m[0] + "=" + o.name
				if r.desc != "" {
					d = r.desc + "," + d
				}
				nx = append(nx, binding{d, g, used})
			}
		}
		res = nx
		if len(res) > 160 {
			res = res[:160]
		}
	}
	return res
}

func (x *Exec) metaOptions(entry, head *State, fi int, to *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, phis []*ssa.Phi, ty string) []bindOpt {
	var out []bindOpt
	seen := map[string]bool{}
	add := func(name string, g func(*State) Val) {
		var k string
		func() {
			defer func() {
				if r := recover(); r != nil {
					k = "!"
				}
			}()
			v := g(head.clone())
			for _, t := range v.L {
				k += fmt.Sprint(t.id, ",")
			}
		}()
		if k == "!" || seen[k] {
			return
		}
		seen[k] = true
		out = append(out, bindOpt{name, g})
	}
	if ty == "visited" {
		for _, k := range sortedKeys(head.iters) {
			k := k
			add(k, func(st *State) Val { return Val{L: []*Term{st.iters[k]}} })
		}
		return out
	}
	phiOnly := false
	if strings.HasPrefix(ty, "phi ") {
		phiOnly = true
		ty = strings.TrimSpace(ty[4:])
	}
	// "phi int indexing []T": a loop's counter that its body indexes a []T with
	var indexes map[ssa.Value]bool
	if i := strings.Index(ty, " indexing "); i >= 0 {
		it := x.w.goType(strings.TrimSpace(ty[i+10:]))
		ty = ty[:i]
		indexes = map[ssa.Value]bool{}
		for b := range body {
			for _, in := range b.Instrs {
				if ia, ok := in.(*ssa.IndexAddr); ok && it != nil && types.Identical(ia.X.Type(), it) {
					indexes[ia.Index] = true
					if bo, ok := ia.Index.(*ssa.BinOp); ok {
						indexes[bo.X] = true
					}
					if ch, ok := ia.Index.(*ssa.Convert); ok {
						indexes[ch.X] = true
					}
				}
			}
		}
	}
	t := x.w.goType(ty)
	if t == nil {
		panic(unsupported("contract: unknown metavariable type " + ty))
	}
	nm := func(v ssa.Value) string {
		if p, ok := v.(*ssa.Phi); ok && p.Comment != "" {
			return p.Comment
		}
		if a, ok := v.(*ssa.Alloc); ok && a.Comment != "" {
			return a.Comment
		}
		return v.Name()
	}
	for _, p := range phis {
		p := p
		if indexes != nil && !indexes[p] {
			continue
		}
		if types.Identical(p.Type(), t) {
			b, isInt := t.Underlying().(*types.Basic)
			isInt = isInt && b.Info()&types.IsInteger != 0
			// the hidden index of a range loop starts at -1: what it counts is one more
			if !isInt || p.Comment != "rangeindex" {
				add(nm(p), func(st *State) Val { return x.val(st, st.frames[fi], p) })
			} else {
				add(nm(p)+"+1", func(st *State) Val {
					v := x.val(st, st.frames[fi], p)
					return Val{T: v.T, L: []*Term{Add(v.L[0], IntC(1))}}
				})
			}
		}
	}
	if indexes != nil {
		return out
	}
	// cells and values of this and the calling frames
	for k := fi; k >= 0; k-- {
		k := k
		fr := head.frames[k]
		var vs []ssa.Value
		for v := range fr.env {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool {
			if vs[i].Pos() != vs[j].Pos() {
				return vs[i].Pos() < vs[j].Pos()
			}
			return vs[i].Name() < vs[j].Name()
		})
		for _, v := range vs {
			v := v
			if _, isPhi := v.(*ssa.Phi); isPhi && k == fi {
				continue
			}
			if a, ok := v.(*ssa.Alloc); ok {
				if types.Identical(deref(a.Type()), t) {
					add("*"+nm(a), func(st *State) Val { return st.load(st.addrOf(x.val(st, st.frames[k], a))) })
				}
				continue
			}
			if phiOnly {
				continue
			}
			if i, ok := v.(ssa.Instruction); ok && k == fi && (body[i.Block()] || !i.Block().Dominates(to)) {
				continue
			}
			if types.Identical(v.Type(), t) {
				add(nm(v), func(st *State) Val { return x.val(st, st.frames[k], v) })
			}
		}
		for j, fv := range fr.fn.FreeVars {
			j := j
			if p, ok := fv.Type().Underlying().(*types.Pointer); ok && types.Identical(p.Elem(), t) {
				add("^"+fv.Name(), func(st *State) Val { return st.load(st.addrOf(st.frames[k].free[j])) })
			}
		}
	}
	return out
}
