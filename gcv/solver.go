package main

import (
	"bytes"
	"context"
	"crypto/sha256"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

// hurryCtx ends when the run is out of time: queries then answer unknown and executions stop.
var hurryCtx, hurry = context.WithCancel(context.Background())

type Result int

const (
	Unknown Result = iota
	Proved
	Refuted
)

func (r Result) String() string { return [...]string{"unknown", "proved", "refuted"}[r] }

type Axiom struct {
	Name string
	T    *Term
	Syms []string // function symbols that must all occur for the axiom to be emitted
	Lemma bool    // proved separately (not trusted)
}

type Solver struct {
	axioms  []Axiom
	defs    map[string]*RecDef
	mu      sync.Mutex
	cache   map[[32]byte]cached
	sem     chan struct{}
	Queries int
	Time    time.Duration
	ByBack  map[string]int
	dumpDir string
}

type cached struct {
	r     Result
	back  string
	model string
	ms    int
	abs   bool
}

func NewSolver() *Solver {
	return &Solver{cache: map[[32]byte]cached{}, sem: make(chan struct{}, 8), ByBack: map[string]int{}, defs: map[string]*RecDef{}}
}

func funcSyms(ts []*Term) map[string]*Term {
	m := map[string]*Term{}
	for _, t := range collect(ts) {
		if t.kind == KApp && t.decl != "" || t.kind == KConst && strings.HasPrefix(t.op, "c:") {
			m[t.op] = t
		}
	}
	return m
}

// boxFacts gives axioms for the interface boxes in the query: ground ones, and a quantified one for a box under a quantifier.
func boxFacts(ts []*Term) []*Term {
	var out []*Term
	gen := map[string]bool{}
	for _, t := range collect(ts) {
		if !isBox(t) {
			continue
		}
		if !t.open {
			out = append(out, boxAxioms(t)...)
			continue
		}
		if gen[t.op] {
			continue
		}
		gen[t.op] = true
		var vs []*Term
		for i, a := range t.args {
			vs = append(vs, BVar(fmt.Sprintf("bx!%d", i), a.sort))
		}
		u := UF(t.op, SIface, vs...)
		out = append(out, Forall(vs, rawAnd(boxAxioms(u)), []*Term{u}))
	}
	return out
}

// lineFacts relates strings built by concatenation that end in a newline to app(c, l) = c ++ l ++ "\n", where the query speaks of app.
func lineFacts(ts []*Term) []*Term {
	all := collect(ts)
	used := false
	for _, t := range all {
		if t.kind == KApp && (t.op == "app" || t.op == "nlines" || t.op == "complete" || t.op == "line") {
			used = true
			break
		}
	}
	if !used {
		return nil
	}
	var out []*Term
	done := map[*Term]bool{}
	var split func(t *Term)
	split = func(t *Term) {
		if t.open || t.sort != SStr || done[t] || len(done) > 60 {
			return
		}
		done[t] = true
		var parts []*Term
		raw := []*Term{t}
		if t.kind == KApp && t.op == "str.++" {
			raw = t.args
		} else if t.kind != KStr {
			return
		}
		for _, p := range raw {
			if p.kind == KStr {
				for _, q := range strings.SplitAfter(p.op, "\n") {
					if q != "" {
						parts = append(parts, StrC(q))
					}
				}
			} else {
				parts = append(parts, p)
			}
		}
		if len(parts) == 0 || len(parts) > 12 {
			return
		}
		last := parts[len(parts)-1]
		if last.kind != KStr || !strings.HasSuffix(last.op, "\n") {
			return
		}
		parts[len(parts)-1] = StrC(strings.TrimSuffix(last.op, "\n"))
		for j := 0; j < len(parts); j++ {
			c, l := Cat(parts[:j]...), Cat(parts[j:]...)
			out = append(out, rawApp("=", SBool, "", t, UF("app", SStr, c, l)))
			split(c)
		}
	}
	for _, t := range all {
		if t.kind == KApp && t.op == "app" && !t.open {
			e := Cat(t.args[0], t.args[1], StrC("\n"))
			out = append(out, rawApp("=", SBool, "", t, e))
			split(e)
		}
		split(t)
	}
	return out
}

func rawAnd(ts []*Term) *Term {
	if len(ts) == 1 {
		return ts[0]
	}
	return rawApp("and", SBool, "", ts...)
}

func boxAxioms(t *Term) []*Term {
	var out []*Term
	out = append(out, Eq(UF("ifaceTag", SInt, t), IntC(int64(tagID(t.op)))))
	out = append(out, rawApp("not", SBool, "", rawApp("=", SBool, "", t, NilIface)))
	for i, a := range t.args {
		out = append(out, rawApp("=", SBool, "", unboxTerm(t.op, i, a.sort, t), a))
	}
	return out
}

func unboxTerm(op string, i int, s Sort, t *Term) *Term {
	return UF(fmt.Sprintf("un%s:%d", op, i), s, t)
}

var tagTab = map[string]int{}
var tagMu sync.Mutex

func tagID(op string) int {
	tagMu.Lock()
	defer tagMu.Unlock()
	// must be stable between runs: derived from the name
	if v, ok := tagTab[op]; ok {
		return v
	}
	h := sha256.Sum256([]byte(op))
	v := int(h[0])<<16 | int(h[1])<<8 | int(h[2]) + 1
	tagTab[op] = v
	return v
}

// relevant lists the axioms whose symbols occur, closed under the symbols they introduce.
// When proving lemma number lemmaIdx (1-based), it and later lemmas are left out.
func (s *Solver) relevant(roots []*Term, lemmaIdx int) []int {
	used := map[int]bool{}
	var out []int
	roots = append([]*Term{}, roots...)
	roots = append(roots, s.unfold(roots)...)
	for {
		syms := funcSyms(roots)
		added := false
		for i, ax := range s.axioms {
			if used[i] || lemmaIdx > 0 && ax.Lemma && i >= lemmaIdx-1 {
				continue
			}
			ok := true
			for _, f := range ax.Syms {
				if syms[f] == nil {
					ok = false
					break
				}
			}
			if ok {
				used[i] = true
				out = append(out, i)
				roots = append(roots, ax.T)
				added = true
			}
		}
		if !added {
			return out
		}
	}
}

// Text renders a query: assumptions and the negated goal.
func (s *Solver) Text(as []*Term, goal *Term) string { return s.TextL(as, goal, 0) }

func (s *Solver) TextL(as []*Term, goal *Term, lemmaIdx int) string {
	t, _ := s.text(as, goal, lemmaIdx, false)
	return t
}

// text renders a query; simple reports that it has neither quantifiers nor string operations.
func (s *Solver) text(as []*Term, goal *Term, lemmaIdx int, opaque bool) (string, bool) {
	roots := append([]*Term{}, as...)
	gi := -1
	if goal != nil {
		gi = len(roots)
		roots = append(roots, rawNot(goal))
	}
	roots = skolemize(roots, gi)
	// unfold recursive definitions on ground occurrences
	roots = append(roots, s.unfold(roots)...)
	roots = append(roots, lineFacts(roots)...)
	for _, i := range s.relevant(roots, lemmaIdx) {
		roots = append(roots, s.axioms[i].T)
	}
	roots = append(roots, boxFacts(roots)...)
	all := collect(roots)
	var sb strings.Builder
	sb.WriteString("(set-logic ALL)\n(declare-sort Iface 0)\n(declare-sort Opq 0)\n(declare-sort Flt 0)\n(declare-sort Fn 0)\n")
	refs := map[*Term]int{}
	for _, t := range all {
		for _, a := range t.args {
			refs[a]++
		}
		for _, p := range t.pats {
			for _, x := range p {
				refs[x]++
			}
		}
	}
	for _, r := range roots {
		refs[r]++
	}
	// ground ites in patterns stand behind a name: solvers refuse ite in a pattern
	cited := map[*Term]bool{}
	for _, t := range all {
		for _, p := range t.pats {
			for _, x := range p {
				citeItes(x, cited)
			}
		}
	}
	decl := map[string]bool{}
	names := map[*Term]string{}
	pr := &printer{names: names, opaque: opaque, lits: map[string]string{}, ops: map[string]string{}}
	simple := true
	var dsb, body strings.Builder
	k := 0
	for _, t := range all {
		switch {
		case t.kind == KConst:
			if !decl[t.op] {
				decl[t.op] = true
				dsb.WriteString(fmt.Sprintf("(declare-const %s %s)\n", smtName(t.op), pr.sort(t.sort)))
			}
		case t.kind == KQuant:
			simple = false
		case t.kind == KApp && t.decl != "":
			if !decl["f|"+t.op] {
				decl["f|"+t.op] = true
				if len(t.args) == 0 {
					dsb.WriteString(fmt.Sprintf("(declare-const %s %s)\n", smtName(t.op), pr.sort(t.sort)))
				} else {
					dsb.WriteString(fmt.Sprintf("(declare-fun %s %s)\n", smtName(t.op), pr.sort(t.decl)))
				}
			}
		case t.kind == KApp && strings.HasPrefix(t.op, "str."):
			simple = false
		}
		if t.kind == KApp && len(t.args) > 0 && !t.open && (refs[t] > 1 || cited[t]) {
			k++
			n := fmt.Sprintf("t!%d", k)
			b := pr.body(t)
			if cited[t] {
				body.WriteString(fmt.Sprintf("(declare-const %s %s)\n(assert (= %s %s))\n", n, pr.sort(t.sort), n, b))
				names[t] = n
				continue
			}
			body.WriteString(fmt.Sprintf("(define-fun %s () %s %s)\n", n, pr.sort(t.sort), b))
			names[t] = n
		}
	}
	for _, r := range roots {
		body.WriteString("(assert ")
		body.WriteString(pr.term(r))
		body.WriteString(")\n")
	}
	if opaque {
		sb.WriteString("(declare-sort Str 0)\n")
		for _, n := range sortedKeys(pr.ops) {
			sb.WriteString(pr.ops[n])
		}
		for _, l := range sortedKeys(pr.lits) {
			sb.WriteString("(declare-const " + pr.lits[l] + " Str)\n")
		}
		if len(pr.lits) > 1 {
			sb.WriteString("(assert (distinct")
			for _, l := range sortedKeys(pr.lits) {
				sb.WriteString(" " + pr.lits[l])
			}
			sb.WriteString("))\n")
		}
		if pr.ops["ostr.<"] != "" {
			sb.WriteString("(assert (forall ((a Str) (b Str)) (! (and (not (and (ostr.< a b) (ostr.< b a))) (or (ostr.< a b) (= a b) (ostr.< b a)) (=> (ostr.< a b) (not (= a b)))) :pattern ((ostr.< a b)))))\n")
			sb.WriteString("(assert (forall ((a Str) (b Str) (c Str)) (! (=> (and (ostr.< a b) (ostr.< b c)) (ostr.< a c)) :pattern ((ostr.< a b) (ostr.< b c)))))\n")
		}
		if pr.ops["ostr.len"] != "" {
			sb.WriteString("(assert (forall ((s Str)) (! (<= 0 (ostr.len s)) :pattern ((ostr.len s)))))\n")
			for _, l := range sortedKeys(pr.lits) {
				fmt.Fprintf(&sb, "(assert (= (ostr.len %s) %d))\n", pr.lits[l], len(l))
			}
			if e := pr.lits[""]; e != "" {
				sb.WriteString("(assert (forall ((s Str)) (! (=> (= 0 (ostr.len s)) (= s " + e + ")) :pattern ((ostr.len s)))))\n")
			}
			if pr.ops["ostr.++"] != "" {
				sb.WriteString("(assert (forall ((a Str) (b Str)) (! (= (ostr.len (ostr.++ a b)) (+ (ostr.len a) (ostr.len b))) :pattern ((ostr.++ a b)))))\n")
			}
			if pr.ops["ostr.substr"] != "" {
				sb.WriteString("(assert (forall ((s Str) (i Int) (n Int)) (! (and (=> (and (<= 0 i) (<= 0 n) (<= (+ i n) (ostr.len s))) (= n (ostr.len (ostr.substr s i n)))) (=> (and (= i 0) (= n (ostr.len s))) (= s (ostr.substr s i n)))) :pattern ((ostr.substr s i n)))))\n")
			}
		}
	}
	sb.WriteString(dsb.String())
	sb.WriteString(body.String())
	sb.WriteString("(check-sat)\n")
	return sb.String(), simple
}

func citeItes(t *Term, m map[*Term]bool) {
	if t.kind != KApp {
		return
	}
	if t.op == "ite" && !t.open {
		m[t] = true
	}
	for _, a := range t.args {
		citeItes(a, m)
	}
}

func rawNot(t *Term) *Term {
	if t == True {
		return False
	}
	if t == False {
		return True
	}
	return rawApp("not", SBool, "", t)
}

type backend struct {
	name string
	argv func(ms int) []string
	pre  string
}

var backends = map[string]backend{
	"z3-new": {"z3-new", func(ms int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-t:%d", ms)} }, ""},
	"z3-nombqi": {"z3-nombqi", func(ms int) []string {
		return []string{"z3-new", "-in", fmt.Sprintf("-t:%d", ms), "smt.mbqi=false", "smt.auto_config=false", "smt.qi.eager_threshold=100"}
	}, ""},
	"z3-4.8": {"z3-4.8", func(ms int) []string {
		return []string{"z3", "-in", fmt.Sprintf("-t:%d", ms), "smt.mbqi=false", "smt.auto_config=false", "smt.qi.eager_threshold=20", "smt.case_split=3"}
	}, ""},
	"z3-cs3": {"z3-cs3", func(ms int) []string {
		return []string{"z3-new", "-in", fmt.Sprintf("-t:%d", ms), "smt.mbqi=false", "smt.auto_config=false", "smt.qi.eager_threshold=20", "smt.case_split=3"}
	}, ""},
	"cvc5": {"cvc5", func(ms int) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "--strings-exp"}
	}, ""},
	"cvc5-enum": {"cvc5-enum", func(ms int) []string {
		return []string{"cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "--strings-exp", "--enum-inst"}
	}, ""},
}

func (s *Solver) run(b backend, text string, ms int, parent context.Context) (Result, string) {
	if hurryCtx.Err() != nil {
		return Unknown, ""
	}
	ctx, cancel := context.WithTimeout(parent, time.Duration(ms+1500)*time.Millisecond)
	defer cancel()
	argv := b.argv(ms)
	cmd := exec.CommandContext(ctx, argv[0], argv[1:]...)
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	start := time.Now()
	err := cmd.Run()
	d := time.Since(start)
	s.mu.Lock()
	s.Queries++
	s.Time += d
	if os.Getenv("GCV_SLOW") != "" && d > 250*time.Millisecond {
		k := sha256.Sum256([]byte(text))
		os.WriteFile(fmt.Sprintf("%s/slow-%x.smt2", os.Getenv("GCV_SLOW"), k[:4]), []byte(text), 0644)
		fmt.Fprintf(os.Stderr, "slow %s %v %x %s\n", b.name, d, k[:4], strings.SplitN(out.String(), "\n", 2)[0])
	}
	s.mu.Unlock()
	o := strings.TrimSpace(out.String())
	for strings.HasPrefix(o, "WARNING") {
		i := strings.IndexByte(o, '\n')
		if i < 0 {
			break
		}
		o = o[i+1:]
	}
	first := o
	if i := strings.IndexByte(o, '\n'); i >= 0 {
		first = o[:i]
	}
	switch first {
	case "unsat":
		return Proved, ""
	case "sat":
		return Refuted, o
	}
	if strings.Contains(o, "error") && parent.Err() == nil && !strings.Contains(o, "timeout") && !strings.Contains(o, "interrupted") {
		if os.Getenv("GCV_DEBUG") != "" || os.Getenv("GCV_STRICT") != "" {
			f, _ := os.CreateTemp("", "gcv-err-*.smt2")
			f.WriteString(text)
			f.Close()
			fmt.Fprintf(os.Stderr, "solver error (%s, %s): %s: %v\n", b.name, f.Name(), first, err)
		}
	}
	return Unknown, o
}

// Quick is used while filtering candidate invariants and pruning paths.
func (s *Solver) Quick(as []*Term, goal *Term, ms int) Result {
	if goal == True {
		return Proved
	}
	r, _, _ := s.prove(as, goal, ms, false, 0)
	return r
}

// Abs proves with strings abstracted only.
func (s *Solver) Abs(as []*Term, goal *Term, ms int) Result {
	if goal == True {
		return Proved
	}
	r, _, _ := s.proveX(as, goal, ms, false, 0, true)
	return r
}

func (s *Solver) Full(as []*Term, goal *Term, ms int) (Result, string, string) {
	if goal == True {
		return Proved, "simplifier", ""
	}
	return s.prove(as, goal, ms, true, 0)
}

func (s *Solver) FullL(as []*Term, goal *Term, ms int, lemmaIdx int) (Result, string, string) {
	if goal == True {
		return Proved, "simplifier", ""
	}
	return s.prove(as, goal, ms, true, lemmaIdx)
}

func (s *Solver) prove(as []*Term, goal *Term, ms int, full bool, lemmaIdx int) (Result, string, string) {
	return s.proveX(as, goal, ms, full, lemmaIdx, false)
}

func (s *Solver) proveX(as []*Term, goal *Term, ms int, full bool, lemmaIdx int, abs bool) (Result, string, string) {
	for _, a := range as {
		if a == False {
			return Proved, "simplifier", ""
		}
		if a == goal && goal != nil {
			return Proved, "simplifier", ""
		}
	}
	otext, simple := s.text(as, goal, lemmaIdx, true)
	key := sha256.Sum256([]byte(otext))
	s.mu.Lock()
	c, ok := s.cache[key]
	s.mu.Unlock()
	if ok && (c.r != Unknown || (!full && ms <= c.ms && (abs || !c.abs))) {
		return c.r, c.back, c.model
	}
	s.sem <- struct{}{}
	bg := hurryCtx
	// first with strings as an uninterpreted sort, by instantiation only
	t1 := ms
	if t1 > 2000 {
		t1 = 2000
	}
	r, o := s.run(backends["z3-4.8"], otext, t1, bg)
	if r == Unknown && goal != nil {
		r, o = s.run(backends["z3-cs3"], otext, t1, bg)
	}
	if r == Unknown {
		r, o = s.run(backends["z3-nombqi"], otext, t1, bg)
	}
	back, model := "z3 (strings abstracted)", ""
	var text string
	if r == Refuted && !simple {
		r = Unknown
	}
	if r == Unknown && ms >= 2000 && !simple {
		t2 := ms
		if t2 > 4000 {
			t2 = 4000
		}
		if r, o = s.run(backends["cvc5"], otext, t2, bg); r == Proved {
			back = "cvc5 (strings abstracted)"
		} else {
			r = Unknown
		}
	}
	if r == Unknown && !abs {
		text = s.TextL(as, goal, lemmaIdx)
		t1 = ms
		if full && t1 > 3000 {
			t1 = 3000
		}
		r, o = s.run(backends["z3-new"], text, t1, bg)
		back = "z3"
	}
	if r == Refuted {
		model = "sat (z3-new)"
	}
	<-s.sem
	if full && r == Unknown {
		model = "unknown: " + strings.ReplaceAll(o, "\n", " ")
		type ans struct {
			r Result
			b string
			o string
		}
		ctx, cancel := context.WithCancel(bg)
		list := []string{"z3-nombqi", "cvc5", "z3-new", "cvc5-enum"}
		ch := make(chan ans, len(list))
		for _, n := range list {
			go func(n string) {
				s.sem <- struct{}{}
				defer func() { <-s.sem }()
				r, o := s.run(backends[n], text, ms, ctx)
				ch <- ans{r, n, o}
			}(n)
		}
		for range list {
			a := <-ch
			if a.r == Proved || (a.r == Refuted && r == Unknown) {
				r, back = a.r, a.b
				if a.r == Refuted {
					model = "sat (" + a.b + ")"
				}
				break
			}
		}
		cancel()
	}
	if r == Proved {
		s.mu.Lock()
		s.ByBack[back]++
		s.mu.Unlock()
	}
	if s.dumpDir != "" && r != Proved {
		os.WriteFile(filepath.Join(s.dumpDir, fmt.Sprintf("q-%x.smt2", key[:6])), []byte(s.TextL(as, goal, lemmaIdx)), 0644)
	}
	s.mu.Lock()
	s.cache[key] = cached{r, back, model, ms, abs}
	s.mu.Unlock()
	return r, back, model
}

// Model asks z3 for a model of a refuted query, restricted to the given terms.
func (s *Solver) Model(as []*Term, goal *Term, vals []*Term, ms int) map[string]string {
	text := s.Text(append(append([]*Term{}, as...)), goal)
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n")
	sb.WriteString(text)
	seen := map[string]bool{}
	var names []string
	for _, v := range vals {
		p := printTerm(v, nil)
		if v.kind == KConst && strings.Contains(text, "(declare-const "+p+" ") && !seen[p] {
			seen[p] = true
			names = append(names, p)
		}
	}
	sort.Strings(names)
	if len(names) == 0 {
		return nil
	}
	for _, n := range names {
		sb.WriteString("(get-value (" + n + "))\n")
	}
	ctx, cancel := context.WithTimeout(hurryCtx, time.Duration(ms+1000)*time.Millisecond)
	defer cancel()
	cmd := exec.CommandContext(ctx, "z3-new", "-in", fmt.Sprintf("-t:%d", ms))
	cmd.Stdin = strings.NewReader(sb.String())
	out, _ := cmd.Output()
	lines := strings.SplitN(string(out), "\n", 2)
	if len(lines) < 2 || !(lines[0] == "sat" || lines[0] == "unknown") {
		return nil
	}
	m := map[string]string{}
	for _, l := range strings.Split(lines[1], "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "((") && strings.HasSuffix(l, "))") {
			in := l[2 : len(l)-2]
			for _, n := range names {
				if strings.HasPrefix(in, n+" ") {
					m[n] = in[len(n)+1:]
				}
			}
		}
	}
	return m
}

// RecDef is a recursive spec function unfolded on the ground terms of a query.
type RecDef struct {
	Name   string
	Params []*Term // bound variables
	Body   *Term
	Fuel   int
	Trusted bool
}

func (s *Solver) unfold(roots []*Term) []*Term {
	if len(s.defs) == 0 {
		return nil
	}
	var out []*Term
	done := map[*Term]bool{}
	cur := roots
	for round := 0; round < 4; round++ {
		var nw []*Term
		for _, t := range collect(cur) {
			if t.kind != KApp || t.decl == "" || t.open || done[t] {
				continue
			}
			d := s.defs[t.op]
			if d == nil || round >= d.Fuel {
				continue
			}
			done[t] = true
			m := map[*Term]*Term{}
			for i, p := range d.Params {
				m[p] = t.args[i]
			}
			b := Subst(d.Body, m)
			nw = append(nw, rawApp("=", SBool, "", t, b))
		}
		if len(nw) == 0 {
			break
		}
		out = append(out, nw...)
		cur = nw
	}
	return out
}
