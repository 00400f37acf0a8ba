package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/signal"
	"syscall"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

type OblOut struct {
	Name   string   `json:"name"`
	Kind   string   `json:"kind"`
	Pos    string   `json:"pos"`
	Result string   `json:"result"`
	Back   string   `json:"backend"`
	Millis int64    `json:"ms"`
	Msg    string   `json:"msg,omitempty"`
	Trace  []string `json:"trace,omitempty"`
	Model  map[string]string `json:"model,omitempty"`
	Goal   string   `json:"goal,omitempty"`
}

type FuncOut struct {
	Function    string   `json:"function"`
	Contract    string   `json:"contract"`
	File        string   `json:"file"`
	Obligations int      `json:"obligations"`
	Discharged  int      `json:"discharged"`
	Invariants  []string `json:"loops,omitempty"`
	Inlined     []string `json:"inlined,omitempty"`
	Error       string   `json:"error,omitempty"`
	Ms          int64    `json:"ms"`
	Paths       int      `json:"returns"`
}

type Out struct {
	Property    string         `json:"property"`
	Functions   []FuncOut      `json:"functions"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	InvObls     int            `json:"invariant_obligations"`
	Backends    map[string]int `json:"backends"`
	SolverS     float64        `json:"solver_seconds"`
	Queries     int            `json:"queries"`
	WallS       float64        `json:"wall_seconds"`
	Trusted     []string       `json:"trusted_contracts"`
	Assumptions []string       `json:"assumptions"`
	Axioms      []string       `json:"axioms"`
	Lemmas      []string       `json:"lemmas"`
	Failed      []OblOut       `json:"failed"`
	LoadError   string         `json:"load_error,omitempty"`
	All         []string       `json:"all_obligations"`
}

func main() {
	repo := flag.String("repo", "/repo/go", "module directory")
	specs := flag.String("specs", "/verif/contracts", "contract directory")
	prop := flag.String("prop", "", "property")
	only := flag.String("func", "", "verify only this function")
	out := flag.String("out", "", "result file")
	dump := flag.String("dump", "", "directory for failed queries")
	ssaDump := flag.String("ssa", "", "print the SSA of a function")
	list := flag.Bool("list", false, "list functions")
	ms := flag.Int("ms", 15000, "timeout per obligation")
	flim := flag.Int("flimit", 240, "seconds of execution per function")
	deadline := flag.Int("deadline", 0, "seconds after which what is open stays undecided")
	verbose := flag.Bool("v", false, "verbose")
	flag.Parse()
	t0 := time.Now()
	if *deadline > 0 {
		time.AfterFunc(time.Duration(*deadline)*time.Second, hurry)
	}
	term := make(chan os.Signal, 1)
	signal.Notify(term, syscall.SIGTERM)
	go func() { <-term; hurry() }()
	o := &Out{Property: *prop}
	w, err := Load(*repo, *specs, loadModels(*repo, *specs))
	if err != nil {
		o.LoadError = err.Error()
		fmt.Fprintln(os.Stderr, "load:", err)
		writeOut(*out, o)
		os.Exit(2)
	}
	if *verbose {
		fmt.Fprintln(os.Stderr, "loaded", time.Since(t0))
	}
	if *list {
		for _, n := range sortedKeys(w.fns) {
			fmt.Println(n)
		}
		return
	}
	if *ssaDump != "" {
		fn := w.fns[*ssaDump]
		if fn == nil {
			fmt.Println("no such function")
			os.Exit(2)
		}
		var p func(f *ssa.Function)
		p = func(f *ssa.Function) {
			f.WriteTo(os.Stdout)
			for _, a := range f.AnonFuncs {
				p(a)
			}
		}
		p(fn)
		return
	}
	w.solver.dumpDir = *dump
	w.check(o, *prop, *only, *ms, time.Duration(*flim)*time.Second, *verbose)
	o.WallS = time.Since(t0).Seconds()
	o.SolverS = w.solver.Time.Seconds()
	o.Queries = w.solver.Queries
	writeOut(*out, o)
	fmt.Printf("%s: %d functions, %d/%d obligations discharged, %d invariant checks, %.1fs wall, %.1fs solver\n", *prop, len(o.Functions), o.Discharged, o.Obligations, o.InvObls, o.WallS, o.SolverS)
	for _, f := range o.Functions {
		if f.Error != "" {
			fmt.Printf("ERROR %s: %s\n", f.Function, f.Error)
		}
	}
	for _, f := range o.Failed {
		fmt.Printf("FAILED %s (%s) %s %s\n", f.Name, f.Pos, f.Result, f.Msg)
		if *verbose {
			for _, l := range f.Trace {
				fmt.Println("    ", l)
			}
			fmt.Println("     goal:", f.Goal)
			for _, k := range sortedKeys(f.Model) {
				fmt.Println("     ", k, "=", f.Model[k])
			}
		}
	}
	if len(o.Failed) > 0 {
		os.Exit(1)
	}
	for _, f := range o.Functions {
		if f.Error != "" {
			os.Exit(1)
		}
	}
}

func writeOut(f string, o *Out) {
	if f == "" {
		return
	}
	b, _ := json.MarshalIndent(o, "", " ")
	os.WriteFile(f, append(b, '\n'), 0644)
}

func (w *World) check(o *Out, prop, only string, ms int, flim time.Duration, verbose bool) {
	// functions to verify: tagged with the property, closed under used contracts of module functions
	todo := []string{}
	seen := map[string]bool{}
	addFn := func(k string) {
		if !seen[k] {
			seen[k] = true
			todo = append(todo, k)
		}
	}
	for _, k := range w.specs.order {
		sp := w.specs.Funcs[k]
		for _, p := range sp.Props {
			if p == prop {
				if only == "" || strings.Contains(k, only) {
					addFn(k)
				}
			}
		}
	}
	assum := map[string]bool{}
	trusted := map[string]bool{}
	var mu sync.Mutex
	type res struct {
		x  *Exec
		sp *FuncSpec
		ms int64
	}
	var results []res
	var obls []*Obl
	for len(todo) > 0 {
		batch := todo
		todo = nil
		var wg sync.WaitGroup
		lim := make(chan struct{}, 6)
		for _, k := range batch {
			sp := w.specs.Funcs[k]
			fn := w.fns[k]
			if fn == nil && !sp.Extern && !sp.Trusted && !strings.Contains(k, ":") {
				mu.Lock()
				o.Functions = append(o.Functions, FuncOut{Function: k, Contract: sp.Pos, Error: "no such function in the code"})
				mu.Unlock()
				continue
			}
			if sp.Extern || sp.Trusted || fn == nil {
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				lim <- struct{}{}
				defer func() { <-lim }()
				t := time.Now()
				// a fast attempt first; a function with an open obligation is redone with more solver effort
				x := w.verifyFunc(fn, sp, prop, flim/2, 0)
				ok := x.err == ""
				if ok {
					ok = w.discharge(x.obls, 3000, true)
				}
				if !ok && (x.err == "" && len(x.loopLog) > 0 || x.err == "execution time limit") && os.Getenv("GCV_FAST") == "" && hurryCtx.Err() == nil {
					if verbose {
						fmt.Fprintf(os.Stderr, "retry %s %s\n", sp.Key, x.err)
					}
					x = w.verifyFunc(fn, sp, prop, flim, 1)
				}
				mu.Lock()
				results = append(results, res{x, sp, time.Since(t).Milliseconds()})
				mu.Unlock()
				if verbose {
					fmt.Fprintf(os.Stderr, "executed %s: %d obligations, %d returns, %v %s\n", sp.Key, len(x.obls), x.nRet, time.Since(t), x.err)
				}
			}()
		}
		wg.Wait()
		for _, r := range results {
			for k := range r.x.used {
				sp := w.specs.Funcs[k]
				if sp.Extern || sp.Trusted || w.fns[k] == nil {
					if !sp.Ignore {
						trusted[k] = true
					}
					continue
				}
				if only == "" {
					addFn(k)
				}
			}
		}
	}
	sort.Slice(results, func(i, j int) bool { return results[i].sp.Key < results[j].sp.Key })
	for _, r := range results {
		obls = append(obls, r.x.obls...)
		for a := range r.x.assum {
			assum[a] = true
		}
		o.InvObls += r.x.invObls
	}
	lem := w.lemmaObls(nil)
	used := w.usedAxioms(obls)
	var lm []*Obl
	for _, l := range lem {
		n := w.specs.Axioms[l.lemmaIdx-1].Name
		if used[n] || len(prop) == 0 {
			lm = append(lm, l)
		}
	}
	// lemmas used by lemmas
	more := w.usedAxioms(lm)
	for _, l := range lem {
		n := w.specs.Axioms[l.lemmaIdx-1].Name
		if more[n] && !used[n] {
			lm = append(lm, l)
			used[n] = true
		}
	}
	obls = append(obls, lm...)
	w.discharge(obls, ms, false)
	o.Backends = w.solver.ByBack
	by := map[string][2]int{}
	names := map[string]bool{}
	for _, b := range obls {
		c := by[b.Fn]
		c[0]++
		if b.Res == Proved {
			c[1]++
			o.Discharged++
		} else {
			f := OblOut{Name: b.Name, Kind: b.Kind, Pos: b.Pos, Result: b.Res.String(), Back: b.Back, Millis: b.Millis, Msg: b.Msg, Trace: b.Trace, Goal: b.Goal.String()}
			if b.Res == Refuted && len(o.Failed) < 6 {
				f.Model = w.solver.Model(b.As, b.Goal, b.Vals, 5000)
			}
			o.Failed = append(o.Failed, f)
		}
		names[b.Name] = true
		by[b.Fn] = c
	}
	o.All = sortedSet(names)
	o.Obligations = len(obls)
	for _, r := range results {
		fo := FuncOut{Function: r.sp.Key, Contract: r.sp.Pos, File: r.x.pos(r.x.fn.Pos()), Ms: r.ms, Error: r.x.err, Paths: r.x.nRet, Invariants: r.x.loopLog}
		c := by[shortFn(r.x.fn)]
		fo.Obligations, fo.Discharged = c[0], c[1]
		for k := range r.x.inlined {
			if k != shortFn(r.x.fn) {
				fo.Inlined = append(fo.Inlined, k)
			}
		}
		sort.Strings(fo.Inlined)
		o.Functions = append(o.Functions, fo)
	}
	for k := range trusted {
		sp := w.specs.Funcs[k]
		o.Trusted = append(o.Trusted, k+" ("+sp.Pos+")")
	}
	sort.Strings(o.Trusted)
	assum["int and time.Duration arithmetic is mathematical; other integer types wrap exactly"] = true
	o.Assumptions = sortedSet(assum)
	for i, a := range w.specs.Axioms {
		_ = i
		if used[a.Name] {
			if a.Lemma {
				o.Lemmas = append(o.Lemmas, a.Name)
			} else {
				o.Axioms = append(o.Axioms, a.Name+" ("+a.Pos+")")
			}
		}
	}
}

// usedAxioms approximates which axioms the obligations pull in.
func (w *World) usedAxioms(obls []*Obl) map[string]bool {
	used := map[string]bool{}
	for _, b := range obls {
		if b.Goal == True {
			continue
		}
		roots := append(append([]*Term{}, b.As...), b.Goal)
		idx := w.solver.relevant(roots, b.lemmaIdx)
		for _, i := range idx {
			used[w.solver.axioms[i].Name] = true
		}
	}
	return used
}

// discharge proves obligations; with early set it gives up at the first that fails.
func (w *World) discharge(obls []*Obl, ms int, early bool) bool {
	var wg sync.WaitGroup
	lim := make(chan struct{}, 8)
	var bad atomic.Bool
	for _, b := range obls {
		if b.Res == Proved {
			continue
		}
		wg.Add(1)
		lim <- struct{}{}
		go func(b *Obl) {
			defer wg.Done()
			defer func() { <-lim }()
			if early && bad.Load() {
				return
			}
			t := time.Now()
			b.Res, b.Back, b.Msg = w.solver.FullL(b.As, b.Goal, ms, b.lemmaIdx)
			if d := os.Getenv("GCV_DUMP"); d != "" && b.Res != Proved {
				fn := fmt.Sprintf("%s/obl-%s.smt2", d, strings.NewReplacer("/", "_", " ", "_", "*", "", "(", "", ")", "").Replace(b.Name))
				ot, _ := w.solver.text(b.As, b.Goal, b.lemmaIdx, false)
				os.WriteFile(fn, []byte(ot), 0644)
				ot, _ = w.solver.text(b.As, b.Goal, b.lemmaIdx, true)
				os.WriteFile(fn+".o", []byte(ot), 0644)
			}
			b.Millis = time.Since(t).Milliseconds()
			if b.Res != Proved {
				bad.Store(true)
			}
		}(b)
	}
	wg.Wait()
	return !bad.Load()
}

func loadModels(repo, specs string) map[string][]byte { return nil }
