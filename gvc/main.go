package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

func load(repo string, spec *Spec) (*Gen, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo}
	ps, e := packages.Load(cfg, "./...")
	if e != nil {
		return nil, e
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("%s", e)
		}
	}
	prog, spkgs := ssautil.Packages(ps, ssa.NaiveForm|ssa.GlobalDebug|ssa.BuildSerially)
	g := &Gen{assumed: map[string]bool{}, inlined: map[string]bool{}, prog: prog, pkgs: map[string]*types.Package{}, funcs: map[string]*ssa.Function{}, spec: spec, dts: map[string]*dtype{}, strs: map[string]int{}, typIDs: map[string]int{}, used: map[string]bool{}}
	for _, p := range prog.AllPackages() {
		if _, ok := g.pkgs[p.Pkg.Name()]; !ok {
			g.pkgs[p.Pkg.Name()] = p.Pkg
		}
	}
	for _, p := range spkgs {
		if p == nil {
			continue
		}
		p.Build()
		g.spkgs = append(g.spkgs, p)
		if strings.HasPrefix(p.Pkg.Path(), "github.com/go-air/gini") {
			g.pkgs[p.Pkg.Name()] = p.Pkg
		}
	}
	for f := range ssautil.AllFunctions(prog) {
		if f.Synthetic != "" || f.Pkg == nil {
			continue
		}
		if strings.HasPrefix(f.Pkg.Pkg.Path(), "github.com/go-air/gini") {
			g.funcs[specName(f)] = f
		}
	}
	return g, nil
}

type fnReport struct {
	Name    string   `json:"name"`
	Kind    string   `json:"kind"`
	Obs     int      `json:"obligations"`
	Proved  int      `json:"proved"`
	Paths   int      `json:"paths"`
	Error   string   `json:"error,omitempty"`
	Failed  []string `json:"failed,omitempty"`
	MS      int64    `json:"solver_ms"`
	Assumes []string `json:"assumes,omitempty"`
}

type report struct {
	Property string            `json:"property"`
	OK       bool              `json:"ok"`
	Fns      []*fnReport       `json:"functions"`
	Trusted  []string          `json:"trusted"`
	Axioms   []string          `json:"axioms"`
	Solvers  map[string]int    `json:"by_solver"`
	MS       int64             `json:"solver_ms"`
	Obs      int               `json:"obligations"`
	Proved   int               `json:"proved"`
	Covers   int               `json:"vacuity_checks"`
	Details  []*failDetail     `json:"failures,omitempty"`
	Wall     float64           `json:"wall_s"`
	Extra    map[string]string `json:"extra,omitempty"`
	Inlined  []string          `json:"inlined,omitempty"`
	Assumed  []string          `json:"assumed,omitempty"`
}

type failDetail struct {
	Fn, Name, Pos, Solver string
	Trace                 []string
	File                  string
}

// verify generates the obligations of one function.
func (g *Gen) verify(name string) (obs []*Ob, paths int, err error) {
	c := g.spec.contracts[name]
	fn := g.funcs[name]
	defer func() {
		g.bv, g.reveal = false, nil
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				err = fmt.Errorf("%s", u.msg)
				return
			}
			if os.Getenv("GVC_PANIC") != "" {
				panic(r)
			}
			err = fmt.Errorf("internal: %v", r)
		}
	}()
	if c == nil {
		return nil, 0, fmt.Errorf("no contract for %s", name)
	}
	if fn == nil {
		return nil, 0, fmt.Errorf("function %s is not in the source", name)
	}
	g.bv = c.bv
	g.reveal = map[string]bool{}
	for _, r := range c.reveal {
		g.reveal[r] = true
	}
	x := &exec{g: g, c: c, fn: fn, name: name, ords: map[string]int{}, calls: map[string]int{}, active: map[string]*loopCtx{}, budget: 4000}
	nl := 0
	x.expand(fn, "", 0, &nl, map[string]int{})
	for k := range c.loops {
		if k >= nl {
			return nil, 0, fmt.Errorf("contract for loop %d, but the function has %d loops", k, nl)
		}
	}
	st := &State{g: g, heaps: map[string]*Term{}, cells: map[cellKey]*Val{}, vals: map[valKey]*Val{}, seen: map[string]bool{}, next: sym("next@0", "Int")}
	st.assume(lt(intT(0), st.next))
	fr := x.frame(fn, nil, "")
	x.top = fr
	nm := map[string]*SVal{}
	for i, p := range fn.Params {
		if _, ok := p.Type().Underlying().(*types.Signature); ok {
			fr.args = append(fr.args, vt(sym("p:"+p.Name(), "Fn")))
			continue
		}
		v := sym("p:"+p.Name(), g.sortOf(p.Type()))
		fr.args = append(fr.args, vt(v))
		st.assume(g.rangeOf(p.Type(), v, st.next))
		if i < len(c.params) {
			nm[c.params[i]] = &SVal{t: v, typ: p.Type()}
		}
	}
	if len(c.params) > len(fn.Params) {
		return nil, 0, fmt.Errorf("the contract has %d parameters, the function %d", len(c.params), len(fn.Params))
	}
	x.closureEntry(fr, st)
	x.entEnv = &Env{g: g, names: nm, sink: st}
	pre := &Env{g: g, st: st, names: nm, sink: st}
	if len(fn.FreeVars) > 0 {
		pre.look = func(n string) *SVal { return x.freeVar(fn, fr.binds, st, n) }
		x.entEnv.look = func(n string) *SVal { return x.freeVar(fn, fr.binds, x.entry, n) }
	}
	for _, r := range c.requires {
		st.assume(pre.b(r.e))
	}
	x.entry = st.clone()
	x.entEnv.st = x.entry
	x.obs = append(x.obs, &Ob{fn: name, name: "preconditions are consistent", pc: st.pc, goal: tTrue, cover: true, bv: g.bv, lemmaOrd: -1})
	x.anchors("entry", "", -1, fr, st, fn.Pos(), nm)
	fr.ret = func(st *State, res []*Val) { x.finish(fr, st, res, nm) }
	x.run(fr, fn.Blocks[0], nil, st)
	for _, o := range x.obs {
		o.lemmaOrd = -1
	}
	if x.rets == 0 && !c.nopanic {
		return x.obs, x.paths, fmt.Errorf("no path returns")
	}
	return x.obs, x.paths, nil
}

// finish checks the postconditions and the frame at a return.
func (x *exec) finish(fr *Frame, st *State, res []*Val, nm map[string]*SVal) {
	g, c := x.g, x.c
	x.countPath()
	x.rets++
	pos := x.fn.Pos()
	rn := map[string]*SVal{}
	for k, v := range nm {
		rn[k] = v
	}
	rs := x.fn.Signature.Results()
	for i, r := range res {
		v := r.t
		if v == nil {
			continue
		}
		sv := &SVal{t: v, typ: rs.At(i).Type()}
		rn[fmt.Sprintf("result%d", i)] = sv
		if i == 0 {
			rn["result"] = sv
		}
		if i < len(c.results) {
			rn[c.results[i]] = sv
		}
	}
	x.active["cur"] = nil
	x.anchors("return", "", -1, fr, st, pos, rn)
	env := &Env{g: g, st: st, old: x.entry, oldEnv: x.entEnv, names: rn, sink: st}
	if len(x.fn.FreeVars) > 0 {
		env.look = func(n string) *SVal { return x.freeVar(x.fn, fr.binds, st, n) }
		x.closureFrame(fr, st, pos)
	}
	if c.pure != "" {
		f := g.spec.funcs[c.pure]
		if f == nil {
			specErr("no function %s", c.pure)
		}
		e := *x.entEnv
		e.st = x.entry
		e.reveal = map[string]bool{c.pure: true}
		var as []*SVal
		for _, p := range c.params {
			as = append(as, nm[p])
		}
		want := e.applyFunc(f, as)
		a, b := res[0].t, want.t
		if g.bv && isBV(a.sort) {
			a, b = g.widen(&SVal{t: a, typ: rs.At(0).Type()}), g.widen(want)
		}
		x.oblige(st, "result is "+c.pure, eq(a, b), pos)
	}
	for i, en := range c.ensures {
		n := en.name
		if n == "" {
			n = fmt.Sprintf("#%d", i)
		}
		x.oblige(st, "ensures "+n+": "+short(en.e.text), env.b(en.e), pos)
	}
	if x.dry == 0 && x.rets <= 3 {
		x.obs = append(x.obs, &Ob{fn: x.name, name: "return is reachable", pc: st.pc, goal: tTrue, cover: true, bv: g.bv, trace: append([]string(nil), st.trace...)})
	}
	// frame
	may := map[string][]*Term{}
	all := map[string]bool{}
	for _, m := range c.modifies {
		if m.kind == "ghost" && isFreeVar(x.fn, m.name) {
			continue
		}
		e := *x.entEnv
		e.sink = st
		e.names = nm
		if m.post {
			e = *env
		}
		for _, t := range x.targets(m, &e) {
			if t.idx == nil {
				all[t.heap] = true
			} else {
				may[t.heap] = append(may[t.heap], t.idx)
			}
		}
	}
	for _, n := range sortedKeys(st.heaps) {
		v := st.heaps[n]
		if n[:2] == "I:" || strings.Contains(n, "visited$") || all[n] {
			continue
		}
		o := x.entry.heap(n, v.sort)
		if same(o, v) {
			continue
		}
		if isScalarHeap(v.sort) || n[:2] == "G:" || n[:2] == "V:" {
			if len(may[n]) > 0 {
				k, _ := arrParts(v.sort)
				q := g.fresh("sk", k)
				var cs []*Term
				for _, t := range may[n] {
					cs = append(cs, not(eq(q, t)))
				}
				x.oblige(st, "frame of "+n, implies(and(cs...), eq(sel(v, q), sel(o, q))), pos)
				continue
			}
			x.oblige(st, "frame of "+n, eq(v, o), pos)
			continue
		}
		k, _ := arrParts(v.sort)
		// syntactic check first
		idx, whole := storeIdx(v, o)
		if !whole {
			ok := true
			for _, i := range idx {
				hit := isNewTerm(i)
				for _, t := range may[n] {
					if same(t, i) {
						hit = true
					}
				}
				if !hit {
					ok = false
				}
			}
			if ok {
				continue
			}
		}
		q := g.fresh("sk", k)
		var cs []*Term
		if k == "Ref" {
			cs = append(cs, mk("allocd", "Bool", q, x.entry.next))
		} else {
			// row 0 belongs to nil slices, which have no elements
			cs = append(cs, lt(q, x.entry.next), not(eq(q, intT(0))))
		}
		for _, t := range may[n] {
			cs = append(cs, not(eq(q, t)))
		}
		x.oblige(st, "frame of "+n, implies(and(cs...), eq(sel(v, q), sel(o, q))), pos)
	}
}

func isNewTerm(t *Term) bool {
	if t.op == "obj" {
		t = t.args[0]
	}
	if t.op == "sub" {
		return isNewTerm(t.args[0])
	}
	y, c := linSplit(t)
	return y != nil && strings.HasPrefix(y.s, "next@0") && c.Sign() >= 0
}

func main() {
	repo := flag.String("repo", "/repo", "")
	specDir := flag.String("spec", "/verif/spec", "")
	prop := flag.String("prop", "", "property")
	one := flag.String("f", "", "verify only these functions (comma separated)")
	outF := flag.String("out", "", "report")
	keep := flag.String("keep", "", "keep queries here")
	scale := flag.Float64("scale", 1, "timeout scale")
	dump := flag.String("dump", "", "print go/ssa of a function")
	quiet := flag.Bool("q", false, "")
	names := flag.Bool("names", false, "")
	jobs := flag.Int("j", runtime.NumCPU(), "")
	flag.Parse()
	t0 := time.Now()
	spec := loadSpec(*specDir)
	g, e := load(*repo, spec)
	if e != nil {
		fmt.Println("gvc: cannot load the source:", e)
		os.Exit(3)
	}
	if *names {
		for _, n := range sortedKeys(g.funcs) {
			fmt.Println(n)
		}
		return
	}
	if *dump != "" {
		g.funcs[*dump].WriteTo(os.Stdout)
		x := &exec{g: g, ords: map[string]int{}, calls: map[string]int{}}
		nl := 0
		x.expand(g.funcs[*dump], "", 0, &nl, map[string]int{})
		fmt.Println("loops:", x.ords, "calls:", x.calls)
		return
	}
	var work []string
	if *one != "" {
		work = strings.Split(*one, ",")
	} else {
		work = spec.props[*prop]
	}
	if len(work) == 0 {
		fmt.Println("gvc: nothing to prove for", *prop)
		os.Exit(3)
	}
	dir := *keep
	if dir == "" {
		dir, _ = os.MkdirTemp("", "gvc")
		defer os.RemoveAll(dir)
	} else {
		os.MkdirAll(dir, 0755)
	}
	rep := &report{Property: *prop, OK: true, Solvers: map[string]int{}}
	var all []*Ob
	owner := map[*Ob]*fnReport{}
	done := map[string]bool{}
	for i := 0; i < len(work); i++ {
		n := work[i]
		if done[n] {
			continue
		}
		done[n] = true
		g.used = map[string]bool{}
		fr := &fnReport{Name: n, Kind: "function"}
		var obs []*Ob
		var err error
		if l := spec.lemmas[n]; l != nil || strings.HasPrefix(n, "lemma ") {
			if l == nil {
				l = spec.lemmas[strings.TrimPrefix(n, "lemma ")]
			}
			if done["lemma "+l.name] && n != "lemma "+l.name {
				continue
			}
			done["lemma "+l.name], done[l.name] = true, true
			fr.Kind = "lemma"
			if l.axiom {
				rep.Axioms = append(rep.Axioms, l.name)
				continue
			}
			func() {
				defer func() {
					if r := recover(); r != nil {
						if u, ok := r.(unsupported); ok {
							err = fmt.Errorf("%s", u.msg)
							return
						}
						panic(r)
					}
				}()
				obs = g.lemmaObs(l)
			}()
		} else {
			if c := spec.contracts[n]; c != nil && c.trusted {
				rep.Trusted = append(rep.Trusted, n)
				continue
			}
			obs, fr.Paths, err = g.verify(n)
		}
		if err != nil {
			fr.Error = err.Error()
			rep.OK = false
			rep.Details = append(rep.Details, &failDetail{Fn: n, Name: "contract does not apply: " + err.Error()})
		}
		rep.Fns = append(rep.Fns, fr)
		if *one == "" || *prop != "" {
			for _, u := range sortedKeys(g.used) {
				work = append(work, u)
			}
		}
		for _, o := range obs {
			owner[o] = fr
		}
		all = append(all, obs...)
	}
	// the automatic lemmas which were used must be proved too
	if *one == "" {
		need := g.autoLemmas(all)
		for len(need) > 0 {
			var nx []*Ob
			for _, n := range need {
				if done[n] {
					continue
				}
				done[n] = true
				l := spec.lemmas[n]
				if l.axiom {
					rep.Axioms = append(rep.Axioms, l.name)
					continue
				}
				fr := &fnReport{Name: n, Kind: "lemma"}
				rep.Fns = append(rep.Fns, fr)
				obs := g.lemmaObs(l)
				for _, o := range obs {
					owner[o] = fr
				}
				nx = append(nx, obs...)
			}
			all = append(all, nx...)
			need = g.autoLemmas(nx)
		}
	}
	if !*quiet {
		fmt.Printf("%d obligations, generated in %.1fs\n", len(all), time.Since(t0).Seconds())
	}
	if re := os.Getenv("GVC_OB"); re != "" { // development: some of the obligations
		x := regexp.MustCompile(re)
		var nx []*Ob
		for _, o := range all {
			if x.MatchString(o.name) {
				nx = append(nx, o)
			}
		}
		all = nx
	}
	rs := g.solveAll(all, dir, *jobs, *scale)
	// a path may be infeasible, but not all of them
	reached := map[string]bool{}
	for _, r := range rs {
		if r.ob.cover && r.status != "vacuous" {
			reached[r.ob.fn+"|"+r.ob.name] = true
		}
	}
	for _, r := range rs {
		fr := owner[r.ob]
		rep.MS += r.ms
		fr.MS += r.ms
		if r.ob.cover {
			rep.Covers++
			if r.status == "vacuous" && !reached[r.ob.fn+"|"+r.ob.name] {
				rep.OK = false
				fr.Failed = append(fr.Failed, r.ob.name+" (vacuous)")
				rep.Details = append(rep.Details, &failDetail{Fn: r.ob.fn, Name: "vacuous: " + r.ob.name, Trace: r.ob.trace, Solver: r.out, File: r.file})
			}
			continue
		}
		rep.Obs++
		fr.Obs++
		if r.status == "proved" {
			rep.Proved++
			fr.Proved++
			rep.Solvers[r.solver]++
			if !*quiet && r.ms > 4000 {
				fmt.Printf("slow %dms %s: %s (%s) %s\n", r.ms, r.ob.fn, r.ob.name, r.solver, r.file)
			}
			continue
		}
		rep.OK = false
		fr.Failed = append(fr.Failed, r.ob.name)
		rep.Details = append(rep.Details, &failDetail{Fn: r.ob.fn, Name: r.ob.name, Pos: r.ob.pos, Trace: r.ob.trace, Solver: r.out, File: r.file})
	}
	sort.Strings(rep.Trusted)
	sort.Strings(rep.Axioms)
	rep.Wall = time.Since(t0).Seconds()
	if rep.Obs == 0 {
		rep.OK = false
	}
	rep.Assumed, rep.Inlined = sortedKeys(g.assumed), sortedKeys(g.inlined)
	if *outF != "" {
		b, _ := json.MarshalIndent(rep, "", " ")
		os.MkdirAll(filepath.Dir(*outF), 0755)
		os.WriteFile(*outF, b, 0644)
	}
	for _, f := range rep.Fns {
		if !*quiet || f.Error != "" || len(f.Failed) > 0 {
			fmt.Printf("%-8s %-40s %d/%d obligations, %d paths, %dms %s\n", f.Kind, f.Name, f.Proved, f.Obs, f.Paths, f.MS, f.Error)
		}
	}
	for i, d := range rep.Details {
		if i > 25 {
			break
		}
		so := d.Solver
		if len(so) > 300 {
			so = so[:300]
		}
		fmt.Printf("FAILED %s: %s [%s] path %s\n  %s\n  %s\n", d.Fn, d.Name, d.Pos, strings.Join(d.Trace, " "), strings.ReplaceAll(so, "\n", " | "), d.File)
	}
	fmt.Printf("%s: %d/%d obligations proved, %d vacuity checks, %d trusted, %d assumed, %.1fs\n", *prop, rep.Proved, rep.Obs, rep.Covers, len(rep.Trusted), len(rep.Assumed), rep.Wall)
	if !rep.OK {
		os.Exit(1)
	}
}

// autoLemmas lists the automatic lemmas which the queries include.
func (g *Gen) autoLemmas(obs []*Ob) []string {
	m := map[string]bool{}
	for _, ob := range obs {
		used := map[string]string{}
		for p := ob.pc; p != nil; p = p.prev {
			syms(p.t, used, map[string]int{})
		}
		syms(ob.goal, used, map[string]int{})
		in := map[*axiom]bool{}
		for ch := true; ch; {
			ch = false
			for _, ax := range g.axioms() {
				if in[ax] || ax.bv != ob.bv || (ob.lemmaOrd >= 0 && ax.order >= ob.lemmaOrd) {
					continue
				}
				hit := ax.all || ax.needs == nil
				for _, n := range ax.needs {
					_, ok := used[n]
					if ax.all && !ok {
						hit = false
					}
					if !ax.all && ok {
						hit = true
					}
				}
				if hit {
					in[ax] = true
					ch = true
					syms(ax.t, used, map[string]int{})
					if ax.order >= 0 {
						m[ax.name] = true
					}
				}
			}
		}
	}
	return sortedKeys(m)
}
