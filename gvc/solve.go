package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	osexec "os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type Result struct {
	ob      *Ob
	status  string // proved failed vacuous ok
	solver  string
	ms      int64
	out     string
	file    string
	refuted bool // a solver says sat
}

const prelude = `(set-option :auto_config false)
(set-option :smt.mbqi false)
(set-option :smt.qi.eager_threshold 100)
`

// smt renders one query, or several whose hypotheses extend those of the one
// before.
func (g *Gen) smt(obs []*Ob, solver string) string {
	ob := obs[len(obs)-1]
	var as []*Term
	for p := ob.pc; p != nil; p = p.prev {
		as = append(as, p.t)
	}
	for i, j := 0, len(as)-1; i < j; i, j = i+1, j-1 {
		as[i], as[j] = as[j], as[i]
	}
	var goals []*Term
	for _, o := range obs {
		goal := not(o.goal)
		if o.cover {
			goal = tTrue
		}
		goals = append(goals, goal)
	}
	used := map[string]string{}
	for _, a := range as {
		syms(a, used, map[string]int{})
	}
	for _, goal := range goals {
		syms(goal, used, map[string]int{})
	}
	// axioms of the contract functions which occur
	var axs []*Term
	for ch := true; ch; {
		ch = false
		for _, ax := range g.axioms() {
			if ax.used[ob] || ax.bv != ob.bv || (ob.lemmaOrd >= 0 && ax.order >= ob.lemmaOrd) {
				continue
			}
			hit := ax.needs == nil
			for _, n := range ax.needs {
				if _, ok := used[n]; ok {
					hit = true
				}
			}
			if ax.all {
				hit = true
				for _, n := range ax.needs {
					if _, ok := used[n]; !ok {
						hit = false
					}
				}
			}
			if hit {
				ax.used[ob] = true
				axs = append(axs, ax.t)
				syms(ax.t, used, map[string]int{})
				ch = true
			}
		}
	}
	for _, ax := range g.axioms() {
		delete(ax.used, ob)
	}
	if !ob.bv {
		var ns []string
		for n := range used {
			ns = append(ns, n)
		}
		sort.Strings(ns)
		for _, n := range ns {
			if t := g.typing(n, used[n]); t != nil {
				axs = append(axs, t)
				syms(t, used, map[string]int{})
			}
		}
	}
	var b bytes.Buffer
	if solver == "cvc5" {
		b.WriteString("(set-logic ALL)\n")
	} else if !ob.bv {
		b.WriteString(prelude)
	}
	b.WriteString("(declare-sort Str 0)(declare-sort Flt 0)(declare-sort Fn 0)(declare-sort Iface 0)\n")
	b.WriteString("(declare-datatypes ((Ref 0)) (((null) (obj (oid Int)) (sub (rpar Ref) (fld Int)))))\n")
	b.WriteString("(declare-datatypes ((Slice 0)) (((mk-slice (s.arr Int) (s.off Int) (s.len Int) (s.cap Int)))))\n")
	b.WriteString("(define-fun allocd ((r Ref) (n Int)) Bool (ite ((_ is obj) r) (and (< 0 (oid r)) (< (oid r) n)) (ite ((_ is sub) r) (ite ((_ is obj) (rpar r)) (and (< 0 (oid (rpar r))) (< (oid (rpar r)) n)) (ite ((_ is sub) (rpar r)) (ite ((_ is obj) (rpar (rpar r))) (and (< 0 (oid (rpar (rpar r)))) (< (oid (rpar (rpar r))) n)) true) true)) true)))\n")
	// struct datatypes
	var text strings.Builder
	for _, a := range as {
		text.WriteString(a.s)
	}
	for _, goal := range goals {
		text.WriteString(goal.s)
	}
	for _, a := range axs {
		text.WriteString(a.s)
	}
	for _, s := range used {
		text.WriteString(s)
	}
	full := text.String()
	for _, n := range g.dtOrd {
		d := g.dts[n]
		if !g.dtUsed(n, full) {
			continue
		}
		if ob.bv != strings.Contains(strings.Join(d.sorts, " "), "BitVec") && hasInt(d) {
			continue
		}
		b.WriteString("(declare-datatypes ((" + n + " 0)) (((" + d.ctor())
		for i := range d.fields {
			b.WriteString(" (" + d.selName(i) + " " + d.sorts[i] + ")")
		}
		b.WriteString("))))\n")
	}
	names := make([]string, 0, len(used))
	for n := range used {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		if sig, ok := g.sigs()[n]; ok {
			b.WriteString("(declare-fun " + n + " " + sig + ")\n")
			continue
		}
		if strings.HasPrefix(n, "if.mk.") || strings.HasPrefix(n, "if.get.") {
			continue
		}
		srt := used[n]
		if srt == "" || builtinOps[n] || n == "null" || n == "true" || n == "false" || n == "mk-slice" || strings.HasPrefix(n, "(_") || strings.HasPrefix(n, "|mk:") || strings.HasPrefix(n, "|mkD") || strings.HasPrefix(n, "bv") {
			continue
		}
		b.WriteString("(declare-const " + n + " " + srt + ")\n")
	}
	for _, tag := range []string{"Ref", "Int", "Bool", "Str", "Slice"} {
		if _, ok := used["if.mk."+tag]; ok {
			used["if.get."+tag] = ""
		}
		if _, ok := used["if.get."+tag]; ok {
			fmt.Fprintf(&b, "(declare-fun if.mk.%s (Int %s) Iface)\n(declare-fun if.get.%s (Iface) %s)\n", tag, tag, tag, tag)
			if used["if.tag"] == "" {
				if _, ok := used["if.tag"]; !ok {
					used["if.tag"] = "x"
					b.WriteString("(declare-fun if.tag (Iface) Int)\n")
				}
			}
			if _, ok := used["if.nil"]; !ok {
				used["if.nil"] = "Iface"
				b.WriteString("(declare-const if.nil Iface)\n")
			}
			fmt.Fprintf(&b, "(assert (forall ((t Int) (v %s)) (! (and (= (if.tag (if.mk.%s t v)) t) (= (if.get.%s (if.mk.%s t v)) v) (distinct if.nil (if.mk.%s t v))) :pattern ((if.mk.%s t v)))))\n", tag, tag, tag, tag, tag, tag)
		}
	}
	for n := range used {
		if strings.HasPrefix(n, "if.mk.") || strings.HasPrefix(n, "if.get.") {
			tag := n[strings.LastIndexByte(n, '.')+1:]
			switch tag {
			case "Ref", "Int", "Bool", "Str", "Slice":
			default:
				// boxed values of other sorts are not related
				srt := used[n]
				_ = srt
			}
		}
	}
	if _, ok := used["str.lit"]; ok {
		b.WriteString("(declare-fun str.lit (Int) Str)\n(declare-fun str.unlit (Str) Int)\n(assert (forall ((i Int)) (! (= (str.unlit (str.lit i)) i) :pattern ((str.lit i)))))\n")
		if _, ok := used["str.empty"]; ok {
			b.WriteString("(assert (forall ((i Int)) (! (not (= str.empty (str.lit i))) :pattern ((str.lit i)))))\n")
		}
	}
	for _, ax := range axs {
		b.WriteString("(assert " + ax.s + ")\n")
	}
	if len(obs) > 1 {
		n := 0
		for i, o := range obs {
			for d := depth(o.pc); n < d; n++ {
				b.WriteString("(assert " + as[n].s + ")\n")
			}
			b.WriteString("(push 1)\n(assert " + goals[i].s + ")\n(check-sat)\n(pop 1)\n")
		}
		return b.String()
	}
	for _, a := range as {
		b.WriteString("(assert " + a.s + ")\n")
	}
	b.WriteString("(assert " + goals[0].s + ")\n(check-sat)\n")
	return b.String()
}

func depth(p *PC) int {
	n := 0
	for ; p != nil; p = p.prev {
		n++
	}
	return n
}

// groups splits the obligations in runs on one path.
func groups(obs []*Ob) [][]int {
	var r [][]int
	for i, o := range obs {
		if n := len(r); n > 0 && !o.cover {
			l := r[n-1]
			p := obs[l[len(l)-1]]
			if !p.cover && p.fn == o.fn && p.bv == o.bv && p.lemmaOrd == o.lemmaOrd && len(l) < 48 {
				q := o.pc
				for k := 0; k < 200 && q != nil && q != p.pc; k++ {
					q = q.prev
				}
				if q == p.pc {
					r[n-1] = append(l, i)
					continue
				}
			}
		}
		r = append(r, []int{i})
	}
	return r
}

// batch tries a run of obligations with one solver process.
func (g *Gen) batch(obs []*Ob, file string, scale float64, each int) []*Result {
	res := make([]*Result, len(obs))
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(len(obs)*(each+300)+5000)*time.Millisecond)
	defer cancel()
	t0 := time.Now()
	out, _ := osexec.CommandContext(ctx, "z3-new", fmt.Sprintf("-t:%d", each), file).Output()
	ms := time.Since(t0).Milliseconds()
	ls := strings.Split(strings.TrimSpace(string(out)), "\n")
	for i := range obs {
		if i < len(ls) && strings.HasPrefix(ls[i], "(error") {
			break
		}
		if i < len(ls) && ls[i] == "unsat" {
			res[i] = &Result{ob: obs[i], file: file, status: "proved", solver: "z3-new", ms: ms / int64(len(obs))}
		}
	}
	return res
}

func hasInt(d *dtype) bool {
	for _, s := range d.sorts {
		if strings.Contains(s, "Int") || isBV(s) {
			return true
		}
	}
	return false
}

func (g *Gen) dtUsed(n string, full string) bool {
	if strings.Contains(full, n[1:]) {
		return true
	}
	for _, m := range g.dtOrd {
		if m != n && strings.Contains(strings.Join(g.dts[m].sorts, " "), n) && strings.Contains(full, m[1:]) {
			return true
		}
	}
	return false
}

var builtinOps = map[string]bool{}

func init() {
	for _, s := range strings.Fields("and or not => = ite + - * <= < >= > div mod select store forall exists true false obj sub null rpar fld oid mk-slice s.arr s.off s.len s.cap allocd distinct") {
		builtinOps[s] = true
	}
}

// schedule is the order in which the solvers try an obligation.
var schedule = []struct{ solver, sec int }{
	{0, 2}, {3, 2}, {2, 3}, {1, 4}, {0, 8}, {2, 8}, {1, 8}, {3, 8},
	{0, 25}, {2, 25}, {1, 25}, {0, 60}, {2, 60}, {1, 60}, {3, 30},
}

type solverCmd struct {
	name string
	args func(file string, sec int) []string
}

var solvers = []solverCmd{
	{"z3-new", func(f string, s int) []string { return []string{"z3-new", fmt.Sprintf("-T:%d", s), f} }},
	{"z3-new/auto", func(f string, s int) []string { return []string{"z3-new", fmt.Sprintf("-T:%d", s), f} }},
	{"cvc5", func(f string, s int) []string {
		return []string{"cvc5", fmt.Sprintf("--tlimit=%d", s*1000), f}
	}},
	{"z3", func(f string, s int) []string { return []string{"z3", fmt.Sprintf("-T:%d", s), f} }},
}

func runSolver(c solverCmd, file string, sec int) (string, string, int64) {
	t0 := time.Now()
	a := c.args(file, sec)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(sec+3)*time.Second)
	defer cancel()
	out, _ := osexec.CommandContext(ctx, a[0], a[1:]...).CombinedOutput()
	s := strings.TrimSpace(string(out))
	ms := time.Since(t0).Milliseconds()
	l := s
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		l = s[:i]
	}
	return l, s, ms
}

var sanit = regexp.MustCompile(`[^A-Za-z0-9]+`)

func (g *Gen) solveAll(all []*Ob, dir string, workers int, scale float64) []*Result {
	// what has been assumed as it is needs no solver
	var ret []*Result
	var obs []*Ob
	for _, o := range all {
		if o.hyp && !o.cover {
			ret = append(ret, &Result{ob: o, status: "proved", solver: "hypothesis"})
			continue
		}
		obs = append(obs, o)
	}
	if len(ret) > 0 {
		return append(ret, g.solveAll(obs, dir, workers, scale)...)
	}
	res := make([]*Result, len(obs))
	t0 := time.Now()
	// rendering uses shared tables and is done in sequence
	files := make([][3]string, len(obs))
	render := func(i int, ob *Ob) {
		base := filepath.Join(dir, fmt.Sprintf("%05d", i))
		z := g.smt([]*Ob{ob}, "z3")
		files[i][0] = base + ".smt2"
		os.WriteFile(files[i][0], []byte(z), 0644)
		c := strings.Replace(z, prelude, "(set-logic ALL)\n", 1)
		if !strings.HasPrefix(c, "(set-logic") {
			c = "(set-logic ALL)\n" + c
		}
		files[i][2] = base + ".auto.smt2"
		os.WriteFile(files[i][2], []byte(strings.Replace(z, "(set-option :auto_config false)\n", "", 1)), 0644)
		files[i][1] = base + ".cvc5.smt2"
		os.WriteFile(files[i][1], []byte(c), 0644)
	}
	gs := groups(obs)
	gf := make([]string, len(gs))
	for i, idx := range gs {
		if len(idx) < 3 {
			continue
		}
		var os_ []*Ob
		for _, k := range idx {
			os_ = append(os_, obs[k])
		}
		gf[i] = filepath.Join(dir, fmt.Sprintf("g%05d.smt2", i))
		os.WriteFile(gf[i], []byte(g.smt(os_, "z3")), 0644)
	}
	var wg sync.WaitGroup
	if os.Getenv("GVC_TIME") != "" {
		fmt.Fprintf(os.Stderr, "batches: rendered in %.1fs\n", time.Since(t0).Seconds())
	}
	var failed atomic.Int32
	t0 = time.Now()
	run := func(n int, f func(i int)) {
		ch := make(chan int)
		for w := 0; w < workers; w++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := range ch {
					f(i)
				}
			}()
		}
		for i := 0; i < n; i++ {
			ch <- i
		}
		close(ch)
		wg.Wait()
	}
	run(len(gs), func(i int) {
		if gf[i] == "" {
			return
		}
		var os_ []*Ob
		for _, k := range gs[i] {
			os_ = append(os_, obs[k])
		}
		for j, r := range g.batch(os_, gf[i], scale, 400) {
			if r != nil {
				res[gs[i][j]] = r
			}
		}
	})
	for i, ob := range obs {
		if res[i] == nil {
			render(i, ob)
		}
	}
	if os.Getenv("GVC_TIME") != "" {
		n := 0
		for _, r := range res {
			if r != nil {
				n++
			}
		}
		fmt.Fprintf(os.Stderr, "batches: %d of %d in %.1fs\n", n, len(obs), time.Since(t0).Seconds())
	}
	run(len(obs), func(i int) {
		if res[i] != nil {
			return
		}
		res[i] = solveOne(obs[i], files[i], scale, &failed, t0)
		if res[i].status == "failed" {
			failed.Add(1)
		}
	})
	// a few open ones get another attempt, without the load of the others
	var open []int
	for i, r := range res {
		if r.status == "failed" && !r.refuted {
			open = append(open, i)
		}
	}
	if len(open) <= 8 && time.Since(t0) < time.Duration(float64(limit)*scale*0.7) {
		run(len(open), func(k int) {
			r := res[open[k]]
			for _, s := range []int{1, 2, 0} {
				file := files[open[k]][map[string]int{"z3-new/auto": 2, "cvc5": 1}[solvers[s].name]]
				a, _, ms := runSolver(solvers[s], file, 40)
				r.ms += ms
				if a == "unsat" {
					r.status, r.solver = "proved", solvers[s].name
					return
				}
			}
		})
	}
	return res
}

// limit bounds the time of a run: what is still open afterwards fails.
const limit = 500 * time.Second

func solveOne(ob *Ob, f [3]string, scale float64, failed *atomic.Int32, t0 time.Time) *Result {
	r := &Result{ob: ob, file: f[0]}
	late := func() bool { return time.Since(t0) > time.Duration(float64(limit)*scale) }
	if late() {
		r.status, r.out = "failed", "out of time"
		if ob.cover {
			r.status = "ok"
		}
		return r
	}
	if ob.cover {
		a, out, ms := runSolver(solvers[0], f[0], 2)
		r.ms, r.solver, r.out = ms, "z3-new", out
		r.status = "ok"
		if a == "unsat" {
			r.status = "vacuous"
		}
		if strings.HasPrefix(a, "(error") {
			r.status = "vacuous"
		}
		return r
	}
	var outs []string
	gaveUp := map[string]bool{}
	for n, st := range schedule {
		if n > 6 && (failed.Load() >= 3 || late()) || n > 3 && failed.Load() > 8 {
			break // the answer is known; the others only name what else fails
		}
		if n > 4 && os.Getenv("GVC_DEV") != "" {
			break
		}
		if n > 10 && scale < 2 {
			break // the long attempts belong to the thorough tier
		}
		s := solvers[st.solver]
		if gaveUp[s.name] {
			continue
		}
		sec := int(float64(st.sec) * scale)
		if sec < 1 {
			sec = 1
		}
		file := f[0]
		if s.name == "z3-new/auto" {
			file = f[2]
		}
		if s.name == "cvc5" {
			file = f[1]
		}
		a, out, ms := runSolver(s, file, sec)
		r.ms += ms
		if a == "unsat" {
			r.status, r.solver = "proved", s.name
			return r
		}
		outs = append(outs, fmt.Sprintf("%s(%ds): %s", s.name, sec, out))
		if a == "sat" || (a == "unknown" && ms < int64(sec)*800) || strings.HasPrefix(a, "(error") {
			gaveUp[s.name] = true
		}
		if a == "sat" {
			r.status, r.out = "failed", strings.Join(outs, "\n")
			r.refuted = true
			return r
		}
	}
	r.status = "failed"
	r.out = strings.Join(outs, "\n")
	return r
}
