// Command vh runs the real code of /repo against independent oracles: truth
// tables over few variables, brute force, and re-implementations of file
// formats.  It is the falsifier beside the proofs: what it finds is a
// concrete failing input, what it does not find proves nothing.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"runtime/debug"
	"strings"
	"time"
)

// Case is one generated case; every random choice comes from R, which is
// determined by the seed, the property and the number of the case.
type Case struct {
	R    *rand.Rand
	Prop string
	Num  int
	Tier string
	log  strings.Builder
	key  strings.Builder // what makes the case distinct
	hit  int             // non-trivial checks made
}

type failure struct{ msg string }
type skipCase struct{}

// Logf records an operation of the case.
func (c *Case) Logf(f string, a ...interface{}) {
	if c.log.Len() < 1<<20 {
		fmt.Fprintf(&c.log, f+"\n", a...)
	}
}

// Fail reports that the property is broken.
func (c *Case) Fail(f string, a ...interface{}) { panic(failure{fmt.Sprintf(f, a...)}) }

// FailIf reports a violation when the property under check is in props; a
// violation of another property ends the case.
func (c *Case) FailIf(props string, f string, a ...interface{}) {
	if strings.Contains(props, c.Prop) {
		c.Fail(f, a...)
	}
	panic(skipCase{})
}

func (c *Case) Hit() { c.hit++ }

type check struct {
	run  func(c *Case)
	rule string
	pre  func(c *Case) // runs once, as case 0
}

var checks = map[string]*check{}

type status struct {
	Evals    int      `json:"evaluations"`
	Hits     int      `json:"hits"`
	Distinct int      `json:"distinct_nontrivial"`
	Skipped  int      `json:"skipped"`
	Rule     string   `json:"rule"`
	Samples  []string `json:"samples"`
	Failed   bool     `json:"failed"`
	Num      int      `json:"case"`
	Msg      string   `json:"msg"`
	Log      string   `json:"log"`
	Wall     float64  `json:"wall_s"`
	Seed     int64    `json:"seed"`
}

func mix(seed int64, prop string, num int) int64 {
	h := uint64(seed)*0x9E3779B97F4A7C15 + uint64(num)*0xBF58476D1CE4E5B9 + 0x94D049BB133111EB
	for _, b := range []byte(prop) {
		h = (h ^ uint64(b)) * 1099511628211
	}
	h ^= h >> 31
	h *= 0x94D049BB133111EB
	h ^= h >> 29
	return int64(h >> 1)
}

func runCase(ck *check, prop, tier string, seed int64, num int) (c *Case, fail string, skipped bool) {
	c = &Case{R: rand.New(rand.NewSource(mix(seed, prop, num))), Prop: prop, Num: num, Tier: tier}
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case failure:
				fail = r.msg
			case skipCase:
				skipped = true
			default:
				fail = fmt.Sprintf("the code under test panics: %v\n%s", r, debug.Stack())
			}
		}
	}()
	if num == 0 && ck.pre != nil {
		ck.pre(c)
		return
	}
	ck.run(c)
	return
}

func worker(prop, tier string, seed int64, from, step int, budget time.Duration, statF string, only bool) {
	ck := checks[prop]
	st := &status{Rule: ck.rule, Seed: seed}
	t0 := time.Now()
	seen := map[string]bool{}
	cur, _ := os.Create(statF + ".cur")
	write := func() {
		st.Wall = time.Since(t0).Seconds()
		st.Distinct = len(seen)
		b, _ := json.Marshal(st)
		os.WriteFile(statF, b, 0644)
	}
	for n := from; only || time.Since(t0) < budget; n += step {
		cur.WriteAt([]byte(fmt.Sprintf("%-12d", n)), 0)
		c, fail, skipped := runCase(ck, prop, tier, seed, n)
		st.Evals++
		st.Hits += c.hit
		if skipped {
			st.Skipped++
		}
		if c.hit > 0 && len(seen) < 2000000 {
			k := c.key.String()
			if k == "" {
				k = c.log.String()
			}
			seen[k] = true
		}
		if len(st.Samples) < 2 && c.log.Len() > 0 && c.log.Len() < 3000 {
			st.Samples = append(st.Samples, c.log.String())
		}
		if fail != "" {
			st.Failed, st.Num, st.Msg, st.Log = true, n, fail, c.log.String()
			write()
			os.Exit(1)
		}
		if only {
			break
		}
	}
	write()
}

func main() {
	seed := flag.Int64("seed", 1, "")
	tier := flag.String("tier", "quick", "")
	budget := flag.Duration("budget", 20*time.Second, "")
	jobs := flag.Int("j", 8, "")
	out := flag.String("out", "", "result file")
	wk := flag.Int("worker", -1, "")
	statF := flag.String("stat", "", "")
	only := flag.Int("case", -1, "run this case only")
	hang := flag.Duration("hang", 100*time.Second, "a case which takes longer hangs")
	flag.Parse()
	prop := flag.Arg(0)
	if checks[prop] == nil {
		fmt.Println("no harness for", prop)
		os.Exit(4)
	}
	if *wk >= 0 {
		from := *wk
		if *only >= 0 {
			from = *only
		}
		worker(prop, *tier, *seed, from, *jobs, *budget, *statF, *only >= 0)
		return
	}
	dir, _ := os.MkdirTemp("", "vh")
	defer os.RemoveAll(dir)
	if *only >= 0 {
		*jobs = 1
	}
	type res struct {
		st *status
		k  int
	}
	ch := make(chan res)
	for k := 0; k < *jobs; k++ {
		go func(k int) {
			sf := fmt.Sprintf("%s/%d", dir, k)
			args := []string{"-worker", fmt.Sprint(k), "-stat", sf, "-seed", fmt.Sprint(*seed), "-tier", *tier, "-budget", budget.String(), "-j", fmt.Sprint(*jobs), "-case", fmt.Sprint(*only), prop}
			cmd := exec.Command(os.Args[0], args...)
			var ob strings.Builder
			w := &limited{b: &ob}
			cmd.Env = append(os.Environ(), "TMPDIR="+dir)
			cmd.Stdout, cmd.Stderr = w, w
			cmd.Start()
			done := make(chan error, 1)
			go func() { done <- cmd.Wait() }()
			last, at := "", time.Now()
			hung := false
			var err error
		loop:
			for {
				select {
				case err = <-done:
					break loop
				case <-time.After(time.Second):
					b, _ := os.ReadFile(sf + ".cur")
					if string(b) != last {
						last, at = string(b), time.Now()
					}
					if time.Since(at) > *hang {
						hung = true
						cmd.Process.Kill()
						<-done
						break loop
					}
				}
			}
			st := &status{}
			b, e := os.ReadFile(sf)
			if e == nil {
				json.Unmarshal(b, st)
			}
			if hung || (err != nil && !st.Failed) {
				cb, _ := os.ReadFile(sf + ".cur")
				fmt.Sscan(string(cb), &st.Num)
				st.Failed = true
				if hung {
					st.Msg = fmt.Sprintf("the code under test does not return within %s", *hang)
				} else {
					st.Msg = "the code under test ends the process: " + err.Error()
				}
				st.Log = ob.String()
			}
			ch <- res{st, k}
		}(k)
	}
	all := &status{Seed: *seed}
	for k := 0; k < *jobs; k++ {
		r := (<-ch).st
		all.Evals += r.Evals
		all.Hits += r.Hits
		all.Distinct += r.Distinct
		all.Skipped += r.Skipped
		all.Rule = checks[prop].rule
		if len(all.Samples) < 3 {
			all.Samples = append(all.Samples, r.Samples...)
		}
		if r.Wall > all.Wall {
			all.Wall = r.Wall
		}
		if r.Failed && (!all.Failed || r.Num < all.Num) {
			all.Failed, all.Num, all.Msg, all.Log = true, r.Num, r.Msg, r.Log
		}
	}
	b, _ := json.MarshalIndent(all, "", " ")
	if *out != "" {
		os.WriteFile(*out, b, 0644)
	}
	fmt.Printf("%s: %d cases, %d distinct, %d checks, %d skipped, %.1fs\n", prop, all.Evals, all.Distinct, all.Hits, all.Skipped, all.Wall)
	if all.Failed {
		os.RemoveAll(dir)
		fmt.Printf("FAILED case %d: %s\n%s\n", all.Num, all.Msg, all.Log)
		os.Exit(1)
	}
}

type limited struct{ b *strings.Builder }

func (l *limited) Write(p []byte) (int, error) {
	if l.b.Len() < 1<<17 {
		l.b.Write(p)
	}
	return len(p), nil
}

// BS is a set of assignments over few variables, as a truth table.
type BS []uint64

const bits = 12

var patBits [bits]BS
var full BS

func init() {
	full = make(BS, 1<<bits/64)
	for i := range full {
		full[i] = ^uint64(0)
	}
	for b := 0; b < bits; b++ {
		patBits[b] = make(BS, 1<<bits/64)
		for a := 0; a < 1<<bits; a++ {
			if a>>uint(b)&1 == 1 {
				patBits[b][a/64] |= 1 << uint(a%64)
			}
		}
	}
}

func (a BS) clone() BS { return append(BS(nil), a...) }
func (a BS) and(b BS) BS {
	r := make(BS, len(a))
	for i := range a {
		r[i] = a[i] & b[i]
	}
	return r
}
func (a BS) or(b BS) BS {
	r := make(BS, len(a))
	for i := range a {
		r[i] = a[i] | b[i]
	}
	return r
}
func (a BS) not() BS {
	r := make(BS, len(a))
	for i := range a {
		r[i] = ^a[i]
	}
	return r
}
func (a BS) empty() bool {
	for _, w := range a {
		if w != 0 {
			return false
		}
	}
	return true
}
func (a BS) eq(b BS) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}
func (a BS) has(i int) bool { return a[i/64]>>uint(i%64)&1 == 1 }

// exists eliminates bit b.
func (a BS) exists(b int) BS {
	r := make(BS, len(a))
	for i := 0; i < 1<<bits; i++ {
		if a.has(i) || a.has(i^1<<uint(b)) {
			r[i/64] |= 1 << uint(i%64)
		}
	}
	return r
}
