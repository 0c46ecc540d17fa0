package main

import (
	"fmt"
	"math/rand"
	"sort"

	"github.com/go-air/gini/gen"
	"github.com/go-air/gini/z"
)

func clKey(k []int) string {
	s := append([]int(nil), k...)
	sort.Ints(s)
	return fmt.Sprint(s)
}

// sameClauses compares clause lists up to order.
func sameClauses(c *Case, got, want [][]int, what string) {
	m := map[string]int{}
	for _, k := range want {
		m[clKey(k)]++
	}
	for _, k := range got {
		s := clKey(k)
		if m[s] == 0 {
			c.FailIf("C20", "%s emits the clause %v, which is not in the problem or is emitted too often", what, k)
		}
		m[s]--
	}
	for s, n := range m {
		if n > 0 {
			c.FailIf("C20", "%s does not emit the clause %s", what, s)
		}
	}
}

// classes reads the first n clauses as positive clauses with k variables
// each, all different, and returns the variables.
func classes(c *Case, cls [][]int, n, k int, what string) [][]int {
	if len(cls) < n {
		c.FailIf("C20", "%s emits only %d clauses", what, len(cls))
	}
	seen := map[int]bool{}
	var vs [][]int
	var pos [][]int
	for _, cl := range cls {
		p := true
		for _, l := range cl {
			p = p && l > 0
		}
		if p {
			pos = append(pos, cl)
		}
	}
	if len(pos) != n {
		c.FailIf("C20", "%s emits %d positive clauses, not %d", what, len(pos), n)
	}
	for _, cl := range pos {
		if len(cl) != k {
			c.FailIf("C20", "%s emits the clause %v, which should have %d literals", what, cl, k)
		}
		for _, l := range cl {
			if seen[l] {
				c.FailIf("C20", "%s: two meanings of the variable %d", what, l)
			}
			seen[l] = true
		}
		vs = append(vs, cl)
	}
	return vs
}

func (c *Case) gen(what string, f func(a *collect)) [][]int {
	a := &collect{}
	c.Logf("%s", what)
	f(a)
	if len(a.cur) > 0 {
		c.FailIf("C20", "%s does not end its last clause", what)
	}
	c.Hit()
	return a.cls
}

func runGen(c *Case) {
	r := c.R
	switch c.Num % 8 {
	case 0:
		P, H := r.Intn(8), r.Intn(8)
		what := fmt.Sprintf("gen.Php(dst, %d, %d)", P, H)
		cls := c.gen(what, func(a *collect) { gen.Php(a, P, H) })
		v := classes(c, cls, P, H, what)
		want := append([][]int(nil), v...)
		for h := 0; h < H; h++ {
			for i := 0; i < P; i++ {
				for j := 0; j < i; j++ {
					want = append(want, []int{-v[i][h], -v[j][h]})
				}
			}
		}
		sameClauses(c, cls, want, what)
	case 1:
		n, k := r.Intn(9), r.Intn(5)
		what := fmt.Sprintf("gen.Partition(dst, %d, %d)", n, k)
		cls := c.gen(what, func(a *collect) { gen.Partition(a, n, k) })
		sameClauses(c, cls, partition(c, n, k), what)
	case 2:
		n, k := r.Intn(40), 1+r.Intn(3)
		if r.Intn(10) == 0 {
			n = r.Intn(160)
		}
		what := fmt.Sprintf("gen.PyTriples(dst, %d, %d)", n, k)
		cls := c.gen(what, func(a *collect) { gen.PyTriples(a, n, k) })
		want := partition(c, n, k)
		for a := 1; a <= n; a++ {
			for b := a + 1; b <= n; b++ {
				for d := b + 1; d <= n; d++ {
					if a*a+b*b == d*d {
						for p := 0; p < k; p++ {
							want = append(want, []int{-gen.PartVar(a-1, p, n).Dimacs(), -gen.PartVar(b-1, p, n).Dimacs(), -gen.PartVar(d-1, p, n).Dimacs()})
						}
					}
				}
			}
		}
		sameClauses(c, cls, want, what)
	case 3:
		n := 1 + r.Intn(30)
		what := fmt.Sprintf("gen.BinCycle(dst, %d)", n)
		cls := c.gen(what, func(a *collect) { gen.BinCycle(a, n) })
		var want [][]int
		for i := 1; i <= n; i++ {
			want = append(want, []int{i, -(i%n + 1)})
		}
		sameClauses(c, cls, want, what)
	case 4:
		n, m := 3+r.Intn(20), r.Intn(60)
		if r.Intn(3) == 0 {
			n = 3
		}
		seed := r.Int63()
		gen.Seed(seed)
		hard := r.Intn(3) == 0
		what := fmt.Sprintf("gen.Seed(%d); gen.Rand3Cnf(dst, %d, %d)", seed, n, m)
		if hard {
			what = fmt.Sprintf("gen.Seed(%d); gen.HardRand3Cnf(dst, %d)", seed, n)
			m = 4 * n
		}
		one := func(a *collect) {
			if hard {
				gen.HardRand3Cnf(a, n)
			} else {
				gen.Rand3Cnf(a, n, m)
			}
		}
		cls := c.gen(what, one)
		if len(cls) != m {
			c.FailIf("C20", "%s emits %d clauses", what, len(cls))
		}
		signs := map[bool]int{}
		vars := map[int]bool{}
		for _, k := range cls {
			if len(k) != 3 {
				c.FailIf("C20", "%s emits the clause %v", what, k)
			}
			for i, l := range k {
				if abs(l) < 1 || abs(l) > n {
					c.FailIf("C20", "%s emits the clause %v", what, k)
				}
				signs[l > 0]++
				vars[abs(l)] = true
				for _, o := range k[:i] {
					if abs(o) == abs(l) {
						c.FailIf("C20", "%s emits the clause %v with a repeated variable", what, k)
					}
				}
			}
		}
		if m >= 40 && (signs[true] < 10 || signs[false] < 10) {
			c.FailIf("C20", "%s emits %d positive and %d negative literals", what, signs[true], signs[false])
		}
		if m >= 30*n && len(vars) != n {
			c.FailIf("C20", "%s emits only %d variables", what, len(vars))
		}
		gen.Seed(seed)
		again := c.gen(what, one)
		if fmt.Sprint(again) != fmt.Sprint(cls) {
			c.FailIf("C20", "%s is not determined by the seed", what)
		}
	case 5:
		n, k := 1+r.Intn(9), 1+r.Intn(4)
		m := r.Intn(n*(n-1)/2 + 1)
		if r.Intn(3) == 0 {
			m = n * (n - 1) / 2
		}
		s := r.Int63()
		rand.Seed(s)
		what := fmt.Sprintf("rand.Seed(%d); gen.RandColor(dst, %d, %d, %d)", s, n, m, k)
		cls := c.gen(what, func(a *collect) { gen.RandColor(a, n, m, k) })
		v := classes(c, cls, n, k, what)
		node, col := map[int]int{}, map[int]int{}
		for i := range v {
			for j, x := range v[i] {
				node[x], col[x] = i, j
			}
		}
		edges := map[[2]int]map[int]int{}
		for _, cl := range cls {
			if len(cl) > 0 && cl[0] > 0 {
				continue
			}
			if len(cl) != 2 {
				c.FailIf("C20", "%s emits the clause %v", what, cl)
			}
			a, b := -cl[0], -cl[1]
			_, oka := node[a]
			_, okb := node[b]
			if !oka || !okb || node[a] == node[b] || col[a] != col[b] {
				c.FailIf("C20", "%s emits the clause %v, which does not keep an edge from having one color", what, cl)
			}
			e := [2]int{node[a], node[b]}
			if e[0] > e[1] {
				e[0], e[1] = e[1], e[0]
			}
			if edges[e] == nil {
				edges[e] = map[int]int{}
			}
			edges[e][col[a]]++
		}
		if len(edges) != m {
			c.FailIf("C20", "%s has %d edges", what, len(edges))
		}
		for e, cs := range edges {
			for j := 0; j < k; j++ {
				if cs[j] != 1 {
					c.FailIf("C20", "%s emits %d clauses for color %d of the edge %v", what, cs[j], j, e)
				}
			}
		}
	case 6:
		n := r.Intn(12)
		m := r.Intn(n*(n-1)/2 + 3)
		if r.Intn(3) == 0 {
			m = n * (n - 1) / 2
		}
		s := r.Int63()
		rand.Seed(s)
		what := fmt.Sprintf("rand.Seed(%d); gen.RandGraph(%d, %d)", s, n, m)
		c.Logf("%s", what)
		c.Hit()
		g := gen.RandGraph(n, m)
		if m > n*(n-1)/2 {
			if g != nil {
				c.FailIf("C20", "%s is %v", what, g)
			}
			return
		}
		if len(g) != n {
			c.FailIf("C20", "%s has %d nodes", what, len(g))
		}
		es := map[[2]int]int{}
		cnt := 0
		for i := range g {
			for _, j := range g[i] {
				if j < 0 || j >= n || j == i {
					c.FailIf("C20", "%s has the edge %d, %d", what, i, j)
				}
				es[[2]int{i, j}]++
				cnt++
			}
		}
		for e, k := range es {
			if k != 1 || es[[2]int{e[1], e[0]}] != 1 {
				c.FailIf("C20", "%s: edge %v occurs %d times, its reverse %d times", what, e, k, es[[2]int{e[1], e[0]}])
			}
		}
		if cnt != 2*m {
			c.FailIf("C20", "%s has %d edges", what, cnt)
		}
	default:
		mx, mv := 1+r.Intn(9), 1+r.Intn(20)
		s := r.Int63()
		rand.Seed(s)
		q := gen.NewRandCuber(mx, z.Var(mv))
		c.Logf("rand.Seed(%d); q := gen.NewRandCuber(%d, %d)", s, mx, mv)
		var dst []z.Lit
		for i := 0; i < 10; i++ {
			dst = q.RandCube(dst)
			c.Hit()
			c.Logf("dst = q.RandCube(dst) // %v", dst)
			if len(dst) < 1 || len(dst) > mx {
				c.FailIf("C20", "a cube of %d literals", len(dst))
			}
			seen := map[z.Var]bool{}
			for _, m := range dst {
				if m.Var() < 1 || m.Var() > z.Var(mv) || seen[m.Var()] {
					c.FailIf("C20", "the literal %s in the cube %v", m, dst)
				}
				seen[m.Var()] = true
			}
		}
	}
}

func partition(c *Case, n, k int) [][]int {
	var want [][]int
	seen := map[int]bool{}
	for i := 0; i < n; i++ {
		var cl []int
		for j := 0; j < k; j++ {
			x := gen.PartVar(i, j, n).Dimacs()
			if x <= 0 || seen[x] {
				c.FailIf("C20", "gen.PartVar(%d, %d, %d) is %d, which is used twice or no variable", i, j, n, x)
			}
			seen[x] = true
			cl = append(cl, x)
		}
		want = append(want, cl)
		for j := 0; j < k; j++ {
			for h := 0; h < j; h++ {
				want = append(want, []int{-cl[j], -cl[h]})
			}
		}
	}
	return want
}

func init() {
	checks["C20"] = &check{run: runGen, rule: "each generator with random parameters and seeds; the clauses are compared as a multiset with those of the documented problem."}
}
