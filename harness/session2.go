package main

import (
	"fmt"
	"math/rand"
	"reflect"
	"strings"
	"time"

	"github.com/go-air/gini"
	"github.com/go-air/gini/gen"
	"github.com/go-air/gini/inter"
	"github.com/go-air/gini/z"
)

// dpll is a plain procedure for instances of moderate size.
func dpll(n int, cls [][]int, as []int) bool {
	val := make([]int8, n+1)
	occ := make([][]int, 2*n+2)
	ix := func(l int) int {
		if l < 0 {
			return -2*l + 1
		}
		return 2 * l
	}
	cnt := make([]int, 2*n+2)
	for i, k := range cls {
		for _, l := range k {
			occ[ix(l)] = append(occ[ix(l)], i)
			cnt[ix(l)]++
		}
	}
	v := func(l int) int8 {
		if l < 0 {
			return -val[-l]
		}
		return val[l]
	}
	var trail []int
	assign := func(l int) bool {
		q := []int{l}
		for len(q) > 0 {
			l := q[0]
			q = q[1:]
			if v(l) == 1 {
				continue
			}
			if v(l) == -1 {
				return false
			}
			if l < 0 {
				val[-l] = -1
			} else {
				val[l] = 1
			}
			trail = append(trail, l)
			for _, i := range occ[ix(-l)] {
				u, un, sat := 0, 0, false
				for _, m := range cls[i] {
					switch v(m) {
					case 1:
						sat = true
					case 0:
						un++
						u = m
					}
				}
				if sat {
					continue
				}
				if un == 0 {
					return false
				}
				if un == 1 {
					q = append(q, u)
				}
			}
		}
		return true
	}
	undo := func(n int) {
		for len(trail) > n {
			l := trail[len(trail)-1]
			trail = trail[:len(trail)-1]
			if l < 0 {
				val[-l] = 0
			} else {
				val[l] = 0
			}
		}
	}
	for _, k := range cls {
		if len(k) == 0 {
			return false
		}
		if len(k) == 1 && !assign(k[0]) {
			return false
		}
	}
	for _, a := range as {
		if !assign(a) {
			return false
		}
	}
	var rec func() bool
	rec = func() bool {
		best, bs := 0, -1
		for x := 1; x <= n; x++ {
			if val[x] != 0 {
				continue
			}
			sc := 0
			for _, l := range []int{x, -x} {
				for _, i := range occ[ix(l)] {
					un, sat := 0, false
					for _, m := range cls[i] {
						switch v(m) {
						case 1:
							sat = true
						case 0:
							un++
						}
					}
					if !sat && un == 2 {
						sc += 4
					} else if !sat {
						sc++
					}
				}
			}
			if sc > bs {
				best, bs = x, sc
			}
		}
		if best == 0 {
			return true
		}
		n0 := len(trail)
		for _, l := range []int{best, -best} {
			if assign(l) && rec() {
				return true
			}
			undo(n0)
		}
		return false
	}
	return rec()
}

func lit(l int) z.Lit { return z.Dimacs2Lit(l) }

// collect is an inter.Adder which keeps clauses.
type collect struct {
	cls [][]int
	cur []int
	max int
}

func (a *collect) Add(m z.Lit) {
	if m == 0 {
		a.cls = append(a.cls, a.cur)
		a.cur = nil
		return
	}
	d := m.Dimacs()
	a.cur = append(a.cur, d)
	if d < 0 {
		d = -d
	}
	if d > a.max {
		a.max = d
	}
}

var _ inter.Adder = (*collect)(nil)

func rand3(r *rand.Rand, n, m int, planted []bool) [][]int {
	var cls [][]int
	for len(cls) < m {
		k := make([]int, 3)
		sat := planted == nil
		for i := range k {
		again:
			x := r.Intn(n) + 1
			for j := 0; j < i; j++ {
				if k[j] == x || k[j] == -x {
					goto again
				}
			}
			if r.Intn(2) == 0 {
				x = -x
			}
			k[i] = x
			if planted != nil && (x > 0) == planted[abs(x)] {
				sat = true
			}
		}
		if sat {
			cls = append(cls, k)
		}
	}
	return cls
}

func abs(x int) int {
	if x < 0 {
		return -x
	}
	return x
}

// runBig solves larger instances incrementally: the answers are known from a
// planted model, from the kind of problem, or from dpll.
func runBig(c *Case) {
	r := c.R
	kind := r.Intn(4)
	s := &sess{c: c, g: gini.New()}
	if r.Intn(2) == 0 {
		s.eager(uint64(1 + r.Intn(60)))
	}
	g := s.g
	var cls [][]int
	n := 0
	var planted []bool
	switch kind {
	case 0:
		n = 60 + r.Intn(120)
		planted = make([]bool, n+1)
		for i := range planted {
			planted[i] = r.Intn(2) == 0
		}
		cls = rand3(r, n, int(4.3*float64(n)), planted)
	case 1, 2:
		n = 20 + r.Intn(20)
		cls = rand3(r, n, int((3.6+r.Float64())*float64(n)), nil)
	case 3:
		a := &collect{}
		p := 4 + r.Intn(3)
		h := p - 1 + r.Intn(2)
		gen.Php(a, p, h)
		cls, n = a.cls, a.max
	}
	c.Logf("instance kind %d, %d variables, %d clauses: %v", kind, n, len(cls), cls)
	cut := len(cls)
	if kind != 3 {
		cut = len(cls) * 3 / 4
	}
	add := func(ks [][]int) {
		for _, k := range ks {
			for _, l := range k {
				g.Add(lit(l))
			}
			g.Add(0)
		}
	}
	add(cls[:cut])
	cur := cls[:cut]
	rounds := 4 + r.Intn(12)
	for i := 0; i < rounds; i++ {
		if i == rounds/3 && cut < len(cls) {
			add(cls[cut:])
			cur = cls
			c.Logf("the rest of the clauses is added")
		}
		var as []int
		k := r.Intn(6)
		if planted != nil && r.Intn(2) == 0 {
			k = r.Intn(3)
		}
		for j := 0; j < k; j++ {
			x := r.Intn(n) + 1
			if planted != nil && r.Intn(8) != 0 {
				if !planted[x] {
					x = -x
				}
			} else if r.Intn(2) == 0 {
				x = -x
			}
			as = append(as, x)
			g.Assume(lit(x))
		}
		res := g.Solve()
		c.Logf("assume %v, solve: %d", as, res)
		c.Hit()
		switch res {
		case 1:
			val := func(l int) bool { return g.Value(lit(l)) }
			for _, a := range as {
				if !val(a) {
					c.FailIf("C02 C09", "the assumption %d is false in the model", a)
				}
			}
			for x := 1; x <= n && x <= int(g.MaxVar()); x++ {
				if val(x) == val(-x) {
					c.FailIf("C02 C10", "variable %d has no value", x)
				}
			}
			for _, k := range cur {
				ok := false
				for _, l := range k {
					ok = ok || val(l)
				}
				if !ok {
					c.FailIf("C02 C09", "the model breaks the clause %v", k)
				}
			}
		case -1:
			pl := planted != nil
			for _, a := range as {
				if planted != nil && (a > 0) != planted[abs(a)] {
					pl = false
				}
			}
			if pl {
				c.FailIf("C01 C09", "unsatisfiable, but the planted assignment is a model")
			}
			ws := g.Why(nil)
			var wl []int
			for _, m := range ws {
				in := false
				for _, a := range as {
					in = in || lit(a) == m
				}
				if !in {
					c.FailIf("C03", "failed assumption %s was not assumed", m)
				}
				wl = append(wl, m.Dimacs())
			}
			if planted != nil {
				pl := true
				for _, a := range wl {
					if (a > 0) != planted[abs(a)] {
						pl = false
					}
				}
				if pl {
					c.FailIf("C03", "the failed assumptions %v hold in the planted model", wl)
				}
			} else if n <= 40 {
				if c.Prop != "C03" && dpll(n, cur, as) {
					c.FailIf("C01 C09", "unsatisfiable, but there is a model")
				}
				if c.Prop == "C03" && dpll(n, cur, wl) {
					c.FailIf("C03", "the failed assumptions %v are consistent with the clauses", wl)
				}
			}
		default:
			c.FailIf("C10 C21", "Solve answers %d without a time limit", res)
		}
	}
}

// C21
func runTry(c *Case) {
	if c.Num%12 != 3 {
		runSession(c)
		return
	}
	r := c.R
	n := 130 + r.Intn(60)
	cls := rand3(r, n, int(4.26*float64(n)), nil)
	g := gini.New()
	for _, k := range cls {
		for _, l := range k {
			g.Add(lit(l))
		}
		g.Add(0)
	}
	c.Logf("random 3-cnf: %d variables: %v", n, cls)
	h := gini.New()
	for _, k := range cls {
		for _, l := range k {
			h.Add(lit(l))
		}
		h.Add(0)
	}
	want := h.Solve()
	timedOut := false
	for i := 0; i < 3; i++ {
		d := time.Duration(1+r.Intn(3000)) * time.Microsecond
		x := r.Intn(n) + 1
		g.Assume(lit(x))
		res := g.Try(d)
		c.Logf("assume %d; Try(%s): %d", x, d, res)
		if res == 0 {
			timedOut = true
		}
		if res == 1 {
			checkModel(c, g, cls, []int{x})
		}
		if res == -1 && want == 1 && h.Value(lit(x)) {
			c.FailIf("C01 C21", "Try answers unsatisfiable, but there is a model")
		}
	}
	if timedOut {
		time.Sleep(5 * time.Millisecond)
	}
	c.Hit()
	res := g.Solve()
	c.Logf("Solve(): %d", res)
	if res == 0 {
		c.FailIf("C21", "Solve answers unknown after an earlier Try")
	}
	if res != want {
		c.FailIf("C21", "Solve answers %d after an earlier Try, a new solver %d", res, want)
	}
	if res == 1 {
		checkModel(c, g, cls, nil)
	}
	res = g.GoSolve().Wait()
	if res != want {
		c.FailIf("C21", "GoSolve answers %d after an earlier Try, a new solver %d", res, want)
	}
	x := r.Intn(n) + 1
	g.Assume(lit(x))
	g.Add(lit(-x))
	g.Add(0)
	if res := g.Solve(); res != -1 {
		c.FailIf("C21 C02", "a contradictory assumption is answered %d", res)
	}
}

func checkModel(c *Case, g *gini.Gini, cls [][]int, as []int) {
	for _, k := range append(append([][]int(nil), cls...), func() (r [][]int) {
		for _, a := range as {
			r = append(r, []int{a})
		}
		return
	}()...) {
		ok := false
		for _, l := range k {
			ok = ok || g.Value(lit(l))
		}
		if !ok {
			c.FailIf("C02 C21", "the model breaks %v", k)
		}
	}
}

// C07
func replay(c *Case, mode string, num int, seed int64, n int, s *sess) *sess {
	s.c = &Case{R: rand.New(rand.NewSource(seed)), Prop: c.Prop, Num: num, Tier: c.Tier}
	w := map[string]int{"add": 10, "assume": 6, "solve": 4, "test": 3, "untest": 3, "act": 2, "deact": 1, "actassume": 2}
	for i := 0; i < n; i++ {
		s.step(w)
	}
	return s
}

func (s *sess) copyMeta(g *gini.Gini) *sess {
	o := *s
	o.g = g
	o.vmap = append([]z.Lit(nil), s.vmap...)
	o.rmap = map[z.Var]int{}
	for k, v := range s.rmap {
		o.rmap[k] = v
	}
	o.dead = map[z.Var]bool{}
	for k, v := range s.dead {
		o.dead[k] = v
	}
	o.acts = nil
	for _, a := range s.acts {
		b := *a
		b.cls = append([]BS(nil), a.cls...)
		o.acts = append(o.acts, &b)
	}
	o.pend = append([]int(nil), s.pend...)
	o.scopes = append([][]int(nil), s.scopes...)
	o.outs = append([][]z.Lit(nil), s.outs...)
	o.tr = nil
	return &o
}

func runCopy(c *Case) {
	r := c.R
	s1, s2, s3 := r.Int63(), r.Int63(), r.Int63()
	n1, n2, n3 := 5+r.Intn(40), 5+r.Intn(40), 5+r.Intn(40)
	eager := uint64(0)
	if r.Intn(2) == 0 {
		eager = uint64(1 + r.Intn(4))
	}
	start := func() *sess {
		cc := &Case{R: rand.New(rand.NewSource(s1)), Prop: c.Prop}
		s := newSess(cc, "C07")
		if eager > 0 {
			s.eager(eager)
		}
		return replay(c, "", 0, s1, n1, s)
	}
	guard := func(s *sess, f func()) (bad string) {
		defer func() {
			if e := recover(); e != nil {
				switch e := e.(type) {
				case skipCase:
					bad = "wrong answer"
				case failure:
					bad = e.msg
				default:
					bad = fmt.Sprint("panic: ", e)
				}
			}
		}()
		f()
		return ""
	}
	// the twin is never copied
	var twin *sess
	cc := &Case{Prop: "-"}
	bad := guard(nil, func() {
		twin = start()
		twin.tr = nil
		replay(c, "", 0, s2, n2, twin)
	})
	if bad != "" {
		// a defect without copying is not this property's
		panic(skipCase{})
	}
	_ = cc
	x := start()
	pre := x.c.log.String()
	y := x.copyMeta(x.g.Copy())
	w := x.copyMeta(x.g.SCopy().(*gini.Gini))
	x.tr = nil
	c.Logf("%s// y := g.Copy(); w := g.Copy()", pre)
	if d := deepDiff(x.g, y.g); d != "" {
		c.Fail("the copy differs from the original: %s", d)
	}
	if d := shared(x.g, y.g); d != "" {
		c.Fail("the copy shares memory with the original: %s", d)
	}
	c.Hit()
	// others use the copy and the original
	if bad := guard(y, func() { replay(c, "", 0, s3, n3, y) }); bad != "" {
		c.Logf("on the copy y:\n%s", y.c.log.String())
		c.Fail("the copy: %s", bad)
	}
	yl := y.c.log.String()
	if bad := guard(x, func() { replay(c, "", 0, s2, n2, x) }); bad != "" {
		c.Logf("on the copy y:\n%s// on the original:\n%s", yl, x.c.log.String())
		c.Fail("the original after its copy was used: %s", bad)
	}
	xl := x.c.log.String()
	if a, b := strings.Join(twin.tr, "\n"), strings.Join(x.tr, "\n"); a != b {
		c.Logf("on the copy y:\n%s// on the original:\n%s", yl, xl)
		c.Fail("the original answers differently after its copy was used; without the copy:\n%s\nwith it:\n%s", a, b)
	}
	if bad := guard(w, func() { replay(c, "", 0, s2, n2, w) }); bad != "" {
		c.Logf("on the original:\n%s// on the second copy:\n%s", xl, w.c.log.String())
		c.Fail("the second copy: %s", bad)
	}
	if a, b := strings.Join(twin.tr, "\n"), strings.Join(w.tr, "\n"); a != b {
		c.Logf("on the original:\n%s// on the second copy:\n%s", xl, w.c.log.String())
		c.Fail("a copy answers differently from the original; the original:\n%s\nthe copy:\n%s", a, b)
	}
}

var skipField = map[string]bool{"control": true, "gmu": true, "rmu": true, "Tracer": true, "Props": true, "MaxTail": true, "Conflicts": true, "Learnt": true, "LearntLits": true, "RedLits": true, "rescales": true, "guesses": true,
	"SLits": true, "CLits": true, "RLits": true, "Ms": true, "lates": true}

// deepDiff compares two solvers field by field; statistics and scratch
// space are left out, as are elements which a nil and an empty slice share.
func deepDiff(a, b interface{}) string {
	seen := map[uintptr]bool{}
	var rec func(p string, x, y reflect.Value) string
	rec = func(p string, x, y reflect.Value) string {
		switch x.Kind() {
		case reflect.Ptr:
			if x.IsNil() || y.IsNil() {
				if x.IsNil() != y.IsNil() {
					return p + " is nil in one of them"
				}
				return ""
			}
			if seen[x.Pointer()] {
				return ""
			}
			seen[x.Pointer()] = true
			return rec(p, x.Elem(), y.Elem())
		case reflect.Struct:
			if x.Type().PkgPath() == "time" || x.Type().PkgPath() == "sync" {
				return ""
			}
			for i := 0; i < x.NumField(); i++ {
				n := x.Type().Field(i).Name
				if skipField[n] || strings.HasPrefix(n, "st") && len(n) > 2 && n[2] >= 'A' && n[2] <= 'Z' {
					continue
				}
				if d := rec(p+"."+n, x.Field(i), y.Field(i)); d != "" {
					return d
				}
			}
		case reflect.Slice:
			if x.Len() != y.Len() {
				return fmt.Sprintf("%s has lengths %d and %d", p, x.Len(), y.Len())
			}
			for i := 0; i < x.Len(); i++ {
				if d := rec(fmt.Sprintf("%s[%d]", p, i), x.Index(i), y.Index(i)); d != "" {
					return d
				}
			}
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
			if x.Int() != y.Int() {
				return fmt.Sprintf("%s is %d and %d", p, x.Int(), y.Int())
			}
		case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			if x.Uint() != y.Uint() {
				return fmt.Sprintf("%s is %d and %d", p, x.Uint(), y.Uint())
			}
		case reflect.Bool:
			if x.Bool() != y.Bool() {
				return fmt.Sprintf("%s is %v and %v", p, x.Bool(), y.Bool())
			}
		case reflect.Float64:
			if x.Float() != y.Float() {
				return fmt.Sprintf("%s is %v and %v", p, x.Float(), y.Float())
			}
		}
		return ""
	}
	return rec("g", reflect.ValueOf(a), reflect.ValueOf(b))
}

// shared looks for slices, maps and objects which both reach.
func shared(a, b interface{}) string {
	type span struct {
		lo, hi uintptr
		p      string
	}
	col := func(v interface{}) map[uintptr]string {
		r := map[uintptr]string{}
		seen := map[uintptr]bool{}
		var rec func(p string, x reflect.Value)
		rec = func(p string, x reflect.Value) {
			switch x.Kind() {
			case reflect.Ptr:
				if x.IsNil() || seen[x.Pointer()] {
					return
				}
				seen[x.Pointer()] = true
				if x.Elem().Kind() == reflect.Struct && x.Elem().Type().Size() > 0 {
					r[x.Pointer()] = p
				}
				rec(p, x.Elem())
			case reflect.Struct:
				if x.Type().PkgPath() == "time" || x.Type().PkgPath() == "sync" {
					return
				}
				for i := 0; i < x.NumField(); i++ {
					n := x.Type().Field(i).Name
					if n == "control" || n == "Tracer" {
						continue
					}
					rec(p+"."+n, x.Field(i))
				}
			case reflect.Slice:
				if x.Cap() > 0 && x.Type().Elem().Size() > 0 {
					r[x.Pointer()] = p
				}
				if k := x.Type().Elem().Kind(); k == reflect.Slice || k == reflect.Ptr || k == reflect.Struct {
					for i := 0; i < x.Len(); i++ {
						rec(fmt.Sprintf("%s[%d]", p, i), x.Index(i))
					}
				}
			case reflect.Map:
				if !x.IsNil() {
					r[x.Pointer()] = p
				}
			}
		}
		rec("g", reflect.ValueOf(v))
		return r
	}
	ra, rb := col(a), col(b)
	for k, p := range ra {
		if q, ok := rb[k]; ok {
			return p + " and " + q
		}
	}
	return ""
}

// C10: the heap of variables
func runGuess(c *Case) {
	if c.Num%24 == 7 {
		runBig(c)
		return
	}
	s := newSess(c, c.Prop)
	s.wide = true
	n := 10 + c.R.Intn(50)
	for i := 0; i < n; i++ {
		s.step(mixes["C10"])
		s.heap()
	}
	for len(s.scopes) > 0 {
		s.untest()
	}
	s.solve()
	s.heap()
}

func (s *sess) heap() {
	v := reflect.ValueOf(s.g)
	vhp, ok1 := deep(v, "xo", "Guess", "vhp")
	pos, ok2 := deep(v, "xo", "Guess", "pos")
	heat, ok3 := deep(v, "xo", "Guess", "heat")
	vals, ok4 := deep(v, "xo", "Vars", "Vals")
	if !(ok1 && ok2 && ok3 && ok4) || vhp.Kind() != reflect.Slice || pos.Kind() != reflect.Slice || heat.Kind() != reflect.Slice || vals.Kind() != reflect.Slice {
		return
	}
	s.c.Hit()
	n := vhp.Len()
	in := map[z.Var]int{}
	ht := func(i int) float64 { return heat.Index(int(vhp.Index(i).Uint())).Float() }
	for i := 0; i < n; i++ {
		x := z.Var(vhp.Index(i).Uint())
		if _, ok := in[x]; ok {
			s.c.FailIf("C10", "variable %s is twice in the heap", x)
		}
		in[x] = i
		if int(pos.Index(int(x)).Int()) != i {
			s.c.FailIf("C10", "variable %s is at %d of the heap, its position is recorded as %d", x, i, pos.Index(int(x)).Int())
		}
		if i > 0 && ht(i) > ht((i-1)/2) {
			s.c.FailIf("C10", "the heap is out of order at %d", i)
		}
	}
	for x := 1; x <= int(s.g.MaxVar()); x++ {
		if _, ok := in[z.Var(x)]; !ok && vals.Index(2*x).Int() == 0 {
			s.c.FailIf("C10", "variable %d has no value and cannot be chosen", x)
		}
	}
}

// C09: clause memory
func runMem(c *Case) {
	if c.Num%24 == 7 {
		runBig(c)
		return
	}
	s := newSess(c, c.Prop)
	s.eager(uint64(1 + c.R.Intn(2)))
	var known map[string]int
	n := 20 + c.R.Intn(70)
	for i := 0; i < n; i++ {
		s.step(mixes["C09"])
		s.memory()
	}
	_ = known
	for len(s.scopes) > 0 {
		s.untest()
	}
	s.solve()
	s.memory()
}

func (s *sess) memory() {
	v := reflect.ValueOf(s.g)
	get := func(k reflect.Kind, p ...string) reflect.Value {
		x, ok := deep(v, p...)
		if !ok || x.Kind() != k {
			panic(noField{})
		}
		return x
	}
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(noField); ok {
				return
			}
			panic(r)
		}
	}()
	D := get(reflect.Slice, "xo", "Cdb", "CDat", "D")
	L := int(get(reflect.Int, "xo", "Cdb", "CDat", "Len").Int())
	added := get(reflect.Slice, "xo", "Cdb", "Added")
	learnts := get(reflect.Slice, "xo", "Cdb", "Learnts")
	watches := get(reflect.Slice, "xo", "Vars", "Watches")
	vals := get(reflect.Slice, "xo", "Vars", "Vals")
	reasons := get(reflect.Slice, "xo", "Vars", "Reasons")
	rmq := get(reflect.Slice, "xo", "Cdb", "gc", "rmq")
	removed := map[int]bool{}
	for i := 0; i < rmq.Len(); i++ {
		removed[int(rmq.Index(i).Uint())] = true
	}
	s.c.Hit()
	// walk the memory
	at := map[int][]z.Lit{}
	var locs []int
	for p := 1; p < L; {
		q := p
		var ms []z.Lit
		for q < L && D.Index(q).Uint() != 0 {
			ms = append(ms, z.Lit(D.Index(q).Uint()))
			q++
		}
		if q >= L {
			s.c.FailIf("C09", "the clause at %d is not ended before %d", p, L)
		}
		if h := D.Index(p-1).Uint() & 31; h != uint64(len(ms))&31 {
			s.c.FailIf("C09", "the clause %v at %d has size %d in its header", ms, p, h)
		}
		at[p] = ms
		locs = append(locs, p)
		p = q + 2
	}
	all := s.all()
	for _, a := range s.acts { // literals may be switched
		_ = a
	}
	imp := func(p int, what string) {
		ms, ok := at[p]
		if !ok {
			s.c.FailIf("C09", "%s denotes %d, where no clause begins", what, p)
		}
		ls := make([]int, 0, len(ms))
		for _, m := range ms {
			l, ok := s.logical(m)
			if !ok {
				return // an old activation literal
			}
			ls = append(ls, l)
		}
		if !all.and(bsClause(ls).not()).empty() {
			s.c.FailIf("C09", "%s denotes the clause %v at %d, which does not follow from the clauses added", what, ms, p)
		}
	}
	seen := map[int]bool{}
	cov := full
	for k, sl := range []reflect.Value{added, learnts} {
		for i := 0; i < sl.Len(); i++ {
			p := int(sl.Index(i).Uint())
			if removed[p] {
				continue
			}
			if seen[p] {
				s.c.FailIf("C09", "the clause at %d is listed twice", p)
			}
			seen[p] = true
			imp(p, "a clause list")
			if k == 0 {
				ls := []int{}
				known := true
				for _, m := range at[p] {
					l, ok := s.logical(m)
					known = known && ok
					ls = append(ls, l)
				}
				if known {
					cov = cov.and(bsClause(ls))
				}
			}
		}
	}
	if !cov.and(all.not()).empty() {
		s.c.FailIf("C09", "the added clauses kept in memory do not imply all clauses added")
	}
	// watches
	for i := 2; i < watches.Len(); i++ {
		ws := watches.Index(i)
		m := z.Lit(i)
		for j := 0; j < ws.Len(); j++ {
			p := int(uint32(ws.Index(j).Uint() >> 31))
			ms, ok := at[p]
			if !ok {
				s.c.FailIf("C09", "a watch of %s denotes %d, where no clause begins", m, p)
			}
			if removed[p] {
				s.c.FailIf("C09", "a watch of %s denotes the removed clause at %d", m, p)
			}
			if len(ms) < 2 || (ms[0] != m && ms[1] != m) {
				s.c.FailIf("C09", "a watch of %s denotes the clause %v at %d, which does not watch it", m, ms, p)
			}
		}
	}
	cnt := func(m z.Lit, p int) (n int) {
		ws := watches.Index(int(m))
		for j := 0; j < ws.Len(); j++ {
			if int(uint32(ws.Index(j).Uint()>>31)) == p {
				n++
			}
		}
		return
	}
	for p := range seen {
		ms := at[p]
		if len(ms) < 2 || removed[p] {
			continue
		}
		for _, m := range ms[:2] {
			if cnt(m, p) != 1 {
				s.c.FailIf("C09", "the clause %v at %d has %d watches for %s", ms, p, cnt(m, p), m)
			}
		}
	}
	// reasons
	for x := 1; x <= int(s.g.MaxVar()); x++ {
		p := int(reasons.Index(x).Uint())
		if p == 0 || vals.Index(2*x).Int() == 0 {
			continue
		}
		m := z.Var(x).Pos()
		if vals.Index(2*x).Int() < 0 {
			m = m.Not()
		}
		ms, ok := at[p]
		if !ok {
			s.c.FailIf("C09", "the reason of %s denotes %d, where no clause begins", m, p)
		}
		if len(ms) == 0 || ms[0] != m {
			s.c.FailIf("C09", "the reason of %s denotes the clause %v at %d", m, ms, p)
		}
		for _, o := range ms[1:] {
			if vals.Index(int(o)).Int() != -1 {
				s.c.FailIf("C09", "the reason %v of %s has the literal %s which is not false", ms, m, o)
			}
		}
	}
}

type noField struct{}
