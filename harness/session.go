package main

import (
	"bytes"
	"fmt"
	"reflect"
	"sort"
	"time"
	"unsafe"

	"github.com/go-air/gini"
	"github.com/go-air/gini/z"
)

const nPlain = 8

type act struct {
	lit  z.Lit
	bit  int
	cls  []BS // with the literal not act
	raw  [][]int
	used int
}

// sess is one solver together with what the calls made so far mean.
type sess struct {
	c      *Case
	g      *gini.Gini
	vmap   []z.Lit // solver variable of logical variable i, 0: none yet
	rmap   map[z.Var]int
	cls    []BS
	raw    [][]int
	f      BS // models of the plain clauses
	acts   []*act
	dead   map[z.Var]bool
	pend   []int
	scopes [][]int
	outs   [][]z.Lit
	// the last test or solve said unsat and Untest did not return 0 since
	unsat    bool
	testUns  bool // the innermost scope was refused
	usedAct  bool
	usedTest bool
	untested bool
	usedTry  bool
	tr       []string // transcript of the answers
	sols     int
	tune     int
	quiet    bool
	wide     bool
}

func newSess(c *Case, mode string) *sess {
	s := &sess{c: c, vmap: make([]z.Lit, nPlain), rmap: map[z.Var]int{}, f: full.clone(), dead: map[z.Var]bool{}}
	switch c.R.Intn(3) {
	case 0:
		s.g = gini.New()
		c.Logf("g := gini.New()")
	case 1:
		n := c.R.Intn(20)
		s.g = gini.NewV(n)
		c.Logf("g := gini.NewV(%d)", n)
	default:
		n, m := c.R.Intn(20), c.R.Intn(30)
		s.g = gini.NewVc(n, m)
		c.Logf("g := gini.NewVc(%d, %d)", n, m)
	}
	return s
}

// deep gives access to a field by its path, also when it is not exported.
func deep(v reflect.Value, path ...string) (reflect.Value, bool) {
	for _, p := range path {
		for v.Kind() == reflect.Ptr || v.Kind() == reflect.Interface {
			if v.IsNil() {
				return v, false
			}
			v = v.Elem()
		}
		if v.Kind() != reflect.Struct {
			return v, false
		}
		v = v.FieldByName(p)
		if !v.IsValid() {
			return v, false
		}
		if v.CanAddr() {
			v = reflect.NewAt(v.Type(), unsafe.Pointer(v.UnsafeAddr())).Elem()
		}
	}
	return v, true
}

// eager makes the solver collect learned clauses very often; this is a
// parameter of the solver, not a change of its state.
func (s *sess) eager(n uint64) {
	v := reflect.ValueOf(s.g)
	if f, ok := deep(v, "xo", "Cdb", "gc", "factor"); ok && f.Kind() == reflect.Uint {
		if w, ok := deep(v, "xo", "Cdb", "gc", "stopWatch"); ok && w.Kind() == reflect.Uint {
			f.SetUint(n)
			w.SetUint(n)
			s.c.Logf("// clause collection every %d learned clauses or so", n)
			s.tune = int(n)
		}
	}
}

func (s *sess) lit(l int) z.Lit {
	i := l
	if i < 0 {
		i = -i
	}
	i--
	var m z.Lit
	if i < nPlain {
		if s.vmap[i] == 0 {
			s.introduce(i)
		}
		m = s.vmap[i]
	} else {
		for _, a := range s.acts {
			if a.bit == i {
				m = a.lit
			}
		}
	}
	if l < 0 {
		return m.Not()
	}
	return m
}

func (s *sess) introduce(i int) {
	r := s.c.R
	var m z.Lit
	if r.Intn(3) == 0 {
		m = s.g.Lit()
		s.c.Logf("%s := g.Lit()", m)
	} else {
		gap := 0
		switch r.Intn(6) {
		case 0:
			gap = r.Intn(4)
		case 1:
			gap = r.Intn(200)
		}
		if s.wide && r.Intn(3) == 0 {
			gap = r.Intn(3000)
		}
		m = (s.g.MaxVar() + 1 + z.Var(gap)).Pos()
		// a variable number is only ours when nothing else can take it
		for s.dead[m.Var()] {
			m = (m.Var() + 1).Pos()
		}
		// make it known at once, so that Lit does not return it as fresh
		for s.g.MaxVar() < m.Var() {
			s.g.Lit()
		}
		s.c.Logf("for g.MaxVar() < %d { g.Lit() }", m.Var())
	}
	if _, ok := s.rmap[m.Var()]; ok || s.dead[m.Var()] {
		s.c.FailIf("C06 C10", "a fresh variable %s is in use", m)
	}
	s.vmap[i] = m
	s.rmap[m.Var()] = i
}

func bsLit(l int) BS {
	if l < 0 {
		return patBits[-l-1].not()
	}
	return patBits[l-1]
}

func bsClause(ls []int) BS {
	r := make(BS, len(full))
	for _, l := range ls {
		r = r.or(bsLit(l))
	}
	return r
}

func bsCube(ls []int) BS {
	r := full
	for _, l := range ls {
		r = r.and(bsLit(l))
	}
	return r
}

// all is the set of models of the active clauses.
func (s *sess) all() BS {
	r := s.f
	for _, a := range s.acts {
		for _, k := range a.cls {
			r = r.and(k)
		}
	}
	return r
}

func (s *sess) open() BS {
	r := s.all()
	for _, sc := range s.scopes {
		r = r.and(bsCube(sc))
	}
	return r
}

func (s *sess) rlit() int {
	v := s.c.R.Intn(nPlain) + 1
	if s.c.R.Intn(2) == 0 {
		return -v
	}
	return v
}

func (s *sess) rclause(act bool) []int {
	n := []int{1, 2, 2, 2, 3, 3, 3, 3, 4, 5}[s.c.R.Intn(10)]
	if s.c.R.Intn(60) == 0 && !act {
		n = 0
	}
	ls := make([]int, n)
	for i := range ls {
		ls[i] = s.rlit()
	}
	return ls
}

func (s *sess) add(ls []int) {
	k := bsClause(ls)
	for _, l := range ls {
		s.lit(l)
	}
	for _, l := range ls {
		m := s.lit(l)
		s.c.Logf("g.Add(%s)", m)
		s.g.Add(m)
	}
	s.c.Logf("g.Add(0)")
	s.g.Add(0)
	s.f = s.f.and(k)
	s.raw = append(s.raw, ls)
	s.unsat = false
}

func (s *sess) freeBit() int {
	for b := nPlain; b < nPlain+3; b++ {
		ok := true
		for _, a := range s.acts {
			if a.bit == b {
				ok = false
			}
		}
		if ok {
			return b
		}
	}
	return -1
}

func (s *sess) checkActLit(m z.Lit) {
	if !m.IsPos() {
		s.c.FailIf("C06", "activation literal %s is negative", m)
	}
	if _, ok := s.rmap[m.Var()]; ok {
		s.c.FailIf("C06", "activation literal %s is in use", m)
	}
}

func (s *sess) activate() {
	s.usedAct = true
	var ls []int
	for try := 0; ; try++ {
		ls = s.rclause(true)
		if !s.all().and(bsClause(ls)).empty() {
			break
		}
		if try > 20 {
			return
		}
	}
	var a *act
	if len(s.acts) > 0 && s.c.R.Intn(3) == 0 {
		a = s.acts[s.c.R.Intn(len(s.acts))]
	}
	if a == nil {
		b := s.freeBit()
		if b < 0 {
			return
		}
		a = &act{bit: b}
		for _, l := range ls {
			s.lit(l)
		}
		if s.c.R.Intn(2) == 0 {
			for _, l := range ls {
				s.c.Logf("g.Add(%s)", s.lit(l))
				s.g.Add(s.lit(l))
			}
			a.lit = s.g.Activate()
			s.c.Logf("%s := g.Activate()", a.lit)
			s.checkActLit(a.lit)
			s.acts = append(s.acts, a)
			s.rmap[a.lit.Var()] = b
			delete(s.dead, a.lit.Var())
			a.cls = append(a.cls, bsClause(append(append([]int(nil), ls...), -(b+1))))
			s.unsat = false
			return
		}
		a.lit = s.g.ActivationLit()
		s.c.Logf("%s := g.ActivationLit()", a.lit)
		s.checkActLit(a.lit)
		s.acts = append(s.acts, a)
		s.rmap[a.lit.Var()] = b
		delete(s.dead, a.lit.Var())
	}
	for _, l := range ls {
		m := s.lit(l)
		s.c.Logf("g.Add(%s)", m)
		s.g.Add(m)
	}
	s.c.Logf("g.ActivateWith(%s)", a.lit)
	s.g.ActivateWith(a.lit)
	a.cls = append(a.cls, bsClause(append(append([]int(nil), ls...), -(a.bit+1))))
	s.unsat = false
}

func (s *sess) deactivate() {
	if len(s.acts) == 0 {
		return
	}
	i := s.c.R.Intn(len(s.acts))
	a := s.acts[i]
	for _, l := range s.pend {
		if l == a.bit+1 || l == -(a.bit+1) {
			return // a literal waiting to be assumed is still in use
		}
	}
	s.c.Logf("g.Deactivate(%s)", a.lit)
	s.g.Deactivate(a.lit)
	s.acts = append(s.acts[:i], s.acts[i+1:]...)
	delete(s.rmap, a.lit.Var())
	s.dead[a.lit.Var()] = true
	s.unsat = false
}

func (s *sess) assume(l int) {
	m := s.lit(l)
	s.c.Logf("g.Assume(%s)", m)
	s.g.Assume(m)
	s.pend = append(s.pend, l)
}

// bitOf translates a solver literal.
func (s *sess) logical(m z.Lit) (int, bool) {
	i, ok := s.rmap[m.Var()]
	if !ok {
		return 0, false
	}
	if m.IsPos() {
		return i + 1, true
	}
	return -(i + 1), true
}

func (s *sess) model(k BS, what string) {
	s.c.Hit()
	a := 0
	vars := make([]int, 0, len(s.rmap))
	byBit := map[int]z.Var{}
	for v, b := range s.rmap {
		vars = append(vars, b)
		byBit[b] = v
	}
	sort.Ints(vars)
	mask := 0
	str := ""
	for _, b := range vars {
		p, n := s.g.Value(byBit[b].Pos()), s.g.Value(byBit[b].Neg())
		if p == n {
			s.c.FailIf("C02 C10", "%s answers satisfiable, but variable %s has the values %v and %v", what, byBit[b], p, n)
		}
		mask |= 1 << uint(b)
		if p {
			a |= 1 << uint(b)
			str += " " + byBit[b].Pos().String()
		} else {
			str += " " + byBit[b].Neg().String()
		}
	}
	s.tr = append(s.tr, what+" model"+str)
	// other variables are free
	if !k.has(a) {
		props := "C02"
		if s.usedAct {
			props += " C06"
		}
		if s.usedTest {
			props += " C05"
		}
		if s.tune > 0 {
			props += " C09"
		}
		if s.usedTry {
			props += " C21"
		}
		s.c.FailIf(props, "%s answers satisfiable with the values%s, which break a clause or an assumption", what, str)
	}
}

func (s *sess) unsatOK(k BS, what string) {
	s.c.Hit()
	if !k.empty() {
		props := "C01"
		if s.usedAct {
			props += " C06"
		}
		if s.usedTest {
			props += " C05"
		}
		if s.tune > 0 {
			props += " C09"
		}
		if s.usedTry {
			props += " C21"
		}
		s.c.FailIf(props, "%s answers unsatisfiable, but there is a model: %s", what, s.show(k))
	}
}

func (s *sess) show(k BS) string {
	for i := 0; i < 1<<bits; i++ {
		if k.has(i) {
			r := ""
			for v, b := range s.rmap {
				if i>>uint(b)&1 == 1 {
					r += " " + v.Pos().String()
				} else {
					r += " " + v.Neg().String()
				}
			}
			return r
		}
	}
	return ""
}

func (s *sess) why(as []int, what string) {
	s.c.Hit()
	ws := s.g.Why(nil)
	s.tr = append(s.tr, fmt.Sprint("why ", ws))
	s.c.Logf("g.Why(nil) // %v", ws)
	var ls []int
	for _, m := range ws {
		l, ok := s.logical(m)
		in := false
		for _, a := range as {
			if ok && a == l {
				in = true
			}
		}
		if !in {
			s.c.FailIf("C03", "the failed assumption %s was not assumed in %s (assumed: %v)", m, what, s.lits(as))
		}
		ls = append(ls, l)
	}
	if !s.all().and(bsCube(ls)).empty() {
		s.c.FailIf("C03", "the failed assumptions %v of %s are not contradictory with the clauses", ws, what)
	}
}

func (s *sess) lits(ls []int) (r []z.Lit) {
	for _, l := range ls {
		r = append(r, s.lit(l))
	}
	return
}

func (s *sess) scopeLits() (r []int) {
	for _, sc := range s.scopes {
		r = append(r, sc...)
	}
	return
}

func (s *sess) solve() {
	k := s.open().and(bsCube(s.pend))
	as := append(s.scopeLits(), s.pend...)
	s.pend = nil
	var r int
	how := s.c.R.Intn(8)
	switch {
	case how == 0:
		r = s.g.Try(time.Hour)
		s.c.Logf("g.Try(time.Hour) // %d", r)
		s.usedTry = true
	case how == 1:
		r = s.g.GoSolve().Wait()
		s.c.Logf("g.GoSolve().Wait() // %d", r)
	default:
		r = s.g.Solve()
		s.c.Logf("g.Solve() // %d", r)
	}
	s.sols++
	s.tr = append(s.tr, fmt.Sprint("solve ", r))
	s.unsat = r == -1
	switch r {
	case 1:
		s.model(k, "Solve")
	case -1:
		s.unsatOK(k, "Solve")
		if s.c.R.Intn(2) == 0 {
			s.why(as, "Solve")
			if s.c.R.Intn(4) == 0 {
				s.why(as, "Solve")
			}
		}
	default:
		s.c.FailIf("C10 C21", "Solve answers %d without a time limit", r)
	}
}

// trueLits are the literals the solver reports as true.
func (s *sess) trueLits() (r []z.Lit) {
	for v := range s.rmap {
		if s.g.Value(v.Pos()) {
			r = append(r, v.Pos())
		}
		if s.g.Value(v.Neg()) {
			r = append(r, v.Neg())
		}
	}
	sort.Slice(r, func(i, j int) bool { return r[i] < r[j] })
	return
}

func (s *sess) implied(k BS, m z.Lit) bool {
	l, ok := s.logical(m)
	if !ok {
		return true
	}
	return k.and(bsLit(-l)).empty()
}

func (s *sess) test() {
	s.usedTest = true
	s.scopes = append(s.scopes, s.pend)
	s.pend = nil
	k := s.open()
	var dst []z.Lit
	if s.c.R.Intn(2) == 0 {
		dst = make([]z.Lit, 0, 2)
	} else {
		dst = make([]z.Lit, 3, 64)
	}
	r, out := s.g.Test(dst)
	s.c.Logf("g.Test(dst) // %d %v", r, out)
	s.tr = append(s.tr, fmt.Sprint("test ", r, out))
	s.outs = append(s.outs, append([]z.Lit(nil), out...))
	if r == -1 {
		s.outs[len(s.outs)-1] = nil
		s.unsat, s.testUns = true, true
		s.unsatOK(k, "Test")
		if s.c.R.Intn(2) == 0 {
			s.why(s.scopeLits(), "Test")
		}
		return
	}
	if r == 1 {
		s.model(k, "Test")
	}
	for _, m := range out {
		s.c.Hit()
		if !s.implied(k, m) {
			s.c.FailIf("C04", "Test reports %s, which is not implied by the clauses and the open scopes", m)
		}
		if !s.g.Value(m) {
			s.c.FailIf("C04", "Test reports %s, which is not true", m)
		}
	}
	s.values(k, "Test")
	// the assumptions of the open scopes hold
	if !k.empty() {
		for _, l := range s.scopeLits() {
			if !s.g.Value(s.lit(l)) {
				s.c.FailIf("C04 C05", "after Test the assumed literal %s does not hold", s.lit(l))
			}
		}
	}
	s.reasons()
}

func (s *sess) values(k BS, what string) {
	props := "C04"
	if s.untested {
		props = "C04 C05"
	}
	if what == "Untest" {
		props = "C05"
	}
	for _, m := range s.trueLits() {
		s.c.Hit()
		if !s.implied(k, m) {
			s.c.FailIf(props, "after %s the literal %s is true, which is not implied by the clauses and the open scopes %v", what, m, s.lits(s.scopeLits()))
		}
	}
}

func (s *sess) reasons() {
	g := map[z.Lit][]z.Lit{}
	assumed := map[z.Lit]bool{}
	for _, l := range s.scopeLits() {
		assumed[s.lit(l)] = true
	}
	for _, o := range s.outs {
		for _, m := range o {
			if _, ok := s.logical(m); !ok {
				continue
			}
			var rs []z.Lit
			if s.c.R.Intn(2) == 0 {
				rs = s.g.Reasons(nil, m)
			} else {
				rs = s.g.Reasons(make([]z.Lit, 1, 8), m)
			}
			s.c.Hit()
			g[m] = append([]z.Lit(nil), rs...)
			k := s.all()
			skip := false
			for _, n := range rs {
				l, ok := s.logical(n)
				if !ok {
					skip = true
					continue
				}
				if !s.g.Value(n) {
					s.c.FailIf("C04", "the reason %s of %s is not true", n, m)
				}
				k = k.and(bsLit(l))
			}
			if skip || (len(rs) == 0 && assumed[m]) {
				continue
			}
			if !s.implied(k, m) {
				s.c.FailIf("C04", "the reasons %v of %s do not imply it", rs, m)
			}
		}
	}
	state := map[z.Lit]int{}
	var dfs func(m z.Lit) bool
	dfs = func(m z.Lit) bool {
		if state[m] == 1 {
			return false
		}
		if state[m] == 2 {
			return true
		}
		state[m] = 1
		for _, n := range g[m] {
			if !dfs(n) {
				return false
			}
		}
		state[m] = 2
		return true
	}
	for m := range g {
		if !dfs(m) {
			s.c.FailIf("C04", "the reasons are cyclic at %s", m)
		}
	}
}

func (s *sess) untest() {
	r := s.g.Untest()
	s.c.Logf("g.Untest() // %d", r)
	s.tr = append(s.tr, fmt.Sprint("untest ", r))
	s.scopes = s.scopes[:len(s.scopes)-1]
	s.outs = s.outs[:len(s.outs)-1]
	s.untested, s.testUns = true, false
	k := s.open()
	s.c.Hit()
	if r == -1 {
		s.unsat = true
		if !k.empty() {
			s.c.FailIf("C01 C05", "Untest answers that the clauses with the remaining scopes are inconsistent, but there is a model")
		}
		return
	}
	s.unsat = false
	s.values(k, "Untest")
}

// stay ends a walk when the clauses got contradictory too early.
func (s *sess) step(w map[string]int) {
	ks := make([]string, 0, len(w))
	t := 0
	for k := range w {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		t += w[k]
	}
	n := s.c.R.Intn(t)
	op := ""
	for _, k := range ks {
		if n < w[k] {
			op = k
			break
		}
		n -= w[k]
	}
	depth := len(s.scopes)
	switch op {
	case "add":
		if depth > 0 {
			return
		}
		ls := s.rclause(false)
		if s.f.and(bsClause(ls)).empty() && s.c.R.Intn(12) != 0 {
			return
		}
		s.add(ls)
	case "act":
		if depth == 0 {
			s.activate()
		}
	case "deact":
		if depth == 0 {
			s.deactivate()
		}
	case "assume":
		s.assume(s.rlit())
	case "actassume":
		if len(s.acts) > 0 {
			a := s.acts[s.c.R.Intn(len(s.acts))]
			s.assume(a.bit + 1)
		}
	case "solve":
		if s.testUns {
			return
		}
		s.solve()
	case "test":
		if s.testUns || (s.unsat && depth > 0) || s.all().empty() {
			return
		}
		if depth < 5 {
			s.test()
		}
	case "untest":
		if depth > 0 {
			s.untest()
		}
	}
}

func (s *sess) walk(w map[string]int, n int) {
	for i := 0; i < n; i++ {
		s.step(w)
	}
	for len(s.scopes) > 0 {
		s.untest()
	}
	s.solve()
}

var mixes = map[string]map[string]int{
	"C01": {"add": 14, "assume": 6, "solve": 6, "test": 2, "untest": 2, "act": 1, "deact": 1, "actassume": 1},
	"C02": {"add": 14, "assume": 6, "solve": 6, "test": 2, "untest": 2, "act": 1, "deact": 1, "actassume": 1},
	"C03": {"add": 14, "assume": 9, "solve": 5, "test": 2, "untest": 2, "act": 1, "actassume": 1},
	"C04": {"add": 12, "assume": 6, "solve": 2, "test": 6, "untest": 4, "act": 1, "actassume": 1},
	"C05": {"add": 10, "assume": 7, "solve": 4, "test": 6, "untest": 5},
	"C06": {"add": 4, "assume": 3, "solve": 6, "test": 1, "untest": 1, "act": 6, "deact": 3, "actassume": 5},
	"C10": {"add": 14, "assume": 6, "solve": 6, "test": 1, "untest": 1},
	"C21": {"add": 12, "assume": 5, "solve": 6},
	"C09": {"add": 10, "assume": 5, "solve": 6, "test": 1, "untest": 1, "act": 3, "deact": 2, "actassume": 3},
}

func runSession(c *Case) {
	if c.Num%24 == 7 {
		runBig(c)
		return
	}
	s := newSess(c, c.Prop)
	if c.Prop == "C10" {
		s.wide = true
	}
	if c.R.Intn(3) == 0 || c.Prop == "C09" {
		s.eager(uint64(1 + c.R.Intn(3)))
	}
	pre := c.R.Intn(16)
	for i := 0; i < pre; i++ {
		ls := s.rclause(false)
		if len(ls) < 2 || s.f.and(bsClause(ls)).empty() {
			continue
		}
		s.add(ls)
	}
	s.walk(mixes[c.Prop], 5+c.R.Intn(60))
}

const sessRule = "random histories of at most 80 calls (adding clauses, assuming, solving, testing, untesting, activating, deactivating) on at most 8 variables and 3 activation literals, answers compared with truth tables; every 24th case is one of larger instances with a known answer. Counted when at least one answer was compared and the history is new."

func init() {
	for _, p := range []string{"C01", "C02", "C03", "C04", "C05", "C06"} {
		checks[p] = &check{run: runSession, rule: sessRule}
	}
	checks["C10"] = &check{run: runGuess, rule: sessRule + " Sizes and growth vary more; the heap of unassigned variables is inspected after each call where its fields are found."}
	checks["C09"] = &check{run: runMem, rule: sessRule + " Clause collection is made eager; clause memory is inspected after each call where its fields are found."}
	checks["C21"] = &check{run: runTry, rule: sessRule + " Besides, attempts with short limits on hard instances, followed by unlimited solving."}
	checks["C07"] = &check{run: runCopy, rule: "a random history, a copy, then the same or different histories on the original and the copy; the original must answer like a twin which was never copied, the copy like the original."}
	checks["C08"] = &check{run: runWrite, rule: "a random history, then the written text is parsed and its models compared with those of the active clauses by truth tables"}
}

// the written problem
func parseCnf(b []byte) (nv, nc int, cls [][]int, err error) {
	lines := bytes.Split(b, []byte("\n"))
	if len(lines) == 0 {
		return 0, 0, nil, fmt.Errorf("empty")
	}
	var rest string
	if n, e := fmt.Sscanf(string(lines[0]), "p cnf %d %d%s", &nv, &nc, &rest); n != 2 || (e == nil) {
		return 0, 0, nil, fmt.Errorf("header %q", lines[0])
	}
	var cur []int
	for i, l := range lines[1:] {
		if i == len(lines)-2 {
			if len(l) != 0 {
				return 0, 0, nil, fmt.Errorf("no newline at the end")
			}
			break
		}
		for _, f := range bytes.Fields(l) {
			var x int
			var extra string
			if n, _ := fmt.Sscanf(string(f), "%d%s", &x, &extra); n != 1 {
				return 0, 0, nil, fmt.Errorf("bad number %q", f)
			}
			if x == 0 {
				cls = append(cls, cur)
				cur = nil
				continue
			}
			cur = append(cur, x)
		}
	}
	if cur != nil {
		return 0, 0, nil, fmt.Errorf("the last clause is not ended")
	}
	return
}

type errWriter struct {
	left int
}

func (w *errWriter) Write(p []byte) (int, error) {
	if w.left >= len(p) {
		w.left -= len(p)
		return len(p), nil
	}
	n := w.left
	w.left = 0
	return n, fmt.Errorf("full")
}

func runWrite(c *Case) {
	s := newSess(c, "C08")
	if c.R.Intn(3) == 0 {
		s.eager(uint64(1 + c.R.Intn(3)))
	}
	w := map[string]int{"add": 10, "assume": 3, "solve": 2, "act": 2, "deact": 2, "actassume": 2, "test": 1, "untest": 1}
	n := c.R.Intn(30)
	for i := 0; i < n; i++ {
		s.step(w)
	}
	var buf bytes.Buffer
	e := s.g.Write(&buf)
	c.Logf("g.Write(&buf)\n%s", buf.String())
	c.Hit()
	if e != nil {
		c.Fail("Write returns the error %v", e)
	}
	nv, nc, cls, e := parseCnf(buf.Bytes())
	if e != nil {
		c.Fail("the written text is malformed: %v", e)
	}
	if nc != len(cls) {
		c.Fail("the header says %d clauses, the file has %d", nc, len(cls))
	}
	// dead variables get the spare bits
	bit := map[int]int{}
	var extra []int
	got := full
	next := 0
	free := []int{}
	used := map[int]bool{}
	for _, b := range s.rmap {
		used[b] = true
	}
	for b := 0; b < bits; b++ {
		if !used[b] {
			free = append(free, b)
		}
	}
	for _, k := range cls {
		var ls []int
		for _, x := range k {
			v := x
			if v < 0 {
				v = -v
			}
			if v > nv {
				c.Fail("the header says %d variables, the file has variable %d", nv, v)
			}
			b, ok := s.rmap[z.Var(v)]
			if !ok {
				if b, ok = bit[v]; !ok {
					if next == len(free) {
						return
					}
					b = free[next]
					next++
					bit[v] = b
					extra = append(extra, b)
				}
			}
			if x < 0 {
				ls = append(ls, -(b + 1))
			} else {
				ls = append(ls, b+1)
			}
		}
		got = got.and(bsClause(ls))
	}
	for _, b := range extra {
		got = got.exists(b)
	}
	if want := s.all(); !got.eq(want) {
		c.Fail("the clauses written have other models than the active clauses")
	}
	// read it back
	h, e := gini.NewDimacs(bytes.NewReader(buf.Bytes()))
	if e != nil {
		c.Fail("the written text is not read back: %v", e)
	}
	for i := 0; i < 6; i++ {
		k := s.all()
		for v, b := range s.rmap {
			switch c.R.Intn(3) {
			case 0:
				h.Assume(v.Pos())
				k = k.and(bsLit(b + 1))
			case 1:
				h.Assume(v.Neg())
				k = k.and(bsLit(-(b + 1)))
			}
		}
		r := h.Solve()
		if (r == 1) == k.empty() {
			c.Fail("the problem read back answers %d", r)
		}
	}
	// errors of the writer are not lost
	if buf.Len() > 0 {
		w := &errWriter{left: c.R.Intn(buf.Len())}
		if e := s.g.Write(w); e == nil {
			c.Fail("Write loses the error of the writer")
		}
	}
}
