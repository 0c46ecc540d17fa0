package main

import (
	"fmt"
	"reflect"

	"github.com/go-air/gini/logic"
	"github.com/go-air/gini/z"
)

// words are 64*len assignments at a time.
type words []uint64

func (w words) not() words {
	r := make(words, len(w))
	for i := range w {
		r[i] = ^w[i]
	}
	return r
}
func (w words) and(x words) words {
	r := make(words, len(w))
	for i := range w {
		r[i] = w[i] & x[i]
	}
	return r
}
func (w words) or(x words) words { return w.not().and(x.not()).not() }
func (w words) xor(x words) words {
	return w.and(x.not()).or(w.not().and(x))
}
func (w words) eq(x words) bool {
	for i := range w {
		if w[i] != x[i] {
			return false
		}
	}
	return true
}

// circ is a circuit with what each of its literals should compute.
type circ struct {
	c    *Case
	l    *logic.C
	s    *logic.S
	nw   int
	in   map[z.Var]words // inputs and latches
	lits []z.Lit         // literals handed out
	fun  []words
	name []string
	ins  []z.Lit
	gate int
	how  string
}

func newCirc(c *Case, seq bool, nw int) *circ {
	k := &circ{c: c, nw: nw, in: map[z.Var]words{}}
	capHint := -1
	if c.R.Intn(2) == 0 {
		capHint = []int{0, 1, 2, 3, 4, 5, 7, 8, 16, 33, 64}[c.R.Intn(11)]
	}
	switch {
	case seq && capHint < 0:
		k.s = logic.NewS()
		k.l = &k.s.C
		k.how = "p := logic.NewS()"
	case seq:
		k.s = logic.NewSCap(capHint)
		k.l = &k.s.C
		k.how = fmt.Sprintf("p := logic.NewSCap(%d)", capHint)
	case capHint < 0:
		k.l = logic.NewC()
		k.how = "p := logic.NewC()"
	default:
		k.l = logic.NewCCap(capHint)
		k.how = fmt.Sprintf("p := logic.NewCCap(%d)", capHint)
	}
	c.Logf("%s", k.how)
	t := make(words, nw)
	for i := range t {
		t[i] = ^uint64(0)
	}
	k.put(k.l.T, t, "p.T")
	k.put(k.l.F, t.not(), "p.F")
	return k
}

func (k *circ) put(m z.Lit, w words, name string) {
	k.lits = append(k.lits, m)
	k.fun = append(k.fun, w)
	k.name = append(k.name, name)
}

func (k *circ) rnd() words {
	w := make(words, k.nw)
	for i := range w {
		w[i] = k.c.R.Uint64()
	}
	return w
}

func (k *circ) input() z.Lit {
	m := k.l.Lit()
	k.newVar(m)
	k.ins = append(k.ins, m)
	k.c.Logf("%s := p.Lit()", m)
	return m
}

func (k *circ) newVar(m z.Lit) {
	if _, ok := k.in[m.Var()]; ok || m.Var() == 1 || !m.IsPos() || m == 0 {
		k.c.FailIf("C11", "a new input is %s, which is in use or not a positive literal of a variable", m)
	}
	w := k.rnd()
	k.in[m.Var()] = w
	k.put(m, w, m.String())
}

func (k *circ) latch() z.Lit {
	init := []z.Lit{k.s.F, k.s.T, z.LitNull}[k.c.R.Intn(3)]
	m := k.s.Latch(init)
	k.newVar(m)
	k.c.Logf("%s := p.Latch(%s)", m, init)
	return m
}

// pick chooses a literal.
func (k *circ) pick() (z.Lit, words) {
	n := len(k.lits)
	i := k.c.R.Intn(n)
	if k.c.R.Intn(3) > 0 && n > 12 {
		i = n - 1 - k.c.R.Intn(10)
	} else if k.c.R.Intn(4) > 0 && n > 2 {
		i = 2 + k.c.R.Intn(n-2)
	}
	if k.c.R.Intn(2) == 0 {
		return k.lits[i], k.fun[i]
	}
	return k.lits[i].Not(), k.fun[i].not()
}

// build makes one gate of a random kind.
func (k *circ) build() {
	r := k.c.R
	a, fa := k.pick()
	b, fb := k.pick()
	i, fi := k.pick()
	var m z.Lit
	var f words
	var s string
	switch r.Intn(10) {
	case 0, 1, 2:
		m, f, s = k.l.And(a, b), fa.and(fb), fmt.Sprintf("p.And(%s, %s)", a, b)
	case 3:
		m, f, s = k.l.Or(a, b), fa.or(fb), fmt.Sprintf("p.Or(%s, %s)", a, b)
	case 4, 5:
		m, f, s = k.l.Xor(a, b), fa.xor(fb), fmt.Sprintf("p.Xor(%s, %s)", a, b)
	case 6:
		m, f, s = k.l.Choice(i, a, b), fi.and(fa).or(fi.not().and(fb)), fmt.Sprintf("p.Choice(%s, %s, %s)", i, a, b)
	case 7:
		m, f, s = k.l.Implies(a, b), fa.not().or(fb), fmt.Sprintf("p.Implies(%s, %s)", a, b)
	default:
		n := r.Intn(5)
		ms := make([]z.Lit, n)
		and := r.Intn(2) == 0
		f = k.fun[1]
		if and {
			f = k.fun[0]
		}
		for j := range ms {
			var fj words
			ms[j], fj = k.pick()
			if and {
				f = f.and(fj)
			} else {
				f = f.or(fj)
			}
		}
		sv := append([]z.Lit(nil), ms...)
		if and {
			m, s = k.l.Ands(ms...), fmt.Sprintf("p.Ands(%v...)", sv)
		} else {
			m, s = k.l.Ors(ms...), fmt.Sprintf("p.Ors(%v...)", sv)
		}
		for j := range ms {
			if ms[j] != sv[j] {
				k.c.FailIf("C11", "%s changes its arguments to %v", s, ms)
			}
		}
	}
	k.c.Logf("%s := %s", m, s)
	k.put(m, f, s)
	k.gate++
}

// value computes the function of m by walking the circuit.
func (k *circ) value(memo map[z.Var]words, in map[z.Var]words, m z.Lit) words {
	v := m.Var()
	if v == 0 || int(v) >= k.l.Len() {
		k.c.FailIf("C11", "literal %s is not in the circuit of length %d", m, k.l.Len())
	}
	w, ok := memo[v]
	if !ok {
		if x, isIn := in[v]; isIn {
			w = x
		} else if v == 1 {
			w = k.fun[0]
		} else {
			a, b := k.l.Ins(v.Pos())
			if a < 2 || b < 2 {
				k.c.FailIf("C11", "variable %s is neither an input nor a gate: its operands are %s and %s", v, a, b)
			}
			if a.Var() >= v || b.Var() >= v {
				k.c.FailIf("C11", "gate %s has the operands %s and %s, which are not before it", v, a, b)
			}
			w = k.value(memo, in, a).and(k.value(memo, in, b))
		}
		memo[v] = w
	}
	if m.IsPos() {
		return w
	}
	return w.not()
}

// audit checks every literal handed out so far.
func (k *circ) audit(from int) {
	memo := map[z.Var]words{}
	for i := from; i < len(k.lits); i++ {
		k.c.Hit()
		if !k.value(memo, k.in, k.lits[i]).eq(k.fun[i]) {
			k.c.FailIf("C11", "%s does not compute %s", k.lits[i], k.name[i])
		}
	}
}

func (k *circ) grow(n int, seq bool) {
	r := k.c.R
	for i := 0; i < n; i++ {
		switch {
		case len(k.ins) < 2 || r.Intn(9) == 0:
			k.input()
		case seq && r.Intn(7) == 0:
			k.latch()
		default:
			k.build()
			k.check1()
		}
	}
}

func (k *circ) check1() {
	if k.c.Prop == "C11" {
		k.audit(len(k.lits) - 1)
	}
}

func (k *circ) setNexts() {
	for _, m := range k.s.Latches {
		if k.c.R.Intn(6) == 0 {
			continue
		}
		n, _ := k.pick()
		k.s.SetNext(m, n)
		k.c.Logf("p.SetNext(%s, %s)", m, n)
	}
}

func runGates(c *Case) {
	n := 5 + c.R.Intn(60)
	if c.R.Intn(8) == 0 {
		n = 100 + c.R.Intn(600)
	}
	seq := c.R.Intn(3) == 0
	k := newCirc(c, seq, 4)
	k.grow(n, seq)
	if seq && c.R.Intn(2) == 0 {
		k.setNexts()
	}
	k.audit(0)
	// copies are the same and go their own way
	if c.R.Intn(3) == 0 {
		d := *k
		if seq {
			d.s = k.s.Copy()
			d.l = &d.s.C
		} else {
			d.l = k.l.Copy()
		}
		c.Logf("q := p.Copy()")
		d.in = map[z.Var]words{}
		for v, w := range k.in {
			d.in[v] = w
		}
		d.lits, d.fun, d.name = append([]z.Lit(nil), k.lits...), append([]words(nil), k.fun...), append([]string(nil), k.name...)
		c.Logf("// on q:")
		d.grow(20, false)
		c.Logf("// on p:")
		k.grow(20, false)
		d.audit(0)
		k.audit(0)
	}
	// the same gate built again must still be right
	for i := 0; i < 10; i++ {
		k.build()
	}
	k.audit(0)
}

func runEval(c *Case) {
	n := 5 + c.R.Intn(60)
	if c.R.Intn(8) == 0 {
		n = 100 + c.R.Intn(400)
	}
	seq := c.R.Intn(3) == 0
	k := newCirc(c, seq, 1)
	k.grow(n, seq)
	if seq {
		k.setNexts()
	}
	k.audit(0)
	L := k.l.Len()
	v64 := make([]uint64, L+c.R.Intn(3))
	for i := range v64 {
		v64[i] = c.R.Uint64()
	}
	for v, w := range k.in {
		v64[v] = w[0]
	}
	k.l.Eval64(v64)
	memo := map[z.Var]words{}
	for i := 1; i < L; i++ {
		m := z.Var(i).Pos()
		if w := k.value(memo, k.in, m)[0]; v64[i] != w {
			c.FailIf("C13", "Eval64 gives %s the values %016x, it has %016x", m, v64[i], w)
		}
	}
	for t := 0; t < 6; t++ {
		b := uint([]int{0, 63, 1, 31, 32, c.R.Intn(64)}[t])
		vs := make([]bool, L+c.R.Intn(3))
		for i := range vs {
			vs[i] = c.R.Intn(2) == 0
		}
		for v, w := range k.in {
			vs[v] = w[0]>>b&1 == 1
		}
		k.l.Eval(vs)
		c.Hit()
		for i := 1; i < L; i++ {
			m := z.Var(i).Pos()
			if w := memo[m.Var()][0]>>b&1 == 1; vs[i] != w {
				c.FailIf("C13", "Eval gives %s the value %v, it has %v (input bits %d)", m, vs[i], w, b)
			}
		}
	}
}

func runCnf(c *Case) {
	n := 3 + c.R.Intn(25)
	if c.R.Intn(10) == 0 {
		n = 40 + c.R.Intn(200)
	}
	seq := c.R.Intn(4) == 0
	k := newCirc(c, seq, 1)
	k.grow(n, seq)
	if seq {
		k.setNexts()
	}
	k.audit(0)
	dst := &collect{}
	conv := map[z.Var]bool{1: true} // what must be defined now
	var mark func(m z.Lit)
	mark = func(m z.Lit) {
		v := m.Var()
		if conv[v] {
			return
		}
		conv[v] = true
		if _, ok := k.in[v]; ok {
			return
		}
		a, b := k.l.Ins(v.Pos())
		mark(a)
		mark(b)
	}
	switch mode := c.R.Intn(4); mode {
	case 0:
		k.l.ToCnf(dst)
		c.Logf("p.ToCnf(dst)")
		for i := 1; i < k.l.Len(); i++ {
			conv[z.Var(i)] = true
		}
	case 1:
		var rs []z.Lit
		for i := c.R.Intn(4); i > 0; i-- {
			m, _ := k.pick()
			rs = append(rs, m)
			mark(m)
		}
		k.l.ToCnfFrom(dst, rs...)
		c.Logf("p.ToCnfFrom(dst, %v...)", rs)
	default:
		var marks []int8
		switch c.R.Intn(4) {
		case 0:
			marks = make([]int8, c.R.Intn(k.l.Len()+3))
			marks = marks[:0]
		case 1:
			marks = make([]int8, c.R.Intn(k.l.Len()))
		case 2:
			// capacity with old contents beyond the length
			marks = make([]int8, k.l.Len()+10)
			for i := range marks {
				marks[i] = 1
			}
			marks = marks[:c.R.Intn(2)]
			if len(marks) > 0 {
				marks[0] = 0
			}
		}
		for t := 1 + c.R.Intn(4); t > 0; t-- {
			var rs []z.Lit
			for i := c.R.Intn(4); i > 0; i-- {
				m, _ := k.pick()
				rs = append(rs, m)
				mark(m)
			}
			c.Logf("mark, n = p.CnfSince(dst, mark (len %d cap %d), %v...)", len(marks), cap(marks), rs)
			before := len(marks)
			_ = before
			var cnt int
			marks, cnt = k.l.CnfSince(dst, marks, rs...)
			if len(marks) < k.l.Len() {
				c.FailIf("C12", "the returned marks have length %d, the circuit %d", len(marks), k.l.Len())
			}
			if cnt < 0 {
				c.FailIf("C12", "the number of nodes added is %d", cnt)
			}
			if t > 1 && c.R.Intn(2) == 0 {
				k.grow(1+c.R.Intn(10), false)
			}
		}
	}
	if len(dst.cur) > 0 {
		c.FailIf("C12", "the last clause is not terminated")
	}
	cls := dst.cls
	c.Hit()
	// every evaluation satisfies the clauses
	memo := map[z.Var]words{}
	for _, cl := range cls {
		w := uint64(0)
		for _, l := range cl {
			w |= k.value(memo, k.in, lit(l))[0]
		}
		if w != ^uint64(0) {
			c.FailIf("C12", "the clause %v is false in an evaluation of the circuit", cl)
		}
	}
	// a converted literal cannot have another value
	maxv := k.l.Len()
	for t := 0; t < 3; t++ {
		b := uint(c.R.Intn(64))
		var as []int
		for v, w := range k.in {
			if w[0]>>b&1 == 1 {
				as = append(as, int(v))
			} else {
				as = append(as, -int(v))
			}
		}
		for i := 1; i < k.l.Len(); i++ {
			v := z.Var(i)
			if _, isIn := k.in[v]; isIn || !conv[v] {
				continue
			}
			if c.R.Intn(1+k.l.Len()/20) > 0 {
				continue
			}
			l := i
			if k.value(memo, k.in, v.Pos())[0]>>b&1 == 1 {
				l = -i
			}
			c.Hit()
			if dpll(maxv, cls, append(append([]int(nil), as...), l)) {
				c.FailIf("C12", "with the inputs %v the clauses %v allow %d, which is not the value of the gate", as, cls, l)
			}
		}
	}
}

func runCard(c *Case) {
	k := newCirc(c, false, 4)
	pre := c.R.Intn(12)
	k.grow(2+pre, false)
	n := c.R.Intn(20)
	if c.R.Intn(10) == 0 {
		n = c.R.Intn(140)
	}
	ms := make([]z.Lit, n)
	fs := make([]words, n)
	uniqIn := c.R.Intn(2) == 0
	for i := range ms {
		if uniqIn {
			m := k.input()
			ms[i], fs[i] = m, k.in[m.Var()]
			if c.R.Intn(2) == 0 {
				// unbalanced inputs reach extreme counts
				x := k.rnd()
				f := k.in[m.Var()]
				for j := range f {
					if c.R.Intn(2) == 0 {
						f[j] |= x[j]
					} else {
						f[j] &= x[j]
					}
				}
			}
			if c.R.Intn(2) == 0 {
				ms[i], fs[i] = m.Not(), fs[i].not()
			}
		} else {
			ms[i], fs[i] = k.pick()
		}
	}
	// some words count exactly j from either side
	if uniqIn {
		for j := 0; j < 64; j++ {
			for i := range ms {
				f := k.in[ms[i].Var()]
				on := (i*7+j)%n < j%(n+1)
				if on == ms[i].IsPos() {
					f[0] |= 1 << uint(j)
				} else {
					f[0] &^= 1 << uint(j)
				}
			}
		}
		for i := range ms {
			fs[i] = k.in[ms[i].Var()]
			if !ms[i].IsPos() {
				fs[i] = fs[i].not()
			}
		}
	}
	sv := append([]z.Lit(nil), ms...)
	var cs *logic.CardSort
	if c.R.Intn(2) == 0 {
		cs = k.l.CardSort(ms)
		c.Logf("cs := p.CardSort(%v)", sv)
	} else {
		cs = logic.NewCardSort(ms, k.l)
		c.Logf("cs := logic.NewCardSort(%v, p)", sv)
	}
	if n > 0 && !reflect.DeepEqual(sv, ms) {
		c.FailIf("C14", "the literals to be counted are changed to %v", ms)
	}
	if c.R.Intn(2) == 0 {
		for i := range ms {
			ms[i] = z.LitNull // the caller's slice is the caller's
		}
	}
	if cs.N() != n {
		c.FailIf("C14", "N() is %d for %d literals", cs.N(), n)
	}
	cnt := make([][]int, k.nw)
	for i := range cnt {
		cnt[i] = make([]int, 64)
		for _, f := range fs {
			for b := 0; b < 64; b++ {
				cnt[i][b] += int(f[i] >> uint(b) & 1)
			}
		}
	}
	for b := -3; b <= n+3; b++ {
		if n > 30 && b > 3 && b < n-3 && c.R.Intn(4) > 0 {
			continue
		}
		for q := 0; q < 4; q++ {
			var m z.Lit
			var name string
			switch q {
			case 0:
				m, name = cs.Leq(b), "Leq"
			case 1:
				m, name = cs.Less(b), "Less"
			case 2:
				m, name = cs.Geq(b), "Geq"
			default:
				m, name = cs.Gr(b), "Gr"
			}
			c.Hit()
			w := k.value(map[z.Var]words{}, k.in, m)
			for i := range w {
				for j := 0; j < 64; j++ {
					x := cnt[i][j]
					want := [...]bool{x <= b, x < b, x >= b, x > b}[q]
					if want != (w[i]>>uint(j)&1 == 1) {
						c.FailIf("C14", "cs.%s(%d) = %s is %v when %d of the %d literals are true", name, b, m, !want, x, n)
					}
				}
			}
		}
	}
	// what was there before keeps its function
	if c.Prop == "C11" || !uniqIn {
		k.audit(0)
	}
}

func runRoll(c *Case) {
	k := newCirc(c, true, 1)
	k.grow(4+c.R.Intn(30), true)
	k.setNexts()
	s := k.s
	u := logic.NewRoll(s)
	c.Logf("u := logic.NewRoll(p)")
	T := 1 + c.R.Intn(9)
	// free values of the variables of the unrolling
	d := &circ{c: c, l: u.C, nw: 1, in: map[z.Var]words{}, fun: k.fun[:2]}
	type at struct {
		m z.Lit
		d int
		g z.Lit
	}
	var asked []at
	n := 1 + c.R.Intn(30)
	for i := 0; i < n; i++ {
		m, _ := k.pick()
		if c.R.Intn(4) == 0 && len(s.Latches) > 0 {
			m = s.Latches[c.R.Intn(len(s.Latches))]
		}
		t := c.R.Intn(T)
		g := u.At(m, t)
		c.Logf("u.At(%s, %d) // %s", m, t, g)
		asked = append(asked, at{m, t, g})
		if c.R.Intn(6) == 0 {
			// other uses of the combinational circuit
			x, y := asked[c.R.Intn(len(asked))].g, asked[c.R.Intn(len(asked))].g
			u.C.And(x, y.Not())
			if c.R.Intn(2) == 0 {
				u.C.Lit()
				c.Logf("u.C.Lit()")
			}
			c.Logf("u.C.And(%s, %s)", x, y.Not())
		}
	}
	for i := 2; i < u.C.Len(); i++ {
		a, b := u.C.Ins(z.Var(i).Pos())
		if a == 0 && b == 0 {
			d.in[z.Var(i)] = words{c.R.Uint64()}
		}
	}
	// inputs at the steps, and unknown initial values
	vals := map[[2]int]words{}
	owner := map[z.Var]string{}
	free := func(m z.Lit, t int) words {
		g := u.At(m, t)
		if w, ok := d.in[g.Var()]; ok {
			who := fmt.Sprintf("%s at %d", m, t)
			if o, ok := owner[g.Var()]; ok && o != who {
				c.FailIf("C15", "%s and %s are both the free variable %s", o, who, g)
			}
			owner[g.Var()] = who
			if g.IsPos() {
				return w
			}
			return w.not()
		}
		// not asked before
		a, b := u.C.Ins(g)
		if a != 0 || b != 0 || g.Var() == 1 {
			c.FailIf("C15", "%s at step %d should be free, but is %s with the operands %s and %s", m, t, g, a, b)
		}
		d.in[g.Var()] = words{c.R.Uint64()}
		owner[g.Var()] = fmt.Sprintf("%s at %d", m, t)
		if g.IsPos() {
			return d.in[g.Var()]
		}
		return d.in[g.Var()].not()
	}
	var val func(m z.Lit, t int) words
	val = func(m z.Lit, t int) words {
		v := m.Var()
		key := [2]int{int(v), t}
		w, ok := vals[key]
		if !ok {
			switch s.Type(v.Pos()) {
			case logic.SConst:
				w = k.fun[0]
			case logic.SInput:
				w = free(v.Pos(), t)
			case logic.SLatch:
				if t > 0 {
					w = val(s.Next(v.Pos()), t-1)
				} else {
					switch s.Init(v.Pos()) {
					case s.T:
						w = k.fun[0]
					case s.F:
						w = k.fun[1]
					default:
						w = free(v.Pos(), 0)
					}
				}
			default:
				a, b := s.Ins(v.Pos())
				w = val(a, t).and(val(b, t))
			}
			vals[key] = w
		}
		if m.IsPos() {
			return w
		}
		return w.not()
	}
	for _, q := range asked {
		c.Hit()
		want := val(q.m, q.d)
		got := d.value(map[z.Var]words{}, d.in, q.g)
		if !got.eq(want) {
			c.FailIf("C15", "u.At(%s, %d) = %s does not have the value of %s after %d steps", q.m, q.d, q.g, q.m, q.d)
		}
		if g := u.At(q.m, q.d); g != q.g {
			if !d.value(map[z.Var]words{}, d.in, g).eq(want) {
				c.FailIf("C15", "asked again, u.At(%s, %d) = %s does not have the value of %s after %d steps", q.m, q.d, g, q.m, q.d)
			}
		}
	}
}

func init() {
	checks["C11"] = &check{run: func(c *Case) {
		if c.Num%8 == 3 {
			runCard(c)
			return
		}
		runGates(c)
	}, rule: "random construction histories of circuits, sequential circuits, copies and sorting networks with random initial capacities; every literal handed out is evaluated over 256 random assignments of the inputs and compared with the function asked for."}
	checks["C12"] = &check{run: runCnf, rule: "random circuits converted whole, from roots, or incrementally with random marks; each clause is evaluated under 64 random evaluations, and each converted literal is shown to have no other value with a small DPLL procedure."}
	checks["C13"] = &check{run: runEval, rule: "random circuits; Eval64 on all variables with 64 random inputs and Eval at six bit positions, compared with a walk of the circuit."}
	checks["C14"] = &check{run: runCard, rule: "cardinality circuits over 0..139 random literals (inputs, gates, constants, repeated literals), all four comparisons with bounds from -3 to n+3, 256 assignments reaching all counts."}
	checks["C15"] = &check{run: runRoll, rule: "random sequential circuits of up to 34 nodes, up to 9 steps, signals asked in random order, compared with a simulation of the transition function for 64 random input sequences."}
}
