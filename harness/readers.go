package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math"
	"math/rand"
	"strings"

	"github.com/go-air/gini"
	"github.com/go-air/gini/dimacs"
	"github.com/go-air/gini/z"
)

// chunks is a reader which cuts its input anywhere.
type chunks struct {
	b    []byte
	r    *rand.Rand
	mode int
	err  error // given at the end instead of io.EOF
	zero bool
}

func (k *chunks) Read(p []byte) (int, error) {
	end := io.EOF
	if k.err != nil {
		end = k.err
	}
	if len(k.b) == 0 {
		return 0, end
	}
	n := len(k.b)
	switch k.mode {
	case 1:
		n = 1
	case 2:
		n = 1 + k.r.Intn(4)
	case 3:
		n = 1 + k.r.Intn(40)
	}
	if k.zero && k.r.Intn(5) == 0 {
		return 0, nil
	}
	if n > len(k.b) {
		n = len(k.b)
	}
	n = copy(p, k.b[:n])
	k.b = k.b[n:]
	if len(k.b) == 0 && k.r.Intn(2) == 0 {
		return n, end
	}
	return n, nil
}

type cnfVis struct {
	init [][2]int
	lits []int
}

func (v *cnfVis) Init(n, c int) { v.init = append(v.init, [2]int{n, c}) }
func (v *cnfVis) Add(m z.Lit)   { v.lits = append(v.lits, m.Dimacs()) }
func (v *cnfVis) Eof()          {}

// icnf literals are recorded with a marker for assumptions.
type icnfVis struct{ ops []string }

func (v *icnfVis) Add(m z.Lit)    { v.ops = append(v.ops, fmt.Sprint("c", m.Dimacs())) }
func (v *icnfVis) Assume(m z.Lit) { v.ops = append(v.ops, fmt.Sprint("a", m.Dimacs())) }
func (v *icnfVis) Eof()           {}

type solVis struct{ ops []string }

func (v *solVis) Solution(r int) { v.ops = append(v.ops, fmt.Sprint("s", r)) }
func (v *solVis) Value(m z.Lit)  { v.ops = append(v.ops, fmt.Sprint("v", m.Dimacs())) }
func (v *solVis) Eof()           {}

// stripComments removes the lines which begin with c.
func stripComments(b []byte) []byte {
	var out []byte
	for len(b) > 0 {
		i := bytes.IndexByte(b, '\n')
		line := b
		if i >= 0 {
			line = b[:i+1]
		}
		if line[0] != 'c' {
			out = append(out, line...)
		}
		b = b[len(line):]
	}
	return out
}

func isWS(c byte) bool { return c == ' ' || c == '\n' || c == '\t' || c == '\r' }

// number parses a token; ok is false when it is no number in range.
func number(tok string) (int, bool) {
	s := tok
	if strings.HasPrefix(s, "-") {
		s = s[1:]
	}
	if len(s) == 0 {
		return 0, false
	}
	v := int64(0)
	for _, c := range []byte(s) {
		if c < '0' || c > '9' {
			return 0, false
		}
		v = v*10 + int64(c-'0')
		if v > math.MaxInt32 {
			return 0, false
		}
	}
	if tok[0] == '-' {
		v = -v
	}
	return int(v), true
}

func tokens(b []byte) []string {
	return strings.FieldsFunc(string(b), func(r rune) bool { return r == ' ' || r == '\n' || r == '\t' || r == '\r' })
}

// ambiguous inputs are those about which the format says nothing.
func ambiguous(b []byte) bool {
	for _, t := range tokens(b) {
		if t == "-0" || strings.HasPrefix(t, "-00") || t[0] == 'c' {
			return true
		}
		for _, c := range []byte(t) {
			if c < 32 || c > 126 {
				return true
			}
		}
	}
	return false
}

func refCnf(in []byte) (vars, cls int, lits []int, ok bool) {
	b := stripComments(in)
	vars, cls = -1, -1
	if len(b) > 0 && b[0] == 'p' {
		if !bytes.HasPrefix(b, []byte("p cnf ")) {
			return vars, cls, nil, false
		}
		b = b[6:]
		for i := 0; i < 2; i++ {
			for len(b) > 0 && isWS(b[0]) {
				b = b[1:]
			}
			j := 0
			for j < len(b) && !isWS(b[j]) {
				j++
			}
			n, good := number(string(b[:j]))
			if !good || n < 0 {
				return vars, cls, nil, false
			}
			b = b[j:]
			if i == 0 {
				vars = n
			} else {
				cls = n
			}
		}
	}
	for _, t := range tokens(b) {
		n, good := number(t)
		if !good {
			return vars, cls, lits, false
		}
		lits = append(lits, n)
	}
	return vars, cls, lits, true
}

func ints(r *rand.Rand) string {
	switch r.Intn(20) {
	case 0:
		return fmt.Sprint(math.MaxInt32)
	case 1:
		return fmt.Sprint(-math.MaxInt32)
	case 2:
		return fmt.Sprint(int64(math.MaxInt32) + 1 + int64(r.Intn(3)))
	case 3:
		return fmt.Sprint(uint64(1)<<63 + uint64(r.Intn(3)))
	case 4:
		return "18446744073709551617"
	case 5, 6:
		return fmt.Sprint(r.Intn(2000000) - 1000000)
	case 7:
		return "00" + fmt.Sprint(r.Intn(30))
	default:
		n := r.Intn(200) + 1
		if r.Intn(2) == 0 {
			n = -n
		}
		return fmt.Sprint(n)
	}
}

func goodInt(r *rand.Rand) string {
	for {
		s := ints(r)
		if n, ok := number(s); ok && n != 0 {
			return s
		}
	}
}

func ws(r *rand.Rand) string {
	s := ""
	for {
		s += []string{" ", " ", " ", "\n", "\t", "\r\n", "\n\n"}[r.Intn(7)]
		for s[len(s)-1] == '\n' && r.Intn(3) == 0 {
			s += "c" + []string{"", "c", " comment 1 2 0", "c c", "\r", "p cnf 1 2", strings.Repeat("x", r.Intn(70)), strings.Repeat("y", 4090+r.Intn(10))}[r.Intn(7+1/(1+r.Intn(40)))] + "\n"
		}
		if r.Intn(3) > 0 {
			return s
		}
	}
}

func mutate(r *rand.Rand, b []byte) []byte {
	if len(b) == 0 {
		return b
	}
	for k := 1 + r.Intn(2); k > 0 && len(b) > 0; k-- {
		i := r.Intn(len(b))
		switch r.Intn(4) {
		case 0:
			b = append(b[:i], b[i+1:]...)
		case 1:
			b[i] = "0123456789- \n\tcpa+.xv"[r.Intn(21)]
		case 2:
			b = append(b[:i], append([]byte{"0123456789- \n\tcpa+.xv"[r.Intn(21)]}, b[i:]...)...)
		default:
			b = b[:i]
		}
	}
	return b
}

func lead(r *rand.Rand) string {
	s := ""
	for r.Intn(2) == 0 {
		s += "c" + []string{"", " x", "c", " p cnf 3 4", "\t0"}[r.Intn(5)] + "\n"
	}
	return s
}

func runDimacs(c *Case) {
	r := c.R
	switch c.Num % 4 {
	case 0, 1:
		runReadCnf(c)
		return
	case 2:
		// solver output
		var b strings.Builder
		for k := r.Intn(6); k > 0; k-- {
			b.WriteString(lead(r))
			switch r.Intn(4) {
			case 0:
				b.WriteString("s " + []string{"SATISFIABLE", "UNSATISFIABLE", "UNKNOWN"}[r.Intn(3)] + "\n")
			default:
				b.WriteString("v")
				for i := r.Intn(5); i > 0; i-- {
					b.WriteString([]string{" ", "  ", "\t"}[r.Intn(3)] + goodInt(r))
				}
				if r.Intn(3) == 0 {
					b.WriteString(" 0")
				}
				b.WriteString([]string{"", " ", "\r"}[r.Intn(3)] + "\n")
			}
		}
		in := []byte(b.String())
		if len(in) > 0 && r.Intn(3) == 0 {
			in = in[:len(in)-1]
		}
		bad := false
		if r.Intn(3) == 0 {
			in = mutate(r, in)
		}
		var want []string
		for _, line := range strings.Split(string(stripComments(in)), "\n") {
			if line == "" {
				continue
			}
			switch line[0] {
			case 's':
				w, ok := map[string]string{"SATISFIABLE": "s1", "UNSATISFIABLE": "s-1", "UNKNOWN": "s0"}[strings.TrimSpace(line[1:])]
				if !ok && strings.TrimSpace(line[1:]) == "" {
					return
				}
				bad = bad || !ok
				want = append(want, w)
			case 'v':
				if ambiguous([]byte(line[1:])) {
					return
				}
				for _, t := range tokens([]byte(line[1:])) {
					n, ok := number(t)
					bad = bad || !ok
					want = append(want, fmt.Sprint("v", n))
				}
			default:
				if line[0] == ' ' || line[0] == '\t' || line[0] == '\r' {
					return
				}
				bad = true
			}
			if bad {
				break
			}
		}
		v := &solVis{}
		rd := &chunks{b: append([]byte(nil), in...), r: r, mode: r.Intn(4)}
		c.Logf("dimacs.ReadSolve of %q in pieces (mode %d)", in, rd.mode)
		e := dimacs.ReadSolve(rd, v)
		c.Hit()
		if bad != (e != nil) {
			c.FailIf("C17", "malformed is %v, but the error is %v", bad, e)
		}
		if !bad && fmt.Sprint(v.ops) != fmt.Sprint(want) {
			c.FailIf("C17", "read %v instead of %v", v.ops, want)
		}
	default:
		var b strings.Builder
		b.WriteString(lead(r) + "p inccnf\n" + lead(r))
		for k := r.Intn(6); k > 0; k-- {
			if r.Intn(3) == 0 {
				b.WriteString("a ")
			}
			for i := r.Intn(4); i > 0; i-- {
				b.WriteString(goodInt(r) + ws(r))
			}
			b.WriteString("0" + ws(r))
		}
		in := []byte(b.String())
		if r.Intn(3) == 0 {
			in = mutate(r, in)
		}
		s := stripComments(in)
		if !bytes.HasPrefix(s, []byte("p inccnf\n")) {
			v := &icnfVis{}
			rd := &chunks{b: append([]byte(nil), in...), r: r, mode: r.Intn(4)}
			c.Logf("dimacs.ReadICnf of %q", in)
			c.Hit()
			if e := dimacs.ReadICnf(rd, v); e == nil {
				c.FailIf("C17", "no error without a problem statement")
			}
			return
		}
		s = s[9:]
		if ambiguous(s) {
			return
		}
		var want []string
		bad, open, as := false, false, false
		for _, t := range tokens(s) {
			if t[0] == 'a' {
				if len(t) > 1 {
					return // a1
				}
				if open || as {
					bad = true
					break
				}
				as = true
				continue
			}
			n, ok := number(t)
			if !ok {
				bad = true
				break
			}
			if as {
				want = append(want, fmt.Sprint("a", n))
			} else {
				want = append(want, fmt.Sprint("c", n))
			}
			open = n != 0
			if !open {
				as = false
			}
		}
		if as && !open && !bad {
			return // a at the end
		}
		v := &icnfVis{}
		rd := &chunks{b: append([]byte(nil), in...), r: r, mode: r.Intn(4)}
		c.Logf("dimacs.ReadICnf of %q in pieces (mode %d)", in, rd.mode)
		e := dimacs.ReadICnf(rd, v)
		c.Hit()
		if bad != (e != nil) {
			c.FailIf("C17", "malformed is %v, but the error is %v", bad, e)
		}
		if !bad && fmt.Sprint(v.ops) != fmt.Sprint(want) {
			c.FailIf("C17", "read %v instead of %v", v.ops, want)
		}
	}
}

func runReadCnf(c *Case) {
	r := c.R
	var b strings.Builder
	b.WriteString(lead(r))
	n := r.Intn(7)
	var cls [][]string
	maxv := 0
	for i := 0; i < n; i++ {
		var k []string
		for j := r.Intn(4); j > 0; j-- {
			s := goodInt(r)
			if c.Num%8 < 4 {
				s = fmt.Sprint((r.Intn(2)*2 - 1) * (1 + r.Intn(9)))
			}
			x, _ := number(s)
			if abs(x) > maxv {
				maxv = abs(x)
			}
			k = append(k, s)
		}
		cls = append(cls, k)
	}
	if r.Intn(2) == 0 {
		hv, hc := maxv, n
		if r.Intn(4) == 0 {
			hv += r.Intn(3) - 1
		}
		if r.Intn(4) == 0 {
			hc += r.Intn(3) - 1
		}
		b.WriteString(fmt.Sprintf("p cnf %d %d", hv, hc) + ws(r))
	}
	for _, k := range cls {
		for _, s := range k {
			b.WriteString(s + ws(r))
		}
		b.WriteString("0" + ws(r))
	}
	in := []byte(b.String())
	if r.Intn(3) == 0 {
		for len(in) > 0 && isWS(in[len(in)-1]) {
			in = in[:len(in)-1]
		}
	}
	if r.Intn(3) == 0 {
		in = mutate(r, in)
	}
	if s := stripComments(in); len(s) > 0 && s[0] == 'p' {
		if len(s) > 6 && ambiguous(s[6:]) {
			return
		}
	} else if ambiguous(s) {
		return
	}
	hv, hc, want, ok := refCnf(in)
	rd := &chunks{b: append([]byte(nil), in...), r: r, mode: r.Intn(4), zero: r.Intn(4) == 0}
	if r.Intn(12) == 0 {
		rd.err = errors.New("failing reader")
	}
	strict := r.Intn(3) == 0
	v := &cnfVis{}
	c.Logf("dimacs.ReadCnfStrict of %q in pieces (mode %d), strict %v, error at the end: %v", in, rd.mode, strict, rd.err)
	var e error
	if strict {
		e = dimacs.ReadCnfStrict(rd, v, true)
	} else {
		e = dimacs.ReadCnf(rd, v)
	}
	c.Hit()
	good := ok
	if strict {
		mv, nc := 0, 0
		for _, l := range want {
			if abs(l) > mv {
				mv = abs(l)
			}
			if l == 0 {
				nc++
			}
		}
		if hv == -1 || hv != mv || hc != nc {
			good = false
		}
	}
	if rd.err != nil {
		if e == nil {
			c.FailIf("C17", "the error of the underlying reader is lost")
		}
		return
	}
	if good != (e == nil) {
		c.FailIf("C17", "well-formed is %v, but the error is %v", good, e)
	}
	if good || ok {
		if fmt.Sprint(v.lits) != fmt.Sprint(want) && e == nil {
			c.FailIf("C17", "read %v instead of %v", v.lits, want)
		}
		if hv != -1 && e == nil && (len(v.init) != 1 || v.init[0] != [2]int{hv, hc}) {
			c.FailIf("C17", "Init is called with %v", v.init)
		}
	}
	// what was handed on before an error is what was written
	for i, l := range v.lits {
		if i >= len(want) || want[i] != l {
			c.FailIf("C17", "handed on %v, the input has %v", v.lits, want)
		}
	}
	// the same through a solver
	small := hv < 1000 && hc < 1000
	for _, l := range want {
		small = small && abs(l) < 1000
	}
	if small && ok && (len(want) == 0 || want[len(want)-1] == 0) && !strict {
		g, e := gini.NewDimacs(&chunks{b: append([]byte(nil), in...), r: r, mode: r.Intn(4)})
		if e != nil {
			c.FailIf("C17", "gini.NewDimacs: %v", e)
		}
		var cl [][]int
		var cur []int
		mv := 1
		for _, l := range want {
			if abs(l) > mv {
				mv = abs(l)
			}
			if l == 0 {
				cl = append(cl, cur)
				cur = nil
			} else {
				cur = append(cur, l)
			}
		}
		want := -1
		if dpll(mv, cl, nil) {
			want = 1
		}
		if got := g.Solve(); got != want {
			c.FailIf("C17 C08", "the solver read from the file answers %d, not %d", got, want)
		}
	}
}

func runLits(c *Case) {
	r := c.R
	rv := func() z.Var {
		switch r.Intn(5) {
		case 0:
			return z.Var(1 + r.Intn(4))
		case 1:
			return z.Var(math.MaxInt32 - r.Intn(4))
		case 2:
			return z.Var(1<<uint(r.Intn(31)) + r.Intn(2))
		default:
			return z.Var(1 + r.Int31n(math.MaxInt32-1))
		}
	}
	for i := 0; i < 40; i++ {
		v, w := rv(), rv()
		p, n := v.Pos(), v.Neg()
		c.Hit()
		c.Logf("v = %d, w = %d", uint32(v), uint32(w))
		for _, m := range []z.Lit{p, n} {
			sgn := 1
			if m == n {
				sgn = -1
			}
			if m.Var() != v || m.IsPos() != (sgn == 1) || int(m.Sign()) != sgn || m == z.LitNull {
				c.FailIf("C18", "%d is a literal of variable %d with sign %d: Var %d, IsPos %v, Sign %d", uint32(m), v, sgn, m.Var(), m.IsPos(), m.Sign())
			}
			if m.Not().Not() != m || m.Not() == m || m.Not().Var() != v || m.Not().IsPos() == m.IsPos() {
				c.FailIf("C18", "the negation of %d is %d", uint32(m), uint32(m.Not()))
			}
			if m.Dimacs() != sgn*int(v) || z.Dimacs2Lit(m.Dimacs()) != m || z.Dimacs2Lit(sgn*int(v)) != m {
				c.FailIf("C18", "literal %d: Dimacs %d and back %d", uint32(m), m.Dimacs(), uint32(z.Dimacs2Lit(m.Dimacs())))
			}
			if m.String() != fmt.Sprint(sgn*int(v)) {
				c.FailIf("C18", "literal %d prints as %s", sgn*int(v), m)
			}
		}
		if v != w && (w.Pos() == p || w.Pos() == n || w.Neg() == p || w.Neg() == n) {
			c.FailIf("C18", "variables %d and %d share a literal", v, w)
		}
		if z.Dimacs2Lit(0) != z.LitNull || z.LitNull.Dimacs() != 0 {
			c.FailIf("C18", "0 and the null literal")
		}
	}
	// variable maps
	vs := z.NewVars()
	o2i := map[z.Var]z.Var{}
	i2o := map[z.Var]z.Var{}
	freed := map[z.Var]bool{}
	priv := map[z.Var]bool{}
	seen := func(i z.Var, what string) {
		if i == 0 {
			c.FailIf("C18", "%s is the null literal", what)
		}
		if o, ok := i2o[i]; ok {
			c.FailIf("C18", "%s is %d, which outer variable %d maps to", what, i, o)
		}
		if priv[i] && !freed[i] {
			c.FailIf("C18", "%s is %d, an inner variable in use", what, i)
		}
	}
	in := func(m z.Lit, n z.Lit, what string) {
		if n.IsPos() != m.IsPos() {
			c.FailIf("C18", "%s of %s is %s", what, m, n)
		}
		if i, ok := o2i[m.Var()]; ok {
			if i != n.Var() {
				c.FailIf("C18", "%s of %s is %s, before it was %s", what, m, n, i.Pos())
			}
			return
		}
		seen(n.Var(), what+" of "+m.String())
		if priv[n.Var()] {
			c.FailIf("C18", "%s of %s is %s, which was an inner variable", what, m, n)
		}
		o2i[m.Var()], i2o[n.Var()] = n.Var(), m.Var()
	}
	out := func(m, n z.Lit, what string) {
		o, ok := i2o[m.Var()]
		if !ok {
			if n != z.LitNull {
				// the map may have assigned variables below those asked for
				if x := vs.ToInner(n); x != m {
					c.FailIf("C18", "%s of the inner %s is %s, which maps to %s", what, m, n, x)
				}
				o2i[n.Var()], i2o[m.Var()] = m.Var(), n.Var()
			}
			return
		}
		if n.Var() != o || n.IsPos() != m.IsPos() {
			c.FailIf("C18", "%s of %s is %s, not a literal of %d", what, m, n, o)
		}
	}
	rl := func() z.Lit {
		m := z.Var(1 + r.Intn(1+r.Intn(60))).Pos()
		if r.Intn(2) == 0 {
			m = m.Not()
		}
		return m
	}
	for i := 3 + r.Intn(40); i > 0; i-- {
		c.Hit()
		switch r.Intn(8) {
		case 0, 1, 2:
			m := rl()
			n := vs.ToInner(m)
			c.Logf("vs.ToInner(%s) // %s", m, n)
			in(m, n, "ToInner")
		case 3:
			ms := []z.Lit{rl(), rl(), rl()}[:r.Intn(4)]
			sv := append([]z.Lit(nil), ms...)
			ns := vs.ToInners(ms)
			c.Logf("vs.ToInners(%v) // %v", sv, ns)
			if len(ns) != len(sv) {
				c.FailIf("C18", "ToInners of %v is %v", sv, ns)
			}
			for j := range sv {
				in(sv[j], ns[j], "ToInners")
			}
		case 4:
			m := rl()
			n := vs.ToOuter(m)
			c.Logf("vs.ToOuter(%s) // %s", m, n)
			out(m, n, "ToOuter")
		case 5:
			n := vs.Inner()
			c.Logf("vs.Inner() // %s", n)
			if !n.IsPos() {
				c.FailIf("C18", "Inner() is %s", n)
			}
			seen(n.Var(), "Inner()")
			priv[n.Var()], freed[n.Var()] = true, false
		case 6:
			for i := z.Var(1); i < 200; i++ {
				if priv[i] && !freed[i] {
					vs.Free(i.Pos())
					c.Logf("vs.Free(%s)", i.Pos())
					freed[i] = true
					break
				}
			}
		default:
			if r.Intn(3) == 0 {
				o := vs.Copy()
				c.Logf("o := vs.Copy(); vs, o = o, vs; o.ToInner(%d)...", 100)
				vs, o = o, vs
				o.ToInner(z.Var(70 + r.Intn(9)).Pos())
				o.Inner()
				continue
			}
			ms := []z.Lit{rl(), rl(), rl()}
			sv := append([]z.Lit(nil), ms...)
			var want []z.Lit
			for _, m := range sv {
				if n := vs.ToOuter(m); n != z.LitNull {
					want = append(want, n)
				}
			}
			ns := vs.ToOuters(ms)
			c.Logf("vs.ToOuters(%v) // %v", sv, ns)
			if fmt.Sprint(ns) != fmt.Sprint(want) && !(len(ns) == 0 && len(want) == 0) {
				c.FailIf("C18", "ToOuters of %v is %v, not %v", sv, ns, want)
			}
		}
	}
	for o, i := range o2i {
		if n := vs.ToInner(o.Neg()); n != i.Neg() {
			c.FailIf("C18", "ToInner(%s) is %s, before it was %s", o.Neg(), n, i.Neg())
		}
		if n := vs.ToOuter(i.Neg()); n != o.Neg() {
			c.FailIf("C18", "ToOuter(%s) is %s, not %s", i.Neg(), n, o.Neg())
		}
	}
}

func init() {
	checks["C17"] = &check{run: runDimacs, rule: "random cnf, icnf and solver output files with comments, all kinds of white space, extreme numbers and random damage, cut into reads anywhere; literals and errors compared with a separate parser."}
	checks["C18"] = &check{run: runLits, rule: "random and extreme variables through all conversions, and random histories of variable maps compared with a plain map."}
}
