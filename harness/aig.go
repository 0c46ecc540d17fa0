package main

import (
	"bytes"
	"fmt"
	"strconv"
	"strings"

	"github.com/go-air/gini/logic"
	"github.com/go-air/gini/logic/aiger"
	"github.com/go-air/gini/z"
)

// aig is an AIGER file read by the harness.
type aig struct {
	hdr     [9]int
	ins     []uint
	latches [][3]uint // literal, next, init: 0, 1 or the literal
	groups  [5][]uint // outputs, bad, constraints, justice (flat), fair
	jus     []int
	ands    map[uint][2]uint
	syms    map[string]string
}

const (
	gOut = iota
	gBad
	gCon
	gJus
	gFair
)

type aigErr string

func parseAig(b []byte) (a *aig, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(aigErr); ok {
				err = fmt.Errorf("%s", string(e))
				return
			}
			err = fmt.Errorf("malformed: %v", r)
		}
	}()
	a = &aig{ands: map[uint][2]uint{}, syms: map[string]string{}}
	pos := 0
	line := func() string {
		i := bytes.IndexByte(b[pos:], '\n')
		if i < 0 {
			panic(aigErr(fmt.Sprintf("no end of line after %d bytes", pos)))
		}
		s := string(b[pos : pos+i])
		pos += i + 1
		return s
	}
	nums := func(s string, lo, hi int) []uint {
		f := strings.Split(s, " ")
		if len(f) < lo || len(f) > hi {
			panic(aigErr(fmt.Sprintf("the line %q has %d fields", s, len(f))))
		}
		var us []uint
		for _, t := range f {
			u, e := strconv.ParseUint(t, 10, 32)
			if e != nil {
				panic(aigErr(fmt.Sprintf("the line %q has the field %q", s, t)))
			}
			us = append(us, uint(u))
		}
		return us
	}
	h := line()
	if len(h) < 4 || (h[:4] != "aag " && h[:4] != "aig ") {
		panic(aigErr("the header is " + h))
	}
	bin := h[:4] == "aig "
	for i, u := range nums(h[4:], 5, 9) {
		a.hdr[i] = int(u)
	}
	M, I, L, O, A := a.hdr[0], a.hdr[1], a.hdr[2], a.hdr[3], a.hdr[4]
	if M < I+L+A {
		panic(aigErr(fmt.Sprintf("header: %d variables for %d inputs, %d latches and %d gates", M, I, L, A)))
	}
	def := map[uint]bool{0: true}
	define := func(u uint) {
		if u&1 == 1 || u == 0 || u > uint(2*M) || def[u] {
			panic(aigErr(fmt.Sprintf("literal %d is defined twice or cannot be defined", u)))
		}
		def[u] = true
	}
	for i := 0; i < I; i++ {
		u := uint(2 * (i + 1))
		if !bin {
			u = nums(line(), 1, 1)[0]
		}
		define(u)
		a.ins = append(a.ins, u)
	}
	for i := 0; i < L; i++ {
		var l [3]uint
		if bin {
			us := nums(line(), 1, 2)
			l[0], l[1] = uint(2*(I+i+1)), us[0]
			if len(us) > 1 {
				l[2] = us[1]
			}
		} else {
			us := nums(line(), 2, 3)
			l[0], l[1] = us[0], us[1]
			if len(us) > 2 {
				l[2] = us[2]
			}
		}
		if l[2] > 1 && l[2] != l[0] {
			panic(aigErr(fmt.Sprintf("latch %d has the initial value %d", l[0], l[2])))
		}
		define(l[0])
		a.latches = append(a.latches, l)
	}
	cnt := [5]int{O, a.hdr[5], a.hdr[6], 0, a.hdr[8]}
	for g := 0; g < 5; g++ {
		if g == gJus {
			for i := 0; i < a.hdr[7]; i++ {
				n := int(nums(line(), 1, 1)[0])
				a.jus = append(a.jus, n)
				cnt[g] += n
			}
		}
		for i := 0; i < cnt[g]; i++ {
			a.groups[g] = append(a.groups[g], nums(line(), 1, 1)[0])
		}
	}
	var use []uint
	for i := 0; i < A; i++ {
		if !bin {
			us := nums(line(), 3, 3)
			define(us[0])
			a.ands[us[0]] = [2]uint{us[1], us[2]}
			use = append(use, us[1:]...)
			continue
		}
		delta := func() uint {
			u, s := uint(0), uint(0)
			for {
				c := b[pos]
				pos++
				u |= uint(c&127) << s
				s += 7
				if c < 128 {
					return u
				}
			}
		}
		g := uint(2 * (I + L + 1 + i))
		d0 := delta()
		if d0 == 0 || d0 > g {
			panic(aigErr(fmt.Sprintf("gate %d has the first difference %d", g, d0)))
		}
		d1 := delta()
		if d1 > g-d0 {
			panic(aigErr(fmt.Sprintf("gate %d has the differences %d and %d", g, d0, d1)))
		}
		define(g)
		a.ands[g] = [2]uint{g - d0, g - d0 - d1}
	}
	for _, us := range append(a.groups[:], use) {
		for _, u := range us {
			if !def[u&^1] {
				panic(aigErr(fmt.Sprintf("literal %d is not defined", u)))
			}
		}
	}
	for _, l := range a.latches {
		if !def[l[1]&^1] {
			panic(aigErr(fmt.Sprintf("next state %d is not defined", l[1])))
		}
	}
	for pos < len(b) {
		s := line()
		if s == "c" {
			break
		}
		i := strings.IndexByte(s, ' ')
		if i < 2 || !strings.ContainsRune("ilobcjf", rune(s[0])) {
			panic(aigErr(fmt.Sprintf("the symbol line %q; the header has %d gates", s, A)))
		}
		if _, dup := a.syms[s[:i]]; dup {
			panic(aigErr("two names of " + s[:i]))
		}
		a.syms[s[:i]] = s[i+1:]
	}
	return a, nil
}

// sem is what a sequential circuit means, for some values of its inputs and
// latches.
type sem struct {
	in    int
	init  []int // 0, 1, 2: X
	next  []words
	outs  [5][]words
	jus   []int
	names map[string]string
}

func (a *aig) sem(c *Case, prop string, in, la []words, one words) *sem {
	s := &sem{in: len(a.ins), names: a.syms, jus: a.jus}
	val := map[uint]words{0: one.not()}
	for i, u := range a.ins {
		val[u] = in[i]
	}
	for i, l := range a.latches {
		val[l[0]] = la[i]
	}
	depth := 0
	var ev func(u uint) words
	ev = func(u uint) words {
		w, ok := val[u&^1]
		if !ok {
			depth++
			if depth > len(a.ands)+2 {
				c.FailIf("C16", "the gates of the file have a cycle")
			}
			k := a.ands[u&^1]
			w = ev(k[0]).and(ev(k[1]))
			val[u&^1] = w
			depth--
		}
		if u&1 == 1 {
			return w.not()
		}
		return w
	}
	for _, l := range a.latches {
		s.next = append(s.next, ev(l[1]))
		if l[2] > 1 {
			s.init = append(s.init, 2)
		} else {
			s.init = append(s.init, int(l[2]))
		}
	}
	for g := range a.groups {
		for _, u := range a.groups[g] {
			s.outs[g] = append(s.outs[g], ev(u))
		}
	}
	return s
}

func semOf(c *Case, t *aiger.T, in, la []words, one words) *sem {
	s := &sem{in: len(t.Inputs), names: map[string]string{}}
	k := &circ{c: c, l: &t.S.C, nw: len(one), fun: []words{one}}
	val := map[z.Var]words{}
	for i, m := range t.Inputs {
		if i < len(in) {
			val[m.Var()] = in[i]
		}
	}
	for i, m := range t.Latches {
		if i < len(la) {
			val[m.Var()] = la[i]
		}
	}
	memo := map[z.Var]words{}
	ev := func(m z.Lit) words {
		if m.Var() == 0 || int(m.Var()) >= t.Len() {
			c.FailIf("C16", "the literal %s is not in the circuit", m)
		}
		return k.value(memo, val, m)
	}
	for _, m := range t.Latches {
		s.next = append(s.next, ev(t.Next(m)))
		switch t.Init(m) {
		case t.S.T:
			s.init = append(s.init, 1)
		case t.S.F:
			s.init = append(s.init, 0)
		case z.LitNull:
			s.init = append(s.init, 2)
		default:
			s.init = append(s.init, 9)
		}
	}
	all := func(ms []z.Lit) (r []words) {
		for _, m := range ms {
			r = append(r, ev(m))
		}
		return
	}
	s.outs[gOut] = all(t.Outputs)
	s.outs[gBad] = all(t.Bad)
	s.outs[gCon] = all(t.Constraints)
	for _, j := range t.Justice {
		s.jus = append(s.jus, len(j))
		s.outs[gJus] = append(s.outs[gJus], all(j)...)
	}
	s.outs[gFair] = all(t.Fair)
	name := func(p string, n int, f func(int) (string, bool)) {
		for i := 0; i < n; i++ {
			if x, ok := f(i); ok {
				s.names[fmt.Sprint(p, i)] = x
			}
		}
	}
	name("i", len(t.Inputs), t.InputName)
	name("l", len(t.Latches), t.LatchName)
	name("o", len(t.Outputs), t.OutputName)
	name("b", len(t.Bad), t.BadName)
	name("c", len(t.Constraints), t.ConstraintName)
	name("j", len(t.Justice), t.JusticeName)
	name("f", len(t.Fair), t.FairName)
	return s
}

// known is set when the binary writer swaps the initial values 0 and 1,
// which is a listed finding.
var aigSwap = -1

func sameSem(c *Case, got, want *sem, swap bool, what string) {
	if got.in != want.in {
		c.FailIf("C16", "%s has %d inputs, not %d", what, got.in, want.in)
	}
	if len(got.next) != len(want.next) {
		c.FailIf("C16", "%s has %d latches, not %d", what, len(got.next), len(want.next))
	}
	for i := range want.next {
		w := want.init[i]
		if swap && w < 2 {
			w = 1 - w
		}
		if got.init[i] != w {
			c.FailIf("C16", "%s: latch %d has the initial value %d, not %d (2 is unknown; swapped %v)", what, i, got.init[i], w, swap)
		}
		if !got.next[i].eq(want.next[i]) {
			c.FailIf("C16", "%s: latch %d has another next state", what, i)
		}
	}
	for g, n := range []string{"output", "bad state", "constraint", "justice", "fairness"} {
		if len(got.outs[g]) != len(want.outs[g]) {
			c.FailIf("C16", "%s has %d %s literals, not %d", what, len(got.outs[g]), n, len(want.outs[g]))
		}
		for i := range want.outs[g] {
			if !got.outs[g][i].eq(want.outs[g][i]) {
				c.FailIf("C16", "%s: %s %d is another function", what, n, i)
			}
		}
	}
	if fmt.Sprint(got.jus) != fmt.Sprint(want.jus) {
		c.FailIf("C16", "%s has justice properties of sizes %v, not %v", what, got.jus, want.jus)
	}
	if fmt.Sprint(got.names) != fmt.Sprint(want.names) { // maps print sorted
		c.FailIf("C16", "%s has the names %v, not %v", what, got.names, want.names)
	}
}

func probeSwap() bool {
	s := logic.NewS()
	f := s.Latch(s.F)
	t := s.Latch(s.T)
	a := aiger.MakeFor(s, f, t)
	var b bytes.Buffer
	a.WriteBinary(&b)
	g, e := parseAig(b.Bytes())
	return e == nil && len(g.latches) == 2 && g.latches[0][2] == 1 && g.latches[1][2] == 0
}

func rName(c *Case) string {
	return []string{"a", "x y", "", "c", "i0", strings.Repeat("n", 1+c.R.Intn(30)), "\t", "ü"}[c.R.Intn(8)]
}

func runAig(c *Case) {
	if c.Num%3 == 2 {
		runAigRead(c)
		return
	}
	if aigSwap < 0 {
		aigSwap = 0
		if probeSwap() {
			aigSwap = 1
		}
	}
	r := c.R
	nw := 2
	k := newCirc(c, true, nw)
	big := r.Intn(40) == 0
	n := 3 + r.Intn(40)
	if big {
		for i := 60 + r.Intn(200); i > 0; i-- {
			k.input()
		}
		if r.Intn(4) == 0 {
			for i := 8300; i > 0; i-- {
				k.put(k.l.Lit(), nil, "")
				m := k.lits[len(k.lits)-1]
				k.in[m.Var()] = k.fun[0]
				k.fun[len(k.fun)-1] = k.fun[0]
			}
			c.Logf("for i := 0; i < 8300; i++ { p.Lit() }")
		}
	}
	var a *aiger.T
	outs := func(n int) (ms []z.Lit) {
		for ; n > 0; n-- {
			m, _ := k.pick()
			ms = append(ms, m)
		}
		return
	}
	if r.Intn(3) == 0 {
		// through the object
		a = aiger.MakeFor(k.s)
		c.Logf("a := aiger.MakeFor(p)")
		for i := r.Intn(6); i > 0; i-- {
			m := a.NewIn()
			k.newVar(m)
			c.Logf("%s := a.NewIn()", m)
		}
		for i := 0; i < n; i++ {
			if r.Intn(6) == 0 {
				k.latch()
			} else {
				k.build()
			}
		}
		k.setNexts()
		for _, m := range outs(r.Intn(5)) {
			a.SetOutput(m)
			c.Logf("a.SetOutput(%s)", m)
		}
	} else {
		k.grow(n, true)
		k.setNexts()
		os := outs(r.Intn(6))
		a = aiger.MakeFor(k.s, os...)
		c.Logf("a := aiger.MakeFor(p, %v...)", os)
	}
	if r.Intn(2) == 0 {
		a.Bad = outs(r.Intn(3))
		a.Constraints = outs(r.Intn(3))
		a.Fair = outs(r.Intn(3))
		for i := r.Intn(3); i > 0; i-- {
			a.Justice = append(a.Justice, outs(r.Intn(4)))
		}
		c.Logf("a.Bad, a.Constraints, a.Fair, a.Justice = %v, %v, %v, %v", a.Bad, a.Constraints, a.Fair, a.Justice)
	}
	names := []func(int, string) error{a.NameInput, a.NameLatch, a.NameOutput, a.NameBad, a.NameConstraint, a.NameJustice, a.NameFair}
	for i := r.Intn(6); i > 0; i-- {
		x, y, nm := r.Intn(7), r.Intn(5)-1, rName(c)
		e := names[x](y, nm)
		c.Logf("name %d of group %d: %q // %v", y, x, nm, e)
		n := []int{len(a.Inputs), len(a.Latches), len(a.Outputs), len(a.Bad), len(a.Constraints), len(a.Justice), len(a.Fair)}[x]
		if (e == nil) != (y >= 0 && y < n) {
			c.FailIf("C16", "naming item %d of %d: error %v", y, n, e)
		}
	}
	one := k.fun[0]
	var in, la []words
	for range a.Inputs {
		in = append(in, k.rnd())
	}
	for range a.Latches {
		la = append(la, k.rnd())
	}
	want := semOf(c, a, in, la, one)
	c.Hit()
	try := func(a *aiger.T, who string) {
		for _, bin := range []bool{false, true} {
			var b bytes.Buffer
			var e error
			what := who + ".WriteAscii"
			if bin {
				what = who + ".WriteBinary"
				e = a.WriteBinary(&b)
			} else {
				e = a.WriteAscii(&b)
			}
			if e != nil {
				c.FailIf("C16", "%s: %v", what, e)
			}
			f, e := parseAig(b.Bytes())
			if e != nil {
				c.FailIf("C16", "%s writes a file which is not well-formed: %v\n%q", what, e, b.String())
			}
			swap := bin && aigSwap == 1
			sameSem(c, f.sem(c, "C16", in, la, one), want, swap, "the file of "+what)
			var t *aiger.T
			rd := &chunks{b: append([]byte(nil), b.Bytes()...), r: r, mode: r.Intn(4)}
			if bin {
				t, e = aiger.ReadBinary(rd)
			} else {
				t, e = aiger.ReadAscii(rd)
			}
			if e != nil || t == nil {
				c.FailIf("C16", "the file of %s is not read: %v\n%q", what, e, b.String())
			}
			sameSem(c, semOf(c, t, in, la, one), want, swap, "reading the file of "+what)
			if !bin {
				if _, e := aiger.ReadBinary(bytes.NewReader(b.Bytes())); e == nil {
					c.FailIf("C16", "an ASCII file is read as binary")
				}
			} else if _, e := aiger.ReadAscii(bytes.NewReader(b.Bytes())); e == nil {
				c.FailIf("C16", "a binary file is read as ASCII")
			}
		}
	}
	try(a, "a")
	if r.Intn(4) == 0 {
		b := aiger.Copy(a)
		c.Logf("b := aiger.Copy(a)")
		sameSem(c, semOf(c, b, in, la, one), want, false, "a copy")
		b.SetOutput(b.S.T)
		b.S.And(b.S.Lit(), b.S.T)
		if len(b.Latches) > 0 {
			b.SetNext(b.Latches[0], b.S.F)
		}
		sameSem(c, semOf(c, a, in, la, one), want, false, "the original after changes of its copy")
		try(a, "a")
	}
}

// runAigRead reads files which the harness writes.
func runAigRead(c *Case) {
	r := c.R
	bin := r.Intn(2) == 0
	I, L, A := r.Intn(6), r.Intn(4), r.Intn(20)
	M := I + L + A
	a := &aig{ands: map[uint][2]uint{}, syms: map[string]string{}}
	num := make([]uint, M+1)
	for i := range num {
		num[i] = uint(2 * i)
	}
	extra := 0
	if !bin {
		p := r.Perm(M)
		if r.Intn(3) == 0 {
			extra = r.Intn(5)
			p = r.Perm(M + extra)
		}
		for i := 1; i <= M; i++ {
			num[i] = uint(2 * (p[i-1] + 1))
		}
	}
	rl := func(upto int) uint {
		u := num[r.Intn(upto+1)]
		if r.Intn(8) == 0 {
			u = 0
		}
		return u | uint(r.Intn(2))
	}
	for i := 1; i <= I; i++ {
		a.ins = append(a.ins, num[i])
	}
	for i := I + 1; i <= I+L; i++ {
		l := num[i]
		a.latches = append(a.latches, [3]uint{l, rl(M), []uint{0, 1, l}[r.Intn(3)]})
	}
	var order []uint
	for i := I + L + 1; i <= M; i++ {
		x, y := rl(i-1), rl(i-1)
		if bin && x < y {
			x, y = y, x
		}
		a.ands[num[i]] = [2]uint{x, y}
		order = append(order, num[i])
	}
	cnt := [5]int{r.Intn(4)}
	full := r.Intn(2) == 0
	if full {
		cnt = [5]int{r.Intn(4), r.Intn(3), r.Intn(3), 0, r.Intn(3)}
		for i := r.Intn(3); i > 0; i-- {
			n := r.Intn(3)
			a.jus = append(a.jus, n)
			cnt[gJus] += n
		}
	}
	for g := range cnt {
		for i := 0; i < cnt[g]; i++ {
			a.groups[g] = append(a.groups[g], rl(M))
		}
	}
	var b bytes.Buffer
	kind := "aag"
	if bin {
		kind = "aig"
	}
	fmt.Fprintf(&b, "%s %d %d %d %d %d", kind, M+extra, I, L, cnt[0], A)
	if full {
		fmt.Fprintf(&b, " %d %d %d %d", cnt[1], cnt[2], len(a.jus), cnt[4])
	}
	b.WriteString("\n")
	for _, u := range a.ins {
		if !bin {
			fmt.Fprintf(&b, "%d\n", u)
		}
	}
	for _, l := range a.latches {
		if !bin {
			fmt.Fprintf(&b, "%d ", l[0])
		}
		if l[2] == 0 && r.Intn(2) == 0 {
			fmt.Fprintf(&b, "%d\n", l[1])
		} else {
			fmt.Fprintf(&b, "%d %d\n", l[1], l[2])
		}
	}
	for g := range a.groups {
		if g == gJus {
			for _, n := range a.jus {
				fmt.Fprintf(&b, "%d\n", n)
			}
		}
		for _, u := range a.groups[g] {
			fmt.Fprintf(&b, "%d\n", u)
		}
	}
	if !bin && r.Intn(2) == 0 {
		r.Shuffle(len(order), func(i, j int) { order[i], order[j] = order[j], order[i] })
	}
	for _, g := range order {
		k := a.ands[g]
		if !bin {
			fmt.Fprintf(&b, "%d %d %d\n", g, k[0], k[1])
			continue
		}
		for _, d := range []uint{g - k[0], k[0] - k[1]} {
			for d >= 128 {
				b.WriteByte(byte(d) | 128)
				d >>= 7
			}
			b.WriteByte(byte(d))
		}
	}
	ns := []int{I, L, cnt[0], cnt[1], cnt[2], len(a.jus), cnt[4]}
	for i := r.Intn(5); i > 0; i-- {
		g := r.Intn(7)
		if ns[g] == 0 {
			continue
		}
		key := fmt.Sprintf("%c%d", "ilobcjf"[g], r.Intn(ns[g]))
		if _, dup := a.syms[key]; dup {
			continue
		}
		nm := rName(c)
		a.syms[key] = nm
		fmt.Fprintf(&b, "%s %s\n", key, nm)
	}
	if r.Intn(2) == 0 {
		b.WriteString("c\nsome comment\nc\n\n")
	}
	c.Logf("reading the file %q", b.String())
	f, e := parseAig(b.Bytes())
	if e != nil {
		panic(e)
	}
	rd := &chunks{b: append([]byte(nil), b.Bytes()...), r: r, mode: r.Intn(4)}
	var t *aiger.T
	if bin {
		t, e = aiger.ReadBinary(rd)
	} else {
		t, e = aiger.ReadAscii(rd)
	}
	c.Hit()
	if e != nil || t == nil {
		c.FailIf("C16", "a well-formed file is not read: %v", e)
	}
	one := words{^uint64(0)}
	var in, la []words
	for range f.ins {
		in = append(in, words{r.Uint64()})
	}
	for range f.latches {
		la = append(la, words{r.Uint64()})
	}
	sameSem(c, semOf(c, t, in, la, one), f.sem(c, "C16", in, la, one), false, "the circuit read")
}

func init() {
	checks["C16"] = &check{run: runAig, rule: "random sequential circuits with names and properties written in both formats, parsed by a separate reader, read back, and compared as functions over random words; and files written by the harness, with constants and arbitrary numbering, read by the readers."}
}
