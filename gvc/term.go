package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Term is an SMT-LIB term.  Terms are compared by their printed text.
type Term struct {
	op   string // symbol or operator; "" for quantifiers
	args []*Term
	sort string
	s    string
	num  *big.Int // integer constants
	q    *Quant
}

type Quant struct {
	forall bool
	vars   []*Term
	body   *Term
	trigs  [][]*Term
}

func (t *Term) String() string { return t.s }

func sym(name, srt string) *Term {
	n := name
	if strings.ContainsAny(n, " []*./()-{},;:'\"") {
		n = "|" + n + "|"
	}
	return &Term{op: n, sort: srt, s: n}
}

func mk(op, srt string, args ...*Term) *Term {
	var b strings.Builder
	b.WriteByte('(')
	b.WriteString(op)
	for _, a := range args {
		b.WriteByte(' ')
		b.WriteString(a.s)
	}
	b.WriteByte(')')
	return &Term{op: op, args: args, sort: srt, s: b.String()}
}

func app(op, srt string, args ...*Term) *Term {
	if len(args) == 0 {
		return sym(op, srt)
	}
	return mk(op, srt, args...)
}

func bigInt(n *big.Int) *Term {
	s := n.String()
	if n.Sign() < 0 {
		s = "(- " + new(big.Int).Neg(n).String() + ")"
	}
	return &Term{op: "#", sort: "Int", s: s, num: new(big.Int).Set(n)}
}

func intT(n int64) *Term { return bigInt(big.NewInt(n)) }

var tTrue = &Term{op: "true", sort: "Bool", s: "true"}
var tFalse = &Term{op: "false", sort: "Bool", s: "false"}

func boolT(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func isTrue(t *Term) bool  { return t.s == "true" }
func isFalse(t *Term) bool { return t.s == "false" }
func same(a, b *Term) bool { return a == b || a.s == b.s }

func not(t *Term) *Term {
	if isTrue(t) {
		return tFalse
	}
	if isFalse(t) {
		return tTrue
	}
	if t.op == "not" {
		return t.args[0]
	}
	return mk("not", "Bool", t)
}

func and(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		if isTrue(t) {
			continue
		}
		if isFalse(t) {
			return tFalse
		}
		if t.op == "and" {
			out = append(out, t.args...)
			continue
		}
		out = append(out, t)
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", "Bool", out...)
}

func or(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		if isFalse(t) {
			continue
		}
		if isTrue(t) {
			return tTrue
		}
		out = append(out, t)
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", "Bool", out...)
}

func implies(a, b *Term) *Term {
	if isTrue(a) {
		return b
	}
	if isFalse(a) || isTrue(b) {
		return tTrue
	}
	if isFalse(b) {
		return not(a)
	}
	return mk("=>", "Bool", a, b)
}

func isBV(s string) bool { return strings.HasPrefix(s, "(_ BitVec") }

func distinctConst(a, b *Term) bool {
	if a.num != nil && b.num != nil {
		return a.num.Cmp(b.num) != 0
	}
	return false
}

func eq(a, b *Term) *Term {
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq: sorts %s and %s: %s = %s", a.sort, b.sort, a, b))
	}
	if same(a, b) {
		return tTrue
	}
	if a.num != nil && b.num != nil {
		return boolT(a.num.Cmp(b.num) == 0)
	}
	if a.sort == "Bool" {
		if isTrue(a) {
			return b
		}
		if isTrue(b) {
			return a
		}
		if isFalse(a) {
			return not(b)
		}
		if isFalse(b) {
			return not(a)
		}
	}
	if a.op == "obj" && b.op == "obj" {
		return eq(a.args[0], b.args[0])
	}
	if (a.op == "obj" && b.s == "null") || (b.op == "obj" && a.s == "null") || (a.op == "sub" && b.s == "null") || (b.op == "sub" && a.s == "null") {
		return tFalse
	}
	if d := linDiff(a, b); d != nil {
		return boolT(d.Sign() == 0)
	}
	return mk("=", "Bool", a, b)
}

// linDiff returns a-b when both are x+const over the same x.
func linDiff(a, b *Term) *big.Int {
	if a.sort != "Int" {
		return nil
	}
	xa, ca := linSplit(a)
	xb, cb := linSplit(b)
	if xa == nil || xb == nil || !same(xa, xb) {
		return nil
	}
	return new(big.Int).Sub(ca, cb)
}

func linSplit(a *Term) (*Term, *big.Int) {
	if a.num != nil {
		return nil, a.num
	}
	if a.op == "+" && len(a.args) == 2 && a.args[1].num != nil {
		return a.args[0], a.args[1].num
	}
	if a.op == "ix" {
		x, c := linSplit(a.args[1])
		if x == nil {
			x = intT(0)
		}
		return ixT(a.args[0], x), c
	}
	return a, big.NewInt(0)
}

func ite(c, a, b *Term) *Term {
	if isTrue(c) {
		return a
	}
	if isFalse(c) {
		return b
	}
	if same(a, b) {
		return a
	}
	if a.sort == "Bool" {
		if isTrue(a) && isFalse(b) {
			return c
		}
		if isFalse(a) && isTrue(b) {
			return not(c)
		}
	}
	if a.sort != b.sort {
		panic("ite sorts " + a.sort + " " + b.sort)
	}
	return mk("ite", a.sort, c, a, b)
}

func add(a, b *Term) *Term {
	if a.num != nil && b.num != nil {
		return bigInt(new(big.Int).Add(a.num, b.num))
	}
	if a.num != nil {
		a, b = b, a
	}
	if b.num != nil {
		if b.num.Sign() == 0 {
			return a
		}
		if x, c := linSplit(a); x != nil && c.Sign() != 0 {
			return add(x, bigInt(new(big.Int).Add(c, b.num)))
		}
		return mk("+", "Int", a, b)
	}
	if a.op == "+" && len(a.args) == 2 && a.args[1].num != nil {
		return add(add(a.args[0], b), a.args[1])
	}
	if b.op == "+" && len(b.args) == 2 && b.args[1].num != nil {
		return add(add(a, b.args[0]), b.args[1])
	}
	return mk("+", "Int", a, b)
}

func sub(a, b *Term) *Term {
	if b.num != nil {
		return add(a, bigInt(new(big.Int).Neg(b.num)))
	}
	if same(a, b) {
		return intT(0)
	}
	if d := linDiff(a, b); d != nil {
		return bigInt(d)
	}
	// (x + b) - b
	if a.op == "+" && len(a.args) == 2 {
		if same(a.args[1], b) {
			return a.args[0]
		}
		if same(a.args[0], b) {
			return a.args[1]
		}
	}
	return mk("-", "Int", a, b)
}

func neg(a *Term) *Term {
	if a.num != nil {
		return bigInt(new(big.Int).Neg(a.num))
	}
	return mk("-", "Int", a)
}

func mul(a, b *Term) *Term {
	if a.num != nil && b.num != nil {
		return bigInt(new(big.Int).Mul(a.num, b.num))
	}
	if a.num != nil {
		a, b = b, a
	}
	if b.num != nil {
		if b.num.Sign() == 0 {
			return intT(0)
		}
		if b.num.Cmp(big.NewInt(1)) == 0 {
			return a
		}
	}
	return mk("*", "Int", a, b)
}

// Euclidean division and remainder by b (SMT div/mod)
func ediv(a, b *Term) *Term {
	if b.num != nil && b.num.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	if a.num != nil && b.num != nil && b.num.Sign() > 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.num, b.num, m)
		return bigInt(q)
	}
	return mk("div", "Int", a, b)
}

func emod(a, b *Term) *Term {
	if b.num != nil && b.num.Cmp(big.NewInt(1)) == 0 {
		return intT(0)
	}
	if a.num != nil && b.num != nil && b.num.Sign() > 0 {
		q, m := new(big.Int), new(big.Int)
		q.DivMod(a.num, b.num, m)
		return bigInt(m)
	}
	return mk("mod", "Int", a, b)
}

func lt(a, b *Term) *Term { return not(le(b, a)) }
func le(a, b *Term) *Term {
	if a.num != nil && b.num != nil {
		return boolT(a.num.Cmp(b.num) <= 0)
	}
	if d := linDiff(a, b); d != nil {
		return boolT(d.Sign() <= 0)
	}
	return mk("<=", "Bool", a, b)
}

func arrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

// arrParts splits "(Array K V)".
func arrParts(s string) (string, string) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	in := s[len("(Array ") : len(s)-1]
	d := 0
	for i := 0; i < len(in); i++ {
		switch in[i] {
		case '(':
			d++
		case ')':
			d--
		case ' ':
			if d == 0 {
				return in[:i], in[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

// defs maps a named array version to its definition (a store term), for
// read-over-write simplification.
var defs = map[string]*Term{}

// freshId: the identity of an object or array allocated since the entry of
// the function; next only grows.
func freshId(t *Term) bool {
	if t.op == "obj" {
		t = t.args[0]
	}
	if t.sort != "Int" || t.num != nil {
		return false
	}
	x, c := linSplit(t)
	if x == nil || c.Sign() < 0 || len(x.args) != 0 {
		return false
	}
	return x.s == "next@0" || strings.HasPrefix(strings.Trim(x.s, "|"), "next!")
}

var entryMemo = map[string]bool{}

// entryOnly: a value found in the state at the entry of the function.
func entryOnly(t *Term) bool {
	r, ok := entryMemo[t.s]
	if ok {
		return r
	}
	r = !strings.Contains(t.s, "?") && t.q == nil && t.num == nil && t.op != "obj"
	if r {
		m := map[string]string{}
		syms(t, m, map[string]int{})
		n := 0
		for k, srt := range m {
			k = strings.Trim(k, "|")
			if srt == "" {
				switch {
				case k == "select", strings.HasPrefix(k, "s."), k == "sub", k == "ix":
				default:
					r = false
				}
				continue
			}
			if k == "next@0" || strings.HasPrefix(k, "G:") || !strings.HasSuffix(k, "@0") && !strings.HasPrefix(k, "p:") {
				r = false
			}
			n++
		}
		r = r && n > 0
	}
	entryMemo[t.s] = r
	return r
}

func distinctIdx(a, b *Term) bool {
	if same(a, b) {
		return false
	}
	if distinctConst(a, b) {
		return true
	}
	if a.sort == "Int" || a.sort == "Ref" {
		if freshId(a) && entryOnly(b) || freshId(b) && entryOnly(a) {
			return true
		}
	}
	if a.sort == "Int" {
		if d := linDiff(a, b); d != nil && d.Sign() != 0 {
			return true
		}
		return false
	}
	if a.op == "obj" && b.op == "obj" {
		return distinctIdx(a.args[0], b.args[0])
	}
	if a.op == "sub" && b.op == "sub" {
		if a.args[1].s != b.args[1].s {
			return true
		}
		return distinctIdx(a.args[0], b.args[0])
	}
	if a.op == "sub" && b.op == "obj" || a.op == "obj" && b.op == "sub" {
		return true
	}
	return false
}

func sel(a, i *Term) *Term {
	_, v := arrParts(a.sort)
	k, _ := arrParts(a.sort)
	if k != i.sort {
		panic(fmt.Sprintf("sel: index sort %s for %s : %s", i.sort, a.s, a.sort))
	}
	cur := a
	for n := 0; n < 200; n++ {
		d := cur
		if x, ok := defs[cur.s]; ok {
			d = x
		}
		if d.op == "store" {
			if same(d.args[1], i) {
				return d.args[2]
			}
			if distinctIdx(d.args[1], i) {
				cur = d.args[0]
				continue
			}
		}
		if d.op == "constarr" {
			return d.args[0]
		}
		if z := strings.TrimSuffix(strings.Trim(d.s, "|"), "s"); len(d.args) == 0 && k == "Int" && abstractZeros[z] == v {
			return sym(z, v)
		}
		break
	}
	return mk("select", v, cur, i)
}

func store(a, i, v *Term) *Term {
	k, vs := arrParts(a.sort)
	if k != i.sort || vs != v.sort {
		panic(fmt.Sprintf("store sorts: %s [%s] := %s (%s)", a.sort, i.sort, v.sort, v.s))
	}
	return mk("store", a.sort, a, i, v)
}

// abstractZeros are the values which are not literals for the solvers: arrays
// of them are named, with an axiom in place of an array literal.
var abstractZeros = map[string]string{"flt.zero": "Flt", "str.empty": "Str", "if.nil": "Iface", "fn.nil": "Fn"}

func constArr(srt string, v *Term) *Term {
	if k, vs := arrParts(srt); k == "Int" && abstractZeros[strings.Trim(v.s, "|")] == vs {
		return sym(strings.Trim(v.s, "|")+"s", srt)
	}
	t := &Term{op: "constarr", args: []*Term{v}, sort: srt, s: "((as const " + srt + ") " + v.s + ")"}
	return t
}

func quant(forall bool, vars []*Term, body *Term, trigs [][]*Term) *Term {
	if isTrue(body) || isFalse(body) || len(vars) == 0 {
		return body
	}
	// a trigger which simplified to a constant matches nothing
	for i := 0; i < len(trigs); i++ {
		for _, t := range trigs[i] {
			if len(t.args) == 0 && t.q == nil {
				trigs = append(append([][]*Term{}, trigs[:i]...), trigs[i+1:]...)
				i--
				break
			}
		}
	}
	var b strings.Builder
	if forall {
		b.WriteString("(forall (")
	} else {
		b.WriteString("(exists (")
	}
	for i, v := range vars {
		if i > 0 {
			b.WriteByte(' ')
		}
		b.WriteString("(" + v.s + " " + v.sort + ")")
	}
	b.WriteString(") ")
	if len(trigs) > 0 {
		b.WriteString("(! ")
	}
	b.WriteString(body.s)
	for _, tr := range trigs {
		b.WriteString(" :pattern (")
		for i, t := range tr {
			if i > 0 {
				b.WriteByte(' ')
			}
			b.WriteString(t.s)
		}
		b.WriteString(")")
	}
	if len(trigs) > 0 {
		b.WriteString(")")
	}
	b.WriteString(")")
	op := "exists"
	if forall {
		op = "forall"
	}
	return &Term{op: op, sort: "Bool", s: b.String(), q: &Quant{forall, vars, body, trigs}}
}

// substitute symbols by terms (capture is avoided by unique bound names).
func subst(t *Term, m map[string]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	if r, ok := m[t.s]; ok {
		return r
	}
	if t.q != nil {
		b := subst(t.q.body, m)
		var tr [][]*Term
		for _, x := range t.q.trigs {
			var y []*Term
			for _, z := range x {
				y = append(y, subst(z, m))
			}
			tr = append(tr, y)
		}
		return quant(t.q.forall, t.q.vars, b, tr)
	}
	if len(t.args) == 0 {
		return t
	}
	ch := false
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = subst(a, m)
		if as[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	return rebuild(t, as)
}

func rebuild(t *Term, as []*Term) *Term {
	switch t.op {
	case "and":
		return and(as...)
	case "or":
		return or(as...)
	case "not":
		return not(as[0])
	case "=>":
		return implies(as[0], as[1])
	case "=":
		return eq(as[0], as[1])
	case "ite":
		return ite(as[0], as[1], as[2])
	case "+":
		return add(as[0], as[1])
	case "-":
		if len(as) == 2 {
			return sub(as[0], as[1])
		}
		return neg(as[0])
	case "*":
		return mul(as[0], as[1])
	case "<=":
		return le(as[0], as[1])
	case "div":
		return ediv(as[0], as[1])
	case "mod":
		return emod(as[0], as[1])
	case "select":
		return sel(as[0], as[1])
	case "constarr":
		return constArr(t.sort, as[0])
	case "s.arr", "s.off", "s.len", "s.cap":
		return sliceSel(t.op, as[0])
	}
	return mk(t.op, t.sort, as...)
}

// syms collects the free symbols and operator names of a term.
func syms(t *Term, out map[string]string, bound map[string]int) {
	if t.q != nil {
		for _, v := range t.q.vars {
			bound[v.s]++
		}
		syms(t.q.body, out, bound)
		for _, tr := range t.q.trigs {
			for _, x := range tr {
				syms(x, out, bound)
			}
		}
		for _, v := range t.q.vars {
			bound[v.s]--
		}
		return
	}
	if t.num != nil {
		return
	}
	if len(t.args) == 0 {
		if bound[t.s] == 0 {
			out[t.s] = t.sort
		}
		return
	}
	out[t.op] = ""
	for _, a := range t.args {
		syms(a, out, bound)
	}
	if t.op == "constarr" {
		delete(out, "constarr")
	}
}

// Slice datatype
const SL = "Slice"

func mkSlice(arr, off, ln, cp *Term) *Term { return mk("mk-slice", SL, arr, off, ln, cp) }

func sliceSel(f string, t *Term) *Term {
	if t.op == "mk-slice" {
		switch f {
		case "s.arr":
			return t.args[0]
		case "s.off":
			return t.args[1]
		case "s.len":
			return t.args[2]
		case "s.cap":
			return t.args[3]
		}
	}
	return mk(f, "Int", t)
}

// ixT is the index of element i of a slice with offset o; a function of its
// own, because the solvers do not match patterns below +.
func ixT(o, i *Term) *Term { return mk("ix", "Int", o, i) }
func sArr(t *Term) *Term   { return sliceSel("s.arr", t) }
func sOff(t *Term) *Term   { return sliceSel("s.off", t) }
func sLen(t *Term) *Term   { return sliceSel("s.len", t) }
func sCap(t *Term) *Term   { return sliceSel("s.cap", t) }

var nilSlice = mkSlice(intT(0), intT(0), intT(0), intT(0))

func mkObj(n *Term) *Term          { return mk("obj", "Ref", n) }
func mkSub(r *Term, fld int) *Term { return mk("sub", "Ref", r, intT(int64(fld))) }

var tNull = &Term{op: "null", sort: "Ref", s: "null"}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
