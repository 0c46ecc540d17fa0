package main

import (
	"fmt"
	"math/big"
	"strings"
)

type axiom struct {
	name  string
	t     *Term
	needs []string // symbols; any (or all) must occur
	all   bool
	bv    bool
	order int
	used  map[*Ob]bool
}

var axCache []*axiom
var sigCache map[string]string

func (g *Gen) sigs() map[string]string {
	if sigCache != nil {
		return sigCache
	}
	m := map[string]string{
		"strlen": "(Str) Int", "str.at": "(Str Int) Int", "str.cat": "(Str Str) Str",
		"tdiv": "(Int Int) Int", "ix": "(Int Int) Int", "bitat": "(Int Int) Bool", "bit.not64": "(Int) Int", "pow2": "(Int) Int", "bit.and": "(Int Int) Int", "bit.or": "(Int Int) Int", "bit.xor": "(Int Int) Int",
		"flt.+op": "(Flt Flt) Flt", "flt.-op": "(Flt Flt) Flt", "flt.*op": "(Flt Flt) Flt", "flt./op": "(Flt Flt) Flt",
		"flt.neg": "(Flt) Flt", "flt.lt": "(Flt Flt) Bool", "flt.le": "(Flt Flt) Bool", "flt.ofint": "(Int) Flt", "flt.lit": "(Int) Flt",
		"if.ref": "(Iface) Ref", "if.tag": "(Iface) Int",
		"cmp.lt": "(Str Str) Bool", "cmp.le": "(Str Str) Bool", "cmp.gt": "(Str Str) Bool", "cmp.ge": "(Str Str) Bool",
	}
	for _, bv := range []bool{false, true} {
		sv := g.bv
		g.bv = bv
		for _, n := range g.spec.fnOrder {
			f := g.spec.funcs[n]
			if f.kind == "macro" {
				continue
			}
			func() {
				defer func() { recover() }()
				var ps []string
				for _, p := range f.params {
					s, _ := g.specSort(p.typ)
					ps = append(ps, s)
				}
				r, _ := g.specSort(f.ret)
				if len(ps) == 0 {
					return
				}
				m[g.specFn(f)] = "(" + strings.Join(ps, " ") + ") " + r
				if f.kind == "rec" {
					m[g.specFn(f)+".0"] = m[g.specFn(f)]
				}
			}()
		}
		g.bv = sv
	}
	sigCache = m
	return m
}

// axioms gives the definitions of recursive functions and the automatic
// lemmas.
func (g *Gen) axioms() []*axiom {
	if axCache != nil {
		return axCache
	}
	axCache = []*axiom{}
	io, ii := sym("o?ix", "Int"), sym("i?ix", "Int")
	it := mk("ix", "Int", io, ii)
	axCache = append(axCache, bitAxioms()...)
	axCache = append(axCache, &axiom{name: "ix", t: quant(true, []*Term{io, ii}, mk("=", "Bool", it, mk("+", "Int", io, ii)), [][]*Term{{it}}), needs: []string{"ix"}, order: -1, used: map[*Ob]bool{}})
	for z, zs := range abstractZeros {
		a := sym(z+"s", arrSort("Int", zs))
		t := mk("select", zs, a, ii)
		axCache = append(axCache, &axiom{name: z + "s", t: quant(true, []*Term{ii}, mk("=", "Bool", t, sym(z, zs)), [][]*Term{{t}}), needs: []string{z + "s"}, order: -1, used: map[*Ob]bool{}})
	}
	for _, n := range g.spec.fnOrder {
		f := g.spec.funcs[n]
		if f.kind != "rec" {
			continue
		}
		sv := g.bv
		g.bv = false
		nm := map[string]*SVal{}
		var vars []*Term
		for _, p := range f.params {
			g.nsym++
			srt, typ := g.specSort(p.typ)
			v := sym(fmt.Sprintf("%s?%d", p.name, g.nsym), srt)
			vars = append(vars, v)
			nm[p.name] = &SVal{t: v, typ: typ}
		}
		e := &Env{g: g, names: nm}
		body := e.val(f.body)
		srt, _ := g.specSort(f.ret)
		call := app(g.specFn(f), srt, vars...)
		zero := app(g.specFn(f)+".0", srt, vars...)
		body = renameOp(body, g.specFn(f), g.specFn(f)+".0")
		def := quant(true, vars, mk("=", "Bool", call, body), [][]*Term{{call}})
		syn := quant(true, vars, mk("=", "Bool", call, zero), [][]*Term{{call}})
		axCache = append(axCache, &axiom{name: "def " + n, t: and(def, syn), needs: []string{g.specFn(f)}, order: -1, used: map[*Ob]bool{}})
		g.bv = sv
	}
	for _, n := range g.spec.lemOrder {
		l := g.spec.lemmas[n]
		if !l.auto || l.bv {
			continue
		}
		sv := g.bv
		g.bv = false
		t, needs := g.lemmaAxiom(l)
		g.bv = sv
		axCache = append(axCache, &axiom{name: n, t: t, needs: needs, all: true, order: l.order, used: map[*Ob]bool{}})
	}
	return axCache
}

func renameOp(t *Term, from, to string) *Term {
	if t.q != nil {
		return quant(t.q.forall, t.q.vars, renameOp(t.q.body, from, to), t.q.trigs)
	}
	if len(t.args) == 0 {
		return t
	}
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = renameOp(a, from, to)
	}
	op := t.op
	if op == from {
		op = to
	}
	if op == "constarr" {
		return constArr(t.sort, as[0])
	}
	return mk(op, t.sort, as...)
}

func (g *Gen) lemmaAxiom(l *Lemma) (*Term, []string) {
	nm := map[string]*SVal{}
	var vars []*Term
	for _, p := range l.params {
		g.nsym++
		srt, typ := g.specSort(p.typ)
		v := sym(fmt.Sprintf("%s?%d", p.name, g.nsym), srt)
		vars = append(vars, v)
		nm[p.name] = &SVal{t: v, typ: typ}
	}
	e := &Env{g: g, names: nm}
	var pre, post []*Term
	for _, r := range l.requires {
		pre = append(pre, e.b(r))
	}
	for _, r := range l.ensures {
		post = append(post, e.b(r))
	}
	var tr [][]*Term
	for _, ts := range l.trigs {
		var y []*Term
		for _, z := range ts {
			y = append(y, e.val(z))
		}
		tr = append(tr, y)
	}
	body := implies(and(pre...), and(post...))
	t := body
	if len(vars) > 0 {
		t = quant(true, vars, body, tr)
	}
	// the symbols of the triggers decide when the axiom is included
	used := map[string]string{}
	if len(tr) > 0 {
		for _, x := range tr[0] {
			syms(x, used, map[string]int{})
		}
	} else {
		syms(t, used, map[string]int{})
	}
	var needs []string
	for _, k := range sortedKeys(used) {
		if strings.HasPrefix(k, "f.") {
			needs = append(needs, k)
		}
	}
	return t, needs
}

// lemmaObs makes the obligations of a lemma.
func (g *Gen) lemmaObs(l *Lemma) []*Ob {
	g.bv = l.bv
	defer func() { g.bv = false }()
	st := &State{g: g, heaps: map[string]*Term{}, cells: map[cellKey]*Val{}, vals: map[valKey]*Val{}, seen: map[string]bool{}, next: sym("next@0", "Int")}
	nm := map[string]*SVal{}
	for _, p := range l.params {
		srt, typ := g.specSort(p.typ)
		v := g.fresh(p.name, srt)
		nm[p.name] = &SVal{t: v, typ: typ}
		if typ != nil {
			st.assume(g.rangeOf(typ, v, nil))
		}
	}
	e := &Env{g: g, names: nm, reveal: map[string]bool{}, st: st}
	for _, r := range l.reveal {
		e.reveal[r] = true
	}
	for _, r := range l.requires {
		st.assume(e.b(r))
	}
	if l.induct != "" {
		iv := nm[l.induct]
		nm2 := map[string]*SVal{}
		var vars []*Term
		for _, p := range l.params {
			if p.name != l.induct && !l.general[p.name] {
				nm2[p.name] = nm[p.name]
				continue
			}
			srt, typ := g.specSort(p.typ)
			g.nsym++
			v := sym(fmt.Sprintf("%s?%d", p.name, g.nsym), srt)
			vars = append(vars, v)
			nm2[p.name] = &SVal{t: v, typ: typ}
		}
		e2 := &Env{g: g, names: nm2, st: st}
		pre := []*Term{le(intT(0), nm2[l.induct].t), lt(nm2[l.induct].t, iv.t)}
		// what does not depend on the variables is assumed already
		varies := func(n string) bool { return n == l.induct || l.general[n] }
		for _, r := range l.requires {
			if r.mentions(varies) {
				pre = append(pre, e2.b(r))
			}
		}
		var post []*Term
		for _, r := range l.ensures {
			post = append(post, e2.b(r))
		}
		var tr [][]*Term
		ltr := l.itrigs
		if ltr == nil {
			ltr = l.trigs
		}
		for _, ts := range ltr {
			var y []*Term
			for _, z := range ts {
				y = append(y, e2.val(z))
			}
			tr = append(tr, y)
		}
		st.assume(quant(true, vars, implies(and(pre...), and(post...)), tr))
		// the instance for the predecessor
		nm3 := map[string]*SVal{}
		for k, v := range nm {
			nm3[k] = v
		}
		nm3[l.induct] = &SVal{t: sub(iv.t, intT(1)), typ: iv.typ}
		e3 := &Env{g: g, names: nm3, st: st}
		pre3 := []*Term{le(intT(1), iv.t)}
		for _, r := range l.requires {
			if r.mentions(func(n string) bool { return n == l.induct }) {
				pre3 = append(pre3, e3.b(r))
			}
		}
		var post3 []*Term
		for _, r := range l.ensures {
			post3 = append(post3, e3.b(r))
		}
		st.assume(implies(and(pre3...), and(post3...)))
		// the measure is not negative (otherwise the lemma must be vacuous)
	}
	var obs []*Ob
	mkOb := func(n string, t *Term) {
		obs = append(obs, &Ob{fn: "lemma " + l.name, name: n, pc: st.pc, goal: t, bv: l.bv, lemmaOrd: l.order})
	}
	if l.induct != "" {
		mkOb("induction measure", le(intT(0), nm[l.induct].t))
	}
	for i, u := range l.uses {
		pre, post := e.lemmaInst(u)
		if g.spec.lemmas[u.name].order >= l.order {
			specErr("lemma %s uses a later lemma", l.name)
		}
		if !l.haves[i] {
			mkOb("use "+u.name, pre)
		}
		st.assume(implies(pre, post))
	}
	for i, r := range l.ensures {
		mkOb(fmt.Sprintf("ensures #%d %s", i, short(r.text)), e.b(r))
	}
	if len(l.requires) > 0 {
		obs = append(obs, &Ob{fn: "lemma " + l.name, name: "hypotheses are consistent", pc: st.pc, goal: tTrue, cover: true, bv: l.bv, lemmaOrd: l.order})
	}
	return obs
}

// bitAxioms: bitat(x, k) is bit k of x, for 0 <= x < 2^64.
func bitAxioms() []*axiom {
	x, y, k := sym("x?bit", "Int"), sym("y?bit", "Int"), sym("k?bit", "Int")
	bit := func(x *Term) *Term { return mk("bitat", "Bool", x, k) }
	var r []*axiom
	for _, op := range []string{"and", "or", "xor"} {
		t := mk("bit."+op, "Int", x, y)
		var v *Term
		switch op {
		case "and":
			v = and(bit(x), bit(y))
		case "or":
			v = or(bit(x), bit(y))
		case "xor":
			v = not(mk("=", "Bool", bit(x), bit(y)))
		}
		r = append(r, &axiom{name: "bit." + op, t: quant(true, []*Term{x, y, k}, mk("=", "Bool", bit(t), v), [][]*Term{{bit(t)}}), needs: []string{"bitat", "bit." + op}, all: true, order: -1, used: map[*Ob]bool{}})
	}
	n := mk("bit.not64", "Int", x)
	in := and(le(intT(0), k), lt(k, intT(64)))
	r = append(r, &axiom{name: "bit.not64", t: and(
		quant(true, []*Term{x}, mk("=", "Bool", n, sub(bigInt(new(big.Int).Sub(pow2(64), big.NewInt(1))), x)), [][]*Term{{n}}),
		quant(true, []*Term{x, k}, implies(in, mk("=", "Bool", bit(n), not(bit(x)))), [][]*Term{{bit(n)}})), needs: []string{"bit.not64"}, order: -1, used: map[*Ob]bool{}})
	r[3].needs = []string{"bit.not64"}
	ones := bigInt(new(big.Int).Sub(pow2(64), big.NewInt(1)))
	r = append(r, &axiom{name: "bitat", t: quant(true, []*Term{x, k}, and(
		implies(and(mk("=", "Bool", x, ones), in), bit(x)),
		implies(mk("=", "Bool", x, intT(0)), not(bit(x)))), [][]*Term{{bit(x)}}), needs: []string{"bitat"}, order: -1, used: map[*Ob]bool{}})
	return r
}

// mentions: an identifier in e satisfies f.
func (e *Expr) mentions(f func(string) bool) bool {
	if e.kind == "id" && f(e.name) {
		return true
	}
	for _, a := range e.args {
		if a != nil && a.mentions(f) {
			return true
		}
	}
	for _, tr := range e.trigs {
		for _, a := range tr {
			if a.mentions(f) {
				return true
			}
		}
	}
	return false
}
