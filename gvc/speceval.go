package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type SVal struct {
	t   *Term
	lv  *Val // address valued local
	typ types.Type
}

type Env struct {
	g      *Gen
	st     *State
	old    *State
	pre    *State
	oldEnv *Env // names of the entry state
	preEnv *Env // names of the state in which the loop was entered
	names  map[string]*SVal
	look   func(string) *SVal
	mk     func(*State) *Env // the same names in another state
	sink   *State
	reveal map[string]bool
	depth  int
}

func (e *Env) with(st *State) *Env {
	n := *e
	n.st = st
	return &n
}

func (e *Env) bind(names map[string]*SVal) *Env {
	n := *e
	n.names = make(map[string]*SVal, len(e.names)+len(names))
	for k, v := range e.names {
		n.names[k] = v
	}
	for k, v := range names {
		n.names[k] = v
	}
	return &n
}

func specErr(f string, a ...interface{}) { bail("contract: "+f, a...) }

const bvSpecW = 128

func (e *Env) note(v *SVal) {
	if e.sink == nil || v.typ == nil || v.t == nil || strings.Contains(v.t.s, "?") {
		return
	}
	var nx *Term
	if e.st != nil {
		nx = e.st.next
	}
	switch v.typ.Underlying().(type) {
	case *types.Slice, *types.Basic:
		e.sink.assume(e.g.rangeOf(v.typ, v.t, nx))
	case *types.Pointer:
		e.sink.assume(e.g.rangeOf(v.typ, v.t, nx))
	}
}

// specSort resolves a sort name of the contract language.
func (g *Gen) specSort(s string) (string, types.Type) {
	switch s {
	case "int":
		if g.bv {
			return fmt.Sprintf("(_ BitVec %d)", bvSpecW), nil
		}
		return "Int", nil
	case "bool":
		return "Bool", nil
	case "row":
		return "(Array Int Int)", nil
	case "set":
		return "(Array Int Bool)", nil
	case "rows":
		return "(Array Int (Array Int Int))", nil
	case "ref":
		return "Ref", nil
	case "slice":
		return SL, nil
	case "str":
		return "Str", nil
	case "iface":
		return "Iface", nil
	case "refmap":
		return "(Array Ref Int)", nil
	case "refset":
		return "(Array Ref Bool)", nil
	}
	t := g.goType(s)
	return g.sortOf(t), t
}

func (g *Gen) goType(s string) types.Type {
	switch {
	case strings.HasPrefix(s, "*"):
		return types.NewPointer(g.goType(s[1:]))
	case strings.HasPrefix(s, "[]"):
		return types.NewSlice(g.goType(s[2:]))
	case strings.Contains(s, "."):
		i := strings.Index(s, ".")
		p := g.pkgs[s[:i]]
		if p == nil {
			specErr("no package %s", s[:i])
		}
		o := p.Scope().Lookup(s[i+1:])
		if o == nil {
			specErr("no type %s", s)
		}
		return o.Type()
	}
	o := types.Universe.Lookup(s)
	if o == nil {
		specErr("no type %s", s)
	}
	return o.Type()
}

func (e *Env) b(x *Expr) *Term {
	v := e.eval(x)
	if v.t == nil || v.t.sort != "Bool" {
		specErr("not a proposition: %s", x.text)
	}
	return v.t
}

func (e *Env) val(x *Expr) *Term {
	v := e.eval(x)
	if v.t == nil {
		if v.lv != nil && v.lv.t != nil {
			return v.lv.t
		}
		specErr("no value for %s", x.text)
	}
	return v.t
}

func (g *Gen) widen(v *SVal) *Term {
	if !isBV(v.t.sort) || bvWidth(v.t.sort) == bvSpecW {
		return v.t
	}
	signed := false
	if v.typ != nil && isInt(v.typ) {
		_, signed = intInfo(v.typ)
	}
	return bvResize(v.t, bvSpecW, signed)
}

func (e *Env) eval(x *Expr) *SVal {
	g := e.g
	switch x.kind {
	case "num":
		if g.bv {
			return &SVal{t: bvConst(x.num, bvSpecW)}
		}
		return &SVal{t: bigInt(x.num)}
	case "id":
		return e.ident(x.name)
	case "un":
		v := e.eval(x.args[0])
		if x.name == "!" {
			if v.t.sort != "Bool" {
				specErr("! on %s", v.t.sort)
			}
			return &SVal{t: not(v.t)}
		}
		if g.bv {
			w := g.widen(v)
			return &SVal{t: mk("bvneg", w.sort, w)}
		}
		return &SVal{t: neg(v.t)}
	case "if":
		c := e.b(x.args[0])
		a, b := e.eval(x.args[1]), e.eval(x.args[2])
		if g.bv {
			return &SVal{t: ite(c, g.widen(a), g.widen(b))}
		}
		return &SVal{t: ite(c, a.t, b.t), typ: a.typ}
	case "let":
		v := e.eval(x.args[0])
		return e.bind(map[string]*SVal{x.name: v}).eval(x.args[1])
	case "quant":
		nm := map[string]*SVal{}
		var vars []*Term
		for _, p := range x.vars {
			srt, typ := g.specSort(p.typ)
			g.nsym++
			t := sym(fmt.Sprintf("%s?%d", p.name, g.nsym), srt)
			vars = append(vars, t)
			nm[p.name] = &SVal{t: t, typ: typ}
		}
		n := e.bind(nm)
		var tr [][]*Term
		for _, ts := range x.trigs {
			var r []*Term
			for _, t := range ts {
				r = append(r, e.noIte(n.val(t)))
			}
			tr = append(tr, r)
		}
		return &SVal{t: quant(x.name == "forall", vars, n.b(x.args[0]), tr)}
	case "bin":
		return e.binary(x)
	case "field":
		if x.args[0].kind == "id" {
			nm := x.args[0].name
			if !e.has(nm) {
				if p := g.pkgs[nm]; p != nil {
					return e.pkgMember(p, x.name)
				}
			}
		}
		return e.field(e.eval(x.args[0]), x.name)
	case "index":
		v := e.eval(x.args[0])
		i := e.eval(x.args[1])
		if v.typ != nil {
			switch u := v.typ.Underlying().(type) {
			case *types.Slice:
				r := &SVal{t: sel(e.st.row(u.Elem(), sArr(v.t)), ixT(sOff(v.t), i.t)), typ: u.Elem()}
				e.note(r)
				return r
			case *types.Array:
				return &SVal{t: sel(v.t, i.t), typ: u.Elem()}
			case *types.Map:
				_, h := e.st.mapHeaps(u)
				return &SVal{t: sel(sel(h, v.t), i.t), typ: u.Elem()}
			}
		}
		if !strings.HasPrefix(v.t.sort, "(Array") {
			specErr("index of %s : %s", x.args[0].text, v.t.sort)
		}
		return &SVal{t: sel(v.t, i.t)}
	case "upd":
		return &SVal{t: store(e.val(x.args[0]), e.val(x.args[1]), e.val(x.args[2]))}
	case "slice":
		v := e.eval(x.args[0])
		a, b := e.val(x.args[1]), e.val(x.args[2])
		return &SVal{t: mkSlice(sArr(v.t), add(sOff(v.t), a), sub(b, a), sub(sCap(v.t), a)), typ: v.typ}
	case "call":
		return e.callExpr(x)
	}
	specErr("expression %s", x.kind)
	return nil
}

func (e *Env) has(n string) bool {
	if _, ok := e.names[n]; ok {
		return true
	}
	if e.look != nil && e.look(n) != nil {
		return true
	}
	return false
}

func (e *Env) ident(n string) *SVal {
	g := e.g
	switch n {
	case "true":
		return &SVal{t: tTrue}
	case "false":
		return &SVal{t: tFalse}
	case "nil":
		return &SVal{t: tNull}
	}
	if v, ok := e.names[n]; ok {
		return v
	}
	if e.look != nil {
		if v := e.look(n); v != nil {
			if v.t != nil {
				e.note(v)
			}
			return v
		}
	}
	if srt, ok := g.spec.ghosts[n]; ok {
		s, typ := g.specSort(srt)
		return &SVal{t: e.st.heap("G:"+n, s), typ: typ}
	}
	if f := g.spec.funcs[n]; f != nil && len(f.params) == 0 {
		return e.applyFunc(f, nil)
	}
	specErr("unknown name %s", n)
	return nil
}

func (e *Env) pkgMember(p *types.Package, n string) *SVal {
	o := p.Scope().Lookup(n)
	switch o := o.(type) {
	case *types.Const:
		c := e.g.constVal(o.Val(), o.Type())
		return &SVal{t: c, typ: o.Type()}
	case *types.Var:
		return &SVal{t: e.st.heap("V:"+p.Name()+"."+n, e.g.sortOf(o.Type())), typ: o.Type()}
	}
	specErr("unknown name %s.%s", p.Name(), n)
	return nil
}

func (g *Gen) constVal(v constant.Value, t types.Type) *Term {
	switch {
	case isInt(t) || (v.Kind() == constant.Int && !isFloat(t)):
		n := new(big.Int)
		n.SetString(constant.ToInt(v).ExactString(), 10)
		return g.intConst(n, t)
	case v.Kind() == constant.Bool:
		return boolT(constant.BoolVal(v))
	case v.Kind() == constant.String:
		s := constant.StringVal(v)
		if s == "" {
			return sym("str.empty", "Str")
		}
		id, ok := g.strs[s]
		if !ok {
			id = len(g.strs) + 1
			g.strs[s] = id
		}
		return mk("str.lit", "Str", intT(int64(id)))
	}
	return mk("flt.lit", "Flt", intT(int64(g.strID("float:"+v.ExactString()))))
}

func (g *Gen) strID(s string) int {
	id, ok := g.strs[s]
	if !ok {
		id = len(g.strs) + 1
		g.strs[s] = id
	}
	return id
}

func (e *Env) field(v *SVal, n string) *SVal {
	t := v.typ
	if t == nil {
		specErr("field %s of a mathematical value", n)
	}
	var pkg *types.Package
	bt := t
	if p, ok := bt.Underlying().(*types.Pointer); ok {
		bt = p.Elem()
	}
	if nt, ok := types.Unalias(bt).(*types.Named); ok {
		pkg = nt.Obj().Pkg()
	}
	obj, path, _ := types.LookupFieldOrMethod(t, true, pkg, n)
	if _, ok := obj.(*types.Var); !ok {
		specErr("no field %s in %s", n, t)
	}
	cur := v
	for _, i := range path {
		cur = e.field1(cur, i)
	}
	return cur
}

func (e *Env) field1(v *SVal, i int) *SVal {
	if p, ok := v.typ.Underlying().(*types.Pointer); ok {
		st := p.Elem()
		f := st.Underlying().(*types.Struct).Field(i)
		if v.t == nil { // address value
			lv := *v.lv.lv
			lv.path = append(append([]pstep(nil), lv.path...), pstep{fld: i, typ: f.Type()})
			r := e.st.load(&Val{lv: &lv}, f.Type())
			return &SVal{t: r.t, lv: r, typ: f.Type()}
		}
		if isStruct(f.Type()) {
			return &SVal{t: mkSub(v.t, i), typ: types.NewPointer(f.Type())}
		}
		r := &SVal{t: e.st.readField(st, v.t, i), typ: f.Type()}
		e.note(r)
		return r
	}
	u, ok := v.typ.Underlying().(*types.Struct)
	if !ok {
		specErr("field of %s", v.typ)
	}
	r := &SVal{t: e.g.structSel(v.t, i), typ: u.Field(i).Type()}
	e.note(r)
	return r
}

func (e *Env) binary(x *Expr) *SVal {
	g := e.g
	switch x.name {
	case "&&":
		a := e.b(x.args[0])
		if isFalse(a) {
			return &SVal{t: tFalse}
		}
		return &SVal{t: and(a, e.b(x.args[1]))}
	case "||":
		return &SVal{t: or(e.b(x.args[0]), e.b(x.args[1]))}
	case "==>":
		return &SVal{t: implies(e.b(x.args[0]), e.b(x.args[1]))}
	case "<==>":
		return &SVal{t: eq(e.b(x.args[0]), e.b(x.args[1]))}
	}
	l, r := e.eval(x.args[0]), e.eval(x.args[1])
	if l.t == nil || r.t == nil {
		specErr("address in %s", x.text)
	}
	a, b := l.t, r.t
	if g.bv && isBV(a.sort) {
		a, b = g.widen(l), g.widen(r)
		switch x.name {
		case "==":
			return &SVal{t: eq(a, b)}
		case "!=":
			return &SVal{t: not(eq(a, b))}
		case "<":
			return &SVal{t: bvCmp(token.LSS, a, b, true)}
		case "<=":
			return &SVal{t: bvCmp(token.LEQ, a, b, true)}
		case ">":
			return &SVal{t: bvCmp(token.GTR, a, b, true)}
		case ">=":
			return &SVal{t: bvCmp(token.GEQ, a, b, true)}
		}
		ops := map[string]token.Token{"+": token.ADD, "-": token.SUB, "*": token.MUL, "/": token.QUO, "%": token.REM, "&": token.AND, "|": token.OR, "^": token.XOR, "<<": token.SHL, ">>": token.SHR, "&^": token.AND_NOT}
		return &SVal{t: bvArith(ops[x.name], a, b, true)}
	}
	switch x.name {
	case "==", "!=":
		if a.sort != b.sort {
			// nil of other types
			if b.s == "null" {
				b = g.nilOf(l)
			} else if a.s == "null" {
				a = g.nilOf(r)
			}
			if a.sort != b.sort {
				specErr("comparison of %s and %s in %s", a.sort, b.sort, x.text)
			}
		}
		q := eq(a, b)
		if a.sort == SL && (same(b, nilSlice) || same(a, nilSlice)) {
			q = eq(sArr(a), sArr(b))
		}
		if x.name == "!=" {
			q = not(q)
		}
		return &SVal{t: q}
	}
	if a.sort == "Flt" && b.sort == "Flt" {
		switch x.name {
		case "<":
			return &SVal{t: mk("flt.lt", "Bool", a, b)}
		case "<=":
			return &SVal{t: mk("flt.le", "Bool", a, b)}
		case ">":
			return &SVal{t: mk("flt.lt", "Bool", b, a)}
		case ">=":
			return &SVal{t: mk("flt.le", "Bool", b, a)}
		case "+", "-", "*", "/":
			return &SVal{t: mk("flt."+x.name+"op", "Flt", a, b)}
		}
	}
	if a.sort != "Int" || b.sort != "Int" {
		specErr("%s on %s and %s in %s", x.name, a.sort, b.sort, x.text)
	}
	switch x.name {
	case "<":
		return &SVal{t: lt(a, b)}
	case "<=":
		return &SVal{t: le(a, b)}
	case ">":
		return &SVal{t: lt(b, a)}
	case ">=":
		return &SVal{t: le(b, a)}
	case "+":
		return &SVal{t: add(a, b)}
	case "-":
		return &SVal{t: sub(a, b)}
	case "*":
		return &SVal{t: mul(a, b)}
	case "/":
		return &SVal{t: ediv(a, b)}
	case "%":
		return &SVal{t: emod(a, b)}
	}
	tt := types.Typ[types.Uint64]
	ops := map[string]token.Token{"&": token.AND, "|": token.OR, "^": token.XOR, "<<": token.SHL, ">>": token.SHR, "&^": token.AND_NOT}
	if o, ok := ops[x.name]; ok {
		return &SVal{t: g.arith(o, tt, a, b)}
	}
	specErr("operator %s", x.name)
	return nil
}

func (g *Gen) nilOf(v *SVal) *Term {
	if v.typ != nil {
		return g.zero(v.typ)
	}
	switch v.t.sort {
	case SL:
		return nilSlice
	case "Iface":
		return sym("if.nil", "Iface")
	case "Int":
		return intT(0)
	}
	return tNull
}

func (e *Env) callExpr(x *Expr) *SVal {
	g := e.g
	switch x.name {
	case "old":
		if e.old == nil {
			specErr("old outside of a postcondition")
		}
		if e.oldEnv != nil {
			n := e.oldEnv.with(e.old)
			n.sink = e.sink
			n.old = e.old
			// bound variables stay visible, and so do the locals the entry
			// does not know
			n = n.bind(nil)
			first, cur := n.look, e.look
			n.look = func(id string) *SVal {
				if first != nil {
					if v := first(id); v != nil {
						return v
					}
				}
				if cur == nil {
					return nil
				}
				return cur(id)
			}
			for k, v := range e.names {
				if _, ok := n.names[k]; !ok || (v.t != nil && strings.Contains(v.t.s, "?")) {
					n.names[k] = v
				}
			}
			return n.eval(x.args[0])
		}
		return e.with(e.old).eval(x.args[0])
	case "at":
		var l *label
		if e.st.labels != nil {
			l = e.st.labels[x.args[0].name]
		}
		if l == nil && e.sink != nil && e.sink.labels != nil {
			l = e.sink.labels[x.args[0].name]
		}
		if l == nil { // not passed on this path: the entry state
			y := *x
			y.name = "old"
			y.args = x.args[1:]
			return e.callExpr(&y)
		}
		n := l.env.with(l.st)
		n.sink = e.sink
		n = n.bind(nil)
		for k, v := range e.names {
			if _, ok := n.names[k]; !ok || (v.t != nil && strings.Contains(v.t.s, "?")) {
				n.names[k] = v
			}
		}
		return n.eval(x.args[1])
	case "pre":
		if e.pre == nil {
			specErr("pre outside of a loop")
		}
		n := e.with(e.pre)
		if e.preEnv != nil {
			n = e.preEnv.with(e.pre)
			n.sink, n.old, n.oldEnv = e.sink, e.old, e.oldEnv
			n = n.bind(nil)
			for k, v := range e.names {
				if _, ok := n.names[k]; !ok || (v.t != nil && strings.Contains(v.t.s, "?")) {
					n.names[k] = v
				}
			}
		}
		return n.eval(x.args[0])
	case "len":
		v := e.eval(x.args[0])
		if v.typ != nil {
			switch u := v.typ.Underlying().(type) {
			case *types.Array:
				return &SVal{t: intT(u.Len())}
			case *types.Basic:
				return &SVal{t: mk("strlen", "Int", v.t)}
			case *types.Map:
				return &SVal{t: sel(e.st.heap("ML:"+tname(v.typ.Underlying()), "(Array Int Int)"), v.t)}
			}
		}
		return &SVal{t: sLen(v.t)}
	case "cap":
		return &SVal{t: sCap(e.val(x.args[0]))}
	case "arr":
		return &SVal{t: sArr(e.val(x.args[0]))}
	case "off":
		return &SVal{t: sOff(e.val(x.args[0]))}
	case "row":
		v := e.eval(x.args[0])
		u, ok := v.typ.Underlying().(*types.Slice)
		if !ok {
			specErr("row of %s", v.typ)
		}
		return &SVal{t: e.st.row(u.Elem(), sArr(v.t))}
	case "next":
		return &SVal{t: e.st.next}
	case "fresh", "pfresh":
		v := e.val(x.args[0])
		n := e.old.next
		if x.name == "pfresh" { // allocated since the loop was entered
			if e.pre == nil {
				specErr("pfresh outside of a loop")
			}
			n = e.pre.next
		}
		if v.sort == SL {
			return &SVal{t: le(n, sArr(v))}
		}
		if v.sort == "Int" {
			return &SVal{t: le(n, v)}
		}
		return &SVal{t: and(mk("(_ is obj)", "Bool", v), le(n, mk("oid", "Int", v)))}
	case "dom":
		v := e.eval(x.args[0])
		u := v.typ.Underlying().(*types.Map)
		h, _ := e.st.mapHeaps(u)
		return &SVal{t: sel(sel(h, v.t), e.val(x.args[1]))}
	case "mapdom":
		v := e.eval(x.args[0])
		u := v.typ.Underlying().(*types.Map)
		h, _ := e.st.mapHeaps(u)
		return &SVal{t: sel(h, v.t)}
	case "mapval":
		v := e.eval(x.args[0])
		u := v.typ.Underlying().(*types.Map)
		_, h := e.st.mapHeaps(u)
		return &SVal{t: sel(h, v.t)}
	case "isnil":
		v := e.eval(x.args[0])
		if v.t.sort == SL {
			return &SVal{t: eq(sArr(v.t), intT(0))}
		}
		return &SVal{t: eq(v.t, g.nilOf(v))}
	case "emptyset":
		return &SVal{t: constArr("(Array Int Bool)", tFalse)}
	case "zerorow":
		return &SVal{t: constArr("(Array Int Int)", intT(0))}
	case "ix": // the index of element i of a slice at an offset
		return &SVal{t: ixT(e.val(x.args[0]), e.val(x.args[1]))}
	case "bitat": // bit k of a number
		return &SVal{t: mk("bitat", "Bool", e.val(x.args[0]), e.val(x.args[1]))}
	case "ifref": // the pointer held by an interface value
		return &SVal{t: mk("if.ref", "Ref", e.val(x.args[0]))}
	case "cast": // cast(x, T): view a reference as *T; T given as pkg_Type
		v := e.eval(x.args[0])
		t := g.goType(strings.Replace(x.args[1].name, "_", ".", 1))
		return &SVal{t: v.t, typ: types.NewPointer(t)}
	}
	if f := g.spec.funcs[x.name]; f != nil {
		var args []*SVal
		for _, a := range x.args {
			args = append(args, e.eval(a))
		}
		return e.applyFunc(f, args)
	}
	specErr("unknown function %s", x.name)
	return nil
}

func (e *Env) applyFunc(f *FuncDecl, args []*SVal) *SVal {
	g := e.g
	if len(args) != len(f.params) {
		specErr("%s: %d arguments", f.name, len(args))
	}
	if f.kind == "macro" || (e.reveal[f.name] || g.reveal[f.name]) && f.kind == "opaque" {
		if e.depth > 60 {
			specErr("recursive macro %s", f.name)
		}
		n := *e
		n.depth++
		n.names = map[string]*SVal{}
		n.look = nil
		n.oldEnv = nil
		for i, p := range f.params {
			a := *args[i]
			if a.typ == nil {
				if _, typ := g.specSort(p.typ); typ != nil {
					a.typ = typ
				}
			}
			n.names[p.name] = &a
		}
		r := n.eval(f.body)
		if f.ret != "bool" && f.ret != "int" {
			if _, typ := g.specSort(f.ret); typ != nil {
				return &SVal{t: r.t, lv: r.lv, typ: typ}
			}
		}
		return r
	}
	var ts []*Term
	for i, p := range f.params {
		srt, _ := g.specSort(p.typ)
		t := args[i].t
		if g.bv && isBV(t.sort) {
			t = g.widen(args[i])
		}
		if t.s == "null" && srt != "Ref" {
			t = g.nilOf(&SVal{t: sym("x", srt)})
		}
		if t.sort != srt {
			specErr("%s: argument %d has sort %s, not %s", f.name, i, t.sort, srt)
		}
		ts = append(ts, t)
	}
	srt, typ := g.specSort(f.ret)
	return &SVal{t: app(g.specFn(f), srt, ts...), typ: typ}
}

func (g *Gen) specFn(f *FuncDecl) string {
	if g.bv {
		return "f." + f.name + ".bv"
	}
	return "f." + f.name
}

func (s *State) mapHeaps(u *types.Map) (dom, val *Term) {
	k, v := s.g.sortOf(u.Key()), s.g.sortOf(u.Elem())
	n := tname(u)
	return s.heap("MD:"+n, arrSort("Int", arrSort(k, "Bool"))), s.heap("MV:"+n, arrSort("Int", arrSort(k, v)))
}

var _ ssa.Value

var iteNames = map[string]*Term{}

// noIte names the conditional subterms of a trigger: solvers do not accept
// them in patterns.
func (e *Env) noIte(t *Term) *Term {
	if e.sink == nil || !strings.Contains(t.s, "(ite ") {
		return t
	}
	if t.op == "ite" && !strings.Contains(t.s, "?") {
		c := iteNames[t.s]
		if c == nil {
			c = e.g.fresh("ite", t.sort)
			iteNames[t.s] = c
		}
		e.sink.assume(mk("=", "Bool", c, t))
		return c
	}
	if t.q != nil || len(t.args) == 0 || t.op == "constarr" {
		return t
	}
	as := make([]*Term, len(t.args))
	for i, a := range t.args {
		as[i] = e.noIte(a)
	}
	return mk(t.op, t.sort, as...)
}
