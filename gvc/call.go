package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (x *exec) stmts(ss []Stmt, e *Env, st *State, pos token.Pos) {
	g := x.g
	for _, s := range ss {
		switch s.kind {
		case "ghost":
			srt, ok := g.spec.ghosts[s.name]
			if !ok {
				specErr("no ghost %s", s.name)
			}
			so, _ := g.specSort(srt)
			v := e.val(s.e)
			if s.idx != nil {
				v = store(st.heap("G:"+s.name, so), e.val(s.idx), v)
			}
			n := g.fresh("G:"+s.name, so)
			st.pc = &PC{st.pc, mk("=", "Bool", n, v)}
			if v.op == "store" {
				defs[n.s] = v
			}
			st.heaps["G:"+s.name] = n
		case "label":
			c := st.clone()
			l := &label{st: c}
			if e.mk != nil {
				l.env = e.mk(c)
			} else {
				l.env = e.with(c)
			}
			if st.labels == nil {
				st.labels = map[string]*label{}
			}
			st.labels[s.name] = l
		case "assert":
			t := e.b(s.e)
			if s.from != nil {
				// the facts are obligations, and t is proved from them
				// alone, and the definitions of the ghosts and of the heap: the rest of what is known
				// is left out
				iso := st.clone()
				iso.pc = nil
				iso.seen = map[string]bool{}
				var def []*Term
				for q := st.pc; q != nil; q = q.prev {
					if q.t.op == "=" && len(q.t.args[0].s) > 3 && strings.Contains("|G:|H:|F:", q.t.args[0].s[:3]) && len(q.t.args[0].args) == 0 {
						def = append(def, q.t)
					}
				}
				for i := len(def) - 1; i >= 0; i-- {
					iso.assume(def[i])
				}
				for _, f := range s.from {
					ft := e.b(f)
					x.oblige(st, "fact "+short(f.text), ft, pos)
					st.assume(ft)
					iso.assume(ft)
				}
				x.oblige(iso, "assert "+short(s.e.text), t, pos)
				st.assume(t)
				break
			}
			x.oblige(st, "assert "+short(s.e.text), t, pos)
			st.assume(t)
		case "assume":
			g.assumed[x.name+": "+s.e.text] = true
			st.assume(e.b(s.e))
		case "use":
			pre, post := e.lemmaInst(s.e)
			if s.when != nil {
				c := e.b(s.when)
				ps := []*Term{pre}
				if pre.op == "and" {
					ps = append([]*Term(nil), pre.args...)
				}
				for i := range ps {
					ps[i] = implies(c, ps[i])
				}
				pre, post = and(ps...), implies(c, post)
			}
			x.oblige(st, "lemma "+s.e.name+" applies", pre, pos)
			st.assume(post)
		case "have":
			// the lemma as an implication
			pre, post := e.lemmaInst(s.e)
			st.assume(implies(pre, post))
		}
	}
}

func (e *Env) lemmaInst(u *Expr) (*Term, *Term) {
	l := e.g.spec.lemmas[u.name]
	if l == nil {
		specErr("no lemma %s", u.name)
	}
	if len(l.params) != len(u.args) {
		specErr("lemma %s: %d arguments", u.name, len(u.args))
	}
	nm := map[string]*SVal{}
	for i, p := range l.params {
		v := e.eval(u.args[i])
		if v.typ == nil {
			_, v.typ = e.g.specSort(p.typ)
		}
		nm[p.name] = v
	}
	n := *e
	n.names = nm
	n.look = nil
	n.oldEnv = nil
	var pre, post []*Term
	for _, r := range l.requires {
		pre = append(pre, n.b(r))
	}
	for _, r := range l.ensures {
		post = append(post, n.b(r))
	}
	e.g.used["lemma "+u.name] = true
	return and(pre...), and(post...)
}

func (x *exec) anchors(where, callee string, n int, fr *Frame, st *State, pos token.Pos, extra map[string]*SVal) {
	for _, a := range x.c.anchors {
		if a.where != where || a.call != callee || (a.n >= 0 && a.n != n) {
			continue
		}
		e := x.env(fr, st, nil)
		if lc := x.active["cur"]; lc != nil {
			le := x.loopEnv(lc, st)
			base := e.look
			e.look = func(n string) *SVal {
				if n == "iter" || strings.HasPrefix(n, "iter$") || n == "visited" {
					return le.look(n)
				}
				return base(n)
			}
			e.pre = lc.entry
		}
		if extra != nil {
			e = e.bind(extra)
		}
		x.stmts(a.stmts, e, st, pos)
	}
}

// deferred is a call which runs when the function returns.
type deferred struct {
	frame int
	in    *ssa.Defer
	args  []*Val
	fv    *Val
	next  *deferred
}

// callArgs evaluates the arguments of a call, and the function where it is a
// value.
func (x *exec) callArgs(fr *Frame, st *State, cc *ssa.CallCommon) ([]*Val, *Val) {
	var args []*Val
	if cc.IsInvoke() {
		args = append(args, x.val(fr, st, cc.Value))
	}
	for _, a := range cc.Args {
		args = append(args, x.val(fr, st, a))
	}
	if _, ok := cc.Value.(*ssa.Builtin); ok || cc.IsInvoke() {
		return args, nil
	}
	fv := &Val{fn: cc.StaticCallee()}
	if mc, ok := cc.Value.(*ssa.MakeClosure); ok {
		for _, b := range mc.Bindings {
			fv.binds = append(fv.binds, x.val(fr, st, b))
		}
	} else if fv.fn == nil {
		fv = x.val(fr, st, cc.Value)
	}
	return args, fv
}

// runDefers runs the deferred calls of the frame, the last one first.
func (x *exec) runDefers(fr *Frame, st *State, cont func(*State)) {
	d := st.defers
	if d == nil || d.frame != fr.id {
		cont(st)
		return
	}
	st.defers = d.next
	x.invoke(fr, st, d.in, d.args, d.fv, func(st *State, _ []*Val) { x.runDefers(fr, st, cont) })
}

func (x *exec) call(fr *Frame, st *State, in *ssa.Call, cont func(*State, []*Val)) {
	args, fv := x.callArgs(fr, st, in.Common())
	x.invoke(fr, st, in, args, fv, cont)
}

func (x *exec) invoke(fr *Frame, st *State, in ssa.CallInstruction, args []*Val, fv *Val, cont func(*State, []*Val)) {
	cc := in.Common()
	name := x.callName(cc)
	ord, ok := x.calls[fmt.Sprintf("%s>%d", fr.path, x.callIdx(in))]
	if !ok {
		ord = -2
	}
	extra := map[string]*SVal{}
	hasAnchor := false
	for _, a := range x.c.anchors {
		if a.call == name {
			hasAnchor = true
		}
	}
	if hasAnchor {
		for i, a := range args {
			if a.t != nil {
				var t types.Type
				if cc.IsInvoke() {
					if i == 0 {
						t = cc.Value.Type()
					} else {
						t = cc.Args[i-1].Type()
					}
				} else {
					t = cc.Args[i].Type()
				}
				extra[fmt.Sprintf("arg%d", i)] = &SVal{t: a.t, typ: t}
			}
		}
		x.anchors("before", name, ord, fr, st, in.Pos(), extra)
		c0 := cont
		cont = func(st *State, rs []*Val) {
			for i, r := range rs {
				if r.t != nil {
					extra[fmt.Sprintf("res%d", i)] = &SVal{t: r.t, typ: resType(cc, i)}
				}
			}
			x.anchors("after", name, ord, fr, st, in.Pos(), extra)
			c0(st, rs)
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); !ok || b.Name() != "append" {
		for i, a := range args {
			if a.va != nil {
				j := i
				if cc.IsInvoke() {
					j--
				}
				el := cc.Args[j].Type().Underlying().(*types.Slice).Elem()
				id := st.next
				st.next = add(st.next, intT(1))
				st.setRow(el, id, a.va)
				args[i] = vt(mkSlice(id, intT(0), intT(a.van), intT(a.van)))
			}
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		bi, ok := in.(*ssa.Call)
		if !ok {
			bail("defer of %s", b.Name())
		}
		cont(st, x.builtin(fr, st, bi, b.Name(), args))
		return
	}
	if cc.IsInvoke() {
		c := x.g.spec.contracts[name]
		if c == nil {
			bail("no contract for interface method %s", name)
		}
		cont(st, x.apply(c, name, cc.Signature(), args, st, in.Pos(), nil, nil))
		return
	}
	if fv.fn == nil {
		bail("call of an unknown function value")
	}
	fn, binds := fv.fn, fv.binds
	if cc.StaticCallee() == nil {
		name = specName(fn)
	}
	if c := x.contractOf(fn); c != nil {
		cont(st, x.apply(c, name, fn.Signature, args, st, in.Pos(), fn, binds))
		return
	}
	if len(fn.Blocks) == 0 || !x.inRepo(fn) {
		bail("no contract for %s", name)
	}
	if fr.depth > 10 {
		bail("inlining of %s is too deep", name)
	}
	for f := fr; f != nil; f = f.parent {
		if f.fn == fn {
			bail("recursive function %s without contract", name)
		}
	}
	x.g.inlined[specName(fn)] = true
	nf := x.frame(fn, fr, fmt.Sprintf("%s>%d", fr.path, x.callIdx(in)))
	nf.args, nf.binds = args, binds
	cur := x.active["cur"]
	nf.ret = func(st *State, rs []*Val) {
		sv := x.active["cur"]
		x.active["cur"] = cur
		cont(st, rs)
		x.active["cur"] = sv
	}
	x.run(nf, fn.Blocks[0], nil, st)
}

func resType(cc *ssa.CallCommon, i int) types.Type {
	r := cc.Signature().Results()
	if i < r.Len() {
		return r.At(i).Type()
	}
	return nil
}

func (x *exec) inRepo(fn *ssa.Function) bool {
	p := fn.Pkg
	if p == nil && fn.Parent() != nil {
		p = fn.Parent().Pkg
	}
	if p != nil {
		return strings.HasPrefix(p.Pkg.Path(), "github.com/go-air/gini")
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return strings.HasPrefix(o.Pkg().Path(), "github.com/go-air/gini")
	}
	return true
}

// apply uses a contract at a call.
func (x *exec) apply(c *Contract, name string, sig *types.Signature, args []*Val, st *State, pos token.Pos, clo *ssa.Function, binds []*Val) []*Val {
	g := x.g
	g.used[c.name] = true
	nm := map[string]*SVal{}
	var ptypes []types.Type
	if sig.Recv() != nil {
		ptypes = append(ptypes, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ptypes = append(ptypes, sig.Params().At(i).Type())
	}
	if len(c.params) > len(args) {
		specErr("%s: the contract has %d parameters, the function %d", c.name, len(c.params), len(args))
	}
	for i, p := range c.params {
		a := args[i]
		var t types.Type
		if i < len(ptypes) {
			t = ptypes[i]
		}
		if a.t != nil {
			nm[p] = &SVal{t: a.t, typ: t}
		} else {
			nm[p] = &SVal{lv: a, typ: t}
		}
	}
	env := &Env{g: g, st: st, old: st, names: nm, sink: st}
	closure := clo != nil && len(clo.FreeVars) > 0
	if closure {
		env.look = func(n string) *SVal { return x.freeVar(clo, binds, st, n) }
		for i, fv := range clo.FreeVars {
			if _, ok := elemOfPtr(fv.Type()).Underlying().(*types.Signature); !ok {
				continue
			}
			v := st.load(binds[i], elemOfPtr(fv.Type()))
			if v == nil || v.fn != clo || len(v.binds) != len(binds) {
				bail("%s: captured function is not the closure itself", name)
			}
			for j := range binds {
				if v.binds[j] != binds[j] && !sameAddr(v.binds[j], binds[j]) {
					bail("%s: captured function is not the closure itself", name)
				}
			}
		}
	}
	for i, r := range c.requires {
		n := r.name
		if n == "" {
			n = fmt.Sprintf("#%d", i)
		}
		t := env.b(r.e)
		x.oblige(st, "precondition of "+name+": "+n+" "+short(r.e.text), t, pos)
		st.assume(t)
	}
	if len(c.decr) > 0 && x.c == c {
		// recursion: the measure decreases lexicographically
		ee := x.entEnv.with(x.entry)
		less := tFalse
		for i := len(c.decr) - 1; i >= 0; i-- {
			a, b := env.val(c.decr[i]), ee.val(c.decr[i])
			less = or(and(lt(a, b), le(intT(0), b)), and(mk("=", "Bool", a, b), less))
		}
		x.oblige(st, "the measure of "+c.name+" decreases", less, pos)
	}
	old := st.clone()
	x.havocMods(c, env, st, old, clo, binds)
	var res []*Val
	rs := sig.Results()
	rn := map[string]*SVal{}
	var pargs []*Term
	for i := 0; i < rs.Len(); i++ {
		t := rs.At(i).Type()
		var v *Term
		if c.pure != "" && i == 0 {
			for _, a := range args {
				pargs = append(pargs, a.t)
			}
			f := g.spec.funcs[c.pure]
			if f == nil {
				specErr("no function %s", c.pure)
			}
			e2 := *env
			e2.st = old
			var as []*SVal
			for _, p := range c.params {
				as = append(as, nm[p])
			}
			v = e2.applyFunc(f, as).t
		} else {
			v = g.fresh("r."+c.name, g.sortOf(t))
		}
		res = append(res, vt(v))
		if i < len(c.results) {
			rn[c.results[i]] = &SVal{t: v, typ: t}
		}
		rn[fmt.Sprintf("result%d", i)] = &SVal{t: v, typ: t}
		if i == 0 {
			rn["result"] = rn["result0"]
		}
	}
	post := &Env{g: g, st: st, old: old, oldEnv: env, names: nm, sink: st}
	if closure {
		post.look = func(n string) *SVal { return x.freeVar(clo, binds, st, n) }
	}
	post = post.bind(rn)
	oe := *env
	oe.st = old
	oe.old = old
	if closure {
		oe.look = func(n string) *SVal { return x.freeVar(clo, binds, old, n) }
	}
	oe.sink = st
	post.oldEnv = &oe
	x.postMods(c, post, st, old)
	for i := 0; i < rs.Len(); i++ {
		st.assume(g.rangeOf(rs.At(i).Type(), res[i].t, st.next))
	}
	for _, r := range c.ensures {
		st.assume(post.b(r.e))
	}
	return res
}

type modTarget struct {
	heap string
	srt  string
	idx  *Term // nil: all
}

// targets lists the heap entries which a modifies item denotes.
func (x *exec) targets(m ModItem, e *Env) []modTarget {
	g := x.g
	switch m.kind {
	case "ghost":
		if srt, ok := g.spec.ghosts[m.name]; ok {
			s, _ := g.specSort(srt)
			return []modTarget{{heap: "G:" + m.name, srt: s}}
		}
		specErr("modifies %s", m.name)
	case "field":
		ex := m.e
		if ex.kind == "field" && ex.args[0].kind == "id" && !e.has(ex.args[0].name) {
			if p := g.pkgs[ex.args[0].name]; p != nil {
				if v, ok := p.Scope().Lookup(ex.name).(*types.Var); ok {
					return []modTarget{{heap: "V:" + p.Name() + "." + ex.name, srt: g.sortOf(v.Type())}}
				}
			}
		}
		if ex.kind == "index" { // ghost[i]
			if ex.args[0].kind == "id" {
				if srt, ok := g.spec.ghosts[ex.args[0].name]; ok {
					s, _ := g.specSort(srt)
					return []modTarget{{heap: "G:" + ex.args[0].name, srt: s, idx: e.val(ex.args[1])}}
				}
			}
		}
		if ex.kind != "field" {
			specErr("modifies %s", ex.text)
		}
		base := e.eval(ex.args[0])
		return g.fieldTargets(e, base, ex.name)
	case "all":
		v := e.eval(m.e)
		return g.allFields(v)
	case "elems":
		v := e.eval(m.e)
		el := v.typ.Underlying().(*types.Slice).Elem()
		return []modTarget{{heap: elemHeap(el), srt: elSort(g, el), idx: sArr(v.t)}}
	case "rows":
		el := g.goType(m.name)
		return []modTarget{{heap: elemHeap(el), srt: elSort(g, el)}}
	case "map":
		v := e.eval(m.e)
		u := v.typ.Underlying().(*types.Map)
		d, h := e.st.mapHeaps(u)
		n := tname(u)
		return []modTarget{{"MD:" + n, d.sort, v.t}, {"MV:" + n, h.sort, v.t}, {"ML:" + n, "(Array Int Int)", v.t}}
	case "heap":
		i := strings.LastIndexByte(m.name, '.')
		t := g.goType(m.name[:i])
		u := t.Underlying().(*types.Struct)
		for k := 0; k < u.NumFields(); k++ {
			if u.Field(k).Name() == m.name[i+1:] {
				return []modTarget{{heap: fieldHeap(t, u.Field(k).Name()), srt: arrSort("Ref", g.sortOf(u.Field(k).Type()))}}
			}
		}
		specErr("no field %s", m.name)
	}
	return nil
}

func (g *Gen) fieldTargets(e *Env, base *SVal, n string) []modTarget {
	if base.t == nil || base.typ == nil {
		specErr("modifies field %s of an address", n)
	}
	pt, ok := base.typ.Underlying().(*types.Pointer)
	if !ok {
		specErr("modifies field %s of %s", n, base.typ)
	}
	var pkg *types.Package
	if nt, ok := types.Unalias(pt.Elem()).(*types.Named); ok {
		pkg = nt.Obj().Pkg()
	}
	obj, path, _ := types.LookupFieldOrMethod(base.typ, true, pkg, n)
	if _, ok := obj.(*types.Var); !ok {
		specErr("no field %s in %s", n, base.typ)
	}
	cur := base
	for k, i := range path {
		st := cur.typ.Underlying().(*types.Pointer).Elem()
		f := st.Underlying().(*types.Struct).Field(i)
		if k == len(path)-1 {
			if isStruct(f.Type()) {
				return g.allFields(&SVal{t: mkSub(cur.t, i), typ: types.NewPointer(f.Type())})
			}
			return []modTarget{{heap: fieldHeap(st, f.Name()), srt: arrSort("Ref", g.sortOf(f.Type())), idx: cur.t}}
		}
		cur = e.field1(cur, i)
	}
	return nil
}

func (g *Gen) allFields(v *SVal) []modTarget {
	pt, ok := v.typ.Underlying().(*types.Pointer)
	if !ok || v.t == nil {
		specErr("modifies .* of %s", v.typ)
	}
	st := pt.Elem()
	u := st.Underlying().(*types.Struct)
	var r []modTarget
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if isStruct(f.Type()) {
			r = append(r, g.allFields(&SVal{t: mkSub(v.t, i), typ: types.NewPointer(f.Type())})...)
			continue
		}
		r = append(r, modTarget{heap: fieldHeap(st, f.Name()), srt: arrSort("Ref", g.sortOf(f.Type())), idx: v.t})
	}
	return r
}

func (x *exec) havocTarget(st *State, t modTarget) {
	h := st.heap(t.heap, t.srt)
	if t.idx == nil {
		st.havocHeap(t.heap, t.srt)
		return
	}
	_, vs := arrParts(t.srt)
	v := x.g.fresh("hv", vs)
	markTyped(t.heap, v, st.next)
	st.setHeap(t.heap, store(h, t.idx, v))
}

func (x *exec) havocMods(c *Contract, env *Env, st, old *State, clo *ssa.Function, binds []*Val) {
	oe := *env
	oe.st = old
	if clo != nil && len(clo.FreeVars) > 0 {
		oe.look = func(n string) *SVal { return x.freeVar(clo, binds, old, n) }
	}
	oe.sink = st
	// the callee may allocate
	if len(c.modifies) > 0 || !c.trusted {
		n := x.g.fresh("next", "Int")
		st.assume(le(st.next, n))
		st.next = n
	}
	for _, m := range c.modifies {
		if m.post {
			continue
		}
		if m.kind == "ghost" && clo != nil && isFreeVar(clo, m.name) {
			for i, fv := range clo.FreeVars {
				if fv.Name() == m.name {
					t := elemOfPtr(fv.Type())
					v := x.g.fresh("hv", x.g.sortOf(t))
					st.assume(x.g.rangeOf(t, v, st.next))
					st.storeTo(binds[i], t, vt(v))
				}
			}
			continue
		}
		for _, t := range x.targets(m, &oe) {
			x.havocTarget(st, t)
		}
	}
}

// postMods havocs what is named through the state after the call (new
// slices and objects).
func (x *exec) postMods(c *Contract, post *Env, st, old *State) {
	for _, m := range c.modifies {
		if !m.post {
			continue
		}
		for _, t := range x.targets(m, post) {
			x.havocTarget(st, t)
		}
	}
}

func (x *exec) builtin(fr *Frame, st *State, in *ssa.Call, name string, args []*Val) []*Val {
	g := x.g
	cc := in.Common()
	switch name {
	case "len", "cap":
		v := args[0].t
		switch u := cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			if name == "len" {
				return []*Val{vt(sLen(v))}
			}
			return []*Val{vt(sCap(v))}
		case *types.Array:
			return []*Val{vt(intT(u.Len()))}
		case *types.Map:
			r := sel(st.heap("ML:"+tname(u), "(Array Int Int)"), v)
			st.assume(le(intT(0), r))
			return []*Val{vt(r)}
		case *types.Basic:
			r := mk("strlen", "Int", v)
			st.assume(le(intT(0), r))
			return []*Val{vt(r)}
		}
		r := g.fresh("len", "Int")
		st.assume(le(intT(0), r))
		return []*Val{vt(r)}
	case "append":
		return []*Val{vt(x.append(st, cc, args))}
	case "copy":
		d, s := args[0].t, args[1].t
		if s.sort != SL {
			bail("copy of a string")
		}
		el := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
		n := g.fresh("ncopy", "Int")
		st.assume(eq(n, ite(le(sLen(d), sLen(s)), sLen(d), sLen(s))))
		rd, rs := st.row(el, sArr(d)), st.row(el, sArr(s))
		nr := x.rowCopy(st, el, rd, sOff(d), intT(0), rs, sOff(s), n)
		st.setRow(el, sArr(d), nr)
		return []*Val{vt(n)}
	case "delete":
		u := cc.Args[0].Type().Underlying().(*types.Map)
		d, _ := st.mapHeaps(u)
		m, k := args[0].t, args[1].t
		ml := st.heap("ML:"+tname(u), "(Array Int Int)")
		st.setHeap("ML:"+tname(u), store(ml, m, ite(sel(sel(d, m), k), sub(sel(ml, m), intT(1)), sel(ml, m))))
		st.setHeap("MD:"+tname(u), store(d, m, store(sel(d, m), k, tFalse)))
		return nil
	case "print", "println":
		return nil
	case "min", "max":
		r := args[0].t
		for _, a := range args[1:] {
			if name == "min" {
				r = ite(le(r, a.t), r, a.t)
			} else {
				r = ite(le(a.t, r), r, a.t)
			}
		}
		return []*Val{vt(r)}
	case "ssa:deferstack":
		return []*Val{vt(tNull)}
	case "ssa:wrapnilchk":
		return []*Val{args[0]}
	case "close":
		return nil
	}
	bail("builtin %s", name)
	return nil
}

// rowCopy: the row rd with the n elements rs[so..] put at rd[do+at..].
func (x *exec) rowCopy(st *State, el types.Type, rd, do, at, rs, so, n *Term) *Term {
	g := x.g
	nr := g.fresh("row", rd.sort)
	vs := mustVal(nr.sort)
	bv := func(h string) *Term { g.nsym++; return sym(fmt.Sprintf("%s?%d", h, g.nsym), "Int") }
	se := func(r, i *Term) *Term { return mk("select", vs, r, i) }
	lo := add(do, at)
	// elsewhere nothing changes
	k := bv("k")
	s := se(nr, k)
	st.assume(quant(true, []*Term{k}, implies(or(lt(k, lo), le(add(lo, n), k)), mk("=", "Bool", s, se(rd, k))), [][]*Term{{s}}))
	// seen through the destination slice
	j := bv("j")
	s = se(nr, ixT(do, j))
	st.assume(quant(true, []*Term{j}, implies(and(le(at, j), lt(j, add(at, n))), mk("=", "Bool", s, se(rs, ixT(so, sub(j, at))))), [][]*Term{{s}}))
	// found from the source (not within one row: that would be a matching loop)
	self := rd.String() == rs.String()
	j = bv("j")
	s = se(rs, ixT(so, j))
	if !self {
		st.assume(quant(true, []*Term{j}, implies(and(le(intT(0), j), lt(j, n)), mk("=", "Bool", se(nr, ixT(do, add(at, j))), s)), [][]*Term{{s}}))
	}
	// seen through the slices which destination and source are parts of
	db, da := offBase(do)
	sb, sa := offBase(so)
	if !isZero(da) || !isZero(sa) {
		a := add(da, at)
		j = bv("j")
		s = se(nr, ixT(db, j))
		st.assume(quant(true, []*Term{j}, implies(and(le(a, j), lt(j, add(a, n))), mk("=", "Bool", s, se(rs, ixT(sb, add(sub(j, a), sa))))), [][]*Term{{s}}))
		j = bv("j")
		s = se(rs, ixT(sb, j))
		if !self {
			st.assume(quant(true, []*Term{j}, implies(and(le(sa, j), lt(j, add(sa, n))), mk("=", "Bool", se(nr, ixT(db, add(sub(j, sa), a))), s)), [][]*Term{{s}}))
		}
	}
	return nr
}

// offBase splits the offset of a part of a slice into that of the slice and
// the start of the part.
func offBase(t *Term) (*Term, *Term) {
	if t.op == "+" {
		for i, a := range t.args {
			if a.op == "s.off" {
				rest := intT(0)
				for k, b := range t.args {
					if k != i {
						rest = add(rest, b)
					}
				}
				return a, rest
			}
			if b, r := offBase(a); b != a {
				for k, c := range t.args {
					if k != i {
						r = add(r, c)
					}
				}
				return b, r
			}
		}
	}
	return t, intT(0)
}

func isZero(t *Term) bool { return t.num != nil && t.num.Sign() == 0 }

func (x *exec) append(st *State, cc *ssa.CallCommon, args []*Val) *Term {
	g := x.g
	s := args[0].t
	el := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	t := args[1].t
	var n *Term
	if args[1].va != nil {
		n = intT(args[1].van)
	} else {
		if t.sort != SL {
			bail("append of a string")
		}
		n = sLen(t)
	}
	// an array literal of known length: element stores
	newLen := add(sLen(s), n)
	fits := g.fresh("fits", "Bool")
	st.pc = &PC{st.pc, mk("=", "Bool", fits, le(newLen, sCap(s)))}
	id := st.next
	st.next = add(st.next, intT(1))
	if st.seen[eq(sArr(s), intT(0)).s] || same(s, nilSlice) {
		st.assume(not(fits))
	}
	arr := g.fresh("arr", "Int")
	arrAlts[arr.s] = [2]*Term{sArr(s), id}
	st.pc = &PC{st.pc, and(implies(fits, mk("=", "Bool", arr, sArr(s))), implies(not(fits), mk("=", "Bool", arr, id)))}
	cp := g.fresh("cap", "Int")
	st.assume(le(newLen, cp))
	st.assume(implies(fits, eq(cp, sCap(s))))
	row := st.row(el, sArr(s))
	var nr *Term
	if n.num != nil && n.num.IsInt64() && n.num.Int64() <= 8 {
		nr = row
		for i := int64(0); i < n.num.Int64(); i++ {
			var v *Term
			if args[1].va != nil {
				v = sel(args[1].va, intT(i))
			} else {
				v = sel(st.row(el, sArr(t)), ixT(sOff(t), intT(i)))
			}
			nr = store(nr, ixT(sOff(s), add(sLen(s), intT(i))), v)
		}
	} else {
		nr = x.rowCopy(st, el, row, sOff(s), sLen(s), st.row(el, sArr(t)), sOff(t), n)
	}
	st.setRow(el, arr, nr)
	return mkSlice(arr, sOff(s), newLen, cp)
}

func sameAddr(a, b *Val) bool {
	if a.lv == nil || b.lv == nil || a.lv.cell == nil || b.lv.cell == nil {
		return a.t != nil && b.t != nil && same(a.t, b.t)
	}
	return *a.lv.cell == *b.lv.cell
}
