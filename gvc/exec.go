package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Ob is one proof obligation.
type Ob struct {
	fn       string
	name     string
	pos      string
	trace    []string
	pc       *PC
	goal     *Term
	cover    bool // must NOT be refutable (vacuity check)
	lemmaOrd int
	bv       bool
	hyp      bool // the goal is among what is known, up to the names of bound variables
}

type loopInfo struct {
	head   *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	pos    token.Pos
	idx    int
}

type Frame struct {
	fn     *ssa.Function
	id     int
	parent *Frame
	path   string // inlining path
	binds  []*Val
	args   []*Val
	loops  map[*ssa.BasicBlock]*loopInfo
	ret    func(st *State, res []*Val)
	depth  int
}

type loopCtx struct {
	fr      *Frame
	l       *loopInfo
	spec    *LoopSpec
	ord     int
	entry   *State
	head    *State
	mods    *modset
	measure *Term
	arrOK   []modLoc
	dry     bool
	ends    []*State
	outer   *loopCtx
}

type exec struct {
	g      *Gen
	c      *Contract
	fn     *ssa.Function
	name   string
	obs    []*Ob
	dry    int
	nfr    int
	paths  int
	entry  *State
	top    *Frame
	ords   map[string]int // path:loop -> expanded ordinal
	calls  map[string]int // path:call -> ordinal for its callee
	active map[string]*loopCtx
	entEnv *Env
	budget int
	rets   int
}

func specName(fn *ssa.Function) string {
	if pa := fn.Parent(); pa != nil {
		for i, a := range pa.AnonFuncs {
			if a == fn {
				return fmt.Sprintf("%s$%d", specName(pa), i+1)
			}
		}
	}
	if fn.Pkg == nil && fn.Object() == nil {
		return fn.String()
	}
	var p string
	if fn.Object() != nil && fn.Object().Pkg() != nil {
		p = fn.Object().Pkg().Name()
	} else if fn.Pkg != nil {
		p = fn.Pkg.Pkg.Name()
	}
	if r := fn.Signature.Recv(); r != nil {
		t := r.Type()
		if pt, ok := t.(*types.Pointer); ok {
			t = pt.Elem()
		}
		if n, ok := types.Unalias(t).(*types.Named); ok {
			return p + "." + n.Obj().Name() + "." + fn.Name()
		}
	}
	return p + "." + fn.Name()
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*loopInfo {
	ls := map[*ssa.BasicBlock]*loopInfo{}
	for _, b := range fn.Blocks {
		for _, h := range b.Succs {
			if !h.Dominates(b) {
				continue
			}
			l := ls[h]
			if l == nil {
				l = &loopInfo{head: h, blocks: map[*ssa.BasicBlock]bool{h: true}}
				ls[h] = l
			}
			work := []*ssa.BasicBlock{b}
			for len(work) > 0 {
				x := work[len(work)-1]
				work = work[:len(work)-1]
				if l.blocks[x] {
					continue
				}
				l.blocks[x] = true
				work = append(work, x.Preds...)
			}
		}
	}
	var all []*loopInfo
	for _, l := range ls {
		l.pos = token.Pos(1 << 40)
		for b := range l.blocks {
			for _, i := range b.Instrs {
				if _, ok := i.(*ssa.Alloc); ok {
					continue
				}
				if p := i.Pos(); p.IsValid() && p < l.pos {
					l.pos = p
				}
			}
		}
		all = append(all, l)
	}
	sort.Slice(all, func(i, j int) bool {
		if all[i].pos != all[j].pos {
			return all[i].pos < all[j].pos
		}
		return len(all[i].blocks) > len(all[j].blocks)
	})
	for i, l := range all {
		l.idx = i
	}
	return ls
}

func (x *exec) frame(fn *ssa.Function, parent *Frame, path string) *Frame {
	x.nfr++
	fr := &Frame{fn: fn, id: x.nfr, parent: parent, path: path, loops: findLoops(fn)}
	if parent != nil {
		fr.depth = parent.depth + 1
	}
	return fr
}

// contractOf returns the contract which is used at calls of fn.
func (x *exec) contractOf(fn *ssa.Function) *Contract {
	c := x.g.spec.contracts[specName(fn)]
	if c == nil || c.inline {
		return nil
	}
	// synthetic wrappers are inlined
	if fn.Synthetic != "" && len(fn.Blocks) > 0 {
		return nil
	}
	return c
}

// expand numbers the loops and the calls of a function with the functions
// inlined in it, in source order.
func (x *exec) expand(fn *ssa.Function, path string, depth int, nl *int, nc map[string]int) {
	if depth > 12 {
		return
	}
	type item struct {
		pos  token.Pos
		l    *loopInfo
		call ssa.CallInstruction
		n    int
	}
	var its []item
	for _, l := range findLoops(fn) {
		its = append(its, item{pos: l.pos, l: l})
	}
	n := 0
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(ssa.CallInstruction); ok {
				its = append(its, item{pos: c.Common().Pos(), call: c, n: n})
				n++
			}
		}
	}
	sort.SliceStable(its, func(i, j int) bool {
		a, b := its[i], its[j]
		if a.pos != b.pos {
			return a.pos < b.pos
		}
		if (a.l != nil) != (b.l != nil) {
			return a.l != nil
		}
		if a.l != nil {
			return a.l.idx < b.l.idx
		}
		return a.n < b.n
	})
	for _, it := range its {
		if it.l != nil {
			x.ords[fmt.Sprintf("%s:%d", path, it.l.idx)] = *nl
			*nl++
			continue
		}
		key := fmt.Sprintf("%s>%d", path, x.callIdx(it.call))
		cn := x.callName(it.call.Common())
		x.calls[key] = nc[cn]
		nc[cn]++
		var callee *ssa.Function
		if f := it.call.Common().StaticCallee(); f != nil {
			callee = f
		}
		if callee != nil && x.contractOf(callee) == nil && len(callee.Blocks) > 0 {
			x.expand(callee, key, depth+1, nl, nc)
		}
	}
}

func (x *exec) callIdx(c ssa.CallInstruction) int {
	n := 0
	for _, b := range c.Parent().Blocks {
		for _, i := range b.Instrs {
			if i == ssa.Instruction(c) {
				return n
			}
			if _, ok := i.(ssa.CallInstruction); ok {
				n++
			}
		}
	}
	return -1
}

func (x *exec) callName(c *ssa.CallCommon) string {
	if c.IsInvoke() {
		return tname(c.Value.Type()) + "." + c.Method.Name()
	}
	if f := c.StaticCallee(); f != nil {
		return specName(f)
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return b.Name()
	}
	return "?"
}

func (x *exec) oblige(st *State, name string, goal *Term, pos token.Pos) {
	if x.dry > 0 || isTrue(goal) {
		return
	}
	p := ""
	if pos.IsValid() {
		ps := x.g.prog.Fset.Position(pos)
		p = fmt.Sprintf("%s:%d", trimRepo(ps.Filename), ps.Line)
	}
	if goal.op == "and" {
		for i, a := range goal.args {
			x.oblige(st, fmt.Sprintf("%s.%d", name, i), a, pos)
		}
		return
	}
	x.obs = append(x.obs, &Ob{fn: x.name, name: name, pos: p, trace: append([]string(nil), st.trace...), pc: st.pc, goal: goal, bv: x.g.bv, hyp: st.known(goal)})
}

func trimRepo(s string) string {
	if i := strings.Index(s, "/repo/"); i >= 0 {
		return s[i+6:]
	}
	return s
}

// ---- environments ----

func (x *exec) lookup(fr *Frame, st *State, at *ssa.BasicBlock, n string) *SVal {
	for f := fr; f != nil; f = f.parent {
		if v := x.lookupIn(f, st, at, n); v != nil {
			return v
		}
		at = nil
	}
	return nil
}

func (x *exec) lookupIn(fr *Frame, st *State, at *ssa.BasicBlock, n string) *SVal {
	if fr == x.top {
		for i, p := range x.c.params {
			if p == n && i < len(fr.fn.Params) {
				if fr.fn.Params[i].Name() != n {
					n = fr.fn.Params[i].Name()
				}
				break
			}
		}
	}
	var best *ssa.Alloc
	for _, b := range fr.fn.Blocks {
		if at != nil && !b.Dominates(at) && b != at {
			continue
		}
		for _, in := range b.Instrs {
			a, ok := in.(*ssa.Alloc)
			if !ok || a.Comment != n {
				continue
			}
			if _, ok := st.vals[valKey{fr.id, a}]; !ok {
				continue
			}
			best = a
		}
	}
	if best != nil {
		v := st.vals[valKey{fr.id, best}]
		et := elemOfPtr(best.Type())
		if v.lv != nil && v.lv.cell != nil {
			c, ok := st.cells[*v.lv.cell]
			if !ok {
				return nil
			}
			return x.sval(c, et)
		}
		if v.t != nil && isStruct(et) {
			return &SVal{t: v.t, typ: best.Type()}
		}
		if v.t != nil {
			return x.sval(st.load(v, et), et)
		}
	}
	return x.freeVar(fr.fn, fr.binds, st, n)
}

// freeVar is the value in st of the variable n which the closure captures.
func (x *exec) freeVar(fn *ssa.Function, binds []*Val, st *State, n string) *SVal {
	for i, fv := range fn.FreeVars {
		if fv.Name() == n && i < len(binds) {
			et := elemOfPtr(fv.Type())
			if binds[i].t != nil && isStruct(et) {
				return &SVal{t: binds[i].t, typ: fv.Type()}
			}
			return x.sval(st.load(binds[i], et), et)
		}
	}
	return nil
}

func isFreeVar(fn *ssa.Function, n string) bool {
	for _, fv := range fn.FreeVars {
		if fv.Name() == n {
			return true
		}
	}
	return false
}

// closureEntry gives the captured variables of a closure under contract
// arbitrary values; one which holds functions holds the closure itself, which
// is checked where the contract is used.
func (x *exec) closureEntry(fr *Frame, st *State) {
	for _, fv := range fr.fn.FreeVars {
		t := elemOfPtr(fv.Type())
		if isStruct(t) {
			r := sym("p:"+fv.Name(), "Ref")
			st.assume(x.g.rangeOf(fv.Type(), r, st.next))
			st.assume(not(eq(r, tNull)))
			fr.binds = append(fr.binds, vt(r))
			continue
		}
		k := cellKey{fr.id, fv}
		fr.binds = append(fr.binds, &Val{lv: &Lval{cell: &k, base: t, typ: t}})
		if _, ok := t.Underlying().(*types.Signature); ok {
			continue
		}
		v := sym("p:"+fv.Name(), x.g.sortOf(t))
		st.assume(x.g.rangeOf(t, v, st.next))
		st.cells[k] = vt(v)
	}
	for i, fv := range fr.fn.FreeVars {
		if s, ok := elemOfPtr(fv.Type()).Underlying().(*types.Signature); ok {
			if !types.Identical(s, fr.fn.Signature) {
				bail("closure captures another function")
			}
			st.cells[*fr.binds[i].lv.cell] = &Val{fn: fr.fn, binds: fr.binds}
		}
	}
}

// closureFrame: captured variables which the contract does not name are as
// they were.
func (x *exec) closureFrame(fr *Frame, st *State, pos token.Pos) {
	for i, fv := range fr.fn.FreeVars {
		if fr.binds[i].lv == nil {
			continue
		}
		named := false
		for _, m := range x.c.modifies {
			if m.kind == "ghost" && m.name == fv.Name() {
				named = true
			}
		}
		if named {
			continue
		}
		a, b := x.entry.cells[*fr.binds[i].lv.cell], st.cells[*fr.binds[i].lv.cell]
		if a == b {
			continue
		}
		if a.t == nil || b.t == nil {
			bail("captured variable %s changes", fv.Name())
		}
		x.oblige(st, "frame of captured "+fv.Name(), eq(a.t, b.t), pos)
	}
}

func (x *exec) sval(v *Val, t types.Type) *SVal {
	if v.t != nil {
		return &SVal{t: v.t, typ: t}
	}
	return &SVal{lv: v, typ: t}
}

func (x *exec) env(fr *Frame, st *State, at *ssa.BasicBlock) *Env {
	e := &Env{g: x.g, st: st, old: x.entry, oldEnv: x.entEnv, sink: st, names: map[string]*SVal{}}
	e.look = func(n string) *SVal { return x.lookup(fr, st, at, n) }
	e.mk = func(st *State) *Env { return x.env(fr, st, at) }
	return e
}

// ---- running ----

func (x *exec) val(fr *Frame, st *State, v ssa.Value) *Val {
	g := x.g
	switch v := v.(type) {
	case *ssa.Const:
		if v.Value == nil {
			return vt(g.zero(v.Type()))
		}
		if isInt(v.Type()) {
			return vt(g.constVal(v.Value, v.Type()))
		}
		if isFloat(v.Type()) {
			return vt(mk("flt.lit", "Flt", intT(int64(g.strID("float:"+constant.ToFloat(v.Value).ExactString())))))
		}
		return vt(g.constVal(v.Value, v.Type()))
	case *ssa.Function:
		return &Val{fn: v}
	case *ssa.Builtin:
		return &Val{}
	case *ssa.Global:
		t := elemOfPtr(v.Type())
		nm := "V:" + v.Pkg.Pkg.Name() + "." + v.Name()
		if isStruct(t) {
			return vt(sym("glob:"+nm, "Ref"))
		}
		return &Val{lv: &Lval{heap: nm, glob: true, base: t, typ: t}}
	case *ssa.FreeVar:
		for i, f := range fr.fn.FreeVars {
			if f == v {
				return fr.binds[i]
			}
		}
	case *ssa.Parameter:
		for i, p := range fr.fn.Params {
			if p == v {
				return fr.args[i]
			}
		}
	}
	r, ok := st.vals[valKey{fr.id, v}]
	if !ok {
		bail("%s: value %s undefined", fr.fn, v.Name())
	}
	return r
}

func (x *exec) term(fr *Frame, st *State, v ssa.Value) *Term {
	r := x.val(fr, st, v)
	if r.t == nil {
		if r.fn != nil {
			return sym("fn:"+r.fn.String(), "Fn")
		}
		if r.lv != nil {
			bail("%s: address value %s (%s) used as data", fr.fn.Name(), v.Name(), v)
		}
		bail("%s: value %s has no term", fr.fn.Name(), v.Name())
	}
	return r.t
}

func (x *exec) run(fr *Frame, b, pred *ssa.BasicBlock, st *State) {
	if l := fr.loops[b]; l != nil {
		key := fmt.Sprintf("%d:%d", fr.id, l.idx)
		if pred != nil && l.blocks[pred] {
			x.backEdge(x.active[key], pred, st)
			return
		}
		x.enterLoop(fr, l, key, pred, st)
		return
	}
	x.block(fr, b, pred, 0, st)
}

func (x *exec) countPath() {
	x.paths++
	if x.paths > x.budget {
		bail("too many paths (%d)", x.paths)
	}
}

func (x *exec) block(fr *Frame, b, pred *ssa.BasicBlock, from int, st *State) {
	g := x.g
	for i := from; i < len(b.Instrs); i++ {
		in := b.Instrs[i]
		set := func(v ssa.Value, r *Val) { st.vals[valKey{fr.id, v}] = r }
		switch in := in.(type) {
		case *ssa.DebugRef:
		case *ssa.Phi:
			for k, p := range b.Preds {
				if p == pred {
					set(in, x.val(fr, st, in.Edges[k]))
				}
			}
		case *ssa.Alloc:
			x.alloc(fr, st, in)
		case *ssa.UnOp:
			if in.Op == token.MUL {
				r := x.loadInstr(fr, st, in)
				set(in, r)
				continue
			}
			set(in, vt(x.unop(fr, st, in)))
		case *ssa.BinOp:
			set(in, vt(x.binop(fr, st, in)))
		case *ssa.Store:
			a := x.val(fr, st, in.Addr)
			x.nilCheck(st, a, in.Pos())
			st.storeTo(a, elemOfPtr(in.Addr.Type()), x.val(fr, st, in.Val))
		case *ssa.FieldAddr:
			set(in, x.fieldAddr(fr, st, in))
		case *ssa.Field:
			set(in, vt(g.structSel(x.term(fr, st, in.X), in.Field)))
		case *ssa.IndexAddr:
			set(in, x.indexAddr(fr, st, in))
		case *ssa.Index:
			v, ix := x.term(fr, st, in.X), x.term(fr, st, in.Index)
			if v.sort == "Str" {
				r := mk("str.at", "Int", v, ix)
				st.assume(g.rangeOf(types.Typ[types.Uint8], r, nil))
				x.bounds(st, ix, mk("strlen", "Int", v), in.Pos())
				set(in, vt(r))
				continue
			}
			set(in, vt(sel(v, ix)))
		case *ssa.Convert:
			v := x.val(fr, st, in.X)
			if v.t == nil {
				set(in, v)
				continue
			}
			r := g.convert(v.t, in.X.Type(), in.Type())
			st.assume(g.rangeOf(in.Type(), r, nil))
			set(in, vt(r))
		case *ssa.ChangeType:
			v := x.val(fr, st, in.X)
			if v.t != nil && g.sortOf(in.Type()) != v.t.sort {
				bail("conversion of %s to %s", in.X.Type(), in.Type())
			}
			set(in, v)
		case *ssa.ChangeInterface:
			set(in, x.val(fr, st, in.X))
		case *ssa.MakeInterface:
			v := x.val(fr, st, in.X)
			if v.t == nil {
				set(in, vt(g.fresh("iface", "Iface")))
				continue
			}
			set(in, vt(mk("if.mk."+sortTag(v.t.sort), "Iface", intT(int64(g.typID(in.X.Type()))), v.t)))
		case *ssa.TypeAssert:
			v := x.term(fr, st, in.X)
			var r *Term
			ok := g.fresh("isT", "Bool")
			if _, isI := in.AssertedType.Underlying().(*types.Interface); isI {
				r = v
			} else {
				srt := g.sortOf(in.AssertedType)
				ok = eq(mk("if.tag", "Int", v), intT(int64(g.typID(in.AssertedType))))
				r = mk("if.get."+sortTag(srt), srt, v)
			}
			if in.CommaOk {
				set(in, &Val{tuple: []*Val{vt(ite(ok, r, g.zero(in.AssertedType))), vt(ok)}})
			} else {
				x.safety(st, "type assertion", ok, in.Pos())
				set(in, vt(r))
			}
		case *ssa.Slice:
			set(in, x.slice(fr, st, in))
		case *ssa.MakeSlice:
			el := in.Type().Underlying().(*types.Slice).Elem()
			n, c := x.term(fr, st, in.Len), x.term(fr, st, in.Cap)
			x.safety(st, "make", and(le(intT(0), n), le(n, c)), in.Pos())
			set(in, vt(x.newSlice(st, el, n, c)))
		case *ssa.MakeMap:
			u := in.Type().Underlying().(*types.Map)
			id := st.next
			st.next = add(st.next, intT(1))
			d, _ := st.mapHeaps(u)
			k := g.sortOf(u.Key())
			st.setHeap("MD:"+tname(u), store(d, id, constArr(arrSort(k, "Bool"), tFalse)))
			ml := st.heap("ML:"+tname(u), "(Array Int Int)")
			st.setHeap("ML:"+tname(u), store(ml, id, intT(0)))
			set(in, vt(id))
		case *ssa.MapUpdate:
			u := in.Map.Type().Underlying().(*types.Map)
			m, k, v := x.term(fr, st, in.Map), x.term(fr, st, in.Key), x.term(fr, st, in.Value)
			d, h := st.mapHeaps(u)
			n := tname(u)
			ml := st.heap("ML:"+n, "(Array Int Int)")
			st.setHeap("ML:"+n, store(ml, m, ite(sel(sel(d, m), k), sel(ml, m), add(sel(ml, m), intT(1)))))
			st.setHeap("MD:"+n, store(d, m, store(sel(d, m), k, tTrue)))
			st.setHeap("MV:"+n, store(h, m, store(sel(h, m), k, v)))
		case *ssa.Lookup:
			set(in, x.lookupMap(fr, st, in))
		case *ssa.Range:
			if u, ok := in.X.Type().Underlying().(*types.Map); ok {
				ks := g.sortOf(u.Key())
				st.heaps[fmt.Sprintf("G:visited$%d", fr.id)] = constArr(arrSort(ks, "Bool"), tFalse)
			}
			set(in, x.val(fr, st, in.X))
		case *ssa.Next:
			x.next(fr, st, in)
		case *ssa.Extract:
			t := x.val(fr, st, in.Tuple)
			if in.Index >= len(t.tuple) {
				bail("extract from %s", in.Tuple)
			}
			set(in, t.tuple[in.Index])
		case *ssa.MakeClosure:
			var bs []*Val
			for _, v := range in.Bindings {
				bs = append(bs, x.val(fr, st, v))
			}
			set(in, &Val{fn: in.Fn.(*ssa.Function), binds: bs})
		case *ssa.Defer:
			for _, l := range fr.loops {
				if l.blocks[b] {
					bail("defer in a loop")
				}
			}
			args, fv := x.callArgs(fr, st, in.Common())
			st.defers = &deferred{fr.id, in, args, fv, st.defers}
		case *ssa.RunDefers:
			nx := i + 1
			x.runDefers(fr, st, func(st *State) { x.block(fr, b, pred, nx, st) })
			return
		case *ssa.Call:
			nx := i + 1
			cont := func(st *State, res []*Val) {
				var r *Val
				switch len(res) {
				case 0:
					r = &Val{}
				case 1:
					r = res[0]
				default:
					r = &Val{tuple: res}
				}
				st.vals[valKey{fr.id, in}] = r
				x.block(fr, b, pred, nx, st)
			}
			x.call(fr, st, in, cont)
			return
		case *ssa.If:
			c := x.term(fr, st, in.Cond)
			if isTrue(c) {
				x.run(fr, b.Succs[0], b, st)
				return
			}
			if isFalse(c) {
				x.run(fr, b.Succs[1], b, st)
				return
			}
			if st.seen[not(c).s] {
				x.run(fr, b.Succs[1], b, st)
				return
			}
			if st.seen[c.s] {
				x.run(fr, b.Succs[0], b, st)
				return
			}
			p := g.prog.Fset.Position(in.Cond.Pos())
			s2 := st.clone()
			st.assume(c)
			st.trace = append(st.trace, fmt.Sprintf("%d+", p.Line))
			x.run(fr, b.Succs[0], b, st)
			s2.assume(not(c))
			s2.trace = append(s2.trace, fmt.Sprintf("%d-", p.Line))
			x.run(fr, b.Succs[1], b, s2)
			return
		case *ssa.Jump:
			x.run(fr, b.Succs[0], b, st)
			return
		case *ssa.Return:
			var rs []*Val
			for _, r := range in.Results {
				rs = append(rs, x.val(fr, st, r))
			}
			fr.ret(st, rs)
			return
		case *ssa.Panic:
			x.safety(st, "panic", tFalse, in.Pos())
			x.countPath()
			return
		default:
			bail("instruction %T: %s", in, in)
		}
	}
}

func sortTag(s string) string {
	return strings.Map(func(r rune) rune {
		if r == '|' || r == '(' || r == ')' || r == ' ' || r == '*' || r == '[' || r == ']' || r == '{' || r == '}' || r == ';' || r == ',' {
			return '_'
		}
		return r
	}, s)
}

func (g *Gen) typID(t types.Type) int {
	n := tname(t)
	id, ok := g.typIDs[n]
	if !ok {
		id = len(g.typIDs) + 1
		g.typIDs[n] = id
	}
	return id
}

// safety is an obligation in functions marked nopanic, and otherwise an
// assumption: a run which panics does not return.
func (x *exec) safety(st *State, what string, c *Term, pos token.Pos) {
	if x.c.nopanic {
		x.oblige(st, "no panic ("+what+")", c, pos)
	}
	st.assume(c)
}

func (x *exec) bounds(st *State, i, n *Term, pos token.Pos) {
	if isBV(i.sort) {
		return
	}
	x.safety(st, "index", and(le(intT(0), i), lt(i, n)), pos)
}

func (x *exec) nilCheck(st *State, a *Val, pos token.Pos) {
	if a.lv == nil && a.t != nil && a.t.op != "obj" && a.t.op != "sub" {
		x.safety(st, "nil", not(eq(a.t, tNull)), pos)
	}
}

func escapes(a *ssa.Alloc) bool {
	for _, r := range *a.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Val == ssa.Value(a) {
				return true
			}
		case *ssa.UnOp, *ssa.DebugRef:
		case *ssa.FieldAddr:
			for _, q := range *r.Referrers() {
				switch q := q.(type) {
				case *ssa.UnOp, *ssa.DebugRef:
				case *ssa.Store:
					if q.Val == ssa.Value(r) {
						return true
					}
				default:
					return true
				}
			}
		case *ssa.MakeClosure:
		default:
			return true
		}
	}
	return false
}

func (x *exec) alloc(fr *Frame, st *State, in *ssa.Alloc) {
	t := elemOfPtr(in.Type())
	if isStruct(t) && escapes(in) {
		ref := mkObj(st.next)
		st.next = add(st.next, intT(1))
		st.storeStruct(t, ref, x.g.zero(t))
		st.vals[valKey{fr.id, in}] = vt(ref)
		return
	}
	k := cellKey{fr.id, in}
	st.vals[valKey{fr.id, in}] = &Val{lv: &Lval{cell: &k, base: t, typ: t}}
	if strings.Contains(t.String(), "deferStack") {
		st.cells[k] = vt(tNull)
		return
	}
	if _, isArr := t.Underlying().(*types.Array); isArr && in.Comment != "varargs" {
		// arrays which are sliced live in a row of the heap
		for _, r := range *in.Referrers() {
			if _, ok := r.(*ssa.Slice); ok {
				el := t.Underlying().(*types.Array).Elem()
				id := st.next
				st.next = add(st.next, intT(1))
				st.setRow(el, id, constArr(arrSort("Int", x.g.sortOf(el)), x.g.zero(el)))
				st.vals[valKey{fr.id, in}] = &Val{lv: &Lval{heap: "row", ref: id, base: t, typ: t}}
				return
			}
		}
	}
	st.cells[k] = vt(x.g.zero(t))
}

func (x *exec) newSlice(st *State, el types.Type, n, c *Term) *Term {
	id := st.next
	st.next = add(st.next, intT(1))
	st.setRow(el, id, constArr(arrSort("Int", x.g.sortOf(el)), x.g.zero(el)))
	return mkSlice(id, intT(0), n, c)
}

func (x *exec) loadInstr(fr *Frame, st *State, in *ssa.UnOp) *Val {
	a := x.val(fr, st, in.X)
	et := elemOfPtr(in.X.Type())
	x.nilCheck(st, a, in.Pos())
	if a.lv != nil && a.lv.heap == "row" && a.lv.idx == nil {
		bail("load of a sliced array")
	}
	r := st.load(a, et)
	if r.t != nil && !(a.lv != nil && a.lv.cell != nil && len(a.lv.path) == 0) {
		st.assume(x.g.rangeOf(et, r.t, st.next))
	}
	return r
}

func (x *exec) fieldAddr(fr *Frame, st *State, in *ssa.FieldAddr) *Val {
	a := x.val(fr, st, in.X)
	stt := elemOfPtr(in.X.Type())
	f := stt.Underlying().(*types.Struct).Field(in.Field)
	x.nilCheck(st, a, in.Pos())
	if a.lv != nil {
		lv := *a.lv
		lv.path = append(append([]pstep(nil), lv.path...), pstep{fld: in.Field, typ: f.Type()})
		lv.typ = f.Type()
		return &Val{lv: &lv}
	}
	if isStruct(f.Type()) {
		return vt(mkSub(a.t, in.Field))
	}
	return &Val{lv: &Lval{heap: fieldHeap(stt, f.Name()), ref: a.t, base: f.Type(), typ: f.Type()}}
}

func (x *exec) indexAddr(fr *Frame, st *State, in *ssa.IndexAddr) *Val {
	ix := x.term(fr, st, in.Index)
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		s := x.term(fr, st, in.X)
		x.bounds(st, ix, sLen(s), in.Pos())
		return &Val{lv: &Lval{heap: elemHeap(u.Elem()), ref: sArr(s), idx: ixT(sOff(s), ix), base: u.Elem(), typ: u.Elem()}}
	case *types.Pointer:
		ar := u.Elem().Underlying().(*types.Array)
		a := x.val(fr, st, in.X)
		x.bounds(st, ix, intT(ar.Len()), in.Pos())
		if a.lv == nil {
			bail("index of array pointer")
		}
		lv := *a.lv
		if lv.heap == "row" {
			return &Val{lv: &Lval{heap: elemHeap(ar.Elem()), ref: lv.ref, idx: ix, base: ar.Elem(), typ: ar.Elem()}}
		}
		lv.path = append(append([]pstep(nil), lv.path...), pstep{idx: ix, typ: ar.Elem()})
		lv.typ = ar.Elem()
		return &Val{lv: &lv}
	}
	bail("index of %s", in.X.Type())
	return nil
}

func (x *exec) slice(fr *Frame, st *State, in *ssa.Slice) *Val {
	var s *Term
	switch u := in.X.Type().Underlying().(type) {
	case *types.Slice:
		s = x.term(fr, st, in.X)
	case *types.Pointer:
		ar, ok := u.Elem().Underlying().(*types.Array)
		a := x.val(fr, st, in.X)
		if ok && a.lv != nil && a.lv.cell != nil && len(a.lv.path) == 0 && in.Low == nil && in.High == nil {
			return &Val{va: st.cells[*a.lv.cell].t, van: ar.Len()}
		}
		if !ok || a.lv == nil || a.lv.heap != "row" {
			bail("slice of %s", in.X.Type())
		}
		s = mkSlice(a.lv.ref, intT(0), intT(ar.Len()), intT(ar.Len()))
	default:
		if x.g.sortOf(in.X.Type()) == "Str" {
			return vt(x.g.fresh("substr", "Str"))
		}
		bail("slice of %s", in.X.Type())
	}
	lo, hi := intT(0), sLen(s)
	if in.Low != nil {
		lo = x.term(fr, st, in.Low)
	}
	if in.High != nil {
		hi = x.term(fr, st, in.High)
	}
	mx := sCap(s)
	if in.Max != nil {
		mx = x.term(fr, st, in.Max)
	}
	x.safety(st, "slice", and(le(intT(0), lo), le(lo, hi), le(hi, mx), le(mx, sCap(s))), in.Pos())
	return vt(mkSlice(sArr(s), add(sOff(s), lo), sub(hi, lo), sub(mx, lo)))
}

func (x *exec) unop(fr *Frame, st *State, in *ssa.UnOp) *Term {
	v := x.term(fr, st, in.X)
	switch in.Op {
	case token.NOT:
		return not(v)
	case token.SUB:
		if isFloat(in.Type()) {
			return mk("flt.neg", "Flt", v)
		}
		if x.g.bv {
			return mk("bvneg", v.sort, v)
		}
		return x.g.wrap(neg(v), in.Type())
	case token.XOR:
		if x.g.bv {
			return mk("bvnot", v.sort, v)
		}
		w, signed := intInfo(in.Type())
		if signed {
			return sub(intT(-1), v)
		}
		if w == 64 {
			return mk("bit.not64", "Int", v)
		}
		return sub(sub(bigInt(pow2(w)), intT(1)), v)
	}
	bail("operator %s", in.Op)
	return nil
}

func (x *exec) binop(fr *Frame, st *State, in *ssa.BinOp) *Term {
	av, bv := x.val(fr, st, in.X), x.val(fr, st, in.Y)
	switch in.Op {
	case token.EQL, token.NEQ:
		if av.lv != nil || bv.lv != nil {
			if (av.lv != nil && bv.t != nil && bv.t.s == "null") || (bv.lv != nil && av.t != nil && av.t.s == "null") {
				return boolT(in.Op == token.NEQ)
			}
			bail("comparison of addresses")
		}
		if _, ok := in.X.Type().Underlying().(*types.Slice); ok {
			r := eq(sArr(av.t), sArr(bv.t))
			if in.Op == token.NEQ {
				r = not(r)
			}
			return r
		}
		if av.fn != nil || bv.fn != nil {
			return boolT(in.Op == token.NEQ)
		}
		return x.g.compare(in.Op, in.X.Type(), av.t, bv.t)
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return x.g.compare(in.Op, in.X.Type(), av.t, bv.t)
	case token.QUO, token.REM:
		if isInt(in.Type()) && !x.g.bv {
			x.safety(st, "division", not(eq(bv.t, intT(0))), in.Pos())
		}
	}
	r := x.g.arith(in.Op, in.Type(), av.t, bv.t)
	if r.op == "ite" || r.op == "mod" || r.op == "div" {
		// name the result: keeps terms small
		n := x.g.fresh("v", r.sort)
		st.pc = &PC{st.pc, mk("=", "Bool", n, r)}
		st.assume(x.g.rangeOf(in.Type(), n, nil))
		return n
	}
	return r
}

func (x *exec) lookupMap(fr *Frame, st *State, in *ssa.Lookup) *Val {
	u, ok := in.X.Type().Underlying().(*types.Map)
	m, k := x.term(fr, st, in.X), x.term(fr, st, in.Index)
	if !ok {
		r := mk("str.at", "Int", m, k)
		st.assume(x.g.rangeOf(types.Typ[types.Uint8], r, nil))
		return vt(r)
	}
	d, h := st.mapHeaps(u)
	has := sel(sel(d, m), k)
	if m.s == "0" {
		has = tFalse
	} else {
		has = and(has, not(eq(m, intT(0))))
	}
	n := x.g.fresh("has", "Bool")
	st.pc = &PC{st.pc, mk("=", "Bool", n, has)}
	v := sel(sel(h, m), k)
	st.assume(implies(n, x.g.rangeOf(u.Elem(), v, st.next)))
	r := ite(n, v, x.g.zero(u.Elem()))
	if in.CommaOk {
		return &Val{tuple: []*Val{vt(r), vt(n)}}
	}
	return vt(r)
}

// next models one step of a range over a map: an arbitrary key of the map
// which was not visited yet (the ghost set visited).
func (x *exec) next(fr *Frame, st *State, in *ssa.Next) {
	if in.IsString {
		bail("range over a string")
	}
	rg := in.Iter.(*ssa.Range)
	u := rg.X.Type().Underlying().(*types.Map)
	m := x.term(fr, st, rg.X)
	g := x.g
	d, h := st.mapHeaps(u)
	ks := g.sortOf(u.Key())
	vn := fmt.Sprintf("G:visited$%d", fr.id)
	vis, ok := st.heaps[vn]
	if !ok {
		vis = constArr(arrSort(ks, "Bool"), tFalse)
	}
	ok1 := g.fresh("more", "Bool")
	k := g.fresh("key", ks)
	st.assume(g.rangeOf(u.Key(), k, st.next))
	v := sel(sel(h, m), k)
	st.assume(implies(ok1, and(sel(sel(d, m), k), not(sel(vis, k)), not(eq(m, intT(0))))))
	q := sym(fmt.Sprintf("k?%d", g.nsym), ks)
	g.nsym++
	st.assume(implies(not(ok1), quant(true, []*Term{q}, implies(and(sel(sel(d, m), q), not(eq(m, intT(0)))), sel(vis, q)), nil)))
	nv := g.fresh("visited", arrSort(ks, "Bool"))
	st.assume(mk("=", "Bool", nv, ite(ok1, store(vis, k, tTrue), vis)))
	st.heaps[vn] = nv
	st.assume(implies(ok1, g.rangeOf(u.Elem(), v, st.next)))
	st.vals[valKey{fr.id, in}] = &Val{tuple: []*Val{vt(ok1), vt(k), vt(v)}}
}
