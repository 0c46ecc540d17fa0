package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// modset is the set of locations which a loop changes.
type modset struct {
	cells map[cellKey]bool
	whole map[string]bool             // heaps changed at unknown indices
	at    map[string]map[string]*Term // heaps changed at stable indices
	list  map[string]map[string]*Term // for whole heaps: stable indices which may change
	next  bool
}

func newModset() *modset {
	return &modset{cells: map[cellKey]bool{}, whole: map[string]bool{}, at: map[string]map[string]*Term{}, list: map[string]map[string]*Term{}}
}

type modLoc struct {
	cell *cellKey
	heap string
	ref  *Term
}

func (x *exec) loopOrd(fr *Frame, l *loopInfo) int {
	o, ok := x.ords[fmt.Sprintf("%s:%d", fr.path, l.idx)]
	if !ok {
		return -1
	}
	return o
}

func iterName(fr *Frame, l *loopInfo) string { return fmt.Sprintf("I:%d.%d", fr.id, l.idx) }

func symNum(s string) int {
	s = strings.Trim(s, "|")
	i := strings.LastIndexByte(s, '!')
	if i < 0 {
		return 0
	}
	n, _ := strconv.Atoi(s[i+1:])
	return n
}

// stable tells whether all symbols of t were made before number base.
func stable(t *Term, base int) bool {
	m := map[string]string{}
	syms(t, m, map[string]int{})
	for k := range m {
		if symNum(k) > base {
			return false
		}
	}
	return true
}

// arrAlts: the array of the result of an append is one of two.
var arrAlts = map[string][2]*Term{}

func iteLeaves(t *Term) []*Term {
	if a, ok := arrAlts[t.s]; ok {
		return append(iteLeaves(a[0]), iteLeaves(a[1])...)
	}
	if t.op == "ite" {
		return append(iteLeaves(t.args[1]), iteLeaves(t.args[2])...)
	}
	return []*Term{t}
}

// storeIdx collects the indices at which version v differs from base; whole
// is true when the chain does not lead to base.
func storeIdx(v, base *Term) (idx []*Term, whole bool) {
	for n := 0; ; n++ {
		if same(v, base) {
			return idx, false
		}
		d := v
		if q, ok := defs[v.s]; ok {
			d = q
		}
		if d.op != "store" {
			return idx, true
		}
		idx = append(idx, iteLeaves(d.args[1])...)
		v = d.args[0]
	}
}

func isScalarHeap(srt string) bool { return !strings.HasPrefix(srt, "(Array ") }

func valSame(a, b *Val) bool {
	if a == b {
		return true
	}
	if a.t != nil && b.t != nil {
		return same(a.t, b.t)
	}
	return false
}

// collect adds the differences of end from head to m; base is the symbol
// count when head was made. It reports whether m grew.
func (x *exec) collect(m *modset, head, end *State, base int, first bool) bool {
	grew := false
	for k, v := range end.cells {
		h, ok := head.cells[k]
		if !ok {
			continue
		}
		if !valSame(h, v) && !m.cells[k] {
			m.cells[k] = true
			grew = true
		}
	}
	for n, v := range end.heaps {
		if strings.HasPrefix(n, "I:") {
			continue
		}
		h, ok := head.heaps[n]
		if !ok {
			// first mentioned in the body
			if v.s == sym(n+"@0", v.sort).s {
				continue
			}
			if n[:2] == "G:" && strings.Contains(n, "visited$") {
				continue
			}
			h = sym(n+"@0", v.sort)
			head.heaps[n] = h
		}
		if same(h, v) || m.whole[n] {
			if m.whole[n] && !same(h, v) && first {
				x.addList(m, n, h, v, base)
			}
			continue
		}
		_, scalar := head.heaps[n], isScalarHeap(h.sort)
		if scalar || n[:2] == "G:" || n[:2] == "V:" {
			m.whole[n] = true
			grew = true
			continue
		}
		idx, whole := storeIdx(v, h)
		for _, i := range idx {
			if !stable(i, base) {
				if isNewIdx(i) {
					// fresh object of this iteration: the heap at objects
					// allocated in the loop is havocked with the whole heap
				}
				whole = true
			}
		}
		if whole {
			m.whole[n] = true
			m.list[n] = map[string]*Term{}
			for k, t := range m.at[n] {
				m.list[n][k] = t
			}
			delete(m.at, n)
			if first {
				x.addList(m, n, h, v, base)
			}
			grew = true
			continue
		}
		if m.at[n] == nil {
			m.at[n] = map[string]*Term{}
		}
		for _, i := range idx {
			if m.at[n][i.s] == nil {
				m.at[n][i.s] = i
				grew = true
			}
		}
	}
	if !same(head.next, end.next) && !m.next {
		m.next = true
		grew = true
	}
	return grew
}

func isNewIdx(t *Term) bool { return true }

func (x *exec) addList(m *modset, n string, h, v *Term, base int) {
	if m.list[n] == nil {
		m.list[n] = map[string]*Term{}
	}
	idx, _ := storeIdx(v, h)
	for _, i := range idx {
		if stable(i, base) {
			m.list[n][i.s] = i
		}
	}
}

// havocLoop returns the state at the head of an arbitrary iteration.
func (x *exec) havocLoop(lc *loopCtx) *State {
	g := x.g
	st := lc.entry.clone()
	m := lc.mods
	if m.next {
		n := g.fresh("next", "Int")
		st.assume(le(lc.entry.next, n))
		st.next = n
	}
	for k := range m.cells {
		t := elemOfPtr(k.a.Type())
		c := lc.entry.cells[k]
		if c != nil && c.t == nil {
			st.cells[k] = &Val{} // address valued: unknown
			continue
		}
		v := g.fresh(cellHint(k), g.sortOf(t))
		st.cells[k] = vt(v)
		st.assume(g.rangeOf(t, v, st.next))
	}
	for _, n := range sortedKeys(m.at) {
		h := lc.entry.heaps[n]
		if h == nil {
			continue
		}
		cur := h
		_, vs := arrParts(h.sort)
		for _, k := range sortedKeys(m.at[n]) {
			v := g.fresh("hv", vs)
			markTyped(n, v, st.next)
			cur = store(cur, m.at[n][k], v)
			if t := g.heapElem(n); t != nil {
				st.assume(g.rangeOf(t, v, st.next))
			}
		}
		st.setHeap(n, cur)
	}
	for _, n := range sortedKeys(m.whole) {
		h := lc.entry.heaps[n]
		if h == nil {
			continue
		}
		nh := st.havocHeap(n, h.sort)
		if n[:2] == "G:" || n[:2] == "V:" || isScalarHeap(h.sort) {
			continue
		}
		st.assume(x.frameAxiom(lc, n, h, nh))
	}
	it := g.fresh("iter", "Int")
	st.heaps[iterName(lc.fr, lc.l)] = it
	st.assume(le(intT(0), it))
	return st
}

func cellHint(k cellKey) string {
	if a, ok := k.a.(*ssa.Alloc); ok && a.Comment != "" {
		return "l." + a.Comment
	}
	return "l"
}

// frameAxiom: outside of the listed indices, what was allocated when the
// loop was entered is unchanged.
func (x *exec) frameCond(lc *loopCtx, n string, i *Term) *Term {
	var cs []*Term
	for _, m := range x.c.modifies {
		if m.kind == "rows" && elemHeap(x.g.goType(m.name)) == n {
			return tFalse
		}
	}
	if i.sort == "Ref" {
		cs = append(cs, mk("allocd", "Bool", i, lc.entry.next))
	} else {
		cs = append(cs, lt(i, lc.entry.next))
	}
	for _, k := range sortedKeys(lc.mods.list[n]) {
		cs = append(cs, not(eq(i, lc.mods.list[n][k])))
	}
	for _, k := range x.userHavoc(lc, n) {
		cs = append(cs, not(eq(i, k)))
	}
	return and(cs...)
}

func (x *exec) userHavoc(lc *loopCtx, n string) []*Term {
	if lc.spec == nil {
		return nil
	}
	var r []*Term
	for _, m := range lc.spec.havoc {
		if m.kind == "elems" {
			e := x.loopEnv(lc, lc.entry)
			v := e.eval(m.e)
			el := v.typ.Underlying().(*types.Slice).Elem()
			if elemHeap(el) == n {
				r = append(r, sArr(v.t))
			}
		}
	}
	return r
}

func (x *exec) frameAxiom(lc *loopCtx, n string, h, nh *Term) *Term {
	k, _ := arrParts(h.sort)
	x.g.nsym++
	q := sym(fmt.Sprintf("r?%d", x.g.nsym), k)
	sn := mk("select", mustVal(nh.sort), nh, q)
	so := mk("select", mustVal(h.sort), h, q)
	return quant(true, []*Term{q}, implies(x.frameCond(lc, n, q), mk("=", "Bool", sn, so)), [][]*Term{{sn}})
}

func mustVal(s string) string {
	_, v := arrParts(s)
	return v
}

func (g *Gen) heapElem(n string) types.Type { return nil }

func (x *exec) loopEnv(lc *loopCtx, st *State) *Env {
	e := x.env(lc.fr, st, lc.l.head)
	e.pre = lc.entry
	e.preEnv = x.env(lc.fr, lc.entry, lc.l.head)
	it := iterName(lc.fr, lc.l)
	base := e.look
	e.look = func(n string) *SVal {
		if n == "iter" {
			if t, ok := st.heaps[it]; ok {
				return &SVal{t: t}
			}
			return &SVal{t: intT(0)}
		}
		if strings.HasPrefix(n, "iter$") { // iter$k: iterations of the enclosing loop k
			for c := lc; c != nil; c = c.outer {
				if fmt.Sprintf("iter$%d", c.ord) == n {
					return &SVal{t: st.heaps[iterName(c.fr, c.l)]}
				}
			}
		}
		if n == "visited" {
			for f := lc.fr; f != nil; f = f.parent {
				if t, ok := st.heaps[fmt.Sprintf("G:visited$%d", f.id)]; ok {
					return &SVal{t: t}
				}
			}
		}
		return base(n)
	}
	return e
}

// rangeCells finds the counter and the bound of a range loop.
func rangeCells(l *loopInfo) (*ssa.Alloc, ssa.Value) {
	var idx *ssa.Alloc
	for _, in := range l.head.Instrs {
		if u, ok := in.(*ssa.UnOp); ok && u.Op == token.MUL {
			if a, ok := u.X.(*ssa.Alloc); ok && a.Comment == "rangeindex" {
				idx = a
			}
		}
		if b, ok := in.(*ssa.BinOp); ok && b.Op == token.LSS && idx != nil {
			return idx, b.Y
		}
	}
	return nil, nil
}

// autoInv are the invariants which hold of every range loop; they are
// proved like the others.
func (x *exec) autoInv(lc *loopCtx, st *State) []Named {
	var r []Named
	if a, n := rangeCells(lc.l); a != nil {
		v := st.vals[valKey{lc.fr.id, a}]
		c := st.cells[*v.lv.cell]
		it := st.heaps[iterName(lc.fr, lc.l)]
		r = append(r, Named{"range counter", eq(c.t, sub(it, intT(1)))})
		bound := x.val(lc.fr, lc.entry, n)
		if bound.t != nil {
			r = append(r, Named{"range bound", or(eq(it, intT(0)), le(it, bound.t))})
		}
	}
	for _, ml := range lc.arrOK {
		var now, was *Term
		if ml.cell != nil {
			now, was = st.cells[*ml.cell].t, lc.entry.cells[*ml.cell].t
		} else {
			now, was = sel(st.heaps[ml.heap], ml.ref), sel(lc.entry.heaps[ml.heap], ml.ref)
		}
		r = append(r, Named{"slice " + ml.heap + " is the same or new", or(eq(sArr(now), sArr(was)), le(lc.entry.next, sArr(now)))})
	}
	if lc.mods != nil && lc.mods.next {
		r = append(r, Named{"allocation", le(lc.entry.next, st.next)})
	}
	return r
}

type Named struct {
	name string
	t    *Term
}

func (x *exec) invs(lc *loopCtx, st *State) []Named {
	r := x.autoInv(lc, st)
	if lc.spec != nil {
		e := x.loopEnv(lc, st)
		for i, c := range lc.spec.inv {
			n := c.name
			if n == "" {
				n = fmt.Sprintf("#%d", i)
			}
			r = append(r, Named{n + " " + short(c.e.text), e.b(c.e)})
		}
	}
	return r
}

func short(s string) string {
	if len(s) > 90 {
		return s[:90] + "…"
	}
	return s
}

func (x *exec) enterLoop(fr *Frame, l *loopInfo, key string, pred *ssa.BasicBlock, st *State) {
	g := x.g
	ord := x.loopOrd(fr, l)
	lc := &loopCtx{fr: fr, l: l, ord: ord, spec: x.c.loops[ord], outer: x.active["cur"]}
	saved := x.active["cur"]
	savedKey := x.active[key]
	defer func() { x.active["cur"] = saved; x.active[key] = savedKey }()
	st.heaps[iterName(fr, l)] = intT(0)
	lc.entry = st
	if lc.spec != nil && len(lc.spec.entry) > 0 {
		x.stmts(lc.spec.entry, x.loopEnv(lc, st), st, l.pos)
	}
	lc.entry = st.clone()
	name := fmt.Sprintf("loop %d", ord)
	for _, n := range x.invs(lc, st) {
		x.oblige(st, name+" invariant holds on entry: "+n.name, n.t, l.pos)
	}
	// what does the loop change?
	lc.mods = newModset()
	x.dry++
	paths := x.paths
	lc.dry = true
	for round := 0; ; round++ {
		if round > 12 {
			bail("loop %d: changes not found", ord)
		}
		base := g.nsym
		var head *State
		if round == 0 {
			head = lc.entry.clone()
			head.heaps[iterName(fr, l)] = intT(0)
		} else {
			head = x.havocLoop(lc)
		}
		lc.head = head.clone()
		lc.ends = nil
		x.active[key], x.active["cur"] = lc, lc
		x.loopBody(lc, pred, head)
		grew := false
		for _, e := range lc.ends {
			if x.collect(lc.mods, lc.head, e, base, round == 0) {
				grew = true
			}
		}
		for n, v := range lc.head.heaps { // heaps found during the run
			if _, ok := lc.entry.heaps[n]; !ok {
				lc.entry.heaps[n] = v
			}
		}
		if !grew {
			break
		}
		if round == 0 {
			x.findArrOK(lc, base)
		}
	}
	x.dry--
	x.paths = paths
	lc.dry = false
	// the state at the head of an arbitrary iteration
	head := x.havocLoop(lc)
	for _, n := range x.invs(lc, head) {
		head.assume(n.t)
	}
	lc.head = head.clone()
	head.trace = append(head.trace, fmt.Sprintf("loop%d", ord))
	if lc.spec != nil && lc.spec.decreases != nil {
		lc.measure = x.loopEnv(lc, head).val(lc.spec.decreases)
	}
	x.active[key], x.active["cur"] = lc, lc
	x.loopBody(lc, pred, head)
}

func (x *exec) loopBody(lc *loopCtx, pred *ssa.BasicBlock, st *State) {
	if lc.spec != nil && len(lc.spec.begin) > 0 {
		x.stmts(lc.spec.begin, x.loopEnv(lc, st), st, lc.l.pos)
	}
	x.block(lc.fr, lc.l.head, pred, 0, st)
}

// findArrOK finds the slices which every iteration leaves in place or
// reallocates.
func (x *exec) findArrOK(lc *loopCtx, base int) {
	ok := map[string]modLoc{}
	bad := map[string]bool{}
	check := func(key string, ml modLoc, was, now *Term) {
		for _, l := range iteLeaves(sArr(now)) {
			if same(l, sArr(was)) || isNextTerm(l) {
				continue
			}
			bad[key] = true
		}
		ok[key] = ml
	}
	for _, e := range lc.ends {
		for k := range lc.mods.cells {
			k := k
			h, n := lc.head.cells[k], e.cells[k]
			if h == nil || n == nil || h.t == nil || n.t == nil || h.t.sort != SL {
				continue
			}
			check(fmt.Sprint("c", k), modLoc{cell: &k, heap: cellHint(k)}, h.t, n.t)
		}
		for _, n := range sortedKeys(lc.mods.at) {
			h := lc.head.heaps[n]
			if h == nil || e.heaps[n] == nil || mustValOr(h.sort) != SL {
				continue
			}
			for _, i := range lc.mods.at[n] {
				check(n+i.s, modLoc{heap: n, ref: i}, sel(h, i), sel(e.heaps[n], i))
			}
		}
	}
	for _, k := range sortedKeys(ok) {
		if !bad[k] {
			lc.arrOK = append(lc.arrOK, ok[k])
		}
	}
}

func mustValOr(s string) string {
	if strings.HasPrefix(s, "(Array ") {
		return mustVal(s)
	}
	return s
}

func isNextTerm(t *Term) bool {
	y, _ := linSplit(t)
	return y != nil && (strings.HasPrefix(y.s, "next!") || strings.HasPrefix(y.s, "next@") || strings.HasPrefix(y.s, "newarr!"))
}

func (x *exec) backEdge(lc *loopCtx, pred *ssa.BasicBlock, st *State) {
	x.countPath()
	if lc == nil {
		bail("back edge outside of a loop")
	}
	x.active["cur"] = lc
	if lc.spec != nil && len(lc.spec.end) > 0 {
		x.stmts(lc.spec.end, x.loopEnv(lc, st), st, lc.l.pos)
	}
	it := iterName(lc.fr, lc.l)
	st.heaps[it] = add(st.heaps[it], intT(1))
	if lc.dry {
		lc.ends = append(lc.ends, st)
		return
	}
	name := fmt.Sprintf("loop %d", lc.ord)
	for _, n := range x.invs(lc, st) {
		x.oblige(st, name+" invariant is preserved: "+n.name, n.t, lc.l.pos)
	}
	for _, n := range sortedKeys(lc.mods.whole) {
		h := lc.entry.heaps[n]
		if h == nil || n[:2] == "G:" || n[:2] == "V:" || isScalarHeap(h.sort) {
			continue
		}
		if same(st.heaps[n], lc.head.heaps[n]) {
			continue
		}
		k, _ := arrParts(h.sort)
		q := x.g.fresh("sk", k)
		x.oblige(st, name+" frame of "+n, implies(x.frameCond(lc, n, q), eq(sel(st.heaps[n], q), mk("select", mustVal(h.sort), h, q))), lc.l.pos)
	}
	if lc.measure != nil {
		m := x.loopEnv(lc, st).val(lc.spec.decreases)
		x.oblige(st, name+" decreases "+short(lc.spec.decreases.text), and(lt(m, lc.measure), le(intT(0), lc.measure)), lc.l.pos)
	}
}
