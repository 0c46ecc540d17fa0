package main

import (
	"fmt"
	"go/types"
	"regexp"
	"strings"
)

// PC is a persistent list of assumptions.
type PC struct {
	prev *PC
	t    *Term
}

type valKey struct {
	fr int
	v  interface{}
}

// State is a symbolic state.
type State struct {
	g     *Gen
	heaps map[string]*Term
	cells map[cellKey]*Val
	vals  map[valKey]*Val
	pc    *PC
	seen  map[string]bool
	next  *Term
	trace []string
	// labelled states
	labels map[string]*label
	defers *deferred
}

type label struct {
	st  *State
	env *Env
}

func (s *State) clone() *State {
	n := &State{g: s.g, pc: s.pc, next: s.next, defers: s.defers}
	n.heaps = make(map[string]*Term, len(s.heaps))
	for k, v := range s.heaps {
		n.heaps[k] = v
	}
	n.cells = make(map[cellKey]*Val, len(s.cells))
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.vals = make(map[valKey]*Val, len(s.vals))
	for k, v := range s.vals {
		n.vals[k] = v
	}
	n.seen = make(map[string]bool, len(s.seen))
	for k := range s.seen {
		n.seen[k] = true
	}
	if s.labels != nil {
		n.labels = make(map[string]*label, len(s.labels))
		for k, v := range s.labels {
			n.labels[k] = v
		}
	}
	n.trace = append([]string(nil), s.trace...)
	return n
}

func (s *State) assume(t *Term) {
	if t == nil || isTrue(t) {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	if s.seen[t.s] {
		return
	}
	s.seen[t.s] = true
	if strings.Contains(t.s, "(forall ") {
		s.seen[alpha(t.s)] = true
	}
	s.pc = &PC{s.pc, t}
}

var boundVar = regexp.MustCompile(`\?[0-9]+`)

// alpha renames the bound variables, whose names are unique, in the order of
// their occurrence.
func alpha(t string) string {
	n := map[string]string{}
	return boundVar.ReplaceAllStringFunc(t, func(v string) string {
		r, ok := n[v]
		if !ok {
			r = fmt.Sprintf("?.%d", len(n))
			n[v] = r
		}
		return r
	})
}

// known tells whether t has been assumed as it is.
func (s *State) known(t *Term) bool {
	if s.seen[t.s] || strings.Contains(t.s, "(forall ") && s.seen[alpha(t.s)] {
		return true
	}
	return t.op == "=>" && len(t.args) == 2 && s.known(t.args[1])
}

// heap returns the current version of a heap, creating it at the initial
// version when it was not mentioned before.
func (s *State) heap(name, srt string) *Term {
	if h, ok := s.heaps[name]; ok {
		if h.sort != srt {
			bail("heap %s has sorts %s and %s", name, h.sort, srt)
		}
		return h
	}
	h := sym(name+"@0", srt)
	s.heaps[name] = h
	markTyped(name, h, sym("next@0", "Int"))
	return h
}

func (s *State) setHeap(name string, t *Term) {
	v := s.g.fresh("H:"+name[2:], t.sort)
	defs[v.s] = t
	s.pc = &PC{s.pc, mk("=", "Bool", v, t)}
	s.heaps[name] = v
}

func (s *State) havocHeap(name, srt string) *Term {
	v := s.g.fresh("H:"+name[2:], srt)
	s.heaps[name] = v
	markTyped(name, v, s.next)
	return v
}

func elSort(g *Gen, el types.Type) string {
	return arrSort("Int", arrSort("Int", g.sortOf(el)))
}

func (s *State) row(el types.Type, arr *Term) *Term {
	return sel(s.heap(elemHeap(el), elSort(s.g, el)), arr)
}

func (s *State) setRow(el types.Type, arr, row *Term) {
	h := s.heap(elemHeap(el), elSort(s.g, el))
	s.setHeap(elemHeap(el), store(h, arr, row))
}

// readField reads field i of the struct (type st) at ref.
func (s *State) readField(st types.Type, ref *Term, i int) *Term {
	u := st.Underlying().(*types.Struct)
	f := u.Field(i)
	if _, ok := f.Type().Underlying().(*types.Struct); ok {
		return s.loadStruct(f.Type(), mkSub(ref, i))
	}
	h := s.heap(fieldHeap(st, f.Name()), arrSort("Ref", s.g.sortOf(f.Type())))
	return sel(h, ref)
}

func (s *State) loadStruct(st types.Type, ref *Term) *Term {
	u := st.Underlying().(*types.Struct)
	srt := s.g.sortOf(st)
	var fs []*Term
	for i := 0; i < u.NumFields(); i++ {
		fs = append(fs, s.readField(st, ref, i))
	}
	return s.g.mkStruct(srt, fs)
}

func (s *State) writeField(st types.Type, ref *Term, i int, v *Term) {
	u := st.Underlying().(*types.Struct)
	f := u.Field(i)
	if _, ok := f.Type().Underlying().(*types.Struct); ok {
		s.storeStruct(f.Type(), mkSub(ref, i), v)
		return
	}
	nm := fieldHeap(st, f.Name())
	h := s.heap(nm, arrSort("Ref", s.g.sortOf(f.Type())))
	s.setHeap(nm, store(h, ref, v))
}

func (s *State) storeStruct(st types.Type, ref *Term, v *Term) {
	u := st.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		s.writeField(st, ref, i, s.g.structSel(v, i))
	}
}

func isStruct(t types.Type) bool {
	_, ok := t.Underlying().(*types.Struct)
	return ok
}

func elemOfPtr(t types.Type) types.Type {
	return t.Underlying().(*types.Pointer).Elem()
}

// load reads through an address of Go pointer type ptr.
func (s *State) load(a *Val, elt types.Type) *Val {
	if a.lv == nil {
		if a.t == nil {
			bail("load through unknown pointer")
		}
		if isStruct(elt) {
			return vt(s.loadStruct(elt, a.t))
		}
		h := s.heap("C:"+tname(elt), arrSort("Ref", s.g.sortOf(elt)))
		return vt(sel(h, a.t))
	}
	lv := a.lv
	if lv.cell != nil {
		c, ok := s.cells[*lv.cell]
		if !ok {
			bail("read of unknown cell %v", lv.cell.a.Name())
		}
		if len(lv.path) == 0 {
			return c
		}
		return vt(s.g.getPath(c.t, lv.path))
	}
	return vt(s.g.getPath(s.readBase(lv), lv.path))
}

func (s *State) readBase(lv *Lval) *Term {
	srt := s.g.sortOf(lv.base)
	if lv.glob {
		return s.heap(lv.heap, srt)
	}
	if lv.idx != nil {
		return sel(s.row(lv.base, lv.ref), lv.idx)
	}
	return sel(s.heap(lv.heap, arrSort("Ref", srt)), lv.ref)
}

func (g *Gen) getPath(t *Term, p []pstep) *Term {
	for _, st := range p {
		if t == nil {
			bail("path into a non-term value")
		}
		if st.idx != nil {
			t = sel(t, st.idx)
		} else {
			t = g.structSel(t, st.fld)
		}
	}
	return t
}

func (g *Gen) setPath(t *Term, p []pstep, v *Term) *Term {
	if len(p) == 0 {
		return v
	}
	st := p[0]
	if st.idx != nil {
		return store(t, st.idx, g.setPath(sel(t, st.idx), p[1:], v))
	}
	d := g.dts[t.sort]
	fs := make([]*Term, len(d.fields))
	for i := range fs {
		fs[i] = g.structSel(t, i)
	}
	fs[st.fld] = g.setPath(fs[st.fld], p[1:], v)
	return g.mkStruct(t.sort, fs)
}

func (s *State) storeTo(a *Val, elt types.Type, v *Val) {
	if a.lv == nil {
		if a.t == nil {
			bail("store through unknown pointer")
		}
		if isStruct(elt) {
			s.storeStruct(elt, a.t, v.t)
			return
		}
		nm := "C:" + tname(elt)
		h := s.heap(nm, arrSort("Ref", s.g.sortOf(elt)))
		s.setHeap(nm, store(h, a.t, v.t))
		return
	}
	lv := a.lv
	if lv.cell != nil {
		if len(lv.path) == 0 {
			s.cells[*lv.cell] = v
			return
		}
		c := s.cells[*lv.cell]
		s.cells[*lv.cell] = vt(s.g.setPath(c.t, lv.path, v.t))
		return
	}
	if v.t == nil {
		if v.fn != nil {
			v = vt(s.g.fresh("fn", "Fn"))
		} else {
			bail("storing an address value into the heap")
		}
	}
	srt := s.g.sortOf(lv.base)
	var nv *Term
	if len(lv.path) == 0 {
		nv = v.t
	} else {
		nv = s.g.setPath(s.readBase(lv), lv.path, v.t)
	}
	switch {
	case lv.glob:
		s.setHeap(lv.heap, nv)
	case lv.idx != nil:
		s.setRow(lv.base, lv.ref, store(s.row(lv.base, lv.ref), lv.idx, nv))
	default:
		h := s.heap(lv.heap, arrSort("Ref", srt))
		s.setHeap(lv.heap, store(h, lv.ref, nv))
	}
}
