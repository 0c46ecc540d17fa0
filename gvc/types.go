package main

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// unsupported aborts the generation of obligations for one function.
type unsupported struct{ msg string }

func bail(f string, a ...interface{}) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// Gen holds what is shared by the functions of one run.
type Gen struct {
	assumed map[string]bool // assumptions made in contracts
	inlined map[string]bool // functions executed in the place of their calls
	prog    *ssa.Program
	pkgs    map[string]*types.Package // by name
	spkgs   []*ssa.Package
	funcs   map[string]*ssa.Function // by spec name
	spec    *Spec
	dts     map[string]*dtype // struct datatypes by sort name
	dtOrd   []string
	bv      bool // current function in bit-vector mode
	nsym    int
	reveal  map[string]bool // opaque functions seen through in the current function
	strs    map[string]int
	typIDs  map[string]int
	used    map[string]bool // contracts used at calls
}

type dtype struct {
	name   string
	fields []string
	sorts  []string
	st     *types.Struct
}

func (g *Gen) fresh(hint, srt string) *Term {
	g.nsym++
	return sym(fmt.Sprintf("%s!%d", hint, g.nsym), srt)
}

func qual(p *types.Package) string { return p.Name() }

func tname(t types.Type) string { return types.TypeString(t, qual) }

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}

func isBoolT(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// width and signedness of integer types
func intInfo(t types.Type) (int, bool) {
	switch t.Underlying().(*types.Basic).Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32, types.UntypedRune:
		return 32, true
	case types.Int64, types.Int, types.UntypedInt:
		return 64, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false
	}
	bail("integer type %s", t)
	return 0, false
}

func pow2(n int) *big.Int { return new(big.Int).Lsh(big.NewInt(1), uint(n)) }

func (g *Gen) sortOf(t types.Type) string {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			if g.bv {
				w, _ := intInfo(t)
				return fmt.Sprintf("(_ BitVec %d)", w)
			}
			return "Int"
		case u.Info()&types.IsBoolean != 0:
			return "Bool"
		case u.Info()&types.IsString != 0:
			return "Str"
		case u.Info()&types.IsFloat != 0:
			return "Flt"
		case u.Kind() == types.UnsafePointer || u.Kind() == types.UntypedNil:
			return "Ref"
		case u.Kind() == types.Invalid: // go/ssa's opaque defer stack
			return "Ref"
		}
	case *types.Pointer:
		return "Ref"
	case *types.Slice:
		return SL
	case *types.Array:
		return arrSort("Int", g.sortOf(u.Elem()))
	case *types.Map:
		return "Int"
	case *types.Chan:
		return "Ref"
	case *types.Signature:
		return "Fn"
	case *types.Interface:
		return "Iface"
	case *types.Struct:
		return g.structSort(t, u)
	}
	if strings.Contains(t.String(), "deferStack") {
		return "Ref"
	}
	bail("sort of type %s", t)
	return ""
}

func (g *Gen) structSort(t types.Type, u *types.Struct) string {
	nm := "|D:" + tname(t) + "|"
	if _, ok := g.dts[nm]; ok {
		return nm
	}
	d := &dtype{name: nm, st: u}
	for i := 0; i < u.NumFields(); i++ {
		d.fields = append(d.fields, u.Field(i).Name())
		d.sorts = append(d.sorts, g.sortOf(u.Field(i).Type()))
	}
	g.dts[nm] = d
	g.dtOrd = append(g.dtOrd, nm)
	return nm
}

func (d *dtype) ctor() string { return "|mk" + d.name[1:] }
func (d *dtype) selName(i int) string {
	return "|" + d.fields[i] + "@" + d.name[1:]
}

func (g *Gen) mkStruct(srt string, fs []*Term) *Term {
	d := g.dts[srt]
	if len(fs) == 0 {
		return &Term{op: d.ctor(), sort: srt, s: d.ctor()}
	}
	return mk(d.ctor(), srt, fs...)
}

func (g *Gen) structSel(t *Term, i int) *Term {
	d := g.dts[t.sort]
	if t.op == d.ctor() {
		return t.args[i]
	}
	if t.op == "ite" {
		return ite(t.args[0], g.structSel(t.args[1], i), g.structSel(t.args[2], i))
	}
	return mk(d.selName(i), d.sorts[i], t)
}

func (g *Gen) zero(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return g.intConst(big.NewInt(0), t)
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return sym("str.empty", "Str")
		case u.Info()&types.IsFloat != 0:
			return sym("flt.zero", "Flt")
		}
		return tNull
	case *types.Pointer, *types.Chan:
		return tNull
	case *types.Slice:
		return nilSlice
	case *types.Array:
		return constArr(g.sortOf(t), g.zero(u.Elem()))
	case *types.Map:
		return intT(0)
	case *types.Signature:
		return sym("fn.nil", "Fn")
	case *types.Interface:
		return sym("if.nil", "Iface")
	case *types.Struct:
		srt := g.structSort(t, u)
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, g.zero(u.Field(i).Type()))
		}
		return g.mkStruct(srt, fs)
	}
	bail("zero of %s", t)
	return nil
}

func (g *Gen) intConst(n *big.Int, t types.Type) *Term {
	if g.bv {
		w, _ := intInfo(t)
		return bvConst(n, w)
	}
	return bigInt(n)
}

func bvConst(n *big.Int, w int) *Term {
	m := new(big.Int).Mod(n, pow2(w))
	return &Term{op: "#bv", sort: fmt.Sprintf("(_ BitVec %d)", w), s: fmt.Sprintf("(_ bv%s %d)", m, w)}
}

func bvWidth(s string) int {
	var w int
	fmt.Sscanf(s, "(_ BitVec %d)", &w)
	return w
}

// rangeOf gives the type invariant of a value of Go type t.
func (g *Gen) rangeOf(t types.Type, v *Term, next *Term) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 && !g.bv {
			if v.num != nil {
				return tTrue
			}
			w, signed := intInfo(t)
			if signed {
				if w >= 64 {
					return tTrue
				}
				h := pow2(w - 1)
				return and(le(bigInt(new(big.Int).Neg(h)), v), lt(v, bigInt(h)))
			}
			return and(le(intT(0), v), lt(v, bigInt(pow2(w))))
		}
	case *types.Slice:
		c := []*Term{le(intT(0), sOff(v)), le(intT(0), sLen(v)), le(sLen(v), sCap(v)), le(intT(0), sArr(v)), implies(eq(sArr(v), intT(0)), eq(sCap(v), intT(0)))}
		if next != nil {
			c = append(c, lt(sArr(v), next))
		}
		return and(c...)
	case *types.Pointer:
		if next != nil && v.s != "null" {
			return mk("allocd", "Bool", v, next)
		}
	case *types.Map:
		if next != nil {
			return and(le(intT(0), v), lt(v, next))
		}
	case *types.Struct:
		var c []*Term
		if v.sort != "Ref" {
			for i := 0; i < u.NumFields(); i++ {
				c = append(c, g.rangeOf(u.Field(i).Type(), g.structSel(v, i), next))
			}
		}
		return and(c...)
	}
	return tTrue
}

// heapType is the type of what a heap holds.
var heapType = map[string]types.Type{}

func fieldHeap(st types.Type, f string) string {
	n := "F:" + tname(st) + "." + f
	if heapType[n] == nil {
		u := st.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == f {
				heapType[n] = u.Field(i).Type()
			}
		}
	}
	return n
}

func elemHeap(el types.Type) string {
	n := "E:" + tname(el)
	heapType[n] = el
	return n
}

// typedSym are the symbols of heaps and rows which hold Go values of a type.
var typedSym = map[string]types.Type{}

// typedNext bounds the objects which such a symbol mentions.
var typedNext = map[string]*Term{}

func markTyped(heap string, v *Term, next *Term) {
	if t := heapType[heap]; t != nil {
		typedSym[v.s] = t
		typedNext[v.s] = next
	}
}

// typing says that what a heap or row holds is within the range of its type.
func (g *Gen) typing(n, srt string) *Term {
	t := typedSym[n]
	if t == nil {
		return nil
	}
	v := sym(n, srt)
	v.s = n
	var vars []*Term
	for k := 0; ; k++ {
		if !strings.HasPrefix(v.sort, "(Array ") || k == 2 {
			break
		}
		ks, vs := arrParts(v.sort)
		q := sym(fmt.Sprintf("t?%d", k), ks)
		vars = append(vars, q)
		v = mk("select", vs, v, q)
	}
	if len(vars) == 0 || v.sort != g.sortOf(t) {
		return nil
	}
	r := g.rangeOf(t, v, nil)
	if b := typedNext[n]; b != nil {
		// what is stored in an allocated object is allocated
		w := g.rangeOf(t, v, b)
		switch {
		case vars[0].sort == "Ref":
			w = implies(mk("allocd", "Bool", vars[0], b), w)
		case len(vars) == 2:
			w = implies(lt(vars[0], b), w)
		}
		if w.s != r.s {
			r = and(r, w)
		}
	}
	if isTrue(r) {
		return nil
	}
	return quant(true, vars, r, [][]*Term{{v}})
}

// Lval is an address.
type Lval struct {
	heap string // heap name or "" for a cell
	ref  *Term  // object (field heaps) or row (element heaps)
	idx  *Term  // element index
	cell *cellKey
	glob bool
	path []pstep
	base types.Type // type of what the heap entry/cell holds
	typ  types.Type // type of the addressed value
}

type pstep struct {
	fld int
	idx *Term // array index, when not nil
	typ types.Type
}

type cellKey struct {
	fr int
	a  ssa.Value
}

// Val is the value of a go/ssa value.
type Val struct {
	t     *Term
	lv    *Lval
	tuple []*Val
	fn    *ssa.Function
	binds []*Val
	va    *Term // elements of a variadic argument list
	van   int64
}

func vt(t *Term) *Val { return &Val{t: t} }
