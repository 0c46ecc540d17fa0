package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
)

func bvOp(op string, a, b *Term) *Term { return mk(op, a.sort, a, b) }

func (g *Gen) wrap(v *Term, t types.Type) *Term {
	w, signed := intInfo(t)
	if v.num != nil {
		m := new(big.Int).Mod(v.num, pow2(w))
		if signed && m.Cmp(pow2(w-1)) >= 0 {
			m.Sub(m, pow2(w))
		}
		return bigInt(m)
	}
	if signed {
		if w == 64 {
			return v // machine integers of type int and int64 are mathematical
		}
		h := bigInt(pow2(w - 1))
		return sub(emod(add(v, h), bigInt(pow2(w))), h)
	}
	return emod(v, bigInt(pow2(w)))
}

// contiguous mask: value = ((2^n)-1) << k
func maskOf(m *big.Int) (k, n int, ok bool) {
	if m.Sign() <= 0 {
		return 0, 0, false
	}
	for m.Bit(k) == 0 {
		k++
	}
	x := new(big.Int).Rsh(m, uint(k))
	n = x.BitLen()
	y := new(big.Int).Add(x, big.NewInt(1))
	if y.BitLen() != n+1 || y.TrailingZeroBits() != uint(n) {
		return 0, 0, false
	}
	return k, n, true
}

func bitAnd(a *Term, m *big.Int) *Term {
	if m.Sign() == 0 {
		return intT(0)
	}
	k, n, ok := maskOf(m)
	if ok {
		return mul(emod(ediv(a, bigInt(pow2(k))), bigInt(pow2(n))), bigInt(pow2(k)))
	}
	// sum over runs of ones
	res := intT(0)
	x := new(big.Int).Set(m)
	for x.Sign() > 0 {
		k := int(x.TrailingZeroBits())
		y := new(big.Int).Rsh(x, uint(k))
		n := 0
		for y.Bit(n) == 1 {
			n++
		}
		res = add(res, mul(emod(ediv(a, bigInt(pow2(k))), bigInt(pow2(n))), bigInt(pow2(k))))
		r := new(big.Int).Mul(new(big.Int).Sub(pow2(n), big.NewInt(1)), pow2(k))
		x.Sub(x, r)
	}
	return res
}

func (g *Gen) arith(op token.Token, t types.Type, a, b *Term) *Term {
	if isFloat(t) {
		return mk("flt."+op.String()[:1]+"op", "Flt", a, b)
	}
	if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		return mk("str.cat", "Str", a, b)
	}
	if isBoolT(t) {
		switch op {
		case token.AND:
			return and(a, b)
		case token.OR:
			return or(a, b)
		}
	}
	if g.bv {
		_, signed := intInfo(t)
		return bvArith(op, a, b, signed)
	}
	w, signed := intInfo(t)
	W := bigInt(pow2(w))
	switch op {
	case token.ADD:
		r := add(a, b)
		if signed && w == 64 || r.num != nil && !signed && r.num.Cmp(pow2(w)) < 0 {
			return r
		}
		if signed {
			return g.wrap(r, t)
		}
		return ite(lt(r, W), r, sub(r, W))
	case token.SUB:
		r := sub(a, b)
		if signed && w == 64 {
			return r
		}
		if signed {
			return g.wrap(r, t)
		}
		return ite(le(intT(0), r), r, add(r, W))
	case token.MUL:
		return g.wrap(mul(a, b), t)
	case token.QUO, token.REM:
		var q *Term
		if !signed || (b.num != nil && b.num.Sign() > 0 && a.num != nil && a.num.Sign() >= 0) {
			if op == token.QUO {
				return ediv(a, b)
			}
			return emod(a, b)
		}
		if b.num != nil && b.num.Sign() > 0 {
			q = ite(le(intT(0), a), ediv(a, b), neg(ediv(neg(a), b)))
		} else {
			q = mk("tdiv", "Int", a, b)
		}
		if op == token.QUO {
			return q
		}
		return sub(a, mul(b, q))
	case token.SHL:
		if b.num != nil {
			return g.wrap(mul(a, bigInt(pow2(int(b.num.Int64())))), t)
		}
		return g.wrap(mul(a, g.pow2(b)), t)
	case token.SHR:
		if b.num != nil {
			return ediv(a, bigInt(pow2(int(b.num.Int64()))))
		}
		return mk("div", "Int", a, g.pow2(b))
	case token.AND:
		if a.num != nil {
			a, b = b, a
		}
		if b.num != nil {
			if b.num.Sign() < 0 {
				return sub(a, bitAnd(a, new(big.Int).Not(b.num)))
			}
			return bitAnd(a, b.num)
		}
		return mk("bit.and", "Int", a, b)
	case token.AND_NOT:
		if b.num != nil && b.num.Sign() >= 0 {
			return sub(a, bitAnd(a, b.num))
		}
		if !signed {
			return sub(a, g.arith(token.AND, t, a, b))
		}
	case token.OR:
		if a.num != nil {
			a, b = b, a
		}
		if b.num != nil && b.num.Sign() >= 0 {
			return add(sub(a, bitAnd(a, b.num)), b)
		}
		return mk("bit.or", "Int", a, b)
	case token.XOR:
		if a.num != nil {
			a, b = b, a
		}
		if b.num != nil && b.num.Sign() >= 0 {
			if b.num.Cmp(new(big.Int).Sub(pow2(w), big.NewInt(1))) == 0 && !signed {
				if w == 64 {
					return mk("bit.not64", "Int", a)
				}
				return sub(b, a)
			}
			if b.num.Cmp(big.NewInt(1)) == 0 {
				return ite(eq(emod(a, intT(2)), intT(0)), add(a, intT(1)), sub(a, intT(1)))
			}
			// a ^ m = a + m - 2*(a & m)
			return sub(add(a, b), mul(bitAnd(a, b.num), intT(2)))
		}
		return mk("bit.xor", "Int", a, b)
	}
	bail("operator %s on %s", op, t)
	return nil
}

func bvArith(op token.Token, a, b *Term, signed bool) *Term {
	if op == token.SHL || op == token.SHR {
		b = bvResize(b, bvWidth(a.sort), false)
	}
	switch op {
	case token.ADD:
		return bvOp("bvadd", a, b)
	case token.SUB:
		return bvOp("bvsub", a, b)
	case token.MUL:
		return bvOp("bvmul", a, b)
	case token.QUO:
		if signed {
			return bvOp("bvsdiv", a, b)
		}
		return bvOp("bvudiv", a, b)
	case token.REM:
		if signed {
			return bvOp("bvsrem", a, b)
		}
		return bvOp("bvurem", a, b)
	case token.AND:
		return bvOp("bvand", a, b)
	case token.OR:
		return bvOp("bvor", a, b)
	case token.XOR:
		return bvOp("bvxor", a, b)
	case token.AND_NOT:
		return bvOp("bvand", a, mk("bvnot", b.sort, b))
	case token.SHL:
		return bvOp("bvshl", a, b)
	case token.SHR:
		if signed {
			return bvOp("bvashr", a, b)
		}
		return bvOp("bvlshr", a, b)
	}
	bail("bv operator %s", op)
	return nil
}

func bvResize(a *Term, w int, signed bool) *Term {
	v := bvWidth(a.sort)
	srt := fmt.Sprintf("(_ BitVec %d)", w)
	switch {
	case v == w:
		return a
	case v > w:
		return mk(fmt.Sprintf("(_ extract %d 0)", w-1), srt, a)
	case signed:
		return mk(fmt.Sprintf("(_ sign_extend %d)", w-v), srt, a)
	}
	return mk(fmt.Sprintf("(_ zero_extend %d)", w-v), srt, a)
}

func (g *Gen) compare(op token.Token, t types.Type, a, b *Term) *Term {
	switch op {
	case token.EQL:
		return eq(a, b)
	case token.NEQ:
		return not(eq(a, b))
	}
	if isInt(t) {
		if g.bv {
			_, signed := intInfo(t)
			return bvCmp(op, a, b, signed)
		}
		switch op {
		case token.LSS:
			return lt(a, b)
		case token.LEQ:
			return le(a, b)
		case token.GTR:
			return lt(b, a)
		case token.GEQ:
			return le(b, a)
		}
	}
	if isFloat(t) {
		switch op {
		case token.GTR:
			return mk("flt.lt", "Bool", b, a)
		case token.LSS:
			return mk("flt.lt", "Bool", a, b)
		case token.GEQ:
			return mk("flt.le", "Bool", b, a)
		case token.LEQ:
			return mk("flt.le", "Bool", a, b)
		}
	}
	return mk("cmp."+map[token.Token]string{token.LSS: "lt", token.LEQ: "le", token.GTR: "gt", token.GEQ: "ge"}[op], "Bool", a, b)
}

func bvCmp(op token.Token, a, b *Term, signed bool) *Term {
	p := "bvu"
	if signed {
		p = "bvs"
	}
	return mk(p+map[token.Token]string{token.LSS: "lt", token.LEQ: "le", token.GTR: "gt", token.GEQ: "ge"}[op], "Bool", a, b)
}

func (g *Gen) convert(v *Term, from, to types.Type) *Term {
	fi, ti := isInt(from), isInt(to)
	switch {
	case fi && ti:
		wf, sf := intInfo(from)
		wt, st := intInfo(to)
		if g.bv {
			return bvResize(v, wt, sf)
		}
		if v.num == nil {
			if !sf && (wt > wf || wt == wf && !st) {
				return v
			}
			if sf && st && wt >= wf {
				return v
			}
			if !sf && wt == 64 && st && wf < 64 {
				return v
			}
		}
		return g.wrap(v, to)
	case isFloat(from) && isFloat(to):
		return v
	case fi && isFloat(to):
		return mk("flt.ofint", "Flt", v)
	case isFloat(from) && ti:
		r := g.fresh("f2i", g.sortOf(to))
		return r
	}
	sf, st := g.sortOf(from), g.sortOf(to)
	if sf == st && sf != SL {
		return v
	}
	return g.fresh("conv", st)
}

// pow2 is the function of that name of the contracts.
func (g *Gen) pow2(b *Term) *Term {
	f := g.spec.funcs["pow2"]
	if f == nil {
		return mk("pow2", "Int", b)
	}
	return app(g.specFn(f), "Int", b)
}
