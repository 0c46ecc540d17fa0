// Literals and variables (package z).
//
// lvar, lnot, lpos and mklit are the mathematical view of z.Lit: literal
// 2v is the positive and 2v+1 the negative literal of variable v.

rec func pow2(n int) int = if n <= 0 then 1 else 2 * pow2(n - 1);
lemma pow2_pos(n int) {
  ensures pow2(n) >= 1 && pow2(n) >= n + 1;
  requires 0 <= n;
  auto {pow2(n)};
  induct n;
}
opaque func lvar(m int) int = m / 2;
opaque func lnot(m int) int = if m % 2 == 0 then m + 1 else m - 1;
opaque func lpos(m int) bool = m % 2 == 0;
opaque func mklit(v int; pos bool) int = if pos then 2 * v else 2 * v + 1;

func isLit(m int) = 0 <= m && m < 4294967296;

lemma lit_not(m int) {
  requires isLit(m);
  ensures lnot(lnot(m)) == m && lnot(m) != m;
  ensures lvar(lnot(m)) == lvar(m);
  ensures lpos(lnot(m)) <==> !lpos(m);
  ensures isLit(lnot(m));
  ensures (m == 2 ==> lnot(m) == 3) && (m == 3 ==> lnot(m) == 2) && (m == 0 ==> lnot(m) == 1) && (m == 1 ==> lnot(m) == 0);
  ensures (m <= 1) <==> (lnot(m) <= 1);
  auto {lnot(m)};
  reveal lnot, lvar, lpos;
}
lemma lit_mk(m int) {
  requires isLit(m);
  ensures mklit(lvar(m), lpos(m)) == m;
  ensures 0 <= lvar(m) && lvar(m) < 2147483648;
  ensures (lvar(m) == 0) <==> (m <= 1);
  ensures m == 2 ==> lvar(m) == 1 && lpos(m);
  ensures m == 3 ==> lvar(m) == 1 && !lpos(m);
  auto {lvar(m)} {lpos(m)};
  reveal mklit, lvar, lpos;
}
lemma lit_of(v int; p bool) {
  requires 0 <= v && v < 2147483648;
  ensures lvar(mklit(v, p)) == v && (lpos(mklit(v, p)) <==> p);
  ensures isLit(mklit(v, p));
  ensures lnot(mklit(v, p)) == mklit(v, !p);
  ensures (mklit(v,p) >= 2) <==> (v >= 1);
  ensures v == 1 ==> mklit(v, p) == (if p then 2 else 3);
  ensures v == 0 ==> mklit(v, p) == (if p then 0 else 1);
  auto {mklit(v, p)};
  reveal mklit, lvar, lpos, lnot;
}
lemma lit_inj(m int; n int) {
  requires isLit(m) && isLit(n) && lvar(m) == lvar(n);
  ensures m == n || m == lnot(n);
  reveal lvar, lnot;
}

contract z.Lit.Var(m) (v) {
  pure lvar;
}
contract z.Lit.Not(m) (n) {
  pure lnot;
}
contract z.Lit.IsPos(m) (b) {
  pure lpos;
}
contract z.Lit.Sign(m) (s) {
  ensures s == (if lpos(m) then 1 else -1);
  reveal lpos;
}
contract z.Var.Pos(v) (m) {
  requires v < 2147483648;
  ensures m == mklit(v, true);
  reveal mklit;
}
contract z.Var.Neg(v) (m) {
  requires v < 2147483648;
  ensures m == mklit(v, false);
  reveal mklit;
}
contract z.Dimacs2Lit(i) (m) {
  requires -2147483648 < i && i < 2147483648;
  ensures m == (if i < 0 then mklit(-i, false) else mklit(i, true));
  reveal mklit;
}
contract z.Lit.Dimacs(m) (i) {
  ensures i == (if lpos(m) then lvar(m) else -lvar(m));
  reveal lvar, lpos;
}
// reading back what is written, in both directions
lemma dimacs_inverse(m int; i int) {
  requires isLit(m) && m != 1 && i == (if lpos(m) then lvar(m) else -lvar(m));
  ensures (if i < 0 then mklit(-i, false) else mklit(i, true)) == m;
  reveal mklit, lvar, lpos;
}
lemma dimacs_inverse2(i int; m int) {
  requires -2147483648 < i && i < 2147483648;
  requires m == (if i < 0 then mklit(-i, false) else mklit(i, true));
  ensures i == (if lpos(m) then lvar(m) else -lvar(m));
  reveal mklit, lvar, lpos;
}

property C18 {
  z.Lit.Var, z.Lit.Not, z.Lit.IsPos, z.Lit.Sign, z.Var.Pos, z.Var.Neg, z.Dimacs2Lit, z.Lit.Dimacs,
  dimacs_inverse, dimacs_inverse2
}
