// Cardinality constraints by odd-even merge sort (logic.CardSort).

// strd(l, s, j): element j of the sequence which starts at l with stride s
opaque func strd(l int; s int; j int) int = l + j * s;

lemma strd_first(l int; s int) {
  ensures strd(l, s, 0) == l && strd(l, s, 1) == l + s && strd(l, s, 2) == l + 2 * s;
  reveal strd;
}
lemma strd_unit(l int; j int) {
  ensures strd(l, 1, j) == l + j;
  auto {strd(l, 1, j)};
  reveal strd;
}
lemma strd_succ(l int; s int; j int) {
  ensures strd(l, s, j + 1) == strd(l, s, j) + s;
  reveal strd;
}
lemma strd_lt(l int; s int; i int; j int) {
  requires s >= 1 && i < j;
  ensures strd(l, s, i) + s <= strd(l, s, j);
  auto {strd(l, s, i), strd(l, s, j)};
  reveal strd;
}
lemma strd_even(l int; s int; j int) {
  ensures strd(l, s, 2 * j) == strd(l, 2 * s, j);
  ensures strd(l, s, 2 * j + 1) == strd(l + s, 2 * s, j);
  reveal strd;
}
// the even and the odd elements
lemma strd_join(l int; s int) {
  ensures forall j int : {strd(l, 2 * s, j)} strd(l, 2 * s, j) == strd(l, s, 2 * j);
  ensures forall j int : {strd(l + s, 2 * s, j)} strd(l + s, 2 * s, j) == strd(l, s, 2 * j + 1);
  reveal strd;
}
lemma strd_split(l int; s int) {
  ensures forall j int : {strd(l, s, j)} j % 2 == 0 ==> strd(l, s, j) == strd(l, 2 * s, j / 2);
  ensures forall j int : {strd(l, s, j)} j % 2 == 1 ==> strd(l, s, j) == strd(l + s, 2 * s, j / 2);
  reveal strd;
}
lemma strd_apart(l int; s int) {
  requires s >= 1;
  ensures forall i, j int : {strd(l, 2 * s, i), strd(l + s, 2 * s, j)} strd(l, 2 * s, i) != strd(l + s, 2 * s, j);
  use strd_join(l, s);
}

rec func isp2(n int) bool = n == 1 || n > 1 && n % 2 == 0 && isp2(n / 2);
lemma isp2_pos(n int) {
  requires isp2(n);
  ensures n >= 1;
  auto {isp2(n)};
}

lemma isp2_pow2(n int) {
  requires 0 <= n;
  ensures isp2(pow2(n));
  auto {pow2(n)};
  induct n;
}

// zc: the number of false literals among elements a..b-1
rec func zc(as set; r row; o int; a int; b int) int =
  if b <= a then 0 else zc(as, r, o, a, b - 1) + (if (lpos(r[ix(o, b - 1)]) <==> as[lvar(r[ix(o, b - 1)])]) then 0 else 1);

lemma zc_bound1(as set; r row; o int; a int; n int) {
  requires 0 <= n;
  ensures 0 <= zc(as, r, o, a, a + n) && zc(as, r, o, a, a + n) <= n;
  induct n;
}
lemma zc_add1(as set; r row; o int; a int; m int; n int) {
  requires 0 <= n && a <= m;
  ensures zc(as, r, o, a, m + n) == zc(as, r, o, a, m) + zc(as, r, o, m, m + n);
  induct n;
}
lemma zc_same1(as set; r row; q row; o int; p int; a int; n int) {
  requires 0 <= n;
  requires forall j int : {r[ix(o, j)]} {q[ix(p, j)]} a <= j && j < a + n ==> r[ix(o, j)] == q[ix(p, j)];
  ensures zc(as, r, o, a, a + n) == zc(as, q, p, a, a + n);
  induct n;
}
property C14 { strd_even, strd_join, strd_split, strd_apart, isp2_pos, zc_bound1, zc_add1, zc_same1 }

// CGrow: the circuit is consistent and has the gates it had
func CGrow(c *logic.C) = COk(c)
  && (arr(c.nodes) == old(arr(c.nodes)) || fresh(c.nodes)) && (arr(c.strash) == old(arr(c.strash)) || fresh(c.strash))
  && len(c.nodes) >= old(len(c.nodes))
  && (forall i int : {c.nodes[i]} {old(c.nodes[i])} 0 <= i && i < old(len(c.nodes)) ==> c.nodes[i].a == old(c.nodes[i].a) && c.nodes[i].b == old(c.nodes[i].b))
  && (Agree(c) ==> old(Agree(c)));
func CardOk(s *logic.CardSort) = s != nil && COk(s.c) && arr(s.ms) != 0
  && (forall i int : {s.ms[i]} 0 <= i && i < len(s.ms) ==> litIn(s.c, s.ms[i]));

contract logic.CardSort.cas(c, i, j) (lo, hi) {
  requires CardOk(c) && 0 <= i && i < len(c.ms) && 0 <= j && j < len(c.ms);
  ensures CardOk(c) && CGrow(c.c);
  ensures litIn(c.c, lo) && litIn(c.c, hi);
  ensures Agree(c.c) ==> (lval(lo) <==> lval(c.ms[i]) && lval(c.ms[j])) && (lval(hi) <==> lval(c.ms[i]) || lval(c.ms[j]));
  at entry { assume len(c.c.nodes) < 1073741800; }
  modifies c.c.nodes, c.c.strash, elems(c.c.nodes), elems(c.c.strash), new elems(c.c.nodes), new elems(c.c.strash);
}

// merge(l, h, s) works on the sequence of gn elements from l with stride s;
// gza and gzb are the numbers of false elements in its sorted halves.
ghost gn int;
ghost gza int;
ghost gzb int;

func Halves(c *logic.CardSort; l int; s int; n int; za int; zb int) =
  0 <= za && za <= n / 2 && 0 <= zb && zb <= n - n / 2 &&
  (forall j int : {strd(l, s, j)} 0 <= j && j < n ==> (lval(c.ms[strd(l, s, j)]) <==> (if j < n / 2 then j >= za else j - n / 2 >= zb)));
func Srt(c *logic.CardSort; l int; s int; n int; z int) =
  forall j int : {strd(l, s, j)} 0 <= j && j < n ==> (lval(c.ms[strd(l, s, j)]) <==> j >= z);

lemma halves_even(c *logic.CardSort; l int; s int; n int; za int; zb int) {
  requires Halves(c, l, s, n, za, zb) && n % 4 == 0;
  ensures Halves(c, l, 2 * s, n / 2, (za + 1) / 2, (zb + 1) / 2);
  use strd_join(l, s);
}
lemma halves_odd(c *logic.CardSort; l int; s int; n int; za int; zb int) {
  requires Halves(c, l, s, n, za, zb) && n % 4 == 0;
  ensures Halves(c, l + s, 2 * s, n / 2, za / 2, zb / 2);
  use strd_join(l, s);
}
lemma srt_both(c *logic.CardSort; l int; s int; n int; ze int; zo int) {
  requires Srt(c, l, 2 * s, n / 2, ze) && Srt(c, l + s, 2 * s, n / 2, zo) && n % 2 == 0;
  ensures forall j int : {strd(l, s, j)} 0 <= j && j < n ==> (lval(c.ms[strd(l, s, j)]) <==> (if j % 2 == 0 then j / 2 >= ze else j / 2 >= zo));
  use strd_split(l, s);
}

// the last exchange: zeros of the even and odd elements differ by at most two
lemma pair_arith(k int; za int; zb int) {
  ensures (k >= za / 2 + zb / 2 && k + 1 >= (za + 1) / 2 + (zb + 1) / 2) <==> 2 * k + 1 >= za + zb;
  ensures (k >= za / 2 + zb / 2 || k + 1 >= (za + 1) / 2 + (zb + 1) / 2) <==> 2 * k + 2 >= za + zb;
}

contract logic.CardSort.merge(c, l, h, s) {
  requires CardOk(c) && 0 <= l && h <= len(c.ms) && s >= 1;
  requires isp2(gn) && strd(l, s, gn - 1) < h && h <= strd(l, s, gn);
  ensures CardOk(c) && CGrow(c.c);
  ensures forall i int : {c.ms[i]} {old(c.ms[i])} 0 <= i && i < len(c.ms) && (forall j int : {strd(l, s, j)} 0 <= j && j < old(gn) ==> i != strd(l, s, j)) ==> c.ms[i] == old(c.ms[i]);
  ensures Agree(c.c) && old(Halves(c, l, s, gn, gza, gzb)) ==> Srt(c, l, s, old(gn), old(gza) + old(gzb));
  modifies elems(c.ms), c.c.nodes, c.c.strash, elems(c.c.nodes), elems(c.c.strash), new elems(c.c.nodes), new elems(c.c.strash), gn, gza, gzb;
  at entry {
    use strd_first(l, s);
    use strd_join(l, s);
  }
  at before logic.CardSort.merge 0 {
    have halves_even(c, l, s, old(gn), old(gza), old(gzb));
    have halves_odd(c, l, s, old(gn), old(gza), old(gzb));
    use strd_apart(l, s);
    assert gn >= 4;
    ghost gn := old(gn) / 2;
    ghost gza := (old(gza) + 1) / 2;
    ghost gzb := (old(gzb) + 1) / 2;
  }
  at before logic.CardSort.merge 1 {
    ghost gn := old(gn) / 2;
    ghost gza := old(gza) / 2;
    ghost gzb := old(gzb) / 2;
  }
  at after logic.CardSort.merge 1 {
    assert Agree(c.c) && old(Halves(c, l, s, gn, gza, gzb)) ==> Srt(c, l, 2 * s, old(gn) / 2, (old(gza) + 1) / 2 + (old(gzb) + 1) / 2) && Srt(c, l + s, 2 * s, old(gn) / 2, old(gza) / 2 + old(gzb) / 2);
    have srt_both(c, l, s, old(gn), (old(gza) + 1) / 2 + (old(gzb) + 1) / 2, old(gza) / 2 + old(gzb) / 2);
    assert Agree(c.c) && old(Halves(c, l, s, gn, gza, gzb)) ==> (lval(c.ms[strd(l, s, 0)]) <==> 0 >= old(gza) + old(gzb));
  }
  at before logic.CardSort.cas 1 {
    assert strd(l, s, 2 * iter + 2) == i + s;
    assert 2 * iter + 2 < old(gn);
    assert (2 * iter + 1) / 2 == iter && (2 * iter + 2) / 2 == iter + 1 && (2 * iter + 1) % 2 == 1 && (2 * iter + 2) % 2 == 0;
    assert old(Halves(c, l, s, gn, gza, gzb)) && Agree(c.c) ==> (lval(c.ms[strd(l, s, 2 * iter + 1)]) <==> iter >= old(gza) / 2 + old(gzb) / 2);
    assert old(Halves(c, l, s, gn, gza, gzb)) && Agree(c.c) ==> (lval(c.ms[strd(l, s, 2 * iter + 2)]) <==> iter + 1 >= (old(gza) + 1) / 2 + (old(gzb) + 1) / 2);
    use pair_arith(iter, old(gza), old(gzb));
    assert old(Halves(c, l, s, gn, gza, gzb)) && Agree(c.c) ==> (lval(c.ms[i]) && lval(c.ms[i + s]) <==> 2 * iter + 1 >= old(gza) + old(gzb)) && (lval(c.ms[i]) || lval(c.ms[i + s]) <==> 2 * iter + 2 >= old(gza) + old(gzb));
  }
  at after logic.CardSort.cas 1 {
    assert old(Halves(c, l, s, gn, gza, gzb)) && Agree(c.c) ==> (lval(res0) <==> 2 * iter + 1 >= old(gza) + old(gzb)) && (lval(res1) <==> 2 * iter + 2 >= old(gza) + old(gzb));
  }
  loop 0 {
    havoc elems(c.c.nodes), elems(c.c.strash);
    invariant CardOk(c) && CGrow(c.c) && lim == h - s && ss == 2 * s;
    invariant (arr(c.c.nodes) == pre(arr(c.c.nodes)) || arr(c.c.nodes) >= pre(next())) && (arr(c.c.strash) == pre(arr(c.c.strash)) || arr(c.c.strash) >= pre(next()));
    invariant i == strd(l, s, 2 * iter + 1) && 2 * iter + 1 < old(gn);
    invariant forall i int : {c.ms[i]} {old(c.ms[i])} 0 <= i && i < len(c.ms) && (forall j int : {strd(l, s, j)} 0 <= j && j < old(gn) ==> i != strd(l, s, j)) ==> c.ms[i] == old(c.ms[i]);
    invariant Agree(c.c) && old(Halves(c, l, s, gn, gza, gzb)) ==> (forall j int : {strd(l, s, j)} 0 <= j && j < 2 * iter + 1 ==> (lval(c.ms[strd(l, s, j)]) <==> j >= old(gza) + old(gzb)));
    invariant Agree(c.c) && old(Halves(c, l, s, gn, gza, gzb)) ==> (forall j int : {strd(l, s, j)} 2 * iter + 1 <= j && j < old(gn) && j % 2 == 0 ==> (lval(c.ms[strd(l, s, j)]) <==> j / 2 >= (old(gza) + 1) / 2 + (old(gzb) + 1) / 2));
    invariant Agree(c.c) && old(Halves(c, l, s, gn, gza, gzb)) ==> (forall j int : {strd(l, s, j)} 2 * iter + 1 <= j && j < old(gn) && j % 2 == 1 ==> (lval(c.ms[strd(l, s, j)]) <==> j / 2 >= old(gza) / 2 + old(gzb) / 2));
    begin { use strd_succ(l, s, 2 * iter + 1); use strd_succ(l, s, 2 * iter + 2); }
  }
}
property C14 { logic.CardSort.cas, halves_even, halves_odd, srt_both, logic.CardSort.merge }

contract logic.CardSort.sort(c, l, h) {
  requires CardOk(c) && 0 <= l && h <= len(c.ms) && isp2(h - l);
  ensures CardOk(c) && CGrow(c.c);
  ensures forall i int : {c.ms[i]} {old(c.ms[i])} 0 <= i && i < len(c.ms) && (i < l || i >= h) ==> c.ms[i] == old(c.ms[i]);
  ensures Agree(c.c) ==> (forall j int : {c.ms[j]} l <= j && j < h ==> (lval(c.ms[j]) <==> j - l >= old(zc(asg, row(c.ms), off(c.ms), l, h))));
  modifies elems(c.ms), c.c.nodes, c.c.strash, elems(c.c.nodes), elems(c.c.strash), new elems(c.c.nodes), new elems(c.c.strash), gn, gza, gzb;
  at entry {
    use zc_bound1(asg, row(c.ms), off(c.ms), l, 0);
    use zc_bound1(asg, row(c.ms), off(c.ms), l, 1);
  }
  at before logic.CardSort.sort 0 {
    assert m - l == (h - l) / 2 && h - m == (h - l) / 2;
    use zc_add1(asg, row(c.ms), off(c.ms), l, m, h - m);
    use zc_bound1(asg, row(c.ms), off(c.ms), l, m - l);
    use zc_bound1(asg, row(c.ms), off(c.ms), m, h - m);
  }
  at before logic.CardSort.sort 1 {
    use zc_same1(asg, row(c.ms), old(row(c.ms)), off(c.ms), off(c.ms), m, h - m);
  }
  at before logic.CardSort.merge {
    ghost gn := h - l;
    ghost gza := old(zc(asg, row(c.ms), off(c.ms), l, l + (h - l) / 2));
    ghost gzb := old(zc(asg, row(c.ms), off(c.ms), l + (h - l) / 2, h));
    assert Agree(c.c) ==> Halves(c, l, 1, gn, gza, gzb);
    assert gza + gzb == old(zc(asg, row(c.ms), off(c.ms), l, h));
  }
  at after logic.CardSort.merge {
    assert forall j int : {c.ms[j]} l <= j && j < h ==> strd(l, 1, j - l) == j;
  }
}
property C14 { logic.CardSort.sort }

lemma zc_true(as set; r row; o int; a int; n int) {
  requires 0 <= n;
  requires forall j int : {r[ix(o, j)]} a <= j && j < a + n ==> (lpos(r[ix(o, j)]) <==> as[lvar(r[ix(o, j)])]);
  ensures zc(as, r, o, a, a + n) == 0;
  induct n;
}
contract logic.NewCardSort(ms, c) (r) {
  requires COk(c) && len(ms) < 1073741824;
  requires forall k int : {ms[k]} 0 <= k && k < len(ms) ==> litIn(c, ms[k]);
  ensures CardOk(r) && CGrow(c) && fresh(r) && r.c == c && r.n == len(ms) && r.n <= len(r.ms);
  // asc: element j is true when j is at least the number of false inputs
  ensures Agree(c) ==> (forall j int : {r.ms[j]} 0 <= j && j < len(r.ms) ==> (lval(r.ms[j]) <==> j >= old(zc(asg, row(ms), off(ms), 0, len(ms)))));
  modifies c.nodes, c.strash, elems(c.nodes), elems(c.strash), new elems(c.nodes), new elems(c.strash), gn, gza, gzb;
  at before logic.CardSort.sort {
    use zc_same1(asg, old(row(ms)), row(ns), old(off(ms)), off(ns), 0, len(ms));
    use zc_add1(asg, row(ns), off(ns), 0, len(ms), len(ns) - len(ms));
    have zc_true(asg, row(ns), off(ns), len(ms), len(ns) - len(ms));
    assert Agree(c) ==> zc(asg, row(ns), off(ns), 0, len(ns)) == old(zc(asg, row(ms), off(ms), 0, len(ms)));
  }
  loop 0 {
    invariant 0 <= p && p <= len(ms);
  }
  loop 1 {
    invariant len(ms) <= i && i <= len(ns) && COk(c) && Agree(c) == old(Agree(c));
    invariant forall k int : {ns[k]} 0 <= k && k < len(ms) ==> ns[k] == old(ms[k]);
    invariant forall k int : {ns[k]} len(ms) <= k && k < i ==> ns[k] == 2;
  }
}
property C14 { logic.NewCardSort }

// The bounds: cz is the number of false inputs, n - cz the number of true ones.
ghost cz int;
func Asc(s *logic.CardSort) = 0 <= cz && cz <= s.n && (forall j int : {s.ms[j]} 0 <= j && j < len(s.ms) ==> (lval(s.ms[j]) <==> j >= cz));
func CardN(s *logic.CardSort) = CardOk(s) && 0 <= s.n && s.n <= len(s.ms);

contract logic.CardSort.Leq(c, b) (r) {
  requires CardN(c);
  ensures Agree(c.c) && Asc(c) ==> (lval(r) <==> c.n - cz <= b);
  ensures litIn(c.c, r);
}
contract logic.CardSort.Less(c, b) (r) {
  requires CardN(c);
  ensures Agree(c.c) && Asc(c) ==> (lval(r) <==> c.n - cz < b);
  ensures litIn(c.c, r);
}
contract logic.CardSort.Geq(c, b) (r) {
  requires CardN(c);
  ensures Agree(c.c) && Asc(c) ==> (lval(r) <==> c.n - cz >= b);
  ensures litIn(c.c, r);
}
contract logic.CardSort.Gr(c, b) (r) {
  requires CardN(c);
  ensures Agree(c.c) && Asc(c) ==> (lval(r) <==> c.n - cz > b);
  ensures litIn(c.c, r);
}
contract logic.CardSort.N(c) (r) {
  requires c != nil;
  ensures r == c.n;
}
contract logic.C.CardSort(c, ms) (r) {
  requires COk(c) && len(ms) < 1073741824;
  requires forall k int : {ms[k]} 0 <= k && k < len(ms) ==> litIn(c, ms[k]);
  ensures CardN(r) && CGrow(c) && r.c == c && r.n == len(ms);
  ensures Agree(c) ==> (forall j int : {r.ms[j]} 0 <= j && j < len(r.ms) ==> (lval(r.ms[j]) <==> j >= old(zc(asg, row(ms), off(ms), 0, len(ms)))));
  modifies c.nodes, c.strash, elems(c.nodes), elems(c.strash), new elems(c.nodes), new elems(c.strash), gn, gza, gzb;
}
property C14 { logic.CardSort.Leq, logic.CardSort.Less, logic.CardSort.Geq, logic.CardSort.Gr, logic.CardSort.N, logic.C.CardSort }
