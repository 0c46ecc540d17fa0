// The decision heap (xo.Guess).
//
// Floating point numbers are compared by a total preorder: no rank is NaN.
axiom flt_le_total(a float64; b float64) {
  ensures a <= b || b <= a;
  auto {a <= b};
}
axiom flt_le_trans(a float64; b float64; c float64) {
  requires a <= b && b <= c;
  ensures a <= c;
  auto {a <= b, b <= c};
}
axiom flt_lt(a float64; b float64) {
  ensures (a < b) <==> !(b <= a);
  auto {a < b};
}

// hs: heap order is only claimed below the nodes >= hs
ghost hs int;

func hpar(k int) int = (k - 1) / 2;
func hrank(g *xo.Guess; k int) float64 = g.heat[g.vhp[k]];
func hchild(g *xo.Guess; k int) = g.heat[g.vhp[k]] <= g.heat[g.vhp[(k - 1) / 2]];

// GPerm: pos and vhp are inverse to each other
func GPerm(g *xo.Guess) = g != nil && arr(g.pos) != 0 && arr(g.vhp) != 0 && arr(g.heat) != 0 && arr(g.cache) != 0
  && len(g.heat) == len(g.pos) && len(g.cache) == len(g.pos) && 1 <= len(g.pos) && len(g.pos) <= 2147483648
  && g.pos[0] == -1 && g.bumpLim == xo.gBumpLim
  && (forall v int : {g.pos[v]} 0 <= v && v < len(g.pos) ==> g.pos[v] == -1 || 0 <= g.pos[v] && g.pos[v] < len(g.vhp) && g.vhp[g.pos[v]] == v)
  && (forall k int : {g.vhp[k]} 0 <= k && k < len(g.vhp) ==> 1 <= g.vhp[k] && g.vhp[k] < len(g.pos) && g.pos[g.vhp[k]] == k);

// GOrd: heap order among the first n, below nodes >= s
func GOrd(g *xo.Guess; n int; s int) = forall k int : {g.vhp[k]} 1 <= k && k < n && s <= (k - 1) / 2 ==> hchild(g, k);

func GOk(g *xo.Guess) = GPerm(g) && GOrd(g, len(g.vhp), 0);

contract xo.Guess.swap(g, i, j) {
  inline;
}

contract xo.Guess.up(g, j) {
  requires GPerm(g) && 0 <= j && j < len(g.vhp);
  requires forall k int : {g.vhp[k]} 1 <= k && k < len(g.vhp) && k != j ==> hchild(g, k);
  requires forall k int : {g.vhp[k]} 1 <= k && k < len(g.vhp) && 1 <= j && (k - 1) / 2 == j ==> hrank(g, k) <= hrank(g, (j - 1) / 2);
  ensures GOk(g);
  ensures forall v int : {g.pos[v]} {old(g.pos[v])} 0 <= v && v < len(g.pos) ==> (g.pos[v] == -1 <==> old(g.pos[v]) == -1);
  modifies elems(g.vhp), elems(g.pos);
  loop 0 {
    invariant 0 <= j && j < len(g.vhp) && GPerm(g);
    invariant forall k int : {g.vhp[k]} 1 <= k && k < len(g.vhp) && k != j ==> hchild(g, k);
    invariant forall k int : {g.vhp[k]} 1 <= k && k < len(g.vhp) && 1 <= j && (k - 1) / 2 == j ==> hrank(g, k) <= hrank(g, (j - 1) / 2);
    invariant forall v int : {g.pos[v]} {old(g.pos[v])} 0 <= v && v < len(g.pos) ==> (g.pos[v] == -1 <==> old(g.pos[v]) == -1);
    decreases j;
  }
}

contract xo.Guess.down(g, i, n) {
  requires GPerm(g) && 0 <= i && n <= len(g.vhp) && 0 <= hs;
  requires forall k int : {g.vhp[k]} 1 <= k && k < n && hs <= (k - 1) / 2 && k != i && (k - 1) / 2 != i ==> hchild(g, k);
  requires 1 <= i && hs <= (i - 1) / 2 ==> (forall k int : {g.vhp[k]} 1 <= k && k < n && (k - 1) / 2 == i ==> hrank(g, k) <= hrank(g, (i - 1) / 2));
  ensures GPerm(g);
  ensures forall k int : {g.vhp[k]} 1 <= k && k < n && hs <= (k - 1) / 2 && k != i ==> hchild(g, k);
  ensures 1 <= i && i < n && hs <= (i - 1) / 2 && old(hchild(g, i)) ==> hchild(g, i);
  ensures 1 <= i && hs <= (i - 1) / 2 ==> (forall k int : {g.vhp[k]} 1 <= k && k < n && (k - 1) / 2 == i ==> hrank(g, k) <= hrank(g, (i - 1) / 2));
  ensures forall v int : {g.pos[v]} {old(g.pos[v])} 0 <= v && v < len(g.pos) ==> (g.pos[v] == -1 <==> old(g.pos[v]) == -1);
  ensures forall k int : {g.vhp[k]} n <= k && k < len(g.vhp) ==> g.vhp[k] == old(g.vhp[k]);
  modifies elems(g.vhp), elems(g.pos);
  loop 0 {
    invariant GPerm(g) && old(i) <= i && (i == old(i) || i < n);
    invariant forall k int : {g.vhp[k]} 1 <= k && k < n && hs <= (k - 1) / 2 && k != old(i) && (k - 1) / 2 != i ==> hchild(g, k);
    invariant 1 <= i && hs <= (i - 1) / 2 ==> (forall k int : {g.vhp[k]} 1 <= k && k < n && (k - 1) / 2 == i ==> hrank(g, k) <= hrank(g, (i - 1) / 2));
    invariant i != old(i) && 1 <= old(i) && hs <= (old(i) - 1) / 2 ==> hchild(g, old(i));
    invariant i == old(i) ==> (forall k int : {g.vhp[k]} 0 <= k && k < len(g.vhp) ==> g.vhp[k] == old(g.vhp[k]));
    invariant forall v int : {g.pos[v]} {old(g.pos[v])} 0 <= v && v < len(g.pos) ==> (g.pos[v] == -1 <==> old(g.pos[v]) == -1);
    invariant forall k int : {g.vhp[k]} n <= k && k < len(g.vhp) ==> g.vhp[k] == old(g.vhp[k]);
    decreases n - i;
  }
}

// rescaling by 1 / 1e100 keeps the order
axiom flt_scale(a float64; b float64) {
  requires a <= b;
  ensures a * (xo.gBumpInc / xo.gBumpLim) <= b * (xo.gBumpInc / xo.gBumpLim);
  auto {a * (xo.gBumpInc / xo.gBumpLim), b * (xo.gBumpInc / xo.gBumpLim)};
}

// the root has the best rank
lemma rootmax(g *xo.Guess; n int; k int) {
  requires GOrd(g, n, 0) && 0 <= k && k < n;
  ensures forall j int : {g.vhp[j]} 0 <= j && j <= k ==> hrank(g, j) <= hrank(g, 0);
  induct k;
}

func GVals(g *xo.Guess; vals []int8) = 2 * len(g.pos) <= len(vals) && arr(vals) != 0;

contract xo.Guess.pop(g) (v) {
  requires GOk(g) && 1 <= len(g.vhp);
  ensures GOk(g) && len(g.vhp) == old(len(g.vhp)) - 1 && arr(g.vhp) == old(arr(g.vhp)) && 1 <= v && v < len(g.pos);
  ensures old(g.pos[v]) == 0 && g.pos[v] == -1;
  ensures forall u int : {g.pos[u]} {old(g.pos[u])} 0 <= u && u < len(g.pos) && u != v ==> (g.pos[u] == -1 <==> old(g.pos[u]) == -1);
  ensures forall u int : {old(g.pos[u])} {g.heat[u]} 0 <= u && u < len(g.pos) && old(g.pos[u]) != -1 ==> g.heat[u] <= g.heat[v];
  modifies elems(g.vhp), elems(g.pos), g.vhp, hs;
  at entry { use rootmax(g, len(g.vhp), len(g.vhp) - 1); }
  at before xo.Guess.down { ghost hs := 0; }
}

contract xo.Guess.Guess(g, vals) (m) {
  requires GOk(g) && GVals(g, vals);
  ensures GOk(g) && arr(g.vhp) == old(arr(g.vhp));
  ensures m == 0 || m >= 2 && lvar(m) < len(g.pos);
 ensures m != 0 ==> vals[mklit(lvar(m), true)] == 0;
 ensures m != 0 ==> old(g.pos[lvar(m)]) != -1;
  ensures m == 0 ==> forall u int : {g.pos[u]} {old(g.pos[u])} 0 <= u && u < len(g.pos) && old(g.pos[u]) != -1 ==> vals[mklit(u, true)] != 0;
  ensures forall u int : {g.pos[u]} {old(g.pos[u])} 0 <= u && u < len(g.pos) && u != lvar(m) ==> g.pos[u] == old(g.pos[u]) || (g.pos[u] == -1) && vals[mklit(u, true)] != 0 || g.pos[u] != -1 && old(g.pos[u]) != -1;
  ensures m != 0 ==> forall u int : {old(g.pos[u])} {g.heat[u]} 0 <= u && u < len(g.pos) && old(g.pos[u]) != -1 && vals[mklit(u, true)] == 0 ==> g.heat[u] <= g.heat[lvar(m)];
  modifies elems(g.vhp), elems(g.pos), g.vhp, g.guesses, hs;
  loop 0 {
    invariant GOk(g) && n == len(g.vhp) && 0 <= n;
    invariant arr(g.vhp) == old(arr(g.vhp));
    invariant forall u int : {g.pos[u]} {old(g.pos[u])} 0 <= u && u < len(g.pos) ==> (old(g.pos[u]) == -1 ==> g.pos[u] == -1);
    invariant forall u int : {g.pos[u]} {old(g.pos[u])} 0 <= u && u < len(g.pos) ==> (old(g.pos[u]) != -1 && g.pos[u] == -1 ==> vals[mklit(u, true)] != 0);
    decreases n;
  }
}

contract xo.Guess.Bump(g, m) (res) {
  requires GOk(g) && lvar(m) < len(g.pos);
  ensures GOk(g);
  ensures forall v int : {g.pos[v]} {old(g.pos[v])} 0 <= v && v < len(g.pos) ==> (g.pos[v] == -1 <==> old(g.pos[v]) == -1);
  modifies elems(g.vhp), elems(g.pos), elems(g.heat), g.rescales, g.bumpInc, hs;
  loop 0 {
    entry { label H; }
    invariant arr(g.heat) == old(arr(g.heat)) && GPerm(g);
    invariant forall k int : {g.heat[k]} 0 <= k && k < len(g.heat) ==> g.heat[k] == (if k < iter then at(H, g.heat[k]) * (xo.gBumpInc / xo.gBumpLim) else at(H, g.heat[k]));
  }
  at entry { ghost hs := 0; }
}

contract xo.Guess.Push(g, m) {
  requires GOk(g) && 2 <= m && lvar(m) < len(g.pos);
  ensures GOk(g);
  ensures g.pos[lvar(m)] != -1;
  ensures forall v int : {g.pos[v]} {old(g.pos[v])} 0 <= v && v < len(g.pos) && v != lvar(m) ==> (g.pos[v] == -1 <==> old(g.pos[v]) == -1);
  ensures g.cache[lvar(m)] == (if lpos(m) then 1 else -1);
  ensures arr(g.vhp) == old(arr(g.vhp)) || fresh(g.vhp);
  modifies elems(g.vhp), new elems(g.vhp), elems(g.pos), elems(g.cache), g.vhp;
}

contract xo.Guess.heapify(g) {
  requires GPerm(g);
  ensures GOk(g);
  ensures forall v int : {g.pos[v]} {old(g.pos[v])} 0 <= v && v < len(g.pos) ==> (g.pos[v] == -1 <==> old(g.pos[v]) == -1);
  modifies elems(g.vhp), elems(g.pos), hs;
  loop 0 {
    invariant GPerm(g) && n == len(g.vhp) && -1 <= i;
    invariant forall k int : {g.vhp[k]} 1 <= k && k < n && i < (k - 1) / 2 ==> hchild(g, k);
    invariant forall v int : {g.pos[v]} {old(g.pos[v])} 0 <= v && v < len(g.pos) ==> (g.pos[v] == -1 <==> old(g.pos[v]) == -1);
    decreases i + 1;
  }
  at before xo.Guess.down { ghost hs := i; }
}

contract xo.Guess.has(g, vals) (r) {
  requires GOk(g) && GVals(g, vals);
  ensures r ==> exists u int : {g.pos[u]} 1 <= u && u < len(g.pos) && g.pos[u] != -1 && vals[mklit(u, true)] == 0;
  ensures !r ==> forall u int : {g.pos[u]} 0 <= u && u < len(g.pos) && g.pos[u] != -1 ==> vals[mklit(u, true)] != 0;
  loop 0 {
    invariant forall k int : {g.vhp[k]} 0 <= k && k < iter ==> vals[mklit(g.vhp[k], true)] != 0;
  }
}

contract xo.Guess.Copy(g) (o) {
  requires GOk(g);
  ensures GOk(o) && fresh(o);
  ensures len(o.pos) == len(g.pos) && len(o.vhp) == len(g.vhp);
  ensures fresh(o.pos) && fresh(o.vhp) && fresh(o.heat) && fresh(o.cache);
  ensures forall v int : {o.pos[v]} 0 <= v && v < len(g.pos) ==> o.pos[v] == g.pos[v];
  ensures forall v int : {o.heat[v]} 0 <= v && v < len(g.pos) ==> o.heat[v] == g.heat[v];
  ensures forall v int : {o.cache[v]} 0 <= v && v < len(g.pos) ==> o.cache[v] == g.cache[v];
  ensures forall v int : {o.vhp[v]} 0 <= v && v < len(g.vhp) ==> o.vhp[v] == g.vhp[v];
  ensures o.decays == g.decays && o.restartDecays == g.restartDecays && o.decayMax == g.decayMax && o.decayMin == g.decayMin
    && o.decayMaxMax == g.decayMaxMax && o.decayMaxDecay == g.decayMaxDecay && o.bumpInc == g.bumpInc && o.bumpDecay == g.bumpDecay && o.bumpLim == g.bumpLim;
}

contract xo.newGuess(capHint) (g) {
  requires 0 <= capHint && capHint < 2147483648;
  ensures GOk(g) && fresh(g) && len(g.vhp) == 0 && cap(g.vhp) == capHint + 1 && len(g.pos) == capHint + 1;
  ensures fresh(g.pos) && fresh(g.vhp) && fresh(g.heat) && fresh(g.cache);
  ensures forall v int : {g.pos[v]} 0 <= v && v <= capHint ==> g.pos[v] == -1;
  loop 0 {
    invariant forall v int : {g.pos[v]} 0 <= v && v < iter ==> g.pos[v] == -1;
  }
}

contract xo.Guess.growToVar(g, u) {
  requires GOk(g) && len(g.pos) <= u && u < 2147483647;
  ensures GOk(g) && len(g.pos) == u + 1;
  ensures fresh(g.pos) && fresh(g.vhp) && fresh(g.heat) && fresh(g.cache);
  ensures forall v int : {g.pos[v]} {old(g.pos[v])} 0 <= v && v < old(len(g.pos)) ==> (g.pos[v] == -1 <==> old(g.pos[v]) == -1);
  ensures forall v int : {g.pos[v]} old(len(g.pos)) <= v && v <= u ==> g.pos[v] != -1;
  modifies g.vhp, g.pos, g.heat, g.cache, new elems(g.vhp), new elems(g.pos), new elems(g.heat), new elems(g.cache), hs;
  loop 0 {
    invariant old(len(g.pos)) <= i && i <= u + 1;
    invariant len(g.vhp) == old(len(g.vhp)) + i - old(len(g.pos));
    invariant fresh(g.vhp);
    invariant forall k int : {g.vhp[k]} 0 <= k && k < old(len(g.vhp)) ==> g.vhp[k] == old(g.vhp[k]);
    invariant forall k int : {g.vhp[k]} old(len(g.vhp)) <= k && k < len(g.vhp) ==> g.vhp[k] == k - old(len(g.vhp)) + old(len(g.pos));
    invariant forall k int : {p[k]} 0 <= k && k < old(len(g.pos)) ==> p[k] == old(g.pos[k]);
    invariant forall k int : {p[k]} old(len(g.pos)) <= k && k < i ==> p[k] == k - old(len(g.pos)) + old(len(g.vhp));
    decreases u + 1 - i;
  }
}

property C10 { xo.Guess.up, xo.Guess.down, xo.Guess.pop, xo.Guess.Guess, xo.Guess.Bump, xo.Guess.Push, xo.Guess.heapify, xo.Guess.has, xo.Guess.Copy, xo.newGuess, xo.Guess.growToVar, rootmax }
