// The assignment stack (xo.Trail) and unit propagation.
//
// asg is an arbitrary assignment; aall says that it satisfies every clause
// which has been added.  SatAt: the clause at p..e-1 has a literal which is
// true in asg; wit is where.
ghost asg set;
ghost aall bool;
func tru(m int) = (asg[lvar(m)] <==> lpos(m));
uninterp func wit(d row; o int; a set; p int; e int) int;
opaque func SatAt(d row; o int; a set; p int; e int) bool = p <= wit(d, o, a, p, e) && wit(d, o, a, p, e) < e && (a[lvar(d[ix(o, wit(d, o, a, p, e))])] <==> lpos(d[ix(o, wit(d, o, a, p, e))]));
// wit chooses an index with the property if there is one (Hilbert's choice)
axiom wit_choice(d row; o int; a set; p int; e int; i int) {
  requires p <= i && i < e && (a[lvar(d[ix(o, i)])] <==> lpos(d[ix(o, i)]));
  ensures SatAt(d, o, a, p, e);
}
lemma sat_get(d row; o int; a set; p int; e int) {
  requires SatAt(d, o, a, p, e);
  ensures p <= wit(d, o, a, p, e) && wit(d, o, a, p, e) < e && (a[lvar(d[ix(o, wit(d, o, a, p, e))])] <==> lpos(d[ix(o, wit(d, o, a, p, e))]));
  reveal SatAt;
}
lemma sat_frame(d row; o int; c row; u int; a set; p int; e int) {
  requires SatAt(c, u, a, p, e);
  requires forall i int : {d[ix(o, i)]} {c[ix(u, i)]} p <= i && i < e ==> d[ix(o, i)] == c[ix(u, i)];
  ensures SatAt(d, o, a, p, e);
  auto {SatAt(d, o, a, p, e), SatAt(c, u, a, p, e)};
  use sat_get(c, u, a, p, e);
  use wit_choice(d, o, a, p, e, wit(c, u, a, p, e));
}
// two elements exchanged
lemma sat_swap(d row; c row; o int; a set; p int; e int; x int; y int) {
  requires SatAt(c, o, a, p, e);
  requires p <= x && x < e && p <= y && y < e && d[ix(o, x)] == c[ix(o, y)] && d[ix(o, y)] == c[ix(o, x)];
  requires forall i int : {d[ix(o, i)]} {c[ix(o, i)]} p <= i && i < e && i != x && i != y ==> d[ix(o, i)] == c[ix(o, i)];
  ensures SatAt(d, o, a, p, e);
  use sat_get(c, o, a, p, e);
  have wit_choice(d, o, a, p, e, wit(c, o, a, p, e));
  have wit_choice(d, o, a, p, e, x);
  have wit_choice(d, o, a, p, e, y);
}

// n elements found at p which were at x
lemma sat_shift(d row; o int; p int; c row; u int; x int; n int; a set) {
  requires SatAt(c, u, a, x, x + n) && 0 <= n;
  requires forall i int : {d[ix(o, i)]} p <= i && i < p + n ==> d[ix(o, i)] == c[ix(u, i - p + x)];
  ensures SatAt(d, o, a, p, p + n);
  use sat_get(c, u, a, x, x + n);
  use wit_choice(d, o, a, p, p + n, wit(c, u, a, x, x + n) - x + p);
}

// BndAt: the variables of the literals p..e-1 are at most n
opaque func BndAt(d row; o int; p int; e int; n int) bool = forall i int : {d[ix(o, i)]} p <= i && i < e ==> lvar(d[ix(o, i)]) <= n;
lemma bnd_new(d row; o int; p int; e int; n int) {
  requires forall i int : {d[ix(o, i)]} p <= i && i < e ==> lvar(d[ix(o, i)]) <= n;
  ensures BndAt(d, o, p, e, n);
  reveal BndAt;
}
lemma bnd_get(d row; o int; p int; e int; n int; i int) {
  requires BndAt(d, o, p, e, n) && p <= i && i < e;
  ensures lvar(d[ix(o, i)]) <= n;
  auto {BndAt(d, o, p, e, n), lvar(d[ix(o, i)])};
  reveal BndAt;
}
lemma bnd_frame(d row; o int; c row; u int; p int; e int; n int) {
  requires BndAt(c, u, p, e, n);
  requires forall i int : {d[ix(o, i)]} {c[ix(u, i)]} p <= i && i < e ==> d[ix(o, i)] == c[ix(u, i)];
  ensures BndAt(d, o, p, e, n);
  auto {BndAt(d, o, p, e, n), BndAt(c, u, p, e, n)};
  reveal BndAt;
}
lemma bnd_swap(d row; c row; o int; p int; e int; n int; x int; y int) {
  requires BndAt(c, o, p, e, n);
  requires p <= x && x < e && p <= y && y < e && d[ix(o, x)] == c[ix(o, y)] && d[ix(o, y)] == c[ix(o, x)];
  requires forall i int : {d[ix(o, i)]} {c[ix(o, i)]} p <= i && i < e && i != x && i != y ==> d[ix(o, i)] == c[ix(o, i)];
  ensures BndAt(d, o, p, e, n);
  reveal BndAt;
}

// RsnAt: the literals p+1..e-1 of the clause are false since before t
opaque func RsnAt(d row; o int; v row; u int; tp row; p int; e int; t int) bool = forall i int : {d[ix(o, i)]} p < i && i < e ==> isLit(d[ix(o, i)]) && v[ix(u, d[ix(o, i)])] == -1 && tp[lvar(d[ix(o, i)])] < t;
lemma rsn_get(d row; o int; v row; u int; tp row; p int; e int; t int; i int) {
  requires RsnAt(d, o, v, u, tp, p, e, t) && p < i && i < e;
  ensures isLit(d[ix(o, i)]) && v[ix(u, d[ix(o, i)])] == -1 && tp[lvar(d[ix(o, i)])] < t;
  auto {RsnAt(d, o, v, u, tp, p, e, t), d[ix(o, i)]};
  reveal RsnAt;
}
lemma rsn_new(d row; o int; v row; u int; tp row; p int; e int; t int) {
  requires forall i int : {d[ix(o, i)]} p < i && i < e ==> isLit(d[ix(o, i)]) && v[ix(u, d[ix(o, i)])] == -1 && tp[lvar(d[ix(o, i)])] < t;
  ensures RsnAt(d, o, v, u, tp, p, e, t);
  reveal RsnAt;
}
lemma rsn_frame(d row; o int; v row; u int; tp row; c row; q int; w row; tq row; p int; e int; t int) {
  requires RsnAt(c, q, w, u, tq, p, e, t);
  requires forall i int : {d[ix(o, i)]} p < i && i < e ==> d[ix(o, i)] == c[ix(q, i)];
  requires forall l int : {w[ix(u, l)]} isLit(l) && w[ix(u, l)] == -1 && tq[lvar(l)] < t ==> v[ix(u, l)] == -1 && tp[lvar(l)] == tq[lvar(l)];
  ensures RsnAt(d, o, v, u, tp, p, e, t);
  auto {RsnAt(d, o, v, u, tp, p, e, t), RsnAt(c, q, w, u, tq, p, e, t)};
  reveal RsnAt;
}

// tpos: the position of a variable on the trail.  dpos: where a level begins,
// with the decision dlit.  fd: the first element of the trail at which asg
// differs (Tail if none).
ghost tpos row;
ghost dpos row;
ghost dlit row;
ghost fd int;

func lev(t *xo.Trail; m int) = t.Vars.Levels[lvar(m)];
func rsn(t *xo.Trail; m int) = t.Vars.Reasons[lvar(m)];

func TShape(t *xo.Trail) = t != nil && t.Vars != nil && t.Cdb != nil && t.Guess != nil && t.Cdb.Vars == t.Vars
  && arr(t.D) != 0 && arr(t.Vars.Vals) != 0 && arr(t.Vars.Levels) != 0 && arr(t.Vars.Reasons) != 0
  && arr(t.D) != arr(t.Cdb.CDat.D) && arr(t.Vars.Levels) != arr(t.Guess.pos) && arr(t.Vars.Vals) != arr(t.Guess.cache)
  && len(t.Vars.Reasons) <= len(t.Guess.pos) && len(t.Vars.Reasons) < 1073741824
  && 0 <= t.Head && t.Head <= t.Tail && t.Tail <= len(t.D) && 0 <= t.Level
  && GOk(t.Guess);

// TAt: the facts about the first n elements of the trail
func TAt(t *xo.Trail; n int) =
     (forall i int : {t.D[i]} 0 <= i && i < n ==> 2 <= t.D[i] && lvar(t.D[i]) < len(t.Vars.Reasons) && t.Vars.Vals[t.D[i]] == 1 && t.Vars.Vals[lnot(t.D[i])] == -1 && tpos[lvar(t.D[i])] == i)
  && (forall l int : {t.Vars.Vals[l]} 2 <= l && l < 4294967296 && t.Vars.Vals[l] != 0 ==> 0 <= tpos[lvar(l)] && tpos[lvar(l)] < n
        && (t.Vars.Vals[l] == 1 && t.D[tpos[lvar(l)]] == l || t.Vars.Vals[l] == -1 && t.D[tpos[lvar(l)]] == lnot(l)))
  && (forall i int : {t.D[i]} 0 <= i && i < n ==> 0 <= lev(t, t.D[i]) && lev(t, t.D[i]) <= t.Level
        && (rsn(t, t.D[i]) == 0 ==> 1 <= lev(t, t.D[i]) && dpos[lev(t, t.D[i])] == i))
  && (forall i int : {t.D[i]} 0 <= i && i < n && rsn(t, t.D[i]) != 0 ==> live[rsn(t, t.D[i])] && t.Cdb.CDat.D[rsn(t, t.D[i])] == t.D[i]
        && RsnAt(row(t.Cdb.CDat.D), off(t.Cdb.CDat.D), row(t.Vars.Vals), off(t.Vars.Vals), tpos, rsn(t, t.D[i]), cend[rsn(t, t.D[i])], i));
func TLev(t *xo.Trail) =
     (forall l int : {dpos[l]} 1 <= l && l <= t.Level ==> 0 <= dpos[l] && dpos[l] < t.Tail && t.D[dpos[l]] == dlit[l] && lev(t, t.D[dpos[l]]) == l && rsn(t, t.D[dpos[l]]) == 0)
  && (forall i, l : {t.D[i], dpos[l]} 0 <= i && i < t.Tail && 1 <= l && l <= t.Level ==> (lev(t, t.D[i]) < l <==> i < dpos[l]));
func THead(t *xo.Trail) = forall i int : {t.D[i]} t.Head <= i && i < t.Tail ==> lev(t, t.D[i]) == t.Level;
func Fd(t *xo.Trail) = 0 <= fd && fd <= t.Tail
  && (forall i int : {t.D[i]} 0 <= i && i < fd ==> tru(t.D[i]))
  && (fd < t.Tail ==> !tru(t.D[fd]) && (aall ==> rsn(t, t.D[fd]) == 0));
func TOk(t *xo.Trail) = TShape(t) && TAt(t, t.Tail) && TLev(t) && THead(t) && Fd(t);

// the clauses
func Mem(c *xo.Cdb) = CDatOk(c.CDat) && (forall p int : {live[p]} live[p] ==> cls[p] && BndAt(row(c.CDat.D), off(c.CDat.D), p, cend[p], c.Vars.Max));
func Ent(c *xo.Cdb) = aall ==> (forall p int : {live[p]} live[p] ==> SatAt(row(c.CDat.D), off(c.CDat.D), asg, p, cend[p]));
// every variable without a value can be chosen
func Heap(t *xo.Trail) = forall v int : {t.Guess.pos[v]} 1 <= v && v <= t.Vars.Max && v < len(t.Guess.pos) && t.Vars.Vals[mklit(v, true)] == 0 ==> t.Guess.pos[v] != -1;

// every variable without a value but u can be chosen
func HeapBut(t *xo.Trail; u int) = forall v int : {t.Guess.pos[v]} 1 <= v && v <= t.Vars.Max && v < len(t.Guess.pos) && v != u && t.Vars.Vals[mklit(v, true)] == 0 ==> t.Guess.pos[v] != -1;

contract xo.Trail.Assign(t, m, c) {
  requires TOk(t) && Mem(t.Cdb) && Ent(t.Cdb) && HeapBut(t, lvar(m));
  requires 2 <= m && t.Vars.Vals[m] == 0;
  requires c == 0 ==> t.Head == t.Tail;
  requires c != 0 ==> live[c];
  requires c != 0 ==> t.Cdb.CDat.D[c] == m;
  requires c != 0 ==> RsnAt(row(t.Cdb.CDat.D), off(t.Cdb.CDat.D), row(t.Vars.Vals), off(t.Vars.Vals), tpos, c, cend[c], t.Tail);
  ensures shape: TShape(t);
  ensures at: TAt(t, t.Tail);
  ensures lev: TLev(t);
  ensures head: THead(t);
  ensures fd: Fd(t);
  ensures heap: Heap(t);
  ensures t.Tail == old(t.Tail) + 1 && t.D[old(t.Tail)] == m && t.Level == old(t.Level) + (if c == 0 then 1 else 0);
  ensures t.Vars.Vals[m] == 1 && t.Vars.Vals[lnot(m)] == -1 && rsn(t, m) == c && lev(t, m) == t.Level && tpos[lvar(m)] == old(t.Tail);
  ensures vals: forall l int : {t.Vars.Vals[l]} {old(t.Vars.Vals[l])} l != m && l != lnot(m) ==> t.Vars.Vals[l] == old(t.Vars.Vals[l]);
  ensures vars: forall v int : {tpos[v]} {t.Vars.Levels[v]} {t.Vars.Reasons[v]} v != lvar(m) ==> tpos[v] == old(tpos[v]) && t.Vars.Levels[v] == old(t.Vars.Levels[v]) && t.Vars.Reasons[v] == old(t.Vars.Reasons[v]);
  ensures prefix: forall i int : {t.D[i]} {old(t.D[i])} 0 <= i && i < old(t.Tail) ==> t.D[i] == old(t.D[i]);
  ensures c != 0 ==> dpos == old(dpos) && dlit == old(dlit);
  ensures c == 0 ==> dlit[t.Level] == m;
  ensures forall l int : {dlit[l]} {dpos[l]} l != t.Level ==> dlit[l] == old(dlit[l]) && dpos[l] == old(dpos[l]);
  ensures full: old(WFull(t, 0, 0, t.Level)) ==> WFull(t, 0, 0, t.Level);
  modifies elems(t.D), elems(t.Vars.Vals), elems(t.Vars.Levels), elems(t.Vars.Reasons), t.Tail, t.Level, tpos, dpos, dlit, fd;
  at entry {
    have sat_get(row(t.Cdb.CDat.D), off(t.Cdb.CDat.D), asg, c, cend[c]);
  }
  at return {
    ghost tpos[lvar(m)] := t.Tail - 1;
    ghost dpos[t.Level] := if c == 0 then t.Tail - 1 else dpos[t.Level];
    ghost dlit[t.Level] := if c == 0 then m else dlit[t.Level];
    ghost fd := if fd == t.Tail - 1 && tru(m) then t.Tail else fd;
    assert old(WFull(t, 0, 0, t.Level)) ==> WFull(t, 0, 0, t.Level) from
      t.Head == old(t.Head) && row(t.Cdb.CDat.D) == old(row(t.Cdb.CDat.D)),
      forall l int : {t.Vars.Vals[l]} isLit(l) && 2 <= l && t.Vars.Vals[l] != 0 && tpos[lvar(l)] < t.Head ==> old(t.Vars.Vals[l]) == t.Vars.Vals[l] && old(tpos[lvar(l)]) == tpos[lvar(l)] && old(lev(t, l)) == lev(t, l) && old(lev(t, l)) <= old(t.Level),
      forall l int : {old(t.Vars.Vals[l])} isLit(l) && 2 <= l && old(t.Vars.Vals[l]) != 0 ==> t.Vars.Vals[l] == old(t.Vars.Vals[l]) && lev(t, l) == old(lev(t, l));
  }
}
property C01 { xo.Trail.Assign, sat_get, sat_frame, sat_swap, sat_shift, rsn_get, rsn_new, rsn_frame, bnd_new, bnd_get, bnd_frame, bnd_swap }

contract xo.Trail.Back(t, trgLevel) {
  requires TOk(t) && Mem(t.Cdb) && Ent(t.Cdb) && Heap(t) && 0 <= trgLevel;
  ensures shape: TShape(t);
  ensures at: TAt(t, t.Tail);
  ensures lev: TLev(t);
  ensures head: THead(t);
  ensures fd: Fd(t);
  ensures heap: Heap(t);
  ensures level: t.Level == (if trgLevel < old(t.Level) then trgLevel else old(t.Level));
  ensures arr(t.Guess.vhp) == old(arr(t.Guess.vhp)) || fresh(t.Guess.vhp);
  ensures t.Tail <= old(t.Tail) && t.Head <= old(t.Head) || t.Head == t.Tail;
  ensures trgLevel < old(t.Level) ==> t.Head == t.Tail;
  ensures trgLevel >= old(t.Level) ==> t.Head == old(t.Head) && t.Tail == old(t.Tail);
  ensures keep: forall i int : {t.D[i]} 0 <= i && i < old(t.Tail) && old(lev(t, t.D[i])) <= trgLevel ==> i < t.Tail;
  ensures kept: forall l int : {t.Vars.Vals[l]} {old(t.Vars.Vals[l])} isLit(l) && 2 <= l && old(t.Vars.Vals[l]) != 0 && old(lev(t, l)) <= trgLevel ==> t.Vars.Vals[l] == old(t.Vars.Vals[l]) && lev(t, l) == old(lev(t, l)) && rsn(t, l) == old(rsn(t, l));
  ensures gone: forall l int : {t.Vars.Vals[l]} {old(t.Vars.Vals[l])} isLit(l) && 2 <= l && old(t.Vars.Vals[l]) != 0 && old(lev(t, l)) > trgLevel ==> t.Vars.Vals[l] == 0 && lev(t, l) == -1;
  ensures unset: forall l int : {t.Vars.Vals[l]} {old(t.Vars.Vals[l])} isLit(l) && 2 <= l && old(t.Vars.Vals[l]) == 0 ==> t.Vars.Vals[l] == 0 && lev(t, l) == old(lev(t, l));
  ensures full: trgLevel < old(t.Level) && old(WFull(t, 0, 0, t.Level - 1)) ==> WFull(t, 0, 0, t.Level);
  ensures full0: trgLevel >= old(t.Level) && old(WFull(t, 0, 0, t.Level)) ==> WFull(t, 0, 0, t.Level);
  ensures full1: trgLevel >= old(t.Level) && old(WFull(t, 0, 0, t.Level - 1)) ==> WFull(t, 0, 0, t.Level - 1);
  modifies elems(t.Vars.Vals), elems(t.Vars.Levels), elems(t.Vars.Reasons), t.Tail, t.Head, t.Level, fd, elems(t.Guess.vhp), new elems(t.Guess.vhp), elems(t.Guess.pos), elems(t.Guess.cache), t.Guess.vhp;
  loop 0 {
    invariant 0 <= i && i <= t.Tail && t.Tail == old(t.Tail);
    invariant shape: TShape(t);
    invariant at: TAt(t, i);
    invariant heap: Heap(t);
    invariant arr(t.Guess.vhp) == old(arr(t.Guess.vhp)) || fresh(t.Guess.vhp);
    invariant above: forall k int : {t.D[k]} i <= k && k < t.Tail ==> trgLevel < old(lev(t, t.D[k])) && t.Vars.Vals[t.D[k]] == 0 && t.Vars.Vals[lnot(t.D[k])] == 0 && lev(t, t.D[k]) == -1;
    invariant keptv: forall l int : {t.Vars.Vals[l]} {old(t.Vars.Vals[l])} isLit(l) && 2 <= l && tpos[lvar(l)] < i ==> t.Vars.Vals[l] == old(t.Vars.Vals[l]);
    invariant keptl: forall v int : {t.Vars.Levels[v]} {old(t.Vars.Levels[v])} tpos[v] < i ==> t.Vars.Levels[v] == old(t.Vars.Levels[v]);
    invariant keptr: forall v int : {t.Vars.Reasons[v]} {old(t.Vars.Reasons[v])} tpos[v] < i ==> t.Vars.Reasons[v] == old(t.Vars.Reasons[v]);
    invariant unset: forall l int : {t.Vars.Vals[l]} {old(t.Vars.Vals[l])} isLit(l) && 2 <= l && old(t.Vars.Vals[l]) == 0 ==> t.Vars.Vals[l] == 0 && lev(t, l) == old(lev(t, l));
    entry { assert 1 <= trgLevel ==> 0 <= dpos[trgLevel] && dpos[trgLevel] < t.Tail && t.D[dpos[trgLevel]] == dlit[trgLevel] && lev(t, t.D[dpos[trgLevel]]) == trgLevel; }
    decreases i;
  }
  at return {
    ghost fd := if fd > t.Tail then t.Tail else fd;
    assert trgLevel < old(t.Level) && old(WFull(t, 0, 0, t.Level - 1)) ==> WFull(t, 0, 0, t.Level) from
      trgLevel < old(t.Level) ==> t.Level == trgLevel,
      forall l int : {t.Vars.Vals[l]} trgLevel < old(t.Level) && isLit(l) && 2 <= l && t.Vars.Vals[l] != 0 ==> old(t.Vars.Vals[l]) == t.Vars.Vals[l] && old(lev(t, l)) == lev(t, l) && lev(t, l) <= t.Level && tpos[lvar(l)] < old(t.Head),
      forall l int : {old(t.Vars.Vals[l])} trgLevel < old(t.Level) && isLit(l) && 2 <= l && old(t.Vars.Vals[l]) != 0 && old(lev(t, l)) <= trgLevel ==> t.Vars.Vals[l] == old(t.Vars.Vals[l]) && lev(t, l) == old(lev(t, l));
  }
}
property C01 { xo.Trail.Back }
property C05 { xo.Trail.Assign, xo.Trail.Back, sat_get, sat_frame, rsn_get, rsn_new, rsn_frame }
property C10 { xo.Trail.Assign, xo.Trail.Back, sat_get, sat_frame, rsn_get, rsn_new, rsn_frame }
