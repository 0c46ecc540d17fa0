// Unit propagation (xo.Trail.Prop).
//
// w0, w1: the watched literals of a clause; x0, x1: where they are in the
// lists of watches of these literals.  wown: the literal of the list of
// watches in an array.
ghost w0 row;
ghost w1 row;
ghost x0 row;
ghost x1 row;
ghost wown row;
// a literal of the current level in the clause found false
ghost cx int;
// the watch being looked at
ghost gi int;
ghost gj int;
ghost gm int;
ghost gq int;

// a true literal of a clause whose watched literals are false
ghost blk row;

// Has: l is one of the literals p..e-1
opaque func Has(d row; o int; p int; e int; l int) bool = isLit(l) && 2 <= l && (exists i int : {d[ix(o, i)]} p <= i && i < e && d[ix(o, i)] == l);
lemma has_at(d row; o int; p int; e int; i int) {
  requires p <= i && i < e && isLit(d[ix(o, i)]) && 2 <= d[ix(o, i)];
  ensures Has(d, o, p, e, d[ix(o, i)]);
  reveal Has;
}
lemma has_lit(d row; o int; p int; e int; l int) {
  requires Has(d, o, p, e, l);
  ensures isLit(l) && 2 <= l;
  auto {Has(d, o, p, e, l)};
  reveal Has;
}
lemma has_frame(d row; o int; c row; u int; p int; e int; l int) {
  requires Has(c, u, p, e, l);
  requires forall i int : {d[ix(o, i)]} {c[ix(u, i)]} p <= i && i < e ==> d[ix(o, i)] == c[ix(u, i)];
  ensures Has(d, o, p, e, l);
  auto {Has(d, o, p, e, l), Has(c, u, p, e, l)};
  reveal Has;
}
lemma has_swap(d row; c row; o int; p int; e int; x int; y int) {
  requires p <= x && x < e && p <= y && y < e && d[ix(o, x)] == c[ix(o, y)] && d[ix(o, y)] == c[ix(o, x)];
  requires forall i int : {d[ix(o, i)]} {c[ix(o, i)]} p <= i && i < e && i != x && i != y ==> d[ix(o, i)] == c[ix(o, i)];
  ensures forall l int : {Has(d, o, p, e, l)} {Has(c, o, p, e, l)} Has(c, o, p, e, l) ==> Has(d, o, p, e, l);
  reveal Has;
}
// the clause p is element k of the list of l
func WRef(v *xo.Vars; l int; k int; p int; m int; j int; i int) = 0 <= l && l < len(v.Watches) && 0 <= k && k < len(v.Watches[l]) && wloc(v.Watches[l][k]) == p && (l == m ==> k < j || i <= k);
// every clause of two or more literals is in the lists of its watches
func WBack(v *xo.Vars; m int; j int; i int) = forall p int : {x0[p]} {x1[p]} live[p] && p + 2 <= cend[p] ==> WRef(v, w0[p], x0[p], p, m, j, i) && WRef(v, w1[p], x1[p], p, m, j, i) && (w0[p] != w1[p] || x0[p] != x1[p]);
// the watched literals of a clause are false and propagated, at level n at most; the list of m is done up to i
func WFls(t *xo.Trail; p int; m int; i int; n int) = isLit(w0[p]) && 2 <= w0[p] && isLit(w1[p]) && 2 <= w1[p] && t.Vars.Vals[w0[p]] == -1 && t.Vars.Vals[w1[p]] == -1 && tpos[lvar(w0[p])] < t.Head && tpos[lvar(w1[p])] < t.Head && lev(t, w0[p]) <= n && lev(t, w1[p]) <= n
  && !(w0[p] == m && i <= x0[p]) && !(w1[p] == m && i <= x1[p]);
// then it has a true literal of no higher level
func WTru(t *xo.Trail; p int) = t.Vars.Vals[blk[p]] == 1 && Has(row(t.Cdb.CDat.D), off(t.Cdb.CDat.D), p, cend[p], blk[p]) && (lev(t, blk[p]) <= lev(t, w0[p]) || lev(t, blk[p]) <= lev(t, w1[p]));
func WFull(t *xo.Trail; m int; i int; n int) = forall p int : {blk[p]} live[p] && p + 2 <= cend[p] && WFls(t, p, m, i, n) ==> WTru(t, p);

// the watch w is right as element k of the list of l
func WEnt(w int; l int; k int) = live[wloc(w)] && wloc(w) + 2 <= cend[wloc(w)] && (l == w0[wloc(w)] && x0[wloc(w)] == k || l == w1[wloc(w)] && x1[wloc(w)] == k)
  && (wbin(w) ==> cend[wloc(w)] == wloc(w) + 2 && (w0[wloc(w)] == l && w1[wloc(w)] == woth(w) || w1[wloc(w)] == l && w0[wloc(w)] == woth(w)));
// all entries are right, but those j..i-1 of the list of m
func WAll(v *xo.Vars; m int; j int; i int) = forall l, k : {v.Watches[l][k]} 0 <= l && l < len(v.Watches) && 0 <= k && k < len(v.Watches[l]) && (l != m || k < j || i <= k) ==> WEnt(v.Watches[l][k], l, k);
func WLists(v *xo.Vars; m int; j int; i int) = arr(v.Watches) != 0 && len(v.Watches) < 2147483648
  && (forall l int : {v.Watches[l]} 0 <= l && l < len(v.Watches) && arr(v.Watches[l]) != 0 ==> wown[arr(v.Watches[l])] == l)
  && WAll(v, m, j, i)
  && WBack(v, m, j, i);
// the other literal of a watch is in the clause
func WBlk(c *xo.Cdb) = forall l, k : {c.Vars.Watches[l][k]} 0 <= l && l < len(c.Vars.Watches) && 0 <= k && k < len(c.Vars.Watches[l]) ==> live[wloc(c.Vars.Watches[l][k])] && Has(row(c.CDat.D), off(c.CDat.D), wloc(c.Vars.Watches[l][k]), cend[wloc(c.Vars.Watches[l][k])], woth(c.Vars.Watches[l][k]));
// the watched literals are the first two
func WFirst(c *xo.Cdb) = forall p int : {live[p]} live[p] && p + 2 <= cend[p] ==> c.CDat.D[p] == w0[p] && c.CDat.D[p + 1] == w1[p] || c.CDat.D[p] == w1[p] && c.CDat.D[p + 1] == w0[p];
func WClauses(c *xo.Cdb) = WFirst(c) && WBlk(c);
func Watch(t *xo.Trail) = WLists(t.Vars, 0, 0, 0) && WClauses(t.Cdb);

opaque func FalseAt(d row; o int; v row; u int; p int; e int) bool = forall i int : {d[ix(o, i)]} p <= i && i < e ==> isLit(d[ix(o, i)]) && v[ix(u, d[ix(o, i)])] == -1;
lemma false_new(d row; o int; v row; u int; p int; e int) {
  requires forall i int : {d[ix(o, i)]} p <= i && i < e ==> isLit(d[ix(o, i)]) && v[ix(u, d[ix(o, i)])] == -1;
  ensures FalseAt(d, o, v, u, p, e);
  reveal FalseAt;
}
lemma false_get(d row; o int; v row; u int; p int; e int; i int) {
  requires FalseAt(d, o, v, u, p, e) && p <= i && i < e;
  ensures isLit(d[ix(o, i)]) && v[ix(u, d[ix(o, i)])] == -1;
  auto {FalseAt(d, o, v, u, p, e), d[ix(o, i)]};
  reveal FalseAt;
}
// Confl: the clause x is false and has a literal of the current level
func Confl(t *xo.Trail; x int) = live[x] && FalseAt(row(t.Cdb.CDat.D), off(t.Cdb.CDat.D), row(t.Vars.Vals), off(t.Vars.Vals), x, cend[x])
  && x <= cx && cx < cend[x] && lev(t, t.Cdb.CDat.D[cx]) == t.Level;

// the indices of a list of watches from which i..j-1 are removed
uninterp func wshift(x row; w row; m int; i int; d int) row;
axiom wshift_def(x row; w row; m int; i int; d int; q int) {
  ensures wshift(x, w, m, i, d)[q] == (if w[q] == m && x[q] >= i then x[q] - d else x[q]);
  auto {wshift(x, w, m, i, d)[q]};
}

contract xo.Trail.Prop(t) (x) {
  requires TOk(t) && Mem(t.Cdb) && Ent(t.Cdb) && Heap(t) && Watch(t) && WFull(t, 0, 0, t.Level);
  ensures shape: TShape(t);
  ensures at: TAt(t, t.Tail);
  ensures lev: TLev(t);
  ensures head: THead(t);
  ensures fd: Fd(t);
  ensures heap: Heap(t);
  ensures mem: Mem(t.Cdb);
  ensures ent: Ent(t.Cdb);
  ensures wl: WLists(t.Vars, 0, 0, 0);
  ensures wc: WClauses(t.Cdb);
  ensures full: x == 0 ==> WFull(t, 0, 0, t.Level);
  ensures below: WFull(t, 0, 0, t.Level - 1);
  ensures old(t.Tail) <= t.Tail;
  ensures t.Head == t.Tail && t.Level == old(t.Level) && dpos == old(dpos) && dlit == old(dlit);
  ensures x != 0 ==> live[x] && x <= cx && cx < cend[x] && lev(t, t.Cdb.CDat.D[cx]) == t.Level;
  ensures x != 0 ==> Confl(t, x);
  ensures prefix: forall i int : {t.D[i]} {old(t.D[i])} 0 <= i && i < old(t.Tail) ==> t.D[i] == old(t.D[i]);
  ensures kept: forall l int : {t.Vars.Vals[l]} {old(t.Vars.Vals[l])} isLit(l) && 2 <= l && old(t.Vars.Vals[l]) != 0 ==> t.Vars.Vals[l] == old(t.Vars.Vals[l]) && lev(t, l) == old(lev(t, l));
  modifies t.Head, t.Tail, t.Props, t.MaxTail, elems(t.D), elems(t.Vars.Vals), elems(t.Vars.Levels), elems(t.Vars.Reasons), elems(t.Vars.Watches), rows xo.Watch, elems(t.Cdb.CDat.D),
    tpos, dpos, dlit, fd, w0, w1, x0, x1, wown, cx, gi, gj, gm, gq, blk;
  loop 0 {
    invariant shape: TShape(t);
    invariant at: TAt(t, t.Tail);
    invariant lev: TLev(t);
    invariant head: THead(t);
    invariant fd: Fd(t);
    invariant heap: Heap(t);
    invariant mem: Mem(t.Cdb);
    invariant ent: Ent(t.Cdb);
    invariant wl: WLists(t.Vars, 0, 0, 0);
    invariant wc: WClauses(t.Cdb);
    invariant full: WFull(t, 0, 0, t.Level);
    invariant t.Level == old(t.Level) && old(t.Tail) <= t.Tail && dpos == old(dpos) && dlit == old(dlit);
    invariant prefix: forall i int : {t.D[i]} {old(t.D[i])} 0 <= i && i < old(t.Tail) ==> t.D[i] == old(t.D[i]);
    invariant levs: forall i int : {t.D[i]} {old(t.D[i])} 0 <= i && i < old(t.Tail) ==> lev(t, t.D[i]) == old(lev(t, t.D[i]));
  }
  loop 1 {
    begin { ghost gi := iter; ghost gj := j; ghost gm := m; label B; }
    invariant shape: TShape(t);
    invariant at: TAt(t, t.Tail);
    invariant lev: TLev(t);
    invariant head: THead(t);
    invariant fd: Fd(t);
    invariant heap: Heap(t);
    invariant mem: Mem(t.Cdb);
    invariant ent: Ent(t.Cdb);
    invariant list: mWatches == t.Vars.Watches[m] && 0 <= j && j <= iter && 2 <= m && t.Vars.Vals[m] == -1 && lev(t, m) == t.Level && m < len(t.Vars.Watches);
    invariant wl: WLists(t.Vars, m, j, iter);
    invariant wc: WClauses(t.Cdb);
    invariant full: WFull(t, m, iter, t.Level);
    invariant t.Level == old(t.Level) && old(t.Tail) <= t.Tail && dpos == old(dpos) && dlit == old(dlit);
    invariant prefix: forall i int : {t.D[i]} {old(t.D[i])} 0 <= i && i < old(t.Tail) ==> t.D[i] == old(t.D[i]);
    invariant levs: forall i int : {t.D[i]} {old(t.D[i])} 0 <= i && i < old(t.Tail) ==> lev(t, t.D[i]) == old(lev(t, t.D[i]));
    end {
      have has_at(row(t.Cdb.CDat.D), off(t.Cdb.CDat.D), wloc(w), cend[wloc(w)], wloc(w));
      have has_at(row(t.Cdb.CDat.D), off(t.Cdb.CDat.D), wloc(w), cend[wloc(w)], wloc(w) + 1);
      ghost gq := wloc(w);
      ghost blk[gq] := if t.Vars.Vals[woth(w)] == 1 then woth(w) else if t.Vars.Vals[t.Cdb.CDat.D[gq]] == 1 then t.Cdb.CDat.D[gq] else if t.Vars.Vals[t.Cdb.CDat.D[gq + 1]] == 1 then t.Cdb.CDat.D[gq + 1] else blk[gq];
      ghost x0[gq] := if j != at(B, j) && w0[gq] == m && x0[gq] == gi then at(B, j) else x0[gq];
      ghost x1[gq] := if j != at(B, j) && w1[gq] == m && x1[gq] == gi then at(B, j) else x1[gq];
      ghost wown[arr(t.Vars.Watches[n])] := if 0 <= n && n < len(t.Vars.Watches) && arr(t.Vars.Watches[n]) != 0 then n else wown[arr(t.Vars.Watches[n])];
      assert WBack(t.Vars, m, j, gi + 1) from
        at(B, WBack(t.Vars, gm, gj, gi)), at(B, wloc(t.Vars.Watches[gm][gi])) == gq && gm == m && gj <= gi && gj <= j && j <= gj + 1,
        forall l, k : {t.Vars.Watches[l][k]} {at(B, t.Vars.Watches[l][k])} 0 <= l && l < len(t.Vars.Watches) && 0 <= k && k < at(B, len(t.Vars.Watches[l])) && (l != gm || k < gj || gi < k) ==> t.Vars.Watches[l][k] == at(B, t.Vars.Watches[l][k]),
        len(t.Vars.Watches) == at(B, len(t.Vars.Watches)),
        forall l int : {t.Vars.Watches[l]} {at(B, t.Vars.Watches[l])} 0 <= l && l < len(t.Vars.Watches) ==> at(B, len(t.Vars.Watches[l])) <= len(t.Vars.Watches[l]),
        forall p int : {x0[p]} {x1[p]} p != gq ==> x0[p] == at(B, x0[p]) && x1[p] == at(B, x1[p]) && w0[p] == at(B, w0[p]) && w1[p] == at(B, w1[p]),
        WRef(t.Vars, w0[gq], x0[gq], gq, m, j, gi + 1),
        WRef(t.Vars, w1[gq], x1[gq], gq, m, j, gi + 1),
        w0[gq] != w1[gq] || x0[gq] != x1[gq];
      assert WFull(t, m, gi + 1, t.Level) from
        at(B, WFull(t, gm, gi, t.Level)), at(B, WBack(t.Vars, gm, gj, gi)), at(B, wloc(t.Vars.Watches[gm][gi])) == gq && gm == m,
        t.Head == at(B, t.Head) && t.Level == at(B, t.Level) && at(B, len(t.Vars.Watches)) < 2147483648,
        forall l int : {t.Vars.Vals[l]} isLit(l) && t.Vars.Vals[l] != 0 && tpos[lvar(l)] < t.Head ==> at(B, t.Vars.Vals[l]) == t.Vars.Vals[l] && at(B, tpos[lvar(l)]) == tpos[lvar(l)],
        forall l int : {t.Vars.Vals[l]} {at(B, t.Vars.Vals[l])} isLit(l) && at(B, t.Vars.Vals[l]) != 0 ==> at(B, t.Vars.Vals[l]) == t.Vars.Vals[l] && at(B, lev(t, l)) == lev(t, l),
        forall p, l : {Has(row(t.Cdb.CDat.D), off(t.Cdb.CDat.D), p, cend[p], l)} live[p] && p != gq && at(B, Has(row(t.Cdb.CDat.D), off(t.Cdb.CDat.D), p, cend[p], l)) ==> Has(row(t.Cdb.CDat.D), off(t.Cdb.CDat.D), p, cend[p], l),
        forall p, l : {at(B, Has(row(t.Cdb.CDat.D), off(t.Cdb.CDat.D), p, cend[p], l))} at(B, Has(row(t.Cdb.CDat.D), off(t.Cdb.CDat.D), p, cend[p], l)) ==> isLit(l),
        forall p int : {blk[p]} p != gq ==> blk[p] == at(B, blk[p]) && x0[p] == at(B, x0[p]) && x1[p] == at(B, x1[p]) && w0[p] == at(B, w0[p]) && w1[p] == at(B, w1[p]),
        live[gq] && gq + 2 <= cend[gq] && WFls(t, gq, m, gi + 1, t.Level) ==> WTru(t, gq);
    }
  }
  loop 2 {
    invariant q + 2 <= p && p <= cend[q];
    invariant forall k int : {t.Cdb.CDat.D[k]} q + 2 <= k && k < p ==> t.Vars.Vals[t.Cdb.CDat.D[k]] == -1;
    decreases cend[q] - p;
  }
  at before xo.MakeWatch {
    label W;
    have has_at(row(t.Cdb.CDat.D), off(t.Cdb.CDat.D), q, cend[q], p);
    have lits_swap(row(t.Cdb.CDat.D), at(B, row(t.Cdb.CDat.D)), off(t.Cdb.CDat.D), q, cend[q], q, p);
    have sat_swap(row(t.Cdb.CDat.D), at(B, row(t.Cdb.CDat.D)), off(t.Cdb.CDat.D), asg, q, cend[q], q, p);
    have bnd_swap(row(t.Cdb.CDat.D), at(B, row(t.Cdb.CDat.D)), off(t.Cdb.CDat.D), q, cend[q], t.Vars.Max, q, p);
    have has_swap(row(t.Cdb.CDat.D), at(B, row(t.Cdb.CDat.D)), off(t.Cdb.CDat.D), q, cend[q], q, p);
    have lits_swap(row(t.Cdb.CDat.D), at(B, row(t.Cdb.CDat.D)), off(t.Cdb.CDat.D), q, cend[q], q + 1, p);
    have sat_swap(row(t.Cdb.CDat.D), at(B, row(t.Cdb.CDat.D)), off(t.Cdb.CDat.D), asg, q, cend[q], q + 1, p);
    have bnd_swap(row(t.Cdb.CDat.D), at(B, row(t.Cdb.CDat.D)), off(t.Cdb.CDat.D), q, cend[q], t.Vars.Max, q + 1, p);
    have has_swap(row(t.Cdb.CDat.D), at(B, row(t.Cdb.CDat.D)), off(t.Cdb.CDat.D), q, cend[q], q + 1, p);
  }
  at after xo.MakeWatch {
    ghost x0[q] := if w0[q] == m && at(W, x0)[q] == gi then len(t.Vars.Watches[n]) else x0[q];
    ghost x1[q] := if !(w0[q] == m && at(W, x0)[q] == gi) then len(t.Vars.Watches[n]) else x1[q];
    ghost w0[q] := if at(W, w0)[q] == m && at(W, x0)[q] == gi then n else w0[q];
    ghost w1[q] := if !(at(W, w0)[q] == m && at(W, x0)[q] == gi) then n else w1[q];
  }
  at before xo.Trail.Assign {
    have lits_swap(row(t.Cdb.CDat.D), at(B, row(t.Cdb.CDat.D)), off(t.Cdb.CDat.D), q, cend[q], q, q + 1);
    have sat_swap(row(t.Cdb.CDat.D), at(B, row(t.Cdb.CDat.D)), off(t.Cdb.CDat.D), asg, q, cend[q], q, q + 1);
    have bnd_swap(row(t.Cdb.CDat.D), at(B, row(t.Cdb.CDat.D)), off(t.Cdb.CDat.D), q, cend[q], t.Vars.Max, q, q + 1);
    have has_swap(row(t.Cdb.CDat.D), at(B, row(t.Cdb.CDat.D)), off(t.Cdb.CDat.D), q, cend[q], q, q + 1);
    assert t.Cdb.CDat.D[q + 1] == m;
    assert forall i int : {t.Cdb.CDat.D[i]} q + 1 < i && i < cend[q] ==> t.Vars.Vals[t.Cdb.CDat.D[i]] == -1;
    assert forall i int : {t.Cdb.CDat.D[i]} q < i && i < cend[q] ==> t.Vars.Vals[t.Cdb.CDat.D[i]] == -1;
    assert forall i int : {t.Cdb.CDat.D[i]} q < i && i < cend[q] ==> isLit(t.Cdb.CDat.D[i]);
    have rsn_new(row(t.Cdb.CDat.D), off(t.Cdb.CDat.D), row(t.Vars.Vals), off(t.Vars.Vals), tpos, q, cend[q], t.Tail);
  }
  at return {
    have lits_swap(row(t.Cdb.CDat.D), at(B, row(t.Cdb.CDat.D)), off(t.Cdb.CDat.D), q, cend[q], q, q + 1);
    have sat_swap(row(t.Cdb.CDat.D), at(B, row(t.Cdb.CDat.D)), off(t.Cdb.CDat.D), asg, q, cend[q], q, q + 1);
    have bnd_swap(row(t.Cdb.CDat.D), at(B, row(t.Cdb.CDat.D)), off(t.Cdb.CDat.D), q, cend[q], t.Vars.Max, q, q + 1);
    have has_swap(row(t.Cdb.CDat.D), at(B, row(t.Cdb.CDat.D)), off(t.Cdb.CDat.D), q, cend[q], q, q + 1);
    assert result != 0 ==> live[result] && t.Vars.Vals[t.Cdb.CDat.D[result]] == -1 && t.Vars.Vals[t.Cdb.CDat.D[result + 1]] == -1;
    assert result != 0 ==> t.Cdb.CDat.D[result] == gm || t.Cdb.CDat.D[result + 1] == gm;
    assert forall i int : {t.Cdb.CDat.D[i]} result != 0 && result + 2 <= i && i < cend[result] ==> t.Vars.Vals[t.Cdb.CDat.D[i]] == -1;
    assert forall i int : {t.Cdb.CDat.D[i]} result != 0 && result + 1 <= i && i < cend[result] ==> t.Vars.Vals[t.Cdb.CDat.D[i]] == -1;
    assert forall i int : {t.Cdb.CDat.D[i]} result != 0 && result <= i && i < cend[result] ==> t.Vars.Vals[t.Cdb.CDat.D[i]] == -1;
    assert forall i int : {t.Cdb.CDat.D[i]} result != 0 && result <= i && i < cend[result] ==> isLit(t.Cdb.CDat.D[i]);
    assert forall k int : {t.Vars.Watches[gm][k]} result != 0 && gj <= k && k < len(t.Vars.Watches[gm]) ==> t.Vars.Watches[gm][k] == at(B, t.Vars.Watches[gm][k + gi - gj]);
    assert forall k int : {t.Vars.Watches[gm][k]} result != 0 && 0 <= k && k < gj ==> WEnt(t.Vars.Watches[gm][k], gm, k);
    assert forall k int : {t.Vars.Watches[gm][k]} result != 0 && gj <= k && k < len(t.Vars.Watches[gm]) ==> WEnt(t.Vars.Watches[gm][k], gm, k + gi - gj) from
      result != 0 ==> at(B, WAll(t.Vars, gm, gj, gi)), result != 0 ==> 0 <= gj && gj <= gi && 0 <= gm && gm < at(B, len(t.Vars.Watches)) && len(t.Vars.Watches[gm]) == at(B, len(t.Vars.Watches[gm])) - gi + gj,
      forall k int : {t.Vars.Watches[gm][k]} result != 0 && gj <= k && k < len(t.Vars.Watches[gm]) ==> t.Vars.Watches[gm][k] == at(B, t.Vars.Watches[gm][k + gi - gj]),
      result != 0 ==> live == at(B, live) && cend == at(B, cend) && w0 == at(B, w0) && w1 == at(B, w1) && x0 == at(B, x0) && x1 == at(B, x1);
    label S;
    ghost cx := if t.Cdb.CDat.D[result] == gm then result else result + 1;
    ghost x0 := if result == 0 then x0 else wshift(x0, w0, gm, gi, gi - gj);
    ghost x1 := if result == 0 then x1 else wshift(x1, w1, gm, gi, gi - gj);
    assert forall k int : {t.Vars.Watches[gm][k]} result != 0 && 0 <= k && k < gj ==> WEnt(t.Vars.Watches[gm][k], gm, k);
    assert forall k int : {t.Vars.Watches[gm][k]} result != 0 && gj <= k && k < len(t.Vars.Watches[gm]) ==> WEnt(t.Vars.Watches[gm][k], gm, k) from
      forall k int : {t.Vars.Watches[gm][k]} result != 0 && gj <= k && k < len(t.Vars.Watches[gm]) ==> at(S, WEnt(t.Vars.Watches[gm][k], gm, k + gi - gj)),
      result != 0 ==> gj <= gi,
      forall p int : {w0[p]} {w1[p]} result != 0 ==> w0[p] == at(S, w0[p]) && w1[p] == at(S, w1[p]) && x0[p] == wshift(at(S, x0), w0, gm, gi, gi - gj)[p] && x1[p] == wshift(at(S, x1), w1, gm, gi, gi - gj)[p];
    assert forall l, k : {t.Vars.Watches[l][k]} result != 0 && 0 <= l && l < len(t.Vars.Watches) && l != gm && 0 <= k && k < len(t.Vars.Watches[l]) ==> WEnt(t.Vars.Watches[l][k], l, k);
    have false_new(row(t.Cdb.CDat.D), off(t.Cdb.CDat.D), row(t.Vars.Vals), off(t.Vars.Vals), result, cend[result]);
    assert WBack(t.Vars, 0, 0, 0) from
      result == 0 ==> WBack(t.Vars, 0, 0, 0),
      result != 0 ==> at(B, WBack(t.Vars, gm, gj, gi)), result != 0 ==> 0 <= gj && gj <= gi && gi < at(B, len(t.Vars.Watches[gm])) && 2 <= gm && len(t.Vars.Watches) == at(B, len(t.Vars.Watches)) && len(t.Vars.Watches[gm]) == at(B, len(t.Vars.Watches[gm])) - gi + gj,
      forall l, k : {t.Vars.Watches[l][k]} {at(B, t.Vars.Watches[l][k])} result != 0 && 0 <= l && l < len(t.Vars.Watches) && 0 <= k && k < at(B, len(t.Vars.Watches[l])) && (l != gm || k < gj) ==> t.Vars.Watches[l][k] == at(B, t.Vars.Watches[l][k]),
      forall k int : {at(B, t.Vars.Watches[gm][k])} {t.Vars.Watches[gm][k - gi + gj]} result != 0 && gi <= k && k < at(B, len(t.Vars.Watches[gm])) ==> t.Vars.Watches[gm][k - gi + gj] == at(B, t.Vars.Watches[gm][k]),
      forall l int : {t.Vars.Watches[l]} {at(B, t.Vars.Watches[l])} result != 0 && 0 <= l && l < len(t.Vars.Watches) && l != gm ==> at(B, len(t.Vars.Watches[l])) == len(t.Vars.Watches[l]),
      forall p int : {w0[p]} {w1[p]} result != 0 ==> w0[p] == at(B, w0[p]) && w1[p] == at(B, w1[p]) && x0[p] == wshift(at(B, x0), w0, gm, gi, gi - gj)[p] && x1[p] == wshift(at(B, x1), w1, gm, gi, gi - gj)[p];
    assert WBlk(t.Cdb) from
      result == 0 ==> WBlk(t.Cdb),
      result != 0 ==> at(B, WBlk(t.Cdb)), result != 0 ==> 0 <= gj && gj <= gi && len(t.Vars.Watches) == at(B, len(t.Vars.Watches)) && len(t.Vars.Watches[gm]) == at(B, len(t.Vars.Watches[gm])) - gi + gj && t.Cdb.Vars == t.Vars,
      forall l, k : {t.Vars.Watches[l][k]} result != 0 && 0 <= l && l < len(t.Vars.Watches) && 0 <= k && k < len(t.Vars.Watches[l]) && (l != gm || k < gj) ==> t.Vars.Watches[l][k] == at(B, t.Vars.Watches[l][k]) && k < at(B, len(t.Vars.Watches[l])),
      forall k int : {t.Vars.Watches[gm][k]} result != 0 && gj <= k && k < len(t.Vars.Watches[gm]) ==> t.Vars.Watches[gm][k] == at(B, t.Vars.Watches[gm][k + gi - gj]),
      forall p, l : {Has(row(t.Cdb.CDat.D), off(t.Cdb.CDat.D), p, cend[p], l)} result != 0 && live[p] && at(B, Has(row(t.Cdb.CDat.D), off(t.Cdb.CDat.D), p, cend[p], l)) ==> Has(row(t.Cdb.CDat.D), off(t.Cdb.CDat.D), p, cend[p], l);
    assert WAll(t.Vars, 0, 0, 0) from
      result == 0 ==> WAll(t.Vars, 0, 0, 0),
      forall k int : {t.Vars.Watches[gm][k]} result != 0 && 0 <= k && k < gj ==> WEnt(t.Vars.Watches[gm][k], gm, k),
      forall k int : {t.Vars.Watches[gm][k]} result != 0 && gj <= k && k < len(t.Vars.Watches[gm]) ==> WEnt(t.Vars.Watches[gm][k], gm, k),
      forall l, k : {t.Vars.Watches[l][k]} result != 0 && 0 <= l && l < len(t.Vars.Watches) && l != gm && 0 <= k && k < len(t.Vars.Watches[l]) ==> WEnt(t.Vars.Watches[l][k], l, k);
  }
}
property C01 { has_at, has_lit, has_frame, has_swap, xo.Trail.Prop, false_new, false_get }
