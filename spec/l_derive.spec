// Conflict analysis (xo.Deriver).
//
// rset: variables found redundant or in the clause; rcl: those which are in the
// clause; ri: where in it.  rk: where a variable is in RLits; rpend: the
// variables of the clause which are not yet visited.
ghost rset set;
ghost rcl set;
ghost ri row;
ghost rk row;
ghost rpend set;
// a bound of the levels of the literals but the first
ghost tl int;

func sep(a []z.Lit; b []z.Lit) = arr(a) != arr(b) || arr(a) == 0;
func DrOk(d *xo.Deriver) = d != nil && d.Cdb != nil && d.Vars != nil && d.Trail != nil && d.Guess != nil
  && d.Vars == d.Trail.Vars && d.Cdb == d.Trail.Cdb && d.Guess == d.Trail.Guess
  && arr(d.Rdnt) != 0 && arr(d.Rdnt) != arr(d.Vars.Vals) && arr(d.Rdnt) != arr(d.Guess.cache)
  && arr(d.Seen) != 0 && arr(d.Lvls) != 0 && arr(d.Seen) != arr(d.Lvls)
  && sep(d.CLits, d.Trail.D) && sep(d.CLits, d.Cdb.CDat.D) && sep(d.SLits, d.Trail.D) && sep(d.SLits, d.Cdb.CDat.D) && sep(d.RLits, d.Trail.D) && sep(d.RLits, d.Cdb.CDat.D)
  && sep(d.CLits, d.SLits) && sep(d.CLits, d.RLits) && sep(d.SLits, d.RLits);

// AllIn: the variables of the literals p+1..e-1 are in s
opaque func AllIn(d row; o int; s set; p int; e int) bool = forall i int : {d[ix(o, i)]} p < i && i < e ==> s[lvar(d[ix(o, i)])];
lemma in_new(d row; o int; s set; p int; e int) {
  requires forall i int : {d[ix(o, i)]} p < i && i < e ==> s[lvar(d[ix(o, i)])];
  ensures AllIn(d, o, s, p, e);
  reveal AllIn;
}
lemma in_get(d row; o int; s set; p int; e int; i int) {
  requires AllIn(d, o, s, p, e) && p < i && i < e;
  ensures s[lvar(d[ix(o, i)])];
  auto {AllIn(d, o, s, p, e), d[ix(o, i)]};
  reveal AllIn;
}
lemma in_mono(d row; o int; s set; t set; p int; e int) {
  requires AllIn(d, o, s, p, e);
  requires forall v int : {t[v]} {s[v]} s[v] ==> t[v];
  ensures AllIn(d, o, t, p, e);
  auto {AllIn(d, o, s, p, e), AllIn(d, o, t, p, e)};
  reveal AllIn;
}
lemma sat_not(d row; o int; a set; p int; e int; i int) {
  requires !SatAt(d, o, a, p, e) && p <= i && i < e;
  ensures !(a[lvar(d[ix(o, i)])] <==> lpos(d[ix(o, i)]));
  auto {SatAt(d, o, a, p, e), d[ix(o, i)]};
  have wit_choice(d, o, a, p, e, i);
}

func Asgd(t *xo.Trail; v int) = t.Vars.Vals[mklit(v, true)] != 0 && 1 <= v && v < 1073741824;
func RdIn(t *xo.Trail; v int) = t.Vars.Reasons[v] != 0 && AllIn(row(t.Cdb.CDat.D), off(t.Cdb.CDat.D), rset, t.Vars.Reasons[v], cend[t.Vars.Reasons[v]]);
func RdSet(t *xo.Trail) = (forall v int : {rset[v]} rset[v] ==> Asgd(t, v)) && (forall v int : {rset[v]} rset[v] && !rcl[v] ==> RdIn(t, v));
func RdI(d *xo.Deriver) = RdSet(d.Trail)
  && (forall v int : {d.Rdnt[v]} 0 <= v && v < len(d.Rdnt) && d.Rdnt[v] == 1 ==> rset[v])
  && (forall v int : {d.Rdnt[v]} 0 <= v && v < len(d.Rdnt) && d.Rdnt[v] != 0 ==> rpend[v] || 0 <= rk[v] && rk[v] < len(d.RLits) && lvar(d.RLits[rk[v]]) == v);
// the trail and the clauses
func TMem(t *xo.Trail) = TShape(t) && TAt(t, t.Tail) && Mem(t.Cdb);

contract xo.Deriver.isRdntRec(d, m) (r) {
  requires DrOk(d) && TMem(d.Trail);
  requires isLit(m) && 2 <= m && d.Vars.Vals[m] == -1;
  requires RdI(d);
  ensures dr: DrOk(d);
  ensures rdi: RdI(d);
  ensures r ==> rset[lvar(m)];
  ensures old(d.Rdnt[lvar(m)]) == 0 ==> 0 <= rk[lvar(m)] && rk[lvar(m)] < len(d.RLits) && lvar(d.RLits[rk[lvar(m)]]) == lvar(m);
  ensures r && old(d.Rdnt[lvar(m)]) == 0 ==> RdIn(d.Trail, lvar(m));
  ensures mono: forall v int : {rset[v]} {old(rset[v])} old(rset[v]) ==> rset[v];
  ensures len: old(len(d.RLits)) <= len(d.RLits) && (arr(d.RLits) == old(arr(d.RLits)) || fresh(d.RLits));
  ensures pre: forall k int : {d.RLits[k]} 0 <= k && k < old(len(d.RLits)) ==> d.RLits[k] == old(d.RLits[k]);
  ensures rk: forall v int : {rk[v]} {old(rk[v])} 0 <= old(rk[v]) && old(rk[v]) < old(len(d.RLits)) && lvar(old(d.RLits[old(rk[v])])) == v ==> 0 <= rk[v] && rk[v] < len(d.RLits) && lvar(d.RLits[rk[v]]) == v;
  modifies elems(d.Rdnt), d.RLits, elems(d.RLits), new elems(d.RLits), rset, rk;
  loop 0 {
    havoc elems(d.RLits);
    invariant DrOk(d);
    invariant arr: arr(d.RLits) == pre(arr(d.RLits)) || pfresh(d.RLits);
    invariant RdI(d);
    invariant reason: d.Vars.Reasons[lvar(m)] < p && p <= cend[d.Vars.Reasons[lvar(m)]] && d.Vars.Reasons[lvar(m)] != 0;
    invariant in: forall i int : {d.Cdb.CDat.D[i]} d.Vars.Reasons[lvar(m)] < i && i < p ==> rset[lvar(d.Cdb.CDat.D[i])];
    invariant root: 0 <= rk[lvar(m)] && rk[lvar(m)] < len(d.RLits) && lvar(d.RLits[rk[lvar(m)]]) == lvar(m);
    invariant mono: forall v int : {rset[v]} {old(rset[v])} old(rset[v]) ==> rset[v];
    invariant len: old(len(d.RLits)) <= len(d.RLits) && (arr(d.RLits) == old(arr(d.RLits)) || fresh(d.RLits));
    invariant pre: forall k int : {d.RLits[k]} 0 <= k && k < old(len(d.RLits)) ==> d.RLits[k] == old(d.RLits[k]);
    invariant rk: forall v int : {rk[v]} {old(rk[v])} 0 <= old(rk[v]) && old(rk[v]) < old(len(d.RLits)) && lvar(old(d.RLits[old(rk[v])])) == v ==> 0 <= rk[v] && rk[v] < len(d.RLits) && lvar(d.RLits[rk[v]]) == v;
    entry { assert d.Trail.D[tpos[lvar(m)]] == lnot(m); }
    begin { assert p < cend[d.Vars.Reasons[lvar(m)]] ==> isLit(d.Cdb.CDat.D[p]) && d.Vars.Vals[d.Cdb.CDat.D[p]] == -1; }
  }
  at entry {
    ghost rk[lvar(m)] := if d.Rdnt[lvar(m)] == 0 then len(d.RLits) else rk[lvar(m)];
  }
  at return {
    have in_new(row(d.Cdb.CDat.D), off(d.Cdb.CDat.D), rset, d.Vars.Reasons[lvar(m)], cend[d.Vars.Reasons[lvar(m)]]);
    ghost rset[lvar(m)] := result || rset[lvar(m)];
  }
}
contract xo.Deriver.isRdnt(d, m) (r) {
  requires DrOk(d) && TMem(d.Trail);
  requires isLit(m) && 2 <= m && d.Vars.Vals[m] == -1;
  requires RdI(d) && rset[lvar(m)] && rcl[lvar(m)];
  ensures dr: DrOk(d);
  ensures rdi: RdI(d);
  ensures 0 <= rk[lvar(m)] && rk[lvar(m)] < len(d.RLits) && lvar(d.RLits[rk[lvar(m)]]) == lvar(m);
  ensures r ==> RdIn(d.Trail, lvar(m));
  ensures mono: forall v int : {rset[v]} {old(rset[v])} old(rset[v]) ==> rset[v];
  ensures len: old(len(d.RLits)) <= len(d.RLits) && (arr(d.RLits) == old(arr(d.RLits)) || fresh(d.RLits));
  ensures pre: forall k int : {d.RLits[k]} 0 <= k && k < old(len(d.RLits)) ==> d.RLits[k] == old(d.RLits[k]);
  modifies elems(d.Rdnt), d.RLits, elems(d.RLits), new elems(d.RLits), rset, rk;
}

// what is true of the variables of rcl is true of those of rset
lemma red_step(t *xo.Trail; k int) {
  requires RdSet(t) && TMem(t) && Ent(t.Cdb) && aall;
  requires forall v int : {rset[v]} rset[v] && rcl[v] ==> tru(t.D[tpos[v]]);
  requires forall v int : {rset[v]} rset[v] && tpos[v] < k ==> tru(t.D[tpos[v]]);
  ensures forall v int : {rset[v]} rset[v] && tpos[v] < k + 1 ==> tru(t.D[tpos[v]]);
  reveal SatAt;
}
lemma red_closed(t *xo.Trail; k int) {
  requires RdSet(t) && TMem(t) && Ent(t.Cdb) && aall && 0 <= k;
  requires forall v int : {rset[v]} rset[v] && rcl[v] ==> tru(t.D[tpos[v]]);
  ensures forall v int : {rset[v]} rset[v] && tpos[v] < k ==> tru(t.D[tpos[v]]);
  induct k;
  have red_step(t, k - 1);
}

func CLit(d *xo.Deriver; m int) = isLit(m) && 2 <= m && lvar(m) <= d.Vars.Max && d.Vars.Vals[m] == -1;
func RdZero(d *xo.Deriver) = forall v int : {d.Rdnt[v]} 0 <= v && v < len(d.Rdnt) ==> d.Rdnt[v] == 0;
contract xo.Deriver.minimize(d) (n) {
  requires DrOk(d) && TMem(d.Trail) && Ent(d.Cdb) && Heap(d.Trail);
  requires len(d.RLits) == 0 && RdZero(d);
  requires lits: 1 <= len(d.CLits) && forall k int : {d.CLits[k]} 1 <= k && k < len(d.CLits) ==> CLit(d, d.CLits[k]) && ri[lvar(d.CLits[k])] == k;
  requires lev: forall k int : {d.CLits[k]} 1 <= k && k < len(d.CLits) ==> lev(d.Trail, d.CLits[k]) <= tl;
  requires sat: aall ==> SatAt(row(d.CLits), off(d.CLits), asg, 0, len(d.CLits));
  ensures dr: DrOk(d);
  ensures shape: TShape(d.Trail);
  ensures heap: Heap(d.Trail);
  ensures rd: len(d.RLits) == 0 && RdZero(d);
  ensures rarr: arr(d.RLits) == old(arr(d.RLits)) || fresh(d.RLits);
  ensures first: 1 <= len(d.CLits) && arr(d.CLits) == old(arr(d.CLits)) && off(d.CLits) == old(off(d.CLits)) && d.CLits[0] == old(d.CLits[0]);
  ensures lits: forall k int : {d.CLits[k]} 1 <= k && k < len(d.CLits) ==> CLit(d, d.CLits[k]);
  ensures lev: forall k int : {d.CLits[k]} 1 <= k && k < len(d.CLits) ==> lev(d.Trail, d.CLits[k]) <= tl;
  ensures sat: aall ==> SatAt(row(d.CLits), off(d.CLits), asg, 0, len(d.CLits));
  modifies d.CLits, elems(d.CLits), d.RLits, elems(d.RLits), new elems(d.RLits), elems(d.Rdnt), elems(d.Lvls), d.LearntLits, d.RedLits,
    elems(d.Guess.vhp), elems(d.Guess.pos), elems(d.Guess.heat), d.Guess.rescales, d.Guess.bumpInc, hs, rset, rcl, ri, rk, rpend;
  at entry { ghost rset := emptyset(); ghost rcl := emptyset(); ghost rpend := emptyset(); label E; }
  loop 0 {
    invariant 1 <= i && i <= len(cLits) && cLits == d.CLits;
    invariant set: forall v int : {rset[v]} rset[v] <==> 1 <= ri[v] && ri[v] < i && lvar(cLits[ri[v]]) == v;
    invariant forall v int : {rcl[v]} {rpend[v]} (rcl[v] <==> rset[v]) && (rpend[v] <==> rset[v]);
    invariant forall v int : {d.Rdnt[v]} 0 <= v && v < len(d.Rdnt) && d.Rdnt[v] != 0 ==> rset[v];
    end { ghost rset[lvar(cLits[i - 1])] := true; ghost rcl[lvar(cLits[i - 1])] := true; ghost rpend[lvar(cLits[i - 1])] := true; }
  }
  loop 1 {
    havoc elems(d.RLits);
    begin { label B; }
    invariant 1 <= j && j <= i && i <= len(cLits) && cLits == d.CLits;
    invariant dr: DrOk(d);
    invariant shape: TShape(d.Trail);
    invariant heap: Heap(d.Trail);
    invariant rarr: arr(d.RLits) == old(arr(d.RLits)) || fresh(d.RLits);
    invariant rdset: RdI(d);
    invariant arr: arr(d.RLits) == pre(arr(d.RLits)) || pfresh(d.RLits);
    invariant rcl: forall v int : {rcl[v]} rcl[v] ==> rset[v] && (1 <= ri[v] && ri[v] < j || i <= ri[v] && ri[v] < len(cLits)) && lvar(cLits[ri[v]]) == v;
    invariant rpend: forall v int : {rpend[v]} rpend[v] ==> i <= ri[v] && ri[v] < len(cLits) && lvar(cLits[ri[v]]) == v;
    invariant old: forall k int : {old(d.CLits[k])} 1 <= k && k < len(cLits) ==> rset[lvar(old(d.CLits[k]))];
    invariant rest: forall k int : {cLits[k]} {old(d.CLits[k])} (i <= k && k < len(cLits) || k == 0) ==> cLits[k] == old(d.CLits[k]);
    invariant pend: forall k int : {cLits[k]} i <= k && k < len(cLits) ==> CLit(d, cLits[k]) && ri[lvar(cLits[k])] == k && rcl[lvar(cLits[k])];
    invariant lev: forall k int : {cLits[k]} (1 <= k && k < j || i <= k && k < len(cLits)) ==> lev(d.Trail, cLits[k]) <= tl;
    invariant kept: forall k int : {cLits[k]} 1 <= k && k < j ==> CLit(d, cLits[k]) && ri[lvar(cLits[k])] == k && rcl[lvar(cLits[k])];
    end {
      ghost rcl[lvar(at(B, cLits[i]))] := j != at(B, j);
      ghost ri[lvar(at(B, cLits[i]))] := at(B, j);
      ghost rpend[lvar(at(B, cLits[i]))] := false;
    }
  }
  loop 2 {
    invariant DrOk(d);
    invariant forall v int : {d.Rdnt[v]} 0 <= v && v < len(d.Rdnt) && d.Rdnt[v] != 0 ==> iter <= rk[v] && rk[v] < len(d.RLits) && lvar(d.RLits[rk[v]]) == v;
    entry {
      have sat_get(old(row(d.CLits)), off(d.CLits), asg, 0, len(old(d.CLits)));
      have red_closed(d.Trail, d.Trail.Tail);
      have wit_choice(row(d.CLits), off(d.CLits), asg, 0, len(d.CLits), 0);
    }
  }
  loop 3 {
    invariant DrOk(d) && RdZero(d);
  }
}

// the number of the elements of s below n
rec func cnt(s set; n int) int = if n <= 0 then 0 else cnt(s, n - 1) + (if s[n - 1] then 1 else 0);
opaque func cn(s set; n int) int = cnt(s, n);
lemma cnt_zero(s set; n int) {
  requires forall k int : {s[k]} 0 <= k && k < n ==> !s[k];
  ensures cnt(s, n) == 0;
  requires 0 <= n;
  induct n;
}
lemma cnt_pos(s set; n int) {
  requires 0 <= n;
  ensures 0 <= cnt(s, n);
  induct n;
}
lemma cnt_none(s set; n int; k int) {
  requires cnt(s, n) == 0 && 0 <= k && k < n;
  ensures !s[k];
  induct n;
  have cnt_pos(s, n - 1);
}
lemma cnt_add(s set; n int; k int) {
  requires 0 <= n && 0 <= k && !s[k];
  ensures cnt(s[k := true], n) == cnt(s, n) + (if k < n then 1 else 0);
  induct n;
}
lemma cn_zero(s set; n int) {
  requires forall k int : {s[k]} 0 <= k && k < n ==> !s[k];
  ensures cn(s, n) == 0;
  auto {cn(s, n)};
  have cnt_zero(s, n);
  reveal cn;
}
lemma cn_none(s set; n int; k int) {
  requires cn(s, n) == 0 && 0 <= k && k < n;
  ensures !s[k];
  auto {cn(s, n), s[k]};
  have cnt_none(s, n, k);
  reveal cn;
}
lemma cn_pos(s set; n int) {
  ensures 0 <= cn(s, n);
  auto {cn(s, n)};
  have cnt_pos(s, n);
  reveal cn;
}
lemma cn_add(s set; n int; k int) {
  requires 0 <= k && k < n && !s[k];
  ensures cn(s[k := true], n) == cn(s, n) + 1;
  use cnt_add(s, n, k);
  reveal cn;
}
lemma cn_step(s set; i int) {
  requires 0 <= i;
  ensures cn(s, i + 1) == cn(s, i) + (if s[i] then 1 else 0);
  reveal cn;
}

// op: the positions of the trail of the literals of the current level in the
// resolvent; si: where a variable is in sLits.  gw: a literal of the resolvent
// which is true in asg, and gz where it is in the clause gb being added.
ghost op set;
ghost si row;
ghost gw int;
ghost gz int;
ghost gb int;

func WLen(v *xo.Vars) = forall l int : {lvar(l)} 2 <= l && lvar(l) < len(v.Reasons) ==> l < len(v.Watches);
func SeenOk(d *xo.Deriver) = forall v int : {d.Seen[v]} 0 <= v && v < len(d.Seen) && d.Seen[v] ==> Asgd(d.Trail, v) && d.Vars.Levels[v] == 0;
func DrIn(d *xo.Deriver) = DrOk(d) && len(d.RLits) == 0 && RdZero(d) && SeenOk(d) && DbOk(d.Cdb) && WLen(d.Vars) && zown[arr(d.Vars.Reasons)] == 0;
// where the variables which are seen are
func SeenAt(d *xo.Deriver; a []z.Lit; b []z.Lit; i int) = forall v int : {d.Seen[v]} 0 <= v && v < len(d.Seen) && d.Seen[v] ==> Asgd(d.Trail, v)
  && (if d.Vars.Levels[v] == 0 then true else if d.Vars.Levels[v] == d.Trail.Level then 0 <= si[v] && si[v] < len(b) && lvar(b[si[v]]) == v && (tpos[v] <= i ==> op[tpos[v]])
      else 1 <= ri[v] && ri[v] < len(a) && lvar(a[ri[v]]) == v);
func DCl(d *xo.Deriver; a []z.Lit; tl int) = 1 <= len(a) && (forall k int : {a[k]} 1 <= k && k < len(a) ==> CLit(d, a[k]) && ri[lvar(a[k])] == k && 1 <= lev(d.Trail, a[k]) && lev(d.Trail, a[k]) < d.Trail.Level && lev(d.Trail, a[k]) <= tl && d.Seen[lvar(a[k])]);
func OpAt(d *xo.Deriver; i int) = forall k int : {op[k]} op[k] && 0 <= k && k <= i ==> lev(d.Trail, d.Trail.D[k]) == d.Trail.Level && d.Seen[lvar(d.Trail.D[k])] && lvar(d.Trail.D[k]) <= d.Vars.Max;
// under aall, the literals which are false at level 0 are false in asg
func Lev0(d *xo.Deriver) = forall l int : {d.Vars.Vals[l]} aall && isLit(l) && 2 <= l && d.Vars.Vals[l] == -1 && lev(d.Trail, l) == 0 ==> !tru(l);
func DSep(d *xo.Deriver; a []z.Lit; b []z.Lit) = arr(a) != 0 && arr(a) != arr(d.Trail.D) && arr(a) != arr(d.Cdb.CDat.D) && arr(a) != arr(b) && arr(a) != arr(d.RLits)
  && sep(b, d.Trail.D) && sep(b, d.Cdb.CDat.D) && sep(b, d.RLits);
func GwAt(d *xo.Deriver; a []z.Lit; p int; i int) = aall ==> tru(gw) && (p != 0 && p <= gz && gz < cend[gb] && d.Cdb.CDat.D[gz] == gw
   || 1 <= ri[lvar(gw)] && ri[lvar(gw)] < len(a) && a[ri[lvar(gw)]] == gw
   || isLit(gw) && 2 <= gw && d.Vars.Vals[gw] == -1 && op[tpos[lvar(gw)]] && tpos[lvar(gw)] <= i);
// the literals of the clause gb from p on
func Pend(d *xo.Deriver; p int; i int) = live[gb] && gb <= p && p <= cend[gb] && (forall k int : {d.Cdb.CDat.D[k]} p <= k && k < cend[gb] ==> CLit(d, d.Cdb.CDat.D[k]) && tpos[lvar(d.Cdb.CDat.D[k])] <= i);

contract xo.Deriver.Derive(d, x) (r) {
  requires DrIn(d) && TOk(d.Trail) && Mem(d.Cdb) && Ent(d.Cdb) && Heap(d.Trail) && Watch(d.Trail);
  requires Confl(d.Trail, x) && 1 <= d.Trail.Level && WFull(d.Trail, 0, 0, d.Trail.Level - 1);
  ensures din: DrOk(d) && len(d.RLits) == 0 && RdZero(d) && DbOk(d.Cdb) && zown[arr(d.Vars.Reasons)] == 0;
  ensures seen: SeenOk(d);
  ensures shape: TShape(d.Trail);
  ensures at: TAt(d.Trail, d.Trail.Tail);
  ensures lev: TLev(d.Trail);
  ensures head: THead(d.Trail);
  ensures fd: Fd(d.Trail);
  ensures heap: Heap(d.Trail);
  ensures mem: Mem(d.Cdb);
  ensures ent: Ent(d.Cdb);
  ensures wl: WLists(d.Vars, 0, 0, 0);
  ensures wc: WClauses(d.Cdb);
  ensures full: WFull(d.Trail, 0, 0, d.Trail.Level - 1);
  ensures r != nil && live[r.P] && 1 <= r.P && r.P < cend[r.P] && d.Cdb.CDat.D[r.P] == r.Unit;
  ensures unit: isLit(r.Unit) && 2 <= r.Unit && d.Vars.Vals[r.Unit] == -1 && lev(d.Trail, r.Unit) == d.Trail.Level;
  ensures trg: 0 <= r.TargetLevel && r.TargetLevel < d.Trail.Level;
  ensures rest: forall k int : {d.Cdb.CDat.D[k]} r.P < k && k < cend[r.P] ==> CLit(d, d.Cdb.CDat.D[k]) && lev(d.Trail, d.Cdb.CDat.D[k]) <= r.TargetLevel;
  ensures set: forall q int : {live[q]} {old(live[q])} q != r.P ==> live[q] == old(live[q]);
  ensures end: forall q int : {cend[q]} {old(cend[q])} q != r.P ==> cend[q] == old(cend[q]);
  ensures !old(live)[r.P] && d.Cdb.Bot == old(d.Cdb.Bot);
  ensures carr: (arr(d.CLits) == old(arr(d.CLits)) || fresh(d.CLits)) && (arr(d.SLits) == old(arr(d.SLits)) || fresh(d.SLits)) && (arr(d.RLits) == old(arr(d.RLits)) || fresh(d.RLits));
  ensures darr: arr(d.Cdb.CDat.D) == old(arr(d.Cdb.CDat.D)) || fresh(d.Cdb.CDat.D);
  modifies d.Conflicts, d.CLits, d.SLits, elems(d.CLits), elems(d.SLits), new elems(d.CLits), d.RLits, elems(d.RLits), elems(d.Rdnt), elems(d.Lvls), elems(d.Seen), d.LearntLits, d.RedLits, d.Learnt,
    elems(d.Guess.vhp), elems(d.Guess.pos), elems(d.Guess.heat), d.Guess.rescales, d.Guess.bumpInc, hs, rset, rcl, ri, rk, rpend, tl, op, si, gw, gz, gb,
    d.Cdb.stHeatRescales, d.Cdb.CDat.bumpInc,
    d.Cdb.CDat.D, d.Cdb.CDat.Cap, d.Cdb.CDat.Len, d.Cdb.CDat.ClsLen, elems(d.Cdb.CDat.D), cls, cend, live,
    rows xo.Watch, elems(d.Vars.Watches), w0, w1, x0, x1, wown, d.Cdb.Bot, d.Cdb.Learnts, rows z.C, elems(d.Cdb.Active.Occs), zown, d.Cdb.gc.stopWatch;
  at entry {
    have sat_get(row(d.Cdb.CDat.D), off(d.Cdb.CDat.D), asg, x, cend[x]);
    ghost op := emptyset();
    ghost gb := x;
    ghost gz := wit(row(d.Cdb.CDat.D), off(d.Cdb.CDat.D), asg, x, cend[x]);
    ghost gw := d.Cdb.CDat.D[gz];
  }
  loop 0 {
    havoc elems(cLits); havoc elems(sLits); havoc elems(d.Cdb.CDat.D);
    invariant shape: TShape(d.Trail);
    invariant at: TAt(d.Trail, d.Trail.Tail);
    invariant heap: Heap(d.Trail);
    invariant mem: Mem(d.Cdb);
    invariant ent: Ent(d.Cdb);
    invariant wc: WClauses(d.Cdb);
    invariant full: WFull(d.Trail, 0, 0, d.Trail.Level - 1);
    invariant dr: DrOk(d);
    invariant sep: DSep(d, cLits, sLits);
    invariant carr: (arr(cLits) == pre(arr(cLits)) || pfresh(cLits)) && (arr(sLits) == pre(arr(sLits)) || pfresh(sLits));
    invariant carr1: (arr(cLits) == old(arr(d.CLits)) || fresh(cLits)) && (arr(sLits) == old(arr(d.SLits)) || fresh(sLits));
    invariant lev0: Lev0(d);
    invariant res: fresh(result) && 0 <= result.TargetLevel && result.TargetLevel < d.Trail.Level && 0 <= lbd;
    invariant idx: -1 <= i && i < d.Trail.Tail;
    invariant seen: SeenAt(d, cLits, sLits, i);
    invariant cl: DCl(d, cLits, result.TargetLevel);
    invariant op: OpAt(d, i);
    invariant count: count == cn(op, i + 1);
    invariant gw: GwAt(d, cLits, p, i);
    invariant pend: p != 0 ==> Pend(d, p, i);
    invariant first: 1 <= count || p == x && gb == x && i == d.Trail.Tail - 1 && x <= cx && cx < cend[x] && lev(d.Trail, d.Cdb.CDat.D[cx]) == d.Trail.Level;
    end { have cn_step(op, i + 1); }
  }
  loop 1 {
    havoc elems(cLits); havoc elems(sLits);
    begin { label B; }
    invariant shape: TShape(d.Trail);
    invariant at: TAt(d.Trail, d.Trail.Tail);
    invariant heap: Heap(d.Trail);
    invariant dr: DrOk(d);
    invariant sep: DSep(d, cLits, sLits);
    invariant carr: (arr(cLits) == pre(arr(cLits)) || pfresh(cLits)) && (arr(sLits) == pre(arr(sLits)) || pfresh(sLits));
    invariant carr1: (arr(cLits) == old(arr(d.CLits)) || fresh(cLits)) && (arr(sLits) == old(arr(d.SLits)) || fresh(sLits));
    invariant lev0: Lev0(d);
    invariant res: fresh(result) && 0 <= result.TargetLevel && result.TargetLevel < d.Trail.Level && 0 <= lbd;
    invariant seen: SeenAt(d, cLits, sLits, i);
    invariant cl: DCl(d, cLits, result.TargetLevel);
    invariant op: OpAt(d, i);
    invariant count: count == cn(op, i + 1);
    invariant gw: GwAt(d, cLits, p, i);
    invariant pend: p != 0 && Pend(d, p, i);
    invariant first: 1 <= count || gb == x && p <= cx && cx < cend[x] && lev(d.Trail, d.Cdb.CDat.D[cx]) == d.Trail.Level && i == d.Trail.Tail - 1;
    end {
      assert d.Seen[v] && CLit(d, m) && lvar(m) == v && m == d.Cdb.CDat.D[p - 1] && p - 1 == at(B, p);
      assert len(cLits) == at(B, len(cLits)) && len(sLits) == at(B, len(sLits)) && d.Vars.Levels[v] == d.Trail.Level ==> op[tpos[v]] && 0 <= tpos[v] && tpos[v] < i + 1;
      assert len(cLits) == at(B, len(cLits)) && len(sLits) == at(B, len(sLits)) && d.Vars.Levels[v] == d.Trail.Level ==> 1 <= cn(op, i + 1);
      assert aall && d.Vars.Levels[v] == 0 ==> gw != m;
      have cn_add(op, i + 1, tpos[v]);
      ghost ri[v] := if len(cLits) != at(B, len(cLits)) then len(cLits) - 1 else ri[v];
      ghost si[v] := if len(sLits) != at(B, len(sLits)) then len(sLits) - 1 else si[v];
      ghost op := if len(sLits) != at(B, len(sLits)) then op[tpos[v] := true] else op;
    }
  }
  at before xo.Cdb.Bump 1 {
    have cn_step(op, i);
    assert aall && gw != lnot(m) ==> 1 <= ri[lvar(gw)] && ri[lvar(gw)] < len(cLits) && cLits[ri[lvar(gw)]] == gw || isLit(gw) && 2 <= gw && d.Vars.Vals[gw] == -1 && op[tpos[lvar(gw)]] && tpos[lvar(gw)] < i;
    assert arg1 != 0;
    assert forall k int : {d.Cdb.CDat.D[k]} arg1 < k && k < cend[arg1] ==> CLit(d, d.Cdb.CDat.D[k]) && tpos[lvar(d.Cdb.CDat.D[k])] < i from
      RsnAt(row(d.Cdb.CDat.D), off(d.Cdb.CDat.D), row(d.Vars.Vals), off(d.Vars.Vals), tpos, arg1, cend[arg1], i),
      LitsAt(row(d.Cdb.CDat.D), off(d.Cdb.CDat.D), arg1, cend[arg1]), BndAt(row(d.Cdb.CDat.D), off(d.Cdb.CDat.D), arg1, cend[arg1], d.Vars.Max);
    label Q;
    have sat_get(row(d.Cdb.CDat.D), off(d.Cdb.CDat.D), asg, arg1, cend[arg1]);
    ghost gb := arg1;
    ghost gz := if gw == lnot(m) then wit(row(d.Cdb.CDat.D), off(d.Cdb.CDat.D), asg, arg1, cend[arg1]) else 0;
    ghost gw := if gw == lnot(m) then d.Cdb.CDat.D[gz] else gw;
  }
  at after xo.Cdb.Bump 1 {
    assert forall k int : {d.Cdb.CDat.D[k]} arg1 < k && k < cend[arg1] ==> CLit(d, d.Cdb.CDat.D[k]) && tpos[lvar(d.Cdb.CDat.D[k])] < i from
      forall k int : {d.Cdb.CDat.D[k]} arg1 <= k && k <= cend[arg1] ==> d.Cdb.CDat.D[k] == at(Q, d.Cdb.CDat.D[k]),
      at(Q, forall k int : {d.Cdb.CDat.D[k]} arg1 < k && k < cend[arg1] ==> CLit(d, d.Cdb.CDat.D[k]) && tpos[lvar(d.Cdb.CDat.D[k])] < i);
  }
  loop 2 {
    invariant dr: DrOk(d);
    invariant forall v int : {d.Seen[v]} 0 <= v && v < len(d.Seen) && d.Seen[v] ==> Asgd(d.Trail, v)
      && (d.Vars.Levels[v] == 0 || iter <= ri[v] && ri[v] < len(cLits) && lvar(cLits[ri[v]]) == v || 0 <= si[v] && si[v] < len(sLits) && lvar(sLits[si[v]]) == v);
  }
  loop 3 {
    invariant dr: DrOk(d);
    invariant forall v int : {d.Seen[v]} 0 <= v && v < len(d.Seen) && d.Seen[v] ==> Asgd(d.Trail, v)
      && (d.Vars.Levels[v] == 0 || iter <= si[v] && si[v] < len(sLits) && lvar(sLits[si[v]]) == v);
  }
  at before xo.Deriver.minimize {
    have cn_step(op, i);
    assert aall ==> tru(gw) && (1 <= ri[lvar(gw)] && ri[lvar(gw)] < len(cLits) && cLits[ri[lvar(gw)]] == gw || cLits[0] == gw);
    ghost tl := result.TargetLevel;
    have wit_choice(row(d.CLits), off(d.CLits), asg, 0, len(d.CLits), 0);
    have wit_choice(row(d.CLits), off(d.CLits), asg, 0, len(d.CLits), ri[lvar(gw)]);
  }
  at before xo.Cdb.Learn {
    label L;
    assert CLit(d, d.CLits[0]) && lev(d.Trail, d.CLits[0]) == d.Trail.Level;
    assert forall k int : {d.CLits[k]} 0 <= k && k < len(d.CLits) ==> CLit(d, d.CLits[k]);
    assert forall k int : {d.CLits[k]} 0 <= k && k < len(d.CLits) ==> lvar(d.CLits[k]) < len(d.Vars.Reasons);
  }
  at after xo.Cdb.Learn {
    assert WFull(d.Trail, 0, 0, d.Trail.Level - 1) from
      at(L, WFull(d.Trail, 0, 0, d.Trail.Level - 1)), d.Cdb == d.Trail.Cdb,
      forall p int : {w0[p]} {w1[p]} p != res0 ==> w0[p] == at(L, w0[p]) && w1[p] == at(L, w1[p]) && (live[p] ==> at(L, live[p])) && cend[p] == at(L, cend[p]),
      forall p, l : {Has(row(d.Cdb.CDat.D), off(d.Cdb.CDat.D), p, cend[p], l)} live[p] && p != res0 && at(L, Has(row(d.Cdb.CDat.D), off(d.Cdb.CDat.D), p, cend[p], l)) ==> Has(row(d.Cdb.CDat.D), off(d.Cdb.CDat.D), p, cend[p], l),
      res0 + 2 <= cend[res0] ==> lev(d.Trail, w0[res0]) == d.Trail.Level;
    assert row(d.Trail.D) == at(L, row(d.Trail.D));
    assert forall i int : {d.Trail.D[i]} 0 <= i && i < d.Trail.Tail && rsn(d.Trail, d.Trail.D[i]) != 0 ==> at(L, live)[rsn(d.Trail, d.Trail.D[i])] && rsn(d.Trail, d.Trail.D[i]) != res0 && cls[rsn(d.Trail, d.Trail.D[i])];
    assert forall i int : {d.Trail.D[i]} 0 <= i && i < d.Trail.Tail && rsn(d.Trail, d.Trail.D[i]) != 0 ==> d.Cdb.CDat.D[rsn(d.Trail, d.Trail.D[i])] == d.Trail.D[i];
  }
}
property C01 { in_new, in_get, in_mono, sat_not, red_step, red_closed, xo.Deriver.isRdntRec, xo.Deriver.isRdnt, xo.Deriver.minimize, cnt_zero, cnt_pos, cnt_none, cnt_add, cn_zero, cn_none, cn_pos, cn_add, cn_step, xo.Deriver.Derive }
