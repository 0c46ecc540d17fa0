// The clause database (xo.Cdb).
//
// zown: the owner of an array of clause locations: 1 Added, 2 Learnts, v + 3
// the occurrences of the activation variable v.
ghost zown row;

func BList(c *xo.Cdb) =
     (forall i int : {c.Added[i]} 0 <= i && i < len(c.Added) ==> cls[c.Added[i]])
  && (forall i int : {c.Learnts[i]} 0 <= i && i < len(c.Learnts) ==> cls[c.Learnts[i]]);
func BOwn(c *xo.Cdb) = (arr(c.Added) != 0 ==> zown[arr(c.Added)] == 1) && (arr(c.Learnts) != 0 ==> zown[arr(c.Learnts)] == 2)
  && (c.Active != nil ==> arr(c.Active.Occs) != 0 && (forall v int : {c.Active.Occs[v]} 0 <= v && v < len(c.Active.Occs) && arr(c.Active.Occs[v]) != 0 ==> zown[arr(c.Active.Occs[v])] == v + 3));
func DbOk(c *xo.Cdb) = c != nil && c.Vars != nil && c.gc != nil && BList(c) && BOwn(c);

// the clauses in memory are as they were
func MemSame(c *xo.CDat; d row; o int) = forall p, i : {cls[p], c.D[i]} cls[p] && p <= i && i <= cend[p] ==> c.D[i] == d[ix(o, i)];

contract xo.Cdb.Bump(c, p) {
  requires CDatOk(c.CDat) && DbOk(c) && cls[p];
  ensures CDatOk(c.CDat);
  ensures same: forall q, i : {cls[q], c.CDat.D[i]} {cls[q], old(c.CDat.D[i])} cls[q] && q <= i && i <= cend[q] ==> c.CDat.D[i] == old(c.CDat.D[i]);
  modifies elems(c.CDat.D), c.stHeatRescales, c.CDat.bumpInc;
  loop 0 {
    invariant CDatOk(c.CDat);
    invariant same: forall q, i : {cls[q], c.CDat.D[i]} {cls[q], old(c.CDat.D[i])} cls[q] && q <= i && i <= cend[q] ==> c.CDat.D[i] == old(c.CDat.D[i]);
  }
  loop 1 {
    invariant CDatOk(c.CDat);
    invariant same: forall q, i : {cls[q], c.CDat.D[i]} {cls[q], old(c.CDat.D[i])} cls[q] && q <= i && i <= cend[q] ==> c.CDat.D[i] == old(c.CDat.D[i]);
  }
}
contract xo.Cdb.Decay(c) {
  modifies c.CDat.bumpInc;
}
contract xo.Cgc.Tick(c) {
  modifies c.stopWatch;
}
contract xo.Cdb.Lits(c, p, ms) (r) {
  requires CDatOk(c.CDat) && cls[p] && arr(ms) != arr(c.CDat.D);
  ensures len(r) == len(ms) + cend[p] - p;
  ensures forall k int : {r[k]} 0 <= k && k < len(ms) ==> r[k] == old(ms[k]);
  ensures forall k int : {r[k]} len(ms) <= k && k < len(r) ==> r[k] == c.CDat.D[p + k - len(ms)];
  ensures arr(r) == arr(ms) || fresh(r);
  modifies elems(ms), new elems(r);
  loop 0 {
    invariant old(p) <= p && p <= cend[old(p)] && len(ms) == len(old(ms)) + p - old(p);
    invariant forall k int : {ms[k]} 0 <= k && k < len(old(ms)) ==> ms[k] == old(ms[k]);
    invariant forall k int : {ms[k]} len(old(ms)) <= k && k < len(ms) ==> ms[k] == c.CDat.D[old(p) + k - len(old(ms))];
    invariant arr(ms) == arr(old(ms)) || fresh(ms);
    decreases cend[old(p)] - p;
  }
}
contract xo.Cdb.IsUnit(c, p) (r) {
  requires CDatOk(c.CDat) && cls[p];
  ensures r ==> cend[p] <= p + 1;
}
contract xo.Cdb.IsBinary(c, p) (r) {
  requires CDatOk(c.CDat) && cls[p];
  ensures cend[p] == p + 2 ==> r;
}
contract xo.Cdb.InUse(c, o) (r) {
  requires CDatOk(c.CDat) && cls[o];
  ensures !r ==> cend[o] == o || c.Vars.Reasons[lvar(c.CDat.D[o])] != o;
}

// a literal is watched by the new clause p
contract xo.Cdb.Learn(c, ms, lbd) (p) {
  requires DbOk(c) && Mem(c) && Ent(c) && WLists(c.Vars, 0, 0, 0) && WClauses(c);
  requires 0 <= lbd && arr(ms) != arr(c.CDat.D);
  requires lits: forall k int : {ms[k]} 0 <= k && k < len(ms) ==> isLit(ms[k]) && 2 <= ms[k] && ms[k] < len(c.Vars.Watches) && lvar(ms[k]) <= c.Vars.Max;
  requires rsn: arr(c.Vars.Reasons) != 0 && zown[arr(c.Vars.Reasons)] == 0;
  requires ent: aall ==> SatAt(row(ms), off(ms), asg, 0, len(ms));
  ensures ok: DbOk(c);
  ensures mem: Mem(c);
  ensures ent: Ent(c);
  ensures wl: WLists(c.Vars, 0, 0, 0);
  ensures wc: WClauses(c);
  ensures new: cls[p] && live[p] && !old(cls[p]) && cend[p] == p + len(ms) && 1 <= p;
  ensures set: forall q int : {live[q]} {old(live[q])} q != p ==> live[q] == old(live[q]);
  ensures cls: forall q int : {cls[q]} {old(cls[q])} q != p ==> cls[q] == old(cls[q]);
  ensures end: forall q int : {cend[q]} {old(cend[q])} q != p ==> cend[q] == old(cend[q]);
  ensures lits: forall i int : {c.CDat.D[i]} p <= i && i < p + len(ms) ==> c.CDat.D[i] == old(ms[i - p]);
  ensures ms: forall k int : {ms[k]} 0 <= k && k < len(ms) ==> ms[k] == old(ms[k]);
  ensures same: forall q, i : {cls[q], c.CDat.D[i]} {cls[q], old(c.CDat.D[i])} q != p && cls[q] && q <= i && i <= cend[q] ==> c.CDat.D[i] == old(c.CDat.D[i]);
  ensures arr: arr(c.CDat.D) == old(arr(c.CDat.D)) || fresh(c.CDat.D);
  ensures rsn: row(c.Vars.Reasons) == old(row(c.Vars.Reasons)) && zown[arr(c.Vars.Reasons)] == 0;
  ensures watched: 2 <= len(ms) ==> w0[p] == ms[0] && w1[p] == ms[1];
  ensures wold: forall q int : {w0[q]} {w1[q]} q != p ==> w0[q] == old(w0[q]) && w1[q] == old(w1[q]);
  ensures bot: c.Bot == (if len(ms) == 0 then p else old(c.Bot));
  ensures added: forall i int : {c.Added[i]} 0 <= i && i < len(c.Added) ==> c.Added[i] == old(c.Added[i]);
  modifies c.CDat.D, c.CDat.Cap, c.CDat.Len, c.CDat.ClsLen, elems(c.CDat.D), new elems(c.CDat.D), elems(ms), cls, cend, live,
    rows xo.Watch, elems(c.Vars.Watches), w0, w1, x0, x1, wown, c.Bot, c.Learnts, rows z.C, elems(c.Active.Occs), zown, c.gc.stopWatch;
  loop 0 {
    invariant DbOk(c);
    invariant rsn: row(c.Vars.Reasons) == old(row(c.Vars.Reasons)) && zown[arr(c.Vars.Reasons)] == 0;
    invariant forall i int : {c.Added[i]} 0 <= i && i < len(c.Added) ==> c.Added[i] == old(c.Added[i]);
    end { ghost zown[arr(c.Active.Occs[lvar(ms[iter])])] := if len(c.Active.Occs) <= lvar(ms[iter]) || arr(c.Active.Occs[lvar(ms[iter])]) == 0 then zown[arr(c.Active.Occs[lvar(ms[iter])])] else lvar(ms[iter]) + 3; }
  }
  at after xo.CDat.AddLits {
    ghost live[res0] := true;
    have bnd_new(row(c.CDat.D), off(c.CDat.D), res0, cend[res0], c.Vars.Max);
    have has_at(row(c.CDat.D), off(c.CDat.D), res0, cend[res0], res0);
    have has_at(row(c.CDat.D), off(c.CDat.D), res0, cend[res0], res0 + 1);
    have sat_shift(row(c.CDat.D), off(c.CDat.D), res0, old(row(ms)), off(ms), 0, len(ms), asg);
  }
  at before xo.MakeWatch 0 {
    ghost w0[arg0] := ms[0];
    ghost w1[arg0] := ms[1];
    ghost x0[arg0] := len(c.Vars.Watches[ms[0]]);
  }
  at before xo.MakeWatch 1 {
    ghost wown[arr(c.Vars.Watches[ms[0]])] := ms[0];
    ghost x1[arg0] := len(c.Vars.Watches[ms[1]]);
  }
  at return {
    ghost wown[arr(c.Vars.Watches[ms[1]])] := if 2 <= len(ms) then ms[1] else wown[arr(c.Vars.Watches[ms[1]])];
    ghost zown[arr(c.Learnts)] := 2;
  }
}
property C01 { xo.Cdb.Bump, xo.Cdb.Decay, xo.Cgc.Tick, xo.Cdb.Lits, xo.Cdb.IsUnit, xo.Cdb.IsBinary, xo.Cdb.InUse, xo.Cdb.Learn }
