
// ---- adding a clause (xo.Cdb.Add) ----
//
// ai: where a variable is among the kept literals; so: where a kept literal
// was; gt: where a literal true in asg is.
ghost ai row;
ghost so row;
ghost gt int;

func AddIn(c *xo.Cdb) = arr(c.AddVals) != 0 && arr(c.AddVals) != arr(c.Vars.Vals) && (forall k int : {c.AddLits[k]} 0 <= k && k < len(c.AddLits) ==> isLit(c.AddLits[k]) && 2 <= c.AddLits[k] && c.AddLits[k] < len(c.Vars.Watches) && lvar(c.AddLits[k]) <= c.Vars.Max && lvar(c.AddLits[k]) < len(c.AddVals));
func AddZero(c *xo.Cdb) = forall v int : {c.AddVals[v]} 0 <= v && v < len(c.AddVals) ==> c.AddVals[v] == 0;
// asg agrees with the values
func AgrV(v *xo.Vars) = forall l int : {v.Vals[l]} isLit(l) && 2 <= l ==> (v.Vals[l] == 1 ==> tru(l)) && (v.Vals[l] == -1 ==> !tru(l));
func sgn(m int) int = if lpos(m) then 1 else -1;
contract xo.Cdb.Add(c, m) (p, u) {
  requires DbOk(c) && Mem(c) && Ent(c) && WLists(c.Vars, 0, 0, 0) && WClauses(c);
  requires in: AddIn(c) && AddZero(c) && arr(c.AddLits) != arr(c.CDat.D);
  requires m != 0 ==> isLit(m) && 2 <= m && m < len(c.Vars.Watches) && lvar(m) <= c.Vars.Max && lvar(m) < len(c.AddVals);
  requires rsn: arr(c.Vars.Reasons) != 0 && zown[arr(c.Vars.Reasons)] == 0;
  requires agr: m == 0 && aall ==> AgrV(c.Vars);
  requires ent: m == 0 && aall ==> SatAt(row(c.AddLits), off(c.AddLits), asg, 0, len(c.AddLits));
  ensures ok: DbOk(c);
  ensures mem: Mem(c);
  ensures ent: Ent(c);
  ensures wl: WLists(c.Vars, 0, 0, 0);
  ensures wc: WClauses(c);
  ensures in: AddIn(c);
  ensures zero: AddZero(c);
  ensures append: m != 0 ==> u == 0 && p == 4294967295 && len(c.AddLits) == old(len(c.AddLits)) + 1 && c.AddLits[len(c.AddLits) - 1] == m;
  ensures prefix: forall k int : {c.AddLits[k]} m != 0 && 0 <= k && k < old(len(c.AddLits)) ==> c.AddLits[k] == old(c.AddLits[k]);
  ensures len: m == 0 ==> len(c.AddLits) == 0;
  ensures new: p != 4294967295 ==> cls[p] && live[p] && !old(cls[p]) && 1 <= p;
  ensures set: forall q int : {live[q]} {old(live[q])} q != p ==> live[q] == old(live[q]);
  ensures end: forall q int : {cend[q]} {old(cend[q])} q != p ==> cend[q] == old(cend[q]);
  ensures unit: u != 0 ==> p != 4294967295 && cend[p] == p + 1 && c.CDat.D[p] == u && isLit(u) && 2 <= u && c.Vars.Vals[u] == 0 && lvar(u) <= c.Vars.Max;
  ensures some: p != 4294967295 && u == 0 && p < cend[p] ==> p + 2 <= cend[p];
  ensures free: p != 4294967295 && p + 2 <= cend[p] ==> c.Vars.Vals[w0[p]] == 0;
  ensures wold: forall q int : {w0[q]} {w1[q]} q != p ==> w0[q] == old(w0[q]) && w1[q] == old(w1[q]);
  ensures same: forall q, i : {cls[q], c.CDat.D[i]} {cls[q], old(c.CDat.D[i])} q != p && cls[q] && q <= i && i <= cend[q] ==> c.CDat.D[i] == old(c.CDat.D[i]);
  ensures bot: c.Bot == (if p != 4294967295 && cend[p] == p then p else old(c.Bot));
  ensures arr: (arr(c.CDat.D) == old(arr(c.CDat.D)) || fresh(c.CDat.D)) && (arr(c.AddLits) == old(arr(c.AddLits)) || fresh(c.AddLits)) && arr(c.AddLits) != arr(c.CDat.D);
  ensures rsn: row(c.Vars.Reasons) == old(row(c.Vars.Reasons)) && zown[arr(c.Vars.Reasons)] == 0;
  ensures model: m == 0 && AgrV(c.Vars) && (p == 4294967295 || SatAt(row(c.CDat.D), off(c.CDat.D), asg, p, cend[p])) ==> old(SatAt(row(c.AddLits), off(c.AddLits), asg, 0, len(c.AddLits)));
  modifies c.AddLits, elems(c.AddLits), new elems(c.AddLits), elems(c.AddVals), c.stLitAdds, c.stAdds, c.stAddFails, c.stMinLits, c.stAddUnit, c.stAddBin, c.stAddTernary, c.stAddBig, c.Bot, c.Added,
    c.CDat.D, c.CDat.Cap, c.CDat.Len, c.CDat.ClsLen, elems(c.CDat.D), new elems(c.CDat.D), cls, cend, live,
    rows xo.Watch, elems(c.Vars.Watches), w0, w1, x0, x1, wown, elems(c.Added), new elems(c.Added), zown, ai, so, gt;
  at entry {
    have sat_get(row(c.AddLits), off(c.AddLits), asg, 0, len(c.AddLits));
    ghost gt := wit(row(c.AddLits), off(c.AddLits), asg, 0, len(c.AddLits));
  }
  loop 0 {
    begin { label B; }
    invariant ms == c.AddLits && len(ms) == old(len(c.AddLits)) && 0 <= j && j <= iter;
    invariant in: AddIn(c) && c.Vars.Max == old(c.Vars.Max);
    invariant rest: forall k int : {c.AddLits[k]} iter <= k && k < len(c.AddLits) ==> c.AddLits[k] == old(c.AddLits[k]);
    invariant kept: forall k int : {c.AddLits[k]} 0 <= k && k < j ==> 0 <= so[k] && so[k] < iter && c.AddLits[k] == old(row(c.AddLits))[ix(old(off(c.AddLits)), so[k])] && c.Vars.Vals[c.AddLits[k]] == 0 && c.AddVals[lvar(c.AddLits[k])] == sgn(c.AddLits[k]);
    invariant vals: forall v int : {c.AddVals[v]} 0 <= v && v < len(c.AddVals) && c.AddVals[v] != 0 ==> 0 <= ai[v] && ai[v] < j && lvar(c.AddLits[ai[v]]) == v && c.AddVals[v] == sgn(c.AddLits[ai[v]]);
    invariant ent: aall && gt < iter ==> c.AddVals[lvar(old(row(c.AddLits))[ix(old(off(c.AddLits)), gt)])] == sgn(old(row(c.AddLits))[ix(old(off(c.AddLits)), gt)]);
    end {
      ghost so[j - 1] := if j != at(B, j) then iter else so[j - 1];
      ghost ai[lvar(c.AddLits[iter])] := if j != at(B, j) then j - 1 else ai[lvar(c.AddLits[iter])];
    }
  }
  at after xo.CDat.AddLits {
    ghost live[res0] := true;
    have bnd_new(row(c.CDat.D), off(c.CDat.D), res0, cend[res0], c.Vars.Max);
    have has_at(row(c.CDat.D), off(c.CDat.D), res0, cend[res0], res0);
    have has_at(row(c.CDat.D), off(c.CDat.D), res0, cend[res0], res0 + 1);
    have sat_get(row(c.CDat.D), off(c.CDat.D), asg, res0, cend[res0]);
    have wit_choice(old(row(c.AddLits)), old(off(c.AddLits)), asg, 0, old(len(c.AddLits)), so[wit(row(c.CDat.D), off(c.CDat.D), asg, res0, cend[res0]) - res0]);
    have wit_choice(row(c.CDat.D), off(c.CDat.D), asg, res0, cend[res0], res0 + ai[lvar(old(row(c.AddLits))[ix(old(off(c.AddLits)), gt)])]);
  }
  at before xo.MakeWatch 0 {
    ghost w0[arg0] := ms[0];
    ghost w1[arg0] := ms[1];
    ghost x0[arg0] := len(c.Vars.Watches[ms[0]]);
  }
  at before xo.MakeWatch 1 {
    ghost wown[arr(c.Vars.Watches[ms[0]])] := ms[0];
    ghost x1[arg0] := len(c.Vars.Watches[ms[1]]);
  }
  loop 1 {
    invariant arr(c.AddVals) != 0 && arr(c.AddVals) != arr(c.Vars.Vals) && arr(c.AddLits) != arr(c.CDat.D);
    invariant forall v int : {c.AddVals[v]} 0 <= v && v < len(c.AddVals) && c.AddVals[v] != 0 ==> iter <= ai[v] && ai[v] < len(c.AddLits) && lvar(c.AddLits[ai[v]]) == v;
    entry { ghost wown[arr(c.Vars.Watches[ms[1]])] := if retLoc != 4294967295 && 2 <= j then ms[1] else wown[arr(c.Vars.Watches[ms[1]])]; ghost zown[arr(c.Added)] := 1; }
  }
}
property C01 { xo.Cdb.Add }
property C02 { xo.Cdb.Add }
