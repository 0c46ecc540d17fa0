// Failed assumptions (xo.S.Why) and reasons (xo.S.Reasons).
//
// fi: where a variable is in failed; fn: where failed begins.
ghost fi row;
ghost fn int;

func FinI(s *xo.S) = RdSet(s.Trail) && 0 <= fn && (forall v int : {rcl[v]} rcl[v] ==> rset[v] && (rpend[v] || fn <= fi[v] && fi[v] < len(s.failed) && s.failed[fi[v]] == s.Trail.D[tpos[v]]))
  && (forall v int : {rpend[v]} rpend[v] ==> rcl[v]);
func FinM(m []bool) = forall v int : {rset[v]} {m[v]} rset[v] <==> 0 <= v && v < len(m) && m[v];
func FinA(s *xo.S) = fn <= len(s.failed) && forall k int : {s.failed[k]} fn <= k && k < len(s.failed) ==> aset[s.failed[k]];
func FinSep(s *xo.S) = sep(s.failed, s.Trail.D) && sep(s.failed, s.Cdb.CDat.D);
func FinPtr(s *xo.S) = s != nil && s.Trail != nil && s.Vars == s.Trail.Vars && s.Cdb == s.Trail.Cdb && s.Cdb != nil && s.Cdb.CDat != nil;

contract xo.S.finalRec(s, m, marks) {
  requires FinPtr(s) && TMem(s.Trail) && TLev(s.Trail) && DecOk(s.Trail.Level) && FinI(s) && FinM(marks) && FinA(s) && FinSep(s) && arr(marks) != 0;
  requires isLit(m) && 2 <= m && s.Vars.Vals[m] == -1;
  ensures fin: FinI(s);
  ensures marks: FinM(marks);
  ensures as: FinA(s);
  ensures sep: FinSep(s);
  ensures arr: arr(s.failed) == old(arr(s.failed)) || fresh(s.failed);
  ensures in: rset[lvar(m)];
  ensures mono: forall v int : {rset[v]} {old(rset[v])} old(rset[v]) ==> rset[v];
  ensures pend: forall v int : {rpend[v]} {old(rpend[v])} rpend[v] <==> old(rpend[v]);
  ensures len: old(len(s.failed)) <= len(s.failed);
  ensures pre: forall k int : {s.failed[k]} 0 <= k && k < old(len(s.failed)) ==> s.failed[k] == old(s.failed[k]);
  modifies elems(marks), s.failed, elems(s.failed), new elems(s.failed), s.stFailed, rset, rcl, rpend, fi;
  at entry {
    assert s.Trail.D[tpos[lvar(m)]] == lnot(m);
    assert rsn(s.Trail, m) == 0 ==> dlit[lev(s.Trail, m)] == lnot(m) && 1 <= lev(s.Trail, m) && lev(s.Trail, m) <= s.Trail.Level;
    ghost rset[lvar(m)] := true;
    ghost rcl[lvar(m)] := rcl[lvar(m)] || !marks[lvar(m)];
    ghost rpend[lvar(m)] := rpend[lvar(m)] || !marks[lvar(m)];
  }
  loop 0 {
    havoc elems(s.failed);
    invariant reason: s.Vars.Reasons[lvar(m)] < r && r <= cend[s.Vars.Reasons[lvar(m)]] && s.Vars.Reasons[lvar(m)] != 0;
    invariant in: forall i int : {s.Cdb.CDat.D[i]} s.Vars.Reasons[lvar(m)] < i && i < r ==> rset[lvar(s.Cdb.CDat.D[i])];
    invariant fin: FinI(s);
    invariant marks: FinM(marks);
    invariant as: FinA(s);
    invariant sep: FinSep(s);
    invariant arr: arr(s.failed) == old(arr(s.failed)) || fresh(s.failed);
    invariant arrp: arr(s.failed) == pre(arr(s.failed)) || pfresh(s.failed);
    invariant root: rset[lvar(m)] && rcl[lvar(m)] && rpend[lvar(m)];
    invariant mono: forall v int : {rset[v]} {old(rset[v])} old(rset[v]) ==> rset[v];
    invariant pend: forall v int : {rpend[v]} {old(rpend[v])} v != lvar(m) ==> (rpend[v] <==> old(rpend[v]));
    invariant len: old(len(s.failed)) <= len(s.failed);
    invariant pre: forall k int : {s.failed[k]} 0 <= k && k < old(len(s.failed)) ==> s.failed[k] == old(s.failed[k]);
    begin { assert r < cend[s.Vars.Reasons[lvar(m)]] ==> isLit(s.Cdb.CDat.D[r]) && s.Vars.Vals[s.Cdb.CDat.D[r]] == -1; }
  }
  at return {
    have in_new(row(s.Cdb.CDat.D), off(s.Cdb.CDat.D), rset, s.Vars.Reasons[lvar(m)], cend[s.Vars.Reasons[lvar(m)]]);
    ghost rpend[lvar(m)] := rpend[lvar(m)] && old(marks[lvar(m)]);
    ghost fi[lvar(m)] := if !old(marks[lvar(m)]) && s.Vars.Reasons[lvar(m)] == 0 then len(s.failed) - 1 else fi[lvar(m)];
    ghost rcl[lvar(m)] := if !old(marks[lvar(m)]) && s.Vars.Reasons[lvar(m)] != 0 then false else rcl[lvar(m)];
  }
}
contract xo.S.final(s, ms) {
  requires FinPtr(s) && TMem(s.Trail) && TLev(s.Trail) && DecOk(s.Trail.Level) && FinSep(s) && sep(ms, s.failed);
  requires 0 <= fn && FinA(s);
  requires forall k int : {ms[k]} 0 <= k && k < len(ms) ==> isLit(ms[k]) && 2 <= ms[k] && s.Vars.Vals[ms[k]] == -1;
  ensures fin: FinI(s);
  ensures pend: forall v int : {rpend[v]} !rpend[v];
  ensures as: FinA(s);
  ensures arr: arr(s.failed) == old(arr(s.failed)) || fresh(s.failed);
  ensures in: forall k int : {ms[k]} 0 <= k && k < len(ms) ==> rset[lvar(ms[k])];
  ensures len: old(len(s.failed)) <= len(s.failed);
  ensures pre: forall k int : {s.failed[k]} 0 <= k && k < old(len(s.failed)) ==> s.failed[k] == old(s.failed[k]);
  modifies s.failed, elems(s.failed), new elems(s.failed), s.stFailed, rset, rcl, rpend, fi;
  at entry { ghost rset := emptyset(); ghost rcl := emptyset(); ghost rpend := emptyset(); }
  loop 0 {
    havoc elems(s.failed);
    invariant fin: FinI(s);
    invariant marks: FinM(marks) && fresh(marks);
    invariant as: FinA(s);
    invariant sep: FinSep(s) && sep(ms, s.failed);
    invariant arr: arr(s.failed) == old(arr(s.failed)) || fresh(s.failed);
    invariant arrp: arr(s.failed) == pre(arr(s.failed)) || pfresh(s.failed);
    invariant pend: forall v int : {rpend[v]} !rpend[v];
    invariant in: forall k int : {ms[k]} 0 <= k && k < iter ==> rset[lvar(ms[k])];
    invariant len: old(len(s.failed)) <= len(s.failed);
    invariant pre: forall k int : {s.failed[k]} 0 <= k && k < old(len(s.failed)) ==> s.failed[k] == old(s.failed[k]);
  }
}
// all failed assumptions are true in asg
func FailTru(f []z.Lit; n int) = forall k int : {f[k]} n <= k && k < len(f) ==> tru(f[k]);
lemma final_tru(s *xo.S) {
  requires FinPtr(s) && TMem(s.Trail) && Ent(s.Cdb) && FinI(s) && aall && FailTru(s.failed, fn);
  requires forall v int : {rpend[v]} !rpend[v];
  ensures forall v int : {rset[v]} rset[v] && tpos[v] < s.Trail.Tail ==> tru(s.Trail.D[tpos[v]]);
  have red_closed(s.Trail, s.Trail.Tail);
}
contract xo.S.Why(s, ms) (r) {
  requires SvOk(s) && XLit(s) && (s.x != 0 || s.xLit != 0 ==> DecOk(s.Trail.Level)) && sep(ms, s.Trail.D) && sep(ms, s.Cdb.CDat.D);
  ensures core: FailTru(r, len(ms)) && (s.x != 0 || s.xLit != 0) ==> !aall;
  ensures subset: forall k int : {r[k]} len(ms) <= k && k < len(r) ==> aset[r[k]];
  ensures pre: len(ms) <= len(r) && forall k int : {r[k]} 0 <= k && k < len(ms) ==> r[k] == old(ms[k]);
  ensures none: s.x == 0 && s.xLit == 0 ==> r == ms;
  modifies elems(ms), s.failed, new elems(s.failed), s.stFailed, rset, rcl, rpend, fi, fn;
  at entry { ghost fn := len(ms); }
  at after xo.S.final {
    have final_tru(s);
    have sat_get(row(s.Cdb.CDat.D), off(s.Cdb.CDat.D), asg, s.x, cend[s.x]);
    assert s.xLit != 0 ==> arg1[0] == s.xLit && s.failed[fn] == s.xLit && rset[lvar(s.xLit)];
    assert s.xLit == 0 ==> forall i int : {s.Cdb.CDat.D[i]} s.x <= i && i < cend[s.x] ==> arg1[i - s.x] == s.Cdb.CDat.D[i] && rset[lvar(s.Cdb.CDat.D[i])];
  }
  at return {
    have bot_unsat(s.Cdb);
    have sat_get(row(s.Cdb.CDat.D), off(s.Cdb.CDat.D), asg, s.x, cend[s.x]);
  }
}
contract xo.S.Reasons(s, dst, m) (r) {
  requires SvOk(s) && isLit(m) && 2 <= m && s.Vars.Vals[m] == 1 && sep(dst, s.Trail.D) && sep(dst, s.Cdb.CDat.D);
  ensures implied: rsn(s.Trail, m) != 0 && FailTru(r, 0) && aall ==> tru(m);
  ensures earlier: forall k int : {r[k]} 0 <= k && k < len(r) ==> isLit(r[k]) && s.Vars.Vals[r[k]] == 1 && tpos[lvar(r[k])] < tpos[lvar(m)];
  ensures decision: rsn(s.Trail, m) == 0 ==> len(r) == 0 && m == dlit[lev(s.Trail, m)];
  modifies elems(dst), new elems(r);
  loop 0 {
    havoc elems(dst);
    invariant p: rsn(s.Trail, m) < p && p <= cend[rsn(s.Trail, m)] && len(dst) == p - 1 - rsn(s.Trail, m);
    invariant lits: forall k int : {dst[k]} 0 <= k && k < len(dst) ==> dst[k] == lnot(s.Cdb.CDat.D[rsn(s.Trail, m) + 1 + k]);
    invariant arr: (arr(dst) == arr(old(dst)) || fresh(dst)) && (arr(dst) == pre(arr(dst)) || pfresh(dst)) && sep(dst, s.Trail.D) && sep(dst, s.Cdb.CDat.D);
  }
  at entry { have sat_get(row(s.Cdb.CDat.D), off(s.Cdb.CDat.D), asg, rsn(s.Trail, m), cend[rsn(s.Trail, m)]); }
  at return { assert forall i int : {s.Cdb.CDat.D[i]} rsn(s.Trail, m) != 0 && rsn(s.Trail, m) < i && i < cend[rsn(s.Trail, m)] ==> result[i - 1 - rsn(s.Trail, m)] == lnot(s.Cdb.CDat.D[i]); }
}
property C03 { false_level, unsat_level, bot_unsat, xo.S.cleanupSolve, xo.S.makeAssumptions, xo.S.solveInit, xo.S.Solve, xo.S.finalRec, xo.S.final, final_tru, xo.S.Why }
property C04 { rsn_get, rsn_new, rsn_frame, sat_get, xo.Trail.Assign, xo.Trail.Back, xo.Trail.Prop, xo.S.Reasons }
