// The solve loop (xo.S).
//
// asm is an arbitrary flag which implies that the assumptions are true in asg.
ghost asm bool;
// the assumptions
ghost aset set;
// the trail the clauses belong to, for the contracts of the clause database
ghost gT *xo.Trail;

// trusted: they do not touch the state of the solver
contract sync.Mutex.Lock(m) { trusted; }
contract sync.Mutex.Unlock(m) { trusted; }
contract time.Until(t) (d) { trusted; }
contract time.Now() (t) { trusted; }
contract math.Exp(x) (y) { trusted; }
contract log.Println(v) { trusted; }
contract fmt.Sprintf(f, v) (r) { trusted; }
contract log.Fatalf(f, v) { trusted; ensures false; }
contract log.Fatal(v) { trusted; ensures false; }
contract xo.Ctl.Tick(c) (r) { trusted; }

contract xo.NewLuby() (l) {
  ensures fresh(l);
}
contract xo.Luby.Next(l) (r) {
  modifies l.exp, l.turns;
}
contract xo.Guess.Decay(g) {
  modifies g.decays, g.bumpDecay, g.bumpInc;
}
contract xo.Guess.nextRestart(g, n) {
  modifies g.decays, g.restartDecays, g.decayMax;
}
contract xo.S.lastTestLevel(s) (r) {
  ensures len(s.testLevels) == 0 ==> r == 0;
  ensures 0 < len(s.testLevels) ==> r == s.testLevels[len(s.testLevels) - 1];
}
contract xo.phases.init(p, s) (r) {
  requires s.Vars.Max < 1073741824;
  modifies elems(s.Guess.cache);
  loop 2 { invariant i <= s.Vars.Max + 1; }
}

func SPtr(s *xo.S) = s != nil && s.Driver != nil && s.Trail == s.Driver.Trail && s.Vars == s.Trail.Vars && s.Cdb == s.Trail.Cdb && s.Guess == s.Trail.Guess;
// the assumptions and the levels of the tests are not shared
func SSep(s *xo.S) = sep(s.assumes, s.Trail.D) && sep(s.assumes, s.Cdb.CDat.D) && sep(s.assumes, s.Driver.CLits) && sep(s.assumes, s.Driver.SLits) && sep(s.assumes, s.Driver.RLits)
  && sep(s.Cdb.AddLits, s.Trail.D) && sep(s.Cdb.AddLits, s.Cdb.CDat.D) && sep(s.Cdb.AddLits, s.Driver.CLits) && sep(s.Cdb.AddLits, s.Driver.SLits) && sep(s.Cdb.AddLits, s.Driver.RLits) && sep(s.Cdb.AddLits, s.assumes)
  && (arr(s.testLevels) == 0 || arr(s.testLevels) != arr(s.Vars.Levels) && arr(s.testLevels) != arr(s.Guess.pos));
func BotOk(c *xo.Cdb) = c.Bot != 0 ==> live[c.Bot] && cend[c.Bot] == c.Bot;
func Lits1(s *xo.S) = forall i int : {s.assumes[i]} 0 <= i && i < len(s.assumes) ==> isLit(s.assumes[i]) && 2 <= s.assumes[i];
// the levels of the tests
func STest(s *xo.S) = 0 <= s.endTestLevel && s.endTestLevel <= s.Trail.Level && (len(s.testLevels) == 0 ==> s.endTestLevel == 0)
  && (forall i int : {s.testLevels[i]} 0 <= i && i < len(s.testLevels) ==> 0 <= s.testLevels[i] && s.testLevels[i] <= s.endTestLevel)
  && (forall i, j : {s.testLevels[i], s.testLevels[j]} 0 <= i && i <= j && j < len(s.testLevels) ==> s.testLevels[i] <= s.testLevels[j])
  && (0 < len(s.testLevels) ==> s.testLevels[0] == 0);
// the state but for the conflict
func SCore(s *xo.S) = SPtr(s) && DrIn(s.Driver) && TOk(s.Trail) && Mem(s.Cdb) && Ent(s.Cdb) && Heap(s.Trail) && Watch(s.Trail) && BotOk(s.Cdb) && GVals(s.Guess, s.Vars.Vals) && s.Vars.Max < len(s.Vars.Reasons) && SSep(s);
// the conflict; then there is no failed assumption
func XOk(s *xo.S) = s.x != 0 ==> s.xLit == 0 && (s.x == s.Cdb.Bot || Confl(s.Trail, s.x));
// the decisions up to level n are true under asm
func DecOk(n int) = forall l int : {dlit[l]} 1 <= l && l <= n ==> aset[dlit[l]] && (asm ==> tru(dlit[l]));
func AsmOk(s *xo.S) = forall i int : {s.assumes[i]} 0 <= i && i < len(s.assumes) ==> aset[s.assumes[i]] && (asm ==> tru(s.assumes[i]));
// a failed assumption is false
func XLit(s *xo.S) = s.xLit != 0 ==> isLit(s.xLit) && 2 <= s.xLit && aset[s.xLit] && s.Vars.Vals[s.xLit] == -1;
func SvOk(s *xo.S) = SCore(s) && XOk(s) && STest(s) && SFull(s);
// the watches: every clause with two false, propagated watches is true, up to the conflict
func SFull(s *xo.S) = s.Cdb.Bot == 0 ==> WFull(s.Trail, 0, 0, s.Trail.Level - 1) && (s.x == 0 ==> WFull(s.Trail, 0, 0, s.Trail.Level));

lemma has_sat(d row; o int; a set; p int; e int; l int) {
  requires Has(d, o, p, e, l) && (a[lvar(l)] <==> lpos(l));
  ensures SatAt(d, o, a, p, e);
  auto {Has(d, o, p, e, l), SatAt(d, o, a, p, e)};
  reveal Has;
}
// every variable has a value and the clauses are propagated
func Total(t *xo.Trail) = t.Head == t.Tail && forall v int : {t.Vars.Vals[mklit(v, true)]} 1 <= v && v <= t.Vars.Max ==> t.Vars.Vals[mklit(v, true)] != 0;
// asg is the assignment found
func Agr(t *xo.Trail) = forall l int : {t.Vars.Vals[l]} isLit(l) && 2 <= l && t.Vars.Vals[l] == 1 ==> tru(l);
func Model(c *xo.Cdb) = forall p int : {live[p]} live[p] && p + 2 <= cend[p] ==> SatAt(row(c.CDat.D), off(c.CDat.D), asg, p, cend[p]);
func TVal(t *xo.Trail) = forall l int : {t.Vars.Vals[l]} isLit(l) && 2 <= l && lvar(l) <= t.Vars.Max ==> t.Vars.Vals[l] == 1 || t.Vars.Vals[l] == -1 && tpos[lvar(l)] < t.Head && lev(t, l) <= t.Level;
define TOTAL { TVal(t) && Mem(t.Cdb) && t.Cdb.Vars == t.Vars && WFirst(t.Cdb) && WFull(t, 0, 0, t.Level) && Agr(t) }
lemma total_val(t *xo.Trail) {
  requires TAt(t, t.Tail) && Total(t);
  ensures TVal(t);
}
lemma total_one(t *xo.Trail; p int) {
  requires @TOTAL;
  ensures live[p] && p + 2 <= cend[p] ==> SatAt(row(t.Cdb.CDat.D), off(t.Cdb.CDat.D), asg, p, cend[p]);
  have has_at(row(t.Cdb.CDat.D), off(t.Cdb.CDat.D), p, cend[p], p);
  have has_at(row(t.Cdb.CDat.D), off(t.Cdb.CDat.D), p, cend[p], p + 1);
  have has_lit(row(t.Cdb.CDat.D), off(t.Cdb.CDat.D), p, cend[p], blk[p]);
}
lemma total_upto(t *xo.Trail; n int) {
  requires @TOTAL && 0 <= n;
  ensures forall p int : {live[p]} live[p] && p + 2 <= cend[p] && p < n ==> SatAt(row(t.Cdb.CDat.D), off(t.Cdb.CDat.D), asg, p, cend[p]);
  induct n;
  use total_one(t, n - 1);
}
lemma total_model(t *xo.Trail) {
  requires TAt(t, t.Tail) && Mem(t.Cdb) && t.Cdb.Vars == t.Vars && WFirst(t.Cdb) && WFull(t, 0, 0, t.Level) && Total(t) && Agr(t);
  ensures Model(t.Cdb);
  use total_val(t);
  use total_upto(t, len(t.Cdb.CDat.D));
}

// a false clause has a false decision
lemma unsat_level(t *xo.Trail; x int) {
  requires TOk(t) && Mem(t.Cdb) && Ent(t.Cdb) && live[x] && FalseAt(row(t.Cdb.CDat.D), off(t.Cdb.CDat.D), row(t.Vars.Vals), off(t.Vars.Vals), x, cend[x]);
  ensures aall ==> 1 <= lev(t, t.D[fd]) && lev(t, t.D[fd]) <= t.Level && !tru(dlit[lev(t, t.D[fd])]);
  have sat_get(row(t.Cdb.CDat.D), off(t.Cdb.CDat.D), asg, x, cend[x]);
}
// so has a false literal
lemma false_level(t *xo.Trail; m int) {
  requires TOk(t) && isLit(m) && 2 <= m && t.Vars.Vals[m] == -1;
  ensures aall ==> !tru(m) || 1 <= lev(t, t.D[fd]) && lev(t, t.D[fd]) <= t.Level && !tru(dlit[lev(t, t.D[fd])]);
}
lemma bot_unsat(c *xo.Cdb) {
  requires Ent(c) && BotOk(c) && c.Bot != 0;
  ensures !aall;
  reveal SatAt;
}

define PROPMOD {
  s.Trail.Head, s.Trail.Tail, s.Trail.Props, s.Trail.MaxTail, elems(s.Trail.D), elems(s.Vars.Vals), elems(s.Vars.Levels), elems(s.Vars.Reasons), elems(s.Vars.Watches), rows xo.Watch, elems(s.Cdb.CDat.D),
  tpos, dpos, dlit, fd, w0, w1, x0, x1, wown, cx, gi, gj, gm, gq, blk
}
define LEARNMOD {
  s.Cdb.CDat.D, s.Cdb.CDat.Cap, s.Cdb.CDat.Len, s.Cdb.CDat.ClsLen, elems(s.Cdb.CDat.D), new elems(s.Cdb.CDat.D), cls, cend, live,
  rows xo.Watch, elems(s.Vars.Watches), w0, w1, x0, x1, wown, s.Cdb.Bot, s.Cdb.Learnts, rows z.C, elems(s.Cdb.Active.Occs), zown, s.Cdb.gc.stopWatch
}
define BACKMOD {
  elems(s.Vars.Vals), elems(s.Vars.Levels), elems(s.Vars.Reasons), s.Trail.Tail, s.Trail.Head, s.Trail.Level, fd, elems(s.Guess.vhp), new elems(s.Guess.vhp), elems(s.Guess.pos), elems(s.Guess.cache), s.Guess.vhp
}
define DERIVEMOD {
  s.Driver.Conflicts, s.Driver.CLits, s.Driver.SLits, elems(s.Driver.CLits), elems(s.Driver.SLits), new elems(s.Driver.CLits), s.Driver.RLits, elems(s.Driver.RLits), elems(s.Driver.Rdnt), elems(s.Driver.Lvls), elems(s.Driver.Seen),
  s.Driver.LearntLits, s.Driver.RedLits, s.Driver.Learnt, elems(s.Guess.vhp), elems(s.Guess.pos), elems(s.Guess.heat), s.Guess.rescales, s.Guess.bumpInc, hs, rset, rcl, ri, rk, rpend, tl, op, si, gw, gz, gb,
  s.Cdb.stHeatRescales, s.Cdb.CDat.bumpInc, @LEARNMOD
}

define ARROLD { (arr(s.Driver.CLits) == old(arr(s.Driver.CLits)) || fresh(s.Driver.CLits))
  && (arr(s.Driver.SLits) == old(arr(s.Driver.SLits)) || fresh(s.Driver.SLits))
  && (arr(s.Driver.RLits) == old(arr(s.Driver.RLits)) || fresh(s.Driver.RLits))
  && (arr(s.Cdb.CDat.D) == old(arr(s.Cdb.CDat.D)) || fresh(s.Cdb.CDat.D))
  && (arr(s.Guess.vhp) == old(arr(s.Guess.vhp)) || fresh(s.Guess.vhp)) }
define ARRPRE { (arr(s.Driver.CLits) == pre(arr(s.Driver.CLits)) || pfresh(s.Driver.CLits))
  && (arr(s.Driver.SLits) == pre(arr(s.Driver.SLits)) || pfresh(s.Driver.SLits))
  && (arr(s.Driver.RLits) == pre(arr(s.Driver.RLits)) || pfresh(s.Driver.RLits))
  && (arr(s.Cdb.CDat.D) == pre(arr(s.Cdb.CDat.D)) || pfresh(s.Cdb.CDat.D))
  && (arr(s.Guess.vhp) == pre(arr(s.Guess.vhp)) || pfresh(s.Guess.vhp)) }
define ARRHAVOC { havoc elems(s.Driver.CLits); havoc elems(s.Driver.SLits); havoc elems(s.Driver.RLits); havoc elems(s.Cdb.CDat.D); havoc elems(s.Guess.vhp); }

contract xo.S.learnBot0(s) {
  requires SCore(s) && XOk(s) && SFull(s);
  ensures SCore(s);
  ensures full: SFull(s);
  ensures s.x != 0 && s.Trail.Level == 0 ==> s.Cdb.Bot != 0;
  ensures s.Cdb.Bot == 0 ==> XOk(s);
  ensures arr(s.Cdb.CDat.D) == old(arr(s.Cdb.CDat.D)) || fresh(s.Cdb.CDat.D);
  modifies @LEARNMOD;
  at before xo.Cdb.Learn { have unsat_level(s.Trail, s.x); }
}

contract xo.S.cleanupSolve(s) (r) {
  requires SvOk(s);
  ensures core: SCore(s);
  ensures test: STest(s);
  ensures full: SFull(s);
  ensures dec: forall l int : {dlit[l]} {old(dlit[l])} 1 <= l && l <= s.endTestLevel ==> dlit[l] == old(dlit[l]);
  ensures lvl: s.Trail.Level == s.endTestLevel;
  ensures r == 0 ==> s.x == 0;
  ensures xlit: s.xLit == 0;
  ensures confl: r != 0 ==> Confl(s.Trail, r);
  ensures arr: @ARROLD;
  modifies s.x, s.xLit, s.failed, @PROPMOD, @DERIVEMOD, @BACKMOD;
  loop 0 {
    @ARRHAVOC
    invariant arr: @ARROLD;
    invariant arrp: @ARRPRE;
    invariant core: SCore(s);
    invariant xok: XOk(s);
    invariant test: STest(s);
    invariant full: SFull(s);
    invariant dlit: dlit == old(dlit);
  }
  at after xo.Deriver.Derive { label D; assert cls[res0.P]; }
  at before xo.Trail.Assign {
    assert s.Vars.Vals[arg1] == 0;
    assert forall i int : {s.Cdb.CDat.D[i]} arg2 < i && i < cend[arg2] ==> isLit(s.Cdb.CDat.D[i]) && 2 <= s.Cdb.CDat.D[i] && s.Vars.Vals[s.Cdb.CDat.D[i]] == -1;
    assert forall i int : {s.Cdb.CDat.D[i]} arg2 < i && i < cend[arg2] ==> tpos[lvar(s.Cdb.CDat.D[i])] < s.Trail.Tail;
    assert forall i int : {s.Cdb.CDat.D[i]} arg2 < i && i < cend[arg2] ==> isLit(s.Cdb.CDat.D[i]) && s.Vars.Vals[s.Cdb.CDat.D[i]] == -1 && tpos[lvar(s.Cdb.CDat.D[i])] < s.Trail.Tail;
    have rsn_new(row(s.Cdb.CDat.D), off(s.Cdb.CDat.D), row(s.Vars.Vals), off(s.Vars.Vals), tpos, arg2, cend[arg2], s.Trail.Tail);
  }
  at return {
    assert forall i int : {s.Cdb.CDat.D[i]} result != 0 && result < i && i < cend[result] ==> isLit(s.Cdb.CDat.D[i]) && s.Vars.Vals[s.Cdb.CDat.D[i]] == -1;
    use false_new(row(s.Cdb.CDat.D), off(s.Cdb.CDat.D), row(s.Vars.Vals), off(s.Vars.Vals), result, cend[result]) when result != 0;
    ghost cx := if result != 0 then result else cx;
  }
}
property C01 { xo.NewLuby, xo.Luby.Next, xo.Guess.Decay, xo.Guess.nextRestart, xo.S.lastTestLevel, xo.phases.init, unsat_level, false_level, bot_unsat, xo.S.learnBot0, xo.S.cleanupSolve }

// Garbage collection of learned clauses keeps the state (assumed).
define GCSPEC {
  trusted;
  requires gT != nil && gT.Cdb == c && TOk(gT) && Mem(c) && Ent(c) && Watch(gT) && WFull(gT, 0, 0, gT.Level) && DbOk(c) && BotOk(c) && zown[arr(c.Vars.Reasons)] == 0;
  ensures TOk(gT) && Mem(c) && Ent(c) && Watch(gT) && WFull(gT, 0, 0, gT.Level) && DbOk(c) && BotOk(c) && zown[arr(c.Vars.Reasons)] == 0;
  ensures arr(c.CDat.D) == old(arr(c.CDat.D)) || fresh(c.CDat.D);
  ensures arr(c.AddLits) == old(arr(c.AddLits)) || fresh(c.AddLits);
  ensures sep(c.AddLits, c.CDat.D);
  ensures (c.Bot == 0) == old(c.Bot == 0);
  modifies c.CDat.D, c.CDat.Cap, c.CDat.Len, c.CDat.ClsLen, elems(c.CDat.D), new elems(c.CDat.D), c.AddLits, elems(c.AddLits), new elems(c.AddLits), cls, cend, live,
    rows xo.Watch, elems(c.Vars.Watches), w0, w1, x0, x1, wown, blk, c.Bot, c.Learnts, c.Added, rows z.C, elems(c.Active.Occs), zown, c.gc.*
}
contract xo.Cdb.MaybeCompact(c) (a, b, d) { @GCSPEC; }
contract xo.Cdb.CheckModel(c) (errs) { @GCSPEC; }

define ARROLD1 { (arr(s.Cdb.CDat.D) == old(arr(s.Cdb.CDat.D)) || fresh(s.Cdb.CDat.D)) }

contract xo.S.makeAssumptions(s) (r) {
  requires SCore(s) && STest(s) && SFull(s) && s.x == 0 && s.xLit == 0 && s.Trail.Level == s.endTestLevel && DecOk(s.endTestLevel) && AsmOk(s) && Lits1(s);
  ensures core: SCore(s);
  ensures xok: XOk(s);
  ensures test: STest(s);
  ensures full: SFull(s);
  ensures dec: forall l int : {dlit[l]} {old(dlit[l])} 1 <= l && l <= s.endTestLevel ==> dlit[l] == old(dlit[l]);
  ensures cause: r == -1 ==> XLit(s) && DecOk(s.Trail.Level);
  ensures val: r == 0 || r == -1;
  ensures unsat: r == -1 ==> !(aall && asm);
  ensures ok: r == 0 ==> s.x == 0 && s.xLit == 0 && s.Cdb.Bot == 0 && s.Trail.Level == s.assumptLevel && s.Trail.Head == s.Trail.Tail;
  ensures asv: r == 0 ==> forall i int : {old(s.assumes[i])} 0 <= i && i < old(len(s.assumes)) ==> s.Vars.Vals[old(s.assumes[i])] == 1 && lev(s.Trail, old(s.assumes[i])) <= s.Trail.Level;
  ensures decok: r == 0 ==> DecOk(s.Trail.Level);
  ensures tail: old(s.Trail.Tail) <= s.Trail.Tail;
  ensures len: len(s.assumes) == 0 && arr(s.assumes) == old(arr(s.assumes));
  modifies s.stAssumes, s.assumptLevel, s.stPinned, s.stIncPinned, s.stFailed, s.x, s.xLit, s.assumes, @PROPMOD, s.Trail.Level;
  loop 0 {
    invariant core: SCore(s);
    invariant test: STest(s);
    invariant full: WFull(s.Trail, 0, 0, s.Trail.Level);
    invariant asv: forall i int : {old(s.assumes[i])} 0 <= i && i < iter ==> s.Vars.Vals[old(s.assumes[i])] == 1 && lev(s.Trail, old(s.assumes[i])) <= s.Trail.Level;
    invariant s.x == 0 && s.xLit == 0 && s.Cdb.Bot == 0 && s.Trail.Level == s.assumptLevel && s.Trail.Head == s.Trail.Tail;
    invariant as: forall i int : {s.assumes[i]} 0 <= i && i < len(s.assumes) ==> s.assumes[i] == old(s.assumes[i]);
    invariant tail: old(s.Trail.Tail) <= s.Trail.Tail;
    invariant decok: DecOk(s.Trail.Level);
    invariant dec: forall l int : {dlit[l]} {old(dlit[l])} 1 <= l && l <= s.endTestLevel ==> dlit[l] == old(dlit[l]);
  }
  at entry { have bot_unsat(s.Cdb); }
  at after xo.Trail.Assign { assert asm ==> tru(dlit[s.Trail.Level]); assert DecOk(s.Trail.Level); }
  at after xo.Trail.Prop { have unsat_level(s.Trail, res0); assert res0 != 0 ==> !(aall && asm); }
  at return { have false_level(s.Trail, s.xLit); }
}

contract xo.S.solveInit(s) (r) {
  requires SvOk(s) && DecOk(s.endTestLevel) && AsmOk(s) && Lits1(s);
  ensures core: SCore(s);
  ensures xok: XOk(s);
  ensures test: STest(s);
  ensures full: SFull(s);
  ensures dec: forall l int : {dlit[l]} {old(dlit[l])} 1 <= l && l <= s.endTestLevel ==> dlit[l] == old(dlit[l]);
  ensures cause: r == -1 ==> XLit(s) && DecOk(s.Trail.Level);
  ensures val: r == 0 || r == -1;
  ensures unsat: r == -1 ==> !(aall && asm);
  ensures ok: r == 0 ==> s.x == 0 && s.xLit == 0 && s.Cdb.Bot == 0 && s.Trail.Level == s.assumptLevel && s.Trail.Head == s.Trail.Tail;
  ensures asv: r == 0 ==> forall i int : {old(s.assumes[i])} 0 <= i && i < old(len(s.assumes)) ==> s.Vars.Vals[old(s.assumes[i])] == 1 && lev(s.Trail, old(s.assumes[i])) <= s.Trail.Level;
  ensures decok: r == 0 ==> DecOk(s.Trail.Level);
  ensures arr: @ARROLD;
  ensures sarr: arr(s.assumes) == old(arr(s.assumes));
  modifies s.luby, heap xo.Luby.exp, heap xo.Luby.turns, s.restartStopwatch, s.phases, s.stAssumes, s.assumptLevel, s.stPinned, s.stIncPinned, s.stFailed, s.x, s.xLit, s.failed, s.assumes, @PROPMOD, @DERIVEMOD, @BACKMOD;
  loop 0 {
    invariant SvOk(s) && DecOk(s.endTestLevel) && AsmOk(s) && Lits1(s);
  }
  at after xo.S.cleanupSolve { have unsat_level(s.Trail, res0); }
}
property C01 { xo.S.makeAssumptions, xo.S.solveInit }

define SOLVEMOD {
  heap xo.Luby.exp, heap xo.Luby.turns, s.restartStopwatch, s.phases, s.stAssumes, s.assumptLevel, s.stPinned, s.stIncPinned, s.stFailed, s.x, s.xLit, s.failed, s.assumes, @PROPMOD, @DERIVEMOD, @BACKMOD,
  s.luby, s.stRestarts, s.stSat, s.stUnsat, s.stEnded, s.Cdb.checkModel, s.Cdb.AddLits, elems(s.Cdb.AddLits), new elems(s.Cdb.AddLits), s.Cdb.Added, s.Cdb.gc.*, s.Guess.*, gT
}
contract xo.S.Solve(s) (r) {
  requires SvOk(s) && DecOk(s.endTestLevel) && AsmOk(s) && Lits1(s);
  ensures core: SCore(s);
  ensures xok: XOk(s);
  ensures test: STest(s);
  ensures full: SFull(s);
  ensures dec: forall l int : {dlit[l]} {old(dlit[l])} 1 <= l && l <= s.endTestLevel ==> dlit[l] == old(dlit[l]);
  ensures cause: r == -1 ==> XLit(s) && DecOk(s.Trail.Level);
  ensures val: r == 0 || r == -1 || r == 1;
  ensures unsat: r == -1 ==> !(aall && asm);
  ensures sat: r == 1 ==> s.x == 0 && s.Cdb.Bot == 0 && Total(s.Trail);
  ensures model: r == 1 && Agr(s.Trail) ==> Model(s.Cdb);
  ensures asv: r == 1 ==> forall i int : {old(s.assumes[i])} 0 <= i && i < old(len(s.assumes)) ==> s.Vars.Vals[old(s.assumes[i])] == 1;
  ensures len: len(s.assumes) == 0 && s.assumptLevel == 0;
  modifies @SOLVEMOD;
  loop 0 {
    @ARRHAVOC havoc elems(s.Cdb.AddLits);
    invariant arr: @ARROLD && (arr(s.Cdb.AddLits) == old(arr(s.Cdb.AddLits)) || fresh(s.Cdb.AddLits));
    invariant arrp: @ARRPRE && (arr(s.Cdb.AddLits) == pre(arr(s.Cdb.AddLits)) || pfresh(s.Cdb.AddLits));
    invariant core: SCore(s);
    invariant test: STest(s);
    invariant full: WFull(s.Trail, 0, 0, s.Trail.Level);
    invariant asv: forall i int : {old(s.assumes[i])} 0 <= i && i < old(len(s.assumes)) ==> s.Vars.Vals[old(s.assumes[i])] == 1 && lev(s.Trail, old(s.assumes[i])) <= s.assumptLevel;
    invariant s.x == 0 && s.xLit == 0 && s.Cdb.Bot == 0 && 0 <= s.assumptLevel && s.assumptLevel <= s.Trail.Level && s.endTestLevel <= s.assumptLevel;
    invariant decok: DecOk(s.assumptLevel);
    invariant dec: forall l int : {dlit[l]} {old(dlit[l])} 1 <= l && l <= s.endTestLevel ==> dlit[l] == old(dlit[l]);
  }
  at return { use total_model(s.Trail) when result == 1 && Agr(s.Trail); }
  at entry { ghost gT := s.Trail; }
  at after xo.Trail.Prop { have unsat_level(s.Trail, res0); }
  at after xo.Deriver.Derive { label D; assert cls[res0.P]; }
  at after xo.Guess.Guess {
    assert res0 == 0 ==> forall v int : {s.Vars.Vals[mklit(v, true)]} 1 <= v && v <= s.Vars.Max && s.Guess.pos[v] <= len(s.Guess.vhp) ==> s.Vars.Vals[mklit(v, true)] != 0;
  }
  at before xo.Trail.Assign 1 { label A; }
  at after xo.Trail.Assign 1 {
    assert DecOk(s.assumptLevel) from at(A, DecOk(s.assumptLevel)), forall l int : {dlit[l]} l <= s.assumptLevel ==> dlit[l] == at(A, dlit[l]);
  }
  at before xo.Trail.Assign 0 {
    assert WFull(s.Trail, 0, 0, s.Trail.Level);
    assert s.Vars.Vals[arg1] == 0;
    assert forall i int : {s.Cdb.CDat.D[i]} arg2 < i && i < cend[arg2] ==> isLit(s.Cdb.CDat.D[i]) && 2 <= s.Cdb.CDat.D[i] && s.Vars.Vals[s.Cdb.CDat.D[i]] == -1;
    assert forall i int : {s.Cdb.CDat.D[i]} arg2 < i && i < cend[arg2] ==> tpos[lvar(s.Cdb.CDat.D[i])] < s.Trail.Tail;
    assert forall i int : {s.Cdb.CDat.D[i]} arg2 < i && i < cend[arg2] ==> isLit(s.Cdb.CDat.D[i]) && s.Vars.Vals[s.Cdb.CDat.D[i]] == -1 && tpos[lvar(s.Cdb.CDat.D[i])] < s.Trail.Tail;
    have rsn_new(row(s.Cdb.CDat.D), off(s.Cdb.CDat.D), row(s.Vars.Vals), off(s.Vars.Vals), tpos, arg2, cend[arg2], s.Trail.Tail);
  }
}
property C01 { xo.S.Solve }

// Untest goes back itself; the rest of this function is not reached from it.
contract xo.Trail.backWithLates(t, prevLevel) {
  requires t.Level <= prevLevel;
}
define TESTMOD {
  s.testLevels, elems(s.testLevels), new elems(s.testLevels), s.endTestLevel
}
contract xo.S.Untest(s) (r) {
  requires SvOk(s) && (0 < len(s.testLevels) ==> DecOk(s.testLevels[len(s.testLevels) - 1]));
  ensures core: SCore(s);
  ensures xok: XOk(s);
  ensures test: STest(s);
  ensures full: SFull(s);
  ensures lvl: len(s.testLevels) == old(len(s.testLevels)) - 1 && s.endTestLevel == old(s.testLevels[len(s.testLevels) - 1]);
  ensures tl: forall i int : {s.testLevels[i]} 0 <= i && i < len(s.testLevels) ==> s.testLevels[i] == old(s.testLevels[i]);
  ensures dec: forall l int : {dlit[l]} {old(dlit[l])} 1 <= l && l <= s.endTestLevel ==> dlit[l] == old(dlit[l]);
  ensures cause: r == -1 ==> s.xLit == 0 && DecOk(s.Trail.Level);
  ensures val: r == 0 || r == -1;
  ensures unsat: r == -1 ==> !(aall && asm);
  ensures ok: r == 0 ==> s.x == 0 && s.xLit == 0 && s.Cdb.Bot == 0 && s.Trail.Level == s.endTestLevel && s.Trail.Head == s.Trail.Tail;
  modifies @TESTMOD, s.x, s.xLit, s.failed, @PROPMOD, @DERIVEMOD, @BACKMOD;
  at after xo.S.cleanupSolve { have unsat_level(s.Trail, res0); have bot_unsat(s.Cdb); }
  at after xo.Trail.Prop { have unsat_level(s.Trail, res0); }
}
contract xo.S.Test(s, ms) (res, ns) {
  requires SvOk(s) && DecOk(s.endTestLevel) && AsmOk(s) && Lits1(s);
  requires sep(ms, s.Trail.D) && sep(ms, s.Cdb.CDat.D) && sep(ms, s.Driver.CLits) && sep(ms, s.Driver.SLits) && sep(ms, s.Driver.RLits) && sep(ms, s.assumes) && sep(ms, s.Cdb.AddLits);
  ensures core: SCore(s);
  ensures xok: XOk(s);
  ensures test: STest(s);
  ensures full: SFull(s);
  ensures lvl: len(s.testLevels) == old(len(s.testLevels)) + 1 && s.testLevels[len(s.testLevels) - 1] == old(s.endTestLevel);
  ensures dec: forall l int : {dlit[l]} {old(dlit[l])} 1 <= l && l <= old(s.endTestLevel) ==> dlit[l] == old(dlit[l]);
  ensures cause: res == -1 ==> XLit(s) && DecOk(s.Trail.Level);
  ensures val: res == 0 || res == -1 || res == 1;
  ensures unsat: res == -1 ==> !(aall && asm) && s.endTestLevel == old(s.endTestLevel);
  ensures sat: res != -1 ==> s.x == 0 && s.Cdb.Bot == 0 && DecOk(s.endTestLevel) && s.Trail.Level == s.endTestLevel && s.Trail.Head == s.Trail.Tail;
  ensures model: res == 1 && Agr(s.Trail) ==> Model(s.Cdb);
  ensures total: res == 1 ==> Total(s.Trail);
  ensures ns: res != -1 && arr(ms) != 0 ==> len(ns) <= s.Trail.Tail && forall i int : {ns[i]} 0 <= i && i < len(ns) ==> ns[i] == s.Trail.D[s.Trail.Tail - len(ns) + i];
  modifies @TESTMOD, elems(ms), new elems(ns), s.stAssumes, s.assumptLevel, s.stPinned, s.stIncPinned, s.stFailed, s.x, s.xLit, s.failed, s.assumes, @PROPMOD, @DERIVEMOD, @BACKMOD,
    s.stSat, s.Cdb.AddLits, elems(s.Cdb.AddLits), new elems(s.Cdb.AddLits), s.Cdb.Added, s.Cdb.gc.*, s.Cdb.CDat.bumpInc, gT;
  at return { use total_model(s.Trail) when res == 1 && Agr(s.Trail); }
  at entry { ghost gT := s.Trail; }
  loop 0 {
    havoc elems(ns);
    invariant i <= end && start <= i && len(ns) == i - start && end == s.Trail.Tail;
    invariant forall k int : {ns[k]} 0 <= k && k < len(ns) ==> ns[k] == s.Trail.D[start + k];
    invariant (arr(ns) == arr(ms) || fresh(ns)) && (arr(ns) == pre(arr(ns)) || pfresh(ns));
    invariant sep(ns, s.Trail.D) && sep(ns, s.Cdb.CDat.D) && sep(ns, s.Driver.CLits) && sep(ns, s.Driver.SLits) && sep(ns, s.Driver.RLits) && sep(ns, s.assumes) && sep(ns, s.Cdb.AddLits);
  }
  at after xo.Guess.has {
    assert !res0 ==> forall v int : {s.Vars.Vals[mklit(v, true)]} 1 <= v && v <= s.Vars.Max && s.Guess.pos[v] <= len(s.Guess.vhp) ==> s.Vars.Vals[mklit(v, true)] != 0;
  }
}
property C01 { xo.S.Untest, xo.S.Test }
property C05 { xo.S.Untest, xo.S.Test }
property C10 { xo.S.Solve }
property C02 { has_at, has_lit, has_frame, has_swap, has_sat, total_val, total_one, total_upto, total_model, xo.Trail.Assign, xo.Trail.Back, xo.Trail.Prop, xo.Cdb.Learn, xo.Deriver.Derive, xo.S.learnBot0, xo.S.cleanupSolve, xo.S.makeAssumptions, xo.S.solveInit, xo.S.Solve, xo.S.Test, xo.S.Untest }
