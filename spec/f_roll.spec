// Unrolling of sequential circuits (logic.Roll).
//
// sv is an arbitrary family of signal values over time.  STrace(s): sv is a
// run of s, i.e. it satisfies the equation of every gate at every time, the
// initial values and the transition function of the latches.
uninterp func sv(v int; t int) bool;
func slit(m int; t int) = (lpos(m) <==> sv(lvar(m), t));

func SOk(s *logic.S) = s != nil && COk(s.C)
  && s.nodes[0].b == 0 && s.nodes[1].b == 0
  && (forall i int : {s.nodes[i]} 2 <= i && i < len(s.nodes) ==> s.nodes[i].b == 0 && s.nodes[i].a == 0 || litIn(s.C, s.nodes[i].b));

func STrace(s *logic.S) =
  (forall t int : {sv(1, t)} 0 <= t ==> sv(1, t))
  && (forall i, t int : {s.nodes[i], sv(i, t)} 2 <= i && i < len(s.nodes) && 0 <= t && s.nodes[i].a >= 4 ==> (sv(i, t) <==> slit(s.nodes[i].a, t) && slit(s.nodes[i].b, t)))
  && (forall i int : {s.nodes[i], sv(i, 0)} 2 <= i && i < len(s.nodes) && s.nodes[i].a == 2 ==> sv(i, 0))
  && (forall i int : {s.nodes[i], sv(i, 0)} 2 <= i && i < len(s.nodes) && s.nodes[i].a == 3 ==> !sv(i, 0))
  && (forall i, t int : {s.nodes[i], sv(i, t)} 2 <= i && i < len(s.nodes) && 1 <= t && s.nodes[i].a < 4 && s.nodes[i].b != 0 ==> (sv(i, t) <==> slit(s.nodes[i].b, t - 1)));

// sfree: the value of signal i at time t is not determined: an input, or an
// uninitialised latch at time 0
func sfree(s *logic.S; i int; t int) = 2 <= i && s.nodes[i].a == 0 && (s.nodes[i].b == 0 || t == 0);

// the signal and the time to which an input of the unrolling belongs, and
// the variable whose row of dmap an array is
ghost rsig row;
ghost rtim row;
ghost rown row;

func RShape(u *logic.Roll) = u != nil && u.S != nil && SOk(u.S) && COk(u.C)
  && u.C != u.S.C && arr(u.C.nodes) != arr(u.S.nodes) && arr(u.C.strash) != arr(u.S.strash)
  && arr(u.dmap) != 0 && len(u.dmap) == len(u.S.nodes)
  && (forall v int : {u.dmap[v]} 0 <= v && v < len(u.dmap) && arr(u.dmap[v]) != 0 ==> rown[arr(u.dmap[v])] == v)
  && (forall v, t int : {u.dmap[v][t]} 1 <= v && v < len(u.dmap) && 0 <= t && t < len(u.dmap[v]) ==> litIn(u.C, u.dmap[v][t]))
  && (forall v, t int : {u.dmap[v][t]} 1 <= v && v < len(u.dmap) && 0 <= t && t < len(u.dmap[v]) && sfree(u.S, v, t) ==>
        rsig[lvar(u.dmap[v][t])] == v && rtim[lvar(u.dmap[v][t])] == t && lpos(u.dmap[v][t]) && 2 <= lvar(u.dmap[v][t]) && u.C.nodes[lvar(u.dmap[v][t])].a == 0);

// the inputs of the unrolling have the values of the free signals
func RMatch(u *logic.Roll) = forall v, t int : {u.dmap[v][t]} 1 <= v && v < len(u.dmap) && 0 <= t && t < len(u.dmap[v]) && sfree(u.S, v, t) ==> (lval(u.dmap[v][t]) <==> sv(v, t));
// the unrolling has the values of the run
func RVal(u *logic.Roll) = forall v, t int : {u.dmap[v][t]} 1 <= v && v < len(u.dmap) && 0 <= t && t < len(u.dmap[v]) ==> (lval(u.dmap[v][t]) <==> sv(v, t));
func RLink(u *logic.Roll) = Agree(u.C) && STrace(u.S) && RMatch(u) ==> RVal(u);

contract logic.NewRoll(s) (u) {
  requires SOk(s) && len(s.nodes) < 100000000;
  ensures RShape(u) && RLink(u) && fresh(u) && u.S == s;
  ensures forall v int : {u.dmap[v]} 0 <= v && v < len(u.dmap) ==> len(u.dmap[v]) == 0;
}

contract logic.Roll.Len(u, m) (n) {
  requires RShape(u) && lvar(m) < len(u.dmap);
  ensures n == len(u.dmap[lvar(m)]);
}
contract logic.Roll.MaxLen(u) (n) {
  requires RShape(u);
  ensures forall v int : {u.dmap[v]} 1 <= v && v < len(u.dmap) ==> len(u.dmap[v]) <= n;
  ensures n == 0 || (exists v int : {u.dmap[v]} 1 <= v && v < len(u.dmap) && len(u.dmap[v]) == n);
  loop 0 {
    invariant 1 <= i && i <= len(ns) && 0 <= max;
    invariant forall v int : {u.dmap[v]} 1 <= v && v < i ==> len(u.dmap[v]) <= max;
    invariant max == 0 || (exists v int : {u.dmap[v]} 1 <= v && v < len(u.dmap) && len(u.dmap[v]) == max);
  }
}

contract logic.Roll.At(u, m, d) (r) {
  requires RShape(u) && RLink(u);
  requires 2 <= m && lvar(m) < len(u.dmap) && 0 <= d && d < 4611686018427387904;
  decreases d, lvar(m);
  ensures RShape(u);
  ensures RLink(u);
  ensures litIn(u.C, r);
  ensures len(u.dmap[lvar(m)]) > d && r == (if lpos(m) then u.dmap[lvar(m)][d] else lnot(u.dmap[lvar(m)][d]));
  ensures val: Agree(u.C) && STrace(u.S) && RMatch(u) ==> (lval(r) <==> slit(m, d));
  ensures forall v int : {u.dmap[v]} {old(u.dmap[v])} 0 <= v && v < len(u.dmap) ==> len(u.dmap[v]) >= old(len(u.dmap[v]));
  ensures forall v int : {u.dmap[v]} {old(u.dmap[v])} 0 <= v && v < len(u.dmap) && old(len(u.dmap[v])) <= d ==> len(u.dmap[v]) <= d + 1;
  ensures forall v int : {u.dmap[v]} {old(u.dmap[v])} 0 <= v && v < len(u.dmap) && old(len(u.dmap[v])) > d ==> len(u.dmap[v]) == old(len(u.dmap[v]));
  ensures forall v int : {u.dmap[v]} {old(u.dmap[v])} lvar(m) < v && v < len(u.dmap) && old(len(u.dmap[v])) <= d ==> len(u.dmap[v]) <= d;
  ensures forall v, t int : {u.dmap[v][t]} {old(u.dmap[v][t])} 0 <= v && v < len(u.dmap) && 0 <= t && t < old(len(u.dmap[v])) ==> u.dmap[v][t] == old(u.dmap[v][t]);
  ensures Agree(u.C) ==> old(Agree(u.C));
  ensures forall i int : {u.C.nodes[i]} {old(u.C.nodes[i])} 0 <= i && i < old(len(u.C.nodes)) ==> u.C.nodes[i].a == old(u.C.nodes[i].a) && u.C.nodes[i].b == old(u.C.nodes[i].b);
  ensures len(u.C.nodes) >= old(len(u.C.nodes));
  ensures (arr(u.C.nodes) == old(arr(u.C.nodes)) || fresh(u.C.nodes)) && (arr(u.C.strash) == old(arr(u.C.strash)) || fresh(u.C.strash));
  modifies u.C.nodes, u.C.strash, elems(u.C.nodes), elems(u.C.strash), new elems(u.C.nodes), new elems(u.C.strash), elems(u.dmap), rows z.Lit, rsig, rtim, rown;
  at before logic.C.Lit { assume len(u.C.nodes) < 1073741824; }
  at after logic.C.Lit { ghost rsig[lvar(res0)] := lvar(m); ghost rtim[lvar(res0)] := d; }
  at before logic.C.And { assume len(u.C.nodes) < 1073741824; }
  at after logic.Roll.At { label R; }
  at return {
    ghost rown[arr(u.dmap[lvar(m)])] := lvar(m);
    assert forall v int : {u.dmap[v]} {at(R, u.dmap[v])} 0 <= v && v < len(u.dmap) && v != lvar(m) ==> u.dmap[v] == at(R, u.dmap[v]);
    assert forall v, t int : {u.dmap[v][t]} {at(R, u.dmap[v][t])} 0 <= v && v < len(u.dmap) && 0 <= t && t < at(R, len(u.dmap[v])) ==> u.dmap[v][t] == at(R, u.dmap[v][t]);
    assert forall v, t int : {u.dmap[v][t]} 0 <= v && v < len(u.dmap) && 0 <= t && t < len(u.dmap[v]) ==> t < at(R, len(u.dmap[v])) || v == lvar(m) && t == d;
    assert RMatch(u) ==> at(R, RMatch(u));
    assert Agree(u.C) ==> at(R, Agree(u.C));
    assert Agree(u.C) && STrace(u.S) && RMatch(u) ==> at(R, RVal(u));
    assert Agree(u.C) && STrace(u.S) && RMatch(u) ==> (forall v, t int : {u.dmap[v][t]} 1 <= v && v < len(u.dmap) && 0 <= t && t < at(R, len(u.dmap[v])) ==> (lval(u.dmap[v][t]) <==> sv(v, t)));
    assert Agree(u.C) && STrace(u.S) && RMatch(u) ==> (lval(u.dmap[lvar(m)][d]) <==> sv(lvar(m), d));
  }
}
property C15 { logic.NewRoll, logic.Roll.Len, logic.Roll.MaxLen, logic.Roll.At }

func isLatch(s *logic.S; m int) = 4 <= m && lvar(m) < len(s.nodes) && s.nodes[lvar(m)].a < 4 && s.nodes[lvar(m)].b != 0;

contract logic.NewS() (s) {
  ensures SOk(s) && fresh(s) && len(s.nodes) == 2 && len(s.Latches) == 0;
}
contract logic.NewSCap(capHint) (s) {
  requires capHint < 1073741824 && capHint >= 0;
  ensures SOk(s) && fresh(s) && len(s.nodes) == 2 && len(s.Latches) == 0;
}
contract logic.S.Copy(s) (d) {
  requires SOk(s);
  ensures SOk(d) && fresh(d) && fresh(d.nodes) && fresh(d.strash) && len(d.nodes) == len(s.nodes) && len(d.Latches) == len(s.Latches);
  ensures len(d.Latches) == 0 || arr(d.Latches) != arr(s.Latches);
  ensures forall i int : {d.nodes[i]} {s.nodes[i]} 0 <= i && i < len(s.nodes) ==> d.nodes[i].a == s.nodes[i].a && d.nodes[i].b == s.nodes[i].b;
  ensures forall i int : {d.Latches[i]} {s.Latches[i]} 0 <= i && i < len(s.Latches) ==> d.Latches[i] == s.Latches[i];
}
contract logic.S.Latch(s, init) (m) {
  requires SOk(s) && len(s.nodes) < 1073741824;
  ensures SOk(s) && m == mklit(old(len(s.nodes)), true) && len(s.nodes) == old(len(s.nodes)) + 1;
  ensures init == 0 || init == 2 || init == 3;
  ensures isLatch(s, m) && s.nodes[lvar(m)].a == init && s.nodes[lvar(m)].b == m;
  ensures forall i int : {s.nodes[i]} {old(s.nodes[i])} 0 <= i && i < old(len(s.nodes)) ==> s.nodes[i].a == old(s.nodes[i].a) && s.nodes[i].b == old(s.nodes[i].b);
  ensures len(s.Latches) == old(len(s.Latches)) + 1 && s.Latches[old(len(s.Latches))] == m;
  ensures forall i int : {s.Latches[i]} 0 <= i && i < old(len(s.Latches)) ==> s.Latches[i] == old(s.Latches[i]);
  modifies s.nodes, s.strash, elems(s.nodes), elems(s.strash), new elems(s.nodes), new elems(s.strash), s.Latches, elems(s.Latches), new elems(s.Latches);
}
contract logic.S.Next(s, m) (n) {
  requires SOk(s) && litIn(s.C, m);
  ensures n == s.nodes[lvar(m)].b;
}
contract logic.S.SetNext(s, m, nxt) {
  requires SOk(s) && isLatch(s, m) && litIn(s.C, nxt);
  ensures SOk(s) && isLatch(s, m) && s.nodes[lvar(m)].b == nxt && s.nodes[lvar(m)].a == old(s.nodes[lvar(m)].a);
  ensures forall i int : {s.nodes[i]} {old(s.nodes[i])} 0 <= i && i < len(s.nodes) && i != lvar(m) ==> s.nodes[i] == old(s.nodes[i]);
  modifies elems(s.nodes);
}
contract logic.S.Init(s, latch) (i) {
  requires SOk(s) && lvar(latch) < len(s.nodes);
  ensures i == s.nodes[lvar(latch)].a;
}
contract logic.S.SetInit(s, latch, init) {
  requires SOk(s) && isLatch(s, latch);
  ensures SOk(s) && isLatch(s, latch) && s.nodes[lvar(latch)].a == init && (init == 0 || init == 2 || init == 3) && s.nodes[lvar(latch)].b == old(s.nodes[lvar(latch)].b);
  ensures forall i int : {s.nodes[i]} {old(s.nodes[i])} 0 <= i && i < len(s.nodes) && i != lvar(latch) ==> s.nodes[i] == old(s.nodes[i]);
  modifies elems(s.nodes);
}
contract logic.S.Type(s, m) (t) {
  requires SOk(s) && litIn(s.C, m);
  ensures t == (if lvar(m) == 1 then 3 else if s.nodes[lvar(m)].a == 0 && s.nodes[lvar(m)].b == 0 then 0 else if s.nodes[lvar(m)].a < 4 then 2 else 1);
}
property C15 { logic.NewS, logic.NewSCap, logic.S.Copy, logic.S.Latch, logic.S.Next, logic.S.SetNext, logic.S.Init, logic.S.SetInit, logic.S.Type }
