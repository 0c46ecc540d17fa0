// CNF conversion (logic.C.ToCnf, ToCnfFrom, CnfSince).
//
// The environment's adder: acur says that a literal of the clause being
// added is true under asg, apend that the clause has literals, aall that all
// complete clauses are true.  An adder is not the circuit: Add changes
// nothing else.
ghost acur bool;
ghost apend bool;
ghost aall bool;

contract inter.Adder.Add(dst, m) {
  trusted;
  ensures m == 0 ==> (aall <==> old(aall) && old(acur)) && !acur && !apend;
  ensures m != 0 ==> (aall <==> old(aall)) && (acur <==> old(acur) || lval(m)) && apend;
  modifies acur, apend, aall;
}

func isGate(c *logic.C; i int) = c.nodes[i].a >= 4;
func Eqn(c *logic.C; i int) = (asg[i] <==> lval(c.nodes[i].a) && lval(c.nodes[i].b));

contract logic.addAnd(dst, g, a, b) {
  requires !acur && !apend && g >= 2 && a >= 2 && b >= 2;
  ensures !acur && !apend;
  ensures aall <==> old(aall) && (lval(g) <==> lval(a) && lval(b));
  modifies acur, apend, aall;
}

contract logic.C.ToCnf(c, dst) {
  requires COk(c) && !acur && !apend;
  ensures !acur && !apend;
  ensures aall <==> old(aall) && Agree(c);
  modifies acur, apend, aall;
  loop 0 {
    invariant 1 <= i && i <= e && e == len(c.nodes);
    invariant !acur && !apend;
    invariant aall <==> old(aall) && asg[1] && (forall j int : {c.nodes[j]} 2 <= j && j < i && c.nodes[j].a >= 4 ==> (asg[j] <==> lval(c.nodes[j].a) && lval(c.nodes[j].b)));
  }
}

// Closed: with a gate its arguments are marked too
func Closed(c *logic.C; mark []int8) = mark[1] == 1 &&
  (forall j int : {c.nodes[j]} 2 <= j && j < len(c.nodes) && c.nodes[j].a >= 4 && mark[j] == 1 ==> mark[lvar(c.nodes[j].a)] == 1 && mark[lvar(c.nodes[j].b)] == 1);

contract logic.C.CnfSince$1(m) {
  requires COk(c) && litIn(c, m) && len(mark) == len(c.nodes) && arr(mark) != 0;
  requires Closed(c, mark);
  requires !acur && !apend;
  ensures !acur && !apend && Closed(c, mark) && mark[lvar(m)] == 1;
  ensures forall j int : {mark[j]} {old(mark[j])} 0 <= j && j < len(mark) && old(mark[j]) == 1 ==> mark[j] == 1;
  ensures aall <==> old(aall) && (forall j int : {c.nodes[j]} 2 <= j && j < len(c.nodes) && c.nodes[j].a >= 4 && mark[j] == 1 && old(mark[j]) != 1 ==> (asg[j] <==> lval(c.nodes[j].a) && lval(c.nodes[j].b)));
  modifies elems(mark), ttl, acur, apend, aall;
}

property C12 { logic.addAnd, logic.C.ToCnf, logic.C.CnfSince$1 }

// The equations of a closed set of marked gates determine the values there:
// vs is what the circuit computes from the inputs, asg satisfies the
// equations of the marked gates and has the inputs of vs.
ghost evs set;
func EvalOf(c *logic.C) = evs[1]
  && (forall j int : {c.nodes[j]} 2 <= j && j < len(c.nodes) && c.nodes[j].a >= 4 ==> (evs[j] <==> (lpos(c.nodes[j].a) <==> evs[lvar(c.nodes[j].a)]) && (lpos(c.nodes[j].b) <==> evs[lvar(c.nodes[j].b)])))
  && (forall j int : {c.nodes[j]} 2 <= j && j < len(c.nodes) && c.nodes[j].a < 4 ==> (asg[j] <==> evs[j]));
lemma closed_determines(c *logic.C; mark []int8; n int) {
  requires COk(c) && len(mark) == len(c.nodes) && Closed(c, mark) && 0 <= n && n <= len(c.nodes);
  requires asg[1] && EvalOf(c);
  requires forall j int : {c.nodes[j]} 2 <= j && j < len(c.nodes) && c.nodes[j].a >= 4 && mark[j] == 1 ==> (asg[j] <==> lval(c.nodes[j].a) && lval(c.nodes[j].b));
  ensures forall v int : {mark[v]} 1 <= v && v < n && mark[v] == 1 ==> (asg[v] <==> evs[v]);
  induct n;
}

contract logic.C.CnfSince(c, dst, mark, roots) (nm, ttl) {
  requires COk(c) && !acur && !apend;
  requires forall k int : {roots[k]} 0 <= k && k < len(roots) ==> litIn(c, roots[k]);
  requires forall j int : {c.nodes[j]} 2 <= j && j < len(c.nodes) && j < len(mark) && c.nodes[j].a >= 4 && mark[j] == 1 ==> mark[lvar(c.nodes[j].a)] == 1 && mark[lvar(c.nodes[j].b)] == 1;
  ensures !acur && !apend;
  ensures len(nm) == len(c.nodes) && Closed(c, nm);
  ensures forall k int : {roots[k]} 0 <= k && k < len(roots) ==> nm[lvar(roots[k])] == 1;
  ensures forall j int : {nm[j]} {old(mark[j])} 0 <= j && j < len(nm) && j < old(len(mark)) && old(mark[j]) == 1 ==> nm[j] == 1;
  ensures aall <==> old(aall) && (old(len(mark)) > 1 && old(mark[1]) == 1 || asg[1]) && (forall j int : {c.nodes[j]} 2 <= j && j < len(c.nodes) && c.nodes[j].a >= 4 && nm[j] == 1 && !(j < old(len(mark)) && old(mark[j]) == 1) ==> (asg[j] <==> lval(c.nodes[j].a) && lval(c.nodes[j].b)));
  ensures arr(nm) == arr(mark) || fresh(nm);
  ensures old(len(mark)) == 0 && aall && EvalOf(c) ==> (forall k int : {roots[k]} 0 <= k && k < len(roots) ==> (asg[lvar(roots[k])] <==> evs[lvar(roots[k])]));
  at return { have closed_determines(c, nm, len(c.nodes)); }
  modifies elems(mark), acur, apend, aall;
  loop 0 {
    invariant start <= i && i <= len(c.nodes) && len(mark) == len(c.nodes) && start == old(len(mark));
    invariant forall j int : {mark[j]} {old(mark[j])} 0 <= j && j < start ==> mark[j] == old(mark[j]);
    invariant forall j int : {mark[j]} start <= j && j < i ==> mark[j] == 0;
  }
  loop 1 {
    invariant len(mark) == len(c.nodes) && arr(mark) != 0;
    invariant Closed(c, mark) && !acur && !apend;
    invariant forall k int : {roots[k]} 0 <= k && k < iter ==> mark[lvar(roots[k])] == 1;
    invariant forall j int : {mark[j]} {old(mark[j])} 0 <= j && j < len(mark) && j < old(len(mark)) && old(mark[j]) == 1 ==> mark[j] == 1;
    invariant aall <==> old(aall) && (old(len(mark)) > 1 && old(mark[1]) == 1 || asg[1]) && (forall j int : {c.nodes[j]} 2 <= j && j < len(c.nodes) && c.nodes[j].a >= 4 && mark[j] == 1 && !(j < old(len(mark)) && old(mark[j]) == 1) ==> (asg[j] <==> lval(c.nodes[j].a) && lval(c.nodes[j].b)));
  }
}

// ToCnfFrom: satisfied by every assignment which agrees with the circuit.
contract logic.C.ToCnfFrom(c, dst, roots) {
  requires COk(c) && !acur && !apend;
  requires forall k int : {roots[k]} 0 <= k && k < len(roots) ==> litIn(c, roots[k]);
  ensures !acur && !apend;
  ensures Agree(c) && old(aall) ==> aall;
  ensures aall && EvalOf(c) ==> (forall k int : {roots[k]} 0 <= k && k < len(roots) ==> (lval(roots[k]) <==> (lpos(roots[k]) <==> evs[lvar(roots[k])])));
  modifies acur, apend, aall;
}

property C12 { logic.C.CnfSince, logic.C.ToCnfFrom }
