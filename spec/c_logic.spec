// Combinational circuits (logic.C).
//
// asg is an arbitrary assignment of truth values to the variables; nothing
// changes it, so what is proved about it holds for every assignment.
// Agree(c): asg satisfies the defining equation of every gate of c.  Gates
// refer to smaller variables only, so every assignment of the inputs extends
// to exactly one asg with Agree(c).

ghost asg set;

func lval(m int) = (lpos(m) <==> asg[lvar(m)]);

func litIn(c *logic.C; m int) = 2 <= m && m < 4294967296 && lvar(m) < len(c.nodes);

func COk(c *logic.C) =
  c != nil && c.T == 2 && c.F == 3
  && arr(c.nodes) != 0 && arr(c.strash) != 0
  && 2 <= len(c.nodes) && cap(c.nodes) <= len(c.strash) && cap(c.nodes) < 2147483648
  && (forall i int : {c.nodes[i]} 0 <= i && i < len(c.nodes) ==> c.nodes[i].n == 0 || c.nodes[i].n < i)
  && (forall i int : {c.nodes[i]} 0 <= i && i < 2 ==> c.nodes[i].a == 0 && c.nodes[i].b == 0)
  && (forall i int : {c.nodes[i]} 2 <= i && i < len(c.nodes) ==> c.nodes[i].a == 0 || c.nodes[i].a == 2 || c.nodes[i].a == 3 || c.nodes[i].a >= 4 && c.nodes[i].b >= 4)
  && (forall i int : {c.nodes[i]} 2 <= i && i < len(c.nodes) && c.nodes[i].a >= 4 ==> lvar(c.nodes[i].a) < i && lvar(c.nodes[i].b) < i && c.nodes[i].a < c.nodes[i].b)
  && (forall i int : {c.nodes[i]} len(c.nodes) <= i && i < cap(c.nodes) ==> c.nodes[i].a == 0 && c.nodes[i].b == 0 && c.nodes[i].n == 0)
  && (forall k int : {c.strash[k]} 0 <= k && k < len(c.strash) ==> c.strash[k] < len(c.nodes));

func Agree(c *logic.C) =
  asg[1] && (forall i int : {c.nodes[i]} 2 <= i && i < len(c.nodes) && c.nodes[i].a >= 4 ==> (asg[i] <==> lval(c.nodes[i].a) && lval(c.nodes[i].b)));

contract logic.strashCode(a, b) (h) {
}

contract logic.C.grow(p) {
  requires COk(p) && len(p.nodes) == cap(p.nodes) && cap(p.nodes) < 1073741824;
  ensures COk(p);
  ensures (arr(p.nodes) == old(arr(p.nodes)) || fresh(p.nodes)) && (arr(p.strash) == old(arr(p.strash)) || fresh(p.strash));
  ensures len(p.nodes) == old(len(p.nodes)) && len(p.nodes) < cap(p.nodes);
  ensures forall i int : {p.nodes[i]} {old(p.nodes[i])} 0 <= i && i < len(p.nodes) ==> p.nodes[i].a == old(p.nodes[i].a) && p.nodes[i].b == old(p.nodes[i].b);
  modifies p.nodes, p.strash, new elems(p.nodes), new elems(p.strash);
  loop 0 {
    invariant forall i int : {nodes[i]} 0 <= i && i < len(nodes) ==> nodes[i].a == p.nodes[i].a && nodes[i].b == p.nodes[i].b;
    invariant forall i int : {nodes[i]} len(nodes) <= i && i < cap(nodes) ==> nodes[i].a == 0 && nodes[i].b == 0 && nodes[i].n == 0;
    invariant forall i int : {nodes[i]} 0 <= i && i < len(nodes) ==> nodes[i].n == 0 || nodes[i].n < i;
    invariant forall k int : {strash[k]} 0 <= k && k < len(strash) ==> strash[k] == 0 || strash[k] < iter;
  }
}


contract logic.C.newNode(c) (n, id) {
  inline;
}

contract logic.C.Lit(c) (m) {
  requires COk(c) && len(c.nodes) < 1073741824;
  ensures COk(c);
  ensures (arr(c.nodes) == old(arr(c.nodes)) || fresh(c.nodes)) && (arr(c.strash) == old(arr(c.strash)) || fresh(c.strash));
  ensures m == mklit(old(len(c.nodes)), true) && len(c.nodes) == old(len(c.nodes)) + 1;
  ensures c.nodes[lvar(m)].a == 0;
  ensures forall i int : {c.nodes[i]} {old(c.nodes[i])} 0 <= i && i < old(len(c.nodes)) ==> c.nodes[i].a == old(c.nodes[i].a) && c.nodes[i].b == old(c.nodes[i].b);
  ensures Agree(c) ==> old(Agree(c));
  at return { assert forall i int : {c.nodes[i]} {old(c.nodes[i])} 0 <= i && i < old(len(c.nodes)) ==> c.nodes[i].a == old(c.nodes[i].a) && c.nodes[i].b == old(c.nodes[i].b); }
  modifies c.nodes, c.strash, elems(c.nodes), elems(c.strash), new elems(c.nodes), new elems(c.strash);
}

// And: the literal returned has the value of the conjunction in every
// assignment which agrees with the circuit afterwards; the nodes which were
// there before are as they were.
contract logic.C.And(p, a, b) (r) {
  requires COk(p) && len(p.nodes) < 1073741824;
  requires litIn(p, a) && litIn(p, b);
  ensures COk(p);
  ensures (arr(p.nodes) == old(arr(p.nodes)) || fresh(p.nodes)) && (arr(p.strash) == old(arr(p.strash)) || fresh(p.strash));
  ensures len(p.nodes) >= old(len(p.nodes)) && len(p.nodes) <= old(len(p.nodes)) + 1;
  ensures forall i int : {p.nodes[i]} {old(p.nodes[i])} 0 <= i && i < old(len(p.nodes)) ==> p.nodes[i].a == old(p.nodes[i].a) && p.nodes[i].b == old(p.nodes[i].b);
  ensures litIn(p, r);
  ensures Agree(p) ==> old(Agree(p));
  ensures Agree(p) ==> (lval(r) <==> lval(a) && lval(b));
  at return { assert forall i int : {p.nodes[i]} {old(p.nodes[i])} 0 <= i && i < old(len(p.nodes)) ==> p.nodes[i].a == old(p.nodes[i].a) && p.nodes[i].b == old(p.nodes[i].b); }
  modifies p.nodes, p.strash, elems(p.nodes), elems(p.strash), new elems(p.nodes), new elems(p.strash);
  loop 0 {
    invariant 0 <= si && si < len(p.nodes);
    decreases si;
  }
}

property C11 { logic.C.grow, logic.C.Lit, logic.C.And }

contract logic.initC(c, capHint) {
  requires c != nil && capHint < 1073741824;
  requires capHint > -1073741824;
  ensures COk(c) && len(c.nodes) == 2 && fresh(c.nodes) && fresh(c.strash);
  modifies c.*;
}
contract logic.NewC() (c) {
  ensures COk(c) && len(c.nodes) == 2 && fresh(c) && fresh(c.nodes) && fresh(c.strash);
}
contract logic.NewCCap(capHint) (c) {
  requires capHint < 1073741824 && capHint > -1073741824;
  ensures COk(c) && len(c.nodes) == 2 && fresh(c) && fresh(c.nodes) && fresh(c.strash);
}
contract logic.C.Copy(c) (d) {
  requires COk(c);
  ensures COk(d) && fresh(d) && fresh(d.nodes) && fresh(d.strash);
  ensures len(d.nodes) == len(c.nodes);
  ensures forall i int : {d.nodes[i]} {c.nodes[i]} 0 <= i && i < len(c.nodes) ==> d.nodes[i].a == c.nodes[i].a && d.nodes[i].b == c.nodes[i].b;
  ensures Agree(d) <==> Agree(c);
  at return { assert Agree(c) ==> Agree(result); assert Agree(result) ==> Agree(c); }
}
contract logic.C.Ins(c, m) (a, b) {
  requires COk(c) && lvar(m) < len(c.nodes);
  ensures a == c.nodes[lvar(m)].a && b == c.nodes[lvar(m)].b;
}
contract logic.C.At(c, i) (m) {
  requires 0 <= i && i < 2147483648;
  ensures m == mklit(i, true);
}
contract logic.C.Len(c) (n) {
  ensures n == len(c.nodes);
}
contract logic.C.Or(c, a, b) (r) {
  requires COk(c) && len(c.nodes) < 1073741824;
  requires litIn(c, a) && litIn(c, b);
  ensures COk(c);
  ensures (arr(c.nodes) == old(arr(c.nodes)) || fresh(c.nodes)) && (arr(c.strash) == old(arr(c.strash)) || fresh(c.strash));
  ensures len(c.nodes) >= old(len(c.nodes)) && len(c.nodes) <= old(len(c.nodes)) + 1;
  ensures forall i int : {c.nodes[i]} {old(c.nodes[i])} 0 <= i && i < old(len(c.nodes)) ==> c.nodes[i].a == old(c.nodes[i].a) && c.nodes[i].b == old(c.nodes[i].b);
  ensures litIn(c, r);
  ensures Agree(c) ==> old(Agree(c));
  ensures Agree(c) ==> (lval(r) <==> lval(a) || lval(b));
  modifies c.nodes, c.strash, elems(c.nodes), elems(c.strash), new elems(c.nodes), new elems(c.strash);
}
contract logic.C.Implies(c, a, b) (r) {
  requires COk(c) && len(c.nodes) < 1073741824;
  requires litIn(c, a) && litIn(c, b);
  ensures COk(c);
  ensures (arr(c.nodes) == old(arr(c.nodes)) || fresh(c.nodes)) && (arr(c.strash) == old(arr(c.strash)) || fresh(c.strash));
  ensures len(c.nodes) >= old(len(c.nodes)) && len(c.nodes) <= old(len(c.nodes)) + 1;
  ensures forall i int : {c.nodes[i]} {old(c.nodes[i])} 0 <= i && i < old(len(c.nodes)) ==> c.nodes[i].a == old(c.nodes[i].a) && c.nodes[i].b == old(c.nodes[i].b);
  ensures litIn(c, r);
  ensures Agree(c) ==> old(Agree(c));
  ensures Agree(c) ==> (lval(r) <==> (lval(a) ==> lval(b)));
  modifies c.nodes, c.strash, elems(c.nodes), elems(c.strash), new elems(c.nodes), new elems(c.strash);
}
contract logic.C.Xor(c, a, b) (r) {
  requires COk(c) && len(c.nodes) < 1073741000;
  requires litIn(c, a) && litIn(c, b);
  ensures COk(c);
  ensures (arr(c.nodes) == old(arr(c.nodes)) || fresh(c.nodes)) && (arr(c.strash) == old(arr(c.strash)) || fresh(c.strash));
  ensures len(c.nodes) >= old(len(c.nodes)) && len(c.nodes) <= old(len(c.nodes)) + 3;
  ensures forall i int : {c.nodes[i]} {old(c.nodes[i])} 0 <= i && i < old(len(c.nodes)) ==> c.nodes[i].a == old(c.nodes[i].a) && c.nodes[i].b == old(c.nodes[i].b);
  ensures litIn(c, r);
  ensures Agree(c) ==> old(Agree(c));
  ensures Agree(c) ==> (lval(r) <==> !(lval(a) <==> lval(b)));
  modifies c.nodes, c.strash, elems(c.nodes), elems(c.strash), new elems(c.nodes), new elems(c.strash);
}
contract logic.C.Choice(c, i, t, e) (r) {
  requires COk(c) && len(c.nodes) < 1073741000;
  requires litIn(c, i) && litIn(c, t) && litIn(c, e);
  ensures COk(c);
  ensures (arr(c.nodes) == old(arr(c.nodes)) || fresh(c.nodes)) && (arr(c.strash) == old(arr(c.strash)) || fresh(c.strash));
  ensures len(c.nodes) >= old(len(c.nodes)) && len(c.nodes) <= old(len(c.nodes)) + 3;
  ensures forall i int : {c.nodes[i]} {old(c.nodes[i])} 0 <= i && i < old(len(c.nodes)) ==> c.nodes[i].a == old(c.nodes[i].a) && c.nodes[i].b == old(c.nodes[i].b);
  ensures litIn(c, r);
  ensures Agree(c) ==> old(Agree(c));
  ensures Agree(c) ==> (lval(r) <==> (if lval(i) then lval(t) else lval(e)));
  modifies c.nodes, c.strash, elems(c.nodes), elems(c.strash), new elems(c.nodes), new elems(c.strash);
}
contract logic.C.Ands(c, ms) (r) {
  requires COk(c) && len(c.nodes) + len(ms) < 1073741824;
  requires forall k int : {ms[k]} 0 <= k && k < len(ms) ==> litIn(c, ms[k]);
  ensures COk(c);
  ensures (arr(c.nodes) == old(arr(c.nodes)) || fresh(c.nodes)) && (arr(c.strash) == old(arr(c.strash)) || fresh(c.strash));
  ensures len(c.nodes) >= old(len(c.nodes)) && len(c.nodes) <= old(len(c.nodes)) + len(ms);
  ensures forall i int : {c.nodes[i]} {old(c.nodes[i])} 0 <= i && i < old(len(c.nodes)) ==> c.nodes[i].a == old(c.nodes[i].a) && c.nodes[i].b == old(c.nodes[i].b);
  ensures litIn(c, r);
  ensures Agree(c) ==> old(Agree(c));
  ensures Agree(c) ==> (lval(r) <==> (forall k int : {ms[k]} 0 <= k && k < len(ms) ==> lval(ms[k])));
  modifies c.nodes, c.strash, elems(c.nodes), elems(c.strash), new elems(c.nodes), new elems(c.strash);
  loop 0 {
    invariant COk(c);
    invariant (arr(c.nodes) == old(arr(c.nodes)) || fresh(c.nodes)) && (arr(c.strash) == old(arr(c.strash)) || fresh(c.strash));
    invariant len(c.nodes) >= old(len(c.nodes)) && len(c.nodes) <= old(len(c.nodes)) + iter;
    invariant forall i int : {c.nodes[i]} {old(c.nodes[i])} 0 <= i && i < old(len(c.nodes)) ==> c.nodes[i].a == old(c.nodes[i].a) && c.nodes[i].b == old(c.nodes[i].b);
    invariant litIn(c, a);
    invariant Agree(c) ==> old(Agree(c));
    invariant Agree(c) ==> (lval(a) <==> (forall k int : {ms[k]} 0 <= k && k < iter ==> lval(ms[k])));
  }
}
contract logic.C.Ors(c, ms) (r) {
  requires COk(c) && len(c.nodes) + len(ms) < 1073741824;
  requires forall k int : {ms[k]} 0 <= k && k < len(ms) ==> litIn(c, ms[k]);
  ensures COk(c);
  ensures (arr(c.nodes) == old(arr(c.nodes)) || fresh(c.nodes)) && (arr(c.strash) == old(arr(c.strash)) || fresh(c.strash));
  ensures len(c.nodes) >= old(len(c.nodes)) && len(c.nodes) <= old(len(c.nodes)) + len(ms);
  ensures forall i int : {c.nodes[i]} {old(c.nodes[i])} 0 <= i && i < old(len(c.nodes)) ==> c.nodes[i].a == old(c.nodes[i].a) && c.nodes[i].b == old(c.nodes[i].b);
  ensures litIn(c, r);
  ensures Agree(c) ==> old(Agree(c));
  ensures Agree(c) ==> (lval(r) <==> (exists k int : {ms[k]} 0 <= k && k < len(ms) && lval(ms[k])));
  modifies c.nodes, c.strash, elems(c.nodes), elems(c.strash), new elems(c.nodes), new elems(c.strash);
  loop 0 {
    invariant COk(c);
    invariant (arr(c.nodes) == old(arr(c.nodes)) || fresh(c.nodes)) && (arr(c.strash) == old(arr(c.strash)) || fresh(c.strash));
    invariant len(c.nodes) >= old(len(c.nodes)) && len(c.nodes) <= old(len(c.nodes)) + iter;
    invariant forall i int : {c.nodes[i]} {old(c.nodes[i])} 0 <= i && i < old(len(c.nodes)) ==> c.nodes[i].a == old(c.nodes[i].a) && c.nodes[i].b == old(c.nodes[i].b);
    invariant litIn(c, d);
    invariant Agree(c) ==> old(Agree(c));
    invariant Agree(c) ==> (lval(d) <==> (exists k int : {ms[k]} 0 <= k && k < iter && lval(ms[k])));
  }
}

property C11 { logic.NewC, logic.NewCCap, logic.C.Copy, logic.C.Ins, logic.C.At, logic.C.Len, logic.C.Or, logic.C.Implies, logic.C.Xor, logic.C.Choice, logic.C.Ands, logic.C.Ors }

// Eval: the values computed satisfy the equation of every gate, inputs keep
// theirs; so they are those of the one assignment which agrees with the
// circuit and has these inputs.
func vlit(vs []bool; m int) = (lpos(m) <==> vs[lvar(m)]);

contract logic.C.Eval(c, vs) {
  requires COk(c) && len(vs) >= len(c.nodes) && arr(vs) != 0;
  ensures vs[1];
  ensures forall i int : {c.nodes[i]} 2 <= i && i < len(c.nodes) && c.nodes[i].a >= 4 ==> (vs[i] <==> vlit(vs, c.nodes[i].a) && vlit(vs, c.nodes[i].b));
  ensures forall i int : {vs[i]} len(c.nodes) <= i && i < len(vs) ==> vs[i] == old(vs[i]);
  ensures forall i int : {c.nodes[i]} 2 <= i && i < len(c.nodes) && c.nodes[i].a < 4 ==> vs[i] == old(vs[i]);
  ensures Agree(c) && (forall i int : {old(vs[i])} 2 <= i && i < len(c.nodes) && c.nodes[i].a < 4 ==> old(vs[i]) == asg[i]) ==> (forall i int : {vs[i]} 1 <= i && i < len(c.nodes) ==> vs[i] == asg[i]);
  modifies elems(vs);
  loop 0 {
    invariant 2 <= i && i <= N && N == len(c.nodes);
    invariant vs[1];
    invariant forall j int : {c.nodes[j]} 2 <= j && j < i && c.nodes[j].a >= 4 ==> (vs[j] <==> vlit(vs, c.nodes[j].a) && vlit(vs, c.nodes[j].b));
    invariant forall j int : {vs[j]} i <= j && j < len(vs) ==> vs[j] == old(vs[j]);
    invariant forall j int : {c.nodes[j]} 2 <= j && j < i && c.nodes[j].a < 4 ==> vs[j] == old(vs[j]);
    invariant Agree(c) && (forall i int : {old(vs[i])} 2 <= i && i < len(c.nodes) && c.nodes[i].a < 4 ==> old(vs[i]) == asg[i]) ==> (forall j int : {vs[j]} 1 <= j && j < i ==> vs[j] == asg[j]);
  }
}

// Eval64: bitk is an arbitrary bit position
ghost bitk int;
func v64(vs []uint64; i int) = bitat(vs[i], bitk);
func vlit64(vs []uint64; m int) = (lpos(m) <==> bitat(vs[lvar(m)], bitk));

contract logic.C.Eval64(c, vs) {
  requires COk(c) && len(vs) >= len(c.nodes) && arr(vs) != 0;
  requires 0 <= bitk && bitk < 64;
  ensures bitat(vs[1], bitk);
  ensures forall i int : {c.nodes[i]} 2 <= i && i < len(c.nodes) && c.nodes[i].a >= 4 ==> (bitat(vs[i], bitk) <==> vlit64(vs, c.nodes[i].a) && vlit64(vs, c.nodes[i].b));
  ensures forall i int : {vs[i]} len(c.nodes) <= i && i < len(vs) ==> vs[i] == old(vs[i]);
  ensures forall i int : {c.nodes[i]} 2 <= i && i < len(c.nodes) && c.nodes[i].a < 4 ==> vs[i] == old(vs[i]);
  ensures Agree(c) && (forall i int : {old(vs[i])} 2 <= i && i < len(c.nodes) && c.nodes[i].a < 4 ==> (bitat(old(vs[i]), bitk) <==> asg[i])) ==> (forall i int : {vs[i]} 1 <= i && i < len(c.nodes) ==> (bitat(vs[i], bitk) <==> asg[i]));
  modifies elems(vs);
  loop 0 {
    invariant 2 <= i && i <= N && N == len(c.nodes);
    invariant bitat(vs[1], bitk);
    invariant forall j int : {c.nodes[j]} 2 <= j && j < i && c.nodes[j].a >= 4 ==> (bitat(vs[j], bitk) <==> vlit64(vs, c.nodes[j].a) && vlit64(vs, c.nodes[j].b));
    invariant forall j int : {vs[j]} i <= j && j < len(vs) ==> vs[j] == old(vs[j]);
    invariant forall j int : {c.nodes[j]} 2 <= j && j < i && c.nodes[j].a < 4 ==> vs[j] == old(vs[j]);
    invariant Agree(c) && (forall i int : {old(vs[i])} 2 <= i && i < len(c.nodes) && c.nodes[i].a < 4 ==> (bitat(old(vs[i]), bitk) <==> asg[i])) ==> (forall j int : {vs[j]} 1 <= j && j < i ==> (bitat(vs[j], bitk) <==> asg[j]));
  }
}
property C13 { logic.C.Eval, logic.C.Eval64, logic.C.Lit, logic.C.And }
