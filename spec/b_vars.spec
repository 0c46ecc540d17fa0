// z.Vars: the bidirectional variable map.
//
// vapp is the set of variables handed out by Inner and not freed since, for
// the one *Vars under consideration.

ghost vapp set;

func apart(a []z.Var; b []z.Var) = arr(a) == 0 || arr(b) == 0 || arr(a) != arr(b);

func VarsOk(v *z.Vars) =
  v != nil
  && apart(v.i2o, v.o2i) && apart(v.i2o, v.free) && apart(v.o2i, v.free)
  && len(v.o2i) <= len(v.i2o) && len(v.i2o) < 2147483648
  && (forall o int : {v.o2i[o]} 0 <= o && o < len(v.o2i) ==> 0 <= v.o2i[o] && v.o2i[o] < len(v.i2o) && v.i2o[v.o2i[o]] == o)
  && (forall o int : {v.o2i[o]} 1 <= o && o < len(v.o2i) ==> 1 <= v.o2i[o])
  && (forall i int : {v.i2o[i]} 0 <= i && i < len(v.i2o) && v.i2o[i] != 0 ==> 1 <= v.i2o[i] && v.i2o[i] < len(v.o2i) && v.o2i[v.i2o[i]] == i);

func VarsApp(v *z.Vars) =
  (forall u int : {vapp[u]} vapp[u] ==> 1 <= u && u < len(v.i2o) && v.i2o[u] == 0 && !(len(v.o2i) > 0 && u == v.o2i[0]))
  && (forall k int : {v.free[k]} 0 <= k && k < len(v.free) ==> 1 <= v.free[k] && v.free[k] < len(v.i2o) && v.i2o[v.free[k]] == 0 && !vapp[v.free[k]] && !(len(v.o2i) > 0 && v.free[k] == v.o2i[0]))
  && (forall j, k : {v.free[j], v.free[k]} 0 <= j && j < k && k < len(v.free) ==> v.free[j] != v.free[k]);

contract z.Vars.ensureInnerCap(v, w) {
  requires VarsOk(v);
  requires w < 2147483647;
  ensures VarsOk(v);
  ensures len(v.i2o) == (if w < old(len(v.i2o)) then old(len(v.i2o)) else w + 1);
  ensures forall i int : {v.i2o[i]} 0 <= i && i < old(len(v.i2o)) ==> v.i2o[i] == old(v.i2o[i]);
  ensures forall i int : {v.i2o[i]} old(len(v.i2o)) <= i && i < len(v.i2o) ==> v.i2o[i] == 0;
  modifies v.i2o, elems(v.i2o), new elems(v.i2o);
  loop 0 {
    invariant VarsOk(v);
    invariant len(v.i2o) >= old(len(v.i2o)) && u == len(v.i2o) && (len(v.i2o) == old(len(v.i2o)) || u <= w + 1);
    invariant forall i int : {v.i2o[i]} 0 <= i && i < old(len(v.i2o)) ==> v.i2o[i] == old(v.i2o[i]);
    invariant forall i int : {v.i2o[i]} old(len(v.i2o)) <= i && i < len(v.i2o) ==> v.i2o[i] == 0;
  }
}

contract z.Vars.ensureOuterCap(v, w) {
  requires VarsOk(v);
  requires w < 2147483647 && len(v.i2o) + w < 2147483646;
  ensures VarsOk(v);
  ensures len(v.o2i) == (if w < old(len(v.o2i)) then old(len(v.o2i)) else w + 1);
  ensures len(v.i2o) - old(len(v.i2o)) == len(v.o2i) - old(len(v.o2i));
  ensures forall i int : {v.i2o[i]} 0 <= i && i < old(len(v.i2o)) ==> v.i2o[i] == old(v.i2o[i]);
  ensures forall i int : {v.o2i[i]} 0 <= i && i < old(len(v.o2i)) ==> v.o2i[i] == old(v.o2i[i]);
  ensures forall o int : {v.o2i[o]} old(len(v.o2i)) <= o && o < len(v.o2i) ==> v.o2i[o] >= old(len(v.i2o));
  modifies v.i2o, v.o2i, elems(v.i2o), elems(v.o2i), new elems(v.i2o), new elems(v.o2i);
  loop 0 {
    invariant VarsOk(v);
    invariant len(v.o2i) >= old(len(v.o2i)) && o == len(v.o2i) && (len(v.o2i) == old(len(v.o2i)) || o <= w + 1);
    invariant len(v.i2o) - old(len(v.i2o)) == len(v.o2i) - old(len(v.o2i));
    invariant forall i int : {v.i2o[i]} 0 <= i && i < old(len(v.i2o)) ==> v.i2o[i] == old(v.i2o[i]);
    invariant forall i int : {v.o2i[i]} 0 <= i && i < old(len(v.o2i)) ==> v.o2i[i] == old(v.o2i[i]);
    invariant forall o int : {v.o2i[o]} old(len(v.o2i)) <= o && o < len(v.o2i) ==> v.o2i[o] >= old(len(v.i2o));
  }
}

// the mapping of user variables never changes once made, variables of the
// application are disjoint from it, and the two directions are inverse
contract z.Vars.ToInner(v, m) (n) {
  requires VarsOk(v) && VarsApp(v);
  requires len(v.i2o) + lvar(m) < 2147483646;
  ensures VarsOk(v) && VarsApp(v);
  ensures lvar(m) < len(v.o2i) && n == mklit(v.o2i[lvar(m)], lpos(m));
  ensures lvar(m) < old(len(v.o2i)) ==> n == mklit(old(v.o2i[lvar(m)]), lpos(m));
  ensures forall i int : {v.o2i[i]} 0 <= i && i < old(len(v.o2i)) ==> v.o2i[i] == old(v.o2i[i]);
  ensures !vapp[lvar(n)];
  ensures lvar(m) >= 1 ==> lvar(n) >= 1 && lvar(n) < len(v.i2o) && v.i2o[lvar(n)] == lvar(m);
  modifies v.i2o, v.o2i, elems(v.i2o), elems(v.o2i), new elems(v.i2o), new elems(v.o2i);
}

contract z.Vars.ToOuter(v, m) (n) {
  requires VarsOk(v) && VarsApp(v);
  requires lvar(m) < 2147483647;
  ensures VarsOk(v) && VarsApp(v);
  ensures v.o2i == old(v.o2i);
  ensures vapp[lvar(m)] ==> n == 0;
  ensures n == 0 || (lvar(n) >= 1 && lvar(n) < len(v.o2i) && v.o2i[lvar(n)] == lvar(m) && (lpos(n) <==> lpos(m)));
  ensures forall o int : {v.o2i[o]} 1 <= o && o < len(v.o2i) && v.o2i[o] == lvar(m) ==> n == mklit(o, lpos(m));
  modifies v.i2o, elems(v.i2o), new elems(v.i2o);
}

contract z.Vars.Inner(v) (m) {
  requires VarsOk(v) && VarsApp(v);
  requires len(v.i2o) < 2147483646;
  ensures VarsOk(v) && VarsApp(v);
  ensures v.o2i == old(v.o2i);
  ensures lpos(m) && lvar(m) >= 1;
  ensures !old(vapp[lvar(m)]) && vapp == old(vapp)[lvar(m) := true];
  ensures forall o int : {v.o2i[o]} 0 <= o && o < len(v.o2i) ==> v.o2i[o] != lvar(m);
  modifies v.i2o, v.free, elems(v.i2o), new elems(v.i2o), vapp;
  at return { ghost vapp := vapp[lvar(m) := true]; }
}

contract z.Vars.Free(v, m) {
  requires VarsOk(v) && VarsApp(v);
  requires vapp[lvar(m)];
  ensures VarsOk(v) && VarsApp(v);
  ensures v.o2i == old(v.o2i) && v.i2o == old(v.i2o);
  ensures vapp == old(vapp)[lvar(m) := false];
  modifies v.free, elems(v.free), new elems(v.free), vapp;
  at return { ghost vapp := vapp[lvar(m) := false]; }
}

contract z.Vars.Copy(v) (o) {
  requires VarsOk(v) && VarsApp(v);
  ensures VarsOk(o) && VarsApp(o);
  ensures fresh(o) && o.i2o != v.i2o;
  ensures len(o.i2o) == len(v.i2o) && len(o.o2i) == len(v.o2i) && len(o.free) == len(v.free);
  ensures forall i int : {o.i2o[i]} 0 <= i && i < len(o.i2o) ==> o.i2o[i] == v.i2o[i];
  ensures forall i int : {o.o2i[i]} 0 <= i && i < len(o.o2i) ==> o.o2i[i] == v.o2i[i];
  ensures forall i int : {o.free[i]} 0 <= i && i < len(o.free) ==> o.free[i] == v.free[i];
  ensures arr(o.i2o) == 0 || arr(o.i2o) != arr(v.i2o);
  ensures arr(o.o2i) == 0 || arr(o.o2i) != arr(v.o2i);
  ensures arr(o.free) == 0 || arr(o.free) != arr(v.free);
}

property C18 {
  z.Vars.ToInner, z.Vars.ToOuter, z.Vars.Inner, z.Vars.Free, z.Vars.Copy
}
