// Clause memory (xo.Chd, xo.Watch, xo.CDat).
//
// cls is the set of clause locations in the memory, cend the index of the
// terminator of each.
ghost cls set;
ghost cend row;

func csize(h int) int = h % 32;
func clearnt(h int) bool = h >= 2147483648;
func clbd(h int) int = (h / 32) % 16;
func cheat(h int) int = (h / 512) % 4194304;

contract xo.MakeChd(learnt, lbd, sz) (h) {
  bv;
  requires 0 <= lbd && 0 <= sz;
  ensures csize(h) == sz % 32;
  ensures clearnt(h) <==> learnt;
  ensures clbd(h) == lbd % 16;
  ensures cheat(h) == 0;
}
contract xo.Chd.Size(c) (r) {
  bv;
  ensures r == csize(c);
}
contract xo.Chd.Lbd(c) (r) {
  bv;
  ensures r == clbd(c);
}
contract xo.Chd.Learnt(c) (r) {
  bv;
  ensures r <==> clearnt(c);
}
contract xo.Chd.Heat(c) (r) {
  bv;
  ensures r == cheat(c);
}
contract xo.Chd.Bump(c, n) (r, full) {
  bv;
  ensures csize(r) == csize(c) && clbd(r) == clbd(c) && (clearnt(r) <==> clearnt(c));
  ensures cheat(r) == (if cheat(c) + n > 4194303 then 4194303 else cheat(c) + n);
  ensures full <==> cheat(r) == 4194303;
}
contract xo.Chd.Decay(c) (r) {
  bv;
  ensures csize(r) == csize(c) && clbd(r) == clbd(c) && (clearnt(r) <==> clearnt(c));
  ensures cheat(r) == cheat(c) / 2;
}

// Watches: location, blocking literal, binary flag.
opaque func wloc(w int) int = (w / 2147483648) % 4294967296;
opaque func woth(w int) int = w % 2147483648;
opaque func wbin(w int) bool = w >= 9223372036854775808;
contract xo.MakeWatch(loc, o, isBin) (w) {
  bv;
  requires o < 2147483648;
  ensures wloc(w) == loc && woth(w) == o && (wbin(w) <==> isBin);
  reveal wloc, woth, wbin;
}
contract xo.Watch.Other(w) (m) {
  bv;
  ensures m == woth(w);
  reveal woth;
}
contract xo.Watch.IsBinary(w) (b) {
  bv;
  ensures b <==> wbin(w);
  reveal wbin;
}
contract xo.Watch.C(w) (p) {
  bv;
  ensures p == wloc(w);
  reveal wloc;
}
contract xo.Watch.Relocate(w, o) (r) {
  bv;
  ensures wloc(r) == o && woth(r) == woth(w) && (wbin(r) <==> wbin(w));
  reveal wloc, woth, wbin;
}


// a tag to instantiate the contiguity of the memory by hand
opaque func ctg(p int) bool = true;
lemma ctg_true(p int) {
  ensures ctg(p);
  reveal ctg;
}
lemma or5(i int; s int) {
  bv;
  requires 0 <= i && i < 1099511627776 && 0 <= s && s < 32;
  ensures ((32 * i) | s) == 32 * i + s;
}

// where element i of a clause now at q was when the clause was at p
opaque func sft(i int; q int; p int) int = i - q + p;
lemma sft_def(i int; q int; p int) {
  ensures sft(i, q, p) == i - q + p;
  auto {sft(i, q, p)};
  reveal sft;
}

// the elements p..e-1 seen at offset o of row r are literals
opaque func LitsAt(r row; o int; p int; e int) = forall i int : {r[ix(o, i)]} p <= i && i < e ==> r[ix(o, i)] >= 2;
lemma lits_get(r row; o int; p int; e int; i int) {
  requires LitsAt(r, o, p, e) && p <= i && i < e;
  ensures r[ix(o, i)] >= 2;
  auto {LitsAt(r, o, p, e), r[ix(o, i)]};
  reveal LitsAt;
}
lemma lits_frame(r row; o int; s row; u int; p int; e int) {
  requires LitsAt(s, u, p, e);
  requires forall i int : {r[ix(o, i)]} {s[ix(u, i)]} p <= i && i < e ==> r[ix(o, i)] == s[ix(u, i)];
  ensures LitsAt(r, o, p, e);
  auto {LitsAt(r, o, p, e), LitsAt(s, u, p, e)};
  reveal LitsAt;
}
lemma lits_new(r row; o int; p int; e int) {
  requires forall i int : {r[ix(o, i)]} p <= i && i < e ==> r[ix(o, i)] >= 2;
  ensures LitsAt(r, o, p, e);
  reveal LitsAt;
}
lemma lits_swap(d row; c row; o int; p int; e int; x int; y int) {
  requires LitsAt(c, o, p, e);
  requires p <= x && x < e && p <= y && y < e && d[ix(o, x)] == c[ix(o, y)] && d[ix(o, y)] == c[ix(o, x)];
  requires forall i int : {d[ix(o, i)]} {c[ix(o, i)]} p <= i && i < e && i != x && i != y ==> d[ix(o, i)] == c[ix(o, i)];
  ensures LitsAt(d, o, p, e);
  reveal LitsAt;
}
// the clause of n literals at q of r is the one at p of s
opaque func SameAt(r row; o int; q int; s row; p int; n int) = forall i int : {r[ix(o, i)]} q - 1 <= i && i <= q + n ==> r[ix(o, i)] == s[ix(o, sft(i, q, p))];
lemma same_get(r row; o int; q int; s row; p int; n int; i int) {
  requires SameAt(r, o, q, s, p, n) && q - 1 <= i && i <= q + n;
  ensures r[ix(o, i)] == s[ix(o, sft(i, q, p))];
  auto {SameAt(r, o, q, s, p, n), r[ix(o, i)]};
  reveal SameAt;
}
lemma same_frame(r row; t row; o int; q int; s row; p int; n int) {
  requires SameAt(t, o, q, s, p, n);
  requires forall i int : {r[ix(o, i)]} {t[ix(o, i)]} q - 1 <= i && i <= q + n ==> r[ix(o, i)] == t[ix(o, i)];
  ensures SameAt(r, o, q, s, p, n);
  auto {SameAt(r, o, q, s, p, n), SameAt(t, o, q, s, p, n)};
  reveal SameAt;
}
lemma same_lits(r row; o int; q int; s row; p int; n int; e int) {
  requires SameAt(r, o, q, s, p, n) && LitsAt(s, o, p, p + n) && 0 <= n && e == q + n;
  ensures LitsAt(r, o, q, e);
  reveal LitsAt;
}
lemma same_new(r row; o int; q int; s row; p int; n int) {
  requires forall i int : {r[ix(o, i)]} q - 1 <= i && i <= q + n ==> r[ix(o, i)] == s[ix(o, i - q + p)];
  ensures SameAt(r, o, q, s, p, n);
  reveal SameAt;
}

func CDatOk(c *xo.CDat) = c != nil && arr(c.D) != 0 && c.Cap == len(c.D) && 0 <= c.Len && c.Len <= c.Cap && c.Len < 4294967000 && 3 <= c.Cap && c.Cap < 4294967296
  && (c.Len > 0 ==> cls[1])
  && (forall p int : {cls[p]} cls[p] ==> 1 <= p && p <= cend[p] && cend[p] < c.Len && c.D[cend[p]] == 0 && csize(c.D[p - 1]) == (cend[p] - p) % 32)
  && (forall p int : {ctg(p)} ctg(p) && cls[p] ==> cend[p] + 1 == c.Len || cls[cend[p] + 2])
  && (forall p int : {cls[p]} cls[p] ==> LitsAt(row(c.D), off(c.D), p, cend[p]))
  && (forall p, q : {cls[p], cls[q]} cls[p] && cls[q] && p < q ==> cend[p] + 2 <= q);

contract xo.NewCDat(cap) (c) {
  requires cap < 4294967296;
  ensures CDatOk(c) && fresh(c) && fresh(c.D) && c.Len == 0;
  modifies cls;
  at entry { ghost cls := emptyset(); }
}
contract xo.CDat.Chd(c, loc) (h) {
  requires 1 <= loc && loc <= len(c.D);
  ensures h == c.D[loc - 1];
}
contract xo.CDat.SetChd(c, loc, hd) {
  requires CDatOk(c) && cls[loc] && csize(hd) == csize(c.D[loc - 1]);
  ensures CDatOk(c);
  ensures forall i int : {c.D[i]} {old(c.D[i])} i != loc - 1 && 0 <= i && i < len(c.D) ==> c.D[i] == old(c.D[i]);
  ensures c.D[loc - 1] == hd;
  modifies elems(c.D);
}
// the clause at p alone, whatever is elsewhere in the memory
func ClAt(c *xo.CDat; p int) = c != nil && arr(c.D) != 0 && len(c.D) < 4294967296 && cend[p] < len(c.D) && cend[p] < 4294967000
  && 1 <= p && p <= cend[p] && c.D[cend[p]] == 0 && csize(c.D[p - 1]) == (cend[p] - p) % 32
  && LitsAt(row(c.D), off(c.D), p, cend[p]);

contract xo.CDat.Next(c, loc) (n) {
  requires ClAt(c, loc);
  ensures n == cend[loc] + 2;
  loop 0 {
    invariant 0 <= i && j == loc + 32 * i + csize(c.D[loc - 1]) && j <= cend[loc];
    decreases cend[loc] - j;
    begin { use or5(i + 1, csize(c.D[loc - 1])); }
  }
}
contract xo.CDat.CompactReady(c, nc, nl) (r) {
  requires c != nil;
  nopanic;
}
contract xo.CDat.grow(c, rLen) {
  requires CDatOk(c) && rLen < 2147483648;
  ensures CDatOk(c) && fresh(c.D) && c.Cap > rLen;
  ensures forall i int : {c.D[i]} {old(c.D[i])} 0 <= i && i < c.Len ==> c.D[i] == old(c.D[i]);
  modifies c.D, c.Cap, new elems(c.D);
  loop 0 {
    invariant c.Cap <= newCap && (newCap == c.Cap || newCap <= 2 * rLen);
    decreases rLen - newCap;
  }
}
contract xo.CDat.AddLits(c, hdr, ms) (p) {
  requires CDatOk(c) && csize(hdr) == len(ms) % 32 && arr(ms) != arr(c.D);
  requires forall k int : {ms[k]} 0 <= k && k < len(ms) ==> ms[k] >= 2;
  ensures CDatOk(c) && (arr(c.D) == old(arr(c.D)) || fresh(c.D));
  ensures p == old(c.Len) + 1 && cls[p] && cend[p] == p + len(ms) && !old(cls[p]);
  ensures forall q int : {cls[q]} {old(cls[q])} q != p ==> (cls[q] <==> old(cls[q]));
  ensures forall q int : {cend[q]} {old(cend[q])} q != p ==> cend[q] == old(cend[q]);
  ensures forall i int : {c.D[i]} {old(c.D[i])} 0 <= i && i < old(c.Len) ==> c.D[i] == old(c.D[i]);
  ensures forall i int : {c.D[i]} p <= i && i < p + len(ms) ==> c.D[i] == old(ms[i - p]);
  ensures forall k int : {ms[k]} 0 <= k && k < len(ms) ==> ms[k] == old(ms[k]);
  ensures c.D[p - 1] == hdr;
  modifies c.D, c.Cap, c.Len, c.ClsLen, elems(c.D), new elems(c.D), elems(ms), cls, cend;
  at entry { assume c.Len + len(ms) < 2147483640; }
  at return { ghost cls[result] := true; ghost cend[result] := result + len(ms); have lits_new(row(c.D), off(c.D), result, result + len(ms)); }
}
contract xo.CDat.Load(c, p, ms) (r) {
  requires CDatOk(c) && cls[p] && arr(ms) != arr(c.D);
  ensures len(r) == len(ms) + cend[p] - p;
  ensures forall k int : {r[k]} 0 <= k && k < len(ms) ==> r[k] == ms[k];
  ensures forall k int : {r[k]} len(ms) <= k && k < len(r) ==> r[k] == c.D[p + k - len(ms)];
  ensures arr(r) == arr(ms) || fresh(r);
  modifies elems(ms), new elems(r);
}
contract xo.CDat.Bump(c, p) (full) {
  requires CDatOk(c) && cls[p];
  ensures CDatOk(c);
  ensures forall i int : {c.D[i]} {old(c.D[i])} i != p - 1 && 0 <= i && i < len(c.D) ==> c.D[i] == old(c.D[i]);
  ensures csize(c.D[p - 1]) == old(csize(c.D[p - 1])) && (clearnt(c.D[p - 1]) <==> old(clearnt(c.D[p - 1])));
  modifies elems(c.D);
}
contract xo.CDat.Decay(c) {
  modifies c.bumpInc;
}
contract xo.CDat.CopyTo(c, other) {
  requires CDatOk(c) && other != nil && other != c;
  ensures CDatOk(other) && fresh(other.D) && other.Len == c.Len && other.Cap == c.Cap && other.ClsLen == c.ClsLen && other.bumpInc == c.bumpInc;
  ensures forall i int : {other.D[i]} {c.D[i]} 0 <= i && i < len(c.D) ==> other.D[i] == c.D[i];
  modifies other.D, other.Len, other.Cap, other.ClsLen, other.bumpInc, new elems(other.D);
}
contract xo.CDat.Copy(c) (o) {
  requires CDatOk(c);
  ensures CDatOk(o) && fresh(o) && fresh(o.D) && o.Len == c.Len && o.Cap == c.Cap && o.ClsLen == c.ClsLen && o.bumpInc == c.bumpInc;
  ensures forall i int : {o.D[i]} {c.D[i]} 0 <= i && i < len(c.D) ==> o.D[i] == c.D[i];
}

// Compact: live are the clauses in use (none of them is removed); corg is
// where a clause of the new memory comes from.
ghost live set;
ghost corg row;

contract xo.CDat.estimateLocMapSize(c, loc) (n) {
  trusted;
}

contract xo.CDat.Compact(c, rm) (m, freed) {
  requires CDatOk(c) && arr(rm) != 0;
  requires forall k int : {rm[k]} 0 <= k && k < len(rm) ==> cls[rm[k]] && !live[rm[k]];
  requires forall k, l : {rm[k], rm[l]} 0 <= k && k < l && l < len(rm) ==> rm[k] < rm[l];
  ensures ok: CDatOk(c);
  ensures dom: forall p int : {mapdom(m)[p]} mapdom(m)[p] ==> old(cls[p]);
  ensures rm: forall k int : {rm[k]} 0 <= k && k < len(rm) ==> mapdom(m)[rm[k]] && mapval(m)[rm[k]] == 0;
  ensures kept: forall p int : {mapdom(m)[p]} mapdom(m)[p] && live[p] ==> mapval(m)[p] != 0;
  ensures same: forall p int : {old(cls[p])} {mapdom(m)[p]} old(cls[p]) && !mapdom(m)[p] ==> cls[p] && cend[p] == old(cend[p]);
  ensures samelits: forall p, i : {mapdom(m)[p], c.D[i]} old(cls[p]) && !mapdom(m)[p] && p - 1 <= i && i <= cend[p] ==> c.D[i] == old(c.D[i]);
  ensures moved: forall p int : {mapdom(m)[p]} mapdom(m)[p] && mapval(m)[p] != 0 ==> cls[mapval(m)[p]] && cend[mapval(m)[p]] == mapval(m)[p] + old(cend[p]) - p && mapval(m)[p] <= p && corg[mapval(m)[p]] == p;
  ensures movedlits: forall p int : {mapdom(m)[p]} mapdom(m)[p] && mapval(m)[p] != 0 ==> SameAt(row(c.D), off(c.D), mapval(m)[p], old(row(c.D)), p, old(cend)[p] - p);
  ensures all: forall q int : {cls[q]} cls[q] ==> (old(cls[q]) && !mapdom(m)[q]) || (mapdom(m)[corg[q]] && mapval(m)[corg[q]] == q);
  modifies elems(c.D), c.Len, c.ClsLen, cls, cend, corg;
  loop 0 {
    invariant idx: 0 <= i && i < len(rm) && rm[i] < cur && (i + 1 < len(rm) ==> cur <= rm[i + 1]);
    invariant at: arr(c.D) == old(arr(c.D)) && (cur == old(c.Len) + 1 || old(cls[cur])) && rm[0] < cur && cur <= old(c.Len) + 1;
    invariant dst: rm[0] - 1 <= dst && dst + 2 <= cur - 1;
    invariant before: forall p int : {cls[p]} p < rm[0] ==> (cls[p] <==> old(cls[p])) && cend[p] == old(cend[p]);
    invariant gap: forall p int : {cls[p]} dst < p && p < cur ==> !cls[p];
    invariant after: forall p int : {cls[p]} {cend[p]} cur <= p ==> (cls[p] <==> old(cls[p])) && cend[p] == old(cend[p]);
    invariant mem: forall j int : {c.D[j]} 0 <= j && (j < rm[0] - 1 || dst <= j) && j < len(c.D) ==> c.D[j] == old(c.D[j]);
    invariant dom: forall p int : {mapdom(locMap)[p]} {old(cls[p])} mapdom(locMap)[p] <==> old(cls[p]) && rm[0] <= p && p < cur;
    invariant rm: forall k int : {rm[k]} 0 <= k && k <= i ==> mapdom(locMap)[rm[k]] && mapval(locMap)[rm[k]] == 0;
    invariant kept: forall p int : {mapdom(locMap)[p]} mapdom(locMap)[p] && live[p] ==> mapval(locMap)[p] != 0;
    invariant moved: forall p int : {mapdom(locMap)[p]} mapdom(locMap)[p] && mapval(locMap)[p] != 0 ==> cls[mapval(locMap)[p]] && cend[mapval(locMap)[p]] == mapval(locMap)[p] + old(cend[p]) - p && rm[0] <= mapval(locMap)[p] && mapval(locMap)[p] <= dst && mapval(locMap)[p] <= p && corg[mapval(locMap)[p]] == p;
    invariant movedlits: forall p int : {mapdom(locMap)[p]} mapdom(locMap)[p] && mapval(locMap)[p] != 0 ==> SameAt(row(c.D), off(c.D), mapval(locMap)[p], old(row(c.D)), p, old(cend)[p] - p);
    invariant all: forall q int : {cls[q]} rm[0] <= q && q <= dst && cls[q] ==> mapdom(locMap)[corg[q]] && mapval(locMap)[corg[q]] == q;
    invariant ok1: forall p int : {cls[p]} p <= dst && cls[p] ==> 1 <= p && p <= cend[p] && cend[p] < dst && c.D[cend[p]] == 0 && csize(c.D[p - 1]) == (cend[p] - p) % 32;
    invariant ok2: forall p int : {ctg(p)} ctg(p) && cls[p] && p <= dst ==> cend[p] + 1 == dst || cls[cend[p] + 2];
    invariant ok3: forall p int : {cls[p]} cls[p] && p <= dst ==> LitsAt(row(c.D), off(c.D), p, cend[p]);
    invariant ok4: forall p, q : {cls[p], cls[q]} cls[p] && cls[q] && p < q && q <= dst ==> cend[p] + 2 <= q;
    invariant ok5: dst > 0 ==> cls[1];
    entry { use ctg_true(rm[0]); ghost cls[rm[0]] := false; }
    begin { label B; use ctg_true(cur); use ctg_true(rm[0]); }
    end {
      assert forall j int : {c.D[j]} at(B, dst) <= j && j < dst ==> c.D[j] == old(c.D[j - (at(B, dst) + 1) + at(B, cur)]);
      assert forall j int : {c.D[j]} {at(B, c.D[j])} 0 <= j && j < at(B, dst) ==> c.D[j] == at(B, c.D[j]);
      assert old(cls[cur]) || cur == old(c.Len) + 1;
      assert dst != at(B, dst) ==> dst - at(B, dst) == at(B, cend[cur]) - at(B, cur) + 2 && at(B, cend[cur]) == old(cend[at(B, cur)]);
      have same_new(row(c.D), off(c.D), at(B, dst) + 1, old(row(c.D)), at(B, cur), dst - at(B, dst) - 2);
      have same_lits(row(c.D), off(c.D), at(B, dst) + 1, old(row(c.D)), at(B, cur), dst - at(B, dst) - 2, dst - 1);
      assert dst != at(B, dst) ==> LitsAt(row(c.D), off(c.D), at(B, dst) + 1, dst - 1);
      assert dst != at(B, dst) ==> c.D[at(B, dst)] == old(c.D[at(B, cur) - 1]);
      assert dst != at(B, dst) ==> c.D[dst - 1] == old(c.D[at(B, cend[cur])]);
      assert dst != at(B, dst) ==> c.D[dst - 1] == 0 && csize(c.D[at(B, dst)]) == (at(B, cend[cur]) - at(B, cur)) % 32;
      assert forall p int : {cls[p]} p <= at(B, dst) && cls[p] ==> 1 <= p && p <= cend[p] && cend[p] < at(B, dst) && c.D[cend[p]] == 0 && csize(c.D[p - 1]) == (cend[p] - p) % 32;
      assert forall p int : {cls[p]} p <= at(B, dst) && cls[p] ==> LitsAt(row(c.D), off(c.D), p, cend[p]);
      ghost cls[at(B, cur)] := false;
      ghost cls[at(B, dst) + 1] := dst != at(B, dst);
      ghost cend[at(B, dst) + 1] := if dst != at(B, dst) then at(B, dst) + 1 + at(B, cend[cur]) - at(B, cur) else cend[at(B, dst) + 1];
      ghost corg[at(B, dst) + 1] := at(B, cur);
      assert cls[at(B, dst) + 1] ==> c.D[cend[at(B, dst) + 1]] == 0 && csize(c.D[at(B, dst)]) == (cend[at(B, dst) + 1] - (at(B, dst) + 1)) % 32;
    }
    decreases old(c.Len) + 2 - cur;
  }
}

property C09 { xo.MakeChd, xo.Chd.Size, xo.Chd.Lbd, xo.Chd.Learnt, xo.Chd.Heat, xo.Chd.Bump, xo.Chd.Decay,
  xo.MakeWatch, xo.Watch.Other, xo.Watch.IsBinary, xo.Watch.C, xo.Watch.Relocate,
  xo.NewCDat, xo.CDat.Chd, xo.CDat.SetChd, xo.CDat.Next, xo.CDat.CompactReady, xo.CDat.grow, xo.CDat.AddLits, xo.CDat.Load, xo.CDat.Bump, xo.CDat.Decay, xo.CDat.CopyTo, xo.CDat.Copy, xo.CDat.Compact,
  ctg_true, or5, sft_def, lits_get, lits_frame, lits_new, same_get, same_frame, same_lits, same_new }
