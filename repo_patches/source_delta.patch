From 4bcb3835db4d270d0bd0d3eab081ad3504e85c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:41 +0000
Subject: [PATCH 01/30] fix: keep answering unsat after a conflict at decision
 level 0

---
 internal/xo/s.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/internal/xo/s.go b/internal/xo/s.go
index 9f7d865..423f494 100644
--- a/internal/xo/s.go
+++ b/internal/xo/s.go
@@ -422,6 +422,10 @@ func (s *S) Untest() int {
 		s.x = x
 		return -1
 	}
+	if s.Cdb.Bot != CNull {
+		s.x = s.Cdb.Bot
+		return -1
+	}
 	s.Trail.backWithLates(lastTestLevel)
 	if x := trail.Prop(); x != CNull {
 		s.x = x
@@ -542,6 +546,7 @@ func (s *S) ensure0() {
 	if len(s.testLevels) != 0 {
 		panic("ivalid operation under test scope")
 	}
+	s.learnBot0()
 	if s.Trail.Level != 0 {
 		s.Trail.Back(0)
 	}
@@ -639,6 +644,7 @@ func (s *S) solveInit() int {
 func (s *S) cleanupSolve() z.C {
 	trail := s.Trail
 	for s.x != CNull {
+		s.learnBot0()
 		if s.Cdb.Bot != CNull { // Cdb.Bot is always checked in makeAssumptions, true empty clause.
 			s.x = CNull
 			break
@@ -664,6 +670,15 @@ func (s *S) cleanupSolve() z.C {
 	return CNull
 }
 
+// learnBot0 records the empty clause if there is a conflict at level 0,
+// in other words if the clauses alone are inconsistent.  Such a conflict
+// cannot be analyzed and must not be forgotten.
+func (s *S) learnBot0() {
+	if s.x != CNull && s.Trail.Level == 0 && s.Cdb.Bot == CNull {
+		s.Cdb.Learn(nil, 0)
+	}
+}
+
 func (s *S) lastTestLevel() int {
 	if len(s.testLevels) > 0 {
 		return s.testLevels[len(s.testLevels)-1]
-- 
2.43.0


From af20ec0454a36995333dd116aa23c61b0bc0902c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:55 +0000
Subject: [PATCH 02/30] fix: clause compaction keeps the reason of each
 variable and the empty clause in place

---
 internal/xo/cgc.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/xo/cgc.go b/internal/xo/cgc.go
index 01c7d64..c00fedd 100644
--- a/internal/xo/cgc.go
+++ b/internal/xo/cgc.go
@@ -192,8 +192,17 @@ func (c *Cgc) CompactCDat(cdb *Cdb) (int, int) {
 func (c *Cgc) relocate(cdb *Cdb, rlm map[z.C]z.C) {
 	cdb.Learnts = relocateSlice(cdb.Learnts, rlm)
 	cdb.Added = relocateSlice(cdb.Added, rlm)
-	// reasons
-	cdb.Vars.Reasons = relocateSlice(cdb.Vars.Reasons, rlm)
+	// the empty clause, if any
+	if q, ok := rlm[cdb.Bot]; ok && cdb.Bot != CNull {
+		cdb.Bot = q
+	}
+	// reasons, which are indexed by variable
+	reasons := cdb.Vars.Reasons
+	for v, p := range reasons {
+		if q, ok := rlm[p]; ok {
+			reasons[v] = q
+		}
+	}
 	// watches
 	c.relocateWatches(cdb, rlm)
 	// activation occs
-- 
2.43.0


From bde07cb7122acfbf1789f1e61d3c10e8ad7a922e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:56 +0000
Subject: [PATCH 03/30] fix: deactivating an activation literal fixed at level
 0 neither recycles it nor drops reasons

---
 internal/xo/active.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/internal/xo/active.go b/internal/xo/active.go
index b0c906d..73b4dbf 100644
--- a/internal/xo/active.go
+++ b/internal/xo/active.go
@@ -37,8 +37,7 @@ func (a *Active) ActivateWith(act z.Lit, s *S) {
 		panic("activated empty clause")
 	}
 	if loc == CInf {
-		panic("activated trivially true clause")
-		return
+		return // trivially true, nothing to activate.
 	}
 	// add occs
 	ms := a.Ms
@@ -62,8 +61,21 @@ func (a *Active) Deactivate(cdb *Cdb, m z.Lit) {
 	m = mv.Pos()
 	sl := a.Occs[mv]
 	a.Occs[mv] = nil
-	cdb.Remove(sl...) // this might trigger CRemap below, so we update occs first.
-	a.Free = append(a.Free, m)
+	// a clause which is the reason of a literal fixed at level 0 is satisfied
+	// for good and must stay.
+	j := 0
+	for _, c := range sl {
+		if cdb.InUse(c) {
+			continue
+		}
+		sl[j] = c
+		j++
+	}
+	cdb.Remove(sl[:j]...) // this might trigger CRemap below, so we update occs first.
+	// a literal fixed at level 0 cannot activate anything any more.
+	if cdb.Vars.Vals[m] == 0 {
+		a.Free = append(a.Free, m)
+	}
 	a.IsActive[mv] = false
 }
 
-- 
2.43.0


From 9f91c05a14bdb43b49ad791a324fa52623286ec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:57 +0000
Subject: [PATCH 04/30] fix: Write outputs exactly the clauses of the problem,
 also when there are none

---
 internal/xo/cdat.go |  2 +-
 internal/xo/cdb.go  | 24 ++++++++++++++++++++++--
 2 files changed, 23 insertions(+), 3 deletions(-)

diff --git a/internal/xo/cdat.go b/internal/xo/cdat.go
index b97be00..07e1f2d 100644
--- a/internal/xo/cdat.go
+++ b/internal/xo/cdat.go
@@ -179,7 +179,7 @@ func (c *CDat) Load(p z.C, ms []z.Lit) []z.Lit {
 
 // Func Forall applies f to every clause in the store.
 func (c *CDat) Forall(f func(i int, p z.C, ms []z.Lit)) {
-	ns := make([]z.Lit, 0, c.ClsLen*2/c.Len)
+	ns := make([]z.Lit, 0, 32)
 	i := 0
 	q := z.C(1)
 	for q < z.C(c.Len) {
diff --git a/internal/xo/cdb.go b/internal/xo/cdb.go
index 98c062c..ebe4691 100644
--- a/internal/xo/cdb.go
+++ b/internal/xo/cdb.go
@@ -304,7 +304,19 @@ func (c *Cdb) SetTracer(t Tracer) {
 }
 
 func (c *Cdb) Write(w io.Writer) error {
-	hdr := []byte(fmt.Sprintf("p cnf %d %d\n", c.Vars.Max, len(c.Added)))
+	// removed clauses which are not yet compacted and learned clauses are not
+	// part of the problem.
+	rmd := make(map[z.C]bool, len(c.gc.rmq))
+	for _, p := range c.gc.rmq {
+		rmd[p] = true
+	}
+	ps := make([]z.C, 0, len(c.Added))
+	for _, p := range c.Added {
+		if !rmd[p] {
+			ps = append(ps, p)
+		}
+	}
+	hdr := []byte(fmt.Sprintf("p cnf %d %d\n", c.Vars.Max, len(ps)))
 	n := 0
 	for n < len(hdr) {
 		m, e := w.Write(hdr[n:])
@@ -313,7 +325,15 @@ func (c *Cdb) Write(w io.Writer) error {
 			return e
 		}
 	}
-	return c.CDat.Dimacs(w)
+	var buf bytes.Buffer
+	c.ForallSlice(func(p z.C, h Chd, ms []z.Lit) {
+		for _, m := range ms {
+			fmt.Fprintf(&buf, "%d ", m.Dimacs())
+		}
+		buf.WriteString("0\n")
+	}, ps)
+	_, e := buf.WriteTo(w)
+	return e
 }
 
 func (c *Cdb) String() string {
-- 
2.43.0


From dea38136ffd20e0fa7d2850de41cf39b8d3153ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:58 +0000
Subject: [PATCH 05/30] fix: the time limit of Try does not apply to later
 calls to Solve

---
 internal/xo/s.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/xo/s.go b/internal/xo/s.go
index 423f494..6310c7d 100644
--- a/internal/xo/s.go
+++ b/internal/xo/s.go
@@ -195,6 +195,9 @@ func (s *S) Try(dur time.Duration) int {
 	}
 	s.startTime = time.Now()
 	s.deadline = s.startTime.Add(dur)
+	defer func() {
+		s.deadline = s.startTime // no time limit for what comes next
+	}()
 	return s.Solve()
 }
 
-- 
2.43.0


From 6f2ca828a1db1a7fb78c5a552a7978edc04c5727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 06/30] fix: copies of a solver keep its search and clause
 collection parameters

---
 internal/xo/cdat.go  | 1 +
 internal/xo/cgc.go   | 4 ++--
 internal/xo/guess.go | 8 ++++++++
 3 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/xo/cdat.go b/internal/xo/cdat.go
index 07e1f2d..a821967 100644
--- a/internal/xo/cdat.go
+++ b/internal/xo/cdat.go
@@ -227,6 +227,7 @@ func (c *CDat) CopyTo(other *CDat) {
 	other.Len = c.Len
 	other.Cap = c.Cap
 	other.ClsLen = c.ClsLen
+	other.bumpInc = c.bumpInc
 	copy(other.D, c.D)
 }
 
diff --git a/internal/xo/cgc.go b/internal/xo/cgc.go
index c00fedd..c3e50ca 100644
--- a/internal/xo/cgc.go
+++ b/internal/xo/cgc.go
@@ -52,8 +52,8 @@ func (c *Cgc) Copy() *Cgc {
 	*l = *c.luby
 	other := &Cgc{
 		luby:      l,
-		factor:    2048,
-		stopWatch: 2048 * l.Next(),
+		factor:    c.factor,
+		stopWatch: c.stopWatch,
 		rmq:       make([]z.C, len(c.rmq), cap(c.rmq)),
 		rmLits:    c.rmLits,
 		rmd:       c.rmd}
diff --git a/internal/xo/guess.go b/internal/xo/guess.go
index 7816467..2b88abe 100644
--- a/internal/xo/guess.go
+++ b/internal/xo/guess.go
@@ -211,6 +211,14 @@ func (g *Guess) Copy() *Guess {
 		vhp:       make([]z.Var, len(g.vhp), cap(g.vhp)),
 		heat:      make([]float64, len(g.heat), cap(g.heat)),
 		cache:     make([]int8, len(g.cache), cap(g.cache)),
+
+		decays:        g.decays,
+		restartDecays: g.restartDecays,
+		decayMax:      g.decayMax,
+		decayMin:      g.decayMin,
+		decayMaxMax:   g.decayMaxMax,
+		decayMaxDecay: g.decayMaxDecay,
+
 		bumpInc:   g.bumpInc,
 		bumpDecay: g.bumpDecay,
 		bumpLim:   g.bumpLim}
-- 
2.43.0


From 0d85c4cbb5c2e75cf7a5bb63eb21561a8cd7f27e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:00 +0000
Subject: [PATCH 07/30] fix: clause heat saturates instead of overflowing into
 the learnt bit

---
 internal/xo/chd.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/xo/chd.go b/internal/xo/chd.go
index 4270a58..60ee493 100644
--- a/internal/xo/chd.go
+++ b/internal/xo/chd.go
@@ -49,8 +49,12 @@ func (c Chd) Heat() uint32 {
 }
 
 func (c Chd) Bump(n uint32) (Chd, bool) {
+	max := uint32(heatMask >> heatShift)
 	ht := c.Heat() + n
-	return Chd((uint32(c) & (lrnMask | szMask | lbdMask)) | (ht << heatShift)), ht == heatMask>>heatShift
+	if ht > max || ht < n {
+		ht = max
+	}
+	return Chd((uint32(c) & (lrnMask | szMask | lbdMask)) | (ht << heatShift)), ht == max
 }
 
 func (c Chd) Decay() Chd {
-- 
2.43.0


From 7bbd4cab432c8ed10f88b89bf8e84b4e9d26efb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:17 +0000
Subject: [PATCH 08/30] fix: the constant true is true in all 64 positions of
 Eval64

---
 logic/c.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/logic/c.go b/logic/c.go
index 8ce1d01..b72ab98 100644
--- a/logic/c.go
+++ b/logic/c.go
@@ -228,7 +228,7 @@ func (c *C) Eval(vs []bool) {
 // parallel as the bits of a uint64.
 func (c *C) Eval64(vs []uint64) {
 	N := len(c.nodes)
-	vs[1] = (1 << 63) - 1
+	vs[1] = ^uint64(0)
 	for i := 2; i < N; i++ {
 		n := &c.nodes[i]
 		if n.a < 4 {
-- 
2.43.0


From f2ba1801b875960fef495c2d2574ca3036769305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:18 +0000
Subject: [PATCH 09/30] fix: Vars.Inner never returns the null literal

---
 z/dv.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/z/dv.go b/z/dv.go
index bc3ae43..aa4cb29 100644
--- a/z/dv.go
+++ b/z/dv.go
@@ -105,6 +105,9 @@ func (v *Vars) Inner() Lit {
 		return res.Pos()
 	}
 	w := Var(len(v.i2o))
+	if w == 0 {
+		w = 1 // 0 is not a variable
+	}
 	v.ensureInnerCap(w)
 	return w.Pos()
 }
-- 
2.43.0


From 2b7f057486a79205660a64b74187c1861f1af32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:19 +0000
Subject: [PATCH 10/30] fix: comment filter removes comments after an empty
 line and in the last read

---
 dimacs/cfilt.go | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/dimacs/cfilt.go b/dimacs/cfilt.go
index 74e4e8d..49a9867 100644
--- a/dimacs/cfilt.go
+++ b/dimacs/cfilt.go
@@ -44,9 +44,6 @@ func (s state) String() string {
 func (f *CommentFilter) Read(buf []byte) (n int, e error) {
 Start:
 	n, e = f.rdr.Read(buf)
-	if e != nil {
-		return n, e
-	}
 	j := 0
 	state := f.state
 	for _, b := range buf[:n] {
@@ -69,7 +66,11 @@ Start:
 			}
 			buf[j] = b
 			j++
-			state = notComment
+			if b == byte('\n') {
+				state = newLine
+			} else {
+				state = notComment
+			}
 		case newLine:
 			if b == byte('c') {
 				state = inComment
@@ -95,8 +96,8 @@ Start:
 		}
 	}
 	f.state = state
-	if j == 0 {
+	if j == 0 && e == nil {
 		goto Start
 	}
-	return j, nil
+	return j, e
 }
-- 
2.43.0


From 7b2b241cab564f62bc9f7b8a090e1c4bf790791f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 11/30] fix: numbers without digits or out of range are errors
 in dimacs input

---
 dimacs/int.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/dimacs/int.go b/dimacs/int.go
index 687c9c7..ce26a9a 100644
--- a/dimacs/int.go
+++ b/dimacs/int.go
@@ -7,11 +7,13 @@ import (
 	"bufio"
 	"fmt"
 	"io"
+	"math"
 )
 
 func readInt(rdr *bufio.Reader) (int, error) {
 	v := 0
 	m := 1
+	digit := false
 	c, e := readNextNonWhiteByte(rdr)
 
 	if e != nil && e != io.EOF {
@@ -22,6 +24,7 @@ func readInt(rdr *bufio.Reader) (int, error) {
 	}
 	if c >= byte('0') && c <= byte('9') {
 		v = int(c - byte('0'))
+		digit = true
 	} else if c == byte('-') {
 		m = -1
 	} else {
@@ -30,7 +33,7 @@ func readInt(rdr *bufio.Reader) (int, error) {
 	for {
 		c, e = rdr.ReadByte()
 		if e == io.EOF {
-			return v * m, nil
+			break
 		}
 		if e != nil {
 			return 0, e
@@ -43,6 +46,13 @@ func readInt(rdr *bufio.Reader) (int, error) {
 		}
 		v *= 10
 		v += int(c - byte('0'))
+		digit = true
+		if v > math.MaxInt32 {
+			return 0, fmt.Errorf("number too large")
+		}
+	}
+	if !digit {
+		return 0, fmt.Errorf("number without digits")
 	}
 	return v * m, nil
 }
-- 
2.43.0


From 2bb396bfdd76c90957206602a43a365b7c497a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:20 +0000
Subject: [PATCH 12/30] fix: RandColor gives each node and color its own
 variable and each edge and color its own clause

---
 gen/color.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gen/color.go b/gen/color.go
index 8ddd6ea..407f7da 100644
--- a/gen/color.go
+++ b/gen/color.go
@@ -17,7 +17,7 @@ import (
 func RandColor(dst inter.Adder, n, m, k int) {
 	g := RandGraph(n, m)
 	var mkVar = func(n, c int) z.Var {
-		return z.Var(n*c + c + 1)
+		return z.Var(n*k + c + 1)
 	}
 	for i := range g {
 		for j := 0; j < k; j++ {
@@ -36,8 +36,8 @@ func RandColor(dst inter.Adder, n, m, k int) {
 				b := mkVar(b, c).Neg()
 				dst.Add(a)
 				dst.Add(b)
+				dst.Add(0)
 			}
-			dst.Add(0)
 		}
 	}
 }
-- 
2.43.0


From a9a2b7c3a352b73de4c6b53e99b43ea5cb62f1ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:28 +0000
Subject: [PATCH 13/30] fix: aiger writers code constants as the readers do

---
 logic/aiger/aiger.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index c41442c..f9399b1 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -603,9 +603,14 @@ func (abw *aigerBinWriter) mapLit(m z.Lit) {
 
 // get an aiger literal for a gini literal for writer
 func (abw *aigerBinWriter) forLit(m z.Lit) uint {
-	v := m.Var()
-	a := abw.idMap[v]
-	if a == 0 || m.IsPos() {
+	if m == abw.trueLit {
+		return 1
+	}
+	if m == abw.trueLit.Not() {
+		return 0
+	}
+	a := abw.idMap[m.Var()]
+	if m.IsPos() {
 		return a
 	}
 	return a | 1
@@ -1407,11 +1412,11 @@ func readUint(r *bufio.Reader) (uint, error) {
 // write a literal in AIGER style (modulo 2 gives pos/neg)
 func writeLit(w *bufio.Writer, m, t z.Lit) error {
 	if m == t {
-		_, err := w.WriteString("0")
+		_, err := w.WriteString("1")
 		return err
 	}
 	if m == t.Not() {
-		_, err := w.WriteString("1")
+		_, err := w.WriteString("0")
 		return err
 	}
 	u := m - 2
-- 
2.43.0


From 63cff381fdd2db99b956f2cfbc1296678aebbe9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:29 +0000
Subject: [PATCH 14/30] fix: binary aiger writer orders gate operands and
 writes the gates of constraints

---
 logic/aiger/aiger.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index f9399b1..eb29fb1 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -431,6 +431,7 @@ func (a *T) WriteBinary(w io.Writer) error {
 	dfs.post(a.Outputs...)
 	dfs.post(nexts...)
 	dfs.post(a.Bad...)
+	dfs.post(a.Constraints...)
 	for _, ma := range a.Justice {
 		dfs.post(ma...)
 	}
@@ -629,6 +630,10 @@ func (abw *aigerBinWriter) writeBinAnd(s *logic.S, m z.Lit) {
 	c1, c0 := s.Ins(m)
 	mc0 := abw.forLit(c0)
 	mc1 := abw.forLit(c1)
+	if mc0 < mc1 {
+		// the mapping need not preserve the order of literals in *logic.S
+		mc0, mc1 = mc1, mc0
+	}
 	me := abw.forLit(m)
 	delta0 := me - mc0
 	delta1 := mc0 - mc1
-- 
2.43.0


From 7e1860518a9e5acecb625022283a1a5fd664612e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 15/30] fix: aiger header counts the gates which are written

---
 logic/aiger/aiger.go | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index eb29fb1..ea49cf9 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -1235,13 +1235,22 @@ type aigerHeader struct {
 // creates a header object from a system and an indication
 // of whether or not the binary version is desired.
 func makeHeader(a *T, binary bool) *aigerHeader {
-	s := a.S
-	N := s.Len()
+	// only reachable gates are written
 	nAnd := uint(0)
-	for i := 0; i < N; i++ {
-		if s.Type(s.At(i)) == logic.SAnd {
+	dfs := newsDfs(a.S, func(s *logic.S, m z.Lit) {
+		if s.Type(m) == logic.SAnd {
 			nAnd++
 		}
+	})
+	dfs.post(a.Outputs...)
+	dfs.post(a.Bad...)
+	dfs.post(a.Constraints...)
+	for _, ma := range a.Justice {
+		dfs.post(ma...)
+	}
+	dfs.post(a.Fair...)
+	for _, m := range a.Latches {
+		dfs.post(a.Next(m))
 	}
 	return &aigerHeader{
 		Binary:     binary,
-- 
2.43.0


From 5e91cdb87f744221f0a9469f3291376e5a32d744 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:30 +0000
Subject: [PATCH 16/30] fix: aiger readers keep the sign of simplified gates
 and accept constant operands

---
 logic/aiger/aiger.go | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index ea49cf9..f419bac 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -670,7 +670,7 @@ type aigerReader struct {
 	AigConstraints []uint
 	AigJustice     [][]uint
 	AigFair        []uint
-	varMap         []z.Var
+	litMap         []z.Lit
 	AigAnds        []aigAnd
 }
 
@@ -685,33 +685,25 @@ func makeAigerReader(a *T, hdr *aigerHeader) *aigerReader {
 		AigConstraints: make([]uint, 0, hdr.Constraint),
 		AigJustice:     make([][]uint, 0, hdr.Justice),
 		AigFair:        make([]uint, 0, hdr.Fair),
-		varMap:         make([]z.Var, hdr.Max+1),
+		litMap:         make([]z.Lit, hdr.Max+1),
 		AigAnds:        nil}
-	abr.varMap[0] = a.S.F.Var()
+	abr.litMap[0] = a.S.F
 	return abr
 }
 
 func (abr *aigerReader) mapLit(aigerLit uint, m z.Lit) {
-	abr.varMap[int(aigerLit>>1)] = m.Var()
+	abr.litMap[int(aigerLit>>1)] = m
 }
 
 func (abr *aigerReader) litFor(aigerLit uint) z.Lit {
-	if aigerLit < 2 {
-		if aigerLit == 1 {
-			return abr.S.T
-		}
-		return abr.S.F
-	}
-	v := aigerLit >> 1
-
-	rv := abr.varMap[v]
-	if rv == 0 {
+	m := abr.litMap[aigerLit>>1]
+	if m == z.LitNull {
 		return z.LitNull
 	}
 	if aigerLit&1 != 0 {
-		return rv.Pos().Not()
+		return m.Not()
 	}
-	return rv.Pos()
+	return m
 }
 
 // once everything is read, we can use the aiglit to gini Literal
@@ -1092,6 +1084,9 @@ func (aigrdr *aigerReader) readAsciiAnds(hdr *aigerHeader, r *bufio.Reader) erro
 }
 
 func (aigrdr *aigerReader) mapAnds() error {
+	// the constant
+	aigrdr.AigAnds[0].defined = true
+	aigrdr.AigAnds[0].mapped = true
 	for _, m := range aigrdr.AigInputs {
 		ag := &aigrdr.AigAnds[int(m>>1)]
 		ag.defined = true
-- 
2.43.0


From aa265efd3eed4621c57f906d1c30ed133d441eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:31 +0000
Subject: [PATCH 17/30] fix: ascii aiger reader recognizes uninitialized
 latches by the latch literal

---
 logic/aiger/aiger.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index f419bac..2f4e469 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -774,14 +774,19 @@ func (abr *aigerReader) readLatches(hdr *aigerHeader, br *bufio.Reader, ascii bo
 	var i uint
 	for i = 0; i < hdr.Latch; i++ {
 		var m z.Lit
+		self := (hdr.In + i + 1) * 2
 		if ascii {
 			latch, latchErr := readUint(br)
 			if latchErr != nil {
 				return latchErr
 			}
+			if latch > hdr.Max*2+1 {
+				return LitOOB
+			}
 			if latch&1 != 0 {
 				return SignedLatch
 			}
+			self = latch
 			abr.AigLatches = append(abr.AigLatches, latch)
 			m = abr.S.Latch(abr.S.F)
 			abr.mapLit(latch, m)
@@ -796,9 +801,8 @@ func (abr *aigerReader) readLatches(hdr *aigerHeader, br *bufio.Reader, ascii bo
 				return UnexpectedChar
 			}
 		} else {
-			g := (hdr.In + i + 1) * 2
 			m = abr.S.Latch(abr.S.F)
-			abr.mapLit(g, m)
+			abr.mapLit(self, m)
 		}
 		nxt, errNxt := readUint(br)
 		if errNxt != nil {
@@ -828,7 +832,7 @@ func (abr *aigerReader) readLatches(hdr *aigerHeader, br *bufio.Reader, ascii bo
 				abr.SetInit(m, abr.S.F)
 			} else if ini == 1 {
 				abr.SetInit(m, abr.S.T)
-			} else if ini == (i+hdr.In+1)*2 {
+			} else if ini == self {
 				abr.SetInit(m, 0)
 			} else {
 				return InvalidLatchInit
-- 
2.43.0


From f63213dfa327233deae72d3fd873f61b820bb627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:31 +0000
Subject: [PATCH 18/30] fix: copies of aiger objects keep inputs and outputs

---
 logic/aiger/aiger.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 2f4e469..b9e51ab 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -93,11 +93,15 @@ func Copy(a *T) *T {
 	}
 	result := &T{
 		S:           a.S.Copy(),
+		Inputs:      make([]z.Lit, len(a.Inputs)),
+		Outputs:     make([]z.Lit, len(a.Outputs)),
 		Bad:         make([]z.Lit, len(a.Bad)),
 		Constraints: make([]z.Lit, len(a.Constraints)),
 		Justice:     make([][]z.Lit, len(a.Justice)),
 		Fair:        make([]z.Lit, len(a.Fair)),
 		symbols:     make(map[byte]map[int]string, len(a.symbols))}
+	copy(result.Inputs, a.Inputs)
+	copy(result.Outputs, a.Outputs)
 	copy(result.Bad, a.Bad)
 	copy(result.Constraints, a.Constraints)
 	copy(result.Fair, a.Fair)
-- 
2.43.0


From 3e7786c80756a8f662ce53b02e2f3c3d5d433ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:32 +0000
Subject: [PATCH 19/30] fix: binary aiger coding of zero, and read errors in it

---
 logic/aiger/aiger.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index b9e51ab..e1d2c65 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -1443,7 +1443,7 @@ func writeLit(w *bufio.Writer, m, t z.Lit) error {
 
 // for binary aiger coding of and deltas
 func write7(w *bufio.Writer, val uint) error {
-	for val != 0 {
+	for {
 		b := byte(val & 0x7f)
 		val = val >> 7
 		if val != 0 {
@@ -1453,8 +1453,10 @@ func write7(w *bufio.Writer, val uint) error {
 		if err != nil {
 			return err
 		}
+		if val == 0 {
+			return nil
+		}
 	}
-	return nil
 }
 
 // for binary aiger coding of and deltas
@@ -1465,6 +1467,9 @@ func read7(r *bufio.Reader) (result uint, err error) {
 		if e == io.EOF {
 			return 0, PrematureEOF
 		}
+		if e != nil {
+			return 0, e
+		}
 		result |= (uint(b) & 0x7f) << uint8(7*i)
 		i++
 		if b&0x80 == 0 {
-- 
2.43.0


From a5e9291a7221959694d65e7844ad6e0aec97df4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:33 +0000
Subject: [PATCH 20/30] fix: aiger symbol names are checked against the number
 of symbols and read errors reported

---
 logic/aiger/aiger.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index e1d2c65..1b2c7a9 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -128,7 +128,7 @@ func (a *T) Sys() *logic.S {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameInput(index int, nm string) error {
-	if index < 0 || index > len(a.Inputs) {
+	if index < 0 || index >= len(a.Inputs) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -150,7 +150,7 @@ func (a *T) InputName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameLatch(index int, nm string) error {
-	if index < 0 || index > len(a.Latches) {
+	if index < 0 || index >= len(a.Latches) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -182,7 +182,7 @@ func (a *T) NewIn() z.Lit {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameOutput(index int, nm string) error {
-	if index < 0 || index > len(a.Outputs) {
+	if index < 0 || index >= len(a.Outputs) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -204,7 +204,7 @@ func (a *T) OutputName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameBad(index int, nm string) error {
-	if index < 0 || index > len(a.Bad) {
+	if index < 0 || index >= len(a.Bad) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -226,7 +226,7 @@ func (a *T) BadName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameConstraint(index int, nm string) error {
-	if index < 0 || index > len(a.Constraints) {
+	if index < 0 || index >= len(a.Constraints) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -248,7 +248,7 @@ func (a *T) ConstraintName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameJustice(index int, nm string) error {
-	if index < 0 || index > len(a.Justice) {
+	if index < 0 || index >= len(a.Justice) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -270,7 +270,7 @@ func (a *T) JusticeName(index int) (string, bool) {
 // return a non-nil error if index is out of bounds or nm
 // contains a new line
 func (a *T) NameFair(index int, nm string) error {
-	if index < 0 || index > len(a.Fair) {
+	if index < 0 || index >= len(a.Fair) {
 		return InvalidIndex
 	}
 	if strings.Contains(nm, "\n") {
@@ -1160,6 +1160,9 @@ func (aigrdr *aigerReader) readSymsAndComments(r *bufio.Reader) error {
 		if e == io.EOF {
 			return nil
 		}
+		if e != nil {
+			return e
+		}
 		if b == 'i' || b == 'l' || b == 'o' || b == 'b' || b == 'c' || b == 'j' || b == 'f' {
 			// symtab must precede comments
 			if b == 'c' {
-- 
2.43.0


From 1bd4e85944c10dba67cc64bedb2fb458156df00d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 21/30] fix: varuints of more than 32 bits are rejected, not
 truncated

---
 crisp/vu32io.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crisp/vu32io.go b/crisp/vu32io.go
index 1a1816c..0a61d94 100644
--- a/crisp/vu32io.go
+++ b/crisp/vu32io.go
@@ -51,6 +51,9 @@ func (io *vu32io) readu32() (uint32, error) {
 			return 0, e
 		}
 		z := uint32(b) & VarUintMask
+		if i == 4 && z > 0xf {
+			return 0, ErrVarUint // more than 32 bits
+		}
 
 		res = res | (z << s)
 		if b&(1<<7) == 0 {
-- 
2.43.0


From 648e379ff31aa5c58d1b9fcd0c713054ff6e8d74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:40 +0000
Subject: [PATCH 22/30] fix: installing extensions cannot overflow into the
 core operation codes

---
 crisp/exts.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crisp/exts.go b/crisp/exts.go
index 4420dd6..065ba8b 100644
--- a/crisp/exts.go
+++ b/crisp/exts.go
@@ -49,7 +49,7 @@ func NewExts() *Exts {
 // installed) overflows.  This should not exceed NumExtProtos
 func (e *Exts) Install(id uint16, n uint8) (int, error) {
 	m := uint32(n)
-	if e.Off+m >= uint32(MinProto+NumExtProtos) {
+	if m >= uint32(MinProto+NumExtProtos)-e.Off {
 		return -1, fmt.Errorf("too many opcodes installed")
 	}
 	res := len(e.D)
-- 
2.43.0


From 35fe76a3d54a0c4541ea6a58d5b1f986fcc2c290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:41 +0000
Subject: [PATCH 23/30] fix: client models are those of the last solve, and fit
 a supplied slice

---
 crisp/client.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crisp/client.go b/crisp/client.go
index 365015a..0508f37 100644
--- a/crisp/client.go
+++ b/crisp/client.go
@@ -155,6 +155,8 @@ func (c *Client) MaxVar() z.Var {
 //
 //  -1 if the problem is unsatisfiable
 func (c *Client) Solve() (int, error) {
+	c.model = nil // of the previous solve
+	c.lastSat = 0
 	if e := c.checkState(Solve); e != nil {
 		return 0, e
 	}
@@ -295,7 +297,7 @@ func (c *Client) ModelFor(dst []bool, ms []z.Lit) ([]bool, error) {
 	if cap(dst) < int(theCap) {
 		dst = make([]bool, theCap)
 	} else {
-		dst = dst[:theCap+1]
+		dst = dst[:theCap]
 	}
 	for i := uint32(0); i < theCap-1; i++ {
 		j := i % 32
-- 
2.43.0


From 090a95c675a596c3d5955c1d595519bdeb06b147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:46 +0000
Subject: [PATCH 24/30] fix: solver output and icnf readers accept several
 lines of values, spaces and blank lines

---
 dimacs/icnf.go  | 2 +-
 dimacs/int.go   | 9 ++++++++-
 dimacs/solve.go | 3 +++
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/dimacs/icnf.go b/dimacs/icnf.go
index 5f058d2..f48c32b 100644
--- a/dimacs/icnf.go
+++ b/dimacs/icnf.go
@@ -34,7 +34,7 @@ func (i *iCnfReader) read() error {
 	vis := i.vis
 	assumptions := false
 	for {
-		c, e := rdr.ReadByte()
+		c, e := readNextNonWhiteByte(rdr)
 		if e == io.EOF {
 			vis.Eof()
 			return nil
diff --git a/dimacs/int.go b/dimacs/int.go
index ce26a9a..6eb7c41 100644
--- a/dimacs/int.go
+++ b/dimacs/int.go
@@ -38,7 +38,14 @@ func readInt(rdr *bufio.Reader) (int, error) {
 		if e != nil {
 			return 0, e
 		}
-		if c == byte(' ') || c == byte('\n') || c == byte('\t') || c == byte('\r') {
+		if c == byte('\n') {
+			// callers which are sensitive to lines see the end of line.
+			if e := rdr.UnreadByte(); e != nil {
+				return 0, e
+			}
+			break
+		}
+		if c == byte(' ') || c == byte('\t') || c == byte('\r') {
 			break
 		}
 		if c < byte('0') || c > byte('9') {
diff --git a/dimacs/solve.go b/dimacs/solve.go
index 8244ad4..d511b87 100644
--- a/dimacs/solve.go
+++ b/dimacs/solve.go
@@ -87,6 +87,9 @@ func (s *sRdr) read() error {
 				return fmt.Errorf("unexpected character '%c' at line %d\n", c, line)
 			}
 		case values:
+			if c == byte(' ') || c == byte('\t') || c == byte('\r') {
+				continue
+			}
 			if e := rdr.UnreadByte(); e != nil {
 				return e
 			}
-- 
2.43.0


From 53e050abba511beb32fc09ea8dee9a002077b68f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:46 +0000
Subject: [PATCH 25/30] fix: PyTriples constrains exactly the triples of [1..n]
 and keeps partitions apart

---
 gen/pt.go | 32 +++++++++++++++++++++-----------
 1 file changed, 21 insertions(+), 11 deletions(-)

diff --git a/gen/pt.go b/gen/pt.go
index 3dbf482..c525098 100644
--- a/gen/pt.go
+++ b/gen/pt.go
@@ -38,19 +38,29 @@ func Partition(dst inter.Adder, n, k int) {
 }
 
 // PyTriples adds constraints stating there is no triple (i,j,k)
-// s.t i^2 + j^2 = k^2 in some partition of a k-partition of [1..n]
+// s.t i^2 + j^2 = k^2 in some partition of a k-partition of [1..n].
+// PartVar(i-1, p, n) is true if and only if i is in partition p.
 func PyTriples(dst inter.Adder, n, k int) {
 	Partition(dst, n, k)
-	_, ts := pytriples(n)
-	for _, t := range ts {
-		for p := 0; p < k; p++ {
-			a := PartVar(t.a, p, n)
-			b := PartVar(t.b, p, n)
-			c := PartVar(t.c, p, n)
-			dst.Add(a.Not())
-			dst.Add(b.Not())
-			dst.Add(c.Not())
-			dst.Add(0)
+	for bi := 2; bi < n; bi++ {
+		ci := bi
+		for ai := 1; ai < bi; ai++ {
+			c2 := ai*ai + bi*bi
+			for ci*ci < c2 {
+				ci++
+			}
+			if ci > n {
+				break
+			}
+			if ci*ci != c2 {
+				continue
+			}
+			for p := 0; p < k; p++ {
+				dst.Add(PartVar(ai-1, p, n).Not())
+				dst.Add(PartVar(bi-1, p, n).Not())
+				dst.Add(PartVar(ci-1, p, n).Not())
+				dst.Add(0)
+			}
 		}
 	}
 }
-- 
2.43.0


From 16fa0c35de99807bb22b1d1972c5b8b954d7ea61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:17 +0000
Subject: [PATCH 26/30] fix: negative numbers in a dimacs problem statement are
 errors

---
 dimacs/cnf.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dimacs/cnf.go b/dimacs/cnf.go
index c426f7d..e8637e7 100644
--- a/dimacs/cnf.go
+++ b/dimacs/cnf.go
@@ -159,6 +159,9 @@ func (r *cnfReader) readP() error {
 	if e != nil {
 		return e
 	}
+	if nv < 0 || nc < 0 {
+		return fmt.Errorf("problem statement: negative number of vars/clauses %d:%d\n", nv, nc)
+	}
 	r.hdrVars = nv
 	r.hdrCls = nc
 	return nil
-- 
2.43.0


From fa42cdf3458ae71aed73041b5e079e1e5d2532aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:17 +0000
Subject: [PATCH 27/30] fix: an assumption line inside a clause is an error in
 icnf input

---
 dimacs/icnf.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dimacs/icnf.go b/dimacs/icnf.go
index f48c32b..f14b2ce 100644
--- a/dimacs/icnf.go
+++ b/dimacs/icnf.go
@@ -33,6 +33,7 @@ func (i *iCnfReader) read() error {
 	rdr := i.rdr
 	vis := i.vis
 	assumptions := false
+	open := false // literals were read since the last 0
 	for {
 		c, e := readNextNonWhiteByte(rdr)
 		if e == io.EOF {
@@ -43,6 +44,9 @@ func (i *iCnfReader) read() error {
 			return e
 		}
 		if c == 'a' {
+			if open || assumptions {
+				return fmt.Errorf("unexpected: '%c'\n", c)
+			}
 			assumptions = true
 		} else {
 			if e := rdr.UnreadByte(); e != nil {
@@ -58,7 +62,8 @@ func (i *iCnfReader) read() error {
 		} else {
 			vis.Add(m)
 		}
-		if m == z.LitNull {
+		open = m != z.LitNull
+		if !open {
 			assumptions = false
 		}
 	}
-- 
2.43.0


From 2ec7c406a5702bebe2b1e52e1e2b7b517b6c10ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:36 +0000
Subject: [PATCH 28/30] fix: a truncated dimacs problem statement is an error

---
 dimacs/cnf.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dimacs/cnf.go b/dimacs/cnf.go
index e8637e7..46a06d1 100644
--- a/dimacs/cnf.go
+++ b/dimacs/cnf.go
@@ -94,7 +94,11 @@ func (r *cnfReader) readHeader() error {
 		if e := r.rdr.UnreadByte(); e != nil {
 			return e
 		}
-		return r.readP()
+		e := r.readP()
+		if e == io.EOF {
+			return fmt.Errorf("problem statement: %s\n", io.ErrUnexpectedEOF)
+		}
+		return e
 	}
 	return r.rdr.UnreadByte()
 }
-- 
2.43.0


From 1e59d2a309052ebdbd671b1efdf5accc72d75fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:39 +0000
Subject: [PATCH 29/30] fix: gates reached through their negation are written
 to aiger under their own literal

---
 logic/aiger/dfs.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/logic/aiger/dfs.go b/logic/aiger/dfs.go
index 8459fb6..2e4bff8 100644
--- a/logic/aiger/dfs.go
+++ b/logic/aiger/dfs.go
@@ -44,6 +44,7 @@ func (d *sDfs) vis(m z.Lit) {
 		d.vis(c0)
 		d.vis(c1)
 	}
-	d.fn(d.s, m)
+	// a gate may be reached by its negation, which does not name it
+	d.fn(d.s, m.Var().Pos())
 	d.marks[m.Var()] = 2
 }
-- 
2.43.0


From 98e9b2f32fa999ad46cae79403b01e9a32e4eb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:22 +0000
Subject: [PATCH 30/30] fix: an aiger justice property may list more literals
 than the file has

---
 logic/aiger/aiger.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/logic/aiger/aiger.go b/logic/aiger/aiger.go
index 1b2c7a9..be11c03 100644
--- a/logic/aiger/aiger.go
+++ b/logic/aiger/aiger.go
@@ -937,25 +937,22 @@ func (a *aigerReader) readConstraints(r *bufio.Reader, count, max uint) error {
 func (a *aigerReader) readJustice(r *bufio.Reader, count, max uint) error {
 	a.Justice = make([][]z.Lit, int(count), int(count))
 	a.AigJustice = make([][]uint, 0, int(count))
-	counts := make([]int, 0, int(count))
+	counts := make([]uint, 0, int(count))
 	var i uint
 	for i = 0; i < count; i++ {
 		v, err := readUint(r)
 		if err != nil {
 			return err
 		}
-		if v > 2*max+1 {
-			return LitOOB
-		}
-		counts = append(counts, int(v))
+		// a number of literals is not bound by the literals there are
+		counts = append(counts, v)
 		if err := readNL(r); err != nil {
 			return err
 		}
 	}
 	for i, c := range counts {
-		a.AigJustice = append(a.AigJustice, make([]uint, c, c))
-		a.Justice[i] = make([]z.Lit, c, c)
-		for j := 0; j < c; j++ {
+		a.AigJustice = append(a.AigJustice, nil)
+		for j := uint(0); j < c; j++ {
 			v, err := readUint(r)
 			if err != nil {
 				return err
@@ -963,11 +960,12 @@ func (a *aigerReader) readJustice(r *bufio.Reader, count, max uint) error {
 			if v > 2*max+1 {
 				return LitOOB
 			}
-			a.AigJustice[i][j] = v
+			a.AigJustice[i] = append(a.AigJustice[i], v)
 			if err := readNL(r); err != nil {
 				return err
 			}
 		}
+		a.Justice[i] = make([]z.Lit, len(a.AigJustice[i]))
 	}
 	return nil
 }
-- 
2.43.0

