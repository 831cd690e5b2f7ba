From 61fa9dada2c82859ddfc13a4b715f04e28db958d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:55 +0000
Subject: [PATCH 01/30] fix: P256.Add with the point at infinity as second
 operand returns the first operand

---
 crypto/p256/p256.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/p256/p256.go b/crypto/p256/p256.go
index 288d2b2..d3eeb65 100644
--- a/crypto/p256/p256.go
+++ b/crypto/p256/p256.go
@@ -77,8 +77,8 @@ func (p *P256) Add(a, b *P256) *P256 {
         p.Y = b.Y
         return p
     } else if b.IsZero() {
-        p.X = b.X
-        p.Y = b.Y
+        p.X = a.X
+        p.Y = a.Y
         return p
 
     }
-- 
2.43.0


From e019719139c00d6b67a584e8fcc1529b5518de57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:58 +0000
Subject: [PATCH 02/30] fix: P256.Neg negates its argument instead of its
 receiver

---
 crypto/p256/p256.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/p256/p256.go b/crypto/p256/p256.go
index d3eeb65..bef3ded 100644
--- a/crypto/p256/p256.go
+++ b/crypto/p256/p256.go
@@ -64,7 +64,7 @@ func (p *P256) Neg(a *P256) *P256 {
     }
     one := new(big.Int).SetInt64(1)
     mone := new(big.Int).Sub(CURVE.N, one)
-    p.ScalarMult(p, mone)
+    p.ScalarMult(a, mone)
     return p
 }
 
-- 
2.43.0


From 92548dde6afcb356d00adb5466e9dd817d78b4ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:01 +0000
Subject: [PATCH 03/30] fix: doubling a bn256 point in place reads y after
 overwriting it

---
 crypto/bn256/curve.go | 9 +++++----
 crypto/bn256/twist.go | 7 ++++---
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/crypto/bn256/curve.go b/crypto/bn256/curve.go
index 6ad76e4..d045b57 100644
--- a/crypto/bn256/curve.go
+++ b/crypto/bn256/curve.go
@@ -213,6 +213,11 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
     f := pool.Get().Mul(e, e)
     f.Mod(f, P)
 
+    // c may be the same point as a: z is computed before y is overwritten.
+    t.Mul(a.y, a.z)
+    t.Mod(t, P)
+    c.z.Add(t, t)
+
     t.Add(d, d)
     c.x.Sub(f, t)
 
@@ -224,10 +229,6 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
     t2.Mod(t2, P)
     c.y.Sub(t2, t)
 
-    t.Mul(a.y, a.z)
-    t.Mod(t, P)
-    c.z.Add(t, t)
-
     pool.Put(A)
     pool.Put(B)
     pool.Put(C_)
diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index d59b228..08d5ecb 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -191,6 +191,10 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
     e := newGFp2(pool).Add(t, A)
     f := newGFp2(pool).Square(e, pool)
 
+    // c may be the same point as a: z is computed before y is overwritten.
+    t.Mul(a.y, a.z, pool)
+    c.z.Add(t, t)
+
     t.Add(d, d)
     c.x.Sub(f, t)
 
@@ -201,9 +205,6 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
     t2.Mul(e, c.y, pool)
     c.y.Sub(t2, t)
 
-    t.Mul(a.y, a.z, pool)
-    c.z.Add(t, t)
-
     A.Put(pool)
     B.Put(pool)
     C_.Put(pool)
-- 
2.43.0


From 45979fc9c792edf28682f6229cd3b966266aad03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:43 +0000
Subject: [PATCH 04/30] fix: negating an affine twist point keeps t=z^2, which
 the Miller loop reads

---
 crypto/bn256/twist.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index 08d5ecb..502b3c3 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -261,5 +261,5 @@ func (c *twistPoint) Negative(a *twistPoint, pool *bnPool) {
     c.y.SetZero()
     c.y.Sub(c.y, a.y)
     c.z.Set(a.z)
-    c.t.SetZero()
+    c.t.Set(a.t)
 }
-- 
2.43.0


From d55e56414f7010890e25e54f03de3ce2f81271c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:46 +0000
Subject: [PATCH 05/30] fix: MakeAffine turned the point at infinity of the
 twist into an off-curve point

---
 crypto/bn256/twist.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index 502b3c3..df0bce5 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -240,6 +240,13 @@ func (c *twistPoint) MakeAffine(pool *bnPool) *twistPoint {
         return c
     }
 
+    if c.IsInfinity() {
+        c.x.SetZero()
+        c.y.SetZero()
+        c.t.SetZero()
+        return c
+    }
+
     zInv := newGFp2(pool).Invert(c.z, pool)
     t := newGFp2(pool).Mul(c.y, zInv, pool)
     zInv2 := newGFp2(pool).Square(zInv, pool)
-- 
2.43.0


From d2a0a63bec60db389dc2c12c770841abaa3a0934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:49 +0000
Subject: [PATCH 06/30] fix: reading a bn256 element (encoding, printing,
 comparing) no longer writes to it

---
 crypto/bn256/bn256.go | 53 +++++++++++++++++++++++++------------------
 crypto/bn256/curve.go |  6 +++--
 crypto/bn256/gfp12.go | 10 ++++----
 3 files changed, 41 insertions(+), 28 deletions(-)

diff --git a/crypto/bn256/bn256.go b/crypto/bn256/bn256.go
index 22275ed..b7af738 100644
--- a/crypto/bn256/bn256.go
+++ b/crypto/bn256/bn256.go
@@ -142,10 +142,13 @@ func (e *G1) Neg(a *G1) *G1 {
 
 // Marshal converts n to a byte slice.
 func (n *G1) Marshal() []byte {
-    n.p.MakeAffine(nil)
+    // Work on a copy: encoding an element must not change it.
+    p := newCurvePoint(nil)
+    p.Set(n.p)
+    p.MakeAffine(nil)
 
-    xBytes := new(big.Int).Mod(n.p.x, P).Bytes()
-    yBytes := new(big.Int).Mod(n.p.y, P).Bytes()
+    xBytes := new(big.Int).Mod(p.x, P).Bytes()
+    yBytes := new(big.Int).Mod(p.y, P).Bytes()
 
     // Each value is a 256-bit number.
     const numBytes = 256 / 8
@@ -283,12 +286,15 @@ func (e *G2) Neg(a *G2) *G2 {
 
 // Marshal converts n into a byte slice.
 func (n *G2) Marshal() []byte {
-    n.p.MakeAffine(nil)
+    // Work on a copy: encoding an element must not change it.
+    p := newTwistPoint(nil)
+    p.Set(n.p)
+    p.MakeAffine(nil)
 
-    xxBytes := new(big.Int).Mod(n.p.x.x, P).Bytes()
-    xyBytes := new(big.Int).Mod(n.p.x.y, P).Bytes()
-    yxBytes := new(big.Int).Mod(n.p.y.x, P).Bytes()
-    yyBytes := new(big.Int).Mod(n.p.y.y, P).Bytes()
+    xxBytes := new(big.Int).Mod(p.x.x, P).Bytes()
+    xyBytes := new(big.Int).Mod(p.x.y, P).Bytes()
+    yxBytes := new(big.Int).Mod(p.y.x, P).Bytes()
+    yyBytes := new(big.Int).Mod(p.y.y, P).Bytes()
 
     // Each value is a 256-bit number.
     const numBytes = 256 / 8
@@ -423,20 +429,23 @@ func (e *GT) Neg(a *GT) *GT {
 
 // Marshal converts n into a byte slice.
 func (n *GT) Marshal() []byte {
-    n.p.Minimal()
-
-    xxxBytes := n.p.x.x.x.Bytes()
-    xxyBytes := n.p.x.x.y.Bytes()
-    xyxBytes := n.p.x.y.x.Bytes()
-    xyyBytes := n.p.x.y.y.Bytes()
-    xzxBytes := n.p.x.z.x.Bytes()
-    xzyBytes := n.p.x.z.y.Bytes()
-    yxxBytes := n.p.y.x.x.Bytes()
-    yxyBytes := n.p.y.x.y.Bytes()
-    yyxBytes := n.p.y.y.x.Bytes()
-    yyyBytes := n.p.y.y.y.Bytes()
-    yzxBytes := n.p.y.z.x.Bytes()
-    yzyBytes := n.p.y.z.y.Bytes()
+    // Work on a copy: encoding an element must not change it.
+    p := newGFp12(nil)
+    p.Set(n.p)
+    p.Minimal()
+
+    xxxBytes := p.x.x.x.Bytes()
+    xxyBytes := p.x.x.y.Bytes()
+    xyxBytes := p.x.y.x.Bytes()
+    xyyBytes := p.x.y.y.Bytes()
+    xzxBytes := p.x.z.x.Bytes()
+    xzyBytes := p.x.z.y.Bytes()
+    yxxBytes := p.y.x.x.Bytes()
+    yxyBytes := p.y.x.y.Bytes()
+    yyxBytes := p.y.y.x.Bytes()
+    yyyBytes := p.y.y.y.Bytes()
+    yzxBytes := p.y.z.x.Bytes()
+    yzyBytes := p.y.z.y.Bytes()
 
     // Each value is a 256-bit number.
     const numBytes = 256 / 8
diff --git a/crypto/bn256/curve.go b/crypto/bn256/curve.go
index d045b57..8afa398 100644
--- a/crypto/bn256/curve.go
+++ b/crypto/bn256/curve.go
@@ -48,8 +48,10 @@ func newCurvePoint(pool *bnPool) *curvePoint {
 }
 
 func (c *curvePoint) String() string {
-    c.MakeAffine(new(bnPool))
-    return "(" + c.x.String() + ", " + c.y.String() + ")"
+    affine := newCurvePoint(nil)
+    affine.Set(c)
+    affine.MakeAffine(new(bnPool))
+    return "(" + affine.x.String() + ", " + affine.y.String() + ")"
 }
 
 func (c *curvePoint) Put(pool *bnPool) {
diff --git a/crypto/bn256/gfp12.go b/crypto/bn256/gfp12.go
index 1974234..902a04a 100644
--- a/crypto/bn256/gfp12.go
+++ b/crypto/bn256/gfp12.go
@@ -68,13 +68,15 @@ func (e *gfP12) Minimal() {
 }
 
 func (e *gfP12) IsZero() bool {
-    e.Minimal()
-    return e.x.IsZero() && e.y.IsZero()
+    t := newGFp12(nil).Set(e)
+    t.Minimal()
+    return t.x.IsZero() && t.y.IsZero()
 }
 
 func (e *gfP12) IsOne() bool {
-    e.Minimal()
-    return e.x.IsZero() && e.y.IsOne()
+    t := newGFp12(nil).Set(e)
+    t.Minimal()
+    return t.x.IsZero() && t.y.IsOne()
 }
 
 func (e *gfP12) Conjugate(a *gfP12) *gfP12 {
-- 
2.43.0


From 49d53803d3debcb0f373fe036a550e49e3c52448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:53 +0000
Subject: [PATCH 07/30] fix: printing a G2 element depends on its value only,
 not on its Jacobian representation

---
 crypto/bn256/twist.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index df0bce5..2489c6f 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -65,7 +65,10 @@ func newTwistPoint(pool *bnPool) *twistPoint {
 }
 
 func (c *twistPoint) String() string {
-    return "(" + c.x.String() + ", " + c.y.String() + ", " + c.z.String() + ")"
+    affine := newTwistPoint(nil)
+    affine.Set(c)
+    affine.MakeAffine(new(bnPool))
+    return "(" + affine.x.String() + ", " + affine.y.String() + ", " + affine.z.String() + ")"
 }
 
 func (c *twistPoint) Put(pool *bnPool) {
-- 
2.43.0


From 41f6af21ae74c94e5e439339467bac1324c7fc6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:14:57 +0000
Subject: [PATCH 08/30] fix: GT.Exp sets its receiver and leaves its operand
 alone, GT.ScalarMult handles negative scalars

---
 crypto/bn256/bn256.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/crypto/bn256/bn256.go b/crypto/bn256/bn256.go
index b7af738..7a5721a 100644
--- a/crypto/bn256/bn256.go
+++ b/crypto/bn256/bn256.go
@@ -358,22 +358,21 @@ func (g *GT) String() string {
 }
 
 // ScalarMult sets e to a*k and then returns e.
+// This method deals with negative numbers too.
 func (e *GT) ScalarMult(a *GT, k *big.Int) *GT {
     if e.p == nil {
         e.p = newGFp12(nil)
     }
-    e.p.Exp(a.p, k, new(bnPool))
+    e.p.Exp(a.p, new(big.Int).Abs(k), new(bnPool))
+    if k.Sign() < 0 {
+        e.p.Invert(e.p, new(bnPool))
+    }
     return e
 }
 
+// Exp sets e to a*k and then returns e.
 func (e *GT) Exp(a *GT, k *big.Int) *GT {
-    var returnValue *GT
-    if k.Cmp(big.NewInt(0)) >= 0 {
-        returnValue = a.ScalarMult(a, k)
-    } else {
-        returnValue = a.Invert(a.ScalarMult(a, new(big.Int).Abs(k)))
-    }
-    return returnValue
+    return e.ScalarMult(a, k)
 }
 
 func (e *GT) Invert(a *GT) *GT {
-- 
2.43.0


From 1590ed73ec643fd4b0c420fec39ff0a12a9bb879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:00 +0000
Subject: [PATCH 09/30] fix: G2.Unmarshal rejects points outside the
 prime-order subgroup

---
 crypto/bn256/bn256.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/crypto/bn256/bn256.go b/crypto/bn256/bn256.go
index 7a5721a..2541dae 100644
--- a/crypto/bn256/bn256.go
+++ b/crypto/bn256/bn256.go
@@ -339,7 +339,8 @@ func (e *G2) Unmarshal(m []byte) (*G2, bool) {
         e.p.z.SetOne()
         e.p.t.SetOne()
 
-        if !e.p.IsOnCurve() {
+        // The twist has a cofactor: being on the curve does not imply being in G₂.
+        if !e.p.IsOnCurve() || !newTwistPoint(nil).Mul(e.p, Order, new(bnPool)).IsInfinity() {
             return nil, false
         }
     }
-- 
2.43.0


From 82d388ab22c3292d3dd6e185e1da630c4e28db72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:23 +0000
Subject: [PATCH 10/30] fix: HashBP returns two independent challenges (y and z
 were always equal)

---
 bulletproofs/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 7a4fd37..0f9ee2d 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -71,7 +71,7 @@ func HashBP(A, S *p256.P256) (*big.Int, *big.Int, error) {
     buffer2.WriteString(S.X.String())
     buffer2.WriteString(S.Y.String())
     buffer2.WriteString(result1.String())
-    digest2.Write(buffer.Bytes())
+    digest2.Write(buffer2.Bytes())
     output2 := digest2.Sum(nil)
     tmp2 := output2[0:]
     result2 := new(big.Int).SetBytes(tmp2)
-- 
2.43.0


From c594588ca4438e9c242b68022a12b9a9bcc21320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:26 +0000
Subject: [PATCH 11/30] fix: Fiat-Shamir challenges bind the value commitment
 and the whole transcript

---
 bulletproofs/bp.go   |  8 ++++----
 bulletproofs/util.go | 23 ++++++++++-------------
 2 files changed, 14 insertions(+), 17 deletions(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index abe984a..1dccfca 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -126,7 +126,7 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error)
     S := commitVectorBig(sL, sR, rho, params.H, params.Gg, params.Hh, params.N) // (47)
 
     // Fiat-Shamir heuristic to compute challenges y and z, corresponds to    (49)
-    y, z, _ := HashBP(A, S)
+    y, z, _ := HashBP(V, A, S)
 
     // ////////////////////////////////////////////////////////////////////////////
     // Second phase: page 20
@@ -179,7 +179,7 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error)
     T2, _ := CommitG1(t2, tau2, params.H) // (53)
 
     // Fiat-Shamir heuristic to compute 'random' challenge x
-    x, _, _ := HashBP(T1, T2)
+    x, _, _ := HashBP(V, A, S, T1, T2)
 
     // ////////////////////////////////////////////////////////////////////////////
     // Third phase                                                              //
@@ -244,8 +244,8 @@ Verify returns true if and only if the proof is valid.
 func (proof *BulletProof) Verify() (bool, error) {
     params := proof.Params
     // Recover x, y, z using Fiat-Shamir heuristic
-    x, _, _ := HashBP(proof.T1, proof.T2)
-    y, z, _ := HashBP(proof.A, proof.S)
+    x, _, _ := HashBP(proof.V, proof.A, proof.S, proof.T1, proof.T2)
+    y, z, _ := HashBP(proof.V, proof.A, proof.S)
 
     // Switch generators                                                   // (64)
     hprime := updateGenerators(params.Hh, y, params.N)
diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 0f9ee2d..35acf14 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -49,29 +49,26 @@ func powerOf(x *big.Int, n int64) []*big.Int {
 }
 
 /*
-Hash is responsible for the computing a Zp element given elements from GT and G1.
+HashBP is responsible for the computing two Zp elements given elements from G1. All
+the elements that were sent before the challenge must be given, the value commitment
+included.
 */
-func HashBP(A, S *p256.P256) (*big.Int, *big.Int, error) {
+func HashBP(points ...*p256.P256) (*big.Int, *big.Int, error) {
 
     digest1 := sha256.New()
     var buffer bytes.Buffer
-    buffer.WriteString(A.X.String())
-    buffer.WriteString(A.Y.String())
-    buffer.WriteString(S.X.String())
-    buffer.WriteString(S.Y.String())
+    for _, point := range points {
+        buffer.WriteString(point.X.String())
+        buffer.WriteString(point.Y.String())
+    }
     digest1.Write(buffer.Bytes())
     output1 := digest1.Sum(nil)
     tmp1 := output1[0:]
     result1 := new(big.Int).SetBytes(tmp1)
 
     digest2 := sha256.New()
-    var buffer2 bytes.Buffer
-    buffer2.WriteString(A.X.String())
-    buffer2.WriteString(A.Y.String())
-    buffer2.WriteString(S.X.String())
-    buffer2.WriteString(S.Y.String())
-    buffer2.WriteString(result1.String())
-    digest2.Write(buffer2.Bytes())
+    buffer.WriteString(result1.String())
+    digest2.Write(buffer.Bytes())
     output2 := digest2.Sum(nil)
     tmp2 := output2[0:]
     result2 := new(big.Int).SetBytes(tmp2)
-- 
2.43.0


From ce279a1d0e0eb300be6eebe0efc0d2a1a03ef5b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:15:56 +0000
Subject: [PATCH 12/30] fix: verifying an inner product proof no longer changes
 it

---
 bulletproofs/bip.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index badb065..a3faaba 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -227,7 +227,8 @@ func (proof InnerProductProof) Verify() (bool, error) {
 
     gprime := proof.Params.Gg
     hprime := proof.Params.Hh
-    Pprime := proof.Params.P
+    // Work on a copy: verifying a proof must not change it.
+    Pprime := &p256.P256{X: proof.Params.P.X, Y: proof.Params.P.Y}
     nprime := proof.N
     for i := int64(0); i < int64(logn); i++ {
         nprime = nprime / 2                        // (20)
-- 
2.43.0


From 8701651ef8943b6e6106dbe8a2e2e31bf42f1fe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:00 +0000
Subject: [PATCH 13/30] fix: verifying a malformed proof returns an error
 instead of panicking

---
 bulletproofs/bip.go  | 23 +++++++++++++++++++++++
 bulletproofs/bp.go   | 21 +++++++++++++++++++++
 bulletproofs/util.go | 20 ++++++++++++++++++++
 3 files changed, 64 insertions(+)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index a3faaba..e7a27d4 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -218,6 +218,9 @@ func computeBipRecursive(a, b []*big.Int, g, h []*p256.P256, u, P *p256.P256, n
 Verify is responsible for the verification of the Inner Product Proof.
 */
 func (proof InnerProductProof) Verify() (bool, error) {
+    if !proof.wellFormed() {
+        return false, errors.New("malformed inner product proof")
+    }
 
     logn := len(proof.Ls)
     var (
@@ -266,6 +269,26 @@ func (proof InnerProductProof) Verify() (bool, error) {
     return c, nil
 }
 
+/*
+wellFormed returns true if and only if all the elements of the proof are present and
+valid, and if their number is the expected one.
+*/
+func (proof *InnerProductProof) wellFormed() bool {
+    n := int64(len(proof.Params.Gg))
+    if !IsPowerOfTwo(n) || proof.N != n || proof.Params.N != n || int64(len(proof.Params.Hh)) != n {
+        return false
+    }
+    if len(proof.Ls) != len(proof.Rs) || len(proof.Ls) > 62 || int64(1)<<uint(len(proof.Ls)) != n {
+        return false
+    }
+    if proof.A == nil || proof.B == nil || proof.Params.Cc == nil {
+        return false
+    }
+    return validPoints(proof.U, proof.Params.P, proof.Params.Uu) &&
+        validPoints(proof.Ls...) && validPoints(proof.Rs...) &&
+        validPoints(proof.Params.Gg...) && validPoints(proof.Params.Hh...)
+}
+
 /*
 hashIP is responsible for the computing a Zp element given elements from GT and G1.
 */
diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 1dccfca..7aae2a6 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -242,6 +242,9 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error)
 Verify returns true if and only if the proof is valid.
 */
 func (proof *BulletProof) Verify() (bool, error) {
+    if !proof.wellFormed() {
+        return false, errors.New("malformed proof")
+    }
     params := proof.Params
     // Recover x, y, z using Fiat-Shamir heuristic
     x, _, _ := HashBP(proof.V, proof.A, proof.S, proof.T1, proof.T2)
@@ -333,6 +336,24 @@ func (proof *BulletProof) Verify() (bool, error) {
     return result, nil
 }
 
+/*
+wellFormed returns true if and only if all the elements of the proof are present and
+valid, and if their number is the expected one.
+*/
+func (proof *BulletProof) wellFormed() bool {
+    params := &proof.Params
+    n := params.N
+    if !IsPowerOfTwo(n) || n < 0 || n > 32 || int64(len(params.Gg)) != n || int64(len(params.Hh)) != n {
+        return false
+    }
+    if proof.Taux == nil || proof.Mu == nil || proof.Tprime == nil {
+        return false
+    }
+    return validPoints(proof.V, proof.A, proof.S, proof.T1, proof.T2, proof.Commit, params.G, params.H) &&
+        validPoints(params.Gg...) && validPoints(params.Hh...) &&
+        proof.InnerProductProof.wellFormed() && proof.InnerProductProof.N == n
+}
+
 /*
 SampleRandomVector generates a vector composed by random big numbers.
 */
diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 35acf14..4c71cc5 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -76,6 +76,26 @@ func HashBP(points ...*p256.P256) (*big.Int, *big.Int, error) {
     return result1, result2, nil
 }
 
+/*
+validPoints returns true if and only if all the points are on the curve, or are the
+point at infinity.
+*/
+func validPoints(points ...*p256.P256) bool {
+    for _, p := range points {
+        if p == nil || (p.X == nil) != (p.Y == nil) {
+            return false
+        }
+        if p.IsZero() {
+            continue
+        }
+        if p.X.Sign() < 0 || p.X.Cmp(p256.CURVE.P) >= 0 ||
+            p.Y.Sign() < 0 || p.Y.Cmp(p256.CURVE.P) >= 0 || !p.IsOnCurve() {
+            return false
+        }
+    }
+    return true
+}
+
 /*
 VectorExp computes Prod_i^n{a[i]^b[i]}.
 */
-- 
2.43.0


From 45cfb5f05bbea34ca06419e92b5a28e5ccef2860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:16:36 +0000
Subject: [PATCH 14/30] fix: a range proof is verified under the protocol's
 generators, not the prover's

---
 bulletproofs/bp.go   | 18 +++++++++++++++++-
 bulletproofs/util.go | 19 +++++++++++++++++++
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 7aae2a6..0fcabae 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -245,7 +245,14 @@ func (proof *BulletProof) Verify() (bool, error) {
     if !proof.wellFormed() {
         return false, errors.New("malformed proof")
     }
-    params := proof.Params
+    // The generators are chosen by the protocol, not by the prover.
+    params, err := Setup(int64(1) << uint(proof.Params.N))
+    if err != nil {
+        return false, err
+    }
+    if !params.sameGenerators(&proof.Params) {
+        return false, errors.New("proof uses unknown generators")
+    }
     // Recover x, y, z using Fiat-Shamir heuristic
     x, _, _ := HashBP(proof.V, proof.A, proof.S, proof.T1, proof.T2)
     y, z, _ := HashBP(proof.V, proof.A, proof.S)
@@ -354,6 +361,15 @@ func (proof *BulletProof) wellFormed() bool {
         proof.InnerProductProof.wellFormed() && proof.InnerProductProof.N == n
 }
 
+/*
+sameGenerators returns true if and only if both parameters have the same generators.
+*/
+func (params *BulletProofSetupParams) sameGenerators(other *BulletProofSetupParams) bool {
+    return params.N == other.N &&
+        equalPoints([]*p256.P256{params.G, params.H}, []*p256.P256{other.G, other.H}) &&
+        equalPoints(params.Gg, other.Gg) && equalPoints(params.Hh, other.Hh)
+}
+
 /*
 SampleRandomVector generates a vector composed by random big numbers.
 */
diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 4c71cc5..68dc719 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -96,6 +96,25 @@ func validPoints(points ...*p256.P256) bool {
     return true
 }
 
+/*
+equalPoints returns true if and only if both vectors contain the same points.
+*/
+func equalPoints(a, b []*p256.P256) bool {
+    if len(a) != len(b) {
+        return false
+    }
+    for i := range a {
+        if a[i].IsZero() || b[i].IsZero() {
+            if a[i].IsZero() != b[i].IsZero() {
+                return false
+            }
+        } else if a[i].X.Cmp(b[i].X) != 0 || a[i].Y.Cmp(b[i].Y) != 0 {
+            return false
+        }
+    }
+    return true
+}
+
 /*
 VectorExp computes Prod_i^n{a[i]^b[i]}.
 */
-- 
2.43.0


From 029a323941417ef815b5f8671750714e1f10f9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:01 +0000
Subject: [PATCH 15/30] fix: the inner product argument is verified for the
 range proof's own statement

---
 bulletproofs/bip.go | 36 +++++++++++++++++++++++++++++++-----
 bulletproofs/bp.go  |  3 ++-
 2 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index e7a27d4..46462e8 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -221,6 +221,36 @@ func (proof InnerProductProof) Verify() (bool, error) {
     if !proof.wellFormed() {
         return false, errors.New("malformed inner product proof")
     }
+    // Recover the commitment P from P' = P.u^(x.c)
+    P := new(p256.P256).ScalarMult(proof.U, proof.Params.Cc)
+    P.Multiply(P.Neg(P), proof.Params.P)
+    return proof.verifyStatement(P, proof.Params.Gg, proof.Params.Hh, proof.Params.Cc)
+}
+
+/*
+verifyStatement returns true if and only if the proof shows knowledge of vectors a, b
+such that P = g^a.h^b and <a,b> = c.
+*/
+func (proof InnerProductProof) verifyStatement(P *p256.P256, g, h []*p256.P256, c *big.Int) (bool, error) {
+    // x = Hash(g,h,P,c) and P' = P.u^(x.c) are recomputed, they can not be chosen by the prover.
+    x, err := hashIP(g, h, P, c, proof.N)
+    if err != nil {
+        return false, err
+    }
+    u, err := p256.MapToGroup(SEEDU)
+    if err != nil {
+        return false, err
+    }
+    u.ScalarMult(u, x)
+    Pprime := new(p256.P256).ScalarMult(u, c)
+    Pprime.Multiply(Pprime, P)
+    return proof.verifyRounds(u, Pprime, g, h)
+}
+
+/*
+verifyRounds is responsible for the verification of Protocol 2.
+*/
+func (proof InnerProductProof) verifyRounds(u, Pprime *p256.P256, gprime, hprime []*p256.P256) (bool, error) {
 
     logn := len(proof.Ls)
     var (
@@ -228,10 +258,6 @@ func (proof InnerProductProof) Verify() (bool, error) {
         ngprime, nhprime, ngprime2, nhprime2 []*p256.P256
     )
 
-    gprime := proof.Params.Gg
-    hprime := proof.Params.Hh
-    // Work on a copy: verifying a proof must not change it.
-    Pprime := &p256.P256{X: proof.Params.P.X, Y: proof.Params.P.Y}
     nprime := proof.N
     for i := int64(0); i < int64(logn); i++ {
         nprime = nprime / 2                        // (20)
@@ -259,7 +285,7 @@ func (proof InnerProductProof) Verify() (bool, error) {
     rhs := new(p256.P256).ScalarMult(gprime[0], proof.A)
     hb := new(p256.P256).ScalarMult(hprime[0], proof.B)
     rhs.Multiply(rhs, hb)
-    rhs.Multiply(rhs, new(p256.P256).ScalarMult(proof.U, ab))
+    rhs.Multiply(rhs, new(p256.P256).ScalarMult(u, ab))
     // Compute inverse of left hand side
     nP := Pprime.Neg(Pprime)
     nP.Multiply(nP, rhs)
diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 0fcabae..e703db3 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -336,7 +336,8 @@ func (proof *BulletProof) Verify() (bool, error) {
     c67 := rP.IsZero()
 
     // Verify Inner Product Proof ################################################
-    ok, _ := proof.InnerProductProof.Verify()
+    // The argument must be about this proof's generators, commitment and tprime.
+    ok, _ := proof.InnerProductProof.verifyStatement(proof.Commit, params.Gg, hprime, proof.Tprime)
 
     result := c65 && c67 && ok
 
-- 
2.43.0


From a2a5c446208aef48266881de2001408381e22545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:26 +0000
Subject: [PATCH 16/30] fix: range prover reports failures of the random source

---
 bulletproofs/bp.go | 45 +++++++++++++++++++++++++++++++++++----------
 1 file changed, 35 insertions(+), 10 deletions(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index e703db3..0f67cc5 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -110,19 +110,34 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error)
     // ////////////////////////////////////////////////////////////////////////////
 
     // commitment to v and gamma
-    gamma, _ := rand.Int(rand.Reader, ORDER)
+    gamma, err := rand.Int(rand.Reader, ORDER)
+    if err != nil {
+        return proof, err
+    }
     V, _ := CommitG1(secret, gamma, params.H)
 
     // aL, aR and commitment: (A, alpha)
     aL, _ := Decompose(secret, 2, params.N)                                    // (41)
     aR, _ := computeAR(aL)                                                     // (42)
-    alpha, _ := rand.Int(rand.Reader, ORDER)                                   // (43)
+    alpha, err := rand.Int(rand.Reader, ORDER)                                   // (43)
+    if err != nil {
+        return proof, err
+    }
     A := commitVector(aL, aR, alpha, params.H, params.Gg, params.Hh, params.N) // (44)
 
     // sL, sR and commitment: (S, rho)                                     // (45)
-    sL := sampleRandomVector(params.N)
-    sR := sampleRandomVector(params.N)
-    rho, _ := rand.Int(rand.Reader, ORDER)                                      // (46)
+    sL, err := sampleRandomVector(params.N)
+    if err != nil {
+        return proof, err
+    }
+    sR, err := sampleRandomVector(params.N)
+    if err != nil {
+        return proof, err
+    }
+    rho, err := rand.Int(rand.Reader, ORDER)                                      // (46)
+    if err != nil {
+        return proof, err
+    }
     S := commitVectorBig(sL, sR, rho, params.H, params.Gg, params.Hh, params.N) // (47)
 
     // Fiat-Shamir heuristic to compute challenges y and z, corresponds to    (49)
@@ -131,8 +146,14 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error)
     // ////////////////////////////////////////////////////////////////////////////
     // Second phase: page 20
     // ////////////////////////////////////////////////////////////////////////////
-    tau1, _ := rand.Int(rand.Reader, ORDER) // (52)
-    tau2, _ := rand.Int(rand.Reader, ORDER) // (52)
+    tau1, err := rand.Int(rand.Reader, ORDER) // (52)
+    if err != nil {
+        return proof, err
+    }
+    tau2, err := rand.Int(rand.Reader, ORDER) // (52)
+    if err != nil {
+        return proof, err
+    }
 
     /*
        The paper does not describe how to compute t1 and t2.
@@ -374,12 +395,16 @@ func (params *BulletProofSetupParams) sameGenerators(other *BulletProofSetupPara
 /*
 SampleRandomVector generates a vector composed by random big numbers.
 */
-func sampleRandomVector(N int64) []*big.Int {
+func sampleRandomVector(N int64) ([]*big.Int, error) {
+    var err error
     s := make([]*big.Int, N)
     for i := int64(0); i < N; i++ {
-        s[i], _ = rand.Int(rand.Reader, ORDER)
+        s[i], err = rand.Int(rand.Reader, ORDER)
+        if err != nil {
+            return nil, err
+        }
     }
-    return s
+    return s, nil
 }
 
 /*
-- 
2.43.0


From 9fc7fa6d4a3869bb5dd4c058baaae84acc8a1bda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:30 +0000
Subject: [PATCH 17/30] fix: range prover refuses secrets that the commitment
 can not represent

---
 bulletproofs/bp.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 0f67cc5..3b46978 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -105,6 +105,11 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error)
     var (
         proof BulletProof
     )
+    // V only commits to the secret modulo the group order
+    if secret.CmpAbs(ORDER) >= 0 {
+        return proof, errors.New("secret is not smaller than the group order")
+    }
+
     // ////////////////////////////////////////////////////////////////////////////
     // First phase: page 19
     // ////////////////////////////////////////////////////////////////////////////
-- 
2.43.0


From a33c5595dafe0de51788485b2306a570d427831d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:32 +0000
Subject: [PATCH 18/30] fix: Keygen reported an error for every key pair it
 generated

---
 crypto/bbsignatures/bb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/bbsignatures/bb.go b/crypto/bbsignatures/bb.go
index 578ffea..b0b2346 100644
--- a/crypto/bbsignatures/bb.go
+++ b/crypto/bbsignatures/bb.go
@@ -52,7 +52,7 @@ func Keygen() (Keypair, error) {
         return kp, e
     }
     kp.Pubk, res = new(bn256.G1).Unmarshal(new(bn256.G1).ScalarBaseMult(kp.Privk).Marshal())
-    if res {
+    if !res {
         return kp, errors.New("Could not compute scalar multiplication.")
     }
     return kp, e
-- 
2.43.0


From 1545c304a14bcdd2b4269e08b58d0ac886eda533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:35 +0000
Subject: [PATCH 19/30] fix: Sign returns an error for the message that has no
 signature

---
 crypto/bbsignatures/bb.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto/bbsignatures/bb.go b/crypto/bbsignatures/bb.go
index b0b2346..a6d6cf6 100644
--- a/crypto/bbsignatures/bb.go
+++ b/crypto/bbsignatures/bb.go
@@ -67,6 +67,9 @@ func Sign(m *big.Int, privk *big.Int) (*bn256.G2, error) {
         signature *bn256.G2
     )
     inv := bn.ModInverse(bn.Mod(bn.Add(m, privk), bn256.Order), bn256.Order)
+    if inv == nil {
+        return nil, errors.New("The message can not be signed with this key.")
+    }
     signature, res = new(bn256.G2).Unmarshal(new(bn256.G2).ScalarBaseMult(inv).Marshal())
     if res {
         return signature, nil
-- 
2.43.0


From 89dffa2cd84dea8492d9cc24985b2e0ef03985d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:39 +0000
Subject: [PATCH 20/30] fix: set membership and base-u setup and provers report
 failures of the random source

---
 ccs08/ccs08.go | 82 +++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 64 insertions(+), 18 deletions(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 602d579..e8c3dd2 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -99,14 +99,21 @@ SetupSet generates the signature for the elements in the set.
 */
 func SetupSet(s []int64) (paramsSet, error) {
     var (
-        i int
-        p paramsSet
+        i   int
+        p   paramsSet
+        err error
     )
-    p.kp, _ = bbsignatures.Keygen()
+    p.kp, err = bbsignatures.Keygen()
+    if err != nil {
+        return p, err
+    }
 
     p.signatures = make(map[int64]*bn256.G2)
     for i = 0; i < len(s); i++ {
-        sig_i, _ := bbsignatures.Sign(new(big.Int).SetInt64(int64(s[i])), p.kp.Privk)
+        sig_i, err := bbsignatures.Sign(new(big.Int).SetInt64(int64(s[i])), p.kp.Privk)
+        if err != nil {
+            return p, err
+        }
         p.signatures[s[i]] = sig_i
     }
     // Issue #12: p.H must be computed using MapToPoint method.
@@ -122,14 +129,21 @@ order to get smaller parameters, at the cost of having worse performance.
 */
 func SetupUL(u, l int64) (paramsUL, error) {
     var (
-        i int64
-        p paramsUL
+        i   int64
+        p   paramsUL
+        err error
     )
-    p.kp, _ = bbsignatures.Keygen()
+    p.kp, err = bbsignatures.Keygen()
+    if err != nil {
+        return p, err
+    }
 
     p.signatures = make(map[string]*bn256.G2)
     for i = 0; i < u; i++ {
-        sig_i, _ := bbsignatures.Sign(new(big.Int).SetInt64(i), p.kp.Privk)
+        sig_i, err := bbsignatures.Sign(new(big.Int).SetInt64(i), p.kp.Privk)
+        if err != nil {
+            return p, err
+        }
         p.signatures[strconv.FormatInt(i, 10)] = sig_i
     }
     // Issue #12: p.H must be computed using MapToPoint method.
@@ -147,14 +161,21 @@ func ProveSet(x int64, r *big.Int, p paramsSet) (proofSet, error) {
     var (
         v         *big.Int
         proof_out proofSet
+        err       error
     )
 
     // Initialize variables
     proof_out.D = new(bn256.G2)
     proof_out.D.SetInfinity()
-    proof_out.m, _ = rand.Int(rand.Reader, bn256.Order)
+    proof_out.m, err = rand.Int(rand.Reader, bn256.Order)
+    if err != nil {
+        return proof_out, err
+    }
 
-    v, _ = rand.Int(rand.Reader, bn256.Order)
+    v, err = rand.Int(rand.Reader, bn256.Order)
+    if err != nil {
+        return proof_out, err
+    }
     A, ok := p.signatures[x]
 
     if !ok {
@@ -163,12 +184,18 @@ func ProveSet(x int64, r *big.Int, p paramsSet) (proofSet, error) {
 
     // D = g^s.H^m
     D := new(bn256.G2).ScalarMult(p.H, proof_out.m)
-    proof_out.s, _ = rand.Int(rand.Reader, bn256.Order)
+    proof_out.s, err = rand.Int(rand.Reader, bn256.Order)
+    if err != nil {
+        return proof_out, err
+    }
     aux := new(bn256.G2).ScalarBaseMult(proof_out.s)
     D.Add(D, aux)
 
     proof_out.V = new(bn256.G2).ScalarMult(A, v)
-    proof_out.t, _ = rand.Int(rand.Reader, bn256.Order)
+    proof_out.t, err = rand.Int(rand.Reader, bn256.Order)
+    if err != nil {
+        return proof_out, err
+    }
     proof_out.a = bn256.Pair(G1, proof_out.V)
     proof_out.a.ScalarMult(proof_out.a, proof_out.s)
     proof_out.a.Invert(proof_out.a)
@@ -199,6 +226,7 @@ func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
         i         int64
         v         []*big.Int
         proof_out proofUL
+        err       error
     )
     decx, _ := Decompose(x, p.u, p.l)
 
@@ -212,17 +240,29 @@ func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
     proof_out.zv = make([]*big.Int, p.l)
     proof_out.D = new(bn256.G2)
     proof_out.D.SetInfinity()
-    proof_out.m, _ = rand.Int(rand.Reader, bn256.Order)
+    proof_out.m, err = rand.Int(rand.Reader, bn256.Order)
+    if err != nil {
+        return proof_out, err
+    }
 
     // D = H^m
     D := new(bn256.G2).ScalarMult(p.H, proof_out.m)
     for i = 0; i < p.l; i++ {
-        v[i], _ = rand.Int(rand.Reader, bn256.Order)
+        v[i], err = rand.Int(rand.Reader, bn256.Order)
+        if err != nil {
+            return proof_out, err
+        }
         A, ok := p.signatures[strconv.FormatInt(decx[i], 10)]
         if ok {
             proof_out.V[i] = new(bn256.G2).ScalarMult(A, v[i])
-            proof_out.s[i], _ = rand.Int(rand.Reader, bn256.Order)
-            proof_out.t[i], _ = rand.Int(rand.Reader, bn256.Order)
+            proof_out.s[i], err = rand.Int(rand.Reader, bn256.Order)
+            if err != nil {
+                return proof_out, err
+            }
+            proof_out.t[i], err = rand.Int(rand.Reader, bn256.Order)
+            if err != nil {
+                return proof_out, err
+            }
             proof_out.a[i] = bn256.Pair(G1, proof_out.V[i])
             proof_out.a[i].ScalarMult(proof_out.a[i], proof_out.s[i])
             proof_out.a[i].Invert(proof_out.a[i])
@@ -406,11 +446,17 @@ func (zkrp *ccs08) Prove() error {
     // x - b + ul
     xb := new(big.Int).Sub(zkrp.x, new(big.Int).SetInt64(zkrp.p.b))
     xb.Add(xb, ul)
-    first, _ := ProveUL(xb, zkrp.r, *zkrp.p.p)
+    first, err := ProveUL(xb, zkrp.r, *zkrp.p.p)
+    if err != nil {
+        return err
+    }
 
     // x - a
     xa := new(big.Int).Sub(zkrp.x, new(big.Int).SetInt64(zkrp.p.a))
-    second, _ := ProveUL(xa, zkrp.r, *zkrp.p.p)
+    second, err := ProveUL(xa, zkrp.r, *zkrp.p.p)
+    if err != nil {
+        return err
+    }
 
     zkrp.proof_out.p1 = first
     zkrp.proof_out.p2 = second
-- 
2.43.0


From 95e2102c7eadf94be4f9b50a38d826f499dd1e68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:17:59 +0000
Subject: [PATCH 21/30] fix: membership and base-u proofs no longer contain the
 prover's nonces

---
 ccs08/ccs08.go | 73 +++++++++++++++++++++++++-------------------------
 1 file changed, 37 insertions(+), 36 deletions(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index e8c3dd2..d200e5f 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -76,22 +76,22 @@ type paramsUL struct {
 proofSet contains the necessary elements for the ZK Set Membership proof.
 */
 type proofSet struct {
-    V              *bn256.G2
-    D, C           *bn256.G2
-    a              *bn256.GT
-    s, t, zsig, zv *big.Int
-    c, m, zr       *big.Int
+    V        *bn256.G2
+    D, C     *bn256.G2
+    a        *bn256.GT
+    zsig, zv *big.Int
+    c, zr    *big.Int
 }
 
 /*
 proofUL contains the necessary elements for the ZK proof.
 */
 type proofUL struct {
-    V              []*bn256.G2
-    D, C           *bn256.G2
-    a              []*bn256.GT
-    s, t, zsig, zv []*big.Int
-    c, m, zr       *big.Int
+    V        []*bn256.G2
+    D, C     *bn256.G2
+    a        []*bn256.GT
+    zsig, zv []*big.Int
+    c, zr    *big.Int
 }
 
 /*
@@ -159,15 +159,15 @@ ProveSet method is used to produce the ZK Set Membership proof.
 */
 func ProveSet(x int64, r *big.Int, p paramsSet) (proofSet, error) {
     var (
-        v         *big.Int
-        proof_out proofSet
-        err       error
+        v, s, t, m *big.Int
+        proof_out  proofSet
+        err        error
     )
 
     // Initialize variables
     proof_out.D = new(bn256.G2)
     proof_out.D.SetInfinity()
-    proof_out.m, err = rand.Int(rand.Reader, bn256.Order)
+    m, err = rand.Int(rand.Reader, bn256.Order)
     if err != nil {
         return proof_out, err
     }
@@ -183,23 +183,23 @@ func ProveSet(x int64, r *big.Int, p paramsSet) (proofSet, error) {
     }
 
     // D = g^s.H^m
-    D := new(bn256.G2).ScalarMult(p.H, proof_out.m)
-    proof_out.s, err = rand.Int(rand.Reader, bn256.Order)
+    D := new(bn256.G2).ScalarMult(p.H, m)
+    s, err = rand.Int(rand.Reader, bn256.Order)
     if err != nil {
         return proof_out, err
     }
-    aux := new(bn256.G2).ScalarBaseMult(proof_out.s)
+    aux := new(bn256.G2).ScalarBaseMult(s)
     D.Add(D, aux)
 
     proof_out.V = new(bn256.G2).ScalarMult(A, v)
-    proof_out.t, err = rand.Int(rand.Reader, bn256.Order)
+    t, err = rand.Int(rand.Reader, bn256.Order)
     if err != nil {
         return proof_out, err
     }
     proof_out.a = bn256.Pair(G1, proof_out.V)
-    proof_out.a.ScalarMult(proof_out.a, proof_out.s)
+    proof_out.a.ScalarMult(proof_out.a, s)
     proof_out.a.Invert(proof_out.a)
-    proof_out.a.Add(proof_out.a, new(bn256.GT).ScalarMult(E, proof_out.t))
+    proof_out.a.Add(proof_out.a, new(bn256.GT).ScalarMult(E, t))
     proof_out.D.Add(proof_out.D, D)
 
     // Consider passing C as input,
@@ -209,11 +209,11 @@ func ProveSet(x int64, r *big.Int, p paramsSet) (proofSet, error) {
     proof_out.c, _ = HashSet(proof_out.a, proof_out.D)
     proof_out.c = bn.Mod(proof_out.c, bn256.Order)
 
-    proof_out.zr = bn.Sub(proof_out.m, bn.Multiply(r, proof_out.c))
+    proof_out.zr = bn.Sub(m, bn.Multiply(r, proof_out.c))
     proof_out.zr = bn.Mod(proof_out.zr, bn256.Order)
-    proof_out.zsig = bn.Sub(proof_out.s, bn.Multiply(new(big.Int).SetInt64(x), proof_out.c))
+    proof_out.zsig = bn.Sub(s, bn.Multiply(new(big.Int).SetInt64(x), proof_out.c))
     proof_out.zsig = bn.Mod(proof_out.zsig, bn256.Order)
-    proof_out.zv = bn.Sub(proof_out.t, bn.Multiply(v, proof_out.c))
+    proof_out.zv = bn.Sub(t, bn.Multiply(v, proof_out.c))
     proof_out.zv = bn.Mod(proof_out.zv, bn256.Order)
     return proof_out, nil
 }
@@ -224,7 +224,8 @@ ProveUL method is used to produce the ZKRP proof that secret x belongs to the in
 func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
     var (
         i         int64
-        v         []*big.Int
+        v, s, t   []*big.Int
+        m         *big.Int
         proof_out proofUL
         err       error
     )
@@ -234,19 +235,19 @@ func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
     v = make([]*big.Int, p.l)
     proof_out.V = make([]*bn256.G2, p.l)
     proof_out.a = make([]*bn256.GT, p.l)
-    proof_out.s = make([]*big.Int, p.l)
-    proof_out.t = make([]*big.Int, p.l)
+    s = make([]*big.Int, p.l)
+    t = make([]*big.Int, p.l)
     proof_out.zsig = make([]*big.Int, p.l)
     proof_out.zv = make([]*big.Int, p.l)
     proof_out.D = new(bn256.G2)
     proof_out.D.SetInfinity()
-    proof_out.m, err = rand.Int(rand.Reader, bn256.Order)
+    m, err = rand.Int(rand.Reader, bn256.Order)
     if err != nil {
         return proof_out, err
     }
 
     // D = H^m
-    D := new(bn256.G2).ScalarMult(p.H, proof_out.m)
+    D := new(bn256.G2).ScalarMult(p.H, m)
     for i = 0; i < p.l; i++ {
         v[i], err = rand.Int(rand.Reader, bn256.Order)
         if err != nil {
@@ -255,21 +256,21 @@ func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
         A, ok := p.signatures[strconv.FormatInt(decx[i], 10)]
         if ok {
             proof_out.V[i] = new(bn256.G2).ScalarMult(A, v[i])
-            proof_out.s[i], err = rand.Int(rand.Reader, bn256.Order)
+            s[i], err = rand.Int(rand.Reader, bn256.Order)
             if err != nil {
                 return proof_out, err
             }
-            proof_out.t[i], err = rand.Int(rand.Reader, bn256.Order)
+            t[i], err = rand.Int(rand.Reader, bn256.Order)
             if err != nil {
                 return proof_out, err
             }
             proof_out.a[i] = bn256.Pair(G1, proof_out.V[i])
-            proof_out.a[i].ScalarMult(proof_out.a[i], proof_out.s[i])
+            proof_out.a[i].ScalarMult(proof_out.a[i], s[i])
             proof_out.a[i].Invert(proof_out.a[i])
-            proof_out.a[i].Add(proof_out.a[i], new(bn256.GT).ScalarMult(E, proof_out.t[i]))
+            proof_out.a[i].Add(proof_out.a[i], new(bn256.GT).ScalarMult(E, t[i]))
 
             ui := new(big.Int).Exp(new(big.Int).SetInt64(p.u), new(big.Int).SetInt64(i), nil)
-            muisi := new(big.Int).Mul(proof_out.s[i], ui)
+            muisi := new(big.Int).Mul(s[i], ui)
             muisi = bn.Mod(muisi, bn256.Order)
             aux := new(bn256.G2).ScalarBaseMult(muisi)
             D.Add(D, aux)
@@ -286,12 +287,12 @@ func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
     proof_out.c, _ = Hash(proof_out.a, proof_out.D)
     proof_out.c = bn.Mod(proof_out.c, bn256.Order)
 
-    proof_out.zr = bn.Sub(proof_out.m, bn.Multiply(r, proof_out.c))
+    proof_out.zr = bn.Sub(m, bn.Multiply(r, proof_out.c))
     proof_out.zr = bn.Mod(proof_out.zr, bn256.Order)
     for i = 0; i < p.l; i++ {
-        proof_out.zsig[i] = bn.Sub(proof_out.s[i], bn.Multiply(new(big.Int).SetInt64(decx[i]), proof_out.c))
+        proof_out.zsig[i] = bn.Sub(s[i], bn.Multiply(new(big.Int).SetInt64(decx[i]), proof_out.c))
         proof_out.zsig[i] = bn.Mod(proof_out.zsig[i], bn256.Order)
-        proof_out.zv[i] = bn.Sub(proof_out.t[i], bn.Multiply(v[i], proof_out.c))
+        proof_out.zv[i] = bn.Sub(t[i], bn.Multiply(v[i], proof_out.c))
         proof_out.zv[i] = bn.Mod(proof_out.zv[i], bn256.Order)
     }
     return proof_out, nil
-- 
2.43.0


From 6daf04d2f667065e80179864ac4765af8e54e7ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:49 +0000
Subject: [PATCH 22/30] fix: membership and base-u verifiers recompute the
 challenge, which binds C and V, and reject V at infinity

---
 ccs08/ccs08.go | 46 ++++++++++++++++++++++++++++++++++++++++++----
 util/util.go   | 14 ++++++--------
 2 files changed, 48 insertions(+), 12 deletions(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index d200e5f..5de4741 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -154,6 +154,18 @@ func SetupUL(u, l int64) (paramsUL, error) {
     return p, nil
 }
 
+/*
+randomNonZero returns a random scalar that is suitable to blind a signature.
+*/
+func randomNonZero() (*big.Int, error) {
+    for {
+        v, err := rand.Int(rand.Reader, bn256.Order)
+        if err != nil || v.Sign() != 0 {
+            return v, err
+        }
+    }
+}
+
 /*
 ProveSet method is used to produce the ZK Set Membership proof.
 */
@@ -172,7 +184,7 @@ func ProveSet(x int64, r *big.Int, p paramsSet) (proofSet, error) {
         return proof_out, err
     }
 
-    v, err = rand.Int(rand.Reader, bn256.Order)
+    v, err = randomNonZero()
     if err != nil {
         return proof_out, err
     }
@@ -206,7 +218,7 @@ func ProveSet(x int64, r *big.Int, p paramsSet) (proofSet, error) {
     // so that it is possible to delegate the commitment computation to an external party.
     proof_out.C, _ = Commit(new(big.Int).SetInt64(x), r, p.H)
     // Fiat-Shamir heuristic
-    proof_out.c, _ = HashSet(proof_out.a, proof_out.D)
+    proof_out.c, _ = HashSet(proof_out.a, proof_out.D, proof_out.C, proof_out.V)
     proof_out.c = bn.Mod(proof_out.c, bn256.Order)
 
     proof_out.zr = bn.Sub(m, bn.Multiply(r, proof_out.c))
@@ -249,7 +261,7 @@ func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
     // D = H^m
     D := new(bn256.G2).ScalarMult(p.H, m)
     for i = 0; i < p.l; i++ {
-        v[i], err = rand.Int(rand.Reader, bn256.Order)
+        v[i], err = randomNonZero()
         if err != nil {
             return proof_out, err
         }
@@ -284,7 +296,7 @@ func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
     // so that it is possible to delegate the commitment computation to an external party.
     proof_out.C, _ = Commit(x, r, p.H)
     // Fiat-Shamir heuristic
-    proof_out.c, _ = Hash(proof_out.a, proof_out.D)
+    proof_out.c, _ = Hash(proof_out.a, proof_out.D, append([]*bn256.G2{proof_out.C}, proof_out.V...)...)
     proof_out.c = bn.Mod(proof_out.c, bn256.Order)
 
     proof_out.zr = bn.Sub(m, bn.Multiply(r, proof_out.c))
@@ -307,6 +319,18 @@ func VerifySet(proof_out *proofSet, p *paramsSet) (bool, error) {
         r1, r2 bool
         p1, p2 *bn256.GT
     )
+    // The challenge is not chosen by the prover
+    c, err := HashSet(proof_out.a, proof_out.D, proof_out.C, proof_out.V)
+    if err != nil {
+        return false, err
+    }
+    if bn.Mod(c, bn256.Order).Cmp(proof_out.c) != 0 {
+        return false, nil
+    }
+    // The point at infinity is not a blinded signature
+    if proof_out.V.IsZero() {
+        return false, nil
+    }
     // D == C^c.h^ zr.g^zsig ?
     D = new(bn256.G2).ScalarMult(proof_out.C, proof_out.c)
     D.Add(D, new(bn256.G2).ScalarMult(p.H, proof_out.zr))
@@ -343,6 +367,20 @@ func VerifyUL(proof_out *proofUL, p *paramsUL) (bool, error) {
         r1, r2 bool
         p1, p2 *bn256.GT
     )
+    // The challenge is not chosen by the prover
+    c, err := Hash(proof_out.a, proof_out.D, append([]*bn256.G2{proof_out.C}, proof_out.V...)...)
+    if err != nil {
+        return false, err
+    }
+    if bn.Mod(c, bn256.Order).Cmp(proof_out.c) != 0 {
+        return false, nil
+    }
+    // The point at infinity is not a blinded signature
+    for i = 0; i < p.l; i++ {
+        if proof_out.V[i].IsZero() {
+            return false, nil
+        }
+    }
     // D == C^c.h^ zr.g^zsig ?
     D = new(bn256.G2).ScalarMult(proof_out.C, proof_out.c)
     D.Add(D, new(bn256.G2).ScalarMult(p.H, proof_out.zr))
diff --git a/util/util.go b/util/util.go
index 3f7a682..d7fd4b6 100644
--- a/util/util.go
+++ b/util/util.go
@@ -77,24 +77,22 @@ func CommitG1(x, r *big.Int, h *p256.P256) (*p256.P256, error) {
 /*
 HashSet is responsible for the computing a Zp element given elements from GT and G2.
 */
-func HashSet(a *bn256.GT, D *bn256.G2) (*big.Int, error) {
-    digest := sha256.New()
-    digest.Write([]byte(a.String()))
-    digest.Write([]byte(D.String()))
-    output := digest.Sum(nil)
-    tmp := output[0:]
-    return byteconversion.FromByteArray(tmp)
+func HashSet(a *bn256.GT, D *bn256.G2, points ...*bn256.G2) (*big.Int, error) {
+    return Hash([]*bn256.GT{a}, D, points...)
 }
 
 /*
 Hash is responsible for the computing a Zp element given elements from GT and G2.
 */
-func Hash(a []*bn256.GT, D *bn256.G2) (*big.Int, error) {
+func Hash(a []*bn256.GT, D *bn256.G2, points ...*bn256.G2) (*big.Int, error) {
     digest := sha256.New()
     for i := range a {
         digest.Write([]byte(a[i].String()))
     }
     digest.Write([]byte(D.String()))
+    for i := range points {
+        digest.Write([]byte(points[i].String()))
+    }
     output := digest.Sum(nil)
     tmp := output[0:]
     return byteconversion.FromByteArray(tmp)
-- 
2.43.0


From 0938b59b037313f960376b14dbada9e1ae2028e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:52 +0000
Subject: [PATCH 23/30] fix: base-u prover refuses secrets outside [0, u^l)

---
 ccs08/ccs08.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 5de4741..a0bc6b7 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -241,6 +241,10 @@ func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
         proof_out proofUL
         err       error
     )
+    ul := new(big.Int).Exp(new(big.Int).SetInt64(p.u), new(big.Int).SetInt64(p.l), nil)
+    if x.Sign() < 0 || x.Cmp(ul) >= 0 {
+        return proof_out, errors.New("Could not generate proof. Element does not belong to the interval.")
+    }
     decx, _ := Decompose(x, p.u, p.l)
 
     // Initialize variables
-- 
2.43.0


From 793d2ae738fa3a112946c85934a692d096ade60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:56 +0000
Subject: [PATCH 24/30] fix: interval verifier checks that both halves commit
 to the same secret

---
 ccs08/ccs08.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index a0bc6b7..fa8f69d 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -512,5 +512,12 @@ Verify is responsible for validating the proof.
 func (zkrp *ccs08) Verify() (bool, error) {
     first, _ := VerifyUL(&zkrp.proof_out.p1, zkrp.p.p)
     second, _ := VerifyUL(&zkrp.proof_out.p2, zkrp.p.p)
-    return first && second, nil
+    // Both proofs must be about the same x: C1 = g^(x-b+ul).h^r and C2 = g^(x-a).h^r
+    ul := new(big.Int).Exp(new(big.Int).SetInt64(zkrp.p.p.u), new(big.Int).SetInt64(zkrp.p.p.l), nil)
+    diff := new(big.Int).Sub(ul, new(big.Int).SetInt64(zkrp.p.b))
+    diff.Add(diff, new(big.Int).SetInt64(zkrp.p.a))
+    C1 := new(bn256.G2).ScalarBaseMult(diff)
+    C1.Add(C1, zkrp.proof_out.p2.C)
+    same := bytes.Equal(C1.Marshal(), zkrp.proof_out.p1.C.Marshal())
+    return first && second && same, nil
 }
-- 
2.43.0


From 637199b6346740784e934d1186be6950dfe462ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:18:59 +0000
Subject: [PATCH 25/30] fix: base-u verifier rejects proofs with a wrong number
 of digits

---
 ccs08/ccs08.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index fa8f69d..7774cbe 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -371,6 +371,10 @@ func VerifyUL(proof_out *proofUL, p *paramsUL) (bool, error) {
         r1, r2 bool
         p1, p2 *bn256.GT
     )
+    n := int(p.l)
+    if len(proof_out.V) != n || len(proof_out.a) != n || len(proof_out.zsig) != n || len(proof_out.zv) != n {
+        return false, errors.New("malformed proof")
+    }
     // The challenge is not chosen by the prover
     c, err := Hash(proof_out.a, proof_out.D, append([]*bn256.G2{proof_out.C}, proof_out.V...)...)
     if err != nil {
-- 
2.43.0


From c912fbf346f0ef1086a7de90c6052246c788d96b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:33 +0000
Subject: [PATCH 26/30] fix: the halves of a generic range proof must be about
 the full range and the same secret

---
 bulletproofs/bp.go   | 15 +++++++++++----
 bulletproofs/bprp.go | 32 +++++++++++++++++++++++++++++---
 2 files changed, 40 insertions(+), 7 deletions(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 3b46978..824b2da 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -102,6 +102,17 @@ eprint version of Bulletproofs papers:
 https://eprint.iacr.org/2017/1066.pdf
 */
 func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error) {
+    gamma, err := rand.Int(rand.Reader, ORDER)
+    if err != nil {
+        return BulletProof{}, err
+    }
+    return proveWithBlinding(secret, gamma, params)
+}
+
+/*
+proveWithBlinding computes the ZK rangeproof of V = g^secret.h^gamma.
+*/
+func proveWithBlinding(secret, gamma *big.Int, params BulletProofSetupParams) (BulletProof, error) {
     var (
         proof BulletProof
     )
@@ -115,10 +126,6 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error)
     // ////////////////////////////////////////////////////////////////////////////
 
     // commitment to v and gamma
-    gamma, err := rand.Int(rand.Reader, ORDER)
-    if err != nil {
-        return proof, err
-    }
     V, _ := CommitG1(secret, gamma, params.H)
 
     // aL, aR and commitment: (A, alpha)
diff --git a/bulletproofs/bprp.go b/bulletproofs/bprp.go
index 7b196a5..d5ee67e 100644
--- a/bulletproofs/bprp.go
+++ b/bulletproofs/bprp.go
@@ -18,7 +18,10 @@
 package bulletproofs
 
 import (
+    "crypto/rand"
     "math/big"
+
+    "github.com/ing-bank/zkrp/crypto/p256"
 )
 
 /*
@@ -36,6 +39,8 @@ type bprp struct {
 ProofBPRP stores the generic ZKRP.
 */
 type ProofBPRP struct {
+    A  int64
+    B  int64
     P1 BulletProof
     P2 BulletProof
 }
@@ -68,6 +73,14 @@ https://infoscience.epfl.ch/record/128718/files/CCS08.pdf
 */
 func ProveGeneric(secret *big.Int, params *bprp) (ProofBPRP, error) {
     var proof ProofBPRP
+    proof.A = params.A
+    proof.B = params.B
+
+    // Both halves use the same blinding, which shows that they are about the same secret
+    gamma, err := rand.Int(rand.Reader, ORDER)
+    if err != nil {
+        return proof, err
+    }
 
     // x - b + 2^N
     p2 := new(big.Int).SetInt64(MAX_RANGE_END)
@@ -75,14 +88,14 @@ func ProveGeneric(secret *big.Int, params *bprp) (ProofBPRP, error) {
     xb.Add(xb, p2)
 
     var err1 error
-    proof.P1, err1 = Prove(xb, params.BP1)
+    proof.P1, err1 = proveWithBlinding(xb, gamma, params.BP1)
     if err1 != nil {
         return proof, err1
     }
 
     xa := new(big.Int).Sub(secret, new(big.Int).SetInt64(params.A))
     var err2 error
-    proof.P2, err2 = Prove(xa, params.BP2)
+    proof.P2, err2 = proveWithBlinding(xa, gamma, params.BP2)
     if err2 != nil {
         return proof, err2
     }
@@ -103,5 +116,18 @@ func (proof ProofBPRP) Verify() (bool, error) {
         return false, err2
     }
 
-    return ok1 && ok2, nil
+    // Both halves must be about the full range [0, 2^N)
+    if proof.P1.Params.N != int64(MAX_RANGE_END_EXPONENT) || proof.P2.Params.N != int64(MAX_RANGE_END_EXPONENT) {
+        return false, nil
+    }
+
+    // and about the same secret: V1 = g^(x-B+2^N).h^gamma and V2 = g^(x-A).h^gamma
+    diff := new(big.Int).SetInt64(MAX_RANGE_END)
+    diff.Sub(diff, new(big.Int).SetInt64(proof.B))
+    diff.Add(diff, new(big.Int).SetInt64(proof.A))
+    V1 := new(p256.P256).ScalarBaseMult(diff)
+    V1.Multiply(V1, proof.P2.V)
+    same := equalPoints([]*p256.P256{V1}, []*p256.P256{proof.P1.V})
+
+    return ok1 && ok2 && same, nil
 }
-- 
2.43.0


From e8c442c387dd1c5831cda2f1b48a4cf28004dfac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:19:53 +0000
Subject: [PATCH 27/30] fix: negative numbers are not powers of two,
 Setup(-2^63) panicked

---
 bulletproofs/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 68dc719..78adfb3 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -166,5 +166,5 @@ IsPowerOfTwo returns true for arguments that are a power of 2, false otherwise.
 https://stackoverflow.com/a/600306/844313
 */
 func IsPowerOfTwo(x int64) bool {
-    return (x != 0) && ((x & (x - 1)) == 0)
+    return (x > 0) && ((x & (x - 1)) == 0)
 }
-- 
2.43.0


From 34a23f56b0ea90d4ce70763c65eaf35c38c4ea8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:37 +0000
Subject: [PATCH 28/30] fix: negating a twist point in place gave a point off
 the curve (negative scalars of G2)

---
 crypto/bn256/twist.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index 2489c6f..2a0e074 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -268,8 +268,7 @@ func (c *twistPoint) MakeAffine(pool *bnPool) *twistPoint {
 
 func (c *twistPoint) Negative(a *twistPoint, pool *bnPool) {
     c.x.Set(a.x)
-    c.y.SetZero()
-    c.y.Sub(c.y, a.y)
+    c.y.Negative(a.y)
     c.z.Set(a.z)
     c.t.Set(a.t)
 }
-- 
2.43.0


From 749d2f486bd533b12faf66c1c10631b71dae8870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:18 +0000
Subject: [PATCH 29/30] fix: condition (67) compares with a complete addition,
 a negated commitment was accepted

---
 bulletproofs/bp.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 824b2da..8bf91b0 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -365,7 +365,7 @@ func (proof *BulletProof) Verify() (bool, error) {
 
     // Subtract lhs and rhs and compare with poitn at infinity
     lP = lP.Neg(lP)
-    rP.Add(rP, lP)
+    rP.Multiply(rP, lP)
     c67 := rP.IsZero()
 
     // Verify Inner Product Proof ################################################
-- 
2.43.0


From 4bee618d6cd71457a29fbae128ca97df407e6631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:49 +0000
Subject: [PATCH 30/30] fix: bind the challenges of the inner-product rounds to
 the statement

The challenge of a round was computed from L and R only, so a prover could fix the
rounds first and choose the commitment P afterwards, and had an argument accepted for
vectors with another inner product. Every challenge now depends on the previous one.
---
 bulletproofs/bip.go | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index 46462e8..e64767d 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -125,7 +125,7 @@ func proveInnerProduct(a, b []*big.Int, P *p256.P256, params InnerProductParams)
     uxc := new(p256.P256).ScalarMult(ux, params.Cc)
     PP := new(p256.P256).Multiply(P, uxc)
     // Execute Protocol 2 recursively
-    proof = computeBipRecursive(a, b, params.Gg, params.Hh, ux, PP, n, Ls, Rs)
+    proof = computeBipRecursive(a, b, params.Gg, params.Hh, ux, PP, n, Ls, Rs, x)
     proof.Params = params
     proof.Params.P = PP
     return proof, nil
@@ -134,7 +134,7 @@ func proveInnerProduct(a, b []*big.Int, P *p256.P256, params InnerProductParams)
 /*
 computeBipRecursive is the main recursive function that will be used to compute the inner product argument.
 */
-func computeBipRecursive(a, b []*big.Int, g, h []*p256.P256, u, P *p256.P256, n int64, Ls, Rs []*p256.P256) InnerProductProof {
+func computeBipRecursive(a, b []*big.Int, g, h []*p256.P256, u, P *p256.P256, n int64, Ls, Rs []*p256.P256, previous *big.Int) InnerProductProof {
     var (
         proof                            InnerProductProof
         cL, cR, x, xinv, x2, x2inv       *big.Int
@@ -177,7 +177,7 @@ func computeBipRecursive(a, b []*big.Int, g, h []*p256.P256, u, P *p256.P256, n
         R.Multiply(R, new(p256.P256).ScalarMult(u, cR))
 
         // Fiat-Shamir:                                                       // (26)
-        x, _, _ = HashBP(L, R)
+        x = hashRound(previous, L, R)
         xinv = bn.ModInverse(x, ORDER)
 
         // Compute g' = g[:n']^(x^-1) * g[n':]^(x)                            // (29)
@@ -208,7 +208,7 @@ func computeBipRecursive(a, b []*big.Int, g, h []*p256.P256, u, P *p256.P256, n
         Ls = append(Ls, L)
         Rs = append(Rs, R)
         // recursion computeBipRecursive(g',h',u,P'; a', b')                  // (35)
-        proof = computeBipRecursive(aprime, bprime, gprime, hprime, u, Pprime, nprime, Ls, Rs)
+        proof = computeBipRecursive(aprime, bprime, gprime, hprime, u, Pprime, nprime, Ls, Rs, x)
     }
     proof.N = n
     return proof
@@ -244,24 +244,24 @@ func (proof InnerProductProof) verifyStatement(P *p256.P256, g, h []*p256.P256,
     u.ScalarMult(u, x)
     Pprime := new(p256.P256).ScalarMult(u, c)
     Pprime.Multiply(Pprime, P)
-    return proof.verifyRounds(u, Pprime, g, h)
+    return proof.verifyRounds(u, Pprime, g, h, x)
 }
 
 /*
 verifyRounds is responsible for the verification of Protocol 2.
 */
-func (proof InnerProductProof) verifyRounds(u, Pprime *p256.P256, gprime, hprime []*p256.P256) (bool, error) {
+func (proof InnerProductProof) verifyRounds(u, Pprime *p256.P256, gprime, hprime []*p256.P256, x *big.Int) (bool, error) {
 
     logn := len(proof.Ls)
     var (
-        x, xinv, x2, x2inv                   *big.Int
+        xinv, x2, x2inv                      *big.Int
         ngprime, nhprime, ngprime2, nhprime2 []*p256.P256
     )
 
     nprime := proof.N
     for i := int64(0); i < int64(logn); i++ {
         nprime = nprime / 2                        // (20)
-        x, _, _ = HashBP(proof.Ls[i], proof.Rs[i]) // (26)
+        x = hashRound(x, proof.Ls[i], proof.Rs[i]) // (26)
         xinv = bn.ModInverse(x, ORDER)
         // Compute g' = g[:n']^(x^-1) * g[n':]^(x)                            // (29)
         ngprime = vectorScalarExp(gprime[:nprime], xinv)
@@ -335,6 +335,18 @@ func hashIP(g, h []*p256.P256, P *p256.P256, c *big.Int, n int64) (*big.Int, err
     return result, err
 }
 
+/*
+hashRound is responsible for computing the challenge of a round of Protocol 2. It depends
+on the previous challenge, and so on everything that was sent before, the statement included.
+*/
+func hashRound(previous *big.Int, L, R *p256.P256) *big.Int {
+    digest := sha256.New()
+    digest.Write([]byte(previous.String()))
+    digest.Write([]byte(L.String()))
+    digest.Write([]byte(R.String()))
+    return new(big.Int).SetBytes(digest.Sum(nil))
+}
+
 /*
 commitInnerProduct is responsible for calculating g^a.h^b.
 */
-- 
2.43.0

