From 8437bc006c13082cc57f5f8e83f6d086617e60b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:49 +0000
Subject: [PATCH 01/33] fix: inner product verification no longer overwrites
 the P of the proof it verifies

---
 bulletproofs/bip.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index badb065..57e9c2f 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -227,7 +227,8 @@ func (proof InnerProductProof) Verify() (bool, error) {
 
     gprime := proof.Params.Gg
     hprime := proof.Params.Hh
-    Pprime := proof.Params.P
+    // Work on a copy, so that verification does not modify the proof.
+    Pprime := &p256.P256{X: proof.Params.P.X, Y: proof.Params.P.Y}
     nprime := proof.N
     for i := int64(0); i < int64(logn); i++ {
         nprime = nprime / 2                        // (20)
-- 
2.43.0


From 7f9aff9dc63fb752db33e1c10ccf2e2e2936d106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:49 +0000
Subject: [PATCH 02/33] fix: HashBP derives its second challenge from the
 second buffer, so that z differs from y

---
 bulletproofs/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 7a4fd37..0f9ee2d 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -71,7 +71,7 @@ func HashBP(A, S *p256.P256) (*big.Int, *big.Int, error) {
     buffer2.WriteString(S.X.String())
     buffer2.WriteString(S.Y.String())
     buffer2.WriteString(result1.String())
-    digest2.Write(buffer.Bytes())
+    digest2.Write(buffer2.Bytes())
     output2 := digest2.Sum(nil)
     tmp2 := output2[0:]
     result2 := new(big.Int).SetBytes(tmp2)
-- 
2.43.0


From 79c6ea92eb5195f29ad6b7f6327a9ee2c41e333d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:22 +0000
Subject: [PATCH 03/33] fix: P256.Add returns a, not infinity, when b is
 infinity

---
 crypto/p256/p256.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/p256/p256.go b/crypto/p256/p256.go
index 288d2b2..d3eeb65 100644
--- a/crypto/p256/p256.go
+++ b/crypto/p256/p256.go
@@ -77,8 +77,8 @@ func (p *P256) Add(a, b *P256) *P256 {
         p.Y = b.Y
         return p
     } else if b.IsZero() {
-        p.X = b.X
-        p.Y = b.Y
+        p.X = a.X
+        p.Y = a.Y
         return p
 
     }
-- 
2.43.0


From 75c15a531c042028215348e663c8ab80d94a24df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:22 +0000
Subject: [PATCH 04/33] fix: CommitG1 uses the complete addition, g^x and h^r
 may be equal

---
 util/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/util/util.go b/util/util.go
index 3f7a682..f9be044 100644
--- a/util/util.go
+++ b/util/util.go
@@ -70,7 +70,7 @@ message x, and randomness r, it outputs g^x.h^r.
 func CommitG1(x, r *big.Int, h *p256.P256) (*p256.P256, error) {
     var C = new(p256.P256).ScalarBaseMult(x)
     Hr := new(p256.P256).ScalarMult(h, r)
-    C.Add(C, Hr)
+    C.Multiply(C, Hr)
     return C, nil
 }
 
-- 
2.43.0


From fbb737bfe5d6e14d1aae259d8ad037d2d81cbe5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:22 +0000
Subject: [PATCH 05/33] fix: BulletProof.Verify uses the complete addition,
 P256.Add turns equal points into infinity

With it the sum of lP = rP and its counterpart counted as zero also when the
two sides of condition (66)-(67) were opposite, so a proof with negated
commitment, mu and inner product was accepted.
---
 bulletproofs/bp.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index abe984a..398b5cc 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -287,7 +287,7 @@ func (proof *BulletProof) Verify() (bool, error) {
     // S^x
     Sx := new(p256.P256).ScalarMult(proof.S, x)
     // A.S^x
-    ASx := new(p256.P256).Add(proof.A, Sx)
+    ASx := new(p256.P256).Multiply(proof.A, Sx)
 
     // g^-z
     mz := bn.Sub(ORDER, z)
@@ -307,12 +307,12 @@ func (proof *BulletProof) Verify() (bool, error) {
     zynz22n, _ := VectorAdd(zyn, z22n)
 
     lP := new(p256.P256)
-    lP.Add(ASx, gpmz)
+    lP.Multiply(ASx, gpmz)
 
     // h'^(z.y^n + z^2.2^n)
     hprimeexp, _ := VectorExp(hprime, zynz22n)
 
-    lP.Add(lP, hprimeexp)
+    lP.Multiply(lP, hprimeexp)
 
     // Compute P - rhs  #################### Condition (67) ######################
 
@@ -322,7 +322,7 @@ func (proof *BulletProof) Verify() (bool, error) {
 
     // Subtract lhs and rhs and compare with poitn at infinity
     lP = lP.Neg(lP)
-    rP.Add(rP, lP)
+    rP.Multiply(rP, lP)
     c67 := rP.IsZero()
 
     // Verify Inner Product Proof ################################################
-- 
2.43.0


From 82236425275d33cb0714da18136a4cead5017562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:22 +0000
Subject: [PATCH 06/33] fix: P256.Neg negates its argument, not its receiver

---
 crypto/p256/p256.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/p256/p256.go b/crypto/p256/p256.go
index d3eeb65..bef3ded 100644
--- a/crypto/p256/p256.go
+++ b/crypto/p256/p256.go
@@ -64,7 +64,7 @@ func (p *P256) Neg(a *P256) *P256 {
     }
     one := new(big.Int).SetInt64(1)
     mone := new(big.Int).Sub(CURVE.N, one)
-    p.ScalarMult(p, mone)
+    p.ScalarMult(a, mone)
     return p
 }
 
-- 
2.43.0


From 23c625dc11dc8346418ed2ccb448eb0fb686cf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:22 +0000
Subject: [PATCH 07/33] fix: IsPowerOfTwo rejects negative numbers, so that
 Setup does not panic on MinInt64

---
 bulletproofs/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 0f9ee2d..7cba23e 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -130,5 +130,5 @@ IsPowerOfTwo returns true for arguments that are a power of 2, false otherwise.
 https://stackoverflow.com/a/600306/844313
 */
 func IsPowerOfTwo(x int64) bool {
-    return (x != 0) && ((x & (x - 1)) == 0)
+    return (x > 0) && ((x & (x - 1)) == 0)
 }
-- 
2.43.0


From 308e5d928d2b1cb1e92e9ef6442def62adc41634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:22 +0000
Subject: [PATCH 08/33] fix: Keygen reports an error when it fails, not when it
 succeeds

---
 crypto/bbsignatures/bb.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/bbsignatures/bb.go b/crypto/bbsignatures/bb.go
index 578ffea..b0b2346 100644
--- a/crypto/bbsignatures/bb.go
+++ b/crypto/bbsignatures/bb.go
@@ -52,7 +52,7 @@ func Keygen() (Keypair, error) {
         return kp, e
     }
     kp.Pubk, res = new(bn256.G1).Unmarshal(new(bn256.G1).ScalarBaseMult(kp.Privk).Marshal())
-    if res {
+    if !res {
         return kp, errors.New("Could not compute scalar multiplication.")
     }
     return kp, e
-- 
2.43.0


From 7c6925ccd70d751e67305347c6adfb2fc6caafbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:09:22 +0000
Subject: [PATCH 09/33] fix: Sign returns an error instead of panicking when
 m+sk has no inverse

---
 crypto/bbsignatures/bb.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto/bbsignatures/bb.go b/crypto/bbsignatures/bb.go
index b0b2346..0f729dd 100644
--- a/crypto/bbsignatures/bb.go
+++ b/crypto/bbsignatures/bb.go
@@ -67,6 +67,9 @@ func Sign(m *big.Int, privk *big.Int) (*bn256.G2, error) {
         signature *bn256.G2
     )
     inv := bn.ModInverse(bn.Mod(bn.Add(m, privk), bn256.Order), bn256.Order)
+    if inv == nil {
+        return nil, errors.New("Message can not be signed with this key.")
+    }
     signature, res = new(bn256.G2).Unmarshal(new(bn256.G2).ScalarBaseMult(inv).Marshal())
     if res {
         return signature, nil
-- 
2.43.0


From a7cb42aaa3fdaff07097b930701d229fb17e4cfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:21 +0000
Subject: [PATCH 10/33] fix: negating a G2 point in place no longer destroys it

G2.ScalarMult and G2.ScalarBaseMult negate in place for negative scalars, so
both returned a point with y = 0.
---
 crypto/bn256/twist.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index d59b228..fd7e9e9 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -257,8 +257,7 @@ func (c *twistPoint) MakeAffine(pool *bnPool) *twistPoint {
 
 func (c *twistPoint) Negative(a *twistPoint, pool *bnPool) {
     c.x.Set(a.x)
-    c.y.SetZero()
-    c.y.Sub(c.y, a.y)
+    c.y.Negative(a.y)
     c.z.Set(a.z)
     c.t.SetZero()
 }
-- 
2.43.0


From b3549aa8dcb8ab0457a014a992dab0826eb91233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:21 +0000
Subject: [PATCH 11/33] fix: marshalling the point at infinity of G2 no longer
 turns it into (0,0)

---
 crypto/bn256/twist.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index fd7e9e9..d5d4dc4 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -239,6 +239,14 @@ func (c *twistPoint) MakeAffine(pool *bnPool) *twistPoint {
         return c
     }
 
+    if c.IsInfinity() {
+        c.x.SetZero()
+        c.y.SetZero()
+        c.z.SetZero()
+        c.t.SetZero()
+        return c
+    }
+
     zInv := newGFp2(pool).Invert(c.z, pool)
     t := newGFp2(pool).Mul(c.y, zInv, pool)
     zInv2 := newGFp2(pool).Square(zInv, pool)
-- 
2.43.0


From f4cf31a35de4ae8e9abdd19396ef64efada91c0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:21 +0000
Subject: [PATCH 12/33] fix: equal G1 and G2 points have equal strings, and
 String does not modify them

The string of a G2 point is what the Fiat-Shamir challenges of ccs08 hash.
---
 crypto/bn256/curve.go | 5 +++++
 crypto/bn256/twist.go | 3 +++
 2 files changed, 8 insertions(+)

diff --git a/crypto/bn256/curve.go b/crypto/bn256/curve.go
index 6ad76e4..5067f70 100644
--- a/crypto/bn256/curve.go
+++ b/crypto/bn256/curve.go
@@ -48,7 +48,12 @@ func newCurvePoint(pool *bnPool) *curvePoint {
 }
 
 func (c *curvePoint) String() string {
+    affine := newCurvePoint(nil)
+    affine.Set(c)
+    c = affine
     c.MakeAffine(new(bnPool))
+    c.x.Mod(c.x, P)
+    c.y.Mod(c.y, P)
     return "(" + c.x.String() + ", " + c.y.String() + ")"
 }
 
diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index d5d4dc4..689d85f 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -65,6 +65,9 @@ func newTwistPoint(pool *bnPool) *twistPoint {
 }
 
 func (c *twistPoint) String() string {
+    affine := newTwistPoint(nil)
+    affine.Set(c)
+    c = affine.MakeAffine(nil)
     return "(" + c.x.String() + ", " + c.y.String() + ", " + c.z.String() + ")"
 }
 
-- 
2.43.0


From 9dbc9e085efe366bb7332c79636556ee9e83ab83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:21 +0000
Subject: [PATCH 13/33] fix: Marshal, IsZero and IsOne no longer modify the
 bn256 element they read

Two verifications of the same proof at the same time raced on its points.
---
 crypto/bn256/bn256.go | 10 ++++++++++
 crypto/bn256/gfp12.go |  2 ++
 2 files changed, 12 insertions(+)

diff --git a/crypto/bn256/bn256.go b/crypto/bn256/bn256.go
index 22275ed..658e535 100644
--- a/crypto/bn256/bn256.go
+++ b/crypto/bn256/bn256.go
@@ -142,6 +142,10 @@ func (e *G1) Neg(a *G1) *G1 {
 
 // Marshal converts n to a byte slice.
 func (n *G1) Marshal() []byte {
+    // Normalise a copy: n may be in use elsewhere.
+    affine := newCurvePoint(nil)
+    affine.Set(n.p)
+    n = &G1{affine}
     n.p.MakeAffine(nil)
 
     xBytes := new(big.Int).Mod(n.p.x, P).Bytes()
@@ -283,6 +287,10 @@ func (e *G2) Neg(a *G2) *G2 {
 
 // Marshal converts n into a byte slice.
 func (n *G2) Marshal() []byte {
+    // Normalise a copy: n may be in use elsewhere.
+    affine := newTwistPoint(nil)
+    affine.Set(n.p)
+    n = &G2{affine}
     n.p.MakeAffine(nil)
 
     xxBytes := new(big.Int).Mod(n.p.x.x, P).Bytes()
@@ -423,6 +431,8 @@ func (e *GT) Neg(a *GT) *GT {
 
 // Marshal converts n into a byte slice.
 func (n *GT) Marshal() []byte {
+    // Normalise a copy: n may be in use elsewhere.
+    n = &GT{newGFp12(nil).Set(n.p)}
     n.p.Minimal()
 
     xxxBytes := n.p.x.x.x.Bytes()
diff --git a/crypto/bn256/gfp12.go b/crypto/bn256/gfp12.go
index 1974234..802154b 100644
--- a/crypto/bn256/gfp12.go
+++ b/crypto/bn256/gfp12.go
@@ -68,11 +68,13 @@ func (e *gfP12) Minimal() {
 }
 
 func (e *gfP12) IsZero() bool {
+    e = newGFp12(nil).Set(e)
     e.Minimal()
     return e.x.IsZero() && e.y.IsZero()
 }
 
 func (e *gfP12) IsOne() bool {
+    e = newGFp12(nil).Set(e)
     e.Minimal()
     return e.x.IsZero() && e.y.IsOne()
 }
-- 
2.43.0


From 6795a75cc00f66176822b786174f1e37350eafaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:21 +0000
Subject: [PATCH 14/33] fix: GT.Exp stores its result in the receiver and
 leaves its argument alone

---
 crypto/bn256/bn256.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/crypto/bn256/bn256.go b/crypto/bn256/bn256.go
index 658e535..ae51d48 100644
--- a/crypto/bn256/bn256.go
+++ b/crypto/bn256/bn256.go
@@ -371,9 +371,9 @@ func (e *GT) ScalarMult(a *GT, k *big.Int) *GT {
 func (e *GT) Exp(a *GT, k *big.Int) *GT {
     var returnValue *GT
     if k.Cmp(big.NewInt(0)) >= 0 {
-        returnValue = a.ScalarMult(a, k)
+        returnValue = e.ScalarMult(a, k)
     } else {
-        returnValue = a.Invert(a.ScalarMult(a, new(big.Int).Abs(k)))
+        returnValue = e.Invert(e.ScalarMult(a, new(big.Int).Abs(k)))
     }
     return returnValue
 }
-- 
2.43.0


From c9fed6e7affe75997c1ce60d34804ce17558a0d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:21 +0000
Subject: [PATCH 15/33] fix: GT.ScalarMult handles negative scalars

---
 crypto/bn256/bn256.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/crypto/bn256/bn256.go b/crypto/bn256/bn256.go
index ae51d48..3e4c383 100644
--- a/crypto/bn256/bn256.go
+++ b/crypto/bn256/bn256.go
@@ -364,7 +364,10 @@ func (e *GT) ScalarMult(a *GT, k *big.Int) *GT {
     if e.p == nil {
         e.p = newGFp12(nil)
     }
-    e.p.Exp(a.p, k, new(bnPool))
+    e.p.Exp(a.p, new(big.Int).Abs(k), new(bnPool))
+    if k.Sign() < 0 {
+        e.p.Invert(e.p, new(bnPool))
+    }
     return e
 }
 
-- 
2.43.0


From 65dee66d27268f6a29d3cc8a1a25743b98147d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:21 +0000
Subject: [PATCH 16/33] fix: Unmarshal of G1, G2 and GT accepts group elements
 only, in their canonical encoding

---
 crypto/bn256/bn256.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/crypto/bn256/bn256.go b/crypto/bn256/bn256.go
index 3e4c383..8a231b4 100644
--- a/crypto/bn256/bn256.go
+++ b/crypto/bn256/bn256.go
@@ -178,6 +178,10 @@ func (e *G1) Unmarshal(m []byte) (*G1, bool) {
     e.p.x.SetBytes(m[0*numBytes : 1*numBytes])
     e.p.y.SetBytes(m[1*numBytes : 2*numBytes])
 
+    if e.p.x.Cmp(P) >= 0 || e.p.y.Cmp(P) >= 0 {
+        return nil, false
+    }
+
     if (e.p.x.Sign() == 0 && e.p.y.Sign() == 0) ||
         (e.p.x.String() == "0" && e.p.y.String() == "1") {
         // This is the point at infinity.
@@ -329,6 +333,12 @@ func (e *G2) Unmarshal(m []byte) (*G2, bool) {
     e.p.y.x.SetBytes(m[2*numBytes : 3*numBytes])
     e.p.y.y.SetBytes(m[3*numBytes : 4*numBytes])
 
+    for _, c := range []*big.Int{e.p.x.x, e.p.x.y, e.p.y.x, e.p.y.y} {
+        if c.Cmp(P) >= 0 {
+            return nil, false
+        }
+    }
+
     if e.p.x.x.Sign() == 0 &&
         e.p.x.y.Sign() == 0 &&
         e.p.y.x.Sign() == 0 &&
@@ -344,6 +354,10 @@ func (e *G2) Unmarshal(m []byte) (*G2, bool) {
         if !e.p.IsOnCurve() {
             return nil, false
         }
+        // The twist has points outside of G2.
+        if !newTwistPoint(nil).Mul(e.p, Order, new(bnPool)).IsInfinity() {
+            return nil, false
+        }
     }
 
     return e, true
@@ -498,6 +512,15 @@ func (e *GT) Unmarshal(m []byte) (*GT, bool) {
     e.p.y.z.x.SetBytes(m[10*numBytes : 11*numBytes])
     e.p.y.z.y.SetBytes(m[11*numBytes : 12*numBytes])
 
+    for i := 0; i < 12; i++ {
+        if new(big.Int).SetBytes(m[i*numBytes:(i+1)*numBytes]).Cmp(P) >= 0 {
+            return nil, false
+        }
+    }
+    if !newGFp12(nil).Exp(e.p, Order, new(bnPool)).IsOne() {
+        return nil, false
+    }
+
     return e, true
 }
 
-- 
2.43.0


From 92a6056cb8ec55c41f83d274005226cf133f330c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:36 +0000
Subject: [PATCH 17/33] fix: ToByteArray encodes -2^(8k-1) in k bytes, the
 minimum, as documented

---
 util/byteconversion/conversion.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/util/byteconversion/conversion.go b/util/byteconversion/conversion.go
index eaa5c59..3a69187 100644
--- a/util/byteconversion/conversion.go
+++ b/util/byteconversion/conversion.go
@@ -103,7 +103,12 @@ func ToByteArray(in *big.Int) []byte {
 
         convertedInt := new(big.Int).SetBytes(convertedBytes)
         convertedInt.Add(convertedInt, big.NewInt(1))
-        return convertedInt.Bytes()
+        result := convertedInt.Bytes()
+        // -2^(8k-1) fits in k bytes: the leading byte only repeats the sign bit.
+        if len(result) > 1 && result[0] == 255 && (result[1]&128) != 0 {
+            result = result[1:]
+        }
+        return result
     }
 }
 
-- 
2.43.0


From 1fac0aaa72085447d017232933793ac84278f305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:10:36 +0000
Subject: [PATCH 18/33] fix: ConvertToBigInt rejects a lone minus sign

---
 util/byteconversion/parse.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/util/byteconversion/parse.go b/util/byteconversion/parse.go
index 0645c12..4daaadf 100644
--- a/util/byteconversion/parse.go
+++ b/util/byteconversion/parse.go
@@ -63,6 +63,9 @@ func ConvertToBigInt(in []byte) (*big.Int, error) {
     }
 
     s := string(in)
+    if s == "-" {
+        return nil, errInvalidBigInteger
+    }
     i := new(big.Int)
     i.SetString(s, 10)
     return i, nil
-- 
2.43.0


From 63b00e9ad0d5d5ea5a1119b569fe60a6c49564a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:01 +0000
Subject: [PATCH 19/33] fix: Fiat-Shamir challenges of Bulletproofs depend on
 the whole transcript

The commitment V was not hashed, so a proof for a value out of the range could
be made by choosing V after the challenges (CVE-2022-29566).
---
 bulletproofs/bip.go  |  4 ++--
 bulletproofs/bp.go   |  8 ++++----
 bulletproofs/util.go | 11 ++++++++++-
 3 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index 57e9c2f..49e3f6a 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -177,7 +177,7 @@ func computeBipRecursive(a, b []*big.Int, g, h []*p256.P256, u, P *p256.P256, n
         R.Multiply(R, new(p256.P256).ScalarMult(u, cR))
 
         // Fiat-Shamir:                                                       // (26)
-        x, _, _ = HashBP(L, R)
+        x, _, _ = HashBP(L, R, P)
         xinv = bn.ModInverse(x, ORDER)
 
         // Compute g' = g[:n']^(x^-1) * g[n':]^(x)                            // (29)
@@ -232,7 +232,7 @@ func (proof InnerProductProof) Verify() (bool, error) {
     nprime := proof.N
     for i := int64(0); i < int64(logn); i++ {
         nprime = nprime / 2                        // (20)
-        x, _, _ = HashBP(proof.Ls[i], proof.Rs[i]) // (26)
+        x, _, _ = HashBP(proof.Ls[i], proof.Rs[i], Pprime) // (26)
         xinv = bn.ModInverse(x, ORDER)
         // Compute g' = g[:n']^(x^-1) * g[n':]^(x)                            // (29)
         ngprime = vectorScalarExp(gprime[:nprime], xinv)
diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 398b5cc..48715da 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -126,7 +126,7 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error)
     S := commitVectorBig(sL, sR, rho, params.H, params.Gg, params.Hh, params.N) // (47)
 
     // Fiat-Shamir heuristic to compute challenges y and z, corresponds to    (49)
-    y, z, _ := HashBP(A, S)
+    y, z, _ := HashBP(A, S, V)
 
     // ////////////////////////////////////////////////////////////////////////////
     // Second phase: page 20
@@ -179,7 +179,7 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error)
     T2, _ := CommitG1(t2, tau2, params.H) // (53)
 
     // Fiat-Shamir heuristic to compute 'random' challenge x
-    x, _, _ := HashBP(T1, T2)
+    x, _, _ := HashBP(T1, T2, V, A, S)
 
     // ////////////////////////////////////////////////////////////////////////////
     // Third phase                                                              //
@@ -244,8 +244,8 @@ Verify returns true if and only if the proof is valid.
 func (proof *BulletProof) Verify() (bool, error) {
     params := proof.Params
     // Recover x, y, z using Fiat-Shamir heuristic
-    x, _, _ := HashBP(proof.T1, proof.T2)
-    y, z, _ := HashBP(proof.A, proof.S)
+    x, _, _ := HashBP(proof.T1, proof.T2, proof.V, proof.A, proof.S)
+    y, z, _ := HashBP(proof.A, proof.S, proof.V)
 
     // Switch generators                                                   // (64)
     hprime := updateGenerators(params.Hh, y, params.N)
diff --git a/bulletproofs/util.go b/bulletproofs/util.go
index 7cba23e..2fe4ece 100644
--- a/bulletproofs/util.go
+++ b/bulletproofs/util.go
@@ -50,8 +50,9 @@ func powerOf(x *big.Int, n int64) []*big.Int {
 
 /*
 Hash is responsible for the computing a Zp element given elements from GT and G1.
+The context holds what was sent before A and S, which the challenge must depend on too.
 */
-func HashBP(A, S *p256.P256) (*big.Int, *big.Int, error) {
+func HashBP(A, S *p256.P256, context ...*p256.P256) (*big.Int, *big.Int, error) {
 
     digest1 := sha256.New()
     var buffer bytes.Buffer
@@ -59,6 +60,10 @@ func HashBP(A, S *p256.P256) (*big.Int, *big.Int, error) {
     buffer.WriteString(A.Y.String())
     buffer.WriteString(S.X.String())
     buffer.WriteString(S.Y.String())
+    for _, c := range context {
+        buffer.WriteString(c.X.String())
+        buffer.WriteString(c.Y.String())
+    }
     digest1.Write(buffer.Bytes())
     output1 := digest1.Sum(nil)
     tmp1 := output1[0:]
@@ -70,6 +75,10 @@ func HashBP(A, S *p256.P256) (*big.Int, *big.Int, error) {
     buffer2.WriteString(A.Y.String())
     buffer2.WriteString(S.X.String())
     buffer2.WriteString(S.Y.String())
+    for _, c := range context {
+        buffer2.WriteString(c.X.String())
+        buffer2.WriteString(c.Y.String())
+    }
     buffer2.WriteString(result1.String())
     digest2.Write(buffer2.Bytes())
     output2 := digest2.Sum(nil)
-- 
2.43.0


From 21ee446db79b7b7308535e79d92b1f3d25eae7c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:01 +0000
Subject: [PATCH 20/33] fix: BulletProof.Verify checks that the inner product
 proof belongs to the proof

It accepted the inner product argument of any other proof, which says nothing
about the committed value.
---
 bulletproofs/bip.go | 43 +++++++++++++++++++++++++++++++++++++++++++
 bulletproofs/bp.go  | 13 +++++++++++++
 2 files changed, 56 insertions(+)

diff --git a/bulletproofs/bip.go b/bulletproofs/bip.go
index 49e3f6a..63b76ba 100644
--- a/bulletproofs/bip.go
+++ b/bulletproofs/bip.go
@@ -249,6 +249,11 @@ func (proof InnerProductProof) Verify() (bool, error) {
         Pprime.Multiply(Pprime, new(p256.P256).ScalarMult(proof.Rs[i], x2inv))
     }
 
+    // The folded values that come with the proof must be those computed here.
+    if !equalPoints(proof.P, Pprime) || !equalPoints(proof.Gg, gprime[0]) || !equalPoints(proof.Hh, hprime[0]) {
+        return false, nil
+    }
+
     // c == a*b and checks if P = g^a.h^b.u^c                                     // (16)
     ab := bn.Multiply(proof.A, proof.B)
     ab = bn.Mod(ab, ORDER)
@@ -315,3 +320,41 @@ func vectorScalarExp(a []*p256.P256, b *big.Int) []*p256.P256 {
     }
     return result
 }
+
+/*
+equalPoints returns true if and only if a and b are the same elliptic curve point.
+*/
+func equalPoints(a, b *p256.P256) bool {
+    if a == nil || b == nil || a.IsZero() || b.IsZero() {
+        return a != nil && b != nil && a.IsZero() && b.IsZero()
+    }
+    return a.X.Cmp(b.X) == 0 && a.Y.Cmp(b.Y) == 0
+}
+
+/*
+equalVectors returns true if and only if a and b have the same elliptic curve points.
+*/
+func equalVectors(a, b []*p256.P256) bool {
+    if len(a) != len(b) {
+        return false
+    }
+    for i := range a {
+        if !equalPoints(a[i], b[i]) {
+            return false
+        }
+    }
+    return true
+}
+
+/*
+equal returns true if and only if both parameters are the same.
+*/
+func (params InnerProductParams) equal(other InnerProductParams) bool {
+    return params.N == other.N &&
+        params.Cc != nil && other.Cc != nil && params.Cc.Cmp(other.Cc) == 0 &&
+        equalPoints(params.Uu, other.Uu) &&
+        equalPoints(params.H, other.H) &&
+        equalVectors(params.Gg, other.Gg) &&
+        equalVectors(params.Hh, other.Hh) &&
+        equalPoints(params.P, other.P)
+}
diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 48715da..46bb928 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -325,6 +325,19 @@ func (proof *BulletProof) Verify() (bool, error) {
     rP.Multiply(rP, lP)
     c67 := rP.IsZero()
 
+    // The inner product proof must be about the generators, the commitment and the
+    // inner product of this proof.
+    ipParams, setupErr := setupInnerProduct(params.H, params.Gg, hprime, proof.Tprime, params.N)
+    if setupErr != nil || !params.InnerProductParams.equal(ipParams) {
+        return false, setupErr
+    }
+    xip, _ := hashIP(params.Gg, hprime, proof.Commit, proof.Tprime, params.N)
+    uxip := new(p256.P256).ScalarMult(ipParams.Uu, xip)
+    ipParams.P = new(p256.P256).Multiply(proof.Commit, new(p256.P256).ScalarMult(uxip, proof.Tprime))
+    if !equalPoints(proof.InnerProductProof.U, uxip) || !proof.InnerProductProof.Params.equal(ipParams) {
+        return false, nil
+    }
+
     // Verify Inner Product Proof ################################################
     ok, _ := proof.InnerProductProof.Verify()
 
-- 
2.43.0


From b4da164b6b02056201b745d2a2537a367757831e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:12:01 +0000
Subject: [PATCH 21/33] fix: BulletProof.Verify rejects malformed proofs and
 foreign parameters

A proof that lacks an element made Verify panic, and one that brings its own
generators, points off the curve or unreduced scalars was accepted.
---
 bulletproofs/bp.go | 44 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 44 insertions(+)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 46bb928..9e48533 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -243,6 +243,9 @@ Verify returns true if and only if the proof is valid.
 */
 func (proof *BulletProof) Verify() (bool, error) {
     params := proof.Params
+    if !proof.isWellFormed() {
+        return false, errors.New("malformed proof")
+    }
     // Recover x, y, z using Fiat-Shamir heuristic
     x, _, _ := HashBP(proof.T1, proof.T2, proof.V, proof.A, proof.S)
     y, z, _ := HashBP(proof.A, proof.S, proof.V)
@@ -346,6 +349,47 @@ func (proof *BulletProof) Verify() (bool, error) {
     return result, nil
 }
 
+/*
+isWellFormed returns true if and only if the proof has all of its elements, the group
+elements are on the curve, the scalars are reduced and the parameters are those that
+Setup computes.
+*/
+func (proof *BulletProof) isWellFormed() bool {
+    params := proof.Params
+    ip := proof.InnerProductProof
+    if params.N <= 0 || params.N > int64(MAX_RANGE_END_EXPONENT) {
+        return false
+    }
+    expected, err := Setup(int64(1) << uint(params.N))
+    if err != nil || !equalPoints(params.G, expected.G) || !equalPoints(params.H, expected.H) ||
+        !equalVectors(params.Gg, expected.Gg) || !equalVectors(params.Hh, expected.Hh) {
+        return false
+    }
+    if ip.N != params.N || len(ip.Ls) != len(ip.Rs) || int64(1)<<uint(len(ip.Ls)) != params.N {
+        return false
+    }
+    points := []*p256.P256{proof.V, proof.A, proof.S, proof.T1, proof.T2, proof.Commit}
+    points = append(points, ip.Ls...)
+    points = append(points, ip.Rs...)
+    for _, p := range points {
+        if p == nil || (p.X == nil) != (p.Y == nil) {
+            return false
+        }
+        if p.IsZero() {
+            continue
+        }
+        if p.X.Sign() < 0 || p.X.Cmp(p256.CURVE.P) >= 0 || p.Y.Sign() < 0 || p.Y.Cmp(p256.CURVE.P) >= 0 || !p.IsOnCurve() {
+            return false
+        }
+    }
+    for _, s := range []*big.Int{proof.Taux, proof.Mu, proof.Tprime, ip.A, ip.B} {
+        if s == nil || s.Sign() < 0 || s.Cmp(ORDER) >= 0 {
+            return false
+        }
+    }
+    return true
+}
+
 /*
 SampleRandomVector generates a vector composed by random big numbers.
 */
-- 
2.43.0


From 0f389ca0a0b712d881bfccd99ad86307ed104282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:35 +0000
Subject: [PATCH 22/33] fix: both halves of a generic range proof must be about
 the same secret

Verify accepted a half of one proof with a half of another one, so x - B < 0 and
y - A >= 0 passed for x in [A, B), and the interval was not part of the proof.
---
 bulletproofs/bp.go   | 10 +++++++++-
 bulletproofs/bprp.go | 27 +++++++++++++++++++++++++--
 2 files changed, 34 insertions(+), 3 deletions(-)

diff --git a/bulletproofs/bp.go b/bulletproofs/bp.go
index 9e48533..86b66a8 100644
--- a/bulletproofs/bp.go
+++ b/bulletproofs/bp.go
@@ -102,6 +102,15 @@ eprint version of Bulletproofs papers:
 https://eprint.iacr.org/2017/1066.pdf
 */
 func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error) {
+    gamma, _ := rand.Int(rand.Reader, ORDER)
+    return proveWithBlinding(secret, gamma, params)
+}
+
+/*
+proveWithBlinding computes the ZK rangeproof, where gamma is the randomness of the
+commitment to the secret.
+*/
+func proveWithBlinding(secret, gamma *big.Int, params BulletProofSetupParams) (BulletProof, error) {
     var (
         proof BulletProof
     )
@@ -110,7 +119,6 @@ func Prove(secret *big.Int, params BulletProofSetupParams) (BulletProof, error)
     // ////////////////////////////////////////////////////////////////////////////
 
     // commitment to v and gamma
-    gamma, _ := rand.Int(rand.Reader, ORDER)
     V, _ := CommitG1(secret, gamma, params.H)
 
     // aL, aR and commitment: (A, alpha)
diff --git a/bulletproofs/bprp.go b/bulletproofs/bprp.go
index 7b196a5..15c7792 100644
--- a/bulletproofs/bprp.go
+++ b/bulletproofs/bprp.go
@@ -18,7 +18,10 @@
 package bulletproofs
 
 import (
+    "crypto/rand"
     "math/big"
+
+    "github.com/ing-bank/zkrp/crypto/p256"
 )
 
 /*
@@ -36,6 +39,9 @@ type bprp struct {
 ProofBPRP stores the generic ZKRP.
 */
 type ProofBPRP struct {
+    // A and B are the limits of the interval [A, B) that the proof is about.
+    A  int64
+    B  int64
     P1 BulletProof
     P2 BulletProof
 }
@@ -68,6 +74,15 @@ https://infoscience.epfl.ch/record/128718/files/CCS08.pdf
 */
 func ProveGeneric(secret *big.Int, params *bprp) (ProofBPRP, error) {
     var proof ProofBPRP
+    proof.A = params.A
+    proof.B = params.B
+
+    // Both proofs use the same blinding, so that Verify can tell that they are about
+    // the same secret.
+    gamma, errGamma := rand.Int(rand.Reader, ORDER)
+    if errGamma != nil {
+        return proof, errGamma
+    }
 
     // x - b + 2^N
     p2 := new(big.Int).SetInt64(MAX_RANGE_END)
@@ -75,14 +90,14 @@ func ProveGeneric(secret *big.Int, params *bprp) (ProofBPRP, error) {
     xb.Add(xb, p2)
 
     var err1 error
-    proof.P1, err1 = Prove(xb, params.BP1)
+    proof.P1, err1 = proveWithBlinding(xb, gamma, params.BP1)
     if err1 != nil {
         return proof, err1
     }
 
     xa := new(big.Int).Sub(secret, new(big.Int).SetInt64(params.A))
     var err2 error
-    proof.P2, err2 = Prove(xa, params.BP2)
+    proof.P2, err2 = proveWithBlinding(xa, gamma, params.BP2)
     if err2 != nil {
         return proof, err2
     }
@@ -103,5 +118,13 @@ func (proof ProofBPRP) Verify() (bool, error) {
         return false, err2
     }
 
+    // P1 is about x - B + 2^N and P2 is about x - A, for the same x.
+    diff := new(big.Int).Sub(new(big.Int).SetInt64(proof.B), new(big.Int).SetInt64(proof.A))
+    diff.Sub(diff, new(big.Int).SetInt64(MAX_RANGE_END))
+    V := new(p256.P256).ScalarBaseMult(diff)
+    if !equalPoints(V.Multiply(V, proof.P1.V), proof.P2.V) {
+        return false, nil
+    }
+
     return ok1 && ok2, nil
 }
-- 
2.43.0


From 3639467163172754140dbae6f3e4e2072da822f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:35 +0000
Subject: [PATCH 23/33] fix: CCS08 verification rejects incomplete proofs and
 blinded signatures at infinity

With V at infinity every pairing is one, and the proof needs no signature at all.
---
 ccs08/ccs08.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 602d579..d3bc282 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -266,6 +266,14 @@ func VerifySet(proof_out *proofSet, p *paramsSet) (bool, error) {
         r1, r2 bool
         p1, p2 *bn256.GT
     )
+    if proof_out.V == nil || proof_out.C == nil || proof_out.D == nil || proof_out.a == nil ||
+        proof_out.c == nil || proof_out.zr == nil || proof_out.zsig == nil || proof_out.zv == nil {
+        return false, errors.New("Incomplete proof.")
+    }
+    // The blinded signature of anything is not the point at infinity.
+    if proof_out.V.IsZero() {
+        return false, nil
+    }
     // D == C^c.h^ zr.g^zsig ?
     D = new(bn256.G2).ScalarMult(proof_out.C, proof_out.c)
     D.Add(D, new(bn256.G2).ScalarMult(p.H, proof_out.zr))
@@ -302,6 +310,20 @@ func VerifyUL(proof_out *proofUL, p *paramsUL) (bool, error) {
         r1, r2 bool
         p1, p2 *bn256.GT
     )
+    if proof_out.C == nil || proof_out.D == nil || proof_out.c == nil || proof_out.zr == nil ||
+        int64(len(proof_out.V)) != p.l || int64(len(proof_out.a)) != p.l ||
+        int64(len(proof_out.zsig)) != p.l || int64(len(proof_out.zv)) != p.l {
+        return false, errors.New("Incomplete proof.")
+    }
+    for i = 0; i < p.l; i++ {
+        if proof_out.V[i] == nil || proof_out.a[i] == nil || proof_out.zsig[i] == nil || proof_out.zv[i] == nil {
+            return false, errors.New("Incomplete proof.")
+        }
+        // The blinded signature of anything is not the point at infinity.
+        if proof_out.V[i].IsZero() {
+            return false, nil
+        }
+    }
     // D == C^c.h^ zr.g^zsig ?
     D = new(bn256.G2).ScalarMult(proof_out.C, proof_out.c)
     D.Add(D, new(bn256.G2).ScalarMult(p.H, proof_out.zr))
-- 
2.43.0


From 0dea913c29c5609e780be16d73841908f7bc7b96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:35 +0000
Subject: [PATCH 24/33] fix: CCS08 verification recomputes the challenge, which
 covers C and V too

The verifiers took the challenge from the proof, so a prover could choose it
first and make a proof for any value. C and V were not hashed.
---
 ccs08/ccs08.go | 16 ++++++++++++++--
 util/util.go   | 10 ++++++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index d3bc282..26291c8 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -179,7 +179,7 @@ func ProveSet(x int64, r *big.Int, p paramsSet) (proofSet, error) {
     // so that it is possible to delegate the commitment computation to an external party.
     proof_out.C, _ = Commit(new(big.Int).SetInt64(x), r, p.H)
     // Fiat-Shamir heuristic
-    proof_out.c, _ = HashSet(proof_out.a, proof_out.D)
+    proof_out.c, _ = HashSet(proof_out.a, proof_out.D, proof_out.C, proof_out.V)
     proof_out.c = bn.Mod(proof_out.c, bn256.Order)
 
     proof_out.zr = bn.Sub(proof_out.m, bn.Multiply(r, proof_out.c))
@@ -243,7 +243,7 @@ func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
     // so that it is possible to delegate the commitment computation to an external party.
     proof_out.C, _ = Commit(x, r, p.H)
     // Fiat-Shamir heuristic
-    proof_out.c, _ = Hash(proof_out.a, proof_out.D)
+    proof_out.c, _ = Hash(proof_out.a, proof_out.D, append([]*bn256.G2{proof_out.C}, proof_out.V...)...)
     proof_out.c = bn.Mod(proof_out.c, bn256.Order)
 
     proof_out.zr = bn.Sub(proof_out.m, bn.Multiply(r, proof_out.c))
@@ -280,6 +280,12 @@ func VerifySet(proof_out *proofSet, p *paramsSet) (bool, error) {
     aux := new(bn256.G2).ScalarBaseMult(proof_out.zsig)
     D.Add(D, aux)
 
+    // The challenge must come from the hash, not from the prover.
+    c, _ := HashSet(proof_out.a, proof_out.D, proof_out.C, proof_out.V)
+    if bn.Mod(c, bn256.Order).Cmp(proof_out.c) != 0 {
+        return false, nil
+    }
+
     DBytes := D.Marshal()
     pDBytes := proof_out.D.Marshal()
     r1 = bytes.Equal(DBytes, pDBytes)
@@ -335,6 +341,12 @@ func VerifyUL(proof_out *proofUL, p *paramsUL) (bool, error) {
         D.Add(D, aux)
     }
 
+    // The challenge must come from the hash, not from the prover.
+    c, _ := Hash(proof_out.a, proof_out.D, append([]*bn256.G2{proof_out.C}, proof_out.V...)...)
+    if bn.Mod(c, bn256.Order).Cmp(proof_out.c) != 0 {
+        return false, nil
+    }
+
     DBytes := D.Marshal()
     pDBytes := proof_out.D.Marshal()
     r1 = bytes.Equal(DBytes, pDBytes)
diff --git a/util/util.go b/util/util.go
index f9be044..101d5e5 100644
--- a/util/util.go
+++ b/util/util.go
@@ -77,10 +77,13 @@ func CommitG1(x, r *big.Int, h *p256.P256) (*p256.P256, error) {
 /*
 HashSet is responsible for the computing a Zp element given elements from GT and G2.
 */
-func HashSet(a *bn256.GT, D *bn256.G2) (*big.Int, error) {
+func HashSet(a *bn256.GT, D *bn256.G2, statement ...*bn256.G2) (*big.Int, error) {
     digest := sha256.New()
     digest.Write([]byte(a.String()))
     digest.Write([]byte(D.String()))
+    for _, e := range statement {
+        digest.Write([]byte(e.String()))
+    }
     output := digest.Sum(nil)
     tmp := output[0:]
     return byteconversion.FromByteArray(tmp)
@@ -89,12 +92,15 @@ func HashSet(a *bn256.GT, D *bn256.G2) (*big.Int, error) {
 /*
 Hash is responsible for the computing a Zp element given elements from GT and G2.
 */
-func Hash(a []*bn256.GT, D *bn256.G2) (*big.Int, error) {
+func Hash(a []*bn256.GT, D *bn256.G2, statement ...*bn256.G2) (*big.Int, error) {
     digest := sha256.New()
     for i := range a {
         digest.Write([]byte(a[i].String()))
     }
     digest.Write([]byte(D.String()))
+    for _, e := range statement {
+        digest.Write([]byte(e.String()))
+    }
     output := digest.Sum(nil)
     tmp := output[0:]
     return byteconversion.FromByteArray(tmp)
-- 
2.43.0


From efd267d26a864285cb4a11bfd53d04a0b805a66b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:35 +0000
Subject: [PATCH 25/33] fix: both halves of a CCS08 range proof must be about
 the same secret

---
 ccs08/ccs08.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 26291c8..d80e4d8 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -457,5 +457,15 @@ Verify is responsible for validating the proof.
 func (zkrp *ccs08) Verify() (bool, error) {
     first, _ := VerifyUL(&zkrp.proof_out.p1, zkrp.p.p)
     second, _ := VerifyUL(&zkrp.proof_out.p2, zkrp.p.p)
-    return first && second, nil
+    if !first || !second {
+        return false, nil
+    }
+
+    // p1 is about x - b + u^l and p2 is about x - a, for the same x.
+    diff := new(big.Int).Exp(new(big.Int).SetInt64(zkrp.p.p.u), new(big.Int).SetInt64(zkrp.p.p.l), nil)
+    diff.Sub(diff, new(big.Int).SetInt64(zkrp.p.b))
+    diff.Add(diff, new(big.Int).SetInt64(zkrp.p.a))
+    C := new(bn256.G2).ScalarBaseMult(diff)
+    C.Add(C, zkrp.proof_out.p2.C)
+    return bytes.Equal(C.Marshal(), zkrp.proof_out.p1.C.Marshal()), nil
 }
-- 
2.43.0


From 4dcfac427f876328d8ab6352a758d7926b04b470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:35 +0000
Subject: [PATCH 26/33] fix: CCS08 proofs do not carry the nonces of the prover

---
 ccs08/ccs08.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index d80e4d8..fe6c2dd 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -188,6 +188,8 @@ func ProveSet(x int64, r *big.Int, p paramsSet) (proofSet, error) {
     proof_out.zsig = bn.Mod(proof_out.zsig, bn256.Order)
     proof_out.zv = bn.Sub(proof_out.t, bn.Multiply(v, proof_out.c))
     proof_out.zv = bn.Mod(proof_out.zv, bn256.Order)
+    // With the nonces anybody can compute the secret from the proof.
+    proof_out.s, proof_out.t, proof_out.m = nil, nil, nil
     return proof_out, nil
 }
 
@@ -254,6 +256,8 @@ func ProveUL(x, r *big.Int, p paramsUL) (proofUL, error) {
         proof_out.zv[i] = bn.Sub(proof_out.t[i], bn.Multiply(v[i], proof_out.c))
         proof_out.zv[i] = bn.Mod(proof_out.zv[i], bn256.Order)
     }
+    // With the nonces anybody can compute the secret from the proof.
+    proof_out.s, proof_out.t, proof_out.m = nil, nil, nil
     return proof_out, nil
 }
 
-- 
2.43.0


From d3abb6239ff3fc113a5c57d77147a860f0ba5d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:13:35 +0000
Subject: [PATCH 27/33] fix: CCS08 parameters do not carry the private key that
 signs the set

---
 ccs08/ccs08.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index fe6c2dd..4a72e3e 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -112,6 +112,8 @@ func SetupSet(s []int64) (paramsSet, error) {
     // Issue #12: p.H must be computed using MapToPoint method.
     h := intconversion.BigFromBase10("18560948149108576432482904553159745978835170526553990798435819795989606410925")
     p.H = new(bn256.G2).ScalarBaseMult(h)
+    // The parameters are for the prover, who must not be able to sign.
+    p.kp.Privk = nil
     return p, nil
 }
 
@@ -135,6 +137,8 @@ func SetupUL(u, l int64) (paramsUL, error) {
     // Issue #12: p.H must be computed using MapToPoint method.
     h := intconversion.BigFromBase10("18560948149108576432482904553159745978835170526553990798435819795989606410925")
     p.H = new(bn256.G2).ScalarBaseMult(h)
+    // The parameters are for the prover, who must not be able to sign.
+    p.kp.Privk = nil
     p.u = u
     p.l = l
     return p, nil
-- 
2.43.0


From 116122ef62170c2c71265ea11f8edacf99b9ca77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:53:41 +0000
Subject: [PATCH 28/33] fix: adding a G1 or G2 point to itself in place gives
 its double

---
 crypto/bn256/curve.go | 13 +++++++------
 crypto/bn256/twist.go | 11 ++++++-----
 2 files changed, 13 insertions(+), 11 deletions(-)

diff --git a/crypto/bn256/curve.go b/crypto/bn256/curve.go
index 5067f70..3714158 100644
--- a/crypto/bn256/curve.go
+++ b/crypto/bn256/curve.go
@@ -224,14 +224,15 @@ func (c *curvePoint) Double(a *curvePoint, pool *bnPool) {
     t.Add(C_, C_)
     t2.Add(t, t)
     t.Add(t2, t2)
-    c.y.Sub(d, c.x)
-    t2.Mul(e, c.y)
+    t2.Sub(d, c.x)
+    t2.Mul(e, t2)
     t2.Mod(t2, P)
-    c.y.Sub(t2, t)
 
-    t.Mul(a.y, a.z)
-    t.Mod(t, P)
-    c.z.Add(t, t)
+    // c may be a: a.y is needed for z.
+    d.Mul(a.y, a.z)
+    d.Mod(d, P)
+    c.y.Sub(t2, t)
+    c.z.Add(d, d)
 
     pool.Put(A)
     pool.Put(B)
diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index 689d85f..4b19e79 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -200,12 +200,13 @@ func (c *twistPoint) Double(a *twistPoint, pool *bnPool) {
     t.Add(C_, C_)
     t2.Add(t, t)
     t.Add(t2, t2)
-    c.y.Sub(d, c.x)
-    t2.Mul(e, c.y, pool)
-    c.y.Sub(t2, t)
+    t2.Sub(d, c.x)
+    t2.Mul(e, t2, pool)
 
-    t.Mul(a.y, a.z, pool)
-    c.z.Add(t, t)
+    // c may be a: a.y is needed for z.
+    d.Mul(a.y, a.z, pool)
+    c.y.Sub(t2, t)
+    c.z.Add(d, d)
 
     A.Put(pool)
     B.Put(pool)
-- 
2.43.0


From 38f0a42dc703f978362b8723264f72039b3435e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:57:54 +0000
Subject: [PATCH 29/33] fix: pairing with the negation of a normalised G2 point

---
 crypto/bn256/twist.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/crypto/bn256/twist.go b/crypto/bn256/twist.go
index 4b19e79..8003dbf 100644
--- a/crypto/bn256/twist.go
+++ b/crypto/bn256/twist.go
@@ -240,6 +240,8 @@ func (c *twistPoint) Mul(a *twistPoint, scalar *big.Int, pool *bnPool) *twistPoi
 
 func (c *twistPoint) MakeAffine(pool *bnPool) *twistPoint {
     if c.z.IsOne() {
+        // Negative leaves t unset, but the pairing relies on it.
+        c.t.SetOne()
         return c
     }
 
-- 
2.43.0


From cc4cd18358d1207b600b87060d8ca8403b146e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:02:11 +0000
Subject: [PATCH 30/33] fix: MapToGroup never maps two seeds to one point by
 mixing up counter and seed

---
 crypto/p256/p256.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/crypto/p256/p256.go b/crypto/p256/p256.go
index bef3ded..87470ca 100644
--- a/crypto/p256/p256.go
+++ b/crypto/p256/p256.go
@@ -199,7 +199,12 @@ func MapToGroup(m string) (*P256, error) {
     i = 0
     for i < 256 {
         buffer.Reset()
-        buffer.WriteString(strconv.Itoa(i))
+        if i < 10 {
+            buffer.WriteString(strconv.Itoa(i))
+        } else {
+            // Delimited: "1" and the seed "0x" must not be hashed like "10" and the seed "x".
+            buffer.WriteString("/" + strconv.Itoa(i) + "/")
+        }
         buffer.WriteString(m)
         x, _ := HashToInt(buffer)
         x = bn.Mod(x, CURVE.P)
-- 
2.43.0


From 429237d34052ef0f92dbec7efc9d00ddb55f084f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:45:25 +0000
Subject: [PATCH 31/33] fix: setup reports key generation and signing errors

SetupSet and SetupUL ignored errors of Keygen and Sign: with a failing random
source an empty set got parameters without a key, and a key that cannot sign
a member got a nil signature, both as a success.
---
 ccs08/ccs08.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/ccs08/ccs08.go b/ccs08/ccs08.go
index 4a72e3e..8f1b0a3 100644
--- a/ccs08/ccs08.go
+++ b/ccs08/ccs08.go
@@ -102,11 +102,18 @@ func SetupSet(s []int64) (paramsSet, error) {
         i int
         p paramsSet
     )
-    p.kp, _ = bbsignatures.Keygen()
+    var err error
+    p.kp, err = bbsignatures.Keygen()
+    if err != nil {
+        return paramsSet{}, err
+    }
 
     p.signatures = make(map[int64]*bn256.G2)
     for i = 0; i < len(s); i++ {
-        sig_i, _ := bbsignatures.Sign(new(big.Int).SetInt64(int64(s[i])), p.kp.Privk)
+        sig_i, err := bbsignatures.Sign(new(big.Int).SetInt64(int64(s[i])), p.kp.Privk)
+        if err != nil {
+            return paramsSet{}, err
+        }
         p.signatures[s[i]] = sig_i
     }
     // Issue #12: p.H must be computed using MapToPoint method.
@@ -127,11 +134,18 @@ func SetupUL(u, l int64) (paramsUL, error) {
         i int64
         p paramsUL
     )
-    p.kp, _ = bbsignatures.Keygen()
+    var err error
+    p.kp, err = bbsignatures.Keygen()
+    if err != nil {
+        return paramsUL{}, err
+    }
 
     p.signatures = make(map[string]*bn256.G2)
     for i = 0; i < u; i++ {
-        sig_i, _ := bbsignatures.Sign(new(big.Int).SetInt64(i), p.kp.Privk)
+        sig_i, err := bbsignatures.Sign(new(big.Int).SetInt64(i), p.kp.Privk)
+        if err != nil {
+            return paramsUL{}, err
+        }
         p.signatures[strconv.FormatInt(i, 10)] = sig_i
     }
     // Issue #12: p.H must be computed using MapToPoint method.
-- 
2.43.0


From 707e0012cf4bd5119bdcb2f8363163a75a8d5c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:22 +0000
Subject: [PATCH 32/33] fix: VectorCopy returns copies

The elements of the result were all the same object as the argument, so that
changing one of them changed the others and the argument.
---
 bulletproofs/vector.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bulletproofs/vector.go b/bulletproofs/vector.go
index 2acb954..109af24 100644
--- a/bulletproofs/vector.go
+++ b/bulletproofs/vector.go
@@ -36,7 +36,7 @@ func VectorCopy(a *big.Int, n int64) ([]*big.Int, error) {
     result = make([]*big.Int, n)
     i = 0
     for i < n {
-        result[i] = a
+        result[i] = new(big.Int).Set(a)
         i = i + 1
     }
     return result, nil
-- 
2.43.0


From 33050ef650961928c9959bc5a9fe33ed7034f0a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:28:22 +0000
Subject: [PATCH 33/33] fix: VectorCopy and VectorConvertToBig return an error
 for sizes that do not fit

They panicked for a negative size, and VectorConvertToBig for one beyond the
length of its argument.
---
 bulletproofs/vector.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/bulletproofs/vector.go b/bulletproofs/vector.go
index 109af24..27090a3 100644
--- a/bulletproofs/vector.go
+++ b/bulletproofs/vector.go
@@ -33,6 +33,9 @@ func VectorCopy(a *big.Int, n int64) ([]*big.Int, error) {
         i      int64
         result []*big.Int
     )
+    if n < 0 {
+        return nil, errors.New("The size must not be negative.")
+    }
     result = make([]*big.Int, n)
     i = 0
     for i < n {
@@ -50,6 +53,9 @@ func VectorConvertToBig(a []int64, n int64) ([]*big.Int, error) {
         i      int64
         result []*big.Int
     )
+    if n < 0 || n > int64(len(a)) {
+        return nil, errors.New("The size does not fit the argument.")
+    }
     result = make([]*big.Int, n)
     i = 0
     for i < n {
-- 
2.43.0

