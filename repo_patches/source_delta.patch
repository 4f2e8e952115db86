From 5c88901b58b5e0da8a8526e4eaddc5c771565df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:28 +0000
Subject: [PATCH 01/12] Simulation hook: read the extended coordinates of a
 point (cfg safecurves_sim)

---
 src/curve/edwards.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/curve/edwards.rs b/src/curve/edwards.rs
index 7168500..ce09a18 100644
--- a/src/curve/edwards.rs
+++ b/src/curve/edwards.rs
@@ -215,3 +215,11 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
         out
     }
 }
+
+#[cfg(safecurves_sim)]
+impl<C: EdwardsCurve> EdwardsExtended<C> {
+    /// The extended coordinates X, Y, Z and T, for simulation only.
+    pub fn sim_coords(&self) -> [C::Scalar; 4] {
+        [ self.x, self.y, self.z, self.t ]
+    }
+}
-- 
2.43.0


From 3d70e949d91d2ac95ded88f40f1e9ee5e2e05123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:47 +0000
Subject: [PATCH 02/12] fix: use the right digits' carries in mod_e521_1
 multiplication by a small number

---
 src/field/mod_e521_1.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index 146eeee..0ee8eba 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -2719,11 +2719,11 @@ impl PrimeField for Mod_e521_1 {
         let d5 = (m9 >> 27) + m10 + ((m11 & 0x07ffffff) << 27) + c4;
         let c5 = d5 >> 54;
         let d6 = (m11 >> 27) + m12 + ((m13 & 0x07ffffff) << 27) + c5;
-        let c6 = d5 >> 54;
+        let c6 = d6 >> 54;
         let d7 = (m13 >> 27) + m14 + ((m15 & 0x07ffffff) << 27) + c6;
-        let c7 = d6 >> 54;
+        let c7 = d7 >> 54;
         let d8 = (m15 >> 27) + m16 + ((m17 & 0x07ffffff) << 27) + c7;
-        let c8 = d7 >> 54;
+        let c8 = d8 >> 54;
         let d9 = (m17 >> 27) + m18 + (m19 << 27) + c8;
 
         self.0[0] = d0 & 0x003fffffffffffff;
-- 
2.43.0


From f48797f45a8a49e78d9893067ce4f474b86e2b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:50 +0000
Subject: [PATCH 03/12] fix: subtract, rather than add, the pending carry of
 the right operand of a subtraction

---
 src/field/mod_e221_3.rs   | 2 +-
 src/field/mod_e222_117.rs | 2 +-
 src/field/mod_e251_9.rs   | 2 +-
 src/field/mod_e255_19.rs  | 2 +-
 src/field/mod_e382_105.rs | 2 +-
 src/field/mod_e383_187.rs | 2 +-
 src/field/mod_e414_17.rs  | 2 +-
 src/field/mod_e511_187.rs | 2 +-
 src/field/mod_e521_1.rs   | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/field/mod_e221_3.rs b/src/field/mod_e221_3.rs
index 240f852..47c47a1 100644
--- a/src/field/mod_e221_3.rs
+++ b/src/field/mod_e221_3.rs
@@ -364,7 +364,7 @@ impl<'b> SubAssign<&'b Mod_e221_3> for Mod_e221_3 {
         let b2 = rhs.0[2];
         let b3 = rhs.0[3] & 0x00007fffffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 58;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index 20b568d..9eed087 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -325,7 +325,7 @@ impl<'b> SubAssign<&'b Mod_e222_117> for Mod_e222_117 {
         let b2 = rhs.0[2];
         let b3 = rhs.0[3] & 0x0000ffffffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 58;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index 1fef865..e1d7c60 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -344,7 +344,7 @@ impl<'b> SubAssign<&'b Mod_e251_9> for Mod_e251_9 {
         let b3 = rhs.0[3];
         let b4 = rhs.0[4] & 0x0000000007ffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e255_19.rs b/src/field/mod_e255_19.rs
index 9859fef..c974685 100644
--- a/src/field/mod_e255_19.rs
+++ b/src/field/mod_e255_19.rs
@@ -364,7 +364,7 @@ impl<'b> SubAssign<&'b Mod_e255_19> for Mod_e255_19 {
         let b3 = rhs.0[3];
         let b4 = rhs.0[4] & 0x000000007fffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e382_105.rs b/src/field/mod_e382_105.rs
index f962198..b91433a 100644
--- a/src/field/mod_e382_105.rs
+++ b/src/field/mod_e382_105.rs
@@ -358,7 +358,7 @@ impl<'b> SubAssign<&'b Mod_e382_105> for Mod_e382_105 {
         let b5 = rhs.0[5];
         let b6 = rhs.0[6] & 0x00003fffffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e383_187.rs b/src/field/mod_e383_187.rs
index 1cb9823..2a1df8c 100644
--- a/src/field/mod_e383_187.rs
+++ b/src/field/mod_e383_187.rs
@@ -407,7 +407,7 @@ impl<'b> SubAssign<&'b Mod_e383_187> for Mod_e383_187 {
         let b5 = rhs.0[5];
         let b6 = rhs.0[6] & 0x00007fffffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e414_17.rs b/src/field/mod_e414_17.rs
index 038c529..ead33fe 100644
--- a/src/field/mod_e414_17.rs
+++ b/src/field/mod_e414_17.rs
@@ -364,7 +364,7 @@ impl<'b> SubAssign<&'b Mod_e414_17> for Mod_e414_17 {
         let b6 = rhs.0[6];
         let b7 = rhs.0[7] & 0x00000000003fffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e511_187.rs b/src/field/mod_e511_187.rs
index e434408..3e19760 100644
--- a/src/field/mod_e511_187.rs
+++ b/src/field/mod_e511_187.rs
@@ -416,7 +416,7 @@ impl<'b> SubAssign<&'b Mod_e511_187> for Mod_e511_187 {
         let b8 = rhs.0[8];
         let b9 = rhs.0[9] & 0x0000000001ffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 54;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index 0ee8eba..36f9e42 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -385,7 +385,7 @@ impl<'b> SubAssign<&'b Mod_e521_1> for Mod_e521_1 {
         let b8 = rhs.0[8];
         let b9 = rhs.0[9] & 0x00000007ffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 54;
         let s1 = a1 - b1 + c0;
-- 
2.43.0


From d39f6fa95c504990960b622195814aefe8ea0e14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:23:56 +0000
Subject: [PATCH 04/12] fix: negation returned its operand unchanged

---
 src/field/mod_e221_3.rs   | 5 +----
 src/field/mod_e222_117.rs | 5 +----
 src/field/mod_e251_9.rs   | 5 +----
 src/field/mod_e255_19.rs  | 5 +----
 src/field/mod_e382_105.rs | 5 +----
 src/field/mod_e383_187.rs | 5 +----
 src/field/mod_e414_17.rs  | 5 +----
 src/field/mod_e511_187.rs | 5 +----
 src/field/mod_e521_1.rs   | 5 +----
 9 files changed, 9 insertions(+), 36 deletions(-)

diff --git a/src/field/mod_e221_3.rs b/src/field/mod_e221_3.rs
index 47c47a1..176cd67 100644
--- a/src/field/mod_e221_3.rs
+++ b/src/field/mod_e221_3.rs
@@ -155,10 +155,7 @@ impl Neg for Mod_e221_3 {
     type Output = Mod_e221_3;
 
     fn neg(self) -> Mod_e221_3 {
-        let mut out = self;
-
-        out += &MODULUS;
-        out
+        &MODULUS - &self
     }
 }
 
diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index 9eed087..2c7fe5f 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -134,10 +134,7 @@ impl Neg for Mod_e222_117 {
     type Output = Mod_e222_117;
 
     fn neg(self) -> Mod_e222_117 {
-        let mut out = self;
-
-        out += &MODULUS;
-        out
+        &MODULUS - &self
     }
 }
 
diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index e1d7c60..884b7e1 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -146,10 +146,7 @@ impl Neg for Mod_e251_9 {
     type Output = Mod_e251_9;
 
     fn neg(self) -> Mod_e251_9 {
-        let mut out = self;
-
-        out += &MODULUS;
-        out
+        &MODULUS - &self
     }
 }
 
diff --git a/src/field/mod_e255_19.rs b/src/field/mod_e255_19.rs
index c974685..4e153c8 100644
--- a/src/field/mod_e255_19.rs
+++ b/src/field/mod_e255_19.rs
@@ -166,10 +166,7 @@ impl Neg for Mod_e255_19 {
     type Output = Mod_e255_19;
 
     fn neg(self) -> Mod_e255_19 {
-        let mut out = self;
-
-        out += &MODULUS;
-        out
+        &MODULUS - &self
     }
 }
 
diff --git a/src/field/mod_e382_105.rs b/src/field/mod_e382_105.rs
index b91433a..766e94a 100644
--- a/src/field/mod_e382_105.rs
+++ b/src/field/mod_e382_105.rs
@@ -146,10 +146,7 @@ impl Neg for Mod_e382_105 {
     type Output = Mod_e382_105;
 
     fn neg(self) -> Mod_e382_105 {
-        let mut out = self;
-
-        out += &MODULUS;
-        out
+        &MODULUS - &self
     }
 }
 
diff --git a/src/field/mod_e383_187.rs b/src/field/mod_e383_187.rs
index 2a1df8c..00e00a1 100644
--- a/src/field/mod_e383_187.rs
+++ b/src/field/mod_e383_187.rs
@@ -195,10 +195,7 @@ impl Neg for Mod_e383_187 {
     type Output = Mod_e383_187;
 
     fn neg(self) -> Mod_e383_187 {
-        let mut out = self;
-
-        out += &MODULUS;
-        out
+        &MODULUS - &self
     }
 }
 
diff --git a/src/field/mod_e414_17.rs b/src/field/mod_e414_17.rs
index ead33fe..75f5717 100644
--- a/src/field/mod_e414_17.rs
+++ b/src/field/mod_e414_17.rs
@@ -145,10 +145,7 @@ impl Neg for Mod_e414_17 {
     type Output = Mod_e414_17;
 
     fn neg(self) -> Mod_e414_17 {
-        let mut out = self;
-
-        out += &MODULUS;
-        out
+        &MODULUS - &self
     }
 }
 
diff --git a/src/field/mod_e511_187.rs b/src/field/mod_e511_187.rs
index 3e19760..58e5b32 100644
--- a/src/field/mod_e511_187.rs
+++ b/src/field/mod_e511_187.rs
@@ -183,10 +183,7 @@ impl Neg for Mod_e511_187 {
     type Output = Mod_e511_187;
 
     fn neg(self) -> Mod_e511_187 {
-        let mut out = self;
-
-        out += &MODULUS;
-        out
+        &MODULUS - &self
     }
 }
 
diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index 36f9e42..1480080 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -152,10 +152,7 @@ impl Neg for Mod_e521_1 {
     type Output = Mod_e521_1;
 
     fn neg(self) -> Mod_e521_1 {
-        let mut out = self;
-
-        out += &MODULUS;
-        out
+        &MODULUS - &self
     }
 }
 
-- 
2.43.0


From 154a63ea1a69ea8f7bd0ad7536e9b9c1cc949332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:01 +0000
Subject: [PATCH 05/12] fix: fold carries correctly when multiplying by a small
 number

---
 src/field/mod_e221_3.rs   | 26 ++++++++++++++------
 src/field/mod_e222_117.rs | 26 ++++++++++++++------
 src/field/mod_e251_9.rs   | 27 ++++++++++++++------
 src/field/mod_e255_19.rs  | 30 ++++++++++++++++------
 src/field/mod_e382_105.rs | 40 +++++++++++++++++++++---------
 src/field/mod_e383_187.rs | 40 +++++++++++++++++++++---------
 src/field/mod_e414_17.rs  | 39 +++++++++++++++++++++--------
 src/field/mod_e511_187.rs | 47 ++++++++++++++++++++++++++---------
 src/field/mod_e521_1.rs   | 52 ++++++++++++++++++++++++++++-----------
 9 files changed, 240 insertions(+), 87 deletions(-)

diff --git a/src/field/mod_e221_3.rs b/src/field/mod_e221_3.rs
index 176cd67..3674413 100644
--- a/src/field/mod_e221_3.rs
+++ b/src/field/mod_e221_3.rs
@@ -1318,19 +1318,31 @@ impl PrimeField for Mod_e221_3 {
         let m6 = a6 * b;
         let m7 = a7 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x1fffffff) << 29) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x1fffffff) << 29);
         let c0 = d0 >> 58;
         let d1 = (m1 >> 29) + m2 + ((m3 & 0x1fffffff) << 29) + c0;
         let c1 = d1 >> 58;
         let d2 = (m3 >> 29) + m4 + ((m5 & 0x1fffffff) << 29) + c1;
         let c2 = d2 >> 58;
-        let d3 = (m5 >> 29) + m6 + (m7 << 29) + c2;
+        let d3 = (m5 >> 29) + m6 + c2;
+
+        // Everything above the top of the modulus, including any carry
+        // the operand held, wraps around to the bottom digit.
+        let dh = m7 + (d3 >> 29);
+        let kin = dh >> 18;
+        let l3 = ((dh & 0x3ffff) << 29) | (d3 & 0x1fffffff);
+        let s0 = (d0 & 0x03ffffffffffffff) + (kin * C_VAL);
+        let k0 = s0 >> 58;
+        let s1 = (d1 & 0x03ffffffffffffff) + k0;
+        let k1 = s1 >> 58;
+        let s2 = (d2 & 0x03ffffffffffffff) + k1;
+        let k2 = s2 >> 58;
+        let s3 = l3 + k2;
 
-        self.0[0] = d0 & 0x03ffffffffffffff;
-        self.0[1] = d1 & 0x03ffffffffffffff;
-        self.0[2] = d2 & 0x03ffffffffffffff;
-        self.0[3] = d3;
+        self.0[0] = s0 & 0x03ffffffffffffff;
+        self.0[1] = s1 & 0x03ffffffffffffff;
+        self.0[2] = s2 & 0x03ffffffffffffff;
+        self.0[3] = s3;
     }
 
     fn small_mul(&self, b: i32) -> Self {
diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index 2c7fe5f..192df4a 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -1351,19 +1351,31 @@ impl PrimeField for Mod_e222_117 {
         let m6 = a6 * b;
         let m7 = a7 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x1fffffff) << 29) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x1fffffff) << 29);
         let c0 = d0 >> 58;
         let d1 = (m1 >> 29) + m2 + ((m3 & 0x1fffffff) << 29) + c0;
         let c1 = d1 >> 58;
         let d2 = (m3 >> 29) + m4 + ((m5 & 0x1fffffff) << 29) + c1;
         let c2 = d2 >> 58;
-        let d3 = (m5 >> 29) + m6 + (m7 << 29) + c2;
+        let d3 = (m5 >> 29) + m6 + c2;
+
+        // Everything above the top of the modulus, including any carry
+        // the operand held, wraps around to the bottom digit.
+        let dh = m7 + (d3 >> 29);
+        let kin = dh >> 19;
+        let l3 = ((dh & 0x7ffff) << 29) | (d3 & 0x1fffffff);
+        let s0 = (d0 & 0x03ffffffffffffff) + (kin * C_VAL);
+        let k0 = s0 >> 58;
+        let s1 = (d1 & 0x03ffffffffffffff) + k0;
+        let k1 = s1 >> 58;
+        let s2 = (d2 & 0x03ffffffffffffff) + k1;
+        let k2 = s2 >> 58;
+        let s3 = l3 + k2;
 
-        self.0[0] = d0 & 0x03ffffffffffffff;
-        self.0[1] = d1 & 0x03ffffffffffffff;
-        self.0[2] = d2 & 0x03ffffffffffffff;
-        self.0[3] = d3;
+        self.0[0] = s0 & 0x03ffffffffffffff;
+        self.0[1] = s1 & 0x03ffffffffffffff;
+        self.0[2] = s2 & 0x03ffffffffffffff;
+        self.0[3] = s3;
     }
 
     fn small_mul(&self, b: i32) -> Mod_e222_117 {
diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index 884b7e1..ef8d56e 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -1406,8 +1406,7 @@ impl PrimeField for Mod_e251_9 {
         let m7 = a7 * b;
         let m8 = a8 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x0fffffff) << 28);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
         let c1 = d1 >> 56;
@@ -1417,11 +1416,25 @@ impl PrimeField for Mod_e251_9 {
         let c3 = d3 >> 56;
         let d4 = (m7 >> 28) + m8 + c3;
 
-        self.0[0] = d0 & 0x00ffffffffffffff;
-        self.0[1] = d1 & 0x00ffffffffffffff;
-        self.0[2] = d2 & 0x00ffffffffffffff;
-        self.0[3] = d3 & 0x00ffffffffffffff;
-        self.0[4] = d4;
+        // Everything above the top of the modulus, including any carry
+        // the operand held, wraps around to the bottom digit.
+        let kin = d4 >> 27;
+        let l4 = d4 & 0x7ffffff;
+        let s0 = (d0 & 0x00ffffffffffffff) + (kin * C_VAL);
+        let k0 = s0 >> 56;
+        let s1 = (d1 & 0x00ffffffffffffff) + k0;
+        let k1 = s1 >> 56;
+        let s2 = (d2 & 0x00ffffffffffffff) + k1;
+        let k2 = s2 >> 56;
+        let s3 = (d3 & 0x00ffffffffffffff) + k2;
+        let k3 = s3 >> 56;
+        let s4 = l4 + k3;
+
+        self.0[0] = s0 & 0x00ffffffffffffff;
+        self.0[1] = s1 & 0x00ffffffffffffff;
+        self.0[2] = s2 & 0x00ffffffffffffff;
+        self.0[3] = s3 & 0x00ffffffffffffff;
+        self.0[4] = s4;
     }
 
     fn small_mul(&self, b: i32) -> Self {
diff --git a/src/field/mod_e255_19.rs b/src/field/mod_e255_19.rs
index 4e153c8..1cdbec1 100644
--- a/src/field/mod_e255_19.rs
+++ b/src/field/mod_e255_19.rs
@@ -1503,8 +1503,7 @@ impl PrimeField for Mod_e255_19 {
         let m8 = a8 * b;
         let m9 = a9 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x0fffffff) << 28);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
         let c1 = d1 >> 56;
@@ -1512,13 +1511,28 @@ impl PrimeField for Mod_e255_19 {
         let c2 = d2 >> 56;
         let d3 = (m5 >> 28) + m6 + ((m7 & 0x0fffffff) << 28) + c2;
         let c3 = d3 >> 56;
-        let d4 = (m7 >> 28) + m8 + (m9 << 28) + c3;
+        let d4 = (m7 >> 28) + m8 + c3;
+
+        // Everything above the top of the modulus, including any carry
+        // the operand held, wraps around to the bottom digit.
+        let dh = m9 + (d4 >> 28);
+        let kin = dh >> 3;
+        let l4 = ((dh & 0x7) << 28) | (d4 & 0x0fffffff);
+        let s0 = (d0 & 0x00ffffffffffffff) + (kin * C_VAL);
+        let k0 = s0 >> 56;
+        let s1 = (d1 & 0x00ffffffffffffff) + k0;
+        let k1 = s1 >> 56;
+        let s2 = (d2 & 0x00ffffffffffffff) + k1;
+        let k2 = s2 >> 56;
+        let s3 = (d3 & 0x00ffffffffffffff) + k2;
+        let k3 = s3 >> 56;
+        let s4 = l4 + k3;
 
-        self.0[0] = d0 & 0x00ffffffffffffff;
-        self.0[1] = d1 & 0x00ffffffffffffff;
-        self.0[2] = d2 & 0x00ffffffffffffff;
-        self.0[3] = d3 & 0x00ffffffffffffff;
-        self.0[4] = d4;
+        self.0[0] = s0 & 0x00ffffffffffffff;
+        self.0[1] = s1 & 0x00ffffffffffffff;
+        self.0[2] = s2 & 0x00ffffffffffffff;
+        self.0[3] = s3 & 0x00ffffffffffffff;
+        self.0[4] = s4;
     }
 
     fn small_mul(&self, b: i32) -> Self {
diff --git a/src/field/mod_e382_105.rs b/src/field/mod_e382_105.rs
index 766e94a..0af7343 100644
--- a/src/field/mod_e382_105.rs
+++ b/src/field/mod_e382_105.rs
@@ -1936,8 +1936,7 @@ impl PrimeField for Mod_e382_105 {
         let m12 = a12 * b;
         let m13 = a13 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x0fffffff) << 28);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
         let c1 = d1 >> 56;
@@ -1949,15 +1948,34 @@ impl PrimeField for Mod_e382_105 {
         let c4 = d4 >> 56;
         let d5 = (m9 >> 28) + m10 + ((m11 & 0x0fffffff) << 28) + c4;
         let c5 = d5 >> 56;
-        let d6 = (m11 >> 28) + m12 + (m13 << 28) + c5;
-
-        self.0[0] = d0 & 0x00ffffffffffffff;
-        self.0[1] = d1 & 0x00ffffffffffffff;
-        self.0[2] = d2 & 0x00ffffffffffffff;
-        self.0[3] = d3 & 0x00ffffffffffffff;
-        self.0[4] = d4 & 0x00ffffffffffffff;
-        self.0[5] = d5 & 0x00ffffffffffffff;
-        self.0[6] = d6;
+        let d6 = (m11 >> 28) + m12 + c5;
+
+        // Everything above the top of the modulus, including any carry
+        // the operand held, wraps around to the bottom digit.
+        let dh = m13 + (d6 >> 28);
+        let kin = dh >> 18;
+        let l6 = ((dh & 0x3ffff) << 28) | (d6 & 0x0fffffff);
+        let s0 = (d0 & 0x00ffffffffffffff) + (kin * C_VAL);
+        let k0 = s0 >> 56;
+        let s1 = (d1 & 0x00ffffffffffffff) + k0;
+        let k1 = s1 >> 56;
+        let s2 = (d2 & 0x00ffffffffffffff) + k1;
+        let k2 = s2 >> 56;
+        let s3 = (d3 & 0x00ffffffffffffff) + k2;
+        let k3 = s3 >> 56;
+        let s4 = (d4 & 0x00ffffffffffffff) + k3;
+        let k4 = s4 >> 56;
+        let s5 = (d5 & 0x00ffffffffffffff) + k4;
+        let k5 = s5 >> 56;
+        let s6 = l6 + k5;
+
+        self.0[0] = s0 & 0x00ffffffffffffff;
+        self.0[1] = s1 & 0x00ffffffffffffff;
+        self.0[2] = s2 & 0x00ffffffffffffff;
+        self.0[3] = s3 & 0x00ffffffffffffff;
+        self.0[4] = s4 & 0x00ffffffffffffff;
+        self.0[5] = s5 & 0x00ffffffffffffff;
+        self.0[6] = s6;
     }
 
     fn small_mul(&self, b: i32) -> Mod_e382_105 {
diff --git a/src/field/mod_e383_187.rs b/src/field/mod_e383_187.rs
index 00e00a1..c3d78fd 100644
--- a/src/field/mod_e383_187.rs
+++ b/src/field/mod_e383_187.rs
@@ -2058,8 +2058,7 @@ impl PrimeField for Mod_e383_187 {
         let m12 = a12 * b;
         let m13 = a13 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x0fffffff) << 28);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
         let c1 = d1 >> 56;
@@ -2071,15 +2070,34 @@ impl PrimeField for Mod_e383_187 {
         let c4 = d4 >> 56;
         let d5 = (m9 >> 28) + m10 + ((m11 & 0x0fffffff) << 28) + c4;
         let c5 = d5 >> 56;
-        let d6 = (m11 >> 28) + m12 + (m13 << 28) + c5;
-
-        self.0[0] = d0 & 0x00ffffffffffffff;
-        self.0[1] = d1 & 0x00ffffffffffffff;
-        self.0[2] = d2 & 0x00ffffffffffffff;
-        self.0[3] = d3 & 0x00ffffffffffffff;
-        self.0[4] = d4 & 0x00ffffffffffffff;
-        self.0[5] = d5 & 0x00ffffffffffffff;
-        self.0[6] = d6;
+        let d6 = (m11 >> 28) + m12 + c5;
+
+        // Everything above the top of the modulus, including any carry
+        // the operand held, wraps around to the bottom digit.
+        let dh = m13 + (d6 >> 28);
+        let kin = dh >> 19;
+        let l6 = ((dh & 0x7ffff) << 28) | (d6 & 0x0fffffff);
+        let s0 = (d0 & 0x00ffffffffffffff) + (kin * C_VAL);
+        let k0 = s0 >> 56;
+        let s1 = (d1 & 0x00ffffffffffffff) + k0;
+        let k1 = s1 >> 56;
+        let s2 = (d2 & 0x00ffffffffffffff) + k1;
+        let k2 = s2 >> 56;
+        let s3 = (d3 & 0x00ffffffffffffff) + k2;
+        let k3 = s3 >> 56;
+        let s4 = (d4 & 0x00ffffffffffffff) + k3;
+        let k4 = s4 >> 56;
+        let s5 = (d5 & 0x00ffffffffffffff) + k4;
+        let k5 = s5 >> 56;
+        let s6 = l6 + k5;
+
+        self.0[0] = s0 & 0x00ffffffffffffff;
+        self.0[1] = s1 & 0x00ffffffffffffff;
+        self.0[2] = s2 & 0x00ffffffffffffff;
+        self.0[3] = s3 & 0x00ffffffffffffff;
+        self.0[4] = s4 & 0x00ffffffffffffff;
+        self.0[5] = s5 & 0x00ffffffffffffff;
+        self.0[6] = s6;
     }
 
     fn small_mul(&self, b: i32) -> Mod_e383_187 {
diff --git a/src/field/mod_e414_17.rs b/src/field/mod_e414_17.rs
index 75f5717..7bda24f 100644
--- a/src/field/mod_e414_17.rs
+++ b/src/field/mod_e414_17.rs
@@ -2043,8 +2043,7 @@ impl PrimeField for Mod_e414_17 {
         let m13 = a13 * b;
         let m14 = a14 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x0fffffff) << 28);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
         let c1 = d1 >> 56;
@@ -2060,14 +2059,34 @@ impl PrimeField for Mod_e414_17 {
         let c6 = d6 >> 56;
         let d7 = (m13 >> 28) + m14 + c6;
 
-        self.0[0] = d0 & 0x00ffffffffffffff;
-        self.0[1] = d1 & 0x00ffffffffffffff;
-        self.0[2] = d2 & 0x00ffffffffffffff;
-        self.0[3] = d3 & 0x00ffffffffffffff;
-        self.0[4] = d4 & 0x00ffffffffffffff;
-        self.0[5] = d5 & 0x00ffffffffffffff;
-        self.0[6] = d6 & 0x00ffffffffffffff;
-        self.0[7] = d7;
+        // Everything above the top of the modulus, including any carry
+        // the operand held, wraps around to the bottom digit.
+        let kin = d7 >> 22;
+        let l7 = d7 & 0x3fffff;
+        let s0 = (d0 & 0x00ffffffffffffff) + (kin * C_VAL);
+        let k0 = s0 >> 56;
+        let s1 = (d1 & 0x00ffffffffffffff) + k0;
+        let k1 = s1 >> 56;
+        let s2 = (d2 & 0x00ffffffffffffff) + k1;
+        let k2 = s2 >> 56;
+        let s3 = (d3 & 0x00ffffffffffffff) + k2;
+        let k3 = s3 >> 56;
+        let s4 = (d4 & 0x00ffffffffffffff) + k3;
+        let k4 = s4 >> 56;
+        let s5 = (d5 & 0x00ffffffffffffff) + k4;
+        let k5 = s5 >> 56;
+        let s6 = (d6 & 0x00ffffffffffffff) + k5;
+        let k6 = s6 >> 56;
+        let s7 = l7 + k6;
+
+        self.0[0] = s0 & 0x00ffffffffffffff;
+        self.0[1] = s1 & 0x00ffffffffffffff;
+        self.0[2] = s2 & 0x00ffffffffffffff;
+        self.0[3] = s3 & 0x00ffffffffffffff;
+        self.0[4] = s4 & 0x00ffffffffffffff;
+        self.0[5] = s5 & 0x00ffffffffffffff;
+        self.0[6] = s6 & 0x00ffffffffffffff;
+        self.0[7] = s7;
     }
 
     fn small_mul(&self, b: i32) -> Mod_e414_17 {
diff --git a/src/field/mod_e511_187.rs b/src/field/mod_e511_187.rs
index 58e5b32..cb5ab7b 100644
--- a/src/field/mod_e511_187.rs
+++ b/src/field/mod_e511_187.rs
@@ -2666,8 +2666,7 @@ impl PrimeField for Mod_e511_187 {
         let m17 = a17 * b;
         let m18 = a18 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x07ffffff) << 27) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x07ffffff) << 27);
         let c0 = d0 >> 54;
         let d1 = (m1 >> 27) + m2 + ((m3 & 0x07ffffff) << 27) + c0;
         let c1 = d1 >> 54;
@@ -2687,16 +2686,40 @@ impl PrimeField for Mod_e511_187 {
         let c8 = d8 >> 54;
         let d9 = (m17 >> 27) + m18 + c8;
 
-        self.0[0] = d0 & 0x003fffffffffffff;
-        self.0[1] = d1 & 0x003fffffffffffff;
-        self.0[2] = d2 & 0x003fffffffffffff;
-        self.0[3] = d3 & 0x003fffffffffffff;
-        self.0[4] = d4 & 0x003fffffffffffff;
-        self.0[5] = d5 & 0x003fffffffffffff;
-        self.0[6] = d6 & 0x003fffffffffffff;
-        self.0[7] = d7 & 0x003fffffffffffff;
-        self.0[8] = d8 & 0x003fffffffffffff;
-        self.0[9] = d9;
+        // Everything above the top of the modulus, including any carry
+        // the operand held, wraps around to the bottom digit.
+        let kin = d9 >> 25;
+        let l9 = d9 & 0x1ffffff;
+        let s0 = (d0 & 0x003fffffffffffff) + (kin * C_VAL);
+        let k0 = s0 >> 54;
+        let s1 = (d1 & 0x003fffffffffffff) + k0;
+        let k1 = s1 >> 54;
+        let s2 = (d2 & 0x003fffffffffffff) + k1;
+        let k2 = s2 >> 54;
+        let s3 = (d3 & 0x003fffffffffffff) + k2;
+        let k3 = s3 >> 54;
+        let s4 = (d4 & 0x003fffffffffffff) + k3;
+        let k4 = s4 >> 54;
+        let s5 = (d5 & 0x003fffffffffffff) + k4;
+        let k5 = s5 >> 54;
+        let s6 = (d6 & 0x003fffffffffffff) + k5;
+        let k6 = s6 >> 54;
+        let s7 = (d7 & 0x003fffffffffffff) + k6;
+        let k7 = s7 >> 54;
+        let s8 = (d8 & 0x003fffffffffffff) + k7;
+        let k8 = s8 >> 54;
+        let s9 = l9 + k8;
+
+        self.0[0] = s0 & 0x003fffffffffffff;
+        self.0[1] = s1 & 0x003fffffffffffff;
+        self.0[2] = s2 & 0x003fffffffffffff;
+        self.0[3] = s3 & 0x003fffffffffffff;
+        self.0[4] = s4 & 0x003fffffffffffff;
+        self.0[5] = s5 & 0x003fffffffffffff;
+        self.0[6] = s6 & 0x003fffffffffffff;
+        self.0[7] = s7 & 0x003fffffffffffff;
+        self.0[8] = s8 & 0x003fffffffffffff;
+        self.0[9] = s9;
     }
 
     fn small_mul(&self, b: i32) -> Mod_e511_187 {
diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index 1480080..3bdf587 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -2702,8 +2702,7 @@ impl PrimeField for Mod_e521_1 {
         let m18 = a18 * b;
         let m19 = a19 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x07ffffff) << 27) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x07ffffff) << 27);
         let c0 = d0 >> 54;
         let d1 = (m1 >> 27) + m2 + ((m3 & 0x07ffffff) << 27) + c0;
         let c1 = d1 >> 54;
@@ -2721,18 +2720,43 @@ impl PrimeField for Mod_e521_1 {
         let c7 = d7 >> 54;
         let d8 = (m15 >> 27) + m16 + ((m17 & 0x07ffffff) << 27) + c7;
         let c8 = d8 >> 54;
-        let d9 = (m17 >> 27) + m18 + (m19 << 27) + c8;
-
-        self.0[0] = d0 & 0x003fffffffffffff;
-        self.0[1] = d1 & 0x003fffffffffffff;
-        self.0[2] = d2 & 0x003fffffffffffff;
-        self.0[3] = d3 & 0x003fffffffffffff;
-        self.0[4] = d4 & 0x003fffffffffffff;
-        self.0[5] = d5 & 0x003fffffffffffff;
-        self.0[6] = d6 & 0x003fffffffffffff;
-        self.0[7] = d7 & 0x003fffffffffffff;
-        self.0[8] = d8 & 0x003fffffffffffff;
-        self.0[9] = d9;
+        let d9 = (m17 >> 27) + m18 + c8;
+
+        // Everything above the top of the modulus, including any carry
+        // the operand held, wraps around to the bottom digit.
+        let dh = m19 + (d9 >> 27);
+        let kin = dh >> 8;
+        let l9 = ((dh & 0xff) << 27) | (d9 & 0x07ffffff);
+        let s0 = (d0 & 0x003fffffffffffff) + (kin * C_VAL);
+        let k0 = s0 >> 54;
+        let s1 = (d1 & 0x003fffffffffffff) + k0;
+        let k1 = s1 >> 54;
+        let s2 = (d2 & 0x003fffffffffffff) + k1;
+        let k2 = s2 >> 54;
+        let s3 = (d3 & 0x003fffffffffffff) + k2;
+        let k3 = s3 >> 54;
+        let s4 = (d4 & 0x003fffffffffffff) + k3;
+        let k4 = s4 >> 54;
+        let s5 = (d5 & 0x003fffffffffffff) + k4;
+        let k5 = s5 >> 54;
+        let s6 = (d6 & 0x003fffffffffffff) + k5;
+        let k6 = s6 >> 54;
+        let s7 = (d7 & 0x003fffffffffffff) + k6;
+        let k7 = s7 >> 54;
+        let s8 = (d8 & 0x003fffffffffffff) + k7;
+        let k8 = s8 >> 54;
+        let s9 = l9 + k8;
+
+        self.0[0] = s0 & 0x003fffffffffffff;
+        self.0[1] = s1 & 0x003fffffffffffff;
+        self.0[2] = s2 & 0x003fffffffffffff;
+        self.0[3] = s3 & 0x003fffffffffffff;
+        self.0[4] = s4 & 0x003fffffffffffff;
+        self.0[5] = s5 & 0x003fffffffffffff;
+        self.0[6] = s6 & 0x003fffffffffffff;
+        self.0[7] = s7 & 0x003fffffffffffff;
+        self.0[8] = s8 & 0x003fffffffffffff;
+        self.0[9] = s9;
     }
 
     fn small_mul(&self, b: i32) -> Mod_e521_1 {
-- 
2.43.0


From 83dbad927a51225f86d3d1e72a7665322207f5fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:06 +0000
Subject: [PATCH 06/12] fix: normalize values that are slightly negative

---
 src/field/mod_e221_3.rs   | 3 +++
 src/field/mod_e222_117.rs | 3 +++
 src/field/mod_e251_9.rs   | 3 +++
 src/field/mod_e255_19.rs  | 3 +++
 src/field/mod_e382_105.rs | 3 +++
 src/field/mod_e383_187.rs | 3 +++
 src/field/mod_e414_17.rs  | 3 +++
 src/field/mod_e511_187.rs | 3 +++
 src/field/mod_e521_1.rs   | 3 +++
 9 files changed, 27 insertions(+)

diff --git a/src/field/mod_e221_3.rs b/src/field/mod_e221_3.rs
index 3674413..f2352cf 100644
--- a/src/field/mod_e221_3.rs
+++ b/src/field/mod_e221_3.rs
@@ -843,6 +843,9 @@ impl Pack for Mod_e221_3 {
 
 impl Normalize for Mod_e221_3 {
     fn normalize(&mut self) {
+        // Adding the modulus first rules out a negative value.
+        *self += &MODULUS;
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index 192df4a..2bb448c 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -840,6 +840,9 @@ impl Pack for Mod_e222_117 {
 
 impl Normalize for Mod_e222_117 {
     fn normalize(&mut self) {
+        // Adding the modulus first rules out a negative value.
+        *self += &MODULUS;
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index ef8d56e..54fd2a3 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -880,6 +880,9 @@ impl Pack for Mod_e251_9 {
 
 impl Normalize for Mod_e251_9 {
     fn normalize(&mut self) {
+        // Adding the modulus first rules out a negative value.
+        *self += &MODULUS;
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e255_19.rs b/src/field/mod_e255_19.rs
index 1cdbec1..227b7cd 100644
--- a/src/field/mod_e255_19.rs
+++ b/src/field/mod_e255_19.rs
@@ -932,6 +932,9 @@ impl Pack for Mod_e255_19 {
 
 impl Normalize for Mod_e255_19 {
     fn normalize(&mut self) {
+        // Adding the modulus first rules out a negative value.
+        *self += &MODULUS;
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e382_105.rs b/src/field/mod_e382_105.rs
index 0af7343..5c63f3d 100644
--- a/src/field/mod_e382_105.rs
+++ b/src/field/mod_e382_105.rs
@@ -1143,6 +1143,9 @@ impl Pack for Mod_e382_105 {
 
 impl Normalize for Mod_e382_105 {
     fn normalize(&mut self) {
+        // Adding the modulus first rules out a negative value.
+        *self += &MODULUS;
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e383_187.rs b/src/field/mod_e383_187.rs
index c3d78fd..9c74a89 100644
--- a/src/field/mod_e383_187.rs
+++ b/src/field/mod_e383_187.rs
@@ -1226,6 +1226,9 @@ impl Pack for Mod_e383_187 {
 
 impl Normalize for Mod_e383_187 {
     fn normalize(&mut self) {
+        // Adding the modulus first rules out a negative value.
+        *self += &MODULUS;
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e414_17.rs b/src/field/mod_e414_17.rs
index 7bda24f..abe0a94 100644
--- a/src/field/mod_e414_17.rs
+++ b/src/field/mod_e414_17.rs
@@ -1208,6 +1208,9 @@ impl Pack for Mod_e414_17 {
 
 impl Normalize for Mod_e414_17 {
     fn normalize(&mut self) {
+        // Adding the modulus first rules out a negative value.
+        *self += &MODULUS;
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e511_187.rs b/src/field/mod_e511_187.rs
index cb5ab7b..6d77a99 100644
--- a/src/field/mod_e511_187.rs
+++ b/src/field/mod_e511_187.rs
@@ -1540,6 +1540,9 @@ impl Pack for Mod_e511_187 {
 
 impl Normalize for Mod_e511_187 {
     fn normalize(&mut self) {
+        // Adding the modulus first rules out a negative value.
+        *self += &MODULUS;
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index 3bdf587..02b0914 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -1570,6 +1570,9 @@ impl Pack for Mod_e521_1 {
 
 impl Normalize for Mod_e521_1 {
     fn normalize(&mut self) {
+        // Adding the modulus first rules out a negative value.
+        *self += &MODULUS;
+
         let plusone = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusone.carry_out() as i32);
         *self -= &offset;
-- 
2.43.0


From 592a9838beba0dde54357ba7d47f65580de02496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:44 +0000
Subject: [PATCH 07/12] fix: keep the sign of a negative product in
 mod_e222_117 and mod_e251_9

---
 src/field/mod_e222_117.rs | 2 +-
 src/field/mod_e251_9.rs   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index 2bb448c..cdf2fa9 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -626,7 +626,7 @@ impl<'b> MulAssign<&'b Mod_e222_117> for Mod_e222_117 {
                     ((hc5_0 & 0x1fffffff) << 29) + hmk1_0;
         let hmk2_0 = hm2_0 >> 58;
         let hm3_0 = (hc5_0 >> 29) + hc6_0 +
-                    ((hc7_0 & 0x1fffffff) << 29) + hmk2_0;
+                    (hc7_0 << 29) + hmk2_0;
 
         // Add h and l.
         let kin_0 = hm3_0 >> 48;
diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index 54fd2a3..abff542 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -654,7 +654,7 @@ impl<'b> MulAssign<&'b Mod_e251_9> for Mod_e251_9 {
                    ((d7 & 0x0000000007ffffff) << 29);
         let h3_0 = ((d7 & 0x00ffffffffffffff) >> 27) |
                    ((d8 & 0x0000000007ffffff) << 29);
-        let h4_0 = (d8 & 0x00ffffffffffffff) >> 27;
+        let h4_0 = d8 >> 27;
 
         // Multiply by C
         let hc0_0 = h0_0 * C_VAL;
-- 
2.43.0


From ccc527b7aa2e5a945bf93e7b85e7298bd909c736 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:30 +0000
Subject: [PATCH 08/12] fix: the identity point has T = 0

---
 src/curve/edwards.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/edwards.rs b/src/curve/edwards.rs
index ce09a18..4b4eaac 100644
--- a/src/curve/edwards.rs
+++ b/src/curve/edwards.rs
@@ -92,7 +92,7 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
             x: C::Scalar::zero(),
             y: C::Scalar::one(),
             z: C::Scalar::one(),
-            t: C::Scalar::one()
+            t: C::Scalar::zero()
         }
     }
 
-- 
2.43.0


From b3ceef38dcaabba870231821400f5bdc9df67c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:36 +0000
Subject: [PATCH 09/12] fix: a point built from affine coordinates has T = X*Y

---
 src/curve/edwards.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/edwards.rs b/src/curve/edwards.rs
index 4b4eaac..37d25c5 100644
--- a/src/curve/edwards.rs
+++ b/src/curve/edwards.rs
@@ -100,7 +100,7 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
         self.x = x;
         self.y = y;
         self.z = C::Scalar::one();
-        self.t = C::Scalar::one();
+        self.t = x * y;
     }
 
     fn scalar_mult(&mut self, rhs: &mut Self::Scalar) {
-- 
2.43.0


From 6ada997b3d460328aaa524b94654e8b287c3835e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:50 +0000
Subject: [PATCH 10/12] fix: sign in point tripling

---
 src/curve/edwards.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/edwards.rs b/src/curve/edwards.rs
index 37d25c5..ebf0850 100644
--- a/src/curve/edwards.rs
+++ b/src/curve/edwards.rs
@@ -193,7 +193,7 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
         let yb = yy * b;
         let aa = ap * (yy - xx);
         let f = aa - yb;
-        let g = aa - xb;
+        let g = aa + xb;
         let xe = self.x * (yb + aa);
         let yh = self.y * (xb - aa);
         let zf = self.z * f;
-- 
2.43.0


From df36fb983910bd0d332d3f9984e92d67cd43c114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:41 +0000
Subject: [PATCH 11/12] fix: scalar multiplication used the complement of the
 scalar's bits

---
 src/curve/edwards.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/curve/edwards.rs b/src/curve/edwards.rs
index ebf0850..094c2d7 100644
--- a/src/curve/edwards.rs
+++ b/src/curve/edwards.rs
@@ -130,9 +130,9 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
             r0 += r1;
             r1 = r0;
 
-            // d0 = bit ? r0 : r1
-            d0.normalized_bitand(&tmask);
-            d1.normalized_bitand(&fmask);
+            // d0 = bit ? r1 : r0
+            d0.normalized_bitand(&fmask);
+            d1.normalized_bitand(&tmask);
             d0.normalized_bitor(&d1);
 
             // d0 *= 2
@@ -141,14 +141,14 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
             // d1 = d0
             d1 = d0;
 
-            // r0 = bit ? d0 : r0
-            r0.normalized_bitand(&fmask);
-            d0.normalized_bitand(&tmask);
+            // r0 = bit ? r0 : d0
+            r0.normalized_bitand(&tmask);
+            d0.normalized_bitand(&fmask);
             r0.normalized_bitor(&d0);
 
-            // r1 = bit ? r1 : d1
-            r1.normalized_bitand(&tmask);
-            d1.normalized_bitand(&fmask);
+            // r1 = bit ? d1 : r1
+            r1.normalized_bitand(&fmask);
+            d1.normalized_bitand(&tmask);
             r1.normalized_bitor(&d1);
         }
 
-- 
2.43.0


From 544ae5e519a4f5ef144b6e5ea86ebcad0bd7cd8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:51 +0000
Subject: [PATCH 12/12] fix: ignore the bit above the field's width when
 decoding in mod_e383_187, as the other fields do

---
 src/field/mod_e383_187.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/field/mod_e383_187.rs b/src/field/mod_e383_187.rs
index 9c74a89..418bb90 100644
--- a/src/field/mod_e383_187.rs
+++ b/src/field/mod_e383_187.rs
@@ -1154,7 +1154,7 @@ impl Pack for Mod_e383_187 {
                   (((bytes[44] as i64) << 16) & 0x0000000000ff0000) |
                   (((bytes[45] as i64) << 24) & 0x00000000ff000000) |
                   (((bytes[46] as i64) << 32) & 0x000000ff00000000) |
-                  (((bytes[47] as i64) << 40) & 0x0000ff0000000000);
+                  (((bytes[47] as i64) << 40) & 0x00007f0000000000);
     }
 
     fn unpacked(bytes: &[u8]) -> Self {
-- 
2.43.0

