From eb5605af217bb8c16e32cdc8dbec34af5f94ef0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:39 +0000
Subject: [PATCH 01/11] Add cfg-guarded coordinate access for verification
 harnesses

---
 src/curve/edwards.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/curve/edwards.rs b/src/curve/edwards.rs
index 7168500..807c856 100644
--- a/src/curve/edwards.rs
+++ b/src/curve/edwards.rs
@@ -215,3 +215,17 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
         out
     }
 }
+
+/// Access to raw coordinates, for external verification harnesses
+/// only (built with `--cfg safecurves_verif`).
+#[cfg(safecurves_verif)]
+impl<C: EdwardsCurve> EdwardsExtended<C> {
+    pub fn verif_from_coords(x: C::Scalar, y: C::Scalar,
+                             z: C::Scalar, t: C::Scalar) -> Self {
+        EdwardsExtended { x: x, y: y, z: z, t: t }
+    }
+
+    pub fn verif_coords(&self) -> [C::Scalar; 4] {
+        [ self.x, self.y, self.z, self.t ]
+    }
+}
-- 
2.43.0


From cec35169c02640337d68859d93ef0e8f056c19e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:47 +0000
Subject: [PATCH 02/11] fix: subtract the carry slot of the subtrahend in
 SubAssign

---
 src/field/mod_e221_3.rs   | 2 +-
 src/field/mod_e222_117.rs | 2 +-
 src/field/mod_e251_9.rs   | 2 +-
 src/field/mod_e255_19.rs  | 2 +-
 src/field/mod_e382_105.rs | 2 +-
 src/field/mod_e383_187.rs | 2 +-
 src/field/mod_e414_17.rs  | 2 +-
 src/field/mod_e511_187.rs | 2 +-
 src/field/mod_e521_1.rs   | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/field/mod_e221_3.rs b/src/field/mod_e221_3.rs
index 240f852..47c47a1 100644
--- a/src/field/mod_e221_3.rs
+++ b/src/field/mod_e221_3.rs
@@ -364,7 +364,7 @@ impl<'b> SubAssign<&'b Mod_e221_3> for Mod_e221_3 {
         let b2 = rhs.0[2];
         let b3 = rhs.0[3] & 0x00007fffffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 58;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index 20b568d..9eed087 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -325,7 +325,7 @@ impl<'b> SubAssign<&'b Mod_e222_117> for Mod_e222_117 {
         let b2 = rhs.0[2];
         let b3 = rhs.0[3] & 0x0000ffffffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 58;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index 1fef865..e1d7c60 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -344,7 +344,7 @@ impl<'b> SubAssign<&'b Mod_e251_9> for Mod_e251_9 {
         let b3 = rhs.0[3];
         let b4 = rhs.0[4] & 0x0000000007ffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e255_19.rs b/src/field/mod_e255_19.rs
index 9859fef..c974685 100644
--- a/src/field/mod_e255_19.rs
+++ b/src/field/mod_e255_19.rs
@@ -364,7 +364,7 @@ impl<'b> SubAssign<&'b Mod_e255_19> for Mod_e255_19 {
         let b3 = rhs.0[3];
         let b4 = rhs.0[4] & 0x000000007fffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e382_105.rs b/src/field/mod_e382_105.rs
index f962198..b91433a 100644
--- a/src/field/mod_e382_105.rs
+++ b/src/field/mod_e382_105.rs
@@ -358,7 +358,7 @@ impl<'b> SubAssign<&'b Mod_e382_105> for Mod_e382_105 {
         let b5 = rhs.0[5];
         let b6 = rhs.0[6] & 0x00003fffffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e383_187.rs b/src/field/mod_e383_187.rs
index 1cb9823..2a1df8c 100644
--- a/src/field/mod_e383_187.rs
+++ b/src/field/mod_e383_187.rs
@@ -407,7 +407,7 @@ impl<'b> SubAssign<&'b Mod_e383_187> for Mod_e383_187 {
         let b5 = rhs.0[5];
         let b6 = rhs.0[6] & 0x00007fffffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e414_17.rs b/src/field/mod_e414_17.rs
index 038c529..ead33fe 100644
--- a/src/field/mod_e414_17.rs
+++ b/src/field/mod_e414_17.rs
@@ -364,7 +364,7 @@ impl<'b> SubAssign<&'b Mod_e414_17> for Mod_e414_17 {
         let b6 = rhs.0[6];
         let b7 = rhs.0[7] & 0x00000000003fffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 56;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e511_187.rs b/src/field/mod_e511_187.rs
index e434408..3e19760 100644
--- a/src/field/mod_e511_187.rs
+++ b/src/field/mod_e511_187.rs
@@ -416,7 +416,7 @@ impl<'b> SubAssign<&'b Mod_e511_187> for Mod_e511_187 {
         let b8 = rhs.0[8];
         let b9 = rhs.0[9] & 0x0000000001ffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 54;
         let s1 = a1 - b1 + c0;
diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index 146eeee..3c20e5d 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -385,7 +385,7 @@ impl<'b> SubAssign<&'b Mod_e521_1> for Mod_e521_1 {
         let b8 = rhs.0[8];
         let b9 = rhs.0[9] & 0x00000007ffffffff;
 
-        let cin = self.carry_out() + rhs.carry_out();
+        let cin = self.carry_out() - rhs.carry_out();
         let s0 = a0 - b0 + (cin * C_VAL);
         let c0 = s0 >> 54;
         let s1 = a1 - b1 + c0;
-- 
2.43.0


From 8e32a3e0953dbdf4b1314ec2db4b92f08bd13878 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:50 +0000
Subject: [PATCH 03/11] fix: negate in Neg instead of adding the modulus

---
 src/field/mod_e221_3.rs   | 4 ++--
 src/field/mod_e222_117.rs | 4 ++--
 src/field/mod_e251_9.rs   | 4 ++--
 src/field/mod_e255_19.rs  | 4 ++--
 src/field/mod_e382_105.rs | 4 ++--
 src/field/mod_e383_187.rs | 4 ++--
 src/field/mod_e414_17.rs  | 4 ++--
 src/field/mod_e511_187.rs | 4 ++--
 src/field/mod_e521_1.rs   | 4 ++--
 9 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/src/field/mod_e221_3.rs b/src/field/mod_e221_3.rs
index 47c47a1..b1a25ce 100644
--- a/src/field/mod_e221_3.rs
+++ b/src/field/mod_e221_3.rs
@@ -155,9 +155,9 @@ impl Neg for Mod_e221_3 {
     type Output = Mod_e221_3;
 
     fn neg(self) -> Mod_e221_3 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index 9eed087..80a2b35 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -134,9 +134,9 @@ impl Neg for Mod_e222_117 {
     type Output = Mod_e222_117;
 
     fn neg(self) -> Mod_e222_117 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index e1d7c60..9ec897e 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -146,9 +146,9 @@ impl Neg for Mod_e251_9 {
     type Output = Mod_e251_9;
 
     fn neg(self) -> Mod_e251_9 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e255_19.rs b/src/field/mod_e255_19.rs
index c974685..c52e6f3 100644
--- a/src/field/mod_e255_19.rs
+++ b/src/field/mod_e255_19.rs
@@ -166,9 +166,9 @@ impl Neg for Mod_e255_19 {
     type Output = Mod_e255_19;
 
     fn neg(self) -> Mod_e255_19 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e382_105.rs b/src/field/mod_e382_105.rs
index b91433a..b04ce03 100644
--- a/src/field/mod_e382_105.rs
+++ b/src/field/mod_e382_105.rs
@@ -146,9 +146,9 @@ impl Neg for Mod_e382_105 {
     type Output = Mod_e382_105;
 
     fn neg(self) -> Mod_e382_105 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e383_187.rs b/src/field/mod_e383_187.rs
index 2a1df8c..6c3b524 100644
--- a/src/field/mod_e383_187.rs
+++ b/src/field/mod_e383_187.rs
@@ -195,9 +195,9 @@ impl Neg for Mod_e383_187 {
     type Output = Mod_e383_187;
 
     fn neg(self) -> Mod_e383_187 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e414_17.rs b/src/field/mod_e414_17.rs
index ead33fe..a0f42f2 100644
--- a/src/field/mod_e414_17.rs
+++ b/src/field/mod_e414_17.rs
@@ -145,9 +145,9 @@ impl Neg for Mod_e414_17 {
     type Output = Mod_e414_17;
 
     fn neg(self) -> Mod_e414_17 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e511_187.rs b/src/field/mod_e511_187.rs
index 3e19760..b4246ba 100644
--- a/src/field/mod_e511_187.rs
+++ b/src/field/mod_e511_187.rs
@@ -183,9 +183,9 @@ impl Neg for Mod_e511_187 {
     type Output = Mod_e511_187;
 
     fn neg(self) -> Mod_e511_187 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index 3c20e5d..e6155e5 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -152,9 +152,9 @@ impl Neg for Mod_e521_1 {
     type Output = Mod_e521_1;
 
     fn neg(self) -> Mod_e521_1 {
-        let mut out = self;
+        let mut out = MODULUS;
 
-        out += &MODULUS;
+        out -= &self;
         out
     }
 }
-- 
2.43.0


From 71cdbd5e71611a4ba423943fe915dac7e8f78470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:06 +0000
Subject: [PATCH 04/11] fix: take each carry from its own digit in
 Mod_e521_1::small_mul_assign

---
 src/field/mod_e521_1.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index e6155e5..64743db 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -2719,11 +2719,11 @@ impl PrimeField for Mod_e521_1 {
         let d5 = (m9 >> 27) + m10 + ((m11 & 0x07ffffff) << 27) + c4;
         let c5 = d5 >> 54;
         let d6 = (m11 >> 27) + m12 + ((m13 & 0x07ffffff) << 27) + c5;
-        let c6 = d5 >> 54;
+        let c6 = d6 >> 54;
         let d7 = (m13 >> 27) + m14 + ((m15 & 0x07ffffff) << 27) + c6;
-        let c7 = d6 >> 54;
+        let c7 = d7 >> 54;
         let d8 = (m15 >> 27) + m16 + ((m17 & 0x07ffffff) << 27) + c7;
-        let c8 = d7 >> 54;
+        let c8 = d8 >> 54;
         let d9 = (m17 >> 27) + m18 + (m19 << 27) + c8;
 
         self.0[0] = d0 & 0x003fffffffffffff;
-- 
2.43.0


From 82c129e5ffa48d58deca326492b833cbaaf3cedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:31 +0000
Subject: [PATCH 05/11] fix: feed the carry-out of small_mul_assign back
 instead of overflowing the high digit

---
 src/field/mod_e221_3.rs   | 14 +++++++++-----
 src/field/mod_e222_117.rs | 14 +++++++++-----
 src/field/mod_e251_9.rs   | 12 ++++++++----
 src/field/mod_e255_19.rs  | 14 +++++++++-----
 src/field/mod_e382_105.rs | 14 +++++++++-----
 src/field/mod_e383_187.rs | 14 +++++++++-----
 src/field/mod_e414_17.rs  | 12 ++++++++----
 src/field/mod_e511_187.rs | 12 ++++++++----
 src/field/mod_e521_1.rs   | 14 +++++++++-----
 9 files changed, 78 insertions(+), 42 deletions(-)

diff --git a/src/field/mod_e221_3.rs b/src/field/mod_e221_3.rs
index b1a25ce..054dc67 100644
--- a/src/field/mod_e221_3.rs
+++ b/src/field/mod_e221_3.rs
@@ -1321,19 +1321,23 @@ impl PrimeField for Mod_e221_3 {
         let m6 = a6 * b;
         let m7 = a7 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x1fffffff) << 29) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x1fffffff) << 29);
         let c0 = d0 >> 58;
         let d1 = (m1 >> 29) + m2 + ((m3 & 0x1fffffff) << 29) + c0;
         let c1 = d1 >> 58;
         let d2 = (m3 >> 29) + m4 + ((m5 & 0x1fffffff) << 29) + c1;
         let c2 = d2 >> 58;
-        let d3 = (m5 >> 29) + m6 + (m7 << 29) + c2;
+        let d3 = (m5 >> 29) + m6 + ((m7 & 0x1fffffff) << 29) + c2;
+
+        // The highest digit includes the carry slot, so the carry-out
+        // of the product must be fed back in here.
+        let kin = (d3 >> 47) + ((m7 >> 29) << 11);
 
-        self.0[0] = d0 & 0x03ffffffffffffff;
+        self.0[0] = (d0 & 0x03ffffffffffffff) + (kin * C_VAL);
         self.0[1] = d1 & 0x03ffffffffffffff;
         self.0[2] = d2 & 0x03ffffffffffffff;
-        self.0[3] = d3;
+        self.0[3] = d3 & 0x00007fffffffffff;
+        self.small_add_assign(0);
     }
 
     fn small_mul(&self, b: i32) -> Self {
diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index 80a2b35..c2a7920 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -1354,19 +1354,23 @@ impl PrimeField for Mod_e222_117 {
         let m6 = a6 * b;
         let m7 = a7 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x1fffffff) << 29) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x1fffffff) << 29);
         let c0 = d0 >> 58;
         let d1 = (m1 >> 29) + m2 + ((m3 & 0x1fffffff) << 29) + c0;
         let c1 = d1 >> 58;
         let d2 = (m3 >> 29) + m4 + ((m5 & 0x1fffffff) << 29) + c1;
         let c2 = d2 >> 58;
-        let d3 = (m5 >> 29) + m6 + (m7 << 29) + c2;
+        let d3 = (m5 >> 29) + m6 + ((m7 & 0x1fffffff) << 29) + c2;
+
+        // The highest digit includes the carry slot, so the carry-out
+        // of the product must be fed back in here.
+        let kin = (d3 >> 48) + ((m7 >> 29) << 10);
 
-        self.0[0] = d0 & 0x03ffffffffffffff;
+        self.0[0] = (d0 & 0x03ffffffffffffff) + (kin * C_VAL);
         self.0[1] = d1 & 0x03ffffffffffffff;
         self.0[2] = d2 & 0x03ffffffffffffff;
-        self.0[3] = d3;
+        self.0[3] = d3 & 0x0000ffffffffffff;
+        self.small_add_assign(0);
     }
 
     fn small_mul(&self, b: i32) -> Mod_e222_117 {
diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index 9ec897e..1af3f51 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -1409,8 +1409,7 @@ impl PrimeField for Mod_e251_9 {
         let m7 = a7 * b;
         let m8 = a8 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x0fffffff) << 28);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
         let c1 = d1 >> 56;
@@ -1420,11 +1419,16 @@ impl PrimeField for Mod_e251_9 {
         let c3 = d3 >> 56;
         let d4 = (m7 >> 28) + m8 + c3;
 
-        self.0[0] = d0 & 0x00ffffffffffffff;
+        // The highest digit includes the carry slot, so the carry-out
+        // of the product must be fed back in here.
+        let kin = d4 >> 27;
+
+        self.0[0] = (d0 & 0x00ffffffffffffff) + (kin * C_VAL);
         self.0[1] = d1 & 0x00ffffffffffffff;
         self.0[2] = d2 & 0x00ffffffffffffff;
         self.0[3] = d3 & 0x00ffffffffffffff;
-        self.0[4] = d4;
+        self.0[4] = d4 & 0x0000000007ffffff;
+        self.small_add_assign(0);
     }
 
     fn small_mul(&self, b: i32) -> Self {
diff --git a/src/field/mod_e255_19.rs b/src/field/mod_e255_19.rs
index c52e6f3..89c926a 100644
--- a/src/field/mod_e255_19.rs
+++ b/src/field/mod_e255_19.rs
@@ -1506,8 +1506,7 @@ impl PrimeField for Mod_e255_19 {
         let m8 = a8 * b;
         let m9 = a9 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x0fffffff) << 28);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
         let c1 = d1 >> 56;
@@ -1515,13 +1514,18 @@ impl PrimeField for Mod_e255_19 {
         let c2 = d2 >> 56;
         let d3 = (m5 >> 28) + m6 + ((m7 & 0x0fffffff) << 28) + c2;
         let c3 = d3 >> 56;
-        let d4 = (m7 >> 28) + m8 + (m9 << 28) + c3;
+        let d4 = (m7 >> 28) + m8 + ((m9 & 0x0fffffff) << 28) + c3;
+
+        // The highest digit includes the carry slot, so the carry-out
+        // of the product must be fed back in here.
+        let kin = (d4 >> 31) + ((m9 >> 28) << 25);
 
-        self.0[0] = d0 & 0x00ffffffffffffff;
+        self.0[0] = (d0 & 0x00ffffffffffffff) + (kin * C_VAL);
         self.0[1] = d1 & 0x00ffffffffffffff;
         self.0[2] = d2 & 0x00ffffffffffffff;
         self.0[3] = d3 & 0x00ffffffffffffff;
-        self.0[4] = d4;
+        self.0[4] = d4 & 0x000000007fffffff;
+        self.small_add_assign(0);
     }
 
     fn small_mul(&self, b: i32) -> Self {
diff --git a/src/field/mod_e382_105.rs b/src/field/mod_e382_105.rs
index b04ce03..456ba52 100644
--- a/src/field/mod_e382_105.rs
+++ b/src/field/mod_e382_105.rs
@@ -1939,8 +1939,7 @@ impl PrimeField for Mod_e382_105 {
         let m12 = a12 * b;
         let m13 = a13 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x0fffffff) << 28);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
         let c1 = d1 >> 56;
@@ -1952,15 +1951,20 @@ impl PrimeField for Mod_e382_105 {
         let c4 = d4 >> 56;
         let d5 = (m9 >> 28) + m10 + ((m11 & 0x0fffffff) << 28) + c4;
         let c5 = d5 >> 56;
-        let d6 = (m11 >> 28) + m12 + (m13 << 28) + c5;
+        let d6 = (m11 >> 28) + m12 + ((m13 & 0x0fffffff) << 28) + c5;
+
+        // The highest digit includes the carry slot, so the carry-out
+        // of the product must be fed back in here.
+        let kin = (d6 >> 46) + ((m13 >> 28) << 10);
 
-        self.0[0] = d0 & 0x00ffffffffffffff;
+        self.0[0] = (d0 & 0x00ffffffffffffff) + (kin * C_VAL);
         self.0[1] = d1 & 0x00ffffffffffffff;
         self.0[2] = d2 & 0x00ffffffffffffff;
         self.0[3] = d3 & 0x00ffffffffffffff;
         self.0[4] = d4 & 0x00ffffffffffffff;
         self.0[5] = d5 & 0x00ffffffffffffff;
-        self.0[6] = d6;
+        self.0[6] = d6 & 0x00003fffffffffff;
+        self.small_add_assign(0);
     }
 
     fn small_mul(&self, b: i32) -> Mod_e382_105 {
diff --git a/src/field/mod_e383_187.rs b/src/field/mod_e383_187.rs
index 6c3b524..e5dcfc6 100644
--- a/src/field/mod_e383_187.rs
+++ b/src/field/mod_e383_187.rs
@@ -2061,8 +2061,7 @@ impl PrimeField for Mod_e383_187 {
         let m12 = a12 * b;
         let m13 = a13 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x0fffffff) << 28);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
         let c1 = d1 >> 56;
@@ -2074,15 +2073,20 @@ impl PrimeField for Mod_e383_187 {
         let c4 = d4 >> 56;
         let d5 = (m9 >> 28) + m10 + ((m11 & 0x0fffffff) << 28) + c4;
         let c5 = d5 >> 56;
-        let d6 = (m11 >> 28) + m12 + (m13 << 28) + c5;
+        let d6 = (m11 >> 28) + m12 + ((m13 & 0x0fffffff) << 28) + c5;
+
+        // The highest digit includes the carry slot, so the carry-out
+        // of the product must be fed back in here.
+        let kin = (d6 >> 47) + ((m13 >> 28) << 9);
 
-        self.0[0] = d0 & 0x00ffffffffffffff;
+        self.0[0] = (d0 & 0x00ffffffffffffff) + (kin * C_VAL);
         self.0[1] = d1 & 0x00ffffffffffffff;
         self.0[2] = d2 & 0x00ffffffffffffff;
         self.0[3] = d3 & 0x00ffffffffffffff;
         self.0[4] = d4 & 0x00ffffffffffffff;
         self.0[5] = d5 & 0x00ffffffffffffff;
-        self.0[6] = d6;
+        self.0[6] = d6 & 0x00007fffffffffff;
+        self.small_add_assign(0);
     }
 
     fn small_mul(&self, b: i32) -> Mod_e383_187 {
diff --git a/src/field/mod_e414_17.rs b/src/field/mod_e414_17.rs
index a0f42f2..7471d7a 100644
--- a/src/field/mod_e414_17.rs
+++ b/src/field/mod_e414_17.rs
@@ -2046,8 +2046,7 @@ impl PrimeField for Mod_e414_17 {
         let m13 = a13 * b;
         let m14 = a14 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x0fffffff) << 28) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x0fffffff) << 28);
         let c0 = d0 >> 56;
         let d1 = (m1 >> 28) + m2 + ((m3 & 0x0fffffff) << 28) + c0;
         let c1 = d1 >> 56;
@@ -2063,14 +2062,19 @@ impl PrimeField for Mod_e414_17 {
         let c6 = d6 >> 56;
         let d7 = (m13 >> 28) + m14 + c6;
 
-        self.0[0] = d0 & 0x00ffffffffffffff;
+        // The highest digit includes the carry slot, so the carry-out
+        // of the product must be fed back in here.
+        let kin = d7 >> 22;
+
+        self.0[0] = (d0 & 0x00ffffffffffffff) + (kin * C_VAL);
         self.0[1] = d1 & 0x00ffffffffffffff;
         self.0[2] = d2 & 0x00ffffffffffffff;
         self.0[3] = d3 & 0x00ffffffffffffff;
         self.0[4] = d4 & 0x00ffffffffffffff;
         self.0[5] = d5 & 0x00ffffffffffffff;
         self.0[6] = d6 & 0x00ffffffffffffff;
-        self.0[7] = d7;
+        self.0[7] = d7 & 0x00000000003fffff;
+        self.small_add_assign(0);
     }
 
     fn small_mul(&self, b: i32) -> Mod_e414_17 {
diff --git a/src/field/mod_e511_187.rs b/src/field/mod_e511_187.rs
index b4246ba..1cf3c14 100644
--- a/src/field/mod_e511_187.rs
+++ b/src/field/mod_e511_187.rs
@@ -2669,8 +2669,7 @@ impl PrimeField for Mod_e511_187 {
         let m17 = a17 * b;
         let m18 = a18 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x07ffffff) << 27) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x07ffffff) << 27);
         let c0 = d0 >> 54;
         let d1 = (m1 >> 27) + m2 + ((m3 & 0x07ffffff) << 27) + c0;
         let c1 = d1 >> 54;
@@ -2690,7 +2689,11 @@ impl PrimeField for Mod_e511_187 {
         let c8 = d8 >> 54;
         let d9 = (m17 >> 27) + m18 + c8;
 
-        self.0[0] = d0 & 0x003fffffffffffff;
+        // The highest digit includes the carry slot, so the carry-out
+        // of the product must be fed back in here.
+        let kin = d9 >> 25;
+
+        self.0[0] = (d0 & 0x003fffffffffffff) + (kin * C_VAL);
         self.0[1] = d1 & 0x003fffffffffffff;
         self.0[2] = d2 & 0x003fffffffffffff;
         self.0[3] = d3 & 0x003fffffffffffff;
@@ -2699,7 +2702,8 @@ impl PrimeField for Mod_e511_187 {
         self.0[6] = d6 & 0x003fffffffffffff;
         self.0[7] = d7 & 0x003fffffffffffff;
         self.0[8] = d8 & 0x003fffffffffffff;
-        self.0[9] = d9;
+        self.0[9] = d9 & 0x0000000001ffffff;
+        self.small_add_assign(0);
     }
 
     fn small_mul(&self, b: i32) -> Mod_e511_187 {
diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index 64743db..1670c92 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -2705,8 +2705,7 @@ impl PrimeField for Mod_e521_1 {
         let m18 = a18 * b;
         let m19 = a19 * b;
 
-        let cin = self.carry_out();
-        let d0 = m0 + ((m1 & 0x07ffffff) << 27) + (cin * C_VAL);
+        let d0 = m0 + ((m1 & 0x07ffffff) << 27);
         let c0 = d0 >> 54;
         let d1 = (m1 >> 27) + m2 + ((m3 & 0x07ffffff) << 27) + c0;
         let c1 = d1 >> 54;
@@ -2724,9 +2723,13 @@ impl PrimeField for Mod_e521_1 {
         let c7 = d7 >> 54;
         let d8 = (m15 >> 27) + m16 + ((m17 & 0x07ffffff) << 27) + c7;
         let c8 = d8 >> 54;
-        let d9 = (m17 >> 27) + m18 + (m19 << 27) + c8;
+        let d9 = (m17 >> 27) + m18 + ((m19 & 0x07ffffff) << 27) + c8;
+
+        // The highest digit includes the carry slot, so the carry-out
+        // of the product must be fed back in here.
+        let kin = (d9 >> 35) + ((m19 >> 27) << 19);
 
-        self.0[0] = d0 & 0x003fffffffffffff;
+        self.0[0] = (d0 & 0x003fffffffffffff) + (kin * C_VAL);
         self.0[1] = d1 & 0x003fffffffffffff;
         self.0[2] = d2 & 0x003fffffffffffff;
         self.0[3] = d3 & 0x003fffffffffffff;
@@ -2735,7 +2738,8 @@ impl PrimeField for Mod_e521_1 {
         self.0[6] = d6 & 0x003fffffffffffff;
         self.0[7] = d7 & 0x003fffffffffffff;
         self.0[8] = d8 & 0x003fffffffffffff;
-        self.0[9] = d9;
+        self.0[9] = d9 & 0x00000007ffffffff;
+        self.small_add_assign(0);
     }
 
     fn small_mul(&self, b: i32) -> Mod_e521_1 {
-- 
2.43.0


From 03f7ee6e61b729551882c7bad29259d70ffb2b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:00 +0000
Subject: [PATCH 06/11] fix: fold the carry slot before reducing in normalize

---
 src/field/mod_e221_3.rs   | 5 +++++
 src/field/mod_e222_117.rs | 5 +++++
 src/field/mod_e251_9.rs   | 5 +++++
 src/field/mod_e255_19.rs  | 5 +++++
 src/field/mod_e382_105.rs | 5 +++++
 src/field/mod_e383_187.rs | 5 +++++
 src/field/mod_e414_17.rs  | 5 +++++
 src/field/mod_e511_187.rs | 5 +++++
 src/field/mod_e521_1.rs   | 5 +++++
 9 files changed, 45 insertions(+)

diff --git a/src/field/mod_e221_3.rs b/src/field/mod_e221_3.rs
index 054dc67..26b0458 100644
--- a/src/field/mod_e221_3.rs
+++ b/src/field/mod_e221_3.rs
@@ -846,6 +846,11 @@ impl Pack for Mod_e221_3 {
 
 impl Normalize for Mod_e221_3 {
     fn normalize(&mut self) {
+        // Fold the carry slot into the low digits.  The first fold can
+        // leave a carry of -1 or 1 behind; the second one cannot.
+        self.small_add_assign(0);
+        self.small_add_assign(0);
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index c2a7920..4405aae 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -843,6 +843,11 @@ impl Pack for Mod_e222_117 {
 
 impl Normalize for Mod_e222_117 {
     fn normalize(&mut self) {
+        // Fold the carry slot into the low digits.  The first fold can
+        // leave a carry of -1 or 1 behind; the second one cannot.
+        self.small_add_assign(0);
+        self.small_add_assign(0);
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index 1af3f51..40a62e7 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -883,6 +883,11 @@ impl Pack for Mod_e251_9 {
 
 impl Normalize for Mod_e251_9 {
     fn normalize(&mut self) {
+        // Fold the carry slot into the low digits.  The first fold can
+        // leave a carry of -1 or 1 behind; the second one cannot.
+        self.small_add_assign(0);
+        self.small_add_assign(0);
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e255_19.rs b/src/field/mod_e255_19.rs
index 89c926a..d63f005 100644
--- a/src/field/mod_e255_19.rs
+++ b/src/field/mod_e255_19.rs
@@ -935,6 +935,11 @@ impl Pack for Mod_e255_19 {
 
 impl Normalize for Mod_e255_19 {
     fn normalize(&mut self) {
+        // Fold the carry slot into the low digits.  The first fold can
+        // leave a carry of -1 or 1 behind; the second one cannot.
+        self.small_add_assign(0);
+        self.small_add_assign(0);
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e382_105.rs b/src/field/mod_e382_105.rs
index 456ba52..50d271d 100644
--- a/src/field/mod_e382_105.rs
+++ b/src/field/mod_e382_105.rs
@@ -1146,6 +1146,11 @@ impl Pack for Mod_e382_105 {
 
 impl Normalize for Mod_e382_105 {
     fn normalize(&mut self) {
+        // Fold the carry slot into the low digits.  The first fold can
+        // leave a carry of -1 or 1 behind; the second one cannot.
+        self.small_add_assign(0);
+        self.small_add_assign(0);
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e383_187.rs b/src/field/mod_e383_187.rs
index e5dcfc6..777fffe 100644
--- a/src/field/mod_e383_187.rs
+++ b/src/field/mod_e383_187.rs
@@ -1229,6 +1229,11 @@ impl Pack for Mod_e383_187 {
 
 impl Normalize for Mod_e383_187 {
     fn normalize(&mut self) {
+        // Fold the carry slot into the low digits.  The first fold can
+        // leave a carry of -1 or 1 behind; the second one cannot.
+        self.small_add_assign(0);
+        self.small_add_assign(0);
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e414_17.rs b/src/field/mod_e414_17.rs
index 7471d7a..34c3a18 100644
--- a/src/field/mod_e414_17.rs
+++ b/src/field/mod_e414_17.rs
@@ -1211,6 +1211,11 @@ impl Pack for Mod_e414_17 {
 
 impl Normalize for Mod_e414_17 {
     fn normalize(&mut self) {
+        // Fold the carry slot into the low digits.  The first fold can
+        // leave a carry of -1 or 1 behind; the second one cannot.
+        self.small_add_assign(0);
+        self.small_add_assign(0);
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e511_187.rs b/src/field/mod_e511_187.rs
index 1cf3c14..00f6cb3 100644
--- a/src/field/mod_e511_187.rs
+++ b/src/field/mod_e511_187.rs
@@ -1543,6 +1543,11 @@ impl Pack for Mod_e511_187 {
 
 impl Normalize for Mod_e511_187 {
     fn normalize(&mut self) {
+        // Fold the carry slot into the low digits.  The first fold can
+        // leave a carry of -1 or 1 behind; the second one cannot.
+        self.small_add_assign(0);
+        self.small_add_assign(0);
+
         let plusc = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusc.carry_out() as i32);
         *self -= &offset;
diff --git a/src/field/mod_e521_1.rs b/src/field/mod_e521_1.rs
index 1670c92..4797f12 100644
--- a/src/field/mod_e521_1.rs
+++ b/src/field/mod_e521_1.rs
@@ -1573,6 +1573,11 @@ impl Pack for Mod_e521_1 {
 
 impl Normalize for Mod_e521_1 {
     fn normalize(&mut self) {
+        // Fold the carry slot into the low digits.  The first fold can
+        // leave a carry of -1 or 1 behind; the second one cannot.
+        self.small_add_assign(0);
+        self.small_add_assign(0);
+
         let plusone = &*self + (C_VAL as i32);
         let offset = &MODULUS * (plusone.carry_out() as i32);
         *self -= &offset;
-- 
2.43.0


From 174e793dc9f0a488631f208e31082d2aed84de7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:02 +0000
Subject: [PATCH 07/11] fix: keep the sign of the highest reduced digit in
 Mod_e222_117 products

---
 src/field/mod_e222_117.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/field/mod_e222_117.rs b/src/field/mod_e222_117.rs
index 4405aae..ed72570 100644
--- a/src/field/mod_e222_117.rs
+++ b/src/field/mod_e222_117.rs
@@ -629,7 +629,7 @@ impl<'b> MulAssign<&'b Mod_e222_117> for Mod_e222_117 {
                     ((hc5_0 & 0x1fffffff) << 29) + hmk1_0;
         let hmk2_0 = hm2_0 >> 58;
         let hm3_0 = (hc5_0 >> 29) + hc6_0 +
-                    ((hc7_0 & 0x1fffffff) << 29) + hmk2_0;
+                    (hc7_0 << 29) + hmk2_0;
 
         // Add h and l.
         let kin_0 = hm3_0 >> 48;
@@ -1169,7 +1169,7 @@ impl PrimeField for Mod_e222_117 {
                     ((hc5_0 & 0x1fffffff) << 29) + hmk1_0;
         let hmk2_0 = hm2_0 >> 58;
         let hm3_0 = (hc5_0 >> 29) + hc6_0 +
-                    ((hc7_0 & 0x1fffffff) << 29) + hmk2_0;
+                    (hc7_0 << 29) + hmk2_0;
 
         // Add h and l.
         let kin_0 = hm3_0 >> 48;
-- 
2.43.0


From db49f0d732a2c99fb898d64828b066071bdc406d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:05 +0000
Subject: [PATCH 08/11] fix: keep the sign of the highest reduced digit in
 Mod_e251_9 products

---
 src/field/mod_e251_9.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/field/mod_e251_9.rs b/src/field/mod_e251_9.rs
index 40a62e7..5043859 100644
--- a/src/field/mod_e251_9.rs
+++ b/src/field/mod_e251_9.rs
@@ -657,7 +657,7 @@ impl<'b> MulAssign<&'b Mod_e251_9> for Mod_e251_9 {
                    ((d7 & 0x0000000007ffffff) << 29);
         let h3_0 = ((d7 & 0x00ffffffffffffff) >> 27) |
                    ((d8 & 0x0000000007ffffff) << 29);
-        let h4_0 = (d8 & 0x00ffffffffffffff) >> 27;
+        let h4_0 = d8 >> 27;
 
         // Multiply by C
         let hc0_0 = h0_0 * C_VAL;
-- 
2.43.0


From b2df0fb837cfecb249f48efbbcffae455f190c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:33 +0000
Subject: [PATCH 09/11] fix: set the extended coordinate t to x * y in
 EdwardsExtended::zero and init

---
 src/curve/edwards.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/curve/edwards.rs b/src/curve/edwards.rs
index 807c856..f3f67c4 100644
--- a/src/curve/edwards.rs
+++ b/src/curve/edwards.rs
@@ -92,7 +92,7 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
             x: C::Scalar::zero(),
             y: C::Scalar::one(),
             z: C::Scalar::one(),
-            t: C::Scalar::one()
+            t: C::Scalar::zero()
         }
     }
 
@@ -100,7 +100,7 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
         self.x = x;
         self.y = y;
         self.z = C::Scalar::one();
-        self.t = C::Scalar::one();
+        self.t = x * y;
     }
 
     fn scalar_mult(&mut self, rhs: &mut Self::Scalar) {
-- 
2.43.0


From 5e89d322e0746fb8829b61f870a7eed8f490452f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:35 +0000
Subject: [PATCH 10/11] fix: use aa + xb for g in the Edwards tripling formula

---
 src/curve/edwards.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/curve/edwards.rs b/src/curve/edwards.rs
index f3f67c4..23769c7 100644
--- a/src/curve/edwards.rs
+++ b/src/curve/edwards.rs
@@ -193,7 +193,7 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
         let yb = yy * b;
         let aa = ap * (yy - xx);
         let f = aa - yb;
-        let g = aa - xb;
+        let g = aa + xb;
         let xe = self.x * (yb + aa);
         let yh = self.y * (xb - aa);
         let zf = self.z * f;
-- 
2.43.0


From 13e7af01a31b5b7c8d09edc52491f3001e6eeb68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:38 +0000
Subject: [PATCH 11/11] fix: double the register selected by the scalar bit in
 scalar_mult_normalized

---
 src/curve/edwards.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/curve/edwards.rs b/src/curve/edwards.rs
index 23769c7..eb5a53e 100644
--- a/src/curve/edwards.rs
+++ b/src/curve/edwards.rs
@@ -118,7 +118,9 @@ impl<C: EdwardsCurve> Point for EdwardsExtended<C> {
 
         for i in 0..nbits {
             let idx = nbits - 1 - i;
-            let bit = rhs.bit_normalized(idx);
+            // Set if the digit is 0, in which case r0 gets doubled;
+            // otherwise, r1 does.
+            let bit = !rhs.bit_normalized(idx);
             // Note that we fill everything with 0s or 1s.  This
             // allows us to skip normalization.
             let tmask = C::Scalar::filled(bit);
-- 
2.43.0

