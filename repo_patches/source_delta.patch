From 33129c1f445e1684264fd61feccb30b4d3ac461b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:16 +0000
Subject: [PATCH 01/33] fix: Prandtl number of (p,T) regions used 1/T as the
 density

---
 src/common/propertry_pairs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/propertry_pairs.rs b/src/common/propertry_pairs.rs
index 90bad88..af7d846 100644
--- a/src/common/propertry_pairs.rs
+++ b/src/common/propertry_pairs.rs
@@ -95,7 +95,7 @@ pub fn pair_transport_reg(v1: f64, v2: f64, o_id: i32, pair: PAIRS, fn_thermal:
                 prandtl_number(dv, cp, tc)
             }
             _ => {
-                let d = 1.0 / v2;
+                let d = fn_thermal(v1, v2, OD);
                 let dv: f64 = viscosity(d, v2);
                 let cp: f64 = fn_thermal(v1, v2, OCP);
                 let tc: f64 = thcond(d, v2);
-- 
2.43.0


From a51275ed51eba90949c1717c1765a9feb3cc9c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:16 +0000
Subject: [PATCH 02/33] fix: kinematic viscosity in region 3 multiplied by the
 density

---
 src/common/propertry_pairs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/propertry_pairs.rs b/src/common/propertry_pairs.rs
index af7d846..3919268 100644
--- a/src/common/propertry_pairs.rs
+++ b/src/common/propertry_pairs.rs
@@ -51,7 +51,7 @@ pub fn pair_transport_reg(v1: f64, v2: f64, o_id: i32, pair: PAIRS, fn_thermal:
         },
         OKV => match pair {
             // d,T
-            PAIRS::Td => v2 * viscosity(v2, v1),
+            PAIRS::Td => viscosity(v2, v1) / v2,
             _ => {
                 let d = fn_thermal(v1, v2, OD);
                 viscosity(d, v2) / d
-- 
2.43.0


From c4fc337e4eda87f6b42740aad57c573740167496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:16 +0000
Subject: [PATCH 03/33] fix: pt of the cdecl library was exported as stdcall

---
 src/cdecl_c_if97.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdecl_c_if97.rs b/src/cdecl_c_if97.rs
index 7911aac..f949f78 100644
--- a/src/cdecl_c_if97.rs
+++ b/src/cdecl_c_if97.rs
@@ -10,7 +10,7 @@ use crate::r5::*;
 
 /// double pt(double p,double t,short o_id)- the propertry of `o_id` (thermodynamic,transport,etc)  
 #[no_mangle]
-pub unsafe extern "stdcall" fn pt(p: f64, t: f64, o_id: i32) -> f64 {
+pub unsafe extern "C" fn pt(p: f64, t: f64, o_id: i32) -> f64 {
     let T: f64 = t + 273.15;
     let reg: i32 = REGION_NONE;
     match o_id {
-- 
2.43.0


From cd46606e851dc80d3330e81ed1ef12ba55d2d433 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:16 +0000
Subject: [PATCH 04/33] fix: isochoric heat capacity of region 5

---
 src/r5/region5_pT.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r5/region5_pT.rs b/src/r5/region5_pT.rs
index 5239a98..68d6544 100644
--- a/src/r5/region5_pT.rs
+++ b/src/r5/region5_pT.rs
@@ -54,7 +54,7 @@ pub fn pT2cv_reg5(p: f64, T: f64) -> f64 {
     let a: f64 = -tau * tau * (gamma0_tautau_reg5(tau) + gammar_tautau);
     let b: f64 = 1.0 + pi * gammar_pi - tau * pi * gammar_pitau;
     let c: f64 = 1.0 - pi * pi * gammar_pipi;
-    RGAS_WATER * (a - b * b) / c
+    RGAS_WATER * (a - b * b / c)
 }
 
 pub fn pT2w_reg5(p: f64, T: f64) -> f64 {
-- 
2.43.0


From 6d7c66d76585959f13bad14d8674fb201aa4426a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:16 +0000
Subject: [PATCH 05/33] fix: specific exergy in region 3

---
 src/r3/region3_Td_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r3/region3_Td_ext.rs b/src/r3/region3_Td_ext.rs
index f517f89..69b4178 100644
--- a/src/r3/region3_Td_ext.rs
+++ b/src/r3/region3_Td_ext.rs
@@ -126,7 +126,7 @@ pub fn Td2e_reg3(T: f64, d: f64) -> f64 {
     let phi = phi_reg3(delta, tau);
     let phidelta = phi_delta_reg3(delta, tau);
     let phitau = phi_tau_reg3(delta, tau);
-    RGAS_WATER * (T * (phi + delta * phidelta) + (T - Tt) * tau * (phitau - phi))
+    RGAS_WATER * (T * (phi + delta * phidelta) + (T - Tt) * (tau * phitau - phi))
 }
 
 /// z: Compressibility factor  
-- 
2.43.0


From 24f5dba14fceb8dab24bdd9b09a7ffd7fbcf209d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:16 +0000
Subject: [PATCH 06/33] =?UTF-8?q?fix:=20isothermal=20throttling=20coeffici?=
 =?UTF-8?q?ent=20was=201/1000=20of=20kJ/(kg=C2=B7MPa)?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/r1/region1_pT_ext.rs | 2 +-
 src/r2/region2_pT_ext.rs | 2 +-
 src/r3/region3_Td_ext.rs | 2 +-
 src/r5/region5_pT_ext.rs | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/r1/region1_pT_ext.rs b/src/r1/region1_pT_ext.rs
index 63c11ce..ee58d5d 100644
--- a/src/r1/region1_pT_ext.rs
+++ b/src/r1/region1_pT_ext.rs
@@ -113,7 +113,7 @@ pub fn pT2joule_reg1(p: f64, T: f64) -> f64 {
 pub fn pT2iJTC_reg1(p: f64, T: f64) -> f64 {
     let tau: f64 = r1Tstar / T;
     let pi: f64 = p / r1pstar;
-    0.001 * RGAS_WATER * r1Tstar * gamma_pitau_reg1(pi, tau) / r1pstar
+    RGAS_WATER * r1Tstar * gamma_pitau_reg1(pi, tau) / r1pstar
 }
 
 /// dvdp Partial derivative (dV/dP)T  m3/(kg·MPa)
diff --git a/src/r2/region2_pT_ext.rs b/src/r2/region2_pT_ext.rs
index 9a45949..3b4ff74 100644
--- a/src/r2/region2_pT_ext.rs
+++ b/src/r2/region2_pT_ext.rs
@@ -110,7 +110,7 @@ pub fn pT2iJTC_reg2(p: f64, T: f64) -> f64 {
     let tau: f64 = r2Tstar / T;
     let pi: f64 = p;
     let gummapitau = gamma0_pitau_reg2() + gammar_pitau_reg2(pi, tau);
-    0.001 * RGAS_WATER * r2Tstar * gummapitau
+    RGAS_WATER * r2Tstar * gummapitau
 }
 
 /// (dp/dt)v MPa/K
diff --git a/src/r3/region3_Td_ext.rs b/src/r3/region3_Td_ext.rs
index 69b4178..6f50c04 100644
--- a/src/r3/region3_Td_ext.rs
+++ b/src/r3/region3_Td_ext.rs
@@ -102,7 +102,7 @@ pub fn Td2joule_reg3(T: f64, d: f64) -> f64 {
 ///  iJTC Isothermal Joule-Thomson coefficient kJ/(kg·MPa)
 /// *  (dh/dp)t
 pub fn Td2iJTC_reg3(T: f64, d: f64) -> f64 {
-    -Td2cp_reg3(T, d) * Td2joule_reg3(T, d) / 1000.0
+    -Td2cp_reg3(T, d) * Td2joule_reg3(T, d)
 }
 
 ///  (dp/dT)v
diff --git a/src/r5/region5_pT_ext.rs b/src/r5/region5_pT_ext.rs
index 14574fa..a36e389 100644
--- a/src/r5/region5_pT_ext.rs
+++ b/src/r5/region5_pT_ext.rs
@@ -102,7 +102,7 @@ pub fn pT2iJTC_reg5(p: f64, T: f64) -> f64 {
     let tau: f64 = r5Tstar / T;
     let pi: f64 = p / r5Pstar;
     let gummapitau = gamma0_pitau_reg5() + gammar_pitau_reg5(pi, tau);
-    0.001 * RGAS_WATER * r5Tstar * gummapitau
+    RGAS_WATER * r5Tstar * gummapitau
 }
 
 /// (dp/dt)v MPa/K
-- 
2.43.0


From a75528c733cb76781904db1c6377ad5289b8289b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:02 +0000
Subject: [PATCH 07/33] fix: density of wet steam is the reciprocal of its
 volume

---
 src/r4/region4_pTx.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/r4/region4_pTx.rs b/src/r4/region4_pTx.rs
index 394e318..0f099b8 100644
--- a/src/r4/region4_pTx.rs
+++ b/src/r4/region4_pTx.rs
@@ -177,7 +177,8 @@ pub fn px_reg4(p: f64, x: f64, o_id: i32) -> f64 {
     let T: f64 = T_saturation(p);
     match o_id {
         OT => return T-273.15,
-        OH | OS | OV | OD | OU | OF | OG | OE => {
+        OD => return 1.0 / px_reg4(p, x, OV),
+        OH | OS | OV | OU | OF | OG | OE => {
             // region 4 x(0,1) return  v,h,s only
             let mut rl: f64 = 0.0;
             let mut rv: f64 = 0.0;
@@ -210,7 +211,8 @@ pub fn Tx_reg4(T: f64, x: f64, o_id: i32) -> f64 {
     }
     let mut r: f64 = 0.0;
     match o_id {
-        OH | OS | OV | OD | OU | OF | OG | OE => {
+        OD => return 1.0 / Tx_reg4(T, x, OV),
+        OH | OS | OV | OU | OF | OG | OE => {
             // region 4 x(0,1) return  v,h,s only
             let mut rl: f64 = 0.0;
             let mut rv: f64 = 0.0;
-- 
2.43.0


From 950cbd5217225a6031d2e309916b3176548e180e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:02 +0000
Subject: [PATCH 08/33] fix: subregions 3c and 3k were lost for psat(643.15 K)
 < p <= 22.5 MPa

---
 src/r3/region3_v_pT.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/r3/region3_v_pT.rs b/src/r3/region3_v_pT.rs
index c952942..bd56188 100644
--- a/src/r3/region3_v_pT.rs
+++ b/src/r3/region3_v_pT.rs
@@ -285,6 +285,7 @@ pub fn sub_region3_pT(p: f64, T: f64) -> char {
 
             if T <= tBcd {
                 subRegion = 'c';
+                return subRegion;
             } else if T <= tBqu {
                 subRegion = 'q';
                 return subRegion;
@@ -297,6 +298,7 @@ pub fn sub_region3_pT(p: f64, T: f64) -> char {
 
             if T > tBjk {
                 subRegion = 'k';
+                return subRegion;
             }
 
             // tBqu < T <= tBrx
-- 
2.43.0


From 909d68030851d544598c78d503c592614c238b08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:02 +0000
Subject: [PATCH 09/33] fix: (p,T) at the minimum pressure had no region

---
 src/common/region.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 3ca9e72..4485603 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -60,7 +60,7 @@ pub fn pT_sub_region(p: f64, T: f64) -> i32 {
         if p >= p_saturation(T) && p <= 100.0 {
             return 1;
         }
-        if p < p_saturation(T) && p > P_MIN {
+        if p < p_saturation(T) && p >= P_MIN {
             return 2;
         }
     };
-- 
2.43.0


From 338dbdf88539e0eb0c2a29aed668142f24f7ac9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:02 +0000
Subject: [PATCH 10/33] fix: s limit of the 2-3 boundary equation in (h,s)

---
 src/common/region.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 4485603..beffc8f 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -314,7 +314,7 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
         }
     };
 
-    if SC_WATER < s && s < 5.049096828 {
+    if SC_WATER < s && s < 5.048096828 {
         hmin = h4l + (s - s4l) / (s4v - s4l) * (h4v - h4l);
         hs = hs_region_h2c3b_s(s);
         v = ps2v_reg3(100.0, s) * (1.0 + 9.6e-5);
@@ -328,7 +328,7 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
         }
     };
 
-    if 5.049096828 <= s && s < 5.260578707 {
+    if 5.048096828 <= s && s < 5.260578707 {
         // Specific zone with 2-3 boundary in s shape
         hmin = h4l + (s - s4l) / (s4v - s4l) * (h4v - h4l);
         hs = hs_region_h2c3b_s(s);
-- 
2.43.0


From 17912703b3eb5b395d1e1a759af852fb0e83d90c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:02 +0000
Subject: [PATCH 11/33] fix: region 2 above 863.15 K was missing from (t,v),
 (t,h) and (t,s)

---
 src/common/region.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/common/region.rs b/src/common/region.rs
index beffc8f..5b6e87e 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -536,6 +536,7 @@ pub fn tv_sub_region(t: f64, v: f64) -> i32 {
     };
     if ((T >= T_MIN2) && (T <= T_MAX1) && (v > vss) && (v < vpmax2))
         || ((T > T_MAX1) && (T <= T_MAX3) && (v >= vB23) && (v < vpmax2))
+        || ((T > T_MAX3) && (T <= T_MAX2) && (v >= vp100) && (v < vpmax2))
     {
         return 2;
     };
@@ -579,6 +580,8 @@ pub fn th_sub_region(t: f64, h: f64) -> i32 {
         hp100 = pT2h_reg1(100.0, T);
     } else if (T > T_MIN3) && (T <= T_MAX3) {
         hp100 = pt_reg3(100.0, T - 273.15, OH);
+    } else if (T > T_MAX3) && (T <= T_MAX2) {
+        hp100 = pT2h_reg2(100.0, T);
     }
 
     let mut hsw: f64 = 0.0;
@@ -637,6 +640,9 @@ pub fn th_sub_region(t: f64, h: f64) -> i32 {
     if (T > T_MAX1) && (T <= T_MAX3) && (h >= hB23) && (h < hpmax2) {
         return 2;
     };
+    if (T > T_MAX3) && (T <= T_MAX2) && (h >= hp100) && (h < hpmax2) {
+        return 2;
+    };
     if (T > T_MIN3) && (T <= TC_WATER) && (((h > hss) && (h < hB23)) || ((h >= hp100) && (h < hsw)))
         || ((T > TC_WATER) && (T <= T_MAX3) && (h >= hp100) && (h < hB23))
     {
@@ -715,6 +721,7 @@ pub fn ts_sub_region(t: f64, s: f64) -> i32 {
     };
     if ((T >= T_MIN2) && (T <= T_MAX1) && (s > sss) && (s < spmax2))
         || ((T > T_MAX1) && (T <= T_MAX3) && (s >= sB23) && (s < spmax2))
+        || ((T > T_MAX3) && (T <= T_MAX2) && (s >= sp100) && (s < spmax2))
     {
         return 2;
     };
-- 
2.43.0


From 3a4c31af3bec3a68c4bbc2e4fe50b42bb8d93e2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:02 +0000
Subject: [PATCH 12/33] fix: (t,h) of hot water: search the enthalpy minimum
 from the saturation pressure up

---
 src/common/region.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 5b6e87e..d124152 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -589,6 +589,7 @@ pub fn th_sub_region(t: f64, h: f64) -> i32 {
     let mut p1: f64 = 0.0;
     let mut hB23: f64 = 0.0;
     if (T >= T_MIN1) && (T <= T_MAX1) {
+        p1 = p_saturation(T);
         hsw = T2sat_water(T, OH);
         hss = T2sat_steam(T, OH);
     } else if (T > T_MIN3) && (T <= T_MAX3) {
@@ -615,7 +616,7 @@ pub fn th_sub_region(t: f64, h: f64) -> i32 {
         if Hmid < Hmin {
             let mut HminFounded: bool = false;
 
-            while !HminFounded {
+            while !HminFounded && p11 < P_MAX1 {
                 p11 += 0.1;
                 Hmid = pT2h_reg1(p11, T);
                 if Hmid < Hmin {
-- 
2.43.0


From 5ac8de9fe8753212b72f529c8d2188f52a3ac0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:02 +0000
Subject: [PATCH 13/33] fix: pt returned 4.0 for every property on the
 saturation line

---
 src/r4/region4.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r4/region4.rs b/src/r4/region4.rs
index 9fff503..fc7a8cc 100644
--- a/src/r4/region4.rs
+++ b/src/r4/region4.rs
@@ -21,7 +21,7 @@ pub fn pT_reg4(p: f64, T: f64, o_id: i32) -> f64 {
     if T == TC_WATER && p == PC_WATER {
         return Td_reg3(TC_WATER, DC_WATER, o_id);
     } else {
-        return 4.0 as f64;
+        return INVALID_PT as f64; // p and T alone do not fix a state of region 4
     }
 }
 
-- 
2.43.0


From 656c98fb07a3a88fbc477fc9ca329a566f479b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:02 +0000
Subject: [PATCH 14/33] fix: density was missing from the (T,d) properties of
 region 3

---
 src/r3/region3.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/r3/region3.rs b/src/r3/region3.rs
index 5f861bf..8fda807 100644
--- a/src/r3/region3.rs
+++ b/src/r3/region3.rs
@@ -22,6 +22,7 @@ pub fn Td_reg3(T: f64, d: f64, o_id: i32) -> f64 {
 pub fn Td_thermal_reg3(T: f64, d: f64, o_id: i32) -> f64 {
     match o_id {
         OV => 1.0 / d,
+        OD => d,
         OP => Td2p_reg3(T, d),
         OH => Td2h_reg3(T, d),
         OS => Td2s_reg3(T, d),
-- 
2.43.0


From 990ef8867e6f0328c10da68591b23f2f87ba07d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:10 +0000
Subject: [PATCH 15/33] fix: wet steam from (h,s) outside Tsat(h,s): error code
 used as pressure bound, unbounded iteration

---
 src/r4/region4_T_hs.rs | 20 ++++++++------------
 1 file changed, 8 insertions(+), 12 deletions(-)

diff --git a/src/r4/region4_T_hs.rs b/src/r4/region4_T_hs.rs
index 3bd9c87..e5aa68a 100644
--- a/src/r4/region4_T_hs.rs
+++ b/src/r4/region4_T_hs.rs
@@ -81,7 +81,8 @@ pub fn hs2T_reg4(h: f64, s: f64) -> f64 {
     let mut PL: f64 = 0.0;
     let mut Tsat: f64 = 0.0;
 
-    if s > s4L_273 && s <= s4L_623 {
+    // the saturated water of h: below 623.15 K in region 1, else in region 3
+    if s > s4L_273 && s <= s4V_623 && h < pT2h_reg1(Ps_623, 623.15) {
         p_Low_Bound = P_MIN;
         p_High_Bound = Ps_623;
 
@@ -96,15 +97,9 @@ pub fn hs2T_reg4(h: f64, s: f64) -> f64 {
                 p_Low_Bound = PL;
             }
         }
-    };
-
-    if s > s4L_623 && s <= SC_WATER {
-        PL = h2p_sat_reg3(h); // liquid , boundaries
         p_Low_Bound = P_MIN;
-        p_High_Bound = PL;
-    }
-    if s > SC_WATER && s <= s4V_623 {
-        PL = h2p_sat_reg3(h); // steam,boundaries
+    } else if s > s4L_273 && s <= s4V_623 {
+        PL = h2p_sat_reg3(h); // liquid or steam, boundaries
         p_Low_Bound = P_MIN;
         p_High_Bound = PL;
     }
@@ -117,7 +112,10 @@ pub fn hs2T_reg4(h: f64, s: f64) -> f64 {
     let mut v4v: f64;
     let mut v4L: f64;
 
-    while (s - sss).abs() > 1.0e-6 {
+    // s falls when p rises at constant h: bisection between the bounds
+    let mut steps: i32 = 0;
+    while (s - sss).abs() > 1.0e-6 && steps < 100 {
+        steps += 1;
         p = 0.5 * (p_Low_Bound + p_High_Bound);
 
         Tsat = T_saturation(p);
@@ -137,10 +135,8 @@ pub fn hs2T_reg4(h: f64, s: f64) -> f64 {
 
         if sss < s {
             p_High_Bound = p;
-            p_Low_Bound = (1.0 + (sss - s) / s) * p;
         } else {
             p_Low_Bound = p;
-            p_High_Bound = (1.0 + (sss - s) / s) * p;
         }
     } // end of while  ( abs(s - sss).abd() > 1.0e-6)
 
-- 
2.43.0


From 00a1f54f36afefdc517c55d2c8e0b449be0ba512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:10 +0000
Subject: [PATCH 16/33] fix: (p,v) of region 1 returned an error code that its
 caller used as temperature

---
 src/r1/region1_pair_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r1/region1_pair_ext.rs b/src/r1/region1_pair_ext.rs
index 8eca994..1f742f3 100644
--- a/src/r1/region1_pair_ext.rs
+++ b/src/r1/region1_pair_ext.rs
@@ -96,7 +96,7 @@ pub fn pv2T_reg1(p: f64, v: f64) -> f64 {
             };
         }
     };
-    INVALID_VALUE as f64
+    T
 }
 
 /// Region 1  (T,v)->p using the secant method
-- 
2.43.0


From 339fdcd842bf63e7fb772d48b3d7967c0affe044 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:10 +0000
Subject: [PATCH 17/33] fix: README: C type of o_id and the name OALFAP

---
 README.md | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/README.md b/README.md
index 5b196a6..fe63fa7 100644
--- a/README.md
+++ b/README.md
@@ -117,21 +117,21 @@ The convenient compiled dynamic link libraries are provided in the [./dynamic_li
 **The functions in C**
 
 ```c
-double pt(double p,double t,short o_id);
-double ph(double p,double h,short o_id);
-double ps(double p,double s,short o_id);
-double pv(double p,double v,short o_id);
+double pt(double p,double t,int o_id);
+double ph(double p,double h,int o_id);
+double ps(double p,double s,int o_id);
+double pv(double p,double v,int o_id);
 
-double tv(double t,double v,short o_id);
-double th(double t,double h,short o_id);
-double ts(double t,double s,short o_id);
+double tv(double t,double v,int o_id);
+double th(double t,double h,int o_id);
+double ts(double t,double s,int o_id);
 
-double hs(double h,double s,short o_id);
+double hs(double h,double s,int o_id);
 
-double px(double p,double x,short o_id);
-double tx(double t,double x,short o_id);
-double hx(double h,double x,short o_id);
-double sx(double s,double x,short o_id);
+double px(double p,double x,int o_id);
+double tx(double t,double x,int o_id);
+double hx(double h,double x,int o_id);
+double sx(double s,double x,int o_id);
 ```
 
 **Example**
@@ -146,7 +146,7 @@ double sx(double s,double x,short o_id);
 #define OH 4
 #define OS 5
 
-extern double pt(double p,double t,short o_id);
+extern double pt(double p,double t,int o_id);
 
 int main(void)
 {
@@ -237,7 +237,7 @@ print(f"p={p}, t={t} h={h:.3f} s={s:.3f}")
 | Isothermal stress coefficient         |   kg/m³     |    βp  | OBETAP|       32 |
 | Fugacity coefficient                  |             |    fi  |   OFI |       33 |
 | Fugacity                              |     MPa     |     f* |   OFU |       34 |
-| Relative pressure coefficient         |     1/K     |    αp  | OAFLAP|        35|
+| Relative pressure coefficient         |     1/K     |    αp  | OALFAP|        35|
 
 ## Cite as
 
-- 
2.43.0


From 89ef3b76b07a4109a34d3629fad3313c771d9a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:33 +0000
Subject: [PATCH 18/33] fix: last coefficient of subregion 3l was left out of
 the sum

---
 src/r3/region3_v_subregion_pT.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r3/region3_v_subregion_pT.rs b/src/r3/region3_v_subregion_pT.rs
index bc7117f..f0be9fc 100644
--- a/src/r3/region3_v_subregion_pT.rs
+++ b/src/r3/region3_v_subregion_pT.rs
@@ -561,7 +561,7 @@ pub fn pT2v_3l(p: f64, T: f64) -> f64 {
     #[rustfmt::skip]
     let d:para = para {PS: 24.0,  TS: 650.0,   VS: 0.0026,
                         a: 0.908,  b: 0.989,    c: 1.0,    d: 1.0,  e: 4.0, };
-    let steps: [(usize, usize); 3] = [(0, 17), (17, 30), (30, 42)];
+    let steps: [(usize, usize); 3] = [(0, 17), (17, 30), (30, 43)];
     pT2v_sum_steps(p, T, &IJn, d, &steps)
 }
 
-- 
2.43.0


From 6e8377a70d3fc165ac7793a30d2b22676e3bdd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:11:31 +0000
Subject: [PATCH 19/33] fix: a region that does not exist was returned as the
 value of the property

---
 src/common/propertry_pairs.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/propertry_pairs.rs b/src/common/propertry_pairs.rs
index 3919268..7b26c3e 100644
--- a/src/common/propertry_pairs.rs
+++ b/src/common/propertry_pairs.rs
@@ -132,6 +132,8 @@ pub fn pair_properties(
         3 => f3(v1, v2, o_id),
         4 => f4(v1, v2, o_id),
         5 => f5(v1, v2, o_id),
-        _ => sub_region as f64,
+        // the error code of the region check; a named region that does not exist has no properties
+        _ if reg == REGION_NONE => sub_region as f64,
+        _ => INVALID_VALUE as f64,
     }
 }
-- 
2.43.0


From fa08255dcdc4d11c5171f823edd96bf78a8d8cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:43 +0000
Subject: [PATCH 20/33] fix: (t,h) of hot water between the enthalpy at 100 MPa
 and at saturation was refused

---
 src/common/region.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index d124152..95c1d76 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -609,7 +609,7 @@ pub fn th_sub_region(t: f64, h: f64) -> i32 {
         return 1;
     }
     //  if p>Ps, p^, h--, Hmin,p^,h++, h<hsat_water(T)
-    if (T >= (250.0 + 273.15)) && (T <= T_MAX1) && (h < hsw) && (h <= hp100) {
+    if (T >= (250.0 + 273.15)) && (T <= T_MAX1) && (h < hsw) {
         let mut Hmin: f64 = hsw;
         let mut p11: f64 = p1 + 0.1;
         let mut Hmid: f64 = pT2h_reg1(p11, T);
-- 
2.43.0


From 126b13c714ec735fbdf270fcfa23610a0e84e39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:14 +0000
Subject: [PATCH 21/33] fix: (h,s) at the ends of the 1-3 boundary: the limits
 of the boundary equations are the published ones

---
 src/common/region.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 95c1d76..ca6b62d 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -236,8 +236,9 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
     let mut p: f64 = 0.0;
     let mut v: f64 = 0.0;
     let mut hs: f64 = 0.0;
-    let s13: f64 = pT2s_reg1(100.0, 623.15);
-    let s13s: f64 = pT2s_reg1(Ps_623, 623.15);
+    // the limits of the boundary equations, as published
+    let s13: f64 = 3.397782955;
+    let s13s: f64 = 3.77828134;
     let sTPmax: f64 = pT2s_reg2(100.0, 1073.15);
     let s2ab: f64 = pT2s_reg2(4.0, 1073.15); // TODO： p=4 2ab s2ab
 
-- 
2.43.0


From 3d1c9f919fe3f926df5eb85258d6c2313cd5a1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:34 +0000
Subject: [PATCH 22/33] fix: (h,s) left of saturated water at 273.15 K: every
 enthalpy was taken for region 1

---
 src/common/region.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index ca6b62d..7a6b986 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -8,6 +8,7 @@ use crate::common::propertry_id::*;
 
 use crate::r1::region1_T_phps::*;
 use crate::r1::region1_pT::*;
+use crate::r1::region1_p_hs::*;
 
 use crate::r2::region2_T_ps::*;
 use crate::r2::region2_pT::*;
@@ -272,9 +273,17 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
     };
     if smin <= s && s <= s13 {
         hmin = h4l + (s - s4l) / (s4v - s4l) * (h4v - h4l);
-        hs = hs_region_h1_s(s);
         T = ps2T_reg1(100.0, s) - 0.0218;
         hmax = pT2h_reg1(100.0, T);
+        if s < -1.545495919e-4 {
+            // left of saturated water at 273.15 K: compressed water down to 273.15 K
+            p = hs2p_reg1(h, s);
+            if p >= P_MIN && h <= hmax && ph2T_reg1(p, h) >= 273.15 - 0.025 {
+                return 1;
+            }
+            return INVALID_VALUE;
+        }
+        hs = hs_region_h1_s(s);
         if hmin <= h && h < hs {
             return 4;
         }
-- 
2.43.0


From d62713f83455844f26dee7b2a8a36ddd7385bd32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:34 +0000
Subject: [PATCH 23/33] fix: (h,s) beyond region 5 was taken for region 2 at a
 pressure extrapolated beyond 100 MPa

---
 src/common/region.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 7a6b986..e5a3e24 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -403,7 +403,7 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
         if hmin <= h && h < hs {
             return 4;
         }
-        if hs <= h && h <= hmax {
+        if hs <= h && p <= 100.0 && h <= hmax {
             return 2;
         }
     };
@@ -416,7 +416,7 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
         if hmin <= h && h < hs {
             return 4;
         }
-        if hs <= h && h <= hmax {
+        if hs <= h && p <= 100.0 && h <= hmax {
             return 2;
         }
     }
-- 
2.43.0


From 7a3dc8f2dad9efb2fdc8a2a92ace5e9e3741448f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:34 +0000
Subject: [PATCH 24/33] fix: (h,s) above 100 MPa next to the 2-3 boundary was
 taken for region 3

---
 src/common/region.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index e5a3e24..9c14f49 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -17,6 +17,7 @@ use crate::r2::region2_p_hs::*;
 use crate::r3::region3::*;
 use crate::r3::region3_Td::*;
 use crate::r3::region3_Tv_phps::*;
+use crate::r3::region3_p_hs::*;
 use crate::r3::region3_v_pT::*;
 
 use crate::r4::region4_pTx::*;
@@ -359,8 +360,10 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
             //hs2p_reg2c r2::region2_p_hs
             {
                 return 2;
-            } else {
+            } else if hs2p_reg3(h, s) <= 100.0 {
                 return 3;
+            } else {
+                return INVALID_VALUE;
             }
         }
 
-- 
2.43.0


From 3029fb62eadb19d574dd56ea67253af8df7030d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:35 +0000
Subject: [PATCH 25/33] fix: (p,v) at the minimum pressure: wet steam was taken
 for region 2, region 5 was refused

---
 src/common/region.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 9c14f49..37b19d5 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -455,7 +455,7 @@ pub fn pv_sub_region(p: f64, v: f64) -> i32 {
     let mut vt623: f64 = 0.0;
     let mut vB23: f64 = 0.0;
 
-    if (p > 0.000611213) && (p <= P_MIN3) {
+    if (p >= P_MIN) && (p <= P_MIN3) {
         T1 = T_saturation(p);
         vsw = pT2v_reg1(p, T1);
         vss = pT2v_reg2(p, T1);
@@ -484,10 +484,10 @@ pub fn pv_sub_region(p: f64, v: f64) -> i32 {
     {
         return 3;
     };
-    if (p > P_MIN) && (p <= PC_WATER) && (v >= vsw) && (v <= vss) {
+    if (p >= P_MIN) && (p <= PC_WATER) && (v >= vsw) && (v <= vss) {
         return 4; // x is obtained in r4::region4_pair_ext::pv2x_reg4
     };
-    if (p > P_MIN5) && (p <= P_MAX5) && (v > vt1073) && (v <= vt2273) {
+    if (p >= P_MIN5) && (p <= P_MAX5) && (v > vt1073) && (v <= vt2273) {
         return 5;
     };
     INVALID_VALUE
-- 
2.43.0


From 336bd4ae74a1f176a8671211026e536c3e3413a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:35 +0000
Subject: [PATCH 26/33] fix: (p,v) below the minimum pressure: volumes smaller
 than that of steam at 273.15 K are refused

---
 src/common/region.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/common/region.rs b/src/common/region.rs
index 37b19d5..e275675 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -459,6 +459,9 @@ pub fn pv_sub_region(p: f64, v: f64) -> i32 {
         T1 = T_saturation(p);
         vsw = pT2v_reg1(p, T1);
         vss = pT2v_reg2(p, T1);
+    } else if p < P_MIN {
+        // below the saturation pressure at 273.15 K there is only steam
+        vss = pT2v_reg2(p, 273.15);
     } else if (p > P_MIN3) && (p <= P_MAX3) {
         vt623 = pT2v_reg1(p, 623.15);
         T1 = B23_p2T(p);
-- 
2.43.0


From 34b711d36f12a6f9c29a02056c362e736924dec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:50 +0000
Subject: [PATCH 27/33] fix: (h,s) at the ends of TB23(h,s): the limits of the
 equation are the published ones

---
 src/common/region.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index e275675..dd46ec2 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -343,8 +343,9 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
         // Specific zone with 2-3 boundary in s shape
         hmin = h4l + (s - s4l) / (s4v - s4l) * (h4v - h4l);
         hs = hs_region_h2c3b_s(s);
-        let h23max: f64 = pT2h_reg2(100.0, 863.15);
-        let h23min: f64 = pT2h_reg2(Ps_623, 623.15);
+        // the limits of TB23(h,s), as published
+        let h23max: f64 = 2.812942061e3;
+        let h23min: f64 = 2.563592004e3;
         T = ps2T_reg2(100.0, s) - 0.019;
         hmax = pT2h_reg2(100.0, T);
 
-- 
2.43.0


From 8e3f9ca84d02cda4b0ddc4d41ef57153cdf97482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:09 +0000
Subject: [PATCH 28/33] fix: (h,s) beyond 50 MPa or 2273.15 K was answered with
 a different state of region 5

---
 src/common/region.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index dd46ec2..44b564e 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -268,7 +268,9 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
     {
         p = hs2p_reg5(h, s);
         T = ph2T_reg5(p, h);
-        if 1073.15 < T && T <= 2273.15 && P_MIN <= p && p <= 50.0 {
+        // p and T are limited to the range of region 5: beyond it they are not the state of (h,s)
+        let found: bool = (pT2h_reg5(p, T) - h).abs() < 1.0e-3 && (pT2s_reg5(p, T) - s).abs() < 1.0e-6;
+        if found && 1073.15 < T && T <= 2273.15 && P_MIN <= p && p <= 50.0 {
             return 5;
         }
     };
-- 
2.43.0


From 59356842c5b3368b66b7353ffd877e6f34ca8bd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:29 +0000
Subject: [PATCH 29/33] fix: README_Python names property 35 OALFAP, as the
 crate does

---
 README_Python.md | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/README_Python.md b/README_Python.md
index ac7b4f2..f19b266 100644
--- a/README_Python.md
+++ b/README_Python.md
@@ -152,7 +152,7 @@ print(f"p={p}, t={t} h={h:.3f} s={s:.3f}")
 | Isothermal stress coefficient         |   kg/m³     |    βp  | OBETAP|       32 |
 | Fugacity coefficient                  |             |    fi  |   OFI |       33 |
 | Fugacity                              |     MPa     |     f* |   OFU |       34 |
-| Relative pressure coefficient         |     1/K     |    αp  | OAFLAP|        35|
+| Relative pressure coefficient         |     1/K     |    αp  | OALFAP|        35|
 
 
 
-- 
2.43.0


From bb35d151acd788551b5e7365bf238ae2db37368a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:29:35 +0000
Subject: [PATCH 30/33] fix: (h,s) between the rounded and the computed s'' at
 273.15 K met an error code as h''(s)

---
 src/common/boundaries.rs | 2 +-
 src/r4/region4_T_hs.rs   | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/common/boundaries.rs b/src/common/boundaries.rs
index 0054398..f276abc 100644
--- a/src/common/boundaries.rs
+++ b/src/common/boundaries.rs
@@ -205,7 +205,7 @@ pub fn hs_region_h2ab_s(s: f64) -> f64 {
     ];
 
     // Check input parameters
-    if s < 5.85 || s > 9.155759395 {
+    if s < 5.85 || s > 9.1557593953 {
         return INVALID_S as f64;
     }
 
diff --git a/src/r4/region4_T_hs.rs b/src/r4/region4_T_hs.rs
index e5aa68a..45fa80e 100644
--- a/src/r4/region4_T_hs.rs
+++ b/src/r4/region4_T_hs.rs
@@ -17,7 +17,7 @@ const s4L_623: f64 = 3.778281340; // T=623.16 ，Sature Liquid s
 const s4V_623: f64 = 5.210887825; // T=623.16 ，Sature steam   s
 const h4V_623: f64 = 2.5635920043e+03; // Page 25  Sature steam   h
 const s4L_273: f64 = -1.545495919e-04; // T=273.15 ，Sature Liquid s
-const s4V_273: f64 = 9.155759395; // T=273.15 ，Sature steam s
+const s4V_273: f64 = 9.1557593953; // T=273.15 ，Sature steam s, not below that of region 2
 
 ///  Page30  5.3 Backward Functions Tsat(h,s),
 pub fn hs2T_reg43(h: f64, s: f64) -> f64 {
@@ -82,7 +82,7 @@ pub fn hs2T_reg4(h: f64, s: f64) -> f64 {
     let mut Tsat: f64 = 0.0;
 
     // the saturated water of h: below 623.15 K in region 1, else in region 3
-    if s > s4L_273 && s <= s4V_623 && h < pT2h_reg1(Ps_623, 623.15) {
+    if s >= s4L_273 && s <= s4V_623 && h < pT2h_reg1(Ps_623, 623.15) {
         p_Low_Bound = P_MIN;
         p_High_Bound = Ps_623;
 
@@ -98,7 +98,7 @@ pub fn hs2T_reg4(h: f64, s: f64) -> f64 {
             }
         }
         p_Low_Bound = P_MIN;
-    } else if s > s4L_273 && s <= s4V_623 {
+    } else if s >= s4L_273 && s <= s4V_623 {
         PL = h2p_sat_reg3(h); // liquid or steam, boundaries
         p_Low_Bound = P_MIN;
         p_High_Bound = PL;
-- 
2.43.0


From da3c7caf245c23ecb5ec43a100239ec4bfa5cbd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:35 +0000
Subject: [PATCH 31/33] fix: ph and ps compared the pressure with an error code
 outside the range of psat3(h), psat3(s)

---
 src/common/region.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 44b564e..82f5859 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -123,7 +123,8 @@ pub fn ph_sub_region(p: f64, h: f64) -> i32 {
 
         if h13 < h && h < h32 {
             let p34: f64 = h2p_sat_reg3(h); //boundaries
-            if p < p34 {
+            // an error code: beyond the ends of the saturation line there is no wet steam
+            if p34 > 0.0 && p < p34 {
                 return 4;
             } else {
                 return 3;
@@ -196,7 +197,8 @@ pub fn ps_sub_region(p: f64, s: f64) -> i32 {
         }
         if s13 < s && s < s32 {
             let p34: f64 = s2p_sat_reg3(s); // boundaries;
-            if p < p34 {
+            // an error code: beyond the ends of the saturation line there is no wet steam
+            if p34 > 0.0 && p < p34 {
                 return 4;
             } else {
                 return 3;
-- 
2.43.0


From 4fdd7cfd40042e2a19479417f112b294b76429a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:43 +0000
Subject: [PATCH 32/33] fix: hs of wet steam next to 273.15 K computed every
 property from an error code

---
 src/r4/region4_T_hs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/r4/region4_T_hs.rs b/src/r4/region4_T_hs.rs
index 45fa80e..21bf27c 100644
--- a/src/r4/region4_T_hs.rs
+++ b/src/r4/region4_T_hs.rs
@@ -72,7 +72,8 @@ pub fn hs2T_reg43(h: f64, s: f64) -> f64 {
 
 pub fn hs2T_reg4(h: f64, s: f64) -> f64 {
     if s > s4V_623 && s < s4V_273 {
-        return hs2T_reg43(h, s);
+        // the equation falls short of its range by some 1e-4 K at the lower end
+        return hs2T_reg43(h, s).max(273.15);
     };
 
     //The if97 function hs2Treg43 is only valid for part of region4. Use iteration outsida.
-- 
2.43.0


From 3a684ec7e38db7bcaaa9ff7f64bb357edf66870a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:12:05 +0000
Subject: [PATCH 33/33] fix: hs of wet steam ended its searches up to 0.2 K off
 the solution

The search for the pressure of saturated water of enthalpy h stopped when its
bounds were 1e-4 MPa apart, which is a tenth of the pressure next to the triple
point, and the search for s stopped 1e-6 kJ/(kg K) off, which is 0.2 K next to
the saturated water line. Both go on to 1e-9.
---
 src/r4/region4_T_hs.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/r4/region4_T_hs.rs b/src/r4/region4_T_hs.rs
index 21bf27c..03f2425 100644
--- a/src/r4/region4_T_hs.rs
+++ b/src/r4/region4_T_hs.rs
@@ -88,7 +88,7 @@ pub fn hs2T_reg4(h: f64, s: f64) -> f64 {
         p_High_Bound = Ps_623;
 
         let mut hL: f64 = -1000.0;
-        while (hL - h).abs() > 1.0e-04 && (p_High_Bound - p_Low_Bound).abs() > 1.0e-4 {
+        while (hL - h).abs() > 1.0e-06 && (p_High_Bound - p_Low_Bound).abs() > 1.0e-9 {
             PL = 0.5 * (p_Low_Bound + p_High_Bound);
             Tsat = T_saturation(PL);
             hL = pT2h_reg1(PL, Tsat);
@@ -115,7 +115,7 @@ pub fn hs2T_reg4(h: f64, s: f64) -> f64 {
 
     // s falls when p rises at constant h: bisection between the bounds
     let mut steps: i32 = 0;
-    while (s - sss).abs() > 1.0e-6 && steps < 100 {
+    while (s - sss).abs() > 1.0e-9 && steps < 100 {
         steps += 1;
         p = 0.5 * (p_Low_Bound + p_High_Bound);
 
-- 
2.43.0

