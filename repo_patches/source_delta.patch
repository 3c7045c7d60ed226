From a6ac6296ef467cff3452b2e9c26546458b31046c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:48 +0000
Subject: [PATCH 01/18] fix: Prandtl number of the (p,T) pair uses the density
 of the state, not 1/T

---
 src/common/propertry_pairs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/propertry_pairs.rs b/src/common/propertry_pairs.rs
index 90bad88..af7d846 100644
--- a/src/common/propertry_pairs.rs
+++ b/src/common/propertry_pairs.rs
@@ -95,7 +95,7 @@ pub fn pair_transport_reg(v1: f64, v2: f64, o_id: i32, pair: PAIRS, fn_thermal:
                 prandtl_number(dv, cp, tc)
             }
             _ => {
-                let d = 1.0 / v2;
+                let d = fn_thermal(v1, v2, OD);
                 let dv: f64 = viscosity(d, v2);
                 let cp: f64 = fn_thermal(v1, v2, OCP);
                 let tc: f64 = thcond(d, v2);
-- 
2.43.0


From 7f62662d859551742c45eae596ae446b8b9c8a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:48 +0000
Subject: [PATCH 02/18] fix: kinematic viscosity of the (T,d) pair is viscosity
 divided by density

---
 src/common/propertry_pairs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/propertry_pairs.rs b/src/common/propertry_pairs.rs
index af7d846..3919268 100644
--- a/src/common/propertry_pairs.rs
+++ b/src/common/propertry_pairs.rs
@@ -51,7 +51,7 @@ pub fn pair_transport_reg(v1: f64, v2: f64, o_id: i32, pair: PAIRS, fn_thermal:
         },
         OKV => match pair {
             // d,T
-            PAIRS::Td => v2 * viscosity(v2, v1),
+            PAIRS::Td => viscosity(v2, v1) / v2,
             _ => {
                 let d = fn_thermal(v1, v2, OD);
                 viscosity(d, v2) / d
-- 
2.43.0


From 8b661e3c3e56c0b1348c9226cad1cd54776d7230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:48 +0000
Subject: [PATCH 03/18] fix: region 3 exergy is g + (T - T0) s

---
 src/r3/region3_Td_ext.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r3/region3_Td_ext.rs b/src/r3/region3_Td_ext.rs
index f517f89..69b4178 100644
--- a/src/r3/region3_Td_ext.rs
+++ b/src/r3/region3_Td_ext.rs
@@ -126,7 +126,7 @@ pub fn Td2e_reg3(T: f64, d: f64) -> f64 {
     let phi = phi_reg3(delta, tau);
     let phidelta = phi_delta_reg3(delta, tau);
     let phitau = phi_tau_reg3(delta, tau);
-    RGAS_WATER * (T * (phi + delta * phidelta) + (T - Tt) * tau * (phitau - phi))
+    RGAS_WATER * (T * (phi + delta * phidelta) + (T - Tt) * (tau * phitau - phi))
 }
 
 /// z: Compressibility factor  
-- 
2.43.0


From ea6cecbd6856c9bd2a947aea17cd8a86dd302af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:48 +0000
Subject: [PATCH 04/18] fix: isothermal throttling coefficient is in the
 documented kJ/(kg MPa)

---
 src/r1/region1_pT_ext.rs | 2 +-
 src/r2/region2_pT_ext.rs | 2 +-
 src/r3/region3_Td_ext.rs | 2 +-
 src/r5/region5_pT_ext.rs | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/r1/region1_pT_ext.rs b/src/r1/region1_pT_ext.rs
index 63c11ce..ee58d5d 100644
--- a/src/r1/region1_pT_ext.rs
+++ b/src/r1/region1_pT_ext.rs
@@ -113,7 +113,7 @@ pub fn pT2joule_reg1(p: f64, T: f64) -> f64 {
 pub fn pT2iJTC_reg1(p: f64, T: f64) -> f64 {
     let tau: f64 = r1Tstar / T;
     let pi: f64 = p / r1pstar;
-    0.001 * RGAS_WATER * r1Tstar * gamma_pitau_reg1(pi, tau) / r1pstar
+    RGAS_WATER * r1Tstar * gamma_pitau_reg1(pi, tau) / r1pstar
 }
 
 /// dvdp Partial derivative (dV/dP)T  m3/(kg·MPa)
diff --git a/src/r2/region2_pT_ext.rs b/src/r2/region2_pT_ext.rs
index 9a45949..3b4ff74 100644
--- a/src/r2/region2_pT_ext.rs
+++ b/src/r2/region2_pT_ext.rs
@@ -110,7 +110,7 @@ pub fn pT2iJTC_reg2(p: f64, T: f64) -> f64 {
     let tau: f64 = r2Tstar / T;
     let pi: f64 = p;
     let gummapitau = gamma0_pitau_reg2() + gammar_pitau_reg2(pi, tau);
-    0.001 * RGAS_WATER * r2Tstar * gummapitau
+    RGAS_WATER * r2Tstar * gummapitau
 }
 
 /// (dp/dt)v MPa/K
diff --git a/src/r3/region3_Td_ext.rs b/src/r3/region3_Td_ext.rs
index 69b4178..6f50c04 100644
--- a/src/r3/region3_Td_ext.rs
+++ b/src/r3/region3_Td_ext.rs
@@ -102,7 +102,7 @@ pub fn Td2joule_reg3(T: f64, d: f64) -> f64 {
 ///  iJTC Isothermal Joule-Thomson coefficient kJ/(kg·MPa)
 /// *  (dh/dp)t
 pub fn Td2iJTC_reg3(T: f64, d: f64) -> f64 {
-    -Td2cp_reg3(T, d) * Td2joule_reg3(T, d) / 1000.0
+    -Td2cp_reg3(T, d) * Td2joule_reg3(T, d)
 }
 
 ///  (dp/dT)v
diff --git a/src/r5/region5_pT_ext.rs b/src/r5/region5_pT_ext.rs
index 14574fa..a36e389 100644
--- a/src/r5/region5_pT_ext.rs
+++ b/src/r5/region5_pT_ext.rs
@@ -102,7 +102,7 @@ pub fn pT2iJTC_reg5(p: f64, T: f64) -> f64 {
     let tau: f64 = r5Tstar / T;
     let pi: f64 = p / r5Pstar;
     let gummapitau = gamma0_pitau_reg5() + gammar_pitau_reg5(pi, tau);
-    0.001 * RGAS_WATER * r5Tstar * gummapitau
+    RGAS_WATER * r5Tstar * gummapitau
 }
 
 /// (dp/dt)v MPa/K
-- 
2.43.0


From 4e6f4a0a19effd83a074474d4e8bbed2ddbe9c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:48 +0000
Subject: [PATCH 05/18] fix: region 5 isochoric heat capacity

---
 src/r5/region5_pT.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r5/region5_pT.rs b/src/r5/region5_pT.rs
index 5239a98..68d6544 100644
--- a/src/r5/region5_pT.rs
+++ b/src/r5/region5_pT.rs
@@ -54,7 +54,7 @@ pub fn pT2cv_reg5(p: f64, T: f64) -> f64 {
     let a: f64 = -tau * tau * (gamma0_tautau_reg5(tau) + gammar_tautau);
     let b: f64 = 1.0 + pi * gammar_pi - tau * pi * gammar_pitau;
     let c: f64 = 1.0 - pi * pi * gammar_pipi;
-    RGAS_WATER * (a - b * b) / c
+    RGAS_WATER * (a - b * b / c)
 }
 
 pub fn pT2w_reg5(p: f64, T: f64) -> f64 {
-- 
2.43.0


From b0fb52035658ec972ad007a766c5b1f1d2c7c661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:48 +0000
Subject: [PATCH 06/18] fix: pt of the cdecl interface uses the C calling
 convention

---
 src/cdecl_c_if97.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cdecl_c_if97.rs b/src/cdecl_c_if97.rs
index 7911aac..f949f78 100644
--- a/src/cdecl_c_if97.rs
+++ b/src/cdecl_c_if97.rs
@@ -10,7 +10,7 @@ use crate::r5::*;
 
 /// double pt(double p,double t,short o_id)- the propertry of `o_id` (thermodynamic,transport,etc)  
 #[no_mangle]
-pub unsafe extern "stdcall" fn pt(p: f64, t: f64, o_id: i32) -> f64 {
+pub unsafe extern "C" fn pt(p: f64, t: f64, o_id: i32) -> f64 {
     let T: f64 = t + 273.15;
     let reg: i32 = REGION_NONE;
     match o_id {
-- 
2.43.0


From 759545763aafa06d7de57409853ea04d13a55e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:48 +0000
Subject: [PATCH 07/18] fix: (p,T) at the lowest pressure belongs to region 2
 at every temperature

---
 src/common/region.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 3ca9e72..4485603 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -60,7 +60,7 @@ pub fn pT_sub_region(p: f64, T: f64) -> i32 {
         if p >= p_saturation(T) && p <= 100.0 {
             return 1;
         }
-        if p < p_saturation(T) && p > P_MIN {
+        if p < p_saturation(T) && p >= P_MIN {
             return 2;
         }
     };
-- 
2.43.0


From 76fec280ad2a1375d5e3c5f5c4ea915238866e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 08/18] fix: subregion 3l sums all 43 coefficients

---
 src/r3/region3_v_subregion_pT.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/r3/region3_v_subregion_pT.rs b/src/r3/region3_v_subregion_pT.rs
index bc7117f..f0be9fc 100644
--- a/src/r3/region3_v_subregion_pT.rs
+++ b/src/r3/region3_v_subregion_pT.rs
@@ -561,7 +561,7 @@ pub fn pT2v_3l(p: f64, T: f64) -> f64 {
     #[rustfmt::skip]
     let d:para = para {PS: 24.0,  TS: 650.0,   VS: 0.0026,
                         a: 0.908,  b: 0.989,    c: 1.0,    d: 1.0,  e: 4.0, };
-    let steps: [(usize, usize); 3] = [(0, 17), (17, 30), (30, 42)];
+    let steps: [(usize, usize); 3] = [(0, 17), (17, 30), (30, 43)];
     pT2v_sum_steps(p, T, &IJn, d, &steps)
 }
 
-- 
2.43.0


From c23e079f2fb41c45f7f27361a974fa1d301ebb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:24 +0000
Subject: [PATCH 09/18] fix: subregions 3c and 3k between psat(643.15 K) and
 22.5 MPa are not overwritten

---
 src/r3/region3_v_pT.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/r3/region3_v_pT.rs b/src/r3/region3_v_pT.rs
index c952942..bd56188 100644
--- a/src/r3/region3_v_pT.rs
+++ b/src/r3/region3_v_pT.rs
@@ -285,6 +285,7 @@ pub fn sub_region3_pT(p: f64, T: f64) -> char {
 
             if T <= tBcd {
                 subRegion = 'c';
+                return subRegion;
             } else if T <= tBqu {
                 subRegion = 'q';
                 return subRegion;
@@ -297,6 +298,7 @@ pub fn sub_region3_pT(p: f64, T: f64) -> char {
 
             if T > tBjk {
                 subRegion = 'k';
+                return subRegion;
             }
 
             // tBqu < T <= tBrx
-- 
2.43.0


From b427c8672797830dbec046d88ec9f961a96116a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:42 +0000
Subject: [PATCH 10/18] fix: density of wet steam is the reciprocal of its
 specific volume

---
 src/r4/region4_pTx.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/r4/region4_pTx.rs b/src/r4/region4_pTx.rs
index 394e318..0f099b8 100644
--- a/src/r4/region4_pTx.rs
+++ b/src/r4/region4_pTx.rs
@@ -177,7 +177,8 @@ pub fn px_reg4(p: f64, x: f64, o_id: i32) -> f64 {
     let T: f64 = T_saturation(p);
     match o_id {
         OT => return T-273.15,
-        OH | OS | OV | OD | OU | OF | OG | OE => {
+        OD => return 1.0 / px_reg4(p, x, OV),
+        OH | OS | OV | OU | OF | OG | OE => {
             // region 4 x(0,1) return  v,h,s only
             let mut rl: f64 = 0.0;
             let mut rv: f64 = 0.0;
@@ -210,7 +211,8 @@ pub fn Tx_reg4(T: f64, x: f64, o_id: i32) -> f64 {
     }
     let mut r: f64 = 0.0;
     match o_id {
-        OH | OS | OV | OD | OU | OF | OG | OE => {
+        OD => return 1.0 / Tx_reg4(T, x, OV),
+        OH | OS | OV | OU | OF | OG | OE => {
             // region 4 x(0,1) return  v,h,s only
             let mut rl: f64 = 0.0;
             let mut rv: f64 = 0.0;
-- 
2.43.0


From 389c20caa8bba17395177ba14494bb3cb56fa463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:23 +0000
Subject: [PATCH 11/18] fix: (t,v), (t,h), (t,s) states of region 2 above
 863.15 K are recognised

---
 src/common/region.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/common/region.rs b/src/common/region.rs
index 4485603..37b575f 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -536,6 +536,7 @@ pub fn tv_sub_region(t: f64, v: f64) -> i32 {
     };
     if ((T >= T_MIN2) && (T <= T_MAX1) && (v > vss) && (v < vpmax2))
         || ((T > T_MAX1) && (T <= T_MAX3) && (v >= vB23) && (v < vpmax2))
+        || ((T > T_MAX3) && (T <= T_MAX2) && (v >= vp100) && (v < vpmax2))
     {
         return 2;
     };
@@ -579,6 +580,8 @@ pub fn th_sub_region(t: f64, h: f64) -> i32 {
         hp100 = pT2h_reg1(100.0, T);
     } else if (T > T_MIN3) && (T <= T_MAX3) {
         hp100 = pt_reg3(100.0, T - 273.15, OH);
+    } else if (T > T_MAX3) && (T <= T_MAX2) {
+        hp100 = pT2h_reg2(100.0, T);
     }
 
     let mut hsw: f64 = 0.0;
@@ -637,6 +640,9 @@ pub fn th_sub_region(t: f64, h: f64) -> i32 {
     if (T > T_MAX1) && (T <= T_MAX3) && (h >= hB23) && (h < hpmax2) {
         return 2;
     };
+    if (T > T_MAX3) && (T <= T_MAX2) && (h >= hp100) && (h < hpmax2) {
+        return 2;
+    };
     if (T > T_MIN3) && (T <= TC_WATER) && (((h > hss) && (h < hB23)) || ((h >= hp100) && (h < hsw)))
         || ((T > TC_WATER) && (T <= T_MAX3) && (h >= hp100) && (h < hB23))
     {
@@ -715,6 +721,7 @@ pub fn ts_sub_region(t: f64, s: f64) -> i32 {
     };
     if ((T >= T_MIN2) && (T <= T_MAX1) && (s > sss) && (s < spmax2))
         || ((T > T_MAX1) && (T <= T_MAX3) && (s >= sB23) && (s < spmax2))
+        || ((T > T_MAX3) && (T <= T_MAX2) && (s >= sp100) && (s < spmax2))
     {
         return 2;
     };
-- 
2.43.0


From d8eaf6e4d8cc68f2ffe9d7f1a7adc7d9e745600c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:20 +0000
Subject: [PATCH 12/18] fix: hB13(s) accepts s down to the end of its range,
 s(100 MPa, 623.15 K)

---
 src/common/boundaries.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/boundaries.rs b/src/common/boundaries.rs
index 0054398..d5e59a9 100644
--- a/src/common/boundaries.rs
+++ b/src/common/boundaries.rs
@@ -259,7 +259,7 @@ pub fn hs_region_h13_s(s: f64) -> f64 {
         (6, -3, -0.690815545851641E+02),
     ];
 
-    if s < 3.397782955 || s > 3.77828134 {
+    if s < 3.39778295 || s > 3.77828134 {
         return INVALID_S as f64;
     };
 
-- 
2.43.0


From 62b32932c26fac20ba5046b4342391a9cb439611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:51 +0000
Subject: [PATCH 13/18] fix: (h,s) states above 100 MPa next to the 2-3
 boundary are not region 3

---
 src/common/region.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index 37b575f..a7c91a1 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -350,7 +350,11 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
             {
                 return 2;
             } else {
-                return 3;
+                v = ps2v_reg3(100.0, s) * (1.0 + 9.6e-5);
+                T = ps2T_reg3(100.0, s) - 0.0248;
+                if h <= Td2h_reg3(T, 1.0 / v) {
+                    return 3;
+                }
             }
         }
 
-- 
2.43.0


From 708e9f04f385505311553cb21d3227841c61c2c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:24 +0000
Subject: [PATCH 14/18] fix: h'3a(s) accepts s down to the end of its range, s
 of saturated liquid at 623.15 K

---
 src/common/boundaries.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/common/boundaries.rs b/src/common/boundaries.rs
index d5e59a9..a23387e 100644
--- a/src/common/boundaries.rs
+++ b/src/common/boundaries.rs
@@ -159,7 +159,7 @@ pub fn hs_region_h3a_s(s: f64) -> f64 {
         (32, 6, 0.631052532240980E+0),
     ];
     // Check input parameters
-    if s < 3.77828134 || s > SC_WATER {
+    if s < 3.77828133 || s > SC_WATER {
         return INVALID_S as f64;
     }
 
-- 
2.43.0


From dad18c708463ecd0e4ce52d1d744a586ebb3485a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:27 +0000
Subject: [PATCH 15/18] fix: (h,s) below the coldest liquid is not region 1

---
 src/common/region.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/common/region.rs b/src/common/region.rs
index a7c91a1..be66679 100644
--- a/src/common/region.rs
+++ b/src/common/region.rs
@@ -271,10 +271,11 @@ pub fn hs_sub_region(h: f64, s: f64) -> i32 {
     };
     if smin <= s && s <= s13 {
         hmin = h4l + (s - s4l) / (s4v - s4l) * (h4v - h4l);
-        hs = hs_region_h1_s(s);
+        // no saturated liquid below s4l: there the cold liquid starts at its enthalpy
+        hs = if s < s4l { h4l } else { hs_region_h1_s(s) };
         T = ps2T_reg1(100.0, s) - 0.0218;
         hmax = pT2h_reg1(100.0, T);
-        if hmin <= h && h < hs {
+        if s4l <= s && hmin <= h && h < hs {
             return 4;
         }
         if hs <= h && h <= hmax {
-- 
2.43.0


From d88384b0692a4983a6d6c4ea8625a13991b8bd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:09 +0000
Subject: [PATCH 16/18] fix: pv2T_reg1 finds the temperature of compressed and
 saturated water

---
 src/r1/region1_pair_ext.rs | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/r1/region1_pair_ext.rs b/src/r1/region1_pair_ext.rs
index 8eca994..45dcf1b 100644
--- a/src/r1/region1_pair_ext.rs
+++ b/src/r1/region1_pair_ext.rs
@@ -20,6 +20,7 @@ pub fn pv2T_reg1(p: f64, v: f64) -> f64 {
     } else {
         T2 = T_saturation(p);
     };
+    let Tmax: f64 = T2;
     let mut v2: f64 = pT2v_reg1(p, T2);
     let mut f: f64 = v - v2;
     if (v2 - v1) != 0.0 {
@@ -28,11 +29,12 @@ pub fn pv2T_reg1(p: f64, v: f64) -> f64 {
     v2 = pT2v_reg1(p, T2);
     f = v - v2;
     if f > 0.0 {
-        T2 = T_MAX1;
-        v2 = pT2v_reg1(p, T2);
-        f = v - v2;
+        // v(T) is convex: the root is between T2 and the upper bound
+        T1 = Tmax;
+        v1 = pT2v_reg1(p, T1);
+        f1 = v - v1;
     }
-    let mut T: f64 = rtsec2(pT2v_reg1, p, v, T1, T2, f1, f, 1.0e-3, 100);
+    let mut T: f64 = rtsec2(pT2v_reg1, p, v, T1, T2, f1, f, ESP, I_MAX);
 
     let mut r_error = 0.0; //relative error
     r_error = (v - pT2v_reg1(p, T)) / v;
@@ -46,6 +48,21 @@ pub fn pv2T_reg1(p: f64, v: f64) -> f64 {
         T = T_MAX1;
     }
 
+    // no root by the secant, T_MIN1 and Tmax bracket it: bisection
+    if v > pT2v_reg1(p, T_MIN1) && v <= pT2v_reg1(p, Tmax) {
+        let mut Tl: f64 = T_MIN1;
+        let mut Tr: f64 = Tmax;
+        while (Tr - Tl) > ESP {
+            T = 0.5 * (Tl + Tr);
+            if pT2v_reg1(p, T) > v {
+                Tr = T;
+            } else {
+                Tl = T;
+            }
+        }
+        return T;
+    }
+
     // Region 1 : the diff volume is the very small when the diff T is large
     // so, we need to adjust the T
     let V_ESPION: f64 = 1.0e-8;
-- 
2.43.0


From 8d4e67fd5381e933dcbdb2c5d3cd39e1c209f28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:10 +0000
Subject: [PATCH 17/18] fix: Tv2p_reg5 starts the secant from a good estimate
 at low pressure

---
 src/r5/region5_pair_ext.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/r5/region5_pair_ext.rs b/src/r5/region5_pair_ext.rs
index faec665..e05cd50 100644
--- a/src/r5/region5_pair_ext.rs
+++ b/src/r5/region5_pair_ext.rs
@@ -69,7 +69,8 @@ pub fn Tv2p_reg5(T: f64, v: f64) -> f64 {
     }
 
     let mut f2: f64 = v - v2;
-    p1 = p2 - (p2 - p1) * (v - v2) / (v1 - v2);
+    // p is nearly proportional to 1/v along the isotherm
+    p1 = p2 - (p2 - p1) * (1.0 / v - 1.0 / v2) / (1.0 / v1 - 1.0 / v2);
     if p1 < P_MIN5 {
         p1 = P_MIN5;
     }
-- 
2.43.0


From c94614942a45b404ce0cc045d7cc292de239da0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:48:58 +0000
Subject: [PATCH 18/18] fix: pv2T_reg1 near the maximum density searches the
 warm side

---
 src/r1/region1_pair_ext.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/r1/region1_pair_ext.rs b/src/r1/region1_pair_ext.rs
index 45dcf1b..29118c7 100644
--- a/src/r1/region1_pair_ext.rs
+++ b/src/r1/region1_pair_ext.rs
@@ -48,9 +48,13 @@ pub fn pv2T_reg1(p: f64, v: f64) -> f64 {
         T = T_MAX1;
     }
 
-    // no root by the secant, T_MIN1 and Tmax bracket it: bisection
-    if v > pT2v_reg1(p, T_MIN1) && v <= pT2v_reg1(p, Tmax) {
-        let mut Tl: f64 = T_MIN1;
+    // no root by the secant, Tmin and Tmax bracket it: bisection
+    let mut Tmin: f64 = T_MIN1;
+    if v <= pT2v_reg1(p, Tmin) {
+        Tmin = 277.15; // below the volume at T_MIN1: on the warm side of the maximum density
+    }
+    if v > pT2v_reg1(p, Tmin) && v <= pT2v_reg1(p, Tmax) {
+        let mut Tl: f64 = Tmin;
         let mut Tr: f64 = Tmax;
         while (Tr - Tl) > ESP {
             T = 0.5 * (Tl + Tr);
-- 
2.43.0

