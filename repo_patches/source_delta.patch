From bfadacc6006b6727958015c828cdde679480eb79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:52 +0000
Subject: [PATCH 01/19] fix: rotating a spin in a zero field leaves it
 unchanged instead of making it NaN

---
 src/spin.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spin.rs b/src/spin.rs
index 571cad2..b202048 100644
--- a/src/spin.rs
+++ b/src/spin.rs
@@ -171,6 +171,10 @@ impl Spin {
     #[inline]
     pub fn rotate(&mut self, field: &[f64; 3], dt: f64) {
         let fs: f64 = field.iter().map(|x| x * x).sum::<f64>().sqrt();
+        // No field, no precession (and no axis to normalise)
+        if fs == 0.0 {
+            return;
+        }
         let f: [f64; 3] = [field[0] / fs, field[1] / fs, field[2] / fs];
         let dts: f64 = fs * dt;
         let dc: f64 = dts.cos();
-- 
2.43.0


From c262f8da5478f4cd7db7c349ecdabc3fd8795238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 02/19] fix: azimuthal angle of spins in the y-z plane and at
 the poles

---
 src/spin.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/spin.rs b/src/spin.rs
index b202048..b4b5b7d 100644
--- a/src/spin.rs
+++ b/src/spin.rs
@@ -1,5 +1,3 @@
-use std::f64::consts::PI;
-
 ///Struct for storing a 3-dimensional normalised spin
 
 #[derive(Debug, Clone)]
@@ -133,11 +131,7 @@ impl Spin {
     }
 
     pub fn theta(&self) -> f64 {
-        (self.dir[1] / self.dir[0]).atan()
-            + match self.dir[0] {
-                x if x > 0.0 => 0.0,
-                _ => PI,
-            }
+        self.dir[1].atan2(self.dir[0])
     }
 
     pub fn phi(&self) -> f64 {
-- 
2.43.0


From f1c7d251bbc1366b774fe4ab087177150a39a4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:28 +0000
Subject: [PATCH 03/19] fix: rotating-frame energy counts each Magnus bond and
 triple once, as the Monte Carlo update weighs them

---
 src/spinchain.rs | 30 +-----------------------------
 1 file changed, 1 insertion(+), 29 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index 39a3f59..d57a9fa 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -1597,59 +1597,31 @@ impl SpinChain {
         }
 
         let mut mg: f64 = 0.0;
-        // Now for correction term
+        // Now for correction term: each bond and each triple of neighbours once
         for index in 0..h {
             let s_c: &Spin = &self.spins[index];
             let s_l: &Spin = match index {
                 _ if index == 0 => &self.spins[h - 1],
                 _ => &self.spins[index - 1],
             };
-            let s_ll: &Spin = match index {
-                _ if index == 0 => &self.spins[h - 2],
-                _ if index == 1 => &self.spins[h - 1],
-                _ => &self.spins[index - 2],
-            };
 
             let s_r: &Spin = match index {
                 _ if index == h - 1 => &self.spins[0],
                 _ => &self.spins[index + 1],
             };
 
-            let s_rr: &Spin = match index {
-                _ if index == h - 2 => &self.spins[0],
-                _ if index == h - 1 => &self.spins[1],
-                _ => &self.spins[index + 2],
-            };
-
             let j_l: &[f64; 3] = match index {
                 _ if index == 0 => &self.j_couple[h - 1],
                 _ => &self.j_couple[index - 1],
             };
-            let j_ll: &[f64; 3] = match index {
-                _ if index == 0 => &self.j_couple[h - 2],
-                _ if index == 1 => &self.j_couple[h - 1],
-                _ => &self.j_couple[index - 2],
-            };
 
             let j_r: &[f64; 3] = &self.j_couple[index];
-            let j_rr: &[f64; 3] = match index {
-                _ if index == h - 1 => &self.j_couple[0],
-                _ => &self.j_couple[index + 1],
-            };
 
             mg += (j_r[1] - j_r[0]) * (j_r[1] - j_r[0]) * SpinChain::zxi_trip(s_c, s_c, s_r);
             mg += (j_r[1] - j_r[0]) * (j_r[1] - j_r[0]) * SpinChain::zxi_trip(s_r, s_r, s_c);
-            mg += (j_l[1] - j_l[0]) * (j_l[1] - j_l[0]) * SpinChain::zxi_trip(s_l, s_l, s_c);
-            mg += (j_l[1] - j_l[0]) * (j_l[1] - j_l[0]) * SpinChain::zxi_trip(s_c, s_c, s_l);
             mg += (j_l[1] - j_l[0])
                 * (j_r[1] - j_r[0])
                 * (SpinChain::zxi_trip(s_r, s_l, s_c) + SpinChain::zxi_trip(s_l, s_r, s_c));
-            mg += (j_ll[1] - j_ll[0])
-                * (j_l[1] - j_l[0])
-                * (SpinChain::zxi_trip(s_c, s_ll, s_l) + SpinChain::zxi_trip(s_ll, s_c, s_l));
-            mg += (j_r[1] - j_r[0])
-                * (j_rr[1] - j_rr[0])
-                * (SpinChain::zxi_trip(s_rr, s_c, s_r) + SpinChain::zxi_trip(s_c, s_rr, s_r));
         }
 
         e -= mg / (16.0 * om);
-- 
2.43.0


From 9dc4a18c2eee95844903856c05d416246f10f19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:44 +0000
Subject: [PATCH 04/19] fix: Magnus Monte Carlo update weighs the proposed
 spin's own field term and every term the move changes

---
 src/spinchain.rs          | 54 +++++++++++++++++++++++++--------------
 src/spinchain_langevin.rs | 54 +++++++++++++++++++++++++--------------
 2 files changed, 70 insertions(+), 38 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index d57a9fa..a4e1e00 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -998,23 +998,32 @@ impl SpinChain {
 
         //-(1)/(2 \omega) (  S^z + 2y . (J_j S_{j+1} + J_{j-1} S_{j-1}) x S_j )
         // Because j-1->j->j+1, flipping j effects *three* terms in the energy
-        // But only if the field is non-zero at site j
-        if index < self.vars.ssize as usize {
+        // But only if the field is non-zero at site j, so each of the three terms is present
+        // if and only if the site it belongs to is in the subsystem
+        let in_j: bool = index < self.vars.ssize as usize;
+        let in_jm1: bool = (index + s - 1) % s < self.vars.ssize as usize;
+        let in_jp1: bool = (index + 1) % s < self.vars.ssize as usize;
+        if in_j || in_jm1 || in_jp1 {
             ei -= PI / self.vars.tau
-                * (s_j.dir[2]
-                    + 2.0
-                        * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * s_j.dir[0]
-                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * s_j.dir[2]
-                            + match index {
-                                _ if index == 0 => 0.0,
+                * (match in_j {
+                    true => s_j.dir[2],
+                    false => 0.0,
+                } + 2.0
+                        * (match in_j {
+                            true => (j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * s_j.dir[0]
+                                - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * s_j.dir[2],
+                            false => 0.0,
+                        }
+                            + match in_jm1 {
+                                false => 0.0,
                                 _ => {
                                     (j_jm1[2] * s_j.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
                                         - (j_jm1[0] * s_j.dir[0] + j_jm2[0] * s_jm2.dir[0])
                                             * s_jm1.dir[2]
                                 }
                             }
-                            + match index {
-                                _ if index == (self.vars.ssize - 1) as usize => 0.0,
+                            + match in_jp1 {
+                                false => 0.0,
                                 _ => {
                                     (j_jp1[2] * s_jp2.dir[2] + j_j[2] * s_j.dir[2]) * s_jp1.dir[0]
                                         - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * s_j.dir[0])
@@ -1035,14 +1044,21 @@ impl SpinChain {
                 s_jm1.dir[k] * j_jm1[k] * new_spin.dir[k] + new_spin.dir[k] * j_j[k] * s_jp1.dir[k];
         }
 
-        if index < self.vars.ssize as usize {
+        if in_j || in_jm1 || in_jp1 {
             de -= PI / self.vars.tau
-                * (s_j.dir[2]
-                    + 2.0
-                        * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * new_spin.dir[0]
-                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * new_spin.dir[2]
-                            + match index {
-                                _ if index == 0 => 0.0,
+                * (match in_j {
+                    true => new_spin.dir[2],
+                    false => 0.0,
+                } + 2.0
+                        * (match in_j {
+                            true => (j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2])
+                                * new_spin.dir[0]
+                                - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0])
+                                    * new_spin.dir[2],
+                            false => 0.0,
+                        }
+                            + match in_jm1 {
+                                false => 0.0,
                                 _ => {
                                     (j_jm1[2] * new_spin.dir[2] + j_jm2[2] * s_jm2.dir[2])
                                         * s_jm1.dir[0]
@@ -1050,8 +1066,8 @@ impl SpinChain {
                                             * s_jm1.dir[2]
                                 }
                             }
-                            + match index {
-                                _ if index == (self.vars.ssize - 1) as usize => 0.0,
+                            + match in_jp1 {
+                                false => 0.0,
                                 _ => {
                                     (j_jp1[2] * s_jp2.dir[2] + j_j[2] * new_spin.dir[2])
                                         * s_jp1.dir[0]
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index 365acf0..730c28a 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -333,23 +333,32 @@ impl SpinChainLangevin {
 
         //-(1)/(2 \omega) (  S^z + 2y . (J_j S_{j+1} + J_{j-1} S_{j-1}) x S_j )
         // Because j-1->j->j+1, flipping j effects *three* terms in the energy
-        // But only if the field is non-zero at site j
-        if index < self.vars.ssize as usize {
+        // But only if the field is non-zero at site j, so each of the three terms is present
+        // if and only if the site it belongs to is in the subsystem
+        let in_j: bool = index < self.vars.ssize as usize;
+        let in_jm1: bool = (index + s - 1) % s < self.vars.ssize as usize;
+        let in_jp1: bool = (index + 1) % s < self.vars.ssize as usize;
+        if in_j || in_jm1 || in_jp1 {
             ei -= PI / self.vars.tau
-                * (s_j.dir[2]
-                    + 2.0
-                        * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * s_j.dir[0]
-                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * s_j.dir[2]
-                            + match index {
-                                _ if index == 0 => 0.0,
+                * (match in_j {
+                    true => s_j.dir[2],
+                    false => 0.0,
+                } + 2.0
+                        * (match in_j {
+                            true => (j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * s_j.dir[0]
+                                - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * s_j.dir[2],
+                            false => 0.0,
+                        }
+                            + match in_jm1 {
+                                false => 0.0,
                                 _ => {
                                     (j_jm1[2] * s_j.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
                                         - (j_jm1[0] * s_j.dir[0] + j_jm2[0] * s_jm2.dir[0])
                                             * s_jm1.dir[2]
                                 }
                             }
-                            + match index {
-                                _ if index == (self.vars.ssize - 1) as usize => 0.0,
+                            + match in_jp1 {
+                                false => 0.0,
                                 _ => {
                                     (j_jp1[2] * s_jp2.dir[2] + j_j[2] * s_j.dir[2]) * s_jp1.dir[0]
                                         - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * s_j.dir[0])
@@ -370,14 +379,21 @@ impl SpinChainLangevin {
                 s_jm1.dir[k] * j_jm1[k] * new_spin.dir[k] + new_spin.dir[k] * j_j[k] * s_jp1.dir[k];
         }
 
-        if index < self.vars.ssize as usize {
+        if in_j || in_jm1 || in_jp1 {
             de -= PI / self.vars.tau
-                * (s_j.dir[2]
-                    + 2.0
-                        * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * new_spin.dir[0]
-                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * new_spin.dir[2]
-                            + match index {
-                                _ if index == 0 => 0.0,
+                * (match in_j {
+                    true => new_spin.dir[2],
+                    false => 0.0,
+                } + 2.0
+                        * (match in_j {
+                            true => (j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2])
+                                * new_spin.dir[0]
+                                - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0])
+                                    * new_spin.dir[2],
+                            false => 0.0,
+                        }
+                            + match in_jm1 {
+                                false => 0.0,
                                 _ => {
                                     (j_jm1[2] * new_spin.dir[2] + j_jm2[2] * s_jm2.dir[2])
                                         * s_jm1.dir[0]
@@ -385,8 +401,8 @@ impl SpinChainLangevin {
                                             * s_jm1.dir[2]
                                 }
                             }
-                            + match index {
-                                _ if index == (self.vars.ssize - 1) as usize => 0.0,
+                            + match in_jp1 {
+                                false => 0.0,
                                 _ => {
                                     (j_jp1[2] * s_jp2.dir[2] + j_j[2] * new_spin.dir[2])
                                         * s_jp1.dir[0]
-- 
2.43.0


From 24b8c58168e1b8e13658b095cf7c6d898668c3ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:50 +0000
Subject: [PATCH 05/19] fix: second-order Magnus Monte Carlo update uses the
 right neighbour in the translated double commutator

---
 src/spinchain.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index a4e1e00..dcf0e38 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -610,7 +610,7 @@ impl SpinChain {
                     + s_jp1.dir[2] * (j_j[2] * s_j.dir[2] + j_jp1[2] * s_jp2.dir[2]));
             ei2 -= s_jp1.dir[0]
                 * ((j_j[0] * s_j.dir[0] + j_jp1[0] * s_jp2.dir[0])
-                    * (j_jm2[0] * s_jm2.dir[0] + j_jp1[0] * s_jp2.dir[0])
+                    * (j_j[0] * s_j.dir[0] + j_jp1[0] * s_jp2.dir[0])
                     + (j_j[1] * s_j.dir[1] + j_jp1[1] * s_jp2.dir[1])
                         * (j_j[1] * s_j.dir[1] + j_jp1[1] * s_jp2.dir[1])
                     + (j_j[2] * s_j.dir[2] + j_jp1[2] * s_jp2.dir[2])
@@ -791,7 +791,7 @@ impl SpinChain {
                     + s_jp1.dir[2] * (j_j[2] * new_spin.dir[2] + j_jp1[2] * s_jp2.dir[2]));
             de2 -= s_jp1.dir[0]
                 * ((j_j[0] * new_spin.dir[0] + j_jp1[0] * s_jp2.dir[0])
-                    * (j_jm2[0] * s_jm2.dir[0] + j_jp1[0] * s_jp2.dir[0])
+                    * (j_j[0] * new_spin.dir[0] + j_jp1[0] * s_jp2.dir[0])
                     + (j_j[1] * new_spin.dir[1] + j_jp1[1] * s_jp2.dir[1])
                         * (j_j[1] * new_spin.dir[1] + j_jp1[1] * s_jp2.dir[1])
                     + (j_j[2] * new_spin.dir[2] + j_jp1[2] * s_jp2.dir[2])
-- 
2.43.0


From 7a1467985a80685e1b50aacaec3174996a43e7dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:34 +0000
Subject: [PATCH 06/19] fix: lab-frame energy leaves out the rotating-frame
 term which the lab-frame Monte Carlo update does not weigh

---
 src/spinchain.rs | 58 ------------------------------------------------
 1 file changed, 58 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index dcf0e38..6e5174c 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -1512,64 +1512,6 @@ impl SpinChain {
             e += -self.spins[i].dir[2] / (2.0 * om);
         }
 
-        let mut mg: f64 = 0.0;
-        // Now for correction term
-        for index in 0..h {
-            let s_c: &Spin = &self.spins[index];
-            let s_l: &Spin = match index {
-                _ if index == 0 => &self.spins[h - 1],
-                _ => &self.spins[index - 1],
-            };
-            let s_ll: &Spin = match index {
-                _ if index == 0 => &self.spins[h - 2],
-                _ if index == 1 => &self.spins[h - 1],
-                _ => &self.spins[index - 2],
-            };
-
-            let s_r: &Spin = match index {
-                _ if index == h - 1 => &self.spins[0],
-                _ => &self.spins[index + 1],
-            };
-
-            let s_rr: &Spin = match index {
-                _ if index == h - 2 => &self.spins[0],
-                _ if index == h - 1 => &self.spins[1],
-                _ => &self.spins[index + 2],
-            };
-
-            let j_l: &[f64; 3] = match index {
-                _ if index == 0 => &self.j_couple[h - 1],
-                _ => &self.j_couple[index - 1],
-            };
-            let j_ll: &[f64; 3] = match index {
-                _ if index == 0 => &self.j_couple[h - 2],
-                _ if index == 1 => &self.j_couple[h - 1],
-                _ => &self.j_couple[index - 2],
-            };
-
-            let j_r: &[f64; 3] = &self.j_couple[index];
-            let j_rr: &[f64; 3] = match index {
-                _ if index == h - 1 => &self.j_couple[0],
-                _ => &self.j_couple[index + 1],
-            };
-
-            mg += (j_r[1] - j_r[0]) * (j_r[1] - j_r[0]) * SpinChain::zxi_trip(s_c, s_c, s_r);
-            mg += (j_r[1] - j_r[0]) * (j_r[1] - j_r[0]) * SpinChain::zxi_trip(s_r, s_r, s_c);
-            mg += (j_l[1] - j_l[0]) * (j_l[1] - j_l[0]) * SpinChain::zxi_trip(s_l, s_l, s_c);
-            mg += (j_l[1] - j_l[0]) * (j_l[1] - j_l[0]) * SpinChain::zxi_trip(s_c, s_c, s_l);
-            mg += (j_l[1] - j_l[0])
-                * (j_r[1] - j_r[0])
-                * (SpinChain::zxi_trip(s_r, s_l, s_c) + SpinChain::zxi_trip(s_l, s_r, s_c));
-            mg += (j_ll[1] - j_ll[0])
-                * (j_l[1] - j_l[0])
-                * (SpinChain::zxi_trip(s_c, s_ll, s_l) + SpinChain::zxi_trip(s_ll, s_c, s_l));
-            mg += (j_r[1] - j_r[0])
-                * (j_rr[1] - j_rr[0])
-                * (SpinChain::zxi_trip(s_rr, s_c, s_r) + SpinChain::zxi_trip(s_c, s_rr, s_r));
-        }
-
-        e -= mg / (16.0 * om);
-
         e / (h as f64)
     }
 
-- 
2.43.0


From e8612e3c7846861e5cf9a85241e557c851366b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:27 +0000
Subject: [PATCH 07/19] fix: keep the cosine of the initial rotation angle
 within [-1,1]

Rounding can take ln(..)/beta just outside the domain of acos; one NaN angle
then makes every following spin of a new chain NaN.
---
 src/spinchain.rs          | 6 ++++--
 src/spinchain_langevin.rs | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index 6e5174c..11a68b4 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -152,8 +152,10 @@ impl SpinChain {
 
                 // Inverse transform sample \theta from the distribution P(\theta) =  \sin \theta e^{\beta\cos\theta}
 
-                let rot_angle: f64 =
-                    ((b_e - unif.sample(&mut r) * (b_e - b_ei)).ln() / beta_eff).acos();
+                // Rounding can take the cosine just outside [-1,1], where acos is NaN
+                let rot_angle: f64 = ((b_e - unif.sample(&mut r) * (b_e - b_ei)).ln() / beta_eff)
+                    .clamp(-1.0, 1.0)
+                    .acos();
 
                 // Rotate by \theta about random direction
                 let n: [f64; 2] = Spin::rot_perp(&[theta, phi], &rot_dir, rot_angle);
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index 730c28a..b01c7ab 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -143,8 +143,10 @@ impl SpinChainLangevin {
 
                 // Inverse transform sample \theta from the distribution P(\theta) =  \sin \theta e^{\beta\cos\theta}
 
-                let rot_angle: f64 =
-                    ((b_e - unif.sample(&mut r) * (b_e - b_ei)).ln() / beta_eff).acos();
+                // Rounding can take the cosine just outside [-1,1], where acos is NaN
+                let rot_angle: f64 = ((b_e - unif.sample(&mut r) * (b_e - b_ei)).ln() / beta_eff)
+                    .clamp(-1.0, 1.0)
+                    .acos();
 
                 // Rotate by \theta about random direction
                 let n: [f64; 2] = Spin::rot_perp(&[theta, phi], &rot_dir, rot_angle);
-- 
2.43.0


From 0809e247eefc5c7c4337d00fdc8d9ef6027f0ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:34 +0000
Subject: [PATCH 08/19] fix: stroboscopic logging counts steps by rounding, so
 that rounding errors and negative times do not shift it

---
 src/obs.rs | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index f5c3cdc..5bb0ddd 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -906,7 +906,7 @@ pub fn run_langevin(conf: &mut Config, gamma: f64) {
             }
             pb.reset_eta();
             //Round is necessary!
-            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt).round() as u64;
+            let tau_steps: i64 = (spin_chain.vars.tau / spin_chain.vars.dt).round() as i64;
 
             spin_chain.log();
 
@@ -914,7 +914,9 @@ pub fn run_langevin(conf: &mut Config, gamma: f64) {
                 spin_chain.update();
 
                 if spin_chain.vars.strob {
-                    if ((spin_chain.t / spin_chain.vars.dt) as u64).rem_euclid(tau_steps) == 0 {
+                    if ((spin_chain.t / spin_chain.vars.dt).round() as i64).rem_euclid(tau_steps)
+                        == 0
+                    {
                         spin_chain.log();
                     }
                 } else {
@@ -971,7 +973,7 @@ pub fn run_sim_response(conf: &mut Config) {
                 spin_chain.metropolis_update();
             }
             pb.reset_eta();
-            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt) as u64;
+            let tau_steps: i64 = (spin_chain.vars.tau / spin_chain.vars.dt).round() as i64;
 
             spin_chain.log();
             spin_chain.t = -spin_chain.vars.t;
@@ -984,7 +986,8 @@ pub fn run_sim_response(conf: &mut Config) {
                 }
 
                 if spin_chain.vars.strob {
-                    if ((spin_chain.t.abs() / spin_chain.vars.dt) as u64).rem_euclid(tau_steps) == 0
+                    if ((spin_chain.t / spin_chain.vars.dt).round() as i64).rem_euclid(tau_steps)
+                        == 0
                     {
                         spin_chain.log();
                     }
@@ -1042,7 +1045,7 @@ pub fn run_sim(conf: &mut Config) {
                 spin_chain.metropolis_update();
             }
             pb.reset_eta();
-            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt) as u64;
+            let tau_steps: i64 = (spin_chain.vars.tau / spin_chain.vars.dt).round() as i64;
 
             spin_chain.log();
 
@@ -1050,7 +1053,9 @@ pub fn run_sim(conf: &mut Config) {
                 spin_chain.update();
 
                 if spin_chain.vars.strob {
-                    if ((spin_chain.t / spin_chain.vars.dt) as u64).rem_euclid(tau_steps) == 0 {
+                    if ((spin_chain.t / spin_chain.vars.dt).round() as i64).rem_euclid(tau_steps)
+                        == 0
+                    {
                         spin_chain.log();
                     }
                 } else {
@@ -1290,7 +1295,7 @@ pub fn run_ext(conf: &mut Config) {
                 spin_chain.metropolis_update();
             }
             pb.reset_eta();
-            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt) as u64;
+            let tau_steps: i64 = (spin_chain.vars.tau / spin_chain.vars.dt).round() as i64;
 
             spin_chain.log();
 
@@ -1298,7 +1303,9 @@ pub fn run_ext(conf: &mut Config) {
                 spin_chain.update();
 
                 if spin_chain.vars.strob {
-                    if ((spin_chain.t / spin_chain.vars.dt) as u64).rem_euclid(tau_steps) == 0 {
+                    if ((spin_chain.t / spin_chain.vars.dt).round() as i64).rem_euclid(tau_steps)
+                        == 0
+                    {
                         spin_chain.log_ext();
                     }
                 } else {
-- 
2.43.0


From a053afb1b1e2a8b7b522ff971aa16c40c1dc01a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:31 +0000
Subject: [PATCH 09/19] fix: wait for the background writer, so that no sample
 is lost when a Monte Carlo run ends

---
 src/obs.rs     | 20 ++++++++++++++++----
 src/writers.rs |  6 ++++--
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index 5bb0ddd..936bc11 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -611,7 +611,7 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
         .unwrap();
 
     let (tx, rx) = mpsc::channel();
-    write_in_bg(dyn_hist, rx);
+    let writing_thread = write_in_bg(dyn_hist, rx);
     let m = MultiProgress::new();
     let sty = ProgressStyle::default_bar()
         .template(
@@ -668,6 +668,9 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
         });
     }
     m.join().unwrap();
+    // Wait until every line has been written
+    drop(tx);
+    writing_thread.join().unwrap();
 }
 
 ///Generate ```sample_num``` samples via Monte Carlo and dynamical evolution to check that the
@@ -813,7 +816,7 @@ pub fn run_tau(taus: Vec<f64>, steps: u32, conf: &mut Config) {
         .open(evt_string)
         .unwrap();
 
-    write_in_bg(evt_file, rx);
+    let writing_thread = write_in_bg(evt_file, rx);
 
     println!("Energy density: {}", conf.ednsty);
     println!("Effective temperature: {}", conf.beta);
@@ -873,6 +876,9 @@ pub fn run_tau(taus: Vec<f64>, steps: u32, conf: &mut Config) {
     }
 
     m.join().unwrap();
+    // Wait until every line has been written
+    drop(tx);
+    writing_thread.join().unwrap();
 }
 
 pub fn run_langevin(conf: &mut Config, gamma: f64) {
@@ -1531,7 +1537,7 @@ pub fn run_mc_magnus(conf: &mut Config) {
     let (tx, rx) = mpsc::channel();
 
     let points: usize = conf.mc_points;
-    write_in_bg(file, rx);
+    let writing_thread = write_in_bg(file, rx);
 
     // Create storage for the points
     /*
@@ -1605,6 +1611,9 @@ pub fn run_mc_magnus(conf: &mut Config) {
         });
     }
     m.join().unwrap();
+    // Wait until every line has been written
+    drop(tx);
+    writing_thread.join().unwrap();
 }
 
 pub fn run_mc_profile(conf: &mut Config) {
@@ -1722,7 +1731,7 @@ pub fn run_mc(conf: &mut Config) {
     let (tx, rx) = mpsc::channel();
 
     let points: usize = conf.mc_points;
-    write_in_bg(file, rx);
+    let writing_thread = write_in_bg(file, rx);
 
     // Create storage for the points
     /*
@@ -1796,4 +1805,7 @@ pub fn run_mc(conf: &mut Config) {
         });
     }
     m.join().unwrap();
+    // Wait until every line has been written
+    drop(tx);
+    writing_thread.join().unwrap();
 }
diff --git a/src/writers.rs b/src/writers.rs
index 23386a0..d88dd35 100644
--- a/src/writers.rs
+++ b/src/writers.rs
@@ -1,11 +1,13 @@
 use super::*;
 
-pub fn write_in_bg(file: File, rx: std::sync::mpsc::Receiver<String>) {
+/// Writes every line received to ```file``` until all senders are gone; join the returned thread
+/// to be sure that every line has been written
+pub fn write_in_bg(file: File, rx: std::sync::mpsc::Receiver<String>) -> thread::JoinHandle<()> {
     thread::spawn(move || {
         for received in rx {
             writeln!(&file, "{}", &received).unwrap();
         }
-    });
+    })
 }
 
 pub fn profile_in_bg(
-- 
2.43.0


From a9a3c66161f86466ebb2702a131b5a2d0ad9fdf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:03 +0000
Subject: [PATCH 10/19] fix: histograms and mean-energy trajectories count
 steps by rounding, so that rounding errors do not shift or add samples

---
 src/obs.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index 936bc11..176aa90 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -491,8 +491,8 @@ pub fn trajectory_mean_e(conf: &mut Config) -> f64 {
     for i in 0..((conf.runs) as usize) {
         let txc = mpsc::Sender::clone(&tx);
         let pb = m.add(ProgressBar::new((1000.0 * conf.tau) as u64));
-        let steps: usize = (1000.0 * conf.tau / conf.dt) as usize;
-        let steps_in_cycle: usize = (conf.tau / conf.dt) as usize;
+        let steps: usize = (1000.0 * conf.tau / conf.dt).round() as usize;
+        let steps_in_cycle: usize = (conf.tau / conf.dt).round() as usize;
         pb.set_style(sty.clone());
 
         let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
@@ -566,15 +566,15 @@ pub fn gen_single_traj(conf: &mut Config, sample_num: usize) {
     //    sc.metropolis_update();
     //}
 
-    let init_steps = (offset * conf.tau / conf.dt) as usize;
-    let steps = (final_t / conf.dt) as usize;
+    let init_steps = (offset * conf.tau / conf.dt).round() as usize;
+    let steps = (final_t / conf.dt).round() as usize;
     println!(
         "Generating dynamics histogram for {} steps i.e. t={}",
         steps,
         (steps as f64) * conf.dt
     );
     let mut step_count: u64 = 0;
-    let cycle_steps: u64 = (conf.tau / conf.dt) as u64;
+    let cycle_steps: u64 = (conf.tau / conf.dt).round() as u64;
 
     println!("Sample num: {}", sample_num);
     for _ in 0..init_steps {
@@ -582,7 +582,7 @@ pub fn gen_single_traj(conf: &mut Config, sample_num: usize) {
         pb.set_position(sc.t as u64);
         step_count += 1;
     }
-    while sc.t < final_t {
+    for _ in init_steps..steps {
         sc.update();
         step_count += 1;
 
@@ -619,7 +619,7 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
         )
         .progress_chars("#>-");
 
-    let steps = (conf.t / conf.dt) as usize;
+    let steps = (conf.t / conf.dt).round() as usize;
     println!(
         "Generating dynamics histogram for {} steps i.e. t={}",
         steps,
-- 
2.43.0


From bd23dff534e951e02a18247152fb0073489f7968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:55 +0000
Subject: [PATCH 11/19] fix: --config-desc prints the description of the
 configuration instead of an empty text

---
 src/config-desc.toml | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/config-desc.toml b/src/config-desc.toml
index e69de29..2d9e966 100644
--- a/src/config-desc.toml
+++ b/src/config-desc.toml
@@ -0,0 +1,22 @@
+# Default config and description of options
+hsize = 512    # size of the system
+ssize = 8      # size of subsystem (driven part)
+t = 256        # final time of simulation
+dt = 0.02      # time-step for simulation
+runs = 2       # number runs to perform
+threads = 2    # number of parallel threads
+trel = 0       # minus initial time
+tau = 10       # period of drive
+lambda = 1     # value of J_z coupling
+hfield = [0.0, 0.0, 0.0] # constant h field on entire system
+hs = [0.0, 0.0, 0.0]     # constant h field on subsystem
+jvar = 0.001   # variance in J couplings (x, y, z independent)
+hvar = 0       # variance in field
+method = 2     # method for numerical integration (2=2nd order Suzuki-Trotter)
+ednsty = -0.66 # energy-density of initial state
+file = "log"   # pattern for log files i.e. log0.dat, log1.dat
+strob = false  # stroboscopic evaluation
+offset = 0     # first file i.e. log0.dat
+beta = 2.88    # beta (determined from ednsty)
+e = 0.9    # eccentricity (scale of y-drive if drive="xyelliptic")
+drive = "xyplane" # type of driving, can be "xyplane", "uniaxial", "xyelliptic"
-- 
2.43.0


From 7e498d44c89f5d87bc795462fb41688bbd16c3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:55 +0000
Subject: [PATCH 12/19] fix: -b overrides beta for every command, not only for
 those after the energy is solved for

---
 src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 66cfb01..61be67c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -146,6 +146,9 @@ fn main() {
     if let Some(tau) = args.tau {
         conf.tau = tau;
     }
+    if let Some(beta) = args.beta {
+        conf.beta = beta;
+    }
 
     match args.config_desc {
         false => {}
-- 
2.43.0


From 780da007a4b5a168f4c903b0383589a6778a1a4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:55 +0000
Subject: [PATCH 13/19] fix: --n-steps takes its periods separated by commas,
 as documented

---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 61be67c..d83e291 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -77,7 +77,12 @@ struct Args {
     config_desc: bool,
 
     ///Generate single-shot time-evolution at different drive periods tau
-    #[clap(long = "n-steps", short, value_name = "TAU1,TAU2,...")]
+    #[clap(
+        long = "n-steps",
+        short,
+        value_delimiter = ',',
+        value_name = "TAU1,TAU2,..."
+    )]
     n_steps_taus: Option<Vec<f64>>,
 
     ///Find adiabatic ensemble H-\\omega S^z
-- 
2.43.0


From 383c32be5866aec9fa1526cd473a2c10a683b877 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:55 +0000
Subject: [PATCH 14/19] fix: --magnus-fit accepts negative energy densities

---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index d83e291..5b5b1d7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -107,7 +107,12 @@ struct Args {
     ext: bool,
 
     /// Fit temperature of Monte-Carlo ensemble with energy density E in lab frame, leading Magnus
-    #[clap(short = 'E', long = "magnus-fit", value_name = "E")]
+    #[clap(
+        short = 'E',
+        long = "magnus-fit",
+        value_name = "E",
+        allow_hyphen_values = true
+    )]
     maglab: Option<f64>, //E
 
     //Set step limit when doing n-steps
-- 
2.43.0


From cce0ccbbc944f71e5d6883bab4c76136c1e2ce31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:13 +0000
Subject: [PATCH 15/19] fix: README names the configuration key drive as it is
 read

---
 README.md | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/README.md b/README.md
index ca56b7c..e07d48c 100644
--- a/README.md
+++ b/README.md
@@ -91,8 +91,8 @@ file = "log"   # pattern for log files i.e. log0.dat, log1.dat
 strob = false  # stroboscopic evaluation
 offset = 0     # first file i.e. log0.dat
 beta = 2.88    # beta (determined from ednsty)
-e = 0.9    # eccentricity (scale of y-drive if drivetype="xyelliptic")
-drivetype = "xyplane" # type of driving, can be "xyplane", "uniaxial", "xyelliptic" 
+e = 0.9    # eccentricity (scale of y-drive if drive="xyelliptic")
+drive = "xyplane" # type of driving, can be "xyplane", "uniaxial", "xyelliptic" 
 
 ```
 
-- 
2.43.0


From 2e9cd05d96e77aed21e4ad5964e40559f12e7638 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:55:45 +0000
Subject: [PATCH 16/19] fix: averages keep the first data line of logs that
 have no heading

---
 src/obs.rs | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index 176aa90..5a15203 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -1336,6 +1336,14 @@ pub fn run_ext(conf: &mut Config) {
     println!("Finished {} runs", num);
 }
 
+/// Lines of a log file without the heading, which only the logs of Langevin runs have
+fn data_lines(reader: BufReader<File>) -> impl Iterator<Item = String> {
+    reader
+        .lines()
+        .map(|line| line.unwrap())
+        .filter(|line| !line.starts_with('#'))
+}
+
 pub fn two_point_average(conf: &mut Config) {
     println!("Calculating two-point-average");
 
@@ -1375,8 +1383,7 @@ pub fn two_point_average(conf: &mut Config) {
 
                     // First get the data at line 0
                     let reader = BufReader::new(file);
-                    for line in reader.lines().skip(1) {
-                        let line = line.unwrap();
+                    for line in data_lines(reader) {
                         let line_data: Vec<f64> = line
                             .split(' ')
                             .flat_map(str::parse::<f64>)
@@ -1392,10 +1399,7 @@ pub fn two_point_average(conf: &mut Config) {
                 let reader = BufReader::new(file);
 
                 //Run through line-by-line
-                //Skip first line
-                for (i, line) in reader.lines().skip(1).enumerate() {
-                    let line = line.unwrap();
-
+                for (i, line) in data_lines(reader).enumerate() {
                     // Read line into appropriate vector
 
                     let mut line_data: Vec<f64> = line
@@ -1473,10 +1477,7 @@ pub fn average(conf: &mut Config) {
                 let reader = BufReader::new(file);
 
                 //Run through line-by-line
-                //Skip first line
-                for (i, line) in reader.lines().skip(1).enumerate() {
-                    let line = line.unwrap();
-
+                for (i, line) in data_lines(reader).enumerate() {
                     //                    println!("Line {}: {}", i, &line);
                     // Read line into appropriate vector
 
-- 
2.43.0


From f866f9c7f5860df65c3eef62b88056b4c07929f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:17:15 +0000
Subject: [PATCH 17/19] fix: initial spins of very cold chains and at infinite
 temperature

exp(beta) overflows for beta > 709 (an energy density close to the ground
state gives such a beta) and beta = 0 divides by zero; both made every
initial spin NaN, and no update ever recovers from that.
---
 src/spinchain.rs          | 15 ++++++++++-----
 src/spinchain_langevin.rs | 15 ++++++++++-----
 2 files changed, 20 insertions(+), 10 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index 11a68b4..c6753df 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -129,8 +129,8 @@ impl SpinChain {
         //Draw from distribution with particular energy density
         //        let spins: Vec<Spin> = (0..conf.hsize).map(|x| Spin::new()).collect();
         let beta_eff: f64 = conf.beta;
-        let b_e: f64 = beta_eff.exp();
-        let b_ei: f64 = 1.0 / (b_e);
+        // e^{-2\beta} - 1, as e^\beta overflows for a cold chain
+        let b_m: f64 = (-2.0 * beta_eff).exp_m1();
 
         let pi = std::f64::consts::PI;
         let mut theta: f64 = 0.01;
@@ -152,10 +152,15 @@ impl SpinChain {
 
                 // Inverse transform sample \theta from the distribution P(\theta) =  \sin \theta e^{\beta\cos\theta}
 
+                let u: f64 = unif.sample(&mut r);
+                let cos_angle: f64 = match beta_eff {
+                    // Uniform at infinite temperature
+                    _ if beta_eff == 0.0 => 1.0 - 2.0 * u,
+                    _ => 1.0 + (u * b_m).ln_1p() / beta_eff,
+                };
+
                 // Rounding can take the cosine just outside [-1,1], where acos is NaN
-                let rot_angle: f64 = ((b_e - unif.sample(&mut r) * (b_e - b_ei)).ln() / beta_eff)
-                    .clamp(-1.0, 1.0)
-                    .acos();
+                let rot_angle: f64 = cos_angle.clamp(-1.0, 1.0).acos();
 
                 // Rotate by \theta about random direction
                 let n: [f64; 2] = Spin::rot_perp(&[theta, phi], &rot_dir, rot_angle);
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index b01c7ab..8efa16a 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -120,8 +120,8 @@ impl SpinChainLangevin {
         //Draw from distribution with particular energy density
         //        let spins: Vec<Spin> = (0..conf.hsize).map(|x| Spin::new()).collect();
         let beta_eff: f64 = conf.beta;
-        let b_e: f64 = beta_eff.exp();
-        let b_ei: f64 = 1.0 / (b_e);
+        // e^{-2\beta} - 1, as e^\beta overflows for a cold chain
+        let b_m: f64 = (-2.0 * beta_eff).exp_m1();
 
         let pi = std::f64::consts::PI;
         let mut theta: f64 = 0.01;
@@ -143,10 +143,15 @@ impl SpinChainLangevin {
 
                 // Inverse transform sample \theta from the distribution P(\theta) =  \sin \theta e^{\beta\cos\theta}
 
+                let u: f64 = unif.sample(&mut r);
+                let cos_angle: f64 = match beta_eff {
+                    // Uniform at infinite temperature
+                    _ if beta_eff == 0.0 => 1.0 - 2.0 * u,
+                    _ => 1.0 + (u * b_m).ln_1p() / beta_eff,
+                };
+
                 // Rounding can take the cosine just outside [-1,1], where acos is NaN
-                let rot_angle: f64 = ((b_e - unif.sample(&mut r) * (b_e - b_ei)).ln() / beta_eff)
-                    .clamp(-1.0, 1.0)
-                    .acos();
+                let rot_angle: f64 = cos_angle.clamp(-1.0, 1.0).acos();
 
                 // Rotate by \theta about random direction
                 let n: [f64; 2] = Spin::rot_perp(&[theta, phi], &rot_dir, rot_angle);
-- 
2.43.0


From 57f3fa214bd33177c4baa551d245d66738befe05 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 06:28:43 +0000
Subject: [PATCH 18/19] fix: sampling and fitting commands make no logs

Every chain is made with a log by default, and making one empties the log
of that number: fitting a temperature or sampling in the directory of a
time run emptied its log0.dat, ...
---
 src/obs.rs | 42 +++++++++++++++++++++++++-----------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index 5a15203..a67d96a 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -1,7 +1,15 @@
 use super::*;
 
+/// A chain to take samples from: it keeps no log, as creating one would empty the log of the time
+/// run with the same number
+fn sampling_chain(conf: &Config, num: usize) -> SpinChain {
+    let mut conf = conf.clone();
+    conf.log = false;
+    SpinChain::new(conf, num)
+}
+
 pub fn estim_e(conf: &mut Config, beta: f64) -> f64 {
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf, 0);
 
     sc.vars.beta = beta;
     let samples: usize = 1000;
@@ -20,7 +28,7 @@ pub fn estim_e(conf: &mut Config, beta: f64) -> f64 {
 }
 
 pub fn estim_e_maglab(conf: &mut Config, beta: f64) -> f64 {
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf, 0);
 
     sc.vars.beta = beta;
     let samples: usize = 1000;
@@ -39,7 +47,7 @@ pub fn estim_e_maglab(conf: &mut Config, beta: f64) -> f64 {
 }
 
 pub fn estim_e_rot(conf: &mut Config, beta: f64) -> f64 {
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf, 0);
 
     sc.vars.beta = beta;
     let samples: usize = 1000;
@@ -57,7 +65,7 @@ pub fn estim_e_rot(conf: &mut Config, beta: f64) -> f64 {
     e_samples.iter().fold(0.0, |acc, x| acc + x) / (samples as f64)
 }
 pub fn estim_e2(conf: &mut Config, beta: f64) -> f64 {
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf, 0);
     //    println!("Field: {:?}", sc.static_h);
 
     //let omega: f64 = 2.0 * PI / conf.tau;
@@ -78,7 +86,7 @@ pub fn estim_e2(conf: &mut Config, beta: f64) -> f64 {
 }
 pub fn estim_eh(conf: &mut Config, beta: f64) -> f64 {
     // let omega: f64 = 2.0 * PI / conf.tau;
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf, 0);
     //    println!("Field: {:?}", sc.static_h);
 
     //let omega: f64 = 2.0 * PI / conf.tau;
@@ -281,7 +289,7 @@ pub fn get_obs_maglab(conf: &mut Config) -> [f64; 4] {
     //
     conf.ssize = conf.hsize;
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf, 0);
 
     let samples: usize = 8000;
     let mut e_samples: Vec<f64> = vec![0.0; samples];
@@ -315,7 +323,7 @@ pub fn get_obs_rot(conf: &mut Config) -> [f64; 4] {
     //
     conf.ssize = conf.hsize;
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf, 0);
 
     let samples: usize = 8000;
     let mut e_samples: Vec<f64> = vec![0.0; samples];
@@ -348,7 +356,7 @@ pub fn get_obsh(conf: &mut Config) -> [f64; 4] {
     conf.ssize = conf.hsize;
     //    println!("Target? {}", estim_e(conf,2.88));
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf, 0);
 
     let samples: usize = 8000;
     let mut e_samples: Vec<f64> = vec![0.0; samples];
@@ -379,7 +387,7 @@ pub fn get_obs(conf: &mut Config) -> [f64; 4] {
     conf.ssize = conf.hsize;
     //    println!("Target? {}", estim_e(conf,2.88));
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf, 0);
 
     let samples: usize = 8000;
     let mut e_samples: Vec<f64> = vec![0.0; samples];
@@ -412,7 +420,7 @@ pub fn get_obs(conf: &mut Config) -> [f64; 4] {
 pub fn gen_hist_magnus(conf: &mut Config, sample_num: usize) {
     conf.drive = DriveType::none;
     conf.file = "x".to_string();
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf, 0);
     let s: f64 = sc.vars.ssize as f64;
 
     let mc_hist = OpenOptions::new()
@@ -495,7 +503,7 @@ pub fn trajectory_mean_e(conf: &mut Config) -> f64 {
         let steps_in_cycle: usize = (conf.tau / conf.dt).round() as usize;
         pb.set_style(sty.clone());
 
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+        let mut sc: SpinChain = sampling_chain(conf, 0);
 
         pool.execute(move || {
             pb.set_message(format!("run {}", i));
@@ -551,7 +559,7 @@ pub fn gen_single_traj(conf: &mut Config, sample_num: usize) {
     //Then sample every 10 cycles?
     let offset: f64 = 30.0;
     let final_t: f64 = (sample_num as f64 + offset) * conf.tau;
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf, 0);
 
     let pb = ProgressBar::new(final_t as u64);
     let sty = ProgressStyle::default_bar()
@@ -641,7 +649,7 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
         let pb = m.add(ProgressBar::new(conf.t as u64));
         pb.set_style(sty.clone());
 
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+        let mut sc: SpinChain = sampling_chain(conf, 0);
         //        sc.file = f.try_clone().unwrap();
 
         pool.execute(move || {
@@ -679,7 +687,7 @@ pub fn gen_hist(conf: &mut Config, sample_num: usize) {
     conf.drive = DriveType::none;
     conf.file = "x".to_string();
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = sampling_chain(conf, 0);
 
     let mc_hist = OpenOptions::new()
         .create(true)
@@ -1566,7 +1574,7 @@ pub fn run_mc_magnus(conf: &mut Config) {
     let t_points: u32 = (points / threads) as u32;
 
     for i in 0..threads {
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), i);
+        let mut sc: SpinChain = sampling_chain(conf, i);
         let txc = mpsc::Sender::clone(&tx);
 
         //Make up points in last thread if not divisble
@@ -1658,7 +1666,7 @@ pub fn run_mc_profile(conf: &mut Config) {
     let t_points: u32 = (points / threads) as u32;
 
     for i in 0..threads {
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), i);
+        let mut sc: SpinChain = sampling_chain(conf, i);
         let txc = mpsc::Sender::clone(&tx);
 
         //Make up points in last thread if not divisble
@@ -1760,7 +1768,7 @@ pub fn run_mc(conf: &mut Config) {
     let t_points: u32 = (points / threads) as u32;
 
     for i in 0..threads {
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), i);
+        let mut sc: SpinChain = sampling_chain(conf, i);
         let txc = mpsc::Sender::clone(&tx);
 
         //Make up points in last thread if not divisble
-- 
2.43.0


From 07876540a85892797b0ba89388e792582aece2ce Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Fri, 20 Nov 2026 06:34:40 +0000
Subject: [PATCH 19/19] fix: sample every dynamic profile when a period is no
 multiple of the time step

A profile was only sampled by a step which ends within dt/5 of the end of
the period. With a period which is no multiple of the time step there may
be none, and then the command never ended: its writers wait for the missing
sample. Sample at the step closest to the end of the period, of which there
is exactly one.
---
 src/obs.rs | 56 +++++++++++++++---------------------------------------
 1 file changed, 15 insertions(+), 41 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index a67d96a..9645482 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -1170,52 +1170,26 @@ pub fn run_dyn_profile(conf: &mut Config) {
             let _tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt) as u64;
 
             while spin_chain.t < spin_chain.vars.t {
+                let before = spin_chain.t;
                 spin_chain.update();
+                // Whether this step is the one closest to the end of the given period
+                let ends = |period: f64| {
+                    let from = period * spin_chain.vars.tau - spin_chain.vars.dt / 2.0;
+                    before < from && from <= spin_chain.t
+                };
                 if spin_chain.t.fract() < spin_chain.vars.dt {
                     pb.set_position(spin_chain.t as u64);
                 }
 
-                let txc_matched = match spin_chain.t {
-                    _ if (spin_chain.t - 500.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_500))
-                    }
-                    _ if (spin_chain.t - 1000.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_1000))
-                    }
-                    _ if (spin_chain.t - 1500.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_1500))
-                    }
-                    _ if (spin_chain.t - 2000.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_2000))
-                    }
-                    _ if (spin_chain.t - 2500.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_2500))
-                    }
-                    _ if (spin_chain.t - 3000.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_3000))
-                    }
-                    _ if (spin_chain.t - 3500.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_3500))
-                    }
-                    _ if (spin_chain.t - 4000.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_4000))
-                    }
+                let txc_matched = match () {
+                    _ if ends(500.0) => Some(mpsc::Sender::clone(&txc_500)),
+                    _ if ends(1000.0) => Some(mpsc::Sender::clone(&txc_1000)),
+                    _ if ends(1500.0) => Some(mpsc::Sender::clone(&txc_1500)),
+                    _ if ends(2000.0) => Some(mpsc::Sender::clone(&txc_2000)),
+                    _ if ends(2500.0) => Some(mpsc::Sender::clone(&txc_2500)),
+                    _ if ends(3000.0) => Some(mpsc::Sender::clone(&txc_3000)),
+                    _ if ends(3500.0) => Some(mpsc::Sender::clone(&txc_3500)),
+                    _ if ends(4000.0) => Some(mpsc::Sender::clone(&txc_4000)),
                     _ => None,
                 };
 
-- 
2.43.0

