From 837c3c3fae3bdc4e3571378140cf8471be8d0952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:57 +0000
Subject: [PATCH 01/25] fix: rotating a spin about a vanishing field leaves it
 unchanged instead of NaN

---
 src/spin.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spin.rs b/src/spin.rs
index 571cad2..301d148 100644
--- a/src/spin.rs
+++ b/src/spin.rs
@@ -171,6 +171,10 @@ impl Spin {
     #[inline]
     pub fn rotate(&mut self, field: &[f64; 3], dt: f64) {
         let fs: f64 = field.iter().map(|x| x * x).sum::<f64>().sqrt();
+        // No field, no precession (and no direction to normalise)
+        if fs == 0.0 {
+            return;
+        }
         let f: [f64; 3] = [field[0] / fs, field[1] / fs, field[2] / fs];
         let dts: f64 = fs * dt;
         let dc: f64 = dts.cos();
-- 
2.43.0


From c2519a45bdc5f758ca1641b701a2460cf5811984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 02/25] fix: azimuth and polar angle of a spin are right on the
 axes and never NaN

---
 src/spin.rs | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/src/spin.rs b/src/spin.rs
index 301d148..1417ddd 100644
--- a/src/spin.rs
+++ b/src/spin.rs
@@ -1,5 +1,3 @@
-use std::f64::consts::PI;
-
 ///Struct for storing a 3-dimensional normalised spin
 
 #[derive(Debug, Clone)]
@@ -133,15 +131,11 @@ impl Spin {
     }
 
     pub fn theta(&self) -> f64 {
-        (self.dir[1] / self.dir[0]).atan()
-            + match self.dir[0] {
-                x if x > 0.0 => 0.0,
-                _ => PI,
-            }
+        self.dir[1].atan2(self.dir[0])
     }
 
     pub fn phi(&self) -> f64 {
-        self.dir[2].acos()
+        self.dir[0].hypot(self.dir[1]).atan2(self.dir[2])
     }
 
     #[allow(dead_code)]
-- 
2.43.0


From bfecaa4e476d73ef125ef8390dc58de2284ec2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:16 +0000
Subject: [PATCH 03/25] fix: a direction parallel to the spin no longer gives a
 NaN or non-perpendicular axis

---
 src/spin.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/spin.rs b/src/spin.rs
index 1417ddd..b0b48da 100644
--- a/src/spin.rs
+++ b/src/spin.rs
@@ -89,6 +89,17 @@ impl Spin {
         ];
         let s: f64 = sub.iter().map(|x| x * x).sum::<f64>().sqrt();
 
+        // Nothing (but rounding) is left if the two are parallel, in which case any perpendicular
+        // direction will do: start from the axis furthest from `old`
+        if s <= 1.0e-8 * perp.iter().map(|x| x * x).sum::<f64>().sqrt() {
+            let a: [f64; 3] = [old[0].abs(), old[1].abs(), old[2].abs()];
+            return match a {
+                _ if a[0] <= a[1] && a[0] <= a[2] => Spin::gs(old, &[1.0, 0.0, 0.0]),
+                _ if a[1] <= a[2] => Spin::gs(old, &[0.0, 1.0, 0.0]),
+                _ => Spin::gs(old, &[0.0, 0.0, 1.0]),
+            };
+        }
+
         [sub[0] / s, sub[1] / s, sub[2] / s]
     }
 
-- 
2.43.0


From d6b479949dbaacde250bffe5a5014b9fa3bfa4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:51 +0000
Subject: [PATCH 04/25] fix: initial relative angles follow the thermal law for
 every finite beta (0, small, large, negative)

---
 src/spinchain.rs          | 22 +++++++++++++++++-----
 src/spinchain_langevin.rs | 22 +++++++++++++++++-----
 2 files changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index 39a3f59..a94c966 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -115,6 +115,22 @@ impl SpinChain {
         beta
     }
 
+    /// Inverse transform of u in \[0,1) for the density \sin \theta e^{\beta\cos\theta}, in a form
+    /// which neither overflows nor cancels for any finite \beta (of either sign, or zero)
+    fn relative_angle(beta: f64, u: f64) -> f64 {
+        let b: f64 = beta.abs();
+        // 1 - \cos\theta for positive \beta
+        let d: f64 = match b {
+            b if b < 1.0e-8 => 2.0 * u,
+            _ => -(u * (-2.0 * b).exp_m1()).ln_1p() / b,
+        };
+        let c: f64 = (1.0 - d).max(-1.0).min(1.0);
+        match beta {
+            beta if beta < 0.0 => (-c).acos(),
+            _ => c.acos(),
+        }
+    }
+
     /// Creates a new spin chain by reading the configuration variables from a toml file
     ///
     /// The spins
@@ -129,9 +145,6 @@ impl SpinChain {
         //Draw from distribution with particular energy density
         //        let spins: Vec<Spin> = (0..conf.hsize).map(|x| Spin::new()).collect();
         let beta_eff: f64 = conf.beta;
-        let b_e: f64 = beta_eff.exp();
-        let b_ei: f64 = 1.0 / (b_e);
-
         let pi = std::f64::consts::PI;
         let mut theta: f64 = 0.01;
         let mut phi: f64 = PI / 2.0;
@@ -152,8 +165,7 @@ impl SpinChain {
 
                 // Inverse transform sample \theta from the distribution P(\theta) =  \sin \theta e^{\beta\cos\theta}
 
-                let rot_angle: f64 =
-                    ((b_e - unif.sample(&mut r) * (b_e - b_ei)).ln() / beta_eff).acos();
+                let rot_angle: f64 = SpinChain::relative_angle(beta_eff, unif.sample(&mut r));
 
                 // Rotate by \theta about random direction
                 let n: [f64; 2] = Spin::rot_perp(&[theta, phi], &rot_dir, rot_angle);
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index 365acf0..422259b 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -106,6 +106,22 @@ impl SpinChainLangevin {
         beta
     }
 
+    /// Inverse transform of u in \[0,1) for the density \sin \theta e^{\beta\cos\theta}, in a form
+    /// which neither overflows nor cancels for any finite \beta (of either sign, or zero)
+    fn relative_angle(beta: f64, u: f64) -> f64 {
+        let b: f64 = beta.abs();
+        // 1 - \cos\theta for positive \beta
+        let d: f64 = match b {
+            b if b < 1.0e-8 => 2.0 * u,
+            _ => -(u * (-2.0 * b).exp_m1()).ln_1p() / b,
+        };
+        let c: f64 = (1.0 - d).max(-1.0).min(1.0);
+        match beta {
+            beta if beta < 0.0 => (-c).acos(),
+            _ => c.acos(),
+        }
+    }
+
     /// Creates a new spin chain by reading the configuration variables from a toml file
     ///
     /// The spins
@@ -120,9 +136,6 @@ impl SpinChainLangevin {
         //Draw from distribution with particular energy density
         //        let spins: Vec<Spin> = (0..conf.hsize).map(|x| Spin::new()).collect();
         let beta_eff: f64 = conf.beta;
-        let b_e: f64 = beta_eff.exp();
-        let b_ei: f64 = 1.0 / (b_e);
-
         let pi = std::f64::consts::PI;
         let mut theta: f64 = 0.01;
         let mut phi: f64 = PI / 2.0;
@@ -143,8 +156,7 @@ impl SpinChainLangevin {
 
                 // Inverse transform sample \theta from the distribution P(\theta) =  \sin \theta e^{\beta\cos\theta}
 
-                let rot_angle: f64 =
-                    ((b_e - unif.sample(&mut r) * (b_e - b_ei)).ln() / beta_eff).acos();
+                let rot_angle: f64 = SpinChainLangevin::relative_angle(beta_eff, unif.sample(&mut r));
 
                 // Rotate by \theta about random direction
                 let n: [f64; 2] = Spin::rot_perp(&[theta, phi], &rot_dir, rot_angle);
-- 
2.43.0


From e20d9b5e8daa4e453a3bc4205802068d3c28c6cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 05/25] fix: Metropolis acceptance obeys detailed balance for
 negative beta

---
 src/spinchain.rs          | 20 ++++++++++----------
 src/spinchain_langevin.rs | 11 ++++++-----
 2 files changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index a94c966..7fe716b 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -288,8 +288,8 @@ impl SpinChain {
         // Evaluate energy difference
 
         // Accept/reject
-        // Accept if <0, or w/ prob e^{-\beta \Delta E} otherwise
-        if de < 0.0 || unif.sample(&mut rng) < (-self.vars.beta * de).exp() {
+        // Accept if \beta \Delta E <0, or w/ prob e^{-\beta \Delta E} otherwise
+        if self.vars.beta * de < 0.0 || unif.sample(&mut rng) < (-self.vars.beta * de).exp() {
             self.spins[index].dir = new_spin.dir;
         }
     }
@@ -434,8 +434,8 @@ impl SpinChain {
         // Evaluate energy difference
 
         // Accept/reject
-        // Accept if <0, or w/ prob e^{-\beta \Delta E} otherwise
-        if de < 0.0 || unif.sample(&mut rng) < (-self.vars.beta * de).exp() {
+        // Accept if \beta \Delta E <0, or w/ prob e^{-\beta \Delta E} otherwise
+        if self.vars.beta * de < 0.0 || unif.sample(&mut rng) < (-self.vars.beta * de).exp() {
             self.spins[index].dir = new_spin.dir;
         }
     }
@@ -499,8 +499,8 @@ impl SpinChain {
         // Evaluate energy difference
 
         // Accept/reject
-        // Accept if <0, or w/ prob e^{-\beta \Delta E} otherwise
-        if de < 0.0 || unif.sample(&mut rng) < (-self.vars.beta * de).exp() {
+        // Accept if \beta \Delta E <0, or w/ prob e^{-\beta \Delta E} otherwise
+        if self.vars.beta * de < 0.0 || unif.sample(&mut rng) < (-self.vars.beta * de).exp() {
             self.spins[index].dir = new_spin.dir;
         }
     }
@@ -942,8 +942,8 @@ impl SpinChain {
         de += de0 + de1 / om + de2 / (om * om);
 
         // Accept/reject
-        // Accept if <0, or w/ prob e^{-\beta \Delta E} otherwise
-        if de < 0.0 || unif.sample(&mut rng) < (-self.vars.beta * de).exp() {
+        // Accept if \beta \Delta E <0, or w/ prob e^{-\beta \Delta E} otherwise
+        if self.vars.beta * de < 0.0 || unif.sample(&mut rng) < (-self.vars.beta * de).exp() {
             self.spins[index].dir = new_spin.dir;
         }
     }
@@ -1074,8 +1074,8 @@ impl SpinChain {
         }
         // Evaluate energy difference
         // Metropolis-Hastings acceptance/rejection:
-        //  Accept if \Delta E < 0, or w/ prob e^{-\beta \Delta E} otherwise
-        if de < 0.0 || unif.sample(&mut rng) < (-self.vars.beta * de).exp() {
+        //  Accept if \beta \Delta E < 0, or w/ prob e^{-\beta \Delta E} otherwise
+        if self.vars.beta * de < 0.0 || unif.sample(&mut rng) < (-self.vars.beta * de).exp() {
             self.spins[index].dir = new_spin.dir;
         }
     }
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index 422259b..06a294c 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -156,7 +156,8 @@ impl SpinChainLangevin {
 
                 // Inverse transform sample \theta from the distribution P(\theta) =  \sin \theta e^{\beta\cos\theta}
 
-                let rot_angle: f64 = SpinChainLangevin::relative_angle(beta_eff, unif.sample(&mut r));
+                let rot_angle: f64 =
+                    SpinChainLangevin::relative_angle(beta_eff, unif.sample(&mut r));
 
                 // Rotate by \theta about random direction
                 let n: [f64; 2] = Spin::rot_perp(&[theta, phi], &rot_dir, rot_angle);
@@ -267,8 +268,8 @@ impl SpinChainLangevin {
         // Evaluate energy difference
 
         // Accept/reject
-        // Accept if <0, or w/ prob e^{-\beta \Delta E} otherwise
-        if de < 0.0 || unif.sample(&mut rng) < (-self.vars.beta * de).exp() {
+        // Accept if \beta \Delta E <0, or w/ prob e^{-\beta \Delta E} otherwise
+        if self.vars.beta * de < 0.0 || unif.sample(&mut rng) < (-self.vars.beta * de).exp() {
             self.spins[index].dir = new_spin.dir;
         }
     }
@@ -410,8 +411,8 @@ impl SpinChainLangevin {
         // Evaluate energy difference
 
         // Accept/reject
-        // Accept if <0, or w/ prob e^{-\beta \Delta E} otherwise
-        if de < 0.0 || unif.sample(&mut rng) < (-self.vars.beta * de).exp() {
+        // Accept if \beta \Delta E <0, or w/ prob e^{-\beta \Delta E} otherwise
+        if self.vars.beta * de < 0.0 || unif.sample(&mut rng) < (-self.vars.beta * de).exp() {
             self.spins[index].dir = new_spin.dir;
         }
     }
-- 
2.43.0


From 0f83ea15c39195960b1e191e6bfdc8e63e3611d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:00 +0000
Subject: [PATCH 06/25] fix: second-order Magnus energy uses the same field in
 both factors of the +1 translation

---
 src/spinchain.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index 7fe716b..4ec16f9 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -622,7 +622,7 @@ impl SpinChain {
                     + s_jp1.dir[2] * (j_j[2] * s_j.dir[2] + j_jp1[2] * s_jp2.dir[2]));
             ei2 -= s_jp1.dir[0]
                 * ((j_j[0] * s_j.dir[0] + j_jp1[0] * s_jp2.dir[0])
-                    * (j_jm2[0] * s_jm2.dir[0] + j_jp1[0] * s_jp2.dir[0])
+                    * (j_j[0] * s_j.dir[0] + j_jp1[0] * s_jp2.dir[0])
                     + (j_j[1] * s_j.dir[1] + j_jp1[1] * s_jp2.dir[1])
                         * (j_j[1] * s_j.dir[1] + j_jp1[1] * s_jp2.dir[1])
                     + (j_j[2] * s_j.dir[2] + j_jp1[2] * s_jp2.dir[2])
@@ -803,7 +803,7 @@ impl SpinChain {
                     + s_jp1.dir[2] * (j_j[2] * new_spin.dir[2] + j_jp1[2] * s_jp2.dir[2]));
             de2 -= s_jp1.dir[0]
                 * ((j_j[0] * new_spin.dir[0] + j_jp1[0] * s_jp2.dir[0])
-                    * (j_jm2[0] * s_jm2.dir[0] + j_jp1[0] * s_jp2.dir[0])
+                    * (j_j[0] * new_spin.dir[0] + j_jp1[0] * s_jp2.dir[0])
                     + (j_j[1] * new_spin.dir[1] + j_jp1[1] * s_jp2.dir[1])
                         * (j_j[1] * new_spin.dir[1] + j_jp1[1] * s_jp2.dir[1])
                     + (j_j[2] * new_spin.dir[2] + j_jp1[2] * s_jp2.dir[2])
-- 
2.43.0


From bfe2f1cc855a49731a23aecb3b6c7b4535622c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:01 +0000
Subject: [PATCH 07/25] fix: Magnus sampler uses the proposed spin, its own
 1/(2 omega) and the corrections of every driven neighbour

---
 src/spinchain.rs          | 74 ++++++++++++++++-----------------------
 src/spinchain_langevin.rs | 74 ++++++++++++++++-----------------------
 2 files changed, 60 insertions(+), 88 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index 4ec16f9..2e500c7 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -1010,30 +1010,26 @@ impl SpinChain {
 
         //-(1)/(2 \omega) (  S^z + 2y . (J_j S_{j+1} + J_{j-1} S_{j-1}) x S_j )
         // Because j-1->j->j+1, flipping j effects *three* terms in the energy
-        // But only if the field is non-zero at site j
-        if index < self.vars.ssize as usize {
-            ei -= PI / self.vars.tau
+        // But only those whose field is non-zero i.e. with their centre in the subsystem
+        let ss: usize = self.vars.ssize as usize;
+        let pre: f64 = self.vars.tau / (4.0 * PI);
+        let own: f64 = if index < ss { 1.0 } else { 0.0 };
+        let left: f64 = if (index + s - 1) % s < ss { 1.0 } else { 0.0 };
+        let right: f64 = if (index + 1) % s < ss { 1.0 } else { 0.0 };
+        ei -= pre
+            * (own
                 * (s_j.dir[2]
                     + 2.0
                         * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * s_j.dir[0]
-                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * s_j.dir[2]
-                            + match index {
-                                _ if index == 0 => 0.0,
-                                _ => {
-                                    (j_jm1[2] * s_j.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
-                                        - (j_jm1[0] * s_j.dir[0] + j_jm2[0] * s_jm2.dir[0])
-                                            * s_jm1.dir[2]
-                                }
-                            }
-                            + match index {
-                                _ if index == (self.vars.ssize - 1) as usize => 0.0,
-                                _ => {
-                                    (j_jp1[2] * s_jp2.dir[2] + j_j[2] * s_j.dir[2]) * s_jp1.dir[0]
-                                        - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * s_j.dir[0])
-                                            * s_jp1.dir[2]
-                                }
-                            }));
-        }
+                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * s_j.dir[2]))
+                + left
+                    * 2.0
+                    * ((j_jm1[2] * s_j.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
+                        - (j_jm1[0] * s_j.dir[0] + j_jm2[0] * s_jm2.dir[0]) * s_jm1.dir[2])
+                + right
+                    * 2.0
+                    * ((j_jp1[2] * s_jp2.dir[2] + j_j[2] * s_j.dir[2]) * s_jp1.dir[0]
+                        - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * s_j.dir[0]) * s_jp1.dir[2]));
 
         // Select random angles
         let theta: f64 = 2.0 * PI * unif.sample(&mut rng);
@@ -1047,31 +1043,21 @@ impl SpinChain {
                 s_jm1.dir[k] * j_jm1[k] * new_spin.dir[k] + new_spin.dir[k] * j_j[k] * s_jp1.dir[k];
         }
 
-        if index < self.vars.ssize as usize {
-            de -= PI / self.vars.tau
-                * (s_j.dir[2]
+        de -= pre
+            * (own
+                * (new_spin.dir[2]
                     + 2.0
                         * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * new_spin.dir[0]
-                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * new_spin.dir[2]
-                            + match index {
-                                _ if index == 0 => 0.0,
-                                _ => {
-                                    (j_jm1[2] * new_spin.dir[2] + j_jm2[2] * s_jm2.dir[2])
-                                        * s_jm1.dir[0]
-                                        - (j_jm1[0] * new_spin.dir[0] + j_jm2[0] * s_jm2.dir[0])
-                                            * s_jm1.dir[2]
-                                }
-                            }
-                            + match index {
-                                _ if index == (self.vars.ssize - 1) as usize => 0.0,
-                                _ => {
-                                    (j_jp1[2] * s_jp2.dir[2] + j_j[2] * new_spin.dir[2])
-                                        * s_jp1.dir[0]
-                                        - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * new_spin.dir[0])
-                                            * s_jp1.dir[2]
-                                }
-                            }));
-        }
+                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0])
+                                * new_spin.dir[2]))
+                + left
+                    * 2.0
+                    * ((j_jm1[2] * new_spin.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
+                        - (j_jm1[0] * new_spin.dir[0] + j_jm2[0] * s_jm2.dir[0]) * s_jm1.dir[2])
+                + right
+                    * 2.0
+                    * ((j_jp1[2] * s_jp2.dir[2] + j_j[2] * new_spin.dir[2]) * s_jp1.dir[0]
+                        - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * new_spin.dir[0]) * s_jp1.dir[2]));
         // Evaluate energy difference
         // Metropolis-Hastings acceptance/rejection:
         //  Accept if \beta \Delta E < 0, or w/ prob e^{-\beta \Delta E} otherwise
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index 06a294c..f6a8dbd 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -346,30 +346,26 @@ impl SpinChainLangevin {
 
         //-(1)/(2 \omega) (  S^z + 2y . (J_j S_{j+1} + J_{j-1} S_{j-1}) x S_j )
         // Because j-1->j->j+1, flipping j effects *three* terms in the energy
-        // But only if the field is non-zero at site j
-        if index < self.vars.ssize as usize {
-            ei -= PI / self.vars.tau
+        // But only those whose field is non-zero i.e. with their centre in the subsystem
+        let ss: usize = self.vars.ssize as usize;
+        let pre: f64 = self.vars.tau / (4.0 * PI);
+        let own: f64 = if index < ss { 1.0 } else { 0.0 };
+        let left: f64 = if (index + s - 1) % s < ss { 1.0 } else { 0.0 };
+        let right: f64 = if (index + 1) % s < ss { 1.0 } else { 0.0 };
+        ei -= pre
+            * (own
                 * (s_j.dir[2]
                     + 2.0
                         * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * s_j.dir[0]
-                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * s_j.dir[2]
-                            + match index {
-                                _ if index == 0 => 0.0,
-                                _ => {
-                                    (j_jm1[2] * s_j.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
-                                        - (j_jm1[0] * s_j.dir[0] + j_jm2[0] * s_jm2.dir[0])
-                                            * s_jm1.dir[2]
-                                }
-                            }
-                            + match index {
-                                _ if index == (self.vars.ssize - 1) as usize => 0.0,
-                                _ => {
-                                    (j_jp1[2] * s_jp2.dir[2] + j_j[2] * s_j.dir[2]) * s_jp1.dir[0]
-                                        - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * s_j.dir[0])
-                                            * s_jp1.dir[2]
-                                }
-                            }));
-        }
+                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * s_j.dir[2]))
+                + left
+                    * 2.0
+                    * ((j_jm1[2] * s_j.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
+                        - (j_jm1[0] * s_j.dir[0] + j_jm2[0] * s_jm2.dir[0]) * s_jm1.dir[2])
+                + right
+                    * 2.0
+                    * ((j_jp1[2] * s_jp2.dir[2] + j_j[2] * s_j.dir[2]) * s_jp1.dir[0]
+                        - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * s_j.dir[0]) * s_jp1.dir[2]));
 
         // Select random angles
         let theta: f64 = 2.0 * PI * unif.sample(&mut rng);
@@ -383,31 +379,21 @@ impl SpinChainLangevin {
                 s_jm1.dir[k] * j_jm1[k] * new_spin.dir[k] + new_spin.dir[k] * j_j[k] * s_jp1.dir[k];
         }
 
-        if index < self.vars.ssize as usize {
-            de -= PI / self.vars.tau
-                * (s_j.dir[2]
+        de -= pre
+            * (own
+                * (new_spin.dir[2]
                     + 2.0
                         * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * new_spin.dir[0]
-                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * new_spin.dir[2]
-                            + match index {
-                                _ if index == 0 => 0.0,
-                                _ => {
-                                    (j_jm1[2] * new_spin.dir[2] + j_jm2[2] * s_jm2.dir[2])
-                                        * s_jm1.dir[0]
-                                        - (j_jm1[0] * new_spin.dir[0] + j_jm2[0] * s_jm2.dir[0])
-                                            * s_jm1.dir[2]
-                                }
-                            }
-                            + match index {
-                                _ if index == (self.vars.ssize - 1) as usize => 0.0,
-                                _ => {
-                                    (j_jp1[2] * s_jp2.dir[2] + j_j[2] * new_spin.dir[2])
-                                        * s_jp1.dir[0]
-                                        - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * new_spin.dir[0])
-                                            * s_jp1.dir[2]
-                                }
-                            }));
-        }
+                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0])
+                                * new_spin.dir[2]))
+                + left
+                    * 2.0
+                    * ((j_jm1[2] * new_spin.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
+                        - (j_jm1[0] * new_spin.dir[0] + j_jm2[0] * s_jm2.dir[0]) * s_jm1.dir[2])
+                + right
+                    * 2.0
+                    * ((j_jp1[2] * s_jp2.dir[2] + j_j[2] * new_spin.dir[2]) * s_jp1.dir[0]
+                        - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * new_spin.dir[0]) * s_jp1.dir[2]));
         // Evaluate energy difference
 
         // Accept/reject
-- 
2.43.0


From 88973cc06418ceee418b550657850e4e4a2798ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:26 +0000
Subject: [PATCH 08/25] fix: solve_beta returns the exact inverse temperature
 instead of stopping within 0.01

---
 src/spinchain.rs          | 42 ++++++++++++++++++++++++++++++++-------
 src/spinchain_langevin.rs | 42 ++++++++++++++++++++++++++++++++-------
 2 files changed, 70 insertions(+), 14 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index 2e500c7..a49a7af 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -104,15 +104,43 @@ impl SpinChain {
         }
     }
 
+    /// Inverse temperature at which an infinite isotropic chain has energy density `e` in (-1,1),
+    /// i.e. the solution of 1/\beta - \coth\beta = e, found by bisection to full precision
     pub fn solve_beta(e: f64) -> f64 {
-        let mut beta: f64 = 20.0;
-        let mut beta2: f64 = 10.0;
-
-        while (beta - beta2).abs() > 0.01 {
-            beta2 = beta;
-            beta = 1.0 / (e + 1.0 / beta.tanh());
+        let target: f64 = e.abs();
+        if target >= 1.0 {
+            return -e.signum() * f64::INFINITY;
+        }
+        // \coth(b) - 1/b, by its series where that would cancel
+        let langevin = |b: f64| -> f64 {
+            if b < 0.03 {
+                let b2: f64 = b * b;
+                b * (1.0 / 3.0 - b2 * (1.0 / 45.0 - b2 * (2.0 / 945.0 - b2 / 4725.0)))
+            } else {
+                1.0 / b.tanh() - 1.0 / b
+            }
+        };
+        // As 1 - 1/b < \coth(b) - 1/b, this brackets the solution
+        let mut lo: f64 = 0.0;
+        let mut hi: f64 = 1.0 / (1.0 - target);
+        loop {
+            let mid: f64 = 0.5 * (lo + hi);
+            if mid <= lo || mid >= hi {
+                break;
+            }
+            if langevin(mid) < target {
+                lo = mid;
+            } else {
+                hi = mid;
+            }
+        }
+        if e < 0.0 {
+            hi
+        } else if e > 0.0 {
+            -hi
+        } else {
+            0.0
         }
-        beta
     }
 
     /// Inverse transform of u in \[0,1) for the density \sin \theta e^{\beta\cos\theta}, in a form
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index f6a8dbd..2e1a6ae 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -95,15 +95,43 @@ impl SpinChainLangevin {
         }
     }
 
+    /// Inverse temperature at which an infinite isotropic chain has energy density `e` in (-1,1),
+    /// i.e. the solution of 1/\beta - \coth\beta = e, found by bisection to full precision
     pub fn solve_beta(e: f64) -> f64 {
-        let mut beta: f64 = 20.0;
-        let mut beta2: f64 = 10.0;
-
-        while (beta - beta2).abs() > 0.01 {
-            beta2 = beta;
-            beta = 1.0 / (e + 1.0 / beta.tanh());
+        let target: f64 = e.abs();
+        if target >= 1.0 {
+            return -e.signum() * f64::INFINITY;
+        }
+        // \coth(b) - 1/b, by its series where that would cancel
+        let langevin = |b: f64| -> f64 {
+            if b < 0.03 {
+                let b2: f64 = b * b;
+                b * (1.0 / 3.0 - b2 * (1.0 / 45.0 - b2 * (2.0 / 945.0 - b2 / 4725.0)))
+            } else {
+                1.0 / b.tanh() - 1.0 / b
+            }
+        };
+        // As 1 - 1/b < \coth(b) - 1/b, this brackets the solution
+        let mut lo: f64 = 0.0;
+        let mut hi: f64 = 1.0 / (1.0 - target);
+        loop {
+            let mid: f64 = 0.5 * (lo + hi);
+            if mid <= lo || mid >= hi {
+                break;
+            }
+            if langevin(mid) < target {
+                lo = mid;
+            } else {
+                hi = mid;
+            }
+        }
+        if e < 0.0 {
+            hi
+        } else if e > 0.0 {
+            -hi
+        } else {
+            0.0
         }
-        beta
     }
 
     /// Inverse transform of u in \[0,1) for the density \sin \theta e^{\beta\cos\theta}, in a form
-- 
2.43.0


From d681a35f3afbeb3fd515906e41a1162201825d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 09/25] fix: Langevin boundary term includes the static field
 at the chain ends

---
 src/spinchain_langevin.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index 2e1a6ae..1834383 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -577,19 +577,21 @@ impl SpinChainLangevin {
         let slsq: f64 = sq!(self.spins[ell - 1].dir);
 
         let h_e: [f64; 3] = self.h_ext(self.t);
+        let h_el: [f64; 3] = Self::sum_vec(&self.static_h[0], &h_e);
+        let h_er: [f64; 3] = Self::sum_vec(&self.static_h[ell - 1], &h_e);
 
         //Use macro to do these things later, for now just use vec
         //\Omega_1 = J_1 S_2 - B(t)
 
         let om_1: Vec<f64> = (0..3)
-            .map(|x| self.j_couple[0][x] * self.spins[1].dir[x] - h_e[x])
+            .map(|x| self.j_couple[0][x] * self.spins[1].dir[x] - h_el[x])
             .collect();
         let om_1_sq: f64 = sq!(om_1);
         let oms1: f64 = dot!(om_1, self.spins[0].dir);
 
         //\Omega_\ell = J_{\ell-1} S_{\ell-1} - B(t)
         let om_ell: Vec<f64> = (0..3)
-            .map(|x| self.j_couple[ell - 2][x] * self.spins[ell - 2].dir[x] - h_e[x])
+            .map(|x| self.j_couple[ell - 2][x] * self.spins[ell - 2].dir[x] - h_er[x])
             .collect();
         let om_ell_sq: f64 = sq!(om_ell);
         let omsell: f64 = dot!(om_ell, self.spins[ell - 1].dir);
-- 
2.43.0


From 76e6f4809decfcfe064a5c5d59960e56153a7120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 10/25] fix: wait for the background writer, so that no row is
 lost at exit

---
 src/obs.rs     | 24 ++++++++++++++++++++----
 src/writers.rs |  4 ++--
 2 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index f5c3cdc..89a4c9e 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -611,7 +611,7 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
         .unwrap();
 
     let (tx, rx) = mpsc::channel();
-    write_in_bg(dyn_hist, rx);
+    let writer = write_in_bg(dyn_hist, rx);
     let m = MultiProgress::new();
     let sty = ProgressStyle::default_bar()
         .template(
@@ -668,6 +668,10 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
         });
     }
     m.join().unwrap();
+
+    //Close channel, and wait until every row is written
+    drop(tx);
+    writer.join().unwrap();
 }
 
 ///Generate ```sample_num``` samples via Monte Carlo and dynamical evolution to check that the
@@ -813,7 +817,7 @@ pub fn run_tau(taus: Vec<f64>, steps: u32, conf: &mut Config) {
         .open(evt_string)
         .unwrap();
 
-    write_in_bg(evt_file, rx);
+    let writer = write_in_bg(evt_file, rx);
 
     println!("Energy density: {}", conf.ednsty);
     println!("Effective temperature: {}", conf.beta);
@@ -873,6 +877,10 @@ pub fn run_tau(taus: Vec<f64>, steps: u32, conf: &mut Config) {
     }
 
     m.join().unwrap();
+
+    //Close channel, and wait until every row is written
+    drop(tx);
+    writer.join().unwrap();
 }
 
 pub fn run_langevin(conf: &mut Config, gamma: f64) {
@@ -1524,7 +1532,7 @@ pub fn run_mc_magnus(conf: &mut Config) {
     let (tx, rx) = mpsc::channel();
 
     let points: usize = conf.mc_points;
-    write_in_bg(file, rx);
+    let writer = write_in_bg(file, rx);
 
     // Create storage for the points
     /*
@@ -1598,6 +1606,10 @@ pub fn run_mc_magnus(conf: &mut Config) {
         });
     }
     m.join().unwrap();
+
+    //Close channel, and wait until every row is written
+    drop(tx);
+    writer.join().unwrap();
 }
 
 pub fn run_mc_profile(conf: &mut Config) {
@@ -1715,7 +1727,7 @@ pub fn run_mc(conf: &mut Config) {
     let (tx, rx) = mpsc::channel();
 
     let points: usize = conf.mc_points;
-    write_in_bg(file, rx);
+    let writer = write_in_bg(file, rx);
 
     // Create storage for the points
     /*
@@ -1789,4 +1801,8 @@ pub fn run_mc(conf: &mut Config) {
         });
     }
     m.join().unwrap();
+
+    //Close channel, and wait until every row is written
+    drop(tx);
+    writer.join().unwrap();
 }
diff --git a/src/writers.rs b/src/writers.rs
index 23386a0..c5e551d 100644
--- a/src/writers.rs
+++ b/src/writers.rs
@@ -1,11 +1,11 @@
 use super::*;
 
-pub fn write_in_bg(file: File, rx: std::sync::mpsc::Receiver<String>) {
+pub fn write_in_bg(file: File, rx: std::sync::mpsc::Receiver<String>) -> thread::JoinHandle<()> {
     thread::spawn(move || {
         for received in rx {
             writeln!(&file, "{}", &received).unwrap();
         }
-    });
+    })
 }
 
 pub fn profile_in_bg(
-- 
2.43.0


From 905407f9b422897fc934ef99d1d3aa2bca9d47a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:29 +0000
Subject: [PATCH 11/25] fix: dynamic profile ends for every time step, logging
 once per 500 periods at the closest step

---
 src/obs.rs | 57 ++++++++++++------------------------------------------
 1 file changed, 12 insertions(+), 45 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index 89a4c9e..fd0becb 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -1157,6 +1157,11 @@ pub fn run_dyn_profile(conf: &mut Config) {
             }
             pb.reset_eta();
             let _tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt) as u64;
+            let txcs = [
+                &txc_500, &txc_1000, &txc_1500, &txc_2000, &txc_2500, &txc_3000, &txc_3500,
+                &txc_4000,
+            ];
+            let mut next: usize = 0;
 
             while spin_chain.t < spin_chain.vars.t {
                 spin_chain.update();
@@ -1164,51 +1169,13 @@ pub fn run_dyn_profile(conf: &mut Config) {
                     pb.set_position(spin_chain.t as u64);
                 }
 
-                let txc_matched = match spin_chain.t {
-                    _ if (spin_chain.t - 500.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_500))
-                    }
-                    _ if (spin_chain.t - 1000.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_1000))
-                    }
-                    _ if (spin_chain.t - 1500.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_1500))
-                    }
-                    _ if (spin_chain.t - 2000.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_2000))
-                    }
-                    _ if (spin_chain.t - 2500.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_2500))
-                    }
-                    _ if (spin_chain.t - 3000.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_3000))
-                    }
-                    _ if (spin_chain.t - 3500.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_3500))
-                    }
-                    _ if (spin_chain.t - 4000.0 * spin_chain.vars.tau).abs()
-                        < spin_chain.vars.dt / 5.0 =>
-                    {
-                        Some(mpsc::Sender::clone(&txc_4000))
-                    }
-                    _ => None,
-                };
-
-                if let Some(txc) = txc_matched {
+                // Log once for each 500 cycles completed, at the step closest to it
+                while next < txcs.len()
+                    && spin_chain.t + spin_chain.vars.dt / 2.0
+                        >= 500.0 * (next + 1) as f64 * spin_chain.vars.tau
+                {
+                    let txc = txcs[next];
+                    next += 1;
                     //Now log with correct log
                     //Write data
                     #[allow(non_snake_case)]
-- 
2.43.0


From f69c1305bcf16577f9f5214f7658f3bef52ae375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:43 +0000
Subject: [PATCH 12/25] fix: whole periods are counted in rounded steps, so
 that no stroboscopic sample is missed, doubled or misplaced

---
 src/obs.rs | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index fd0becb..ddbd0c8 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -491,8 +491,8 @@ pub fn trajectory_mean_e(conf: &mut Config) -> f64 {
     for i in 0..((conf.runs) as usize) {
         let txc = mpsc::Sender::clone(&tx);
         let pb = m.add(ProgressBar::new((1000.0 * conf.tau) as u64));
-        let steps: usize = (1000.0 * conf.tau / conf.dt) as usize;
-        let steps_in_cycle: usize = (conf.tau / conf.dt) as usize;
+        let steps: usize = (1000.0 * conf.tau / conf.dt).round() as usize;
+        let steps_in_cycle: usize = (conf.tau / conf.dt).round() as usize;
         pb.set_style(sty.clone());
 
         let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
@@ -566,15 +566,15 @@ pub fn gen_single_traj(conf: &mut Config, sample_num: usize) {
     //    sc.metropolis_update();
     //}
 
-    let init_steps = (offset * conf.tau / conf.dt) as usize;
-    let steps = (final_t / conf.dt) as usize;
+    let init_steps = (offset * conf.tau / conf.dt).round() as usize;
+    let steps = (final_t / conf.dt).round() as usize;
     println!(
         "Generating dynamics histogram for {} steps i.e. t={}",
         steps,
         (steps as f64) * conf.dt
     );
     let mut step_count: u64 = 0;
-    let cycle_steps: u64 = (conf.tau / conf.dt) as u64;
+    let cycle_steps: u64 = (conf.tau / conf.dt).round() as u64;
 
     println!("Sample num: {}", sample_num);
     for _ in 0..init_steps {
@@ -619,7 +619,7 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
         )
         .progress_chars("#>-");
 
-    let steps = (conf.t / conf.dt) as usize;
+    let steps = (conf.t / conf.dt).round() as usize;
     println!(
         "Generating dynamics histogram for {} steps i.e. t={}",
         steps,
@@ -914,7 +914,7 @@ pub fn run_langevin(conf: &mut Config, gamma: f64) {
             }
             pb.reset_eta();
             //Round is necessary!
-            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt).round() as u64;
+            let tau_steps: i64 = (spin_chain.vars.tau / spin_chain.vars.dt).round() as i64;
 
             spin_chain.log();
 
@@ -922,7 +922,8 @@ pub fn run_langevin(conf: &mut Config, gamma: f64) {
                 spin_chain.update();
 
                 if spin_chain.vars.strob {
-                    if ((spin_chain.t / spin_chain.vars.dt) as u64).rem_euclid(tau_steps) == 0 {
+                    let step: i64 = (spin_chain.t / spin_chain.vars.dt).round() as i64;
+                    if step.rem_euclid(tau_steps) == 0 {
                         spin_chain.log();
                     }
                 } else {
@@ -979,7 +980,8 @@ pub fn run_sim_response(conf: &mut Config) {
                 spin_chain.metropolis_update();
             }
             pb.reset_eta();
-            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt) as u64;
+            //Round is necessary!
+            let tau_steps: i64 = (spin_chain.vars.tau / spin_chain.vars.dt).round() as i64;
 
             spin_chain.log();
             spin_chain.t = -spin_chain.vars.t;
@@ -992,8 +994,8 @@ pub fn run_sim_response(conf: &mut Config) {
                 }
 
                 if spin_chain.vars.strob {
-                    if ((spin_chain.t.abs() / spin_chain.vars.dt) as u64).rem_euclid(tau_steps) == 0
-                    {
+                    let step: i64 = (spin_chain.t / spin_chain.vars.dt).round() as i64;
+                    if step.rem_euclid(tau_steps) == 0 {
                         spin_chain.log();
                     }
                 } else {
@@ -1050,7 +1052,8 @@ pub fn run_sim(conf: &mut Config) {
                 spin_chain.metropolis_update();
             }
             pb.reset_eta();
-            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt) as u64;
+            //Round is necessary!
+            let tau_steps: i64 = (spin_chain.vars.tau / spin_chain.vars.dt).round() as i64;
 
             spin_chain.log();
 
@@ -1058,7 +1061,8 @@ pub fn run_sim(conf: &mut Config) {
                 spin_chain.update();
 
                 if spin_chain.vars.strob {
-                    if ((spin_chain.t / spin_chain.vars.dt) as u64).rem_euclid(tau_steps) == 0 {
+                    let step: i64 = (spin_chain.t / spin_chain.vars.dt).round() as i64;
+                    if step.rem_euclid(tau_steps) == 0 {
                         spin_chain.log();
                     }
                 } else {
@@ -1265,7 +1269,8 @@ pub fn run_ext(conf: &mut Config) {
                 spin_chain.metropolis_update();
             }
             pb.reset_eta();
-            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt) as u64;
+            //Round is necessary!
+            let tau_steps: i64 = (spin_chain.vars.tau / spin_chain.vars.dt).round() as i64;
 
             spin_chain.log();
 
@@ -1273,7 +1278,8 @@ pub fn run_ext(conf: &mut Config) {
                 spin_chain.update();
 
                 if spin_chain.vars.strob {
-                    if ((spin_chain.t / spin_chain.vars.dt) as u64).rem_euclid(tau_steps) == 0 {
+                    let step: i64 = (spin_chain.t / spin_chain.vars.dt).round() as i64;
+                    if step.rem_euclid(tau_steps) == 0 {
                         spin_chain.log_ext();
                     }
                 } else {
-- 
2.43.0


From 417b69fd55e78e92d8878e0dd7aa1d7c83aa036d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 13/25] fix: -n accepts its documented comma-separated list of
 periods

---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 66cfb01..f05a043 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -77,7 +77,12 @@ struct Args {
     config_desc: bool,
 
     ///Generate single-shot time-evolution at different drive periods tau
-    #[clap(long = "n-steps", short, value_name = "TAU1,TAU2,...")]
+    #[clap(
+        long = "n-steps",
+        short,
+        value_delimiter = ',',
+        value_name = "TAU1,TAU2,..."
+    )]
     n_steps_taus: Option<Vec<f64>>,
 
     ///Find adiabatic ensemble H-\\omega S^z
-- 
2.43.0


From ecb479015f7ed8fb43d83b07bf87472cbf24045a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 14/25] fix: -E accepts negative energy densities like the
 other fits

---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index f05a043..ee0b722 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -107,7 +107,12 @@ struct Args {
     ext: bool,
 
     /// Fit temperature of Monte-Carlo ensemble with energy density E in lab frame, leading Magnus
-    #[clap(short = 'E', long = "magnus-fit", value_name = "E")]
+    #[clap(
+        short = 'E',
+        long = "magnus-fit",
+        value_name = "E",
+        allow_hyphen_values = true
+    )]
     maglab: Option<f64>, //E
 
     //Set step limit when doing n-steps
-- 
2.43.0


From b362eb1a77490465a83d1f91bf264fea32bfcb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:44 +0000
Subject: [PATCH 15/25] fix: --beta also governs the modes run before the
 thermal ones (-e, -n, -A, -D, -H)

---
 src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index ee0b722..5b5b1d7 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -156,6 +156,9 @@ fn main() {
     if let Some(tau) = args.tau {
         conf.tau = tau;
     }
+    if let Some(beta) = args.beta {
+        conf.beta = beta;
+    }
 
     match args.config_desc {
         false => {}
-- 
2.43.0


From bf3c70b4a7896c14a78e3d01ad74b8c9ee081b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 16/25] fix: runs following -e in the same invocation no longer
 overwrite its logs

---
 src/main.rs | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 5b5b1d7..cf255f4 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -169,7 +169,6 @@ fn main() {
     }
     if args.ext {
         println!("Generating ext");
-        let mut conf = conf.clone();
         run_ext(&mut conf);
         default = false;
     }
-- 
2.43.0


From 86c7b7ffc7923c0f8d5db6c77f6813e98590b09c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:06 +0000
Subject: [PATCH 17/25] fix: sampling modes no longer truncate the logs of
 earlier trajectory runs

---
 src/obs.rs | 47 +++++++++++++++++++++++++++--------------------
 1 file changed, 27 insertions(+), 20 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index ddbd0c8..755bfb9 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -1,7 +1,16 @@
 use super::*;
 
+/// The same configuration without a trajectory log, for those modes which only sample: opening a
+/// log would truncate that of an earlier run
+fn unlogged(conf: &Config) -> Config {
+    Config {
+        log: false,
+        ..conf.clone()
+    }
+}
+
 pub fn estim_e(conf: &mut Config, beta: f64) -> f64 {
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
 
     sc.vars.beta = beta;
     let samples: usize = 1000;
@@ -20,7 +29,7 @@ pub fn estim_e(conf: &mut Config, beta: f64) -> f64 {
 }
 
 pub fn estim_e_maglab(conf: &mut Config, beta: f64) -> f64 {
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
 
     sc.vars.beta = beta;
     let samples: usize = 1000;
@@ -39,7 +48,7 @@ pub fn estim_e_maglab(conf: &mut Config, beta: f64) -> f64 {
 }
 
 pub fn estim_e_rot(conf: &mut Config, beta: f64) -> f64 {
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
 
     sc.vars.beta = beta;
     let samples: usize = 1000;
@@ -57,7 +66,7 @@ pub fn estim_e_rot(conf: &mut Config, beta: f64) -> f64 {
     e_samples.iter().fold(0.0, |acc, x| acc + x) / (samples as f64)
 }
 pub fn estim_e2(conf: &mut Config, beta: f64) -> f64 {
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
     //    println!("Field: {:?}", sc.static_h);
 
     //let omega: f64 = 2.0 * PI / conf.tau;
@@ -78,7 +87,7 @@ pub fn estim_e2(conf: &mut Config, beta: f64) -> f64 {
 }
 pub fn estim_eh(conf: &mut Config, beta: f64) -> f64 {
     // let omega: f64 = 2.0 * PI / conf.tau;
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
     //    println!("Field: {:?}", sc.static_h);
 
     //let omega: f64 = 2.0 * PI / conf.tau;
@@ -281,7 +290,7 @@ pub fn get_obs_maglab(conf: &mut Config) -> [f64; 4] {
     //
     conf.ssize = conf.hsize;
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
 
     let samples: usize = 8000;
     let mut e_samples: Vec<f64> = vec![0.0; samples];
@@ -315,7 +324,7 @@ pub fn get_obs_rot(conf: &mut Config) -> [f64; 4] {
     //
     conf.ssize = conf.hsize;
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
 
     let samples: usize = 8000;
     let mut e_samples: Vec<f64> = vec![0.0; samples];
@@ -348,7 +357,7 @@ pub fn get_obsh(conf: &mut Config) -> [f64; 4] {
     conf.ssize = conf.hsize;
     //    println!("Target? {}", estim_e(conf,2.88));
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
 
     let samples: usize = 8000;
     let mut e_samples: Vec<f64> = vec![0.0; samples];
@@ -379,7 +388,7 @@ pub fn get_obs(conf: &mut Config) -> [f64; 4] {
     conf.ssize = conf.hsize;
     //    println!("Target? {}", estim_e(conf,2.88));
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
 
     let samples: usize = 8000;
     let mut e_samples: Vec<f64> = vec![0.0; samples];
@@ -411,8 +420,7 @@ pub fn get_obs(conf: &mut Config) -> [f64; 4] {
 ///indeed thermalises via time-evolution
 pub fn gen_hist_magnus(conf: &mut Config, sample_num: usize) {
     conf.drive = DriveType::none;
-    conf.file = "x".to_string();
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
     let s: f64 = sc.vars.ssize as f64;
 
     let mc_hist = OpenOptions::new()
@@ -495,7 +503,7 @@ pub fn trajectory_mean_e(conf: &mut Config) -> f64 {
         let steps_in_cycle: usize = (conf.tau / conf.dt).round() as usize;
         pb.set_style(sty.clone());
 
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+        let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
 
         pool.execute(move || {
             pb.set_message(format!("run {}", i));
@@ -551,7 +559,7 @@ pub fn gen_single_traj(conf: &mut Config, sample_num: usize) {
     //Then sample every 10 cycles?
     let offset: f64 = 30.0;
     let final_t: f64 = (sample_num as f64 + offset) * conf.tau;
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
 
     let pb = ProgressBar::new(final_t as u64);
     let sty = ProgressStyle::default_bar()
@@ -641,7 +649,7 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
         let pb = m.add(ProgressBar::new(conf.t as u64));
         pb.set_style(sty.clone());
 
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+        let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
         //        sc.file = f.try_clone().unwrap();
 
         pool.execute(move || {
@@ -678,9 +686,8 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
 ///system indeed thermalises via time-evolution
 pub fn gen_hist(conf: &mut Config, sample_num: usize) {
     conf.drive = DriveType::none;
-    conf.file = "x".to_string();
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
 
     let mc_hist = OpenOptions::new()
         .create(true)
@@ -1134,7 +1141,7 @@ pub fn run_dyn_profile(conf: &mut Config) {
     //    let mut sc_orig: SpinChain = SpinChain::new(conf.clone(), conf.offset as usize).clone();
 
     for i in 0..num {
-        let mut spin_chain: SpinChain = SpinChain::new(conf.clone(), i + conf.offset as usize);
+        let mut spin_chain: SpinChain = SpinChain::new(unlogged(conf), i + conf.offset as usize);
         //        let mut spin_chain: SpinChain = sc_orig.clone();
         //        let txc = mpsc::Sender::clone(&tx);
         let txc_500 = mpsc::Sender::clone(&tx_500);
@@ -1533,7 +1540,7 @@ pub fn run_mc_magnus(conf: &mut Config) {
     let t_points: u32 = (points / threads) as u32;
 
     for i in 0..threads {
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), i);
+        let mut sc: SpinChain = SpinChain::new(unlogged(conf), i);
         let txc = mpsc::Sender::clone(&tx);
 
         //Make up points in last thread if not divisble
@@ -1626,7 +1633,7 @@ pub fn run_mc_profile(conf: &mut Config) {
     let t_points: u32 = (points / threads) as u32;
 
     for i in 0..threads {
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), i);
+        let mut sc: SpinChain = SpinChain::new(unlogged(conf), i);
         let txc = mpsc::Sender::clone(&tx);
 
         //Make up points in last thread if not divisble
@@ -1728,7 +1735,7 @@ pub fn run_mc(conf: &mut Config) {
     let t_points: u32 = (points / threads) as u32;
 
     for i in 0..threads {
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), i);
+        let mut sc: SpinChain = SpinChain::new(unlogged(conf), i);
         let txc = mpsc::Sender::clone(&tx);
 
         //Make up points in last thread if not divisble
-- 
2.43.0


From 89f5ca821ffd628808268d54a5859d5a735eaa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 18/25] fix: the documented configuration key drivetype is
 honoured

---
 src/config.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/config.rs b/src/config.rs
index 53d5ec8..6c58c01 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -60,6 +60,7 @@ pub struct Config {
     pub beta: f64,
     pub mc_points: usize,
     pub e: f64,
+    #[serde(alias = "drivetype")]
     pub drive: DriveType,
     pub log: bool,
 }
-- 
2.43.0


From 38c4bd3fc1cbefc7002aad10ade4f6b1336f7fcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:32 +0000
Subject: [PATCH 19/25] fix: --config-desc prints the description of the
 options (the file was empty)

---
 src/config-desc.toml | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/config-desc.toml b/src/config-desc.toml
index e69de29..1366c0a 100644
--- a/src/config-desc.toml
+++ b/src/config-desc.toml
@@ -0,0 +1,24 @@
+# Default config and description of options
+hsize = 512    # size of the system
+ssize = 8      # size of subsystem (driven part)
+t = 256.0      # final time of simulation
+dt = 0.02      # time-step for simulation
+runs = 2       # number runs to perform
+threads = 2    # number of parallel threads
+trel = 0.0     # minus initial time
+tau = 10.0     # period of drive
+lambda = 1.0   # value of J_z coupling
+hfield = [0.0, 0.0, 0.0] # constant h field on entire system
+hs = [0.0, 0.0, 0.0]     # constant h field on subsystem
+jvar = 0.001   # variance in J couplings (x, y, z independent)
+hvar = 0.0     # variance in field
+method = 2     # method for numerical integration (2=2nd order Suzuki-Trotter)
+ednsty = -0.66 # energy-density of initial state
+file = "log"   # pattern for log files i.e. log0.dat, log1.dat
+strob = false  # stroboscopic evaluation
+offset = 0     # first file i.e. log0.dat
+beta = 2.88    # beta (determined from ednsty)
+mc_points = 1000 # number of points for Monte-Carlo
+e = 0.9        # eccentricity (scale of y-drive if drivetype="xyelliptic")
+drivetype = "xyplane" # type of driving, can be "xyplane", "uniaxial", "xyelliptic", "staticfield", "none"
+log = true     # write log files
-- 
2.43.0


From 79463b5606e006b994aa1ba1f3b8c20ad9d36de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 20/25] fix: config.toml is replaced atomically, so that a
 crash never truncates it

---
 src/config.rs             | 10 ++++++++++
 src/main.rs               |  1 -
 src/obs.rs                | 10 +++++-----
 src/spinchain.rs          |  2 +-
 src/spinchain_langevin.rs |  2 +-
 5 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 6c58c01..6136bd4 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -95,4 +95,14 @@ impl Default for Config {
     }
 }
 
+impl Config {
+    /// Writes the configuration to `filename`, by way of a temporary file so that a crash leaves
+    /// either the previous configuration or the new one, and never a truncated file
+    pub fn write(&self, filename: &str) -> std::io::Result<()> {
+        let tmp: String = format!("{}.tmp", filename);
+        std::fs::write(&tmp, toml::to_string(self).unwrap())?;
+        std::fs::rename(&tmp, filename)
+    }
+}
+
 pub static CS: &str = include_str!("config-desc.toml");
diff --git a/src/main.rs b/src/main.rs
index cf255f4..e548a66 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -1,5 +1,4 @@
 use indicatif::{MultiProgress, ProgressBar, ProgressStyle};
-use std::fs;
 use std::fs::{File, OpenOptions};
 use std::io::{prelude::*, BufReader};
 use std::sync::mpsc;
diff --git a/src/obs.rs b/src/obs.rs
index 755bfb9..5b4f4b4 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -951,7 +951,7 @@ pub fn run_langevin(conf: &mut Config, gamma: f64) {
 
     //Update config
     conf.offset += num as u32;
-    fs::write("config.toml", toml::to_string(&conf).unwrap()).unwrap();
+    conf.write("config.toml").unwrap();
     println!("Finished {} runs", num);
 }
 
@@ -1023,7 +1023,7 @@ pub fn run_sim_response(conf: &mut Config) {
 
     //Update config
     conf.offset += num as u32;
-    fs::write("config.toml", toml::to_string(&conf).unwrap()).unwrap();
+    conf.write("config.toml").unwrap();
     println!("Finished {} runs", num);
 }
 
@@ -1090,7 +1090,7 @@ pub fn run_sim(conf: &mut Config) {
 
     //Update config
     conf.offset += num as u32;
-    fs::write("config.toml", toml::to_string(&conf).unwrap()).unwrap();
+    conf.write("config.toml").unwrap();
     println!("Finished {} runs", num);
 }
 
@@ -1240,7 +1240,7 @@ pub fn run_dyn_profile(conf: &mut Config) {
 
     //Update config
     conf.offset += num as u32;
-    fs::write("config.toml", toml::to_string(&conf).unwrap()).unwrap();
+    conf.write("config.toml").unwrap();
     println!("Finished {} runs", num);
 }
 
@@ -1307,7 +1307,7 @@ pub fn run_ext(conf: &mut Config) {
 
     //Update config
     conf.offset += num as u32;
-    fs::write("config.toml", toml::to_string(&conf).unwrap()).unwrap();
+    conf.write("config.toml").unwrap();
     println!("Finished {} runs", num);
 }
 
diff --git a/src/spinchain.rs b/src/spinchain.rs
index a49a7af..0281434 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -98,7 +98,7 @@ impl SpinChain {
                     "Problem reading {}, written default configuration to config.toml and using this",
                     filename
                 );
-                fs::write("config.toml", toml::to_string(&Config::default()).unwrap()).unwrap();
+                Config::default().write("config.toml").unwrap();
                 Config::default()
             }
         }
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index 1834383..d12d140 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -89,7 +89,7 @@ impl SpinChainLangevin {
                     "Problem reading {}, written default configuration to config.toml and using this",
                     filename
                 );
-                fs::write("config.toml", toml::to_string(&Config::default()).unwrap()).unwrap();
+                Config::default().write("config.toml").unwrap();
                 Config::default()
             }
         }
-- 
2.43.0


From c8138014d5d37f4f18c839498434e83a3bcfe3e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 21/25] fix: a configuration which is not valid text is refused
 instead of overwritten with defaults

---
 src/spinchain.rs          | 4 ++++
 src/spinchain_langevin.rs | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index 0281434..77097f4 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -93,6 +93,10 @@ impl SpinChain {
                     //Config::default()
                 }
             },
+            // Not even text: as invalid as above, and not to be replaced
+            Err(e) if e.kind() == std::io::ErrorKind::InvalidData => {
+                panic!("Invalid configuration: {:?}", e);
+            }
             Err(e) => {
                 eprintln!(
                     "Problem reading {}, written default configuration to config.toml and using this",
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index d12d140..78d5c85 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -84,6 +84,10 @@ impl SpinChainLangevin {
                     //Config::default()
                 }
             },
+            // Not even text: as invalid as above, and not to be replaced
+            Err(e) if e.kind() == std::io::ErrorKind::InvalidData => {
+                panic!("Invalid configuration: {:?}", e);
+            }
             Err(e) => {
                 eprintln!(
                     "Problem reading {}, written default configuration to config.toml and using this",
-- 
2.43.0


From 8d044e5c7dcd3a3918ed3906bb761b8962f9bf28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:33 +0000
Subject: [PATCH 22/25] fix: two-point average finds the t=0 row on the first
 line of a log

---
 src/obs.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index 5b4f4b4..0824126 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -1350,13 +1350,14 @@ pub fn two_point_average(conf: &mut Config) {
 
                     // First get the data at line 0
                     let reader = BufReader::new(file);
-                    for line in reader.lines().skip(1) {
+                    // (without skipping: a run with trel=0 has t=0 on its very first line)
+                    for line in reader.lines() {
                         let line = line.unwrap();
                         let line_data: Vec<f64> = line
                             .split(' ')
                             .flat_map(str::parse::<f64>)
                             .collect::<Vec<f64>>();
-                        if line_data[0].abs() < 1e-5 {
+                        if !line_data.is_empty() && line_data[0].abs() < 1e-5 {
                             t_zero_data = line_data;
                         }
                     }
-- 
2.43.0


From 18649027213f5d3de16ae5efa5fe9303e8799714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:14 +0000
Subject: [PATCH 23/25] fix: lab-frame Magnus energy is the one its sampler
 draws from

The temperature fit in the lab frame averaged an energy with the rotating-frame
corrections (of disordered couplings), which metropolis_update_maglab does not have.
---
 src/spinchain.rs | 58 ------------------------------------------------
 1 file changed, 58 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index 77097f4..c27b4a7 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -1526,64 +1526,6 @@ impl SpinChain {
             e += -self.spins[i].dir[2] / (2.0 * om);
         }
 
-        let mut mg: f64 = 0.0;
-        // Now for correction term
-        for index in 0..h {
-            let s_c: &Spin = &self.spins[index];
-            let s_l: &Spin = match index {
-                _ if index == 0 => &self.spins[h - 1],
-                _ => &self.spins[index - 1],
-            };
-            let s_ll: &Spin = match index {
-                _ if index == 0 => &self.spins[h - 2],
-                _ if index == 1 => &self.spins[h - 1],
-                _ => &self.spins[index - 2],
-            };
-
-            let s_r: &Spin = match index {
-                _ if index == h - 1 => &self.spins[0],
-                _ => &self.spins[index + 1],
-            };
-
-            let s_rr: &Spin = match index {
-                _ if index == h - 2 => &self.spins[0],
-                _ if index == h - 1 => &self.spins[1],
-                _ => &self.spins[index + 2],
-            };
-
-            let j_l: &[f64; 3] = match index {
-                _ if index == 0 => &self.j_couple[h - 1],
-                _ => &self.j_couple[index - 1],
-            };
-            let j_ll: &[f64; 3] = match index {
-                _ if index == 0 => &self.j_couple[h - 2],
-                _ if index == 1 => &self.j_couple[h - 1],
-                _ => &self.j_couple[index - 2],
-            };
-
-            let j_r: &[f64; 3] = &self.j_couple[index];
-            let j_rr: &[f64; 3] = match index {
-                _ if index == h - 1 => &self.j_couple[0],
-                _ => &self.j_couple[index + 1],
-            };
-
-            mg += (j_r[1] - j_r[0]) * (j_r[1] - j_r[0]) * SpinChain::zxi_trip(s_c, s_c, s_r);
-            mg += (j_r[1] - j_r[0]) * (j_r[1] - j_r[0]) * SpinChain::zxi_trip(s_r, s_r, s_c);
-            mg += (j_l[1] - j_l[0]) * (j_l[1] - j_l[0]) * SpinChain::zxi_trip(s_l, s_l, s_c);
-            mg += (j_l[1] - j_l[0]) * (j_l[1] - j_l[0]) * SpinChain::zxi_trip(s_c, s_c, s_l);
-            mg += (j_l[1] - j_l[0])
-                * (j_r[1] - j_r[0])
-                * (SpinChain::zxi_trip(s_r, s_l, s_c) + SpinChain::zxi_trip(s_l, s_r, s_c));
-            mg += (j_ll[1] - j_ll[0])
-                * (j_l[1] - j_l[0])
-                * (SpinChain::zxi_trip(s_c, s_ll, s_l) + SpinChain::zxi_trip(s_ll, s_c, s_l));
-            mg += (j_r[1] - j_r[0])
-                * (j_rr[1] - j_rr[0])
-                * (SpinChain::zxi_trip(s_rr, s_c, s_r) + SpinChain::zxi_trip(s_c, s_rr, s_r));
-        }
-
-        e -= mg / (16.0 * om);
-
         e / (h as f64)
     }
 
-- 
2.43.0


From d501e8a2d08e5990d3b8a5baae61ef5d52a12421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:21:21 +0000
Subject: [PATCH 24/25] fix: rotating-frame energy counts each Magnus
 correction once

Its sum over sites took all the terms touching a site, so bonds counted twice and
pairs of bonds three times; the sampler's energy difference has each of them once.
---
 src/spinchain.rs | 30 +-----------------------------
 1 file changed, 1 insertion(+), 29 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index c27b4a7..ef9a446 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -1569,59 +1569,31 @@ impl SpinChain {
         }
 
         let mut mg: f64 = 0.0;
-        // Now for correction term
+        // Now for correction term: every bond and every pair of neighbouring bonds once
         for index in 0..h {
             let s_c: &Spin = &self.spins[index];
             let s_l: &Spin = match index {
                 _ if index == 0 => &self.spins[h - 1],
                 _ => &self.spins[index - 1],
             };
-            let s_ll: &Spin = match index {
-                _ if index == 0 => &self.spins[h - 2],
-                _ if index == 1 => &self.spins[h - 1],
-                _ => &self.spins[index - 2],
-            };
 
             let s_r: &Spin = match index {
                 _ if index == h - 1 => &self.spins[0],
                 _ => &self.spins[index + 1],
             };
 
-            let s_rr: &Spin = match index {
-                _ if index == h - 2 => &self.spins[0],
-                _ if index == h - 1 => &self.spins[1],
-                _ => &self.spins[index + 2],
-            };
-
             let j_l: &[f64; 3] = match index {
                 _ if index == 0 => &self.j_couple[h - 1],
                 _ => &self.j_couple[index - 1],
             };
-            let j_ll: &[f64; 3] = match index {
-                _ if index == 0 => &self.j_couple[h - 2],
-                _ if index == 1 => &self.j_couple[h - 1],
-                _ => &self.j_couple[index - 2],
-            };
 
             let j_r: &[f64; 3] = &self.j_couple[index];
-            let j_rr: &[f64; 3] = match index {
-                _ if index == h - 1 => &self.j_couple[0],
-                _ => &self.j_couple[index + 1],
-            };
 
             mg += (j_r[1] - j_r[0]) * (j_r[1] - j_r[0]) * SpinChain::zxi_trip(s_c, s_c, s_r);
             mg += (j_r[1] - j_r[0]) * (j_r[1] - j_r[0]) * SpinChain::zxi_trip(s_r, s_r, s_c);
-            mg += (j_l[1] - j_l[0]) * (j_l[1] - j_l[0]) * SpinChain::zxi_trip(s_l, s_l, s_c);
-            mg += (j_l[1] - j_l[0]) * (j_l[1] - j_l[0]) * SpinChain::zxi_trip(s_c, s_c, s_l);
             mg += (j_l[1] - j_l[0])
                 * (j_r[1] - j_r[0])
                 * (SpinChain::zxi_trip(s_r, s_l, s_c) + SpinChain::zxi_trip(s_l, s_r, s_c));
-            mg += (j_ll[1] - j_ll[0])
-                * (j_l[1] - j_l[0])
-                * (SpinChain::zxi_trip(s_c, s_ll, s_l) + SpinChain::zxi_trip(s_ll, s_c, s_l));
-            mg += (j_r[1] - j_r[0])
-                * (j_rr[1] - j_rr[0])
-                * (SpinChain::zxi_trip(s_rr, s_c, s_r) + SpinChain::zxi_trip(s_c, s_rr, s_r));
         }
 
         e -= mg / (16.0 * om);
-- 
2.43.0


From fe38f00ebd1af54c6792dd9dca68de858f483baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:22:09 +0000
Subject: [PATCH 25/25] fix: Langevin engine writes no log file when logging is
 disabled

---
 src/spinchain_langevin.rs | 39 +++++++++++++++++++++++----------------
 1 file changed, 23 insertions(+), 16 deletions(-)

diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index 78d5c85..050d090 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -63,7 +63,7 @@ pub struct SpinChainLangevin {
     ///Configuration variables for the system
     pub vars: Config,
     ///Log file
-    file: std::fs::File,
+    file: Option<std::fs::File>,
 }
 
 impl SpinChainLangevin {
@@ -234,8 +234,13 @@ impl SpinChainLangevin {
             &[conf.file.clone(), num.to_string(), ".dat".to_string()].join("");
 
         //Log file
-        let file = File::create(conf_file_name).unwrap();
-        writeln!(&file, "#t E_total E_sub M_x M_y M_z").unwrap();
+        let file = match conf.log {
+            true => Some(File::create(conf_file_name).unwrap()),
+            false => None,
+        };
+        if let Some(mut f) = file.as_ref() {
+            writeln!(f, "#t E_total E_sub M_x M_y M_z").unwrap();
+        }
         let t0: f64 = -conf.trel;
 
         SpinChainLangevin {
@@ -448,19 +453,21 @@ impl SpinChainLangevin {
         //Also calculate boundary terms
         let boundary_term: f64 = self.boundary_term();
 
-        writeln!(
-            &self.file,
-            "{} {} {} {} {} {} {} {}",
-            self.t,
-            es,
-            e,
-            m[0] / s,
-            m[1] / s,
-            m[2] / s,
-            mt[2] / self.vars.hsize as f64,
-            boundary_term
-        )
-        .unwrap();
+        if let Some(mut f) = self.file.as_ref() {
+            writeln!(
+                f,
+                "{} {} {} {} {} {} {} {}",
+                self.t,
+                es,
+                e,
+                m[0] / s,
+                m[1] / s,
+                m[2] / s,
+                mt[2] / self.vars.hsize as f64,
+                boundary_term
+            )
+            .unwrap();
+        }
     }
 
     /// Returns the energy of two spins coupled with j i.e. spin1.j.spin2
-- 
2.43.0

