From f95751527fbee6e9d4907a5fa862948759dce44d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:13 +0000
Subject: [PATCH 01/44] fix: return zero from Binomial::mass above the number
 of trials

The saddle-point expansion was evaluated at a negative number of failures and
returned NaN.
---
 src/distribution/binomial.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index ec8903e..868e46c 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -88,6 +88,9 @@ impl distribution::Discrete for Binomial {
     fn mass(&self, x: usize) -> f64 {
         use core::f64::consts::PI;
 
+        if x > self.n {
+            return 0.0;
+        }
         if self.p == 0.0 {
             return if x == 0 { 1.0 } else { 0.0 };
         }
-- 
2.43.0


From 2806cfe13fb7bfc84726e59e334d18a090dfddbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:30 +0000
Subject: [PATCH 02/44] fix: do not truncate the number of trials in
 Binomial::distribution

The cast to i32 made the distribution function at zero larger than one for
2^31 trials and more.
---
 src/distribution/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 868e46c..f924a85 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -129,7 +129,7 @@ impl distribution::Distribution for Binomial {
         }
         let x = x as usize;
         if x == 0 {
-            return self.q.powi(self.n as i32);
+            return self.q.powf(self.n as f64);
         }
         if x >= self.n {
             return 1.0;
-- 
2.43.0


From ad88531157d29204ad7941c324a53d543d9fb7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:31 +0000
Subject: [PATCH 03/44] fix: skip vanishing probabilities in Binomial::entropy

An outcome whose probability underflows to zero contributed zero times minus
infinity and turned the entropy into NaN, for instance, for 2000 fair trials.
---
 src/distribution/binomial.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index f924a85..3ca7d89 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -148,7 +148,14 @@ impl distribution::Entropy for Binomial {
             // Use a normal approximation.
             0.5 * ((2.0 * PI * self.npq).ln() + 1.0)
         } else {
-            -(0..(self.n + 1)).fold(0.0, |sum, i| sum + self.mass(i) * self.mass(i).ln())
+            -(0..(self.n + 1)).fold(0.0, |sum, i| {
+                let mass = self.mass(i);
+                if mass > 0.0 {
+                    sum + mass * mass.ln()
+                } else {
+                    sum
+                }
+            })
         }
     }
 }
-- 
2.43.0


From 338ed4157a0070cbe473a6d086c4d1b1229ca721 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:32 +0000
Subject: [PATCH 04/44] fix: correct a coefficient of the normal approximation
 in Binomial::inverse

The polynomial of the second-order term was to be divided by 1620 as a whole.
The misplaced parenthesis shifted quantiles away from the median by up to
dozens of outcomes.
---
 src/distribution/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 3ca7d89..fad000d 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -336,7 +336,7 @@ fn inverse_normal(p: f64, np: f64, v: f64, u: f64) -> f64 {
     (2.0 * p - 1.0) * w2 / 6.0 +
     sd_em1 * w3 * (2.0 * p2 - 2.0 * p - 1.0) / 72.0 -
     w * (7.0 * p2 - 7.0 * p + 1.0) / 36.0 +
-    sd_em2 * (2.0 * p - 1.0) * (p + 1.0) * (p - 2.0) * (3.0 * w4 + 7.0 * w2 - 16.0 / 1620.0) +
+    sd_em2 * (2.0 * p - 1.0) * (p + 1.0) * (p - 2.0) * (3.0 * w4 + 7.0 * w2 - 16.0) / 1620.0 +
     sd_em3 * (
         w5 * (4.0 * p4 - 8.0 * p3 - 48.0 * p2 + 52.0 * p - 23.0) / 17280.0 +
         w3 * (256.0 * p4 - 512.0 * p3 - 147.0 * p2 + 403.0 * p - 137.0) / 38880.0 -
-- 
2.43.0


From bb8bd9a5f0540a24ae2f74dc8a303f4d46f25ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:59:42 +0000
Subject: [PATCH 05/44] fix: scale a term of the normal approximation in
 Binomial::inverse

Both parts of the first-order term are to be divided by the standard deviation;
the linear one was not, which shifted quantiles by up to a fifth of an outcome
regardless of how large the variance was. What is left of the error matters
only next to a jump, where the distribution function is consulted.
---
 src/distribution/binomial.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index fad000d..26ded79 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -217,7 +217,18 @@ impl distribution::Inverse for Binomial {
             }
         } else if self.npq > 80.0 {
             // Use a normal approximation.
-            inverse_normal(self.p, self.np, self.npq, p).floor() as usize
+            let x = inverse_normal(self.p, self.np, self.npq, p);
+            let k = x.round();
+            if (x - k).abs() < 0.01 && k >= 1.0 && k <= self.n as f64 {
+                // The approximation is too close to a jump to choose a side.
+                if self.distribution(k - 1.0) >= p {
+                    k as usize - 1
+                } else {
+                    k as usize
+                }
+            } else {
+                (x.floor() as usize).min(self.n)
+            }
         } else {
             // Use Newton’s method starting at the mode.
             const ALPHA: f64 = 0.999;
@@ -334,8 +345,10 @@ fn inverse_normal(p: f64, np: f64, v: f64, u: f64) -> f64 {
     sd * w +
     (p + 1.0) / 3.0 -
     (2.0 * p - 1.0) * w2 / 6.0 +
-    sd_em1 * w3 * (2.0 * p2 - 2.0 * p - 1.0) / 72.0 -
-    w * (7.0 * p2 - 7.0 * p + 1.0) / 36.0 +
+    sd_em1 * (
+        w3 * (2.0 * p2 - 2.0 * p - 1.0) / 72.0 -
+        w * (7.0 * p2 - 7.0 * p + 1.0) / 36.0
+    ) +
     sd_em2 * (2.0 * p - 1.0) * (p + 1.0) * (p - 2.0) * (3.0 * w4 + 7.0 * w2 - 16.0) / 1620.0 +
     sd_em3 * (
         w5 * (4.0 * p4 - 8.0 * p3 - 48.0 * p2 + 52.0 * p - 23.0) / 17280.0 +
-- 
2.43.0


From 52f1a44c012186de7843e016a5838ebc960b928f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:09 +0000
Subject: [PATCH 06/44] =?UTF-8?q?fix:=20make=20Binomial::inverse=20termina?=
 =?UTF-8?q?te=20when=20its=20starting=20mass=20underflows=20or=20Newton?=
 =?UTF-8?q?=E2=80=99s=20method=20diverges?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 src/distribution/binomial.rs | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 26ded79..7a1fe9b 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -73,6 +73,21 @@ impl Binomial {
     pub fn q(&self) -> f64 {
         self.q
     }
+
+    /// Find the smallest outcome whose cumulative probability is at least `p`.
+    fn search(&self, p: f64) -> usize {
+        use distribution::Distribution;
+        let (mut low, mut high) = (0, self.n);
+        while low < high {
+            let middle = low + (high - low) / 2;
+            if self.distribution(middle as f64) < p {
+                low = middle + 1;
+            } else {
+                high = middle;
+            }
+        }
+        low
+    }
 }
 
 impl distribution::Discrete for Binomial {
@@ -181,6 +196,9 @@ impl distribution::Inverse for Binomial {
             ($prod_term: expr) => ({
                 let mut k = 1;
                 let mut a = self.q.powi(self.n as i32);
+                if a < core::f64::MIN_POSITIVE {
+                    return self.search(p);
+                }
                 let mut sum = a - p;
                 while sum < 0.0 {
                     a *= $prod_term(k);
@@ -194,6 +212,9 @@ impl distribution::Inverse for Binomial {
             ($prod_term: expr) => ({
                 let mut k = 1;
                 let mut a = self.p.powi(self.n as i32);
+                if a < core::f64::MIN_POSITIVE {
+                    return self.search(p);
+                }
                 let mut sum = (1.0 - p) - a;
                 while sum >= 0.0 {
                     a *= $prod_term(k);
@@ -232,16 +253,22 @@ impl distribution::Inverse for Binomial {
         } else {
             // Use Newton’s method starting at the mode.
             const ALPHA: f64 = 0.999;
+            const ITERATIONS: usize = 100;
             let mut q = self.modes()[0] as f64;
             let mut alpha = 1.0;
-            loop {
+            for _ in 0..ITERATIONS {
                 let delta = alpha * (p - self.distribution(q)) / self.mass(q as usize);
                 if delta.abs() < 0.5 {
                     return q as usize;
                 }
                 q += delta;
                 alpha *= ALPHA;
+                if !(0.0..=self.n as f64).contains(&q) {
+                    break;
+                }
             }
+            // The method has diverged.
+            self.search(p)
         }
     }
 }
-- 
2.43.0


From a7e5603ecf450be895d161743305ff1a9a9568ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:29 +0000
Subject: [PATCH 07/44] fix: select the right neighbor of the mean in
 Binomial::median

---
 src/distribution/binomial.rs | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 7a1fe9b..a7651d8 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -289,21 +289,20 @@ impl distribution::Mean for Binomial {
 
 impl distribution::Median for Binomial {
     fn median(&self) -> f64 {
-        use core::f64::consts::LN_2;
-        use distribution::Inverse;
+        use distribution::Distribution;
 
         if (self.np - self.np.trunc()) == 0.0 || (self.p == 0.5 && self.n % 2 != 0) {
             self.np
-        } else if self.p <= 1.0 - LN_2
-            || self.p >= LN_2
-            || (self.np.round() - self.np).abs() <= self.p.min(self.q)
-        {
+        } else if (self.np.round() - self.np).abs() <= self.p.min(self.q) {
             self.np.round()
-        } else if self.n > 1000 && self.npq > 80.0 {
-            // Use a normal approximation.
-            self.np.floor()
         } else {
-            self.inverse(0.5) as f64
+            // The median lies between the two integers enclosing the mean.
+            let floor = self.np.floor();
+            if self.distribution(floor) >= 0.5 {
+                floor
+            } else {
+                floor + 1.0
+            }
         }
     }
 }
-- 
2.43.0


From d77137fa0e794ffa8c1a1bf4bbe68710b19a3c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:30 +0000
Subject: [PATCH 08/44] fix: take the location into account in Beta::median of
 symmetric distributions

---
 src/distribution/beta.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index 8a89b27..895451f 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -127,7 +127,7 @@ impl distribution::Median for Beta {
     fn median(&self) -> f64 {
         use distribution::Inverse;
         if self.alpha == self.beta {
-            0.5 * (self.b - self.a)
+            0.5 * (self.a + self.b)
         } else if self.alpha > 1.0 && self.beta > 1.0 {
             self.a
                 + (self.b - self.a) * (self.alpha - 1.0 / 3.0)
-- 
2.43.0


From c73345af73f76cc05bd502eebfe1c6afdcbb08bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:49 +0000
Subject: [PATCH 09/44] fix: make the density of Beta and Pert a number at the
 endpoints when a shape is one

---
 src/distribution/beta.rs | 11 +++++++++--
 src/distribution/pert.rs | 11 +++++++++--
 2 files changed, 18 insertions(+), 4 deletions(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index 895451f..00e6c0e 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -65,8 +65,15 @@ impl distribution::Continuous for Beta {
         } else {
             let scale = self.b - self.a;
             let x = (x - self.a) / scale;
-            ((self.alpha - 1.0) * x.ln() + (self.beta - 1.0) * (-x).ln_1p() - self.ln_beta).exp()
-                / scale
+            // A unit shape contributes nothing, including when the logarithm is infinite.
+            let mut ln_density = -self.ln_beta;
+            if self.alpha != 1.0 {
+                ln_density += (self.alpha - 1.0) * x.ln();
+            }
+            if self.beta != 1.0 {
+                ln_density += (self.beta - 1.0) * (-x).ln_1p();
+            }
+            ln_density.exp() / scale
         }
     }
 }
diff --git a/src/distribution/pert.rs b/src/distribution/pert.rs
index 7edf373..72354a6 100644
--- a/src/distribution/pert.rs
+++ b/src/distribution/pert.rs
@@ -75,8 +75,15 @@ impl distribution::Continuous for Pert {
         } else {
             let scale = self.c - self.a;
             let x = (x - self.a) / scale;
-            ((self.alpha - 1.0) * x.ln() + (self.beta - 1.0) * (-x).ln_1p() - self.ln_beta).exp()
-                / scale
+            // A unit shape contributes nothing, including when the logarithm is infinite.
+            let mut ln_density = -self.ln_beta;
+            if self.alpha != 1.0 {
+                ln_density += (self.alpha - 1.0) * x.ln();
+            }
+            if self.beta != 1.0 {
+                ln_density += (self.beta - 1.0) * (-x).ln_1p();
+            }
+            ln_density.exp() / scale
         }
     }
 }
-- 
2.43.0


From 1c3f41e19f13436d9a0f573f8349a72d9d1e90c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:10 +0000
Subject: [PATCH 10/44] fix: resort to bisection in Beta::inverse when the
 approximation has not converged

---
 src/distribution/beta.rs | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index 00e6c0e..2029488 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -109,7 +109,25 @@ impl distribution::Inverse for Beta {
     fn inverse(&self, p: f64) -> f64 {
         use special::Beta;
         should!((0.0..=1.0).contains(&p));
-        self.a + (self.b - self.a) * p.inv_inc_beta(self.alpha, self.beta, self.ln_beta)
+        let inc_beta = |x: f64| x.inc_beta(self.alpha, self.beta, self.ln_beta);
+        let mut x = p.inv_inc_beta(self.alpha, self.beta, self.ln_beta);
+        if !(0.0..=1.0).contains(&x) || (inc_beta(x) - p).abs() > 1e-10 {
+            // The approximation has not converged, which is the case when a
+            // shape is small. Resort to bisection.
+            let (mut low, mut high) = (0.0, 1.0);
+            loop {
+                x = 0.5 * (low + high);
+                if x <= low || x >= high {
+                    break;
+                }
+                if inc_beta(x) < p {
+                    low = x;
+                } else {
+                    high = x;
+                }
+            }
+        }
+        self.a + (self.b - self.a) * x
     }
 }
 
-- 
2.43.0


From 1c57e347a580fa7f349fe3d1c52290b6112f2607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 11/44] fix: prevent Beta::sample from dividing zero by zero
 when the shapes are small

---
 src/distribution/beta.rs  |  6 ++++--
 src/distribution/gamma.rs | 17 +++++++++++++++++
 2 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index 2029488..317f69e 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -190,8 +190,10 @@ impl distribution::Sample for Beta {
         S: Source,
     {
         use distribution::gamma;
-        let x = gamma::sample(self.alpha, source);
-        let y = gamma::sample(self.beta, source);
+        let (x, ln_x) = gamma::sample_scaled(self.alpha, source);
+        let (y, ln_y) = gamma::sample_scaled(self.beta, source);
+        let ln_max = ln_x.max(ln_y);
+        let (x, y) = (x * (ln_x - ln_max).exp(), y * (ln_y - ln_max).exp());
         self.a + (self.b - self.a) * x / (x + y)
     }
 }
diff --git a/src/distribution/gamma.rs b/src/distribution/gamma.rs
index d769a21..0cd55be 100644
--- a/src/distribution/gamma.rs
+++ b/src/distribution/gamma.rs
@@ -127,6 +127,23 @@ impl distribution::Variance for Gamma {
     }
 }
 
+/// Draw a sample from the standard Gamma distribution as a positive number and
+/// the logarithm of the factor it should be multiplied by.
+///
+/// For small `k`, the product itself might be too small to be representable.
+pub fn sample_scaled<S: Source>(k: f64, source: &mut S) -> (f64, f64) {
+    if k < 1.0 {
+        let x = sample(1.0 + k, source);
+        loop {
+            let u = source.read::<f64>();
+            if u > 0.0 {
+                return (x, u.ln() / k);
+            }
+        }
+    }
+    (sample(k, source), 0.0)
+}
+
 /// Draw a sample from the standard Gamma distribution.
 pub fn sample<S: Source>(k: f64, source: &mut S) -> f64 {
     use distribution::gaussian;
-- 
2.43.0


From a6dbbb182280fdd58b0c7fcd27faccc56ae0e5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:30 +0000
Subject: [PATCH 12/44] fix: compute Gamma::density in the logarithmic domain
 to avoid overflow

---
 src/distribution/gamma.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/distribution/gamma.rs b/src/distribution/gamma.rs
index 0cd55be..e938166 100644
--- a/src/distribution/gamma.rs
+++ b/src/distribution/gamma.rs
@@ -10,7 +10,7 @@ use source::Source;
 pub struct Gamma {
     k: f64,
     theta: f64,
-    norm: f64,
+    ln_norm: f64,
 }
 
 impl Gamma {
@@ -25,7 +25,7 @@ impl Gamma {
         Gamma {
             k,
             theta,
-            norm: k.gamma() * theta.powf(k),
+            ln_norm: k.ln_gamma().0 + k * theta.ln(),
         }
     }
 
@@ -47,7 +47,7 @@ impl distribution::Continuous for Gamma {
         if x <= 0.0 {
             0.0
         } else {
-            x.powf(self.k - 1.0) * (-x / self.theta).exp() / self.norm
+            ((self.k - 1.0) * x.ln() - x / self.theta - self.ln_norm).exp()
         }
     }
 }
-- 
2.43.0


From 5cdb549df0448f599e754660ec1dae0965a14f27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:11 +0000
Subject: [PATCH 13/44] fix: make Gamma::density vanish at infinity

---
 src/distribution/gamma.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/gamma.rs b/src/distribution/gamma.rs
index e938166..8648b21 100644
--- a/src/distribution/gamma.rs
+++ b/src/distribution/gamma.rs
@@ -44,7 +44,7 @@ impl Gamma {
 
 impl distribution::Continuous for Gamma {
     fn density(&self, x: f64) -> f64 {
-        if x <= 0.0 {
+        if x <= 0.0 || x == core::f64::INFINITY {
             0.0
         } else {
             ((self.k - 1.0) * x.ln() - x / self.theta - self.ln_norm).exp()
-- 
2.43.0


From 9f212996e0632c875ea5081870f5b8b12becf7f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:12 +0000
Subject: [PATCH 14/44] fix: prevent overflow in Logistic::density far below
 the location

---
 src/distribution/logistic.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/distribution/logistic.rs b/src/distribution/logistic.rs
index 23d0b43..f800fdd 100644
--- a/src/distribution/logistic.rs
+++ b/src/distribution/logistic.rs
@@ -45,7 +45,8 @@ impl Default for Logistic {
 impl distribution::Continuous for Logistic {
     #[inline]
     fn density(&self, x: f64) -> f64 {
-        let exp = (-(x - self.mu) / self.s).exp();
+        // The density is symmetric; the sign is chosen to avoid overflow.
+        let exp = (-(x - self.mu).abs() / self.s).exp();
         exp / (self.s * (1.0 + exp).powi(2))
     }
 }
-- 
2.43.0


From 48270781fdb3f6d06795c9f2f692d1f3a6ddb151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:13 +0000
Subject: [PATCH 15/44] fix: skip vanishing probabilities in
 Categorical::entropy

---
 src/distribution/categorical.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/distribution/categorical.rs b/src/distribution/categorical.rs
index e4ba842..8a54d7d 100644
--- a/src/distribution/categorical.rs
+++ b/src/distribution/categorical.rs
@@ -75,7 +75,11 @@ impl distribution::Distribution for Categorical {
 
 impl distribution::Entropy for Categorical {
     fn entropy(&self) -> f64 {
-        -self.p.iter().fold(0.0, |sum, p| sum + p * p.ln())
+        -self
+            .p
+            .iter()
+            .filter(|&&p| p > 0.0)
+            .fold(0.0, |sum, p| sum + p * p.ln())
     }
 }
 
-- 
2.43.0


From 435fdcabf32b17991d80851319f175cf016b7b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:14 +0000
Subject: [PATCH 16/44] fix: keep rounding errors out of the total probability
 of Categorical

---
 src/distribution/categorical.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/distribution/categorical.rs b/src/distribution/categorical.rs
index 8a54d7d..8c53d4c 100644
--- a/src/distribution/categorical.rs
+++ b/src/distribution/categorical.rs
@@ -26,10 +26,14 @@ impl Categorical {
 
         let k = p.len();
         let mut cumsum = p.to_vec();
-        for i in 1..(k - 1) {
-            cumsum[i] += cumsum[i - 1];
+        for i in 1..k {
+            cumsum[i] = (cumsum[i] + cumsum[i - 1]).min(1.0);
+        }
+        // The total is one by definition, regardless of rounding.
+        let last = p.iter().rposition(|&p| p > 0.0).unwrap_or(k - 1);
+        for sum in &mut cumsum[last..] {
+            *sum = 1.0;
         }
-        cumsum[k - 1] = 1.0;
         Categorical {
             k,
             p: p.to_vec(),
-- 
2.43.0


From f11a553f2fd960d675e67f08d3b3d526877b2be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:14 +0000
Subject: [PATCH 17/44] fix: avoid cancellation in Triangular::variance and
 Triangular::skewness

---
 src/distribution/triangular.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distribution/triangular.rs b/src/distribution/triangular.rs
index f2c1682..426177b 100644
--- a/src/distribution/triangular.rs
+++ b/src/distribution/triangular.rs
@@ -157,7 +157,7 @@ impl distribution::Skewness for Triangular {
     fn skewness(&self) -> f64 {
         let &Triangular { a, b, c } = self;
         let npart = (a + b - 2.0 * c) * (2.0 * a - b - c) * (a - 2.0 * b + c);
-        let dpart = a * a + b * b + c * c - a * b - a * c - b * c;
+        let dpart = ((a - b).powi(2) + (b - c).powi(2) + (c - a).powi(2)) / 2.0;
         (2f64.sqrt() * npart) / (5.0 * dpart.powf(3.0 / 2.0))
     }
 }
@@ -165,7 +165,7 @@ impl distribution::Skewness for Triangular {
 impl distribution::Variance for Triangular {
     fn variance(&self) -> f64 {
         let &Triangular { a, b, c } = self;
-        (a * a + b * b + c * c - a * b - a * c - b * c) / 18.0
+        ((a - b).powi(2) + (b - c).powi(2) + (c - a).powi(2)) / 36.0
     }
 }
 
-- 
2.43.0


From 2d39f8b2f3de6998b2ee258d477fd27db84d1843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 18/44] fix: avoid cancellation in the moments of Lognormal

---
 src/distribution/lognormal.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/distribution/lognormal.rs b/src/distribution/lognormal.rs
index bd6baf8..5feb452 100644
--- a/src/distribution/lognormal.rs
+++ b/src/distribution/lognormal.rs
@@ -89,7 +89,7 @@ impl distribution::Kurtosis for Lognormal {
     #[inline]
     fn kurtosis(&self) -> f64 {
         let s2 = self.sigma * self.sigma;
-        (4.0 * s2).exp() + 2.0 * (3.0 * s2).exp() + 3.0 * (2.0 * s2).exp() - 6.0
+        (4.0 * s2).exp_m1() + 2.0 * (3.0 * s2).exp_m1() + 3.0 * (2.0 * s2).exp_m1()
     }
 }
 
@@ -127,8 +127,8 @@ impl distribution::Sample for Lognormal {
 impl distribution::Skewness for Lognormal {
     #[inline]
     fn skewness(&self) -> f64 {
-        let es2 = (self.sigma * self.sigma).exp();
-        (es2 - 1.0).sqrt() * (2.0 + es2)
+        let s2 = self.sigma * self.sigma;
+        s2.exp_m1().sqrt() * (2.0 + s2.exp())
     }
 }
 
@@ -136,7 +136,7 @@ impl distribution::Variance for Lognormal {
     #[inline]
     fn variance(&self) -> f64 {
         let s2 = self.sigma * self.sigma;
-        (s2.exp() - 1.0) * (2.0 * self.mu + s2).exp()
+        s2.exp_m1() * (2.0 * self.mu + s2).exp()
     }
 }
 
-- 
2.43.0


From 31041d0788b4edf14e4b88c99209616e2ce73141 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:44 +0000
Subject: [PATCH 19/44] fix: prevent overflow in Lognormal::entropy

---
 src/distribution/lognormal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/lognormal.rs b/src/distribution/lognormal.rs
index 5feb452..d3ddcfb 100644
--- a/src/distribution/lognormal.rs
+++ b/src/distribution/lognormal.rs
@@ -75,7 +75,7 @@ impl distribution::Entropy for Lognormal {
     #[inline]
     fn entropy(&self) -> f64 {
         use core::f64::consts::PI;
-        (self.sigma * (self.mu + 0.5).exp() * (2.0 * PI).sqrt()).ln()
+        self.sigma.ln() + self.mu + 0.5 + 0.5 * (2.0 * PI).ln()
     }
 }
 
-- 
2.43.0


From 84990e866de39e80c14c073dc4617fa644023ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:34 +0000
Subject: [PATCH 20/44] fix: accept the documented boundary probabilities in
 Binomial

---
 src/distribution/binomial.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index a7651d8..2843036 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -22,7 +22,7 @@ impl Binomial {
     ///
     /// It should hold that `p >= 0` and `p <= 1`.
     pub fn new(n: usize, p: f64) -> Self {
-        should!(0.0 < p && p < 1.0);
+        should!((0.0..=1.0).contains(&p));
         let q = 1.0 - p;
         let np = n as f64 * p;
         let nq = n as f64 * q;
@@ -42,7 +42,7 @@ impl Binomial {
     /// It should hold that if `q >= 0` or `q <= 1`. This constructor is
     /// preferable when `q` is very small.
     pub fn with_failure(n: usize, q: f64) -> Self {
-        should!(0.0 < q && q < 1.0);
+        should!((0.0..=1.0).contains(&q));
         let p = 1.0 - q;
         let np = n as f64 * p;
         let nq = n as f64 * q;
-- 
2.43.0


From 75173ef44f01fd0d6984c883500d496b8742fdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:24 +0000
Subject: [PATCH 21/44] fix: keep masses of Binomial whose failure probability
 is tiny but positive

---
 src/distribution/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 2843036..83d7062 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -109,7 +109,7 @@ impl distribution::Discrete for Binomial {
         if self.p == 0.0 {
             return if x == 0 { 1.0 } else { 0.0 };
         }
-        if self.p == 1.0 {
+        if self.q == 0.0 {
             return if x == self.n { 1.0 } else { 0.0 };
         }
 
-- 
2.43.0


From bd1755b5920583f119a8f974c0500a6f4b868695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:05 +0000
Subject: [PATCH 22/44] fix: prevent Lognormal::density from dividing zero by
 zero next to the origin

---
 src/distribution/lognormal.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/lognormal.rs b/src/distribution/lognormal.rs
index d3ddcfb..3604a74 100644
--- a/src/distribution/lognormal.rs
+++ b/src/distribution/lognormal.rs
@@ -54,7 +54,7 @@ impl distribution::Continuous for Lognormal {
             0.0
         } else {
             let &Lognormal { mu, sigma, .. } = self;
-            (-(x.ln() - mu).powi(2) / (2.0 * sigma * sigma)).exp() / (x * sigma * (2.0 * PI).sqrt())
+            (-(x.ln() - mu).powi(2) / (2.0 * sigma * sigma)).exp() / (sigma * (2.0 * PI).sqrt()) / x
         }
     }
 }
-- 
2.43.0


From 3c8078a095465ab638320ec8b8c64520d6fe7d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:05 +0000
Subject: [PATCH 23/44] fix: keep Triangular::distribution within the unit
 interval

---
 src/distribution/triangular.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/distribution/triangular.rs b/src/distribution/triangular.rs
index 426177b..e9f4ad8 100644
--- a/src/distribution/triangular.rs
+++ b/src/distribution/triangular.rs
@@ -72,10 +72,11 @@ impl distribution::Distribution for Triangular {
             1.0
         } else {
             let diff = b - a;
+            // Rounding errors should not push the result outside the unit interval.
             if x <= c {
-                (x - a).powi(2) / diff / (c - a)
+                ((x - a).powi(2) / diff / (c - a)).min(1.0)
             } else {
-                1.0 - (b - x).powi(2) / diff / (b - c)
+                (1.0 - (b - x).powi(2) / diff / (b - c)).max(0.0)
             }
         }
     }
-- 
2.43.0


From e93de079d0d5646830a2495baebeb7af0f2e7ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:38 +0000
Subject: [PATCH 24/44] fix: make Beta::inverse and Pert::inverse terminate for
 extremely small probabilities

---
 src/distribution/beta.rs | 8 +++++++-
 src/distribution/pert.rs | 4 +---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index 317f69e..be0180f 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -110,7 +110,13 @@ impl distribution::Inverse for Beta {
         use special::Beta;
         should!((0.0..=1.0).contains(&p));
         let inc_beta = |x: f64| x.inc_beta(self.alpha, self.beta, self.ln_beta);
-        let mut x = p.inv_inc_beta(self.alpha, self.beta, self.ln_beta);
+        let mut x = if p > 0.0 && p < core::f64::MIN_POSITIVE.sqrt() {
+            // The approximation squares the probability and never terminates
+            // when the result is not representable.
+            core::f64::NAN
+        } else {
+            p.inv_inc_beta(self.alpha, self.beta, self.ln_beta)
+        };
         if !(0.0..=1.0).contains(&x) || (inc_beta(x) - p).abs() > 1e-10 {
             // The approximation has not converged, which is the case when a
             // shape is small. Resort to bisection.
diff --git a/src/distribution/pert.rs b/src/distribution/pert.rs
index 72354a6..044719d 100644
--- a/src/distribution/pert.rs
+++ b/src/distribution/pert.rs
@@ -117,9 +117,7 @@ impl distribution::Entropy for Pert {
 impl distribution::Inverse for Pert {
     #[inline]
     fn inverse(&self, p: f64) -> f64 {
-        use special::Beta;
-        should!((0.0..=1.0).contains(&p));
-        self.a + (self.c - self.a) * p.inv_inc_beta(self.alpha, self.beta, self.ln_beta)
+        distribution::Beta::new(self.alpha, self.beta, self.a, self.c).inverse(p)
     }
 }
 
-- 
2.43.0


From 341836de9cdf62e0f52a86db6fde6a891ee71962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:21 +0000
Subject: [PATCH 25/44] fix: make Beta::inverse and Pert::inverse terminate
 throughout the tails

---
 src/distribution/beta.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/distribution/beta.rs b/src/distribution/beta.rs
index be0180f..e490e09 100644
--- a/src/distribution/beta.rs
+++ b/src/distribution/beta.rs
@@ -110,9 +110,9 @@ impl distribution::Inverse for Beta {
         use special::Beta;
         should!((0.0..=1.0).contains(&p));
         let inc_beta = |x: f64| x.inc_beta(self.alpha, self.beta, self.ln_beta);
-        let mut x = if p > 0.0 && p < core::f64::MIN_POSITIVE.sqrt() {
-            // The approximation squares the probability and never terminates
-            // when the result is not representable.
+        const TAIL: f64 = 1e-8;
+        let mut x = if (p > 0.0 && p < TAIL) || (p < 1.0 && 1.0 - p < TAIL) {
+            // The approximation might never terminate far in the tails.
             core::f64::NAN
         } else {
             p.inv_inc_beta(self.alpha, self.beta, self.ln_beta)
-- 
2.43.0


From f9189855c3f60a4918e4511b418aa9e8715961c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:37 +0000
Subject: [PATCH 26/44] fix: make Binomial::inverse terminate when the
 summation misses the probability

---
 src/distribution/binomial.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 83d7062..03f5085 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -201,6 +201,10 @@ impl distribution::Inverse for Binomial {
                 }
                 let mut sum = a - p;
                 while sum < 0.0 {
+                    if k > self.n {
+                        // The sum has missed the probability due to rounding.
+                        return self.search(p);
+                    }
                     a *= $prod_term(k);
                     sum += a;
                     k += 1;
@@ -217,6 +221,10 @@ impl distribution::Inverse for Binomial {
                 }
                 let mut sum = (1.0 - p) - a;
                 while sum >= 0.0 {
+                    if k > self.n {
+                        // The sum has missed the probability due to rounding.
+                        return self.search(p);
+                    }
                     a *= $prod_term(k);
                     sum -= a;
                     k += 1;
-- 
2.43.0


From e76b8125bfbd29f4f4f9658db7ae5d6632151edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:52 +0000
Subject: [PATCH 27/44] fix: never invert a degenerate Binomial to an outcome
 of zero probability

---
 src/distribution/binomial.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 03f5085..c1ba7fa 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -192,6 +192,12 @@ impl distribution::Inverse for Binomial {
 
         should!((0.0..=1.0).contains(&p));
 
+        if self.p == 0.0 {
+            return 0;
+        } else if self.q == 0.0 {
+            return self.n;
+        }
+
         macro_rules! sum_bottom_up(
             ($prod_term: expr) => ({
                 let mut k = 1;
-- 
2.43.0


From 82617e0223ce1bcfc54a849aaf03df6fdd170362 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:46 +0000
Subject: [PATCH 28/44] fix: do not overflow in Binomial::modes at the largest
 number of trials

---
 src/distribution/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index c1ba7fa..4b0638f 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -323,7 +323,7 @@ impl distribution::Median for Binomial {
 
 impl distribution::Modes for Binomial {
     fn modes(&self) -> Vec<usize> {
-        let r = self.p * (self.n + 1) as f64;
+        let r = self.p * (self.n as f64 + 1.0);
         if r == 0.0 {
             vec![0]
         } else if self.p == 1.0 {
-- 
2.43.0


From 25c162dfd5679fa6e3ccb915d23b0dc310380604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:52 +0000
Subject: [PATCH 29/44] fix: make Binomial::entropy terminate for any number of
 trials

---
 src/distribution/binomial.rs | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 4b0638f..2d981ef 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -157,20 +157,21 @@ impl distribution::Distribution for Binomial {
 impl distribution::Entropy for Binomial {
     fn entropy(&self) -> f64 {
         use core::f64::consts::PI;
-        use distribution::Discrete;
+        use distribution::{Discrete, Modes};
 
         if self.n > 10000 && self.npq > 80.0 {
             // Use a normal approximation.
             0.5 * ((2.0 * PI * self.npq).ln() + 1.0)
         } else {
-            -(0..(self.n + 1)).fold(0.0, |sum, i| {
-                let mass = self.mass(i);
-                if mass > 0.0 {
-                    sum + mass * mass.ln()
-                } else {
-                    sum
-                }
-            })
+            // Sum over the outcomes whose masses do not vanish.
+            let mut low = self.modes()[0];
+            while low > 0 && self.mass(low - 1) > 0.0 {
+                low -= 1;
+            }
+            -(low..=self.n)
+                .map(|i| self.mass(i))
+                .take_while(|&mass| mass > 0.0)
+                .fold(0.0, |sum, mass| sum + mass * mass.ln())
         }
     }
 }
-- 
2.43.0


From 1017b2ec0a29dff50b0305de5a2d0fb80cff26ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:17 +0000
Subject: [PATCH 30/44] fix: do not underflow in Binomial::inverse when it
 returns zero

---
 src/distribution/binomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 2d981ef..1db4208 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -236,7 +236,7 @@ impl distribution::Inverse for Binomial {
                     sum -= a;
                     k += 1;
                 }
-                self.n - k + 1
+                self.n + 1 - k
             });
         );
 
-- 
2.43.0


From cc69a0ffa623aef8b1613766c38ab1957f822e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:36 +0000
Subject: [PATCH 31/44] fix: avoid overflow and underflow in Gaussian and
 lognormal densities

---
 src/distribution/gaussian.rs  | 2 +-
 src/distribution/lognormal.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distribution/gaussian.rs b/src/distribution/gaussian.rs
index 63cb259..8c44798 100644
--- a/src/distribution/gaussian.rs
+++ b/src/distribution/gaussian.rs
@@ -51,7 +51,7 @@ impl Default for Gaussian {
 
 impl distribution::Continuous for Gaussian {
     fn density(&self, x: f64) -> f64 {
-        (-(x - self.mu).powi(2) / (2.0 * self.sigma * self.sigma)).exp() / self.norm
+        (-0.5 * ((x - self.mu) / self.sigma).powi(2)).exp() / self.norm
     }
 }
 
diff --git a/src/distribution/lognormal.rs b/src/distribution/lognormal.rs
index 3604a74..a1ae3cb 100644
--- a/src/distribution/lognormal.rs
+++ b/src/distribution/lognormal.rs
@@ -54,7 +54,7 @@ impl distribution::Continuous for Lognormal {
             0.0
         } else {
             let &Lognormal { mu, sigma, .. } = self;
-            (-(x.ln() - mu).powi(2) / (2.0 * sigma * sigma)).exp() / (sigma * (2.0 * PI).sqrt()) / x
+            (-0.5 * ((x.ln() - mu) / sigma).powi(2)).exp() / (sigma * (2.0 * PI).sqrt()) / x
         }
     }
 }
-- 
2.43.0


From cc14a1dcd3c2c0d16f488b481ab26c8b683785c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 32/44] fix: avoid overflow and underflow in Cauchy::density

---
 src/distribution/cauchy.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/distribution/cauchy.rs b/src/distribution/cauchy.rs
index d56b93d..8ffb803 100644
--- a/src/distribution/cauchy.rs
+++ b/src/distribution/cauchy.rs
@@ -49,8 +49,15 @@ impl distribution::Continuous for Cauchy {
     #[inline]
     fn density(&self, x: f64) -> f64 {
         use core::f64::consts::PI;
-        let deviation = x - self.x_0;
-        self.gamma / (PI * (self.gamma * self.gamma + deviation * deviation))
+        // The ratio is chosen to avoid overflow and underflow of its square.
+        let deviation = (x - self.x_0).abs();
+        if deviation <= self.gamma {
+            let ratio = deviation / self.gamma;
+            1.0 / (PI * self.gamma * (1.0 + ratio * ratio))
+        } else {
+            let ratio = self.gamma / deviation;
+            ratio / (PI * deviation * (1.0 + ratio * ratio))
+        }
     }
 }
 
-- 
2.43.0


From c02e8865d5c4d0f5691122ae1cea3009c06b5a00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 33/44] fix: avoid overflow and underflow in
 Triangular::distribution

---
 src/distribution/triangular.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distribution/triangular.rs b/src/distribution/triangular.rs
index e9f4ad8..9e2cd08 100644
--- a/src/distribution/triangular.rs
+++ b/src/distribution/triangular.rs
@@ -74,9 +74,9 @@ impl distribution::Distribution for Triangular {
             let diff = b - a;
             // Rounding errors should not push the result outside the unit interval.
             if x <= c {
-                ((x - a).powi(2) / diff / (c - a)).min(1.0)
+                ((x - a) / diff * ((x - a) / (c - a))).min(1.0)
             } else {
-                (1.0 - (b - x).powi(2) / diff / (b - c)).max(0.0)
+                (1.0 - (b - x) / diff * ((b - x) / (b - c))).max(0.0)
             }
         }
     }
-- 
2.43.0


From eb46494694061f55b39a285e64d91ee712b6b98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 34/44] fix: keep accuracy of Binomial::mass at the ends of the
 support for small probabilities

---
 src/distribution/binomial.rs | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 1db4208..1c46836 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -115,9 +115,9 @@ impl distribution::Discrete for Binomial {
 
         let n = self.n as f64;
         if x == 0 {
-            (n * self.q.ln()).exp()
+            (n * ln_complement(self.q, self.p)).exp()
         } else if x == self.n {
-            (n * self.p.ln()).exp()
+            (n * ln_complement(self.p, self.q)).exp()
         } else {
             let x = x as f64;
             let n_m_x = n - x;
@@ -428,6 +428,17 @@ fn ln_d0(x: f64, np: f64) -> f64 {
     x * (x / np).ln() + np - x
 }
 
+/// Compute `ln(x)` where `y = 1 - x`, using the smaller one of the two, as it
+/// is the one that has not been rounded.
+#[inline]
+fn ln_complement(x: f64, y: f64) -> f64 {
+    if y < x {
+        (-y).ln_1p()
+    } else {
+        x.ln()
+    }
+}
+
 // strilerr(n) = ln(n!) - ln(sqrt(2π * n) * (n / e)^n)
 fn stirlerr(n: f64) -> f64 {
     const S0: f64 = 1.0 / 12.0;
-- 
2.43.0


From 0479c274d07d90fe7d59ccfececd12f3d5e797a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:44 +0000
Subject: [PATCH 35/44] fix: avoid overflow and underflow in
 Triangular::skewness

---
 src/distribution/triangular.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/distribution/triangular.rs b/src/distribution/triangular.rs
index 9e2cd08..104e37b 100644
--- a/src/distribution/triangular.rs
+++ b/src/distribution/triangular.rs
@@ -157,8 +157,11 @@ impl distribution::Sample for Triangular {
 impl distribution::Skewness for Triangular {
     fn skewness(&self) -> f64 {
         let &Triangular { a, b, c } = self;
-        let npart = (a + b - 2.0 * c) * (2.0 * a - b - c) * (a - 2.0 * b + c);
-        let dpart = ((a - b).powi(2) + (b - c).powi(2) + (c - a).powi(2)) / 2.0;
+        // The powers of unscaled differences might overflow or underflow.
+        let left = (c - a) / (b - a);
+        let right = (b - c) / (b - a);
+        let npart = (right - left) * (1.0 + left) * (1.0 + right);
+        let dpart = (1.0 + left * left + right * right) / 2.0;
         (2f64.sqrt() * npart) / (5.0 * dpart.powf(3.0 / 2.0))
     }
 }
-- 
2.43.0


From bb76ca2272d5f8189cbf85f5cf12c72d01fb0d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:39 +0000
Subject: [PATCH 36/44] fix: do not stop several outcomes short in the tail in
 Binomial::inverse

---
 src/distribution/binomial.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 1c46836..4d6c9cf 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -274,6 +274,10 @@ impl distribution::Inverse for Binomial {
             for _ in 0..ITERATIONS {
                 let delta = alpha * (p - self.distribution(q)) / self.mass(q as usize);
                 if delta.abs() < 0.5 {
+                    if self.distribution(q + 1.0) < p {
+                        // In the tail, the next outcome is not enough either.
+                        break;
+                    }
                     return q as usize;
                 }
                 q += delta;
@@ -282,7 +286,7 @@ impl distribution::Inverse for Binomial {
                     break;
                 }
             }
-            // The method has diverged.
+            // The method has diverged or stopped short.
             self.search(p)
         }
     }
-- 
2.43.0


From c5a51a5ef52bc2c3d6ee8dec9bb37178d45ecb3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:07 +0000
Subject: [PATCH 37/44] fix: do not lose the digits of small probabilities in
 Cauchy::inverse

---
 src/distribution/cauchy.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/distribution/cauchy.rs b/src/distribution/cauchy.rs
index 8ffb803..a54bb42 100644
--- a/src/distribution/cauchy.rs
+++ b/src/distribution/cauchy.rs
@@ -89,6 +89,11 @@ impl distribution::Inverse for Cauchy {
             NEG_INFINITY
         } else if 1.0 <= p {
             INFINITY
+        } else if p < 0.25 {
+            // The difference from one half would lose the digits of a small probability.
+            self.x_0 - self.gamma / (PI * p).tan()
+        } else if p > 0.75 {
+            self.x_0 + self.gamma / (PI * (1.0 - p)).tan()
         } else {
             self.x_0 + self.gamma * (PI * (p - 0.5)).tan()
         }
-- 
2.43.0


From b129484f13299ff677cc8ccc92332ab5252da604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:08 +0000
Subject: [PATCH 38/44] fix: do not overflow for subnormal probabilities in
 Logistic::inverse

---
 src/distribution/logistic.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/logistic.rs b/src/distribution/logistic.rs
index f800fdd..372fa0f 100644
--- a/src/distribution/logistic.rs
+++ b/src/distribution/logistic.rs
@@ -71,7 +71,7 @@ impl distribution::Inverse for Logistic {
     #[inline]
     fn inverse(&self, p: f64) -> f64 {
         should!((0.0..=1.0).contains(&p));
-        self.mu - self.s * (1.0 / p - 1.0).ln()
+        self.mu + self.s * (p / (1.0 - p)).ln()
     }
 }
 
-- 
2.43.0


From 8d57176ae596211ed56bd11c0dca7f5efe2e4561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:33 +0000
Subject: [PATCH 39/44] fix: do not lose the lower tail in
 Gaussian::distribution

---
 src/distribution/gaussian.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/distribution/gaussian.rs b/src/distribution/gaussian.rs
index 8c44798..c20eac3 100644
--- a/src/distribution/gaussian.rs
+++ b/src/distribution/gaussian.rs
@@ -61,7 +61,7 @@ impl distribution::Distribution for Gaussian {
     fn distribution(&self, x: f64) -> f64 {
         use core::f64::consts::SQRT_2;
         use special::Error;
-        (1.0 + ((x - self.mu) / (self.sigma * SQRT_2)).error()) / 2.0
+        ((self.mu - x) / (self.sigma * SQRT_2)).compl_error() / 2.0
     }
 }
 
-- 
2.43.0


From 1e6e7b30bd399b61b0c130963d45c09db78ee9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:35 +0000
Subject: [PATCH 40/44] fix: do not lose the lower tail in Cauchy::distribution

---
 src/distribution/cauchy.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/distribution/cauchy.rs b/src/distribution/cauchy.rs
index a54bb42..8e720f1 100644
--- a/src/distribution/cauchy.rs
+++ b/src/distribution/cauchy.rs
@@ -67,7 +67,13 @@ impl distribution::Distribution for Cauchy {
     #[inline]
     fn distribution(&self, x: f64) -> f64 {
         use core::f64::consts::FRAC_1_PI;
-        FRAC_1_PI * ((x - self.x_0) / self.gamma).atan() + 0.5
+        let z = (x - self.x_0) / self.gamma;
+        if z < -1.0 {
+            // The difference from one half would lose the digits of a small probability.
+            FRAC_1_PI * (-z.recip()).atan()
+        } else {
+            FRAC_1_PI * z.atan() + 0.5
+        }
     }
 }
 
-- 
2.43.0


From 2648dc81b8e59ea37db687745acabbf88b741a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:33 +0000
Subject: [PATCH 41/44] fix: do not lose a small success probability in
 Binomial::distribution(0)

---
 src/distribution/binomial.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 4d6c9cf..53077b1 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -138,13 +138,14 @@ impl distribution::Distribution for Binomial {
     ///
     /// The implementation is based on the incomplete beta function.
     fn distribution(&self, x: f64) -> f64 {
+        use distribution::Discrete;
         use special::Beta;
         if x < 0.0 {
             return 0.0;
         }
         let x = x as usize;
         if x == 0 {
-            return self.q.powf(self.n as f64);
+            return self.mass(0);
         }
         if x >= self.n {
             return 1.0;
-- 
2.43.0


From 3ade61e9b1136035f253ae35ae23fd43f13ad0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:34 +0000
Subject: [PATCH 42/44] fix: do not lose the certain outcome in
 Bernoulli::entropy

---
 src/distribution/bernoulli.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/distribution/bernoulli.rs b/src/distribution/bernoulli.rs
index d926db0..4fb5e55 100644
--- a/src/distribution/bernoulli.rs
+++ b/src/distribution/bernoulli.rs
@@ -84,7 +84,13 @@ impl distribution::Distribution for Bernoulli {
 
 impl distribution::Entropy for Bernoulli {
     fn entropy(&self) -> f64 {
-        -self.q * self.q.ln() - self.p * self.p.ln()
+        // The smaller probability is the one that has not been rounded.
+        let (ln_p, ln_q) = if self.p < self.q {
+            (self.p.ln(), (-self.p).ln_1p())
+        } else {
+            ((-self.q).ln_1p(), self.q.ln())
+        };
+        -self.q * ln_q - self.p * ln_p
     }
 }
 
-- 
2.43.0


From 8ec5a09b177e0ca90343c13220308de9a298e6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:27 +0000
Subject: [PATCH 43/44] fix: compute the modes of Binomial from the smaller
 probability

---
 src/distribution/binomial.rs | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/distribution/binomial.rs b/src/distribution/binomial.rs
index 53077b1..5a8fa0f 100644
--- a/src/distribution/binomial.rs
+++ b/src/distribution/binomial.rs
@@ -329,11 +329,20 @@ impl distribution::Median for Binomial {
 
 impl distribution::Modes for Binomial {
     fn modes(&self) -> Vec<usize> {
+        if self.q < self.p {
+            // The product with the smaller probability has a more accurate
+            // fractional part.
+            let r = self.q * (self.n as f64 + 1.0);
+            let k = self.n - r as usize;
+            return if r == 0.0 || (r - r.trunc()) != 0.0 {
+                vec![k]
+            } else {
+                vec![k, k + 1]
+            };
+        }
         let r = self.p * (self.n as f64 + 1.0);
         if r == 0.0 {
             vec![0]
-        } else if self.p == 1.0 {
-            vec![self.n]
         } else if (r - r.trunc()) != 0.0 {
             vec![r.floor() as usize]
         } else {
-- 
2.43.0


From e878c435febfd2b26390536628956c58f955adf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:44 +0000
Subject: [PATCH 44/44] fix: do not lose the digits of the shapes of Pert far
 from the origin

---
 src/distribution/pert.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/distribution/pert.rs b/src/distribution/pert.rs
index 044719d..791f90e 100644
--- a/src/distribution/pert.rs
+++ b/src/distribution/pert.rs
@@ -24,8 +24,8 @@ impl Pert {
     pub fn new(a: f64, b: f64, c: f64) -> Self {
         use special::Beta as SpecialBeta;
         should!(a < b && b < c);
-        let alpha = (4.0 * b + c - 5.0 * a) / (c - a);
-        let beta = (5.0 * c - a - 4.0 * b) / (c - a);
+        let alpha = 1.0 + 4.0 * ((b - a) / (c - a));
+        let beta = 1.0 + 4.0 * ((c - b) / (c - a));
         Pert {
             a,
             b,
-- 
2.43.0

