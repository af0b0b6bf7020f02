From fe0b9d28813de45ee49f86a595ebe0ee28abe63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 01/19] fix: Polynomial * Polynomial and Polynomial += Term
 keep no zero terms

---
 src/polynomial.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index b350937..13fed44 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -64,7 +64,7 @@ impl_op_ex!(+= |a: &mut Polynomial, b: &term::Term| {
         if av.is_zero() {
             a.terms.remove(&b.monomial.clone());
         }
-    } else {
+    } else if !b.coef.is_zero() {
         a.terms.insert(b.monomial.clone(), b.coef.clone());
     }
 });
@@ -115,11 +115,7 @@ impl_op_ex!(* |a: &Polynomial, b: &Polynomial| -> Polynomial {
         for (jk, jv) in &b.terms {
             let j = term::Term::from(jk, jv);
             let l = i.clone() * j;
-            if let Some(lv) = pol.terms.get_mut(&l.monomial) {
-                *lv += &l.coef;
-            } else {
-                pol.terms.insert(l.monomial, l.coef);
-            }
+            pol += l;
         }
     }
     pol
-- 
2.43.0


From 9b3033bcf8ca1d12d7075da6b69afb61a1711491 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 02/19] fix: Term + Term keeps no zero terms

---
 src/term.rs | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/term.rs b/src/term.rs
index e39847d..3176f00 100644
--- a/src/term.rs
+++ b/src/term.rs
@@ -36,11 +36,7 @@ impl One for Term {
 
 impl_op_ex!(+ |a: &Term, b: &Term| -> polynomial::Polynomial {
     let mut pol = a.clone().to_pol();
-    if let Some(av) = pol.terms.get_mut(&b.monomial) {
-        *av += b.coef.clone(); 
-    } else {
-        pol.terms.insert(b.monomial, b.coef.clone());
-    }
+    pol += b;
     pol
 });
 
-- 
2.43.0


From df4e1464c04d173b159db33a5453df01c1c25bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:05 +0000
Subject: [PATCH 03/19] fix: Polynomial / Term keeps no zero terms

---
 src/polynomial.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 13fed44..f2a78bb 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -150,7 +150,7 @@ impl_op_ex!(/ |a: &Polynomial, b: &Polynomial| -> Polynomial {
             let (m, coef) = b.terms.iter().next().unwrap();
             let u2 = term::Term::from(m, coef); 
             let u = i / &u2;
-            pol.terms.insert(u.monomial, u.coef);
+            pol += u;
         }
         pol
     } else {
-- 
2.43.0


From b480411e4c84cc54f24c32b480e436891d1c2322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 04/19] fix: P + O is P

---
 src/elliptic_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic_curve.rs b/src/elliptic_curve.rs
index 5c8e3c8..d191d77 100644
--- a/src/elliptic_curve.rs
+++ b/src/elliptic_curve.rs
@@ -103,7 +103,7 @@ impl EllipticCurve {
         if point1.is_infinity() {
             return ECPoint::new(&point2.x, &point2.y, &point2.z);
         } else if point2.is_infinity() {
-            return ECPoint::new(&point1.x, &point2.y, &point2.z);
+            return ECPoint::new(&point1.x, &point1.y, &point1.z);
         }
         let p1 = self.canonicalize(point1);
         let p2 = self.canonicalize(point2);
-- 
2.43.0


From 266b52291477838d53cdef631dcbb1bb88e58849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 05/19] fix: multiply_scalar negates for negative n

---
 src/elliptic_curve.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/elliptic_curve.rs b/src/elliptic_curve.rs
index d191d77..64956d0 100644
--- a/src/elliptic_curve.rs
+++ b/src/elliptic_curve.rs
@@ -185,7 +185,7 @@ impl EllipticCurve {
             return ECPoint::infinity();
         } else if n < &Zero::zero() {
             let minus_np = self.multiply_scalar(point, &(-n));
-            return self.plus(&ECPoint::infinity(), &minus_np);
+            return self.negate(&minus_np);
         } else if n == &One::one() {
             return point.clone();
         }
-- 
2.43.0


From a8c654108b0ff5a5f63c8cd88823a648ecbc8029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 06/19] fix: polynomial_modular terminates for constant and
 unreduced operands

---
 src/polynomial.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index f2a78bb..a7caaf4 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -348,11 +348,13 @@ impl Polynomial {
     pub fn polynomial_modular(&self, other: &Polynomial, p: &BigInt) -> Self {
         assert!(!other.has_y(), "!other.has_y()");
         assert!(!other.has_q(), "!other.has_q()");
+        let other = &(other % p);
+        assert!(!other.is_zero(), "!other.is_zero()");
         let oh = other.highest_term_x();
-        let mut r = self.clone();
+        let mut r = self % p;
         loop {
             let rh = r.highest_term_x();
-            if rh.xpow() < oh.xpow() {
+            if r.is_zero() || rh.xpow() < oh.xpow() {
                 break;
             }
             let mut q = term_builder::TermBuilder::new()
@@ -360,6 +362,7 @@ impl Polynomial {
                     .xpow(rh.xpow() - oh.xpow())
                     .ypow(rh.ypow())
                     .qpow(rh.qpow())
+                    .variable(rh.variable())
                     .build();
             q.modular_assign(&p);
             let mut d = q * other;
-- 
2.43.0


From 7ca90a180a86d5056b480ce2b83d4d2527354ef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:06 +0000
Subject: [PATCH 07/19] fix: Polynomial gcd of zero and unreduced operands,
 is_gcd_one

---
 src/polynomial.rs | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index a7caaf4..0ba27a6 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -437,27 +437,27 @@ impl Polynomial {
 
     pub fn is_gcd_one(&self, other: &Self, p: &BigInt) -> bool {
         let m = self.gcd(other, p);
-        return !m.is_zero();
+        return m == One::one();
     }
 
     pub fn gcd(&self, other: &Self, p: &BigInt) -> Polynomial {
-        let s = self.highest_term_x();
-        let o = other.highest_term_x();
-        if s.xpow() < o.xpow() {
-            return other.gcd(self, p);
+        let s = self % p;
+        let o = other % p;
+        if o.is_zero() {
+            return s.to_monic(p);
         }
-        let r = self.polynomial_modular(other, p);
-        if r.is_zero() {
-            return other.to_monic(p);
+        if s.highest_term_x().xpow() < o.highest_term_x().xpow() {
+            return o.gcd(&s, p);
         }
-        return other.gcd(&r, p);
+        let r = s.polynomial_modular(&o, p);
+        return o.gcd(&r, p);
     }
 
     pub fn to_monic(&self, p: &BigInt) -> Polynomial {
         if self.is_zero() {
             return self.clone();
         }
-        let s = self.highest_term_x();
+        let s = (self % p).highest_term_x();
         let inv = s.coef.inverse(p);
         let mut pol = self * term_builder::TermBuilder::new().coef(&inv).build();
         pol.modular_assign(p);
-- 
2.43.0


From 08a39873e5cf497e3c5db527bac34ce7e20eed15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 08/19] fix: Polynomial power_modulo with exponent 0

---
 src/polynomial.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index 0ba27a6..f7e794d 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -319,6 +319,9 @@ impl Polynomial {
         assert!(*n >= Zero::zero());
         let mut b = self % p;
         let mut r: Polynomial = One::one();
+        if n.is_zero() {
+            return &r % p;
+        }
         let mut e = n.clone();
         while &e > &One::one() {
             if e.is_odd() {
-- 
2.43.0


From 267decc4a3a5ed10029ebe12924e8378f6990840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 09/19] fix: BigInt power_modulo with exponent 0 is reduced

---
 src/bigint.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/bigint.rs b/src/bigint.rs
index 04ad186..b499852 100644
--- a/src/bigint.rs
+++ b/src/bigint.rs
@@ -68,7 +68,7 @@ impl Power<i32> for BigInt {
 impl PowerModulo for BigInt {
     fn power_modulo(&self, n: &BigInt, p: &BigInt) -> Self {
         if n == &Zero::zero() {
-            return One::one();
+            return BigInt::from(1).mod_floor(p);
         }
         let mut e = n.clone();
         let mut b = self.clone();
-- 
2.43.0


From 64e52f3ea57bc1e52ba004a8db47dc00b27c803d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 10/19] fix: variable_from_index does not truncate the index

---
 src/subscripted_variable.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/subscripted_variable.rs b/src/subscripted_variable.rs
index 939e679..0e74d62 100644
--- a/src/subscripted_variable.rs
+++ b/src/subscripted_variable.rs
@@ -133,10 +133,10 @@ impl SubscriptedVariableConverter {
     }
 
     pub fn variable_from_index(&self, index: u64) -> SubscriptedVariable {
-        let mut local_index: i32 = 0;
+        let mut local_index: u64 = 0;
         for i in num_iter::range(0, self.p+1) {
             for j in num_iter::range(i+1, self.p+1) {
-                if local_index == index as i32 {
+                if local_index == index {
                     return SubscriptedVariable {
                         i: i,
                         j: j,
@@ -147,7 +147,7 @@ impl SubscriptedVariableConverter {
             }
         } 
         for i in num_iter::range(0, self.p+1) {
-            if local_index == index as i32 {
+            if local_index == index {
                 return SubscriptedVariable {
                     i: i,
                     j: i,
-- 
2.43.0


From fc15d529f1c725b483c0d507a96042b672a72cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:07 +0000
Subject: [PATCH 11/19] fix: exponent maps of Polynomial add up terms that
 coincide

---
 src/polynomial.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index f7e794d..e5db1b0 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -504,7 +504,7 @@ impl Polynomial {
         for (m, coef) in &self.terms {
             let u = term::Term::from(m, coef);
             let u = u.to_frob(n);
-            pol.terms.insert(u.monomial, u.coef);
+            pol += u;
         }
         pol
     }
@@ -515,7 +515,7 @@ impl Polynomial {
         for (m, coef) in &self.terms {
             let u = term::Term::from(m, coef);
             let u = u.to_y_power(n);
-            pol.terms.insert(u.monomial, u.coef);
+            pol += u;
         }
         pol
     }
@@ -526,7 +526,7 @@ impl Polynomial {
         for (m, coef) in &self.terms {
             let u = term::Term::from(m, coef);
             let u = u.to_q_power(n);
-            pol.terms.insert(u.monomial, u.coef);
+            pol += u;
         }
         pol
     }
-- 
2.43.0


From 113295398bb12b2d322d9fcde5b9defe4c985d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 12/19] fix: Ord of Term is consistent with Eq

---
 src/term.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/term.rs b/src/term.rs
index 3176f00..3136483 100644
--- a/src/term.rs
+++ b/src/term.rs
@@ -329,6 +329,7 @@ impl Term {
 impl Ord for Term {
     fn cmp(&self, other: &Self) -> Ordering {
         self.monomial.cmp(&other.monomial)
+            .then_with(|| self.coef.cmp(&other.coef))
     }
 }
 
-- 
2.43.0


From 7e96f52f31d40604efdc0ddb6f30be67fc20c28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:08 +0000
Subject: [PATCH 13/19] fix: solve divides the first row by its pivot

---
 src/simultaneous_equation.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simultaneous_equation.rs b/src/simultaneous_equation.rs
index c63f21d..4cfdb81 100644
--- a/src/simultaneous_equation.rs
+++ b/src/simultaneous_equation.rs
@@ -56,7 +56,7 @@ pub fn solve(matrix: &Vec<Vec<BigInt>>) -> Vec<Vec<BigInt>> {
 
     // (ii) Substitute
     let col_prim = col_count -1;
-    for i in num_iter::range(1, col_count - 1).rev() {
+    for i in num_iter::range(0, col_count - 1).rev() {
         // diagonal coef
         let diag = a[row[i]][i].clone();
         let prim = a[row[i]][col_prim].clone();
-- 
2.43.0


From 507983b901e48c0b8a5c535b74365397638d3e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 14/19] fix: isogeny uses Velu's formulas modulo p

---
 src/elliptic_curve.rs | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/src/elliptic_curve.rs b/src/elliptic_curve.rs
index 64956d0..d7ee8a1 100644
--- a/src/elliptic_curve.rs
+++ b/src/elliptic_curve.rs
@@ -232,23 +232,21 @@ impl EllipticCurve {
     pub fn isogeny(&self, order: &BigInt) -> EllipticCurve {
         let pointvec = self.division_points(order);
         let points: vec::Vec<ECPoint> = pointvec.0.clone();
-        let is_odd_order = order.is_odd();
         let mut v = BigInt::from(0);
         let mut w = BigInt::from(0);
         for point in points {
             if !point.is_infinity() {
-                let gpx = (BigInt::from(3) * point.x.power(2) + &self.a).div_floor(&self.p);
-                let gpy = (- BigInt::from(2) * point.y).div_floor(&self.p);
-                let up = gpy.power(2).div_floor(&self.p);
-                let vp = if is_odd_order { gpx } else { gpx * BigInt::from(2) };
-                v += vp.clone();
-                w += up + point.x * vp;
+                // Velu's formulas, summed over both points of each pair +P, -P
+                let gpx = (BigInt::from(3) * point.x.power(2) + &self.a).mod_floor(&self.p);
+                let up = (BigInt::from(2) * point.y.power(2)).mod_floor(&self.p);
+                v += gpx.clone();
+                w += up + point.x * gpx;
             }
         }
-        v = v.div_floor(&self.p);
-        w = w.div_floor(&self.p);
-        let a = (&self.a - BigInt::from(5) * v).div_floor(&self.p);
-        let b = (&self.b - BigInt::from(7) * w).div_floor(&self.p);
+        v = v.mod_floor(&self.p);
+        w = w.mod_floor(&self.p);
+        let a = (&self.a - BigInt::from(5) * v).mod_floor(&self.p);
+        let b = (&self.b - BigInt::from(7) * w).mod_floor(&self.p);
         EllipticCurve::new(&a, &b, &self.p)
     }
 }
-- 
2.43.0


From 6a5868c9b74de16fea01c6c138f0adfa3c91f2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:55 +0000
Subject: [PATCH 15/19] fix: schoof numerator of the y coordinate

---
 src/schoof.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/schoof.rs b/src/schoof.rs
index a8e9c61..01abdf4 100644
--- a/src/schoof.rs
+++ b/src/schoof.rs
@@ -125,7 +125,7 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
             let d = omg - &g * division_polynomial::psi(a, b, ql).power(3);
             let d = d.reduction_modular(a, b, q);
 
-            let mut e = - division_polynomial::phi(a, b, ql) +
+            let mut e = division_polynomial::phi(a, b, ql) +
                     TermBuilder::new().coef(2).xpow(q.pow(2)).build()
                     * division_polynomial::psi(a, b, ql).power(2);
             e.modular_assign(&qq);
-- 
2.43.0


From 4cb13511f43199ab44588bf5f83020a3750435fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:55 +0000
Subject: [PATCH 16/19] fix: schoof eigenvalue case uses psi_l of the curve and
 y^q

---
 src/schoof.rs | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/src/schoof.rs b/src/schoof.rs
index 01abdf4..af13866 100644
--- a/src/schoof.rs
+++ b/src/schoof.rs
@@ -200,22 +200,21 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
                 p12.modular_assign(&qq);
                 let p13 = p12.reduction_modular(a, b, q);
 
-                let p14 = &division_polynomial::psi(&qq, b, l) % q;
+                let p14 = &division_polynomial::psi(a, b, l) % q;
 
                 let qq = BigInt::from(q);
-                let p15 = p13.polynomial_modular(&p14, &qq);
 
-                if !p15.is_zero() {
+                if p13.is_gcd_one(&p14, &qq) {
                     mod_result.push(bigint::ModResult { l: BigInt::from(l), r: BigInt::from(0) });
                     println!("(e) y  a = 0 mod {}", l);
                 } else {
                     // (e) y
-                    let aa: i32 = a.clone().to_i32().unwrap();
-                    let mut p16 = (TermBuilder::new().ypow(aa).build()
-                              * division_polynomial::psi(a, b, w).power(3) - division_polynomial::omega(a, b, w)) /
-                            TermBuilder::new().ypow(1).build();
-                    p16.modular_assign(&qq);
-                    let p17 = p16.reduction_modular(a, b, q);
+                    let p16 = TermBuilder::new().ypow(q).build()
+                              * division_polynomial::psi(a, b, w).power(3) - division_polynomial::omega(a, b, w);
+                    let mut p17 = p16.reduction_modular(a, b, q);
+                    if p17.has_y() {
+                        p17 /= TermBuilder::new().ypow(1).build();
+                    }
                     let mut ww: BigInt;
                     let qq = BigInt::from(q);
                     if p17.is_gcd_one(&division_polynomial::psi(a, b, l), &qq) {
-- 
2.43.0


From f0ae95cce68f4c917be6052fac94cb5d59016ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:59 +0000
Subject: [PATCH 17/19] fix: schoof leaves phi^2 P = +-q P to the eigenvalue
 case

---
 src/schoof.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/schoof.rs b/src/schoof.rs
index af13866..a43f23b 100644
--- a/src/schoof.rs
+++ b/src/schoof.rs
@@ -88,6 +88,11 @@ pub fn schoof(a: &BigInt, b: &BigInt, q: i32) -> Vec<bigint::ModResult> {
 
         let mut found = false;
         let mut jj: i32 = Zero::zero();
+        // x' is not defined where phi^2 P = +-q P: left to (d)
+        let diff = division_polynomial::phi(a, b, ql)
+            - TermBuilder::new().xpow(q.pow(2)).build() * division_polynomial::psi(a, b, ql).power(2);
+        let diff = diff.reduction_modular(a, b, q);
+        let jmax = if diff.is_gcd_one(&psi_l, &qq) { jmax } else { 0 };
         for j in num_iter::range(1, jmax + 1) {
             println!("{} j:{}", line!(), j);
             // x
-- 
2.43.0


From be7922217016274cf5db4988fb461f8c6b1676d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:09:17 +0000
Subject: [PATCH 18/19] fix: sigma_divisor overflowed at n = i32::MAX

---
 src/divisor.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/divisor.rs b/src/divisor.rs
index cd899e5..8825155 100644
--- a/src/divisor.rs
+++ b/src/divisor.rs
@@ -12,7 +12,7 @@ pub fn sigma_divisor(n: i32, power: i32) -> BigInt {
         return Zero::zero();
     }
     let mut sum: BigInt = Zero::zero();
-    for i in num_iter::range(1, n + 1) {
+    for i in num_iter::range_inclusive(1, n) {
         if n % i == Zero::zero() {
             sum += BigInt::from(i).power(power);
         }
-- 
2.43.0


From 185646dd80211db012fee2d0e71ab5a2d2e52690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:11:50 +0000
Subject: [PATCH 19/19] fix: truncating at q-order i32::MAX overflowed

---
 src/polynomial.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/polynomial.rs b/src/polynomial.rs
index e5db1b0..7c98c65 100644
--- a/src/polynomial.rs
+++ b/src/polynomial.rs
@@ -666,13 +666,7 @@ impl Polynomial {
     pub fn omit_high_order_q(&mut self, order: i32) {
         assert!(!self.has_x(), "has_x()");
         assert!(!self.has_y(), "has_y()");
-        let m = term::Monomial {
-            xpow: 0,
-            ypow: 0,
-            qpow: order + 1,
-            variable: subscripted_variable::SubscriptedVariable::new(),
-        };
-        self.terms.split_off(&m);
+        self.terms.retain(|m, _| m.qpow <= order);
     }
 
     pub fn eval_x_polynomial(&self, polynomial: &polynomial::Polynomial) -> polynomial::Polynomial {
-- 
2.43.0

