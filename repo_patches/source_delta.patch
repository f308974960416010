From c40bdb0d7cccd77c378912d7fb3ce7e62e918cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:50 +0000
Subject: [PATCH 01/29] fix: generator of a linear number field is -c0/c1, not
 -c1/c0

---
 libeantic/src/renf_elem/gen.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libeantic/src/renf_elem/gen.c b/libeantic/src/renf_elem/gen.c
index b0891e4..f16f0fb 100644
--- a/libeantic/src/renf_elem/gen.c
+++ b/libeantic/src/renf_elem/gen.c
@@ -17,8 +17,8 @@ void renf_elem_gen(renf_elem_t a, const renf_t nf)
 {
     if (nf->nf->flag & NF_LINEAR)
     {
-        fmpz_set(LNF_ELEM_NUMREF(a->elem), nf->nf->pol->coeffs + 1);
-        fmpz_set(LNF_ELEM_DENREF(a->elem), nf->nf->pol->coeffs);
+        fmpz_set(LNF_ELEM_NUMREF(a->elem), nf->nf->pol->coeffs);
+        fmpz_set(LNF_ELEM_DENREF(a->elem), nf->nf->pol->coeffs + 1);
 
         fmpz_neg(LNF_ELEM_NUMREF(a->elem), LNF_ELEM_NUMREF(a->elem));
 
-- 
2.43.0


From 8d3abfbabb46e83950a0c391e02146fa43913d3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:50 +0000
Subject: [PATCH 02/29] fix: renf_elem_fmpq_div computed b*c instead of b/c
 when a and c are distinct

---
 libeantic/src/renf_elem/fmpq_div.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libeantic/src/renf_elem/fmpq_div.c b/libeantic/src/renf_elem/fmpq_div.c
index d2e8eb3..9b6449e 100644
--- a/libeantic/src/renf_elem/fmpq_div.c
+++ b/libeantic/src/renf_elem/fmpq_div.c
@@ -17,5 +17,5 @@ void renf_elem_fmpq_div(renf_elem_t a, const fmpq_t b, const renf_elem_t c, cons
 {
     renf_elem_set(a, c, nf);
     renf_elem_inv(a, a, nf);
-    renf_elem_mul_fmpq(a, c, b, nf);
+    renf_elem_mul_fmpq(a, a, b, nf);
 }
-- 
2.43.0


From 88bdd8cc53cdeca130c1b189090404e31cc0c65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:01:13 +0000
Subject: [PATCH 03/29] fix: renf_elem_fmpq_sub left stale coefficients for the
 zero element of a quadratic field

---
 libeantic/src/renf_elem/fmpq_sub.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libeantic/src/renf_elem/fmpq_sub.c b/libeantic/src/renf_elem/fmpq_sub.c
index 6e5a164..0ddd670 100644
--- a/libeantic/src/renf_elem/fmpq_sub.c
+++ b/libeantic/src/renf_elem/fmpq_sub.c
@@ -24,6 +24,9 @@ static void arb_fmpq_sub(arb_t a, const fmpq_t c, const arb_t b, slong prec)
 
 void renf_elem_fmpq_sub(renf_elem_t a, const fmpq_t c, const renf_elem_t b, const renf_t nf)
 {
-    nf_elem_fmpq_sub(a->elem, c, b->elem, nf->nf);
+    /* We do not use nf_elem_fmpq_sub() since it leaves stale coefficients in */
+    /* the result when b is the zero element of a quadratic number field.     */
+    nf_elem_sub_fmpq(a->elem, b->elem, c, nf->nf);
+    nf_elem_neg(a->elem, a->elem, nf->nf);
     arb_fmpq_sub(a->emb, c, b->emb, nf->prec);
 }
-- 
2.43.0


From 43fd21aa9b2884a7e806af6de2c2bdf8e66735f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:45 +0000
Subject: [PATCH 04/29] fix: decide uniqueness of a real root on the exact ball

The endpoints of the ball were rounded outwards to the working precision and
their signs were only determined at twice that precision. Consequently, balls
that isolate a root were rejected and balls that do not contain a root could be
accepted. Also release all temporaries when the ball is rejected.
---
 .../fmpq_poly_extra/check_unique_real_root.c  | 90 ++++++++++++-------
 1 file changed, 59 insertions(+), 31 deletions(-)

diff --git a/libeantic/src/fmpq_poly_extra/check_unique_real_root.c b/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
index 0eaadac..fdda083 100644
--- a/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
+++ b/libeantic/src/fmpq_poly_extra/check_unique_real_root.c
@@ -18,12 +18,39 @@
 #include "../../e-antic/fmpz_poly_extra.h"
 #include "../../e-antic/fmpq_poly_extra.h"
 
-static __inline__ int
-arb_sgn2(arb_t a)
+/* Return the sign of the polynomial (pol, len) at the dyadic number x. */
+static int
+_fmpz_poly_sgn_at_arf(const fmpz * pol, slong len, const arf_t x, slong prec)
 {
-    if (arb_is_positive(a)) return 1;
-    else if (arb_is_negative(a)) return -1;
-    return 0;
+    arb_t b, c;
+    int sgn;
+
+    arb_init(b);
+    arb_init(c);
+    arb_set_arf(b, x);
+    _fmpz_poly_evaluate_arb(c, pol, len, b, prec);
+    if (arb_contains_zero(c))
+    {
+        /* The precision was not sufficient to determine the sign. */
+        fmpz_t num, den;
+        fmpq_t q;
+
+        fmpz_init(num);
+        fmpz_init(den);
+        fmpq_init(q);
+        arf_get_fmpq(q, x);
+        _fmpz_poly_evaluate_fmpq(num, den, pol, len, fmpq_numref(q), fmpq_denref(q));
+        sgn = fmpz_sgn(num) * fmpz_sgn(den);
+        fmpz_clear(num);
+        fmpz_clear(den);
+        fmpq_clear(q);
+    }
+    else
+        sgn = arf_sgn(arb_midref(c));
+    arb_clear(b);
+    arb_clear(c);
+
+    return sgn;
 }
 
 int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong prec)
@@ -45,7 +72,7 @@ int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong
     }
     else
     {
-        arb_t b, c;
+        arb_t b;
         arf_t l, r;
 
         fmpz * der;
@@ -53,40 +80,39 @@ int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong
         fmpz_poly_t pol2;
         slong n;
 
+        if (!arb_is_finite(a))
+            return 0;
+
         /* 1 - cheap test:                    */
         /*   - sign(left) * sign(right) = -1  */
         /*   - no zero of the derivative      */
-        arb_init(b);
-        arb_init(c);
+        /* Note that we need the exact endpoints of the ball here. */
         arf_init(l);
         arf_init(r);
-        arb_get_interval_arf(l, r, a, prec);
-        arb_set_arf(b, l);
-        _fmpz_poly_evaluate_arb(c, pol->coeffs, pol->length, b, 2*prec);
-        lsign = arb_sgn2(c);
+        arb_get_interval_arf(l, r, a, ARF_PREC_EXACT);
+        lsign = _fmpz_poly_sgn_at_arf(pol->coeffs, pol->length, l, 2*prec);
+        rsign = _fmpz_poly_sgn_at_arf(pol->coeffs, pol->length, r, 2*prec);
 
-        arb_set_arf(b, r);
-        _fmpz_poly_evaluate_arb(c, pol->coeffs, pol->length, b, 2*prec);
-        rsign = arb_sgn2(c);
+        if (lsign * rsign != -1)
+        {
+            arf_clear(l);
+            arf_clear(r);
+            return 0;
+        }
 
-        arb_clear(c);
-        if (lsign * rsign == -1)
+        arb_init(b);
+        der = _fmpz_vec_init(pol->length - 1);
+        _fmpz_poly_derivative(der, pol->coeffs, pol->length);
+        _fmpz_poly_evaluate_arb(b, der, pol->length - 1, a, prec);
+        _fmpz_vec_clear(der, pol->length - 1);
+
+        if (!arb_contains_zero(b))
         {
-            der = _fmpz_vec_init(pol->length - 1);
-            _fmpz_poly_derivative(der, pol->coeffs, pol->length);
-            _fmpz_poly_evaluate_arb(b, der, pol->length - 1, a, prec);
-            _fmpz_vec_clear(der, pol->length - 1);
-
-            if (!arb_contains_zero(b))
-            {
-                arf_clear(l);
-                arf_clear(r);
-                arb_clear(b);
-                return 1;
-            }
+            arf_clear(l);
+            arf_clear(r);
+            arb_clear(b);
+            return 1;
         }
-        else
-            return 0;
         arb_clear(b);
 
         /* 2 - expensive testing                                        */
@@ -96,6 +122,8 @@ int fmpq_poly_check_unique_real_root(const fmpq_poly_t pol, const arb_t a, slong
         fmpq_init(qr);
         arf_get_fmpq(ql, l);
         arf_get_fmpq(qr, r);
+        arf_clear(l);
+        arf_clear(r);
 
         fmpz_poly_init(pol2);
         fmpz_poly_fit_length(pol2, pol->length);
-- 
2.43.0


From c1130b239a5b3598ea732ee0040908cd62207931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:45 +0000
Subject: [PATCH 05/29] fix: bisection step must not report success without
 progress

When the sign at the midpoint could not be determined, the step returned the
input ball so the refinement of an embedding never terminated. The endpoints
were also rounded outwards, i.e., possibly beyond a neighboring root.
---
 .../src/fmpz_poly_extra/bisection_step_arb.c  | 69 ++++++++++---------
 1 file changed, 35 insertions(+), 34 deletions(-)

diff --git a/libeantic/src/fmpz_poly_extra/bisection_step_arb.c b/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
index 40fbf9a..57059a9 100644
--- a/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
+++ b/libeantic/src/fmpz_poly_extra/bisection_step_arb.c
@@ -52,55 +52,56 @@ void _fmpz_poly_bisection_step_arf(arf_t l, arf_t r, const fmpz * pol, slong len
     arf_clear(m);
 }
 
+/* Return the sign of (pol, len) at x or zero if prec is not sufficient to determine it. */
+static int _fmpz_poly_sgn_at_arf(const fmpz * pol, slong len, const arf_t x, slong prec)
+{
+    arb_t b, c;
+    int sgn;
+
+    arb_init(b);
+    arb_init(c);
+    arb_set_arf(b, x);
+    _fmpz_poly_evaluate_arb(c, pol, len, b, prec);
+    sgn = arb_contains_zero(c) ? 0 : arf_sgn(arb_midref(c));
+    arb_clear(b);
+    arb_clear(c);
+
+    return sgn;
+}
+
 int _fmpz_poly_bisection_step_arb(arb_t res, fmpz * pol, slong len, arb_t a, slong prec)
 {
-    int sl, sr;
-    arb_t b, c, rres;
+    int sl, sm, sr;
     arf_t l, r;
 
     arf_init(l);
     arf_init(r);
-    arb_init(b);
-    arb_init(c);
-    arb_init(rres);
-
-    /* set l, r as the left and right endpoint of the ball */
-    /* compute the signs of pol(l) and pol(r)              */
-    arb_get_interval_arf(l, r, a, prec);
 
-    arb_set_arf(b, l);
-    _fmpz_poly_evaluate_arb(c, pol, len, b, prec);
-    if (arb_contains_zero(c))
-    {
-        arf_clear(l);
-        arf_clear(r);
-        arb_clear(b);
-        arb_clear(c);
-        arb_clear(rres);
-        return 0;
-    }
-    sl = arf_sgn(arb_midref(c));
+    /* set l, r as the left and right endpoint of the ball and compute the  */
+    /* signs of pol at l, r, and at the center; the endpoints must be exact */
+    /* as a is only known to isolate a root                                 */
+    arb_get_interval_arf(l, r, a, ARF_PREC_EXACT);
+    sl = _fmpz_poly_sgn_at_arf(pol, len, l, prec);
+    sr = _fmpz_poly_sgn_at_arf(pol, len, r, prec);
+    sm = _fmpz_poly_sgn_at_arf(pol, len, arb_midref(a), prec);
 
-    arb_set_arf(b, r);
-    _fmpz_poly_evaluate_arb(c, pol, len, b, prec);
-    if (arb_contains_zero(c))
+    if (sm == 0 || sl * sr != -1)
     {
+        /* no progress is possible with this precision */
         arf_clear(l);
         arf_clear(r);
-        arb_clear(b);
-        arb_clear(c);
-        arb_clear(rres);
         return 0;
     }
-    sr = arf_sgn(arb_midref(c));
 
-    _fmpz_poly_bisection_step_arf(l, r, pol, len, sl, sr, prec);
-    arb_set_interval_arf(rres, l, r, prec);
-    arb_intersection(res, rres, a, prec);
+    /* set res to the half of a which contains the root */
+    arb_set(res, a);
+    mag_mul_2exp_si(arb_radref(res), arb_radref(res), -1);
+    arf_set_mag(l, arb_radref(res));
+    if (sm == sl)
+        arf_add(arb_midref(res), arb_midref(res), l, ARF_PREC_EXACT, ARF_RND_NEAR);
+    else
+        arf_sub(arb_midref(res), arb_midref(res), l, ARF_PREC_EXACT, ARF_RND_NEAR);
 
-    arb_clear(b);
-    arb_clear(c);
-    arb_clear(rres);
     arf_clear(l);
     arf_clear(r);
 
-- 
2.43.0


From ac0f5e6a0dd835456bb506b2edfceddf5710da07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:45 +0000
Subject: [PATCH 06/29] fix: precision overflow when refining a ball that is
 centered at zero

---
 libeantic/src/renf/refine_embedding.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libeantic/src/renf/refine_embedding.c b/libeantic/src/renf/refine_embedding.c
index bf15abb..b26ee0b 100644
--- a/libeantic/src/renf/refine_embedding.c
+++ b/libeantic/src/renf/refine_embedding.c
@@ -31,7 +31,8 @@ void renf_refine_embedding(renf_t nf, slong prec)
     cond *= nf->nf->pol->length;
     arb_init(tmp);
 
-    comp_prec = 2 * FLINT_ABS(arb_rel_accuracy_bits(nf->emb)) + cond;
+    /* Note that the relative accuracy is -ARF_PREC_EXACT when the midpoint is zero. */
+    comp_prec = 2 * FLINT_MIN(FLINT_ABS(arb_rel_accuracy_bits(nf->emb)), prec) + cond;
     while (arb_rel_accuracy_bits(nf->emb) < prec)
     {
         if(!_fmpz_poly_newton_step_arb(tmp,
@@ -56,7 +57,7 @@ void renf_refine_embedding(renf_t nf, slong prec)
         _fmpz_poly_relative_condition_number_2exp(&cond,
                 nf->nf->pol->coeffs, nf->nf->pol->length,
                 nf->emb, 32);
-        comp_prec = 2 * FLINT_ABS(arb_rel_accuracy_bits(nf->emb)) + cond * nf->nf->pol->length;
+        comp_prec = 2 * FLINT_MIN(FLINT_ABS(arb_rel_accuracy_bits(nf->emb)), prec) + cond * nf->nf->pol->length;
     }
     arb_clear(tmp);
 
-- 
2.43.0


From 687ac2d747690e83b10405fa60c488da83359120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:45 +0000
Subject: [PATCH 07/29] fix: negative condition numbers of tiny elements lead
 to negative precision

---
 .../src/renf_elem/relative_condition_number_2exp.c    | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/libeantic/src/renf_elem/relative_condition_number_2exp.c b/libeantic/src/renf_elem/relative_condition_number_2exp.c
index d24d020..8f14e9d 100644
--- a/libeantic/src/renf_elem/relative_condition_number_2exp.c
+++ b/libeantic/src/renf_elem/relative_condition_number_2exp.c
@@ -37,7 +37,14 @@ int renf_elem_relative_condition_number_2exp(slong * cond, renf_elem_t a, renf_t
         len = NF_ELEM(a->elem)->length;
     }
 
-    return _fmpz_poly_relative_condition_number_2exp(cond, p,
-                len, nf->emb, FLINT_MAX(nf->prec, 16));
+    if (_fmpz_poly_relative_condition_number_2exp(cond, p,
+                len, nf->emb, FLINT_MAX(nf->prec, 16)))
+        return 1;
+
+    /* No precision is gained when the element is tiny. */
+    if (*cond < 0)
+        *cond = 0;
+
+    return 0;
 }
 
-- 
2.43.0


From fa5620fac5b548d91f06c2cc2616eb063d4870a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:45 +0000
Subject: [PATCH 08/29] fix: do not reject an approximation that is only
 ambiguous at the default precision

When parsed at the default precision, the given approximation might contain
several roots even though all its digits determine a unique root.
---
 libeantic/srcxx/renf_class.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 0d4bf83..6de4d14 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -113,9 +113,12 @@ boost::intrusive_ptr<const renf_class> renf_class::make(const ::renf_t k, const
 
 boost::intrusive_ptr<const renf_class> renf_class::make(const std::string & minpoly, const std::string & gen, const std::string & emb, const slong prec)
 {
+    // The precision that is sufficient to parse all the digits provided.
+    const slong digits = 4 * static_cast<slong>(emb.size());
+
     return make(minpoly, gen, [&](slong p) -> std::string
     {
-        if (p != prec)
+        if (p != prec && p / 2 >= digits)
             throw std::invalid_argument("the given polynomial does not have a unique such root");
         return emb;
     }, prec);
-- 
2.43.0


From 828d4325b9e4bcec818b121e3e41abdbf1f374c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:47:36 +0000
Subject: [PATCH 09/29] fix: renf_elem_get_arb crashed in fields whose
 embedding is exact

The relative accuracy of an exact ball is ARF_PREC_EXACT; evaluating a rational
element at that precision runs out of memory.
---
 libeantic/src/renf_elem/get_arb.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libeantic/src/renf_elem/get_arb.c b/libeantic/src/renf_elem/get_arb.c
index f31f807..4c2ddec 100644
--- a/libeantic/src/renf_elem/get_arb.c
+++ b/libeantic/src/renf_elem/get_arb.c
@@ -31,7 +31,8 @@ renf_elem_get_arb(arb_t x, renf_elem_t a, renf_t nf, slong prec)
     }
 
     renf_elem_relative_condition_number_2exp(&cond, a, nf);
-    slong pprec = FLINT_MAX(nf->prec, arb_rel_accuracy_bits(nf->emb));
+    /* Note that the relative accuracy is ARF_PREC_EXACT when the embedding is exact. */
+    slong pprec = FLINT_MAX(nf->prec, FLINT_MIN(prec, arb_rel_accuracy_bits(nf->emb)));
     do
     {
         renf_elem_set_evaluation(a, nf, pprec + cond);
-- 
2.43.0


From 41f13536203e095f696332c75ff691a70d041140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:50 +0000
Subject: [PATCH 10/29] fix: double rounding when converting subnormal
 rationals to double

---
 libeantic/src/renf_elem/get_d.c | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/libeantic/src/renf_elem/get_d.c b/libeantic/src/renf_elem/get_d.c
index 08d6594..a3b2a86 100644
--- a/libeantic/src/renf_elem/get_d.c
+++ b/libeantic/src/renf_elem/get_d.c
@@ -51,19 +51,33 @@ double renf_elem_get_d(renf_elem_t a, renf_t nf, arf_rnd_t rnd)
 
     if (renf_elem_is_rational(a, nf))
     {
-        /* Delegate conversion of rational numbers to arf. */
+        /* Delegate conversion of rational numbers to arf. We must not round to
+         * DBL_MANT_DIG bits first, subnormal numbers would be rounded twice. */
+        slong bprec = 2 * DBL_MANT_DIG;
+        double d;
         fmpq_t b;
-        arf_t c;
+        arf_t lbound, ubound;
 
         fmpq_init(b);
-        arf_init(c);
+        arf_init(lbound);
+        arf_init(ubound);
 
         nf_elem_get_coeff_fmpq(b, a->elem, 0, nf->nf);
-        arf_set_fmpq(c, b, DBL_MANT_DIG, rnd);
 
-        double d = arf_get_d(c, rnd);
+        while (1)
+        {
+            arf_set_fmpq(lbound, b, bprec, ARF_RND_FLOOR);
+            arf_set_fmpq(ubound, b, bprec, ARF_RND_CEIL);
+
+            d = arf_get_d(lbound, rnd);
+            if (arf_get_d(ubound, rnd) == d)
+                break;
 
-        arf_clear(c);
+            bprec *= 2;
+        }
+
+        arf_clear(ubound);
+        arf_clear(lbound);
         fmpq_clear(b);
 
         return d;
-- 
2.43.0


From 6a31115ff87b5d66e32e894c797929e0b5c599b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:30 +0000
Subject: [PATCH 11/29] fix: negative working precision when refining the root
 of x

---
 libeantic/src/renf/refine_embedding.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libeantic/src/renf/refine_embedding.c b/libeantic/src/renf/refine_embedding.c
index b26ee0b..830df2d 100644
--- a/libeantic/src/renf/refine_embedding.c
+++ b/libeantic/src/renf/refine_embedding.c
@@ -28,7 +28,8 @@ void renf_refine_embedding(renf_t nf, slong prec)
     _fmpz_poly_relative_condition_number_2exp(&cond,
             nf->nf->pol->coeffs, nf->nf->pol->length,
             nf->emb, FLINT_MAX(nf->prec, 64));
-    cond *= nf->nf->pol->length;
+    /* The condition number of the polynomial x at a small ball is negative. */
+    cond = FLINT_MAX(cond, 0) * nf->nf->pol->length;
     arb_init(tmp);
 
     /* Note that the relative accuracy is -ARF_PREC_EXACT when the midpoint is zero. */
@@ -57,7 +58,7 @@ void renf_refine_embedding(renf_t nf, slong prec)
         _fmpz_poly_relative_condition_number_2exp(&cond,
                 nf->nf->pol->coeffs, nf->nf->pol->length,
                 nf->emb, 32);
-        comp_prec = 2 * FLINT_MIN(FLINT_ABS(arb_rel_accuracy_bits(nf->emb)), prec) + cond * nf->nf->pol->length;
+        comp_prec = 2 * FLINT_MIN(FLINT_ABS(arb_rel_accuracy_bits(nf->emb)), prec) + FLINT_MAX(cond, 0) * nf->nf->pol->length;
     }
     arb_clear(tmp);
 
-- 
2.43.0


From e8d72a1b94a192bac803fc72a4e352a7c7af257d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:16 +0000
Subject: [PATCH 12/29] fix: Sturm count between 0 and 1 miscounted vanishing
 terms of the sequence

---
 .../num_real_roots_0_1_sturm.c                | 22 ++++++++-----------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c b/libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c
index 5645eaf..a366087 100644
--- a/libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c
+++ b/libeantic/src/fmpz_poly_extra/num_real_roots_0_1_sturm.c
@@ -40,30 +40,26 @@ slong fmpz_poly_num_real_roots_0_1_sturm(fmpz_poly_t pol)
     fmpz_poly_evaluate_at_one(c, pol->coeffs, pol->length);
     s0b = fmpz_sgn(c);
 
-    t = 0;
+    /* a root at 0 */
+    t = (s0a == 0);
     while (!fmpz_poly_is_zero(p1))
     {
-        /* sign change at 0 */
+        /* sign change at 0 (vanishing terms of the Sturm sequence are ignored) */
         s = fmpz_sgn(p1->coeffs);
-        if (s0a == 0)
+        if (s != 0)
         {
-            t++;
-            s0a = s;
-        }
-        else if (s != s0a)
-        {
-            t++;
+            if (s == -s0a)
+                t++;
             s0a = s;
         }
 
         /* sign change at 1 */
         fmpz_poly_evaluate_at_one(c, p1->coeffs, p1->length);
         s = fmpz_sgn(c);
-        if (s0b == 0)
-            s0b = s;
-        else if (s != s0b)
+        if (s != 0)
         {
-            t--;
+            if (s == -s0b)
+                t--;
             s0b = s;
         }
 
-- 
2.43.0


From aa144bc7d853af567dba3853cb5f8e18db53a085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:16 +0000
Subject: [PATCH 13/29] fix: bound on positive roots paired coefficients of the
 same sign

Real roots beyond the wrong bound were missed by fmpz_poly_isolate_real_roots
and everything that builds on it, e.g., x^4 - x^3 - x^2 - 2*x - 2.
---
 libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c b/libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c
index 71168f8..1148033 100644
--- a/libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c
+++ b/libeantic/src/fmpz_poly_extra/positive_root_upper_bound_2exp.c
@@ -50,6 +50,9 @@ slong _fmpz_poly_positive_root_upper_bound_2exp_local_max(const fmpz * pol, slon
         bmin = WORD_MAX;
         for (j = i + 1; j < len; j++)
         {
+            /* only coefficients of the opposite sign can compensate p_i */
+            if (fmpz_sgn(pol + j) != sgn) continue;
+
             /* compare the current bound with the log (in base 2) of */
             /* (- 2^coeffs[j] * p_i / p_j) ^ (1 / (j - i))           */
             /* which equals                                          */
-- 
2.43.0


From 7ab35f90da5a4a489005a8c75a7320c73ed7c536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:19:36 +0000
Subject: [PATCH 14/29] fix: renf_set_embeddings_fmpz_poly rounded the center
 of isolating intervals

---
 libeantic/src/renf/set_embeddings_fmpz_poly.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libeantic/src/renf/set_embeddings_fmpz_poly.c b/libeantic/src/renf/set_embeddings_fmpz_poly.c
index 72d068e..110872b 100644
--- a/libeantic/src/renf/set_embeddings_fmpz_poly.c
+++ b/libeantic/src/renf/set_embeddings_fmpz_poly.c
@@ -51,7 +51,7 @@ slong renf_set_embeddings_fmpz_poly(renf * nf, fmpz_poly_t pol, slong lim, slong
     {
         arb_set_fmpz(a, c + i);
         arb_mul_2exp_si(a, a, 1);
-        arb_add_si(a, a, 1, prec);
+        arb_add_si(a, a, 1, ARF_PREC_EXACT);
         mag_one(arb_radref(a));
         arb_mul_2exp_si(a, a, k[i] - 1);
 
-- 
2.43.0


From cd4699eb657ea0cf5effd4d9e93e90803e8ce508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:42 +0000
Subject: [PATCH 15/29] fix: renf_equal identified distinct roots whose
 enclosures overlap

---
 libeantic/src/renf/equal.c | 50 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 49 insertions(+), 1 deletion(-)

diff --git a/libeantic/src/renf/equal.c b/libeantic/src/renf/equal.c
index 24edd06..9fa01d8 100644
--- a/libeantic/src/renf/equal.c
+++ b/libeantic/src/renf/equal.c
@@ -11,6 +11,9 @@
 
 #include "../../e-antic/config.h"
 
+#include <flint/fmpq.h>
+#include <flint/fmpq_poly.h>
+
 #include "../../e-antic/renf.h"
 
 static __inline__
@@ -19,7 +22,52 @@ int nf_equal(const nf_t nf1, const nf_t nf2)
     return fmpq_poly_equal(nf1->pol, nf2->pol);
 }
 
+/* Return the sign of pol at the dyadic number x. */
+static int fmpq_poly_sgn_at_arf(const fmpq_poly_t pol, const arf_t x)
+{
+    fmpq_t q, y;
+    int sgn;
+
+    fmpq_init(q);
+    fmpq_init(y);
+    arf_get_fmpq(q, x);
+    fmpq_poly_evaluate_fmpq(y, pol, q);
+    sgn = fmpq_sgn(y);
+    fmpq_clear(q);
+    fmpq_clear(y);
+
+    return sgn;
+}
+
 int renf_equal(const renf_t nf1, const renf_t nf2)
 {
-    return nf_equal(nf1->nf, nf2->nf) && arb_overlaps(nf1->emb, nf2->emb);
+    arf_t l1, r1, l2, r2;
+    int ans;
+
+    if (!nf_equal(nf1->nf, nf2->nf) || !arb_overlaps(nf1->emb, nf2->emb))
+        return 0;
+
+    if (arb_contains(nf1->emb, nf2->emb) || arb_contains(nf2->emb, nf1->emb))
+        return 1;
+
+    /* Each embedding contains exactly one root. The embeddings of distinct */
+    /* roots that are close to each other might overlap, so we need to      */
+    /* check that there is a root in the intersection.                      */
+    arf_init(l1);
+    arf_init(r1);
+    arf_init(l2);
+    arf_init(r2);
+
+    arb_get_interval_arf(l1, r1, nf1->emb, ARF_PREC_EXACT);
+    arb_get_interval_arf(l2, r2, nf2->emb, ARF_PREC_EXACT);
+
+    ans = fmpq_poly_sgn_at_arf(nf1->nf->pol, arf_cmp(l1, l2) > 0 ? l1 : l2)
+        * fmpq_poly_sgn_at_arf(nf1->nf->pol, arf_cmp(r1, r2) < 0 ? r1 : r2) <= 0;
+
+    arf_clear(l1);
+    arf_clear(r1);
+    arf_clear(l2);
+    arf_clear(r2);
+
+    return ans;
 }
-- 
2.43.0


From 2ca1bf2a4ed3686a713229681c3171afc9075e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:30 +0000
Subject: [PATCH 16/29] fix: fmpz_poly_set_str_pretty kept old coefficients of
 its destination

---
 libeantic/src/fmpz_poly_extra/set_str_pretty.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libeantic/src/fmpz_poly_extra/set_str_pretty.c b/libeantic/src/fmpz_poly_extra/set_str_pretty.c
index 5567284..c7cce9b 100644
--- a/libeantic/src/fmpz_poly_extra/set_str_pretty.c
+++ b/libeantic/src/fmpz_poly_extra/set_str_pretty.c
@@ -33,6 +33,7 @@ int fmpz_poly_set_str_pretty(fmpz_poly_t p, const char * s, const char * var)
         return -1;
     }
 
+    fmpz_poly_zero(p);
     for (long i = fmpq_poly_length(q) - 1; i >= 0; i--)
     {
         fmpz_poly_set_coeff_fmpz(p, i, fmpq_poly_numref(q) + i);
-- 
2.43.0


From ba617bdbffa7588e8245c27013a3c1133274389f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:24:59 +0000
Subject: [PATCH 17/29] fix: polynomial strings with zero or non-reduced
 denominators

Zero denominators are now reported as an error and other fractions are brought
into canonical form.
---
 libeantic/src/fmpq_poly_extra/set_str_pretty.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libeantic/src/fmpq_poly_extra/set_str_pretty.c b/libeantic/src/fmpq_poly_extra/set_str_pretty.c
index 4c45892..b9ef1e3 100644
--- a/libeantic/src/fmpq_poly_extra/set_str_pretty.c
+++ b/libeantic/src/fmpq_poly_extra/set_str_pretty.c
@@ -60,6 +60,9 @@ static int _monomial_set_str(fmpq_t coeff, slong * pow, const char * var, char *
 
         if (ans)
             return ans;
+        if (fmpz_is_zero(fmpq_denref(coeff)))
+            return -1;
+        fmpq_canonicalise(coeff);
         x = y;
     }
     else
-- 
2.43.0


From 578bed6f8b06963e864e04520270b9f3bd8fa2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:29:04 +0000
Subject: [PATCH 18/29] fix: signed overflow when raising an element to the
 power INT_MIN

---
 libeantic/srcxx/renf_elem_class.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libeantic/srcxx/renf_elem_class.cpp b/libeantic/srcxx/renf_elem_class.cpp
index 0aae188..0fad553 100644
--- a/libeantic/srcxx/renf_elem_class.cpp
+++ b/libeantic/srcxx/renf_elem_class.cpp
@@ -970,7 +970,7 @@ renf_elem_class renf_elem_class::pow(int exp) const
     if (exp < 0)
     {
         renf_elem_inv(res.renf_elem_t(), renf_elem_t(), nf->renf_t());
-        renf_elem_pow(res.renf_elem_t(), res.renf_elem_t(), static_cast<ulong>(-exp), nf->renf_t());
+        renf_elem_pow(res.renf_elem_t(), res.renf_elem_t(), -static_cast<ulong>(exp), nf->renf_t());
     }
     else
     {
-- 
2.43.0


From 00c7426e54bb824b3b15a4b2c151ac503df9c5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:45 +0000
Subject: [PATCH 19/29] fix: floor and ceil of zero read unused coefficients in
 fields of degree at least three

---
 libeantic/src/renf_elem/rounding_template.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libeantic/src/renf_elem/rounding_template.h b/libeantic/src/renf_elem/rounding_template.h
index 2ea68a4..8585a63 100644
--- a/libeantic/src/renf_elem/rounding_template.h
+++ b/libeantic/src/renf_elem/rounding_template.h
@@ -52,6 +52,8 @@ RENF_ELEM_INT(fmpz_t a, renf_elem_t b, renf_t nf)
             FMPZ_DIV(a, LNF_ELEM_NUMREF(b->elem), LNF_ELEM_DENREF(b->elem));
         else if (nf->nf->flag & NF_QUADRATIC)
             FMPZ_DIV(a, QNF_ELEM_NUMREF(b->elem), QNF_ELEM_DENREF(b->elem));
+        else if (NF_ELEM(b->elem)->length == 0)
+            fmpz_zero(a);
         else
             FMPZ_DIV(a, NF_ELEM_NUMREF(b->elem), NF_ELEM_DENREF(b->elem));
         return;
-- 
2.43.0


From 117232c1c7004f2df3f12ac6db546e382bc9af07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:45 +0000
Subject: [PATCH 20/29] fix: floordiv of irrational elements of different
 fields must raise an error

---
 libeantic/srcxx/renf_elem_class.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libeantic/srcxx/renf_elem_class.cpp b/libeantic/srcxx/renf_elem_class.cpp
index 0fad553..239f243 100644
--- a/libeantic/srcxx/renf_elem_class.cpp
+++ b/libeantic/srcxx/renf_elem_class.cpp
@@ -948,6 +948,7 @@ mpz_class renf_elem_class::floordiv(const renf_elem_class& rhs) const
             return (*this / rhs).floor();
         if (this->is_rational())
             return renf_elem_class(rhs.parent(), static_cast<mpq_class>(*this)).floordiv(rhs);
+        throw std::logic_error("not implemented: floor division of elements from different number fields");
     }
 
     mpz_class ret;
-- 
2.43.0


From fd1226daceb26457a2ee597fe0f0108ed9932563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:58:06 +0000
Subject: [PATCH 21/29] fix: reading an element from a stream must skip leading
 whitespace

---
 libeantic/srcxx/renf_class.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 6de4d14..5e84ca5 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -252,7 +252,11 @@ std::istream & operator>>(std::istream & is, renf_elem_class & a)
 
     if (is.eof()) throw std::invalid_argument("empty stream");
 
-    bool paren = is.peek() == std::char_traits<char>::to_int_type('(');
+    // skip leading whitespace
+    while (isspace(is.peek()))
+        is.get();
+
+    bool paren = !is.eof() && is.peek() == std::char_traits<char>::to_int_type('(');
     if (paren)
     {
         // read until ")"
-- 
2.43.0


From c5d9e45771ccc4c8872046e8d54d7084672bd666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:26:31 +0000
Subject: [PATCH 22/29] fix: release of the last handle raced with the creation
 of the same field

---
 libeantic/srcxx/renf_class.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 5e84ca5..e228ee6 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -293,7 +293,18 @@ void intrusive_ptr_add_ref(const renf_class* nf) {
 
 // Stop tracking a pointer to the field `nf`.
 void intrusive_ptr_release(const renf_class* nf) {
-    if (nf->refcount.fetch_sub(1, std::memory_order_release) == 4)
+    // Release without locking the registry unless this might be the last
+    // reference that is not internal to the renf_class itself.
+    auto count = nf->refcount.load(std::memory_order_relaxed);
+    while (count != 4)
+        if (nf->refcount.compare_exchange_weak(count, count - 1, std::memory_order_release, std::memory_order_relaxed))
+            return;
+
+    // The registry must be locked before this reference is gone, otherwise,
+    // renf_class::make() could hand out the field while we are deleting it.
+    std::lock_guard<std::mutex> lock(fields_mutex);
+
+    if (nf->refcount.fetch_sub(1, std::memory_order_acq_rel) == 4)
     {
         // All references to this field have been released, i.e., all
         // intrusive_ptr<const renf_class*> are gone except for the ones
@@ -301,8 +312,6 @@ void intrusive_ptr_release(const renf_class* nf) {
         // We remove this field from the registry of fields and then free the
         // memory it is occupying.
 
-        std::lock_guard<std::mutex> lock(fields_mutex);
-
         assert(fields.find(nf) != fields.end());
         fields.erase(nf);
         delete(nf);
-- 
2.43.0


From f6e4fb714762903a944ebe46cc23f4091cac3701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:06 +0000
Subject: [PATCH 23/29] fix: memory leaks when constructing fields and elements
 fails

---
 libeantic/srcxx/renf_class.cpp      | 13 ++++++++++++-
 libeantic/srcxx/renf_elem_class.cpp |  4 ++++
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index e228ee6..89881b6 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -137,8 +137,19 @@ boost::intrusive_ptr<const renf_class> renf_class::make(const std::string & minp
             throw std::invalid_argument("renf_class: can not read polynomial from string");
         }
 
+        std::string approximation;
+        try
+        {
+            approximation = emb(prec);
+        }
+        catch (...)
+        {
+            fmpq_poly_clear(p);
+            throw;
+        }
+
         arb_init(e);
-        if (arb_set_str(e, emb(prec).c_str(), prec))
+        if (arb_set_str(e, approximation.c_str(), prec))
         {
             fmpq_poly_clear(p);
             arb_clear(e);
diff --git a/libeantic/srcxx/renf_elem_class.cpp b/libeantic/srcxx/renf_elem_class.cpp
index 239f243..46ffcab 100644
--- a/libeantic/srcxx/renf_elem_class.cpp
+++ b/libeantic/srcxx/renf_elem_class.cpp
@@ -427,6 +427,7 @@ renf_elem_class::renf_elem_class(const renf_class& k, const std::string & str)
     if (err)
     {
         fmpq_poly_clear(p);
+        flint_free(t);
         throw std::invalid_argument("renf_elem_class fmpq_poly_set_str_pretty");
     }
     renf_elem_init(a, nf->renf_t());
@@ -445,7 +446,10 @@ renf_elem_class::renf_elem_class(const renf_class& k, const renf_elem_class & va
     else if (value.is_rational())
         renf_elem_set_mpq(a, static_cast<mpq_class>(value).get_mpq_t(), nf->renf_t());
     else
+    {
+        renf_elem_clear(a, nf->renf_t());
         throw std::logic_error("not implemented: coercion between these number fields");
+    }
 }
 
 renf_elem_class::renf_elem_class(const renf_class& k, const std::vector<int> & coefficients)
-- 
2.43.0


From ecaa588e2e0fc3c1da0895665f5ea1184910da4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:44 +0000
Subject: [PATCH 24/29] fix: exact enclosures when converting realalg number
 fields

The center and the radius of a realalg interval were rounded to floats, so the
resulting ball did not contain the root of larger generators.
---
 pyeantic/src/pyeantic/realalg_conversion.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyeantic/src/pyeantic/realalg_conversion.py b/pyeantic/src/pyeantic/realalg_conversion.py
index 4cc3125..4cba5e4 100644
--- a/pyeantic/src/pyeantic/realalg_conversion.py
+++ b/pyeantic/src/pyeantic/realalg_conversion.py
@@ -49,9 +49,11 @@ def realalg_interval_to_arb(i):
     from realalg.interval import Interval
     if not isinstance(i, Interval):
         raise ValueError
-    center = float(i.lower + i.upper) / 2.0 / 10.0 ** (i.precision)
-    rad = float(i.upper - i.lower) / 10.0 ** (i.precision - 1)
-    return '[' + str(center) + ' +/- ' + str(rad) + ']'
+    # We write out the exact center and radius since a float cannot hold all the
+    # digits of the interval.
+    center = '%se-%s' % (5 * (i.lower + i.upper), i.precision + 1)
+    rad = '%se-%s' % (i.upper - i.lower, i.precision - 1)
+    return '[' + center + ' +/- ' + rad + ']'
 
 def realalg_nf_to_eantic(K, name='a'):
     r"""
-- 
2.43.0


From f1e5ae9265e9c399708d56b740d0110866460496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:44 +0000
Subject: [PATCH 25/29] fix: keep Python field handles alive when they are used
 as parents

unwrap_intrusive_ptr() stored the owning pointer in the attribute __lifeline
which cppyy overwrites itself when a method returns a reference.
---
 pyeantic/src/pyeantic/cppyy_eantic.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyeantic/src/pyeantic/cppyy_eantic.py b/pyeantic/src/pyeantic/cppyy_eantic.py
index c60459d..02bcc88 100644
--- a/pyeantic/src/pyeantic/cppyy_eantic.py
+++ b/pyeantic/src/pyeantic/cppyy_eantic.py
@@ -131,7 +131,10 @@ def unwrap_intrusive_ptr(K):
         raise TypeError("argument must be an intrusive_ptr to a renf_class")
 
     wrapped = K.get()
-    wrapped.__lifeline = K
+    # Note that we must not call this attribute __lifeline. When a method such
+    # as parent() returns a reference, cppyy sets __lifeline to the object the
+    # method was called on, i.e., it would overwrite our intrusive_ptr.
+    wrapped._intrusive_ptr = K
 
     return wrapped
 
-- 
2.43.0


From 2338223abfdda4d2cc3776c9f2b0a4c88e1b3098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:44 +0000
Subject: [PATCH 26/29] fix: convert large Python integers and fractions
 exactly

cppyy silently truncated integers beyond 32 bits and rounded fractions to
integers when they were passed to C++ overloads.
---
 pyeantic/src/pyeantic/cppyy_eantic.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pyeantic/src/pyeantic/cppyy_eantic.py b/pyeantic/src/pyeantic/cppyy_eantic.py
index 02bcc88..87291c4 100644
--- a/pyeantic/src/pyeantic/cppyy_eantic.py
+++ b/pyeantic/src/pyeantic/cppyy_eantic.py
@@ -53,6 +53,7 @@ easier to test this in a SageMath doctest.)::
 
 import os
 import warnings
+from fractions import Fraction
 
 with warnings.catch_warnings():
     # Ignore deprecation warnings from cppyy calling into pkg_resources
@@ -168,6 +169,13 @@ def for_eantic(x):
 
     If no such conversion exists, leave the argument unchanged.
     """
+    if isinstance(x, int) and not -2**31 <= x < 2**31:
+        # cppyy silently truncates integers that do not fit into the parameter
+        # type of the first overload it selects.
+        return cppyy.gbl.mpz_class(cppyy.gbl.std.string(str(x)))
+    if isinstance(x, Fraction):
+        # without this conversion, cppyy silently rounds to an integer
+        return cppyy.gbl.mpq_class(cppyy.gbl.std.string(str(x)))
     if isinstance(x, (int, eantic.renf_elem_class, cppyy.gbl.mpz_class, cppyy.gbl.mpq_class)):
         return x
     if isinstance(x, (tuple, list)):
-- 
2.43.0


From db73d0d989d01014db54dd11d95e21615994db1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:44 +0000
Subject: [PATCH 27/29] fix: comparisons from Python never compare addresses

When a C++ comparison threw, e.g., for irrational elements of different number
fields, cppyy went on to other instantiations of the template and compared the
addresses of the operands. Now we select the instantiation explicitly.
---
 libeantic/e-antic/cppyy.hpp           | 12 ++++++++++++
 pyeantic/src/pyeantic/cppyy_eantic.py | 22 +++++++++++++++++++++-
 2 files changed, 33 insertions(+), 1 deletion(-)

diff --git a/libeantic/e-antic/cppyy.hpp b/libeantic/e-antic/cppyy.hpp
index 5b747bb..6808e73 100644
--- a/libeantic/e-antic/cppyy.hpp
+++ b/libeantic/e-antic/cppyy.hpp
@@ -34,6 +34,18 @@ template <typename S, typename T>
 auto mul(const S& lhs, const T& rhs) { return lhs * rhs; }
 template <typename S, typename T>
 auto truediv(const S& lhs, const T& rhs) { return lhs / rhs; }
+template <typename S, typename T>
+bool lt(const S& lhs, const T& rhs) { return lhs < rhs; }
+template <typename S, typename T>
+bool gt(const S& lhs, const T& rhs) { return lhs > rhs; }
+template <typename S, typename T>
+bool le(const S& lhs, const T& rhs) { return lhs <= rhs; }
+template <typename S, typename T>
+bool ge(const S& lhs, const T& rhs) { return lhs >= rhs; }
+template <typename S, typename T>
+bool eq(const S& lhs, const T& rhs) { return lhs == rhs; }
+template <typename S, typename T>
+bool ne(const S& lhs, const T& rhs) { return lhs != rhs; }
 template <typename T>
 auto neg(const T& value) { return -value; }
 
diff --git a/pyeantic/src/pyeantic/cppyy_eantic.py b/pyeantic/src/pyeantic/cppyy_eantic.py
index 87291c4..7c2c492 100644
--- a/pyeantic/src/pyeantic/cppyy_eantic.py
+++ b/pyeantic/src/pyeantic/cppyy_eantic.py
@@ -67,8 +67,28 @@ from cppyythonizations.util import filtered
 
 cppyy.py.add_pythonization(enable_pretty_printing, "eantic")
 
+def enable_order(proxy, name):
+    r"""
+    Make sure that comparisons never compare anything but the values of the
+    operands.
+
+    If the C++ operator throws an exception, e.g., because the operands live in
+    different number fields, cppyy goes on to try other instantiations of the
+    operator and eventually compares the addresses of the operands. Here, we
+    explicitly select the instantiation that should be called.
+    """
+    enable_total_order(proxy, name)
+
+    for op in ['lt', 'gt', 'le', 'ge', 'eq', 'ne']:
+        implementation = getattr(cppyy.gbl.eantic.cppyy, op)
+        def compare(lhs, rhs, implementation=implementation):
+            rhs = for_eantic(rhs)
+            return implementation[type(lhs), type(rhs)](lhs, rhs)
+
+        setattr(proxy, "__%s__" % (op,), compare)
+
 # Make sure that the operators <, >, <=, >=, ==, != are available.
-cppyy.py.add_pythonization(filtered('renf_elem_class')(enable_total_order), "eantic")
+cppyy.py.add_pythonization(filtered('renf_elem_class')(enable_order), "eantic")
 
 def enable_arithmetic(proxy, name):
     r"""
-- 
2.43.0


From 7f47a5f4600d19345099a996e0b8c69cd10e3156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:44 +0000
Subject: [PATCH 28/29] fix: construction data of fields with close roots could
 be ambiguous

The decimal representation of the enclosure describes a slightly larger ball
that might contain another root, e.g., when the enclosure came out of root
isolation, so that the field could not be recreated from its construction data
or from a serialized copy.
---
 libeantic/srcxx/renf_class.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/libeantic/srcxx/renf_class.cpp b/libeantic/srcxx/renf_class.cpp
index 89881b6..99b50bc 100644
--- a/libeantic/srcxx/renf_class.cpp
+++ b/libeantic/srcxx/renf_class.cpp
@@ -12,6 +12,7 @@
 
 #include <iostream>
 #include <atomic>
+#include <cstring>
 #include <mutex>
 #include <stdexcept>
 #include <type_traits>
@@ -203,13 +204,31 @@ const renf_elem_class& renf_class::gen() const
 }
 
 std::tuple<std::string, std::string, std::string, slong> renf_class::construction() const {
-  char * emb = arb_get_str(renf_t()->emb, arf_bits(arb_midref(renf_t()->emb)), 0);
-  char * pol = fmpq_poly_get_str_pretty(renf_t()->nf->pol, gen_name().c_str());
+  ::renf_t k;
+  renf_init_set(k, renf_t());
 
-  const auto construction = std::make_tuple(std::string(pol), gen_name(), std::string(emb), renf_t()->prec);
+  arb_t e;
+  arb_init(e);
+
+  char * emb = arb_get_str(k->emb, arf_bits(arb_midref(k->emb)), 0);
+
+  // The decimal representation describes a slightly bigger ball than the
+  // enclosure. If that ball contains another root as well, we need more digits.
+  while (arb_set_str(e, emb, 4 * static_cast<slong>(strlen(emb))) != 0 || !fmpq_poly_check_unique_real_root(k->nf->pol, e, k->prec))
+  {
+    flint_free(emb);
+    renf_refine_embedding(k, 2 * FLINT_MAX(arb_rel_accuracy_bits(k->emb), k->prec));
+    emb = arb_get_str(k->emb, arf_bits(arb_midref(k->emb)), 0);
+  }
+
+  char * pol = fmpq_poly_get_str_pretty(k->nf->pol, gen_name().c_str());
+
+  const auto construction = std::make_tuple(std::string(pol), gen_name(), std::string(emb), k->prec);
 
   flint_free(pol);
   flint_free(emb);
+  arb_clear(e);
+  renf_clear(k);
 
   return construction;
 }
-- 
2.43.0


From 762b6b0a21d6a1f5618e93234cf4857d4c44c047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:07:12 +0000
Subject: [PATCH 29/29] fix: a field destroyed while an archive is written must
 not be confused with another one

Only the address of a field was registered with cereal. When the field was
destroyed before the archive was complete, another field could be created at
the same address and was then saved as a reference to the first one.
---
 libeantic/e-antic/cereal.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libeantic/e-antic/cereal.hpp b/libeantic/e-antic/cereal.hpp
index 4fb9e75..e9c9439 100644
--- a/libeantic/e-antic/cereal.hpp
+++ b/libeantic/e-antic/cereal.hpp
@@ -30,7 +30,10 @@ template <class Archive>
 void save(Archive & archive, const boost::intrusive_ptr<const renf_class> & self)
 {
 #if CEREAL_VERSION >= 10301
-    uint32_t id = archive.registerSharedPointer(std::shared_ptr<const renf_class>(self.get(), [](auto) {}));
+    // The shared pointer is kept by cereal until the serialization is complete.
+    // It must keep the field alive: otherwise another field could show up at
+    // the same address and would be taken for this one.
+    uint32_t id = archive.registerSharedPointer(std::shared_ptr<const renf_class>(self.get(), [self](auto) {}));
 #else
     uint32_t id = archive.registerSharedPointer(self.get());
 #endif
-- 
2.43.0

