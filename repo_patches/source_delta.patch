From 1af51e9158bb4d3c50872ca82f6e45cc94dacca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 1/6] fix: odd roots of negative linear takums

powl() of a negative base with a fractional exponent is NaN, thus all
takum_linear*_root() returned NaR for every negative argument and odd
n other than 1 and -1. The manual only excludes negative arguments for
even n, and takum*_root() behaves accordingly. Take the root of the
magnitude and reapply the sign.
---
 src/root.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/root.c b/src/root.c
index e116d31..28046b9 100644
--- a/src/root.c
+++ b/src/root.c
@@ -75,7 +75,7 @@ takum_linear8_root(takum_linear8 t, int64_t n)
 	}
 
 	f = takum_linear8_to_extended_float(t);
-	res = powl(f, 1.0l / (long double)n);
+	res = copysignl(powl(fabsl(f), 1.0l / (long double)n), f);
 
 	if (res == 0.0l && t != 0) {
 		res = (t < 0 && n % 2 != 0) ? -DBL_MIN : DBL_MIN;
@@ -94,7 +94,7 @@ takum_linear16_root(takum_linear16 t, int64_t n)
 	}
 
 	f = takum_linear16_to_extended_float(t);
-	res = powl(f, 1.0l / (long double)n);
+	res = copysignl(powl(fabsl(f), 1.0l / (long double)n), f);
 
 	if (res == 0.0l && t != 0) {
 		res = (t < 0 && n % 2 != 0) ? -DBL_MIN : DBL_MIN;
@@ -113,7 +113,7 @@ takum_linear32_root(takum_linear32 t, int64_t n)
 	}
 
 	f = takum_linear32_to_extended_float(t);
-	res = powl(f, 1.0l / (long double)n);
+	res = copysignl(powl(fabsl(f), 1.0l / (long double)n), f);
 
 	if (res == 0.0l && t != 0) {
 		res = (t < 0 && n % 2 != 0) ? -DBL_MIN : DBL_MIN;
@@ -132,7 +132,7 @@ takum_linear64_root(takum_linear64 t, int64_t n)
 	}
 
 	f = takum_linear64_to_extended_float(t);
-	res = powl(f, 1.0l / (long double)n);
+	res = copysignl(powl(fabsl(f), 1.0l / (long double)n), f);
 
 	if (res == 0.0l && t != 0) {
 		res = (t < 0 && n % 2 != 0) ? -DBL_MIN : DBL_MIN;
-- 
2.43.0


From c0180e86ec785e18963427719f9c3c30195ce07f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 2/6] fix: signed overflow in 32 and 64 bit absolute of NaR

NaR is the most negative integer, so -t overflows int32_t and int64_t,
which is undefined behaviour. Return NaR unchanged instead of relying on
the overflow wrapping around.
---
 src/absolute.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/absolute.c b/src/absolute.c
index e54ce80..e37ffb0 100644
--- a/src/absolute.c
+++ b/src/absolute.c
@@ -18,13 +18,13 @@ takum16_absolute(takum16 t)
 takum32
 takum32_absolute(takum32 t)
 {
-	return (t < 0) * (-t) + (t >= 0) * t;
+	return (t < 0 && t != TAKUM32_NAR) ? -t : t;
 }
 
 takum64
 takum64_absolute(takum64 t)
 {
-	return (t < 0) * (-t) + (t >= 0) * t;
+	return (t < 0 && t != TAKUM64_NAR) ? -t : t;
 }
 
 takum_linear8
@@ -42,11 +42,11 @@ takum_linear16_absolute(takum_linear16 t)
 takum_linear32
 takum_linear32_absolute(takum_linear32 t)
 {
-	return (t < 0) * (-t) + (t >= 0) * t;
+	return (t < 0 && t != TAKUM_LINEAR32_NAR) ? -t : t;
 }
 
 takum_linear64
 takum_linear64_absolute(takum_linear64 t)
 {
-	return (t < 0) * (-t) + (t >= 0) * t;
+	return (t < 0 && t != TAKUM_LINEAR64_NAR) ? -t : t;
 }
-- 
2.43.0


From e277975a8db304e2d5055c0369f63cc9c1769c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:15 +0000
Subject: [PATCH 3/6] fix: accuracy of logarithmic takum to float32 and float64
 conversion

powf() and pow() round the base sqrt(e) (and powf() also l) to the target
precision before exponentiating, an error that l then amplifies to up to
more than 100 units in the last place of the result. Compute in extended
precision and round once, as takum8_to_float64() does.
---
 src/conversion.c | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/src/conversion.c b/src/conversion.c
index af7a9bf..419be28 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -630,28 +630,25 @@ takum_linear32_from_takum_linear64(takum_linear64 t)
 float
 takum8_to_float32(takum8 t)
 {
-	return (t != 0) * (1 - 2 * (t < 0)) * powf(SQRTE, codec_takum8_to_l(t));
+	return (float)takum8_to_extended_float(t);
 }
 
 float
 takum16_to_float32(takum16 t)
 {
-	return (t != 0) * (1 - 2 * (t < 0)) *
-	       powf(SQRTE, codec_takum16_to_l(t));
+	return (float)takum16_to_extended_float(t);
 }
 
 float
 takum32_to_float32(takum32 t)
 {
-	return (t != 0) * (1 - 2 * (t < 0)) *
-	       powf(SQRTE, (float)codec_takum32_to_l(t));
+	return (float)takum32_to_extended_float(t);
 }
 
 float
 takum64_to_float32(takum64 t)
 {
-	return (t != 0) * (1 - 2 * (t < 0)) *
-	       powf(SQRTE, (float)codec_takum64_to_l(t));
+	return (float)takum64_to_extended_float(t);
 }
 
 float
@@ -693,21 +690,19 @@ takum8_to_float64(takum8 t)
 double
 takum16_to_float64(takum16 t)
 {
-	return (t != 0) * (1 - 2 * (t < 0)) *
-	       pow(SQRTE, (double)codec_takum16_to_l(t));
+	return (double)takum16_to_extended_float(t);
 }
 
 double
 takum32_to_float64(takum32 t)
 {
-	return (t != 0) * (1 - 2 * (t < 0)) * pow(SQRTE, codec_takum32_to_l(t));
+	return (double)takum32_to_extended_float(t);
 }
 
 double
 takum64_to_float64(takum64 t)
 {
-	return (t != 0) * (1 - 2 * (t < 0)) *
-	       pow(SQRTE, (double)codec_takum64_to_l(t));
+	return (double)takum64_to_extended_float(t);
 }
 
 double
-- 
2.43.0


From b3cb4d9292e0e1585ec2fa96a54efc2d3517c468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:08 +0000
Subject: [PATCH 4/6] fix: double rounding in 64-bit linear takum to float32
 conversion

codec_s_and_linear_l_to_float64() already rounds to 53 bits, so rounding
that result to float32 rounded twice: values next to the middle of two
float32 numbers went to the wrong one. Use the exact extended float.
---
 src/conversion.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/conversion.c b/src/conversion.c
index 419be28..4bdafd4 100644
--- a/src/conversion.c
+++ b/src/conversion.c
@@ -675,7 +675,7 @@ takum_linear32_to_float32(takum_linear32 t)
 float
 takum_linear64_to_float32(takum_linear64 t)
 {
-	return (float)codec_s_and_linear_l_to_float64(
+	return (float)codec_s_and_linear_l_to_extended_float(
 		t < 0, codec_takum64_to_l((takum64)t));
 }
 
-- 
2.43.0


From fcf3dd1d6c0b1679607a2d2f704b933e7281b584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:52 +0000
Subject: [PATCH 5/6] fix: logarithmic takum encoding for 64 and 128 bit
 extended floats

frexpl() already normalises to [0.5,1), which is what the fraction bits
with the implicit 1 as MSB represent. Incrementing the exponent doubled
the fraction (and shifted by -1 for fractions in [0.5,1)).
---
 src/codec.c | 12 ------------
 1 file changed, 12 deletions(-)

diff --git a/src/codec.c b/src/codec.c
index d19b469..d622bb1 100644
--- a/src/codec.c
+++ b/src/codec.c
@@ -506,12 +506,6 @@ extended_float_fraction_to_rounded_bits(long double f, uint_fast8_t num_bits)
 		F = ((UINT64_C(0x000fffffffffffff) & fu.bits.sign_exp_fraction)
 		     << 11) |
 		    (UINT64_C(1) << 63);
-
-		/*
-		 * We correct q to reflect our shift from 1.xxx... to
-		 * 0.1xxx...
-		 */
-		q++;
 #elif LDBL_MANT_DIG == 64 && LDBL_MAX_EXP == 16384
 		/* 80-bit long double, has explicit 1 */
 		F = fu.bits.fraction;
@@ -525,12 +519,6 @@ extended_float_fraction_to_rounded_bits(long double f, uint_fast8_t num_bits)
 		 * is automatically the MSB.
 		 */
 		F = (fu.bits.fraction >> 1) | (UINT64_C(1) << 63);
-
-		/*
-		 * We correct q to reflect our shift from 1.xxx... to
-		 * 0.1xxx...
-		 */
-		q++;
 #else
 		(void)fu;
 		F = 0;
-- 
2.43.0


From fe6e9fa716ed243d1ae9ed7a2050f757e175db58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:09 +0000
Subject: [PATCH 6/6] fix: saturation of 64-bit takum encoding when long double
 is binary64

The bound just below 255 is not representable in binary64 and rounded to
255, one past the largest characteristic.
---
 src/codec.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/codec.c b/src/codec.c
index d622bb1..ea3463d 100644
--- a/src/codec.c
+++ b/src/codec.c
@@ -843,8 +843,14 @@ codec_takum64_from_s_and_l(bool s, long double l)
 	uint64_t M;
 	int_fast16_t c;
 	long double cpm, m;
+#if LDBL_MANT_DIG == 53 && LDBL_MAX_EXP == 1024
+	/* the largest float64 below 255, as the bound below rounds to 255 */
+	const long double bound =
+		254.999999999999971578290569595992565155029296875L;
+#else
 	const long double bound =
 		254.999999999999999777955395074968691915273666381835938L;
+#endif
 
 	if (isnan(l) || (isinf(l) && l > 0)) {
 		return TAKUM64_NAR;
-- 
2.43.0

