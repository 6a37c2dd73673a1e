From 91b14b9ffce38b827fcc3f29f572d6b131f2ccc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:38 +0000
Subject: [PATCH 01/35] fix: compute weight and regression sums in TI_REAL so
 large periods do not overflow int

period*(period+1) and similar products were evaluated in int; for a period of
46341 and more that overflows (undefined behaviour, garbage weights).
---
 indicators/hma.cc    | 4 ++--
 indicators/pbands.cc | 8 ++++----
 indicators/posc.cc   | 8 ++++----
 indicators/rvi.cc    | 8 ++++----
 indicators/shmma.cc  | 4 ++--
 indicators/trend.h   | 4 ++--
 indicators/trima.cc  | 6 +++---
 indicators/wma.cc    | 2 +-
 8 files changed, 22 insertions(+), 22 deletions(-)

diff --git a/indicators/hma.cc b/indicators/hma.cc
index ea30265..f7f7c98 100644
--- a/indicators/hma.cc
+++ b/indicators/hma.cc
@@ -32,8 +32,8 @@ int ti_hma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     const int period2 = (int)(period / 2);
     const int periodsqrt = (int)(sqrt(period));
 
-    const TI_REAL weights = period * (period+1) / 2;
-    const TI_REAL weights2 = period2 * (period2+1) / 2;
+    const TI_REAL weights = (TI_REAL)period * (period+1) / 2;
+    const TI_REAL weights2 = (TI_REAL)period2 * (period2+1) / 2;
     const TI_REAL weightssqrt = periodsqrt * (periodsqrt+1) / 2;
 
     TI_REAL sum = 0; /* Flat sum of previous numbers. */
diff --git a/indicators/pbands.cc b/indicators/pbands.cc
index 9571533..1133089 100644
--- a/indicators/pbands.cc
+++ b/indicators/pbands.cc
@@ -27,8 +27,8 @@ int ti_pbands(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
     TI_REAL y_sum = 0.;
     TI_REAL xy_sum = 0.;
 
-    const TI_REAL x_sum = period * (period + 1) / 2.;
-    const TI_REAL xsq_sum = period * (period + 1) * (2*period + 1) / 6.;
+    const TI_REAL x_sum = (TI_REAL)period * (period + 1) / 2.;
+    const TI_REAL xsq_sum = (TI_REAL)period * (period + 1) * (2*period + 1) / 6.;
 
     TI_REAL max;
     TI_REAL min;
@@ -144,8 +144,8 @@ int ti_pbands_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->state.y_sum = 0.;
     ptr->state.xy_sum = 0.;
 
-    ptr->constants.x_sum = period * (period + 1) / 2.;
-    ptr->constants.xsq_sum = period * (period + 1) * (2*period + 1) / 6.;
+    ptr->constants.x_sum = (TI_REAL)period * (period + 1) / 2.;
+    ptr->constants.xsq_sum = (TI_REAL)period * (period + 1) * (2*period + 1) / 6.;
 
     try {
         ptr->state.price_high.resize(period+1);
diff --git a/indicators/posc.cc b/indicators/posc.cc
index ce6c559..d6967e0 100644
--- a/indicators/posc.cc
+++ b/indicators/posc.cc
@@ -33,8 +33,8 @@ int ti_posc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     TI_REAL xy_sum = 0.;
     TI_REAL ema;
 
-    const TI_REAL x_sum = period * (period + 1) / 2.;
-    const TI_REAL xsq_sum = period * (period + 1) * (2*period + 1) / 6.;
+    const TI_REAL x_sum = (TI_REAL)period * (period + 1) / 2.;
+    const TI_REAL xsq_sum = (TI_REAL)period * (period + 1) * (2*period + 1) / 6.;
 
     int i = 0;
     for (; i < period-1 && i < size; ++i) {
@@ -168,8 +168,8 @@ int ti_posc_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->state.y_sum = 0.;
     ptr->state.xy_sum = 0.;
 
-    ptr->constants.x_sum = period * (period + 1) / 2.;
-    ptr->constants.xsq_sum = period * (period + 1) * (2*period + 1) / 6.;
+    ptr->constants.x_sum = (TI_REAL)period * (period + 1) / 2.;
+    ptr->constants.xsq_sum = (TI_REAL)period * (period + 1) * (2*period + 1) / 6.;
 
     try {
         ptr->state.price_high.resize(period+1);
diff --git a/indicators/rvi.cc b/indicators/rvi.cc
index 3e745b5..efb19c8 100644
--- a/indicators/rvi.cc
+++ b/indicators/rvi.cc
@@ -27,8 +27,8 @@ int ti_rvi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL y_sum = 0.;
     TI_REAL xy_sum = 0.;
 
-    const TI_REAL x_sum = stddev_period * (stddev_period + 1) / 2.;
-    const TI_REAL xsq_sum = stddev_period * (stddev_period + 1) * (2*stddev_period + 1) / 6.;
+    const TI_REAL x_sum = (TI_REAL)stddev_period * (stddev_period + 1) / 2.;
+    const TI_REAL xsq_sum = (TI_REAL)stddev_period * (stddev_period + 1) * (2*stddev_period + 1) / 6.;
 
     TI_REAL gains_ema = 0.;
     TI_REAL losses_ema = 0.;
@@ -106,8 +106,8 @@ int ti_rvi_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->state.gains_ema = 0.;
     ptr->state.losses_ema = 0.;
 
-    ptr->constants.x_sum = stddev_period * (stddev_period + 1) / 2.;
-    ptr->constants.xsq_sum = stddev_period * (stddev_period + 1) * (2*stddev_period + 1) / 6.;
+    ptr->constants.x_sum = (TI_REAL)stddev_period * (stddev_period + 1) / 2.;
+    ptr->constants.xsq_sum = (TI_REAL)stddev_period * (stddev_period + 1) * (2*stddev_period + 1) / 6.;
 
     try {
         ptr->state.price.resize(stddev_period+1);
diff --git a/indicators/shmma.cc b/indicators/shmma.cc
index cc721de..2e8bb11 100644
--- a/indicators/shmma.cc
+++ b/indicators/shmma.cc
@@ -36,7 +36,7 @@ int ti_shmma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
         T += series[i];
         S += (period-1.) / 2. * series[i];
 
-        *shmma++ = T/period + (6.*S)/((period+1) * period);
+        *shmma++ = T/period + (6.*S)/((period+1.) * period);
 
         S -= T;
         S += (period + 1.) / 2. * series[i-period+1];
@@ -134,7 +134,7 @@ int ti_shmma_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
         T += series[i];
         S += (period-1.) / 2. * series[i];
 
-        *shmma++ = T/period + (6.*S)/((period+1) * period);
+        *shmma++ = T/period + (6.*S)/((period+1.) * period);
 
         S -= T;
         S += (period + 1.) / 2. * price[period-1];
diff --git a/indicators/trend.h b/indicators/trend.h
index 847185d..025f177 100644
--- a/indicators/trend.h
+++ b/indicators/trend.h
@@ -41,13 +41,13 @@
     int i; \
     for (i = 0; i < (period)-1; ++i) { \
         x += i+1; \
-        x2 += (i+1)*(i+1); \
+        x2 += (TI_REAL)(i+1)*(i+1); \
         xy += (input)[i] * (i+1); \
         y += (input)[i]; \
     } \
  \
     x += (period); \
-    x2 += (period) * (period); \
+    x2 += (TI_REAL)(period) * (period); \
  \
     const TI_REAL bd = 1.0 / ((period) * x2 - x * x); \
  \
diff --git a/indicators/trima.cc b/indicators/trima.cc
index c21b693..0876660 100644
--- a/indicators/trima.cc
+++ b/indicators/trima.cc
@@ -29,9 +29,9 @@ int ti_trima(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
      * 1 2 3 4 3 2 1 = 16
      */
 
-    TI_REAL weights = 1 / (TI_REAL) ((period%2) ?
-        ((period/2+1) * (period/2+1)):
-        ((period/2+1) * (period/2)));
+    TI_REAL weights = 1 / ((period%2) ?
+        ((TI_REAL)(period/2+1) * (period/2+1)):
+        ((TI_REAL)(period/2+1) * (period/2)));
 
     TI_REAL weight_sum = 0; /* Weighted sum of previous numbers, spans one period back. */
     TI_REAL lead_sum = 0; /* Flat sum of most recent numbers. */
diff --git a/indicators/wma.cc b/indicators/wma.cc
index afdd0fb..eecb0eb 100644
--- a/indicators/wma.cc
+++ b/indicators/wma.cc
@@ -25,7 +25,7 @@ int ti_wma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
      * 1 2 3 4 5 6
      */
 
-    const TI_REAL weights = period * (period+1) / 2;
+    const TI_REAL weights = (TI_REAL)period * (period+1) / 2;
 
     TI_REAL sum = 0; /* Flat sum of previous numbers. */
     TI_REAL weight_sum = 0; /* Weighted sum of previous numbers. */
-- 
2.43.0


From 234c5778adc4774c6a6241fb44d3ff74f9d9cdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:37 +0000
Subject: [PATCH 02/35] fix: truncate period options once, so fractional
 periods cannot make an output longer or shorter than size - start

With TI_REAL periods the loop bounds were rounded up while start() rounds
down: frama and emsd_ref wrote past the end of the output, shmma_ref,
idwma_ref and hurst_ref read before the input, dwma and rmi returned fewer
values than announced.  dwma_ref and lma_ref also built a vector of negative
length when the input was shorter than the period.
---
 indicators/dwma.cc  | 5 +++--
 indicators/emsd.cc  | 4 ++--
 indicators/frama.cc | 4 ++--
 indicators/hurst.cc | 4 ++--
 indicators/idwma.cc | 2 +-
 indicators/lma.cc   | 7 ++++---
 indicators/rmi.cc   | 4 ++--
 indicators/shmma.cc | 4 ++--
 8 files changed, 18 insertions(+), 16 deletions(-)

diff --git a/indicators/dwma.cc b/indicators/dwma.cc
index 14dc5df..7281314 100644
--- a/indicators/dwma.cc
+++ b/indicators/dwma.cc
@@ -13,7 +13,7 @@
 #include "../utils/ringbuf.hh"
 
 int ti_dwma_start(TI_REAL const *options) {
-    const TI_REAL period = options[0];
+    const int period = options[0];
 
     return 2*(period-1);
 }
@@ -77,10 +77,11 @@ int ti_dwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 DONTOPTIMIZE
 int ti_dwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const int period = options[0];
     TI_REAL *dwma = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_dwma_start(options)) { return TI_OKAY; }
 
     std::vector<TI_REAL> smooth1(size-period+1);
     TI_REAL *arr[1] = {smooth1.data()};
diff --git a/indicators/emsd.cc b/indicators/emsd.cc
index 1b9cc41..0008fdd 100644
--- a/indicators/emsd.cc
+++ b/indicators/emsd.cc
@@ -64,8 +64,8 @@ int ti_emsd(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
 DONTOPTIMIZE int ti_emsd_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
-    const TI_REAL ma_period = options[1];
+    const int period = options[0];
+    const int ma_period = options[1];
     TI_REAL *emsd = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
diff --git a/indicators/frama.cc b/indicators/frama.cc
index 341612d..417613e 100644
--- a/indicators/frama.cc
+++ b/indicators/frama.cc
@@ -23,13 +23,13 @@ int ti_frama_start(TI_REAL const *options) {
 int ti_frama(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
-    TI_REAL period = options[0];
+    const int period = options[0];
     TI_REAL average_period = options[1];
     TI_REAL *frama = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
     if (average_period < 2) { return TI_INVALID_OPTION; }
-    if ((int)period % 2 != 0) { return TI_INVALID_OPTION; }
+    if (period % 2 != 0) { return TI_INVALID_OPTION; }
     if (size <= ti_frama_start(options)) { return TI_OKAY; }
 
     const TI_REAL w = log(2.0 / (1.0 + average_period));
diff --git a/indicators/hurst.cc b/indicators/hurst.cc
index b31c325..c3b8c95 100644
--- a/indicators/hurst.cc
+++ b/indicators/hurst.cc
@@ -21,7 +21,7 @@ int ti_hurst_start(TI_REAL const *options) {
 
 int ti_hurst(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const int period = options[0];
     TI_REAL *hurst = outputs[0];
     TI_REAL *fractal_dim = outputs[1];
 
@@ -72,7 +72,7 @@ int ti_hurst(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 DONTOPTIMIZE
 int ti_hurst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const int period = options[0];
     TI_REAL *hurst = outputs[0];
     TI_REAL *fractal_dim = outputs[1];
 
diff --git a/indicators/idwma.cc b/indicators/idwma.cc
index 2416bd9..3fcad8f 100644
--- a/indicators/idwma.cc
+++ b/indicators/idwma.cc
@@ -49,7 +49,7 @@ int ti_idwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
 DONTOPTIMIZE int ti_idwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const int period = options[0];
     const TI_REAL exponent = options[1];
     TI_REAL *idwma = outputs[0];
 
diff --git a/indicators/lma.cc b/indicators/lma.cc
index 899d200..a741bc7 100644
--- a/indicators/lma.cc
+++ b/indicators/lma.cc
@@ -55,10 +55,11 @@ int ti_lma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
 DONTOPTIMIZE int ti_lma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const int period = options[0];
     TI_REAL *lma = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_lma_start(options)) { return TI_OKAY; }
 
     std::vector<TI_REAL> wma_price(size-period+1);
     std::vector<TI_REAL> sma_price(size-period+1);
@@ -66,9 +67,9 @@ DONTOPTIMIZE int ti_lma_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     TI_REAL* arr[1];
  
     arr[0] = wma_price.data();
-    ti_wma(size, &series, &period, arr);
+    ti_wma(size, &series, options, arr);
     arr[0] = sma_price.data();
-    ti_sma(size, &series, &period, arr);
+    ti_sma(size, &series, options, arr);
 
     for (int i = 0; i < size-period+1; ++i) {
         lma[i] = 2*wma_price[i] - sma_price[i];
diff --git a/indicators/rmi.cc b/indicators/rmi.cc
index 33c4671..1b1214d 100644
--- a/indicators/rmi.cc
+++ b/indicators/rmi.cc
@@ -21,7 +21,7 @@ int ti_rmi_start(TI_REAL const *options) {
 int ti_rmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *series = inputs[0];
     const TI_REAL period = options[0];
-    const TI_REAL lookback_period = options[1];
+    const int lookback_period = options[1];
     TI_REAL *rmi = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
@@ -54,7 +54,7 @@ int ti_rmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 int ti_rmi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *series = inputs[0];
     const TI_REAL period = options[0];
-    const TI_REAL lookback_period = options[1];
+    const int lookback_period = options[1];
     TI_REAL *rmi = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
diff --git a/indicators/shmma.cc b/indicators/shmma.cc
index 2e8bb11..f9a66a6 100644
--- a/indicators/shmma.cc
+++ b/indicators/shmma.cc
@@ -48,7 +48,7 @@ int ti_shmma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
 DONTOPTIMIZE int ti_shmma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *const series = inputs[0];
-    const TI_REAL period = options[0];
+    const int period = options[0];
     TI_REAL *shmma = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
@@ -64,7 +64,7 @@ DONTOPTIMIZE int ti_shmma_ref(int size, TI_REAL const *const *inputs, TI_REAL co
             S += (period - (j*2+1.)) / 2. * series[i-j];
         }
 
-        *shmma++ = T/period + (6*S)/((period+1) * period);
+        *shmma++ = T/period + (6*S)/((period+1.) * period);
     }
 
     return TI_OKAY;
-- 
2.43.0


From d0a00457f84701538a40dffc48b5b73ac83e109e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:52 +0000
Subject: [PATCH 03/35] fix: report TI_OUT_OF_MEMORY when a ti_buffer cannot be
 allocated

ti_buffer_new wrote through the unchecked malloc result, so an allocation
failure crashed instead of being reported.
---
 indicators/abands.cc   | 5 +++++
 indicators/adxr.cc     | 1 +
 indicators/cci.cc      | 1 +
 indicators/cvi.cc      | 1 +
 indicators/hma.cc      | 1 +
 indicators/mass.cc     | 1 +
 indicators/mfi.cc      | 5 +++++
 indicators/stoch.cc    | 5 +++++
 indicators/stochrsi.cc | 1 +
 indicators/ultosc.cc   | 5 +++++
 utils/buffer.c         | 1 +
 11 files changed, 27 insertions(+)

diff --git a/indicators/abands.cc b/indicators/abands.cc
index e246740..e0fdedb 100644
--- a/indicators/abands.cc
+++ b/indicators/abands.cc
@@ -37,6 +37,11 @@ int ti_abands(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
 
     ti_buffer *buffer_high = ti_buffer_new(period);
     ti_buffer *buffer_low = ti_buffer_new(period);
+    if (!buffer_high || !buffer_low) {
+        ti_buffer_free(buffer_high);
+        ti_buffer_free(buffer_low);
+        return TI_OUT_OF_MEMORY;
+    }
     TI_REAL close_sum = 0;
 
     for (int i = 0; i < period; ++i) {
diff --git a/indicators/adxr.cc b/indicators/adxr.cc
index cdc0aac..e30c2e5 100644
--- a/indicators/adxr.cc
+++ b/indicators/adxr.cc
@@ -58,6 +58,7 @@ int ti_adxr(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     }
 
     ti_buffer *adxr = ti_buffer_new(period-1);
+    if (!adxr) { return TI_OUT_OF_MEMORY; }
     const int first_adxr = ti_adxr_start(options);
 
     for (i = period; i < size; ++i) {
diff --git a/indicators/cci.cc b/indicators/cci.cc
index c709377..ecc2cb0 100644
--- a/indicators/cci.cc
+++ b/indicators/cci.cc
@@ -35,6 +35,7 @@ int ti_cci(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL *output = outputs[0];
 
     ti_buffer *sum = ti_buffer_new(period);
+    if (!sum) { return TI_OUT_OF_MEMORY; }
 
     int i, j;
     for (i = 0; i < size; ++i) {
diff --git a/indicators/cvi.cc b/indicators/cvi.cc
index 2327a0a..54b7c78 100644
--- a/indicators/cvi.cc
+++ b/indicators/cvi.cc
@@ -29,6 +29,7 @@ int ti_cvi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     const TI_REAL per = 2 / ((TI_REAL)period + 1);
 
     ti_buffer *lag = ti_buffer_new(period);
+    if (!lag) { return TI_OUT_OF_MEMORY; }
 
     TI_REAL val = high[0]-low[0];
 
diff --git a/indicators/hma.cc b/indicators/hma.cc
index f7f7c98..4097d94 100644
--- a/indicators/hma.cc
+++ b/indicators/hma.cc
@@ -58,6 +58,7 @@ int ti_hma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     }
 
     ti_buffer *buff = ti_buffer_new(periodsqrt);
+    if (!buff) { return TI_OUT_OF_MEMORY; }
 
     for (i = period-1; i < size; ++i) {
         weight_sum += input[i] * period;
diff --git a/indicators/mass.cc b/indicators/mass.cc
index 4a09e0e..8f59037 100644
--- a/indicators/mass.cc
+++ b/indicators/mass.cc
@@ -37,6 +37,7 @@ int ti_mass(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     TI_REAL ema2 = ema;
 
     ti_buffer *sum = ti_buffer_new(period);
+    if (!sum) { return TI_OUT_OF_MEMORY; }
 
     int i;
     for (i = 0; i < size; ++i) {
diff --git a/indicators/mfi.cc b/indicators/mfi.cc
index 039fbfb..5ab48d1 100644
--- a/indicators/mfi.cc
+++ b/indicators/mfi.cc
@@ -33,6 +33,11 @@ int ti_mfi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
     ti_buffer *up = ti_buffer_new(period);
     ti_buffer *down = ti_buffer_new(period);
+    if (!up || !down) {
+        ti_buffer_free(up);
+        ti_buffer_free(down);
+        return TI_OUT_OF_MEMORY;
+    }
 
     for (i = 1; i < size; ++i) {
         const TI_REAL typ = TYPPRICE(i);
diff --git a/indicators/stoch.cc b/indicators/stoch.cc
index 88cf9f8..4841091 100644
--- a/indicators/stoch.cc
+++ b/indicators/stoch.cc
@@ -43,6 +43,11 @@ int ti_stoch(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
     ti_buffer *k_sum = ti_buffer_new(kslow);
     ti_buffer *d_sum = ti_buffer_new(dperiod);
+    if (!k_sum || !d_sum) {
+        ti_buffer_free(k_sum);
+        ti_buffer_free(d_sum);
+        return TI_OUT_OF_MEMORY;
+    }
 
     int i, j;
     for (i = 0; i < size; ++i) {
diff --git a/indicators/stochrsi.cc b/indicators/stochrsi.cc
index 592a1cb..100c937 100644
--- a/indicators/stochrsi.cc
+++ b/indicators/stochrsi.cc
@@ -24,6 +24,7 @@ int ti_stochrsi(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     if (size <= ti_stochrsi_start(options)) return TI_OKAY;
 
     ti_buffer *rsi = ti_buffer_new(period);
+    if (!rsi) { return TI_OUT_OF_MEMORY; }
 
     TI_REAL smooth_up = 0, smooth_down = 0;
 
diff --git a/indicators/ultosc.cc b/indicators/ultosc.cc
index db0f267..56776d6 100644
--- a/indicators/ultosc.cc
+++ b/indicators/ultosc.cc
@@ -34,6 +34,11 @@ int ti_ultosc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
 
     ti_buffer *bp_buf = ti_buffer_new(long_period);
     ti_buffer *r_buf = ti_buffer_new(long_period);
+    if (!bp_buf || !r_buf) {
+        ti_buffer_free(bp_buf);
+        ti_buffer_free(r_buf);
+        return TI_OUT_OF_MEMORY;
+    }
 
     TI_REAL bp_short_sum = 0, bp_medium_sum = 0;
     TI_REAL r_short_sum = 0, r_medium_sum = 0;
diff --git a/utils/buffer.c b/utils/buffer.c
index eb493aa..8589e68 100644
--- a/utils/buffer.c
+++ b/utils/buffer.c
@@ -13,6 +13,7 @@
 ti_buffer *ti_buffer_new(int size) {
     const int s = (int)sizeof(ti_buffer) + (size-1) * (int)sizeof(TI_REAL);
     ti_buffer *ret = (ti_buffer*)malloc((unsigned int)s);
+    if (!ret) { return 0; }
     ret->size = size;
     ret->pushes = 0;
     ret->index = 0;
-- 
2.43.0


From 97a377f0d2f5fa1866d61e4e24aee1178bfe05d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:25 +0000
Subject: [PATCH 04/35] fix: do not touch memory outside the arrays for small
 periods and short inputs (dpo, gf4, hma, vidya, zlema)

dpo and zlema read input[-1] for periods 1 and 2 (and zlema announced a
negative start), hma divided by zero and read past the end for period 1,
vidya read one past the end when size == long_period - 1, gf4 handled five
elements whatever the size.
---
 indicators/dpo.cc   | 9 ++++++---
 indicators/gf4.cc   | 4 ++--
 indicators/hma.cc   | 2 +-
 indicators/vidya.cc | 2 +-
 indicators/zlema.cc | 8 +++++---
 5 files changed, 15 insertions(+), 10 deletions(-)

diff --git a/indicators/dpo.cc b/indicators/dpo.cc
index abc51f2..3cb11b6 100644
--- a/indicators/dpo.cc
+++ b/indicators/dpo.cc
@@ -9,7 +9,9 @@
 
 
 int ti_dpo_start(TI_REAL const *options) {
-    return (int)options[0]-1;
+    const int period = (int)options[0];
+    const int back = period / 2 + 1;
+    return period - 1 > back ? period - 1 : back;
 }
 
 
@@ -32,12 +34,13 @@ int ti_dpo(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
         sum += input[i];
     }
 
-    *output++ = input[period-1-back] - (sum * scale);
+    const int start = ti_dpo_start(options);
+    if (period - 1 >= start) { *output++ = input[period-1-back] - (sum * scale); }
 
     for (i = period; i < size; ++i) {
         sum += input[i];
         sum -= input[i-period];
-        *output++ = input[i-back] - (sum * scale);
+        if (i >= start) { *output++ = input[i-back] - (sum * scale); }
     }
 
     assert(output - outputs[0] == size - ti_dpo_start(options));
diff --git a/indicators/gf4.cc b/indicators/gf4.cc
index 0260cb5..dc76ba7 100644
--- a/indicators/gf4.cc
+++ b/indicators/gf4.cc
@@ -51,7 +51,7 @@ int ti_gf4(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL csum_reciproc = 1./(B0 + A1 + A2 + A3 + A4);
 
     int i = 0;
-    for (; i < 5; ++i, step(f)) {
+    for (; i < 5 && i < size; ++i, step(f)) {
         f = series[i];
         *gf4++ = f;
     }
@@ -83,7 +83,7 @@ DONTOPTIMIZE int ti_gf4_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     TI_REAL csum_reciproc = 1./(B0 + A1 + A2 + A3 + A4);
 
     int i = 0;
-    for (; i < 5; ++i, step(f)) {
+    for (; i < 5 && i < size; ++i, step(f)) {
         f = series[i];
         *gf4++ = f;
     }
diff --git a/indicators/hma.cc b/indicators/hma.cc
index 4097d94..25dc6fc 100644
--- a/indicators/hma.cc
+++ b/indicators/hma.cc
@@ -29,7 +29,7 @@ int ti_hma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     /* HMA(input, N) = WMA((2 * WMA(input, N/2) - WMA(input, N)), sqrt(N)) */
     /* Need to do three WMAs, with periods N, N/2, and sqrt N.*/
 
-    const int period2 = (int)(period / 2);
+    const int period2 = period > 1 ? (int)(period / 2) : 1;
     const int periodsqrt = (int)(sqrt(period));
 
     const TI_REAL weights = (TI_REAL)period * (period+1) / 2;
diff --git a/indicators/vidya.cc b/indicators/vidya.cc
index 4c89e29..7dfb104 100644
--- a/indicators/vidya.cc
+++ b/indicators/vidya.cc
@@ -40,7 +40,7 @@ int ti_vidya(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     TI_REAL long_sum2 = 0;
 
     int i;
-    for (i = 0; i < long_period; ++i) {
+    for (i = 0; i < long_period && i < size; ++i) {
         long_sum += input[i];
         long_sum2 += input[i] * input[i];
 
diff --git a/indicators/zlema.cc b/indicators/zlema.cc
index e1926b7..64edc8a 100644
--- a/indicators/zlema.cc
+++ b/indicators/zlema.cc
@@ -9,7 +9,8 @@
 
 
 int ti_zlema_start(TI_REAL const *options) {
-    return ((int)options[0] - 1) / 2 - 1;
+    const int lag = ((int)options[0] - 1) / 2;
+    return lag > 0 ? lag - 1 : 0;
 }
 
 
@@ -26,11 +27,12 @@ int ti_zlema(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
     const TI_REAL per = 2 / ((TI_REAL)period + 1);
 
-    TI_REAL val = input[lag-1];
+    const int start = ti_zlema_start(options);
+    TI_REAL val = input[start];
     *output++ = val;
 
     int i;
-    for (i = lag; i < size; ++i) {
+    for (i = start + 1; i < size; ++i) {
         TI_REAL c = input[i];
         TI_REAL l = input[i-lag];
 
-- 
2.43.0


From 573acc6b1e2fc3e2b4a0cf7d67a8889a27fddb04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:25 +0000
Subject: [PATCH 05/35] fix: mesastoch needs three filter values even when
 period is 1 or 2

filt[2] was out of the ring buffer for period < 3; the reference also ignored
size in its warm-up loop and let bad_alloc escape.
---
 indicators/mesastoch.cc | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/indicators/mesastoch.cc b/indicators/mesastoch.cc
index 2c3ce5d..9b81fca 100644
--- a/indicators/mesastoch.cc
+++ b/indicators/mesastoch.cc
@@ -40,7 +40,7 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     int highestC_idx;
     int lowestC_idx;
 
-    ringbuf<0> filt(period);
+    ringbuf<0> filt(std::max(period, 3));
     ringbuf<3> HP;
     ringbuf<2> stoc;
     ringbuf<3> result;
@@ -77,7 +77,7 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
             highestC_idx = i;
             highestC = filt;
         } else if (highestC_idx == i - period) {
-            TI_REAL* it = std::max_element(filt.phbegin(), filt.phend());
+            TI_REAL* it = filt.find_max(period);
             highestC = *it;
             highestC_idx = i - filt.iterator_to_age(it);
         }
@@ -85,7 +85,7 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
             lowestC_idx = i;
             lowestC = filt;
         } else if (lowestC_idx == i - period) {
-            TI_REAL* it = std::min_element(filt.phbegin(), filt.phend());
+            TI_REAL* it = filt.find_min(period);
             lowestC = *it;
             lowestC_idx = i - filt.iterator_to_age(it);
         }
@@ -101,7 +101,7 @@ int ti_mesastoch(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     return TI_OUT_OF_MEMORY;
 }
 
-int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     int period = options[0];
     int max_cycle_considered = options[1];
@@ -110,7 +110,7 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
     if (period < 1) { return TI_INVALID_OPTION; }
     if (max_cycle_considered < 1) { return TI_INVALID_OPTION; }
 
-    std::deque<TI_REAL> filt(period);
+    std::deque<TI_REAL> filt(std::max(period, 3));
     std::deque<TI_REAL> HP(3);
     std::deque<TI_REAL> stoc(2);
     std::deque<TI_REAL> result(3);
@@ -124,7 +124,7 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
     TI_REAL lowestC;
 
     int i = 2;
-    for (; i < ti_mesastoch_start(options); ++i) {
+    for (; i < ti_mesastoch_start(options) && i < size; ++i) {
         filt.pop_back(); filt.push_front(0);
         HP.pop_back(); HP.push_front(0);
         stoc.pop_back(); stoc.push_front(0);
@@ -157,8 +157,8 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
         c1 = 1 - c2 - c3;
         filt[0] = c1 * (HP[0] + HP[1]) / 2. + c2 * filt[1] + c3 * filt[2];
 
-        highestC = *std::max_element(filt.begin(), filt.end());
-        lowestC = *std::min_element(filt.begin(), filt.end());
+        highestC = *std::max_element(filt.begin(), filt.begin() + period);
+        lowestC = *std::min_element(filt.begin(), filt.begin() + period);
 
         stoc[0] = (filt[0] - lowestC) / (highestC - lowestC);
         result[0] = c1 * (stoc[0] + stoc[1]) / 2. + c2 * result[1] + c3 * result[2];
@@ -167,6 +167,8 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_mesastoch_stream : ti_stream {
@@ -225,7 +227,7 @@ int ti_mesastoch_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->constants.c1 = 1 - (ptr->constants.c2) - (ptr->constants.c3);
 
     try {
-        ptr->store.filt.resize(period);
+        ptr->store.filt.resize(std::max(period, 3));
     } catch (std::bad_alloc& e) {
         delete ptr;
         return TI_OUT_OF_MEMORY;
-- 
2.43.0


From 764f0c5d2928ae1802d767d8fff25747bddfc53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:25 +0000
Subject: [PATCH 06/35] fix: kst and kst_ref: return early when size <= start,
 check allocations

Both read series[roc] for inputs shorter than the longest period; the
reference wrote through unchecked malloc results.
---
 indicators/kst.cc | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/indicators/kst.cc b/indicators/kst.cc
index 9f6560a..3096e6b 100755
--- a/indicators/kst.cc
+++ b/indicators/kst.cc
@@ -55,6 +55,8 @@ int ti_kst(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
         }
     }
 
+    if (size <= ti_kst_start(options)) { return TI_OKAY; }
+
     TI_REAL max_ma;
     MAX4(max_ma, ma1, ma2, ma3, ma4);
 
@@ -113,7 +115,7 @@ int ti_kst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     TI_REAL *kst_signal = outputs[1];
 
 
-    if(!(roc[0] < roc[1] && roc[1] < roc[2] && roc[2] < roc[3])) {
+    if(!((int)roc[0] < (int)roc[1] && (int)roc[1] < (int)roc[2] && (int)roc[2] < (int)roc[3])) {
         return TI_INVALID_OPTION;
     }
     for (int i = 0; i < 8; ++i) {
@@ -122,6 +124,8 @@ int ti_kst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
         }
     }
 
+    if (size <= ti_kst_start(options)) { return TI_OKAY; }
+
     int size_roc[4];
     int size_ema[4];
     TI_REAL *roc_mem[4];
@@ -132,9 +136,15 @@ int ti_kst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
         size_ema[i] = size_roc[i] - ti_ema_start(ma + i);
 
         roc_mem[i] = (TI_REAL*)malloc(sizeof(TI_REAL) * size_roc[i]);
-        ti_roc(size, &series, roc + i, roc_mem + i);
-
         ema_mem[i] = (TI_REAL*)malloc(sizeof(TI_REAL) * size_ema[i]);
+        if (!roc_mem[i] || !ema_mem[i]) {
+            for (int j = 0; j <= i; ++j) {
+                free(roc_mem[j]);
+                free(ema_mem[j]);
+            }
+            return TI_OUT_OF_MEMORY;
+        }
+        ti_roc(size, &series, roc + i, roc_mem + i);
         ti_ema(size_roc[i], roc_mem + i, ma + i, ema_mem + i);
     }
 
-- 
2.43.0


From 78eb35c89ffd909ff21df7406e6bb85dbb2b2c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:25 +0000
Subject: [PATCH 07/35] fix: ce, cmi, mhlma: emit the first output for period
 1, release everything and report allocation failure

The first bar was consumed without an output for period 1, so one output was
missing.  ce_ref tested the wrong pointers and leaked, cmi_stream_free deleted
through the base class (leaking the buffers), allocation failures escaped as
exceptions.
---
 indicators/ce.cc    | 38 +++++++++++++++++++++++++-------------
 indicators/cmi.cc   | 33 ++++++++++++++++++++++++---------
 indicators/mhlma.cc | 34 +++++++++++++++++++++++++---------
 3 files changed, 74 insertions(+), 31 deletions(-)

diff --git a/indicators/ce.cc b/indicators/ce.cc
index b4ef418..bc17898 100644
--- a/indicators/ce.cc
+++ b/indicators/ce.cc
@@ -50,6 +50,10 @@ int ti_ce(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
         min = low[i];
         max_idx = 0;
         min_idx = 0;
+        if (period == 1) {
+            *ce_high++ = max - coef * atr;
+            *ce_low++ = min + coef * atr;
+        }
     }
     for (; i < period-1 && i < size; ++i) {
         const TI_REAL truerange = std::max(high[i], close[i-1]) - std::min(low[i], close[i-1]);
@@ -113,27 +117,35 @@ int ti_ce_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
     TI_REAL const *close = inputs[2];
-    const TI_REAL period = options[0];
+    const int period = options[0];
     const TI_REAL coef = options[1];
     TI_REAL *ce_high = outputs[0];
     TI_REAL *ce_low = outputs[1];
 
-    if (size <= ti_ce_start(options)) { return TI_OKAY; }
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_ce_start(options)) { return TI_OKAY; }
 
     #define MAX(a, b) (a > b ? a : b)
     #define MAX3(a, b, c) (a > b && a > c ? a : b > a && b > c ? b : c)
 
-    TI_REAL *atr = (TI_REAL*)calloc(1, (size - ti_atr_start(&period)) * sizeof(TI_REAL));
-	if (!atr) { return TI_OUT_OF_MEMORY; }
-    ti_atr(size, inputs, &period, &atr);
-    TI_REAL *max = (TI_REAL*)calloc(1, (size - ti_max_start(&period)) * sizeof(TI_REAL));
-	if (!atr) { return TI_OUT_OF_MEMORY; }
-	ti_max(size, &high, &period, &max);
-    TI_REAL *min = (TI_REAL*)calloc(1, (size - ti_min_start(&period)) * sizeof(TI_REAL));
-	if (!atr) { return TI_OUT_OF_MEMORY; }
-	ti_min(size, &low, &period, &min);
-
+    TI_REAL *atr = (TI_REAL*)calloc(1, (size - ti_atr_start(options)) * sizeof(TI_REAL));
+    TI_REAL *max = (TI_REAL*)calloc(1, (size - ti_max_start(options)) * sizeof(TI_REAL));
+    TI_REAL *min = (TI_REAL*)calloc(1, (size - ti_min_start(options)) * sizeof(TI_REAL));
+    if (!atr || !max || !min) {
+        free(atr);
+        free(max);
+        free(min);
+        return TI_OUT_OF_MEMORY;
+    }
+    int ret = ti_atr(size, inputs, options, &atr);
+    if (ret == TI_OKAY) { ret = ti_max(size, &high, options, &max); }
+    if (ret == TI_OKAY) { ret = ti_min(size, &low, options, &min); }
+    if (ret != TI_OKAY) {
+        free(atr);
+        free(max);
+        free(min);
+        return ret;
+    }
 
     for (int i = 0; i < size - period + 1; ++i) {
         ce_high[i] = max[i] - coef * atr[i];
@@ -177,7 +189,7 @@ int ti_ce_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL coef = options[1];
 
     if (period < 1) { return TI_INVALID_OPTION; }
-    ti_ce_stream *ptr = new ti_ce_stream();
+    ti_ce_stream *ptr = new(std::nothrow) ti_ce_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index 7dadbea..7a53ec5 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -4,6 +4,7 @@
  */
 
 
+#include <memory>
 #include <new>
 #include <algorithm>
 
@@ -18,7 +19,7 @@ int ti_cmi_start(TI_REAL const *options) {
     return period-1;
 }
 
-int ti_cmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_cmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const high = inputs[0];
     TI_REAL const *const low = inputs[1];
     TI_REAL const *const close = inputs[2];
@@ -44,6 +45,10 @@ int ti_cmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
         ll = tr;
         hh_idx = 0;
         ll_idx = 0;
+        if (period == 1) {
+            *cmi++ = log((hh - ll) / sum) / log(period) * 100;
+            sum -= tr;
+        }
     }
     for (; i < period-1 && i < size; ++i, step(tr)) {
         tr = std::max(high[i], close[i-1]) - std::min(low[i], close[i-1]);
@@ -83,9 +88,11 @@ int ti_cmi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
-DONTOPTIMIZE int ti_cmi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_cmi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const high = inputs[0];
     TI_REAL const *const low = inputs[1];
     TI_REAL const *const close = inputs[2];
@@ -93,9 +100,12 @@ DONTOPTIMIZE int ti_cmi_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     TI_REAL *cmi = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_cmi_start(options)) { return TI_OKAY; }
 
-    TI_REAL *tr = new TI_REAL[size];
-    TI_REAL *sum = new TI_REAL[size-(int)period+1];
+    std::unique_ptr<TI_REAL[]> tr_store(new TI_REAL[size]);
+    TI_REAL *tr = tr_store.get();
+    std::unique_ptr<TI_REAL[]> sum_store(new TI_REAL[size-(int)period+1]);
+    TI_REAL *sum = sum_store.get();
 
     ti_tr(size, inputs, NULL, &tr);
     ti_sum(size, &tr, &period, &sum);
@@ -108,9 +118,9 @@ DONTOPTIMIZE int ti_cmi_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
         *cmi++ = log((hh - ll) / ink) / log(period) * 100;
     }
 
-    delete[] tr;
-    delete[] sum;
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_cmi_stream : ti_stream {
@@ -149,14 +159,19 @@ int ti_cmi_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.period = period;
 
-    ptr->state.tr.resize(period);
-    ptr->state.price_close.resize(2);
+    try {
+        ptr->state.tr.resize(period);
+        ptr->state.price_close.resize(2);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
 
 void ti_cmi_stream_free(ti_stream *stream) {
-    delete stream;
+    delete static_cast<ti_cmi_stream*>(stream);
 }
 
 int ti_cmi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
diff --git a/indicators/mhlma.cc b/indicators/mhlma.cc
index 38957b8..b47d2a1 100644
--- a/indicators/mhlma.cc
+++ b/indicators/mhlma.cc
@@ -4,6 +4,7 @@
  */
 
 
+#include <memory>
 #include <new>
 #include <algorithm>
 
@@ -19,7 +20,7 @@ int ti_mhlma_start(TI_REAL const *options) {
     return ma_period-1;
 }
 
-int ti_mhlma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_mhlma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int period = options[0];
     const int ma_period = options[1];
@@ -49,6 +50,12 @@ int ti_mhlma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
 
         sum += mhl;
         ema = mhl;
+
+        if (ma_period == 1) {
+            *mhlsma++ = sum / ma_period;
+            *mhlema++ = ema;
+            sum -= mhl;
+        }
     }
     for (; i < period && i < ma_period-1 && i < size; ++i, step(mhl)) {
         if (hh <= series[i]) {
@@ -118,9 +125,11 @@ int ti_mhlma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
-DONTOPTIMIZE int ti_mhlma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_mhlma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const TI_REAL period = options[0];
     const TI_REAL ma_period = options[1];
@@ -128,8 +137,10 @@ DONTOPTIMIZE int ti_mhlma_ref(int size, TI_REAL const *const *inputs, TI_REAL co
     TI_REAL *mhlema = outputs[1];
 
     if (period < 1 || ma_period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_mhlma_start(options)) { return TI_OKAY; }
 
-    TI_REAL *mhl = new TI_REAL[size];
+    std::unique_ptr<TI_REAL[]> mhl_store(new TI_REAL[size]);
+    TI_REAL *mhl = mhl_store.get();
 
     for (int i = 0; i < size; ++i) {
         TI_REAL hh = *std::max_element(std::max<TI_REAL const*>(series+i-(int)period+1, series), series+i+1);
@@ -137,7 +148,8 @@ DONTOPTIMIZE int ti_mhlma_ref(int size, TI_REAL const *const *inputs, TI_REAL co
         mhl[i] = (hh + ll) / 2.;
     }
 
-    TI_REAL *ema_buf = new TI_REAL[size];
+    std::unique_ptr<TI_REAL[]> ema_buf_store(new TI_REAL[size]);
+    TI_REAL *ema_buf = ema_buf_store.get();
 
     ti_sma(size, &mhl, &ma_period, &mhlsma);
 
@@ -146,10 +158,9 @@ DONTOPTIMIZE int ti_mhlma_ref(int size, TI_REAL const *const *inputs, TI_REAL co
         mhlema[i-(int)ma_period+1] = ema_buf[i];
     }
 
-    delete[] mhl;
-    delete[] ema_buf;
-
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_mhlma_stream : ti_stream {
@@ -193,8 +204,13 @@ int ti_mhlma_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.period = period;
     ptr->options.ma_period = ma_period;
 
-    ptr->state.mhl.resize(ma_period);
-    ptr->state.price.resize(period);
+    try {
+        ptr->state.mhl.resize(ma_period);
+        ptr->state.price.resize(period);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
-- 
2.43.0


From c32631039ee072a390514afdcc831abc03639e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:25 +0000
Subject: [PATCH 08/35] fix: vi: a series shorter than the period is not an
 invalid option

Like every other indicator, and like vi's own stream, return TI_OKAY without
output.  bad_alloc no longer escapes.
---
 indicators/vi.cc | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/indicators/vi.cc b/indicators/vi.cc
index 9f2133d..9c83cf7 100644
--- a/indicators/vi.cc
+++ b/indicators/vi.cc
@@ -26,7 +26,8 @@ int ti_vi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     TI_REAL *vi_p = outputs[0];
     TI_REAL *vi_m = outputs[1];
 
-    if (period < 1 || period >= size) return TI_INVALID_OPTION;
+    if (period < 1) return TI_INVALID_OPTION;
+    if (size <= ti_vi_start(options)) return TI_OKAY;
 
     TI_REAL last_vm_p_period = 0;
     TI_REAL last_vm_m_period = 0;
@@ -53,7 +54,7 @@ int ti_vi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     return TI_OKAY;
 }
 
-DONTOPTIMIZE int ti_vi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_vi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const high = inputs[0];
     TI_REAL const *const low = inputs[1];
     TI_REAL const *const close = inputs[2];
@@ -61,7 +62,8 @@ DONTOPTIMIZE int ti_vi_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     TI_REAL *vi_p = outputs[0];
     TI_REAL *vi_m = outputs[1];
 
-    if (period < 1 || period >= size) return TI_INVALID_OPTION;
+    if (period < 1) return TI_INVALID_OPTION;
+    if (size <= ti_vi_start(options)) return TI_OKAY;
 
     std::vector<TI_REAL> vm_p(size);
     std::vector<TI_REAL> vm_m(size);    
@@ -99,6 +101,8 @@ DONTOPTIMIZE int ti_vi_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     }
     
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_vi_stream : ti_stream {
@@ -143,7 +147,7 @@ void ti_vi_stream_free(ti_stream *stream) {
     delete static_cast<ti_vi_stream*>(stream);
 }
 
-int ti_vi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_vi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_vi_stream *ptr = static_cast<ti_vi_stream*>(stream);
     TI_REAL const *const high = inputs[0];
     TI_REAL const *const low = inputs[1];
@@ -218,5 +222,7 @@ int ti_vi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     ptr->state.last_TR_period = last_TR_period;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
-- 
2.43.0


From 5659bf9786b0eb0afd87e6a4c56ffe0ee179a620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:25 +0000
Subject: [PATCH 09/35] fix: copp, smi: truncate fractional periods once;
 references check size and allocations

---
 indicators/copp.cc | 37 +++++++++++++++++++++----------------
 indicators/smi.cc  | 19 ++++++++++++++-----
 2 files changed, 35 insertions(+), 21 deletions(-)

diff --git a/indicators/copp.cc b/indicators/copp.cc
index 8c46749..92326e5 100644
--- a/indicators/copp.cc
+++ b/indicators/copp.cc
@@ -11,9 +11,9 @@
 #include "../utils/log.h"
 
 int ti_copp_start(TI_REAL const *options) {
-    const TI_REAL roc_shorter_period = options[0];
-    const TI_REAL roc_longer_period = options[1];
-    const TI_REAL wma_period = options[2];
+    const int roc_shorter_period = options[0];
+    const int roc_longer_period = options[1];
+    const int wma_period = options[2];
     #define START (roc_longer_period + wma_period-1)
     return START;
 }
@@ -21,9 +21,9 @@ int ti_copp_start(TI_REAL const *options) {
 
 int ti_copp(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *series = inputs[0];
-    const TI_REAL roc_shorter_period = options[0];
-    const TI_REAL roc_longer_period = options[1];
-    const TI_REAL wma_period = options[2];
+    const int roc_shorter_period = options[0];
+    const int roc_longer_period = options[1];
+    const int wma_period = options[2];
     TI_REAL *copp = outputs[0];
 
     for (int i = 0; i < 3; ++i) {
@@ -75,37 +75,42 @@ int ti_copp(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
 int ti_copp_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *series = inputs[0];
-    const TI_REAL roc_shorter_period = options[0];
-    const TI_REAL roc_longer_period = options[1];
-    const TI_REAL wma_period = options[2];
+    const int roc_shorter_period = options[0];
+    const int roc_longer_period = options[1];
     TI_REAL *copp = outputs[0];
 
     for (int i = 0; i < 3; ++i) {
         if (options[i] < 1) { return TI_INVALID_OPTION; }
     }
     if (roc_longer_period < roc_shorter_period) { return TI_INVALID_OPTION; }
-    if (size < ti_copp_start(options)) { return TI_OKAY; }
+    if (size <= ti_copp_start(options)) { return TI_OKAY; }
 
     // wma of (roc1 + roc2) / 2 * 100
 
-    int roc_short_len = size-ti_roc_start(&roc_shorter_period);
+    int roc_short_len = size-ti_roc_start(options);
     TI_REAL *roc_short = (TI_REAL*)malloc(sizeof(TI_REAL) * roc_short_len);
-    int roc_long_len = size-ti_roc_start(&roc_longer_period);
+    int roc_long_len = size-ti_roc_start(options + 1);
     TI_REAL *roc_long = (TI_REAL*)malloc(sizeof(TI_REAL) * roc_long_len);
 
     TI_REAL *interm = (TI_REAL*)malloc(sizeof(TI_REAL) * roc_long_len);
+    if (!roc_short || !roc_long || !interm) {
+        free(roc_short);
+        free(roc_long);
+        free(interm);
+        return TI_OUT_OF_MEMORY;
+    }
 
     // int wma_len = roc_long_len-ti_wma_start(&wma_period);
     // TI_REAL *wma = malloc(sizeof(TI_REAL[wma_len]));
 
-    ti_roc(size, &series, &roc_shorter_period, &roc_short);
-    ti_roc(size, &series, &roc_longer_period, &roc_long);
+    ti_roc(size, &series, options, &roc_short);
+    ti_roc(size, &series, options + 1, &roc_long);
 
     for (int i = 0; i < roc_long_len; ++i) {
         interm[i] = (roc_long[i] + roc_short[i+(roc_short_len-roc_long_len)]) * 100. / 2.;
     }
 
-    ti_wma(roc_long_len, &interm, &wma_period, &copp);
+    ti_wma(roc_long_len, &interm, options + 2, &copp);
 
     free(roc_short);
     free(roc_long);
@@ -146,7 +151,7 @@ int ti_copp_stream_new(TI_REAL const *options, ti_stream **stream) {
     }
     if (roc_longer_period < roc_shorter_period) { return TI_INVALID_OPTION; }
 
-    ti_copp_stream *ptr = new ti_copp_stream();
+    ti_copp_stream *ptr = new(std::nothrow) ti_copp_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
 
     *stream = ptr;
diff --git a/indicators/smi.cc b/indicators/smi.cc
index 8f65e5b..0718724 100644
--- a/indicators/smi.cc
+++ b/indicators/smi.cc
@@ -21,7 +21,7 @@ int ti_smi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
     TI_REAL const *close = inputs[2];
-    const TI_REAL q_period = options[0];
+    const int q_period = options[0];
     const TI_REAL r_period = options[1];
     const TI_REAL s_period = options[2];
     TI_REAL *smi = outputs[0];
@@ -129,16 +129,25 @@ int ti_smi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
 
     for (int i = 0; i < 3; ++i) { if (options[i] < 1) { return TI_INVALID_OPTION; } }
 
+    if (size <= ti_smi_start(options)) { return TI_OKAY; }
+
     int outsize = size - ti_max_start(&q_period);
 
     TI_REAL *max = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
     TI_REAL *min = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
 
-    ti_max(size, &high, &q_period, &max);
-    ti_min(size, &low, &q_period, &min);
-
     TI_REAL *num = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
     TI_REAL *den = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
+    if (!max || !min || !num || !den) {
+        free(max);
+        free(min);
+        free(num);
+        free(den);
+        return TI_OUT_OF_MEMORY;
+    }
+
+    ti_max(size, &high, &q_period, &max);
+    ti_min(size, &low, &q_period, &min);
 
     for (int i = 0; i < outsize; ++i) {
         num[i] = close[size-outsize + i] - 0.5 * (max[i] + min[i]);
@@ -196,7 +205,7 @@ int ti_smi_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     for (int i = 0; i < 3; ++i) { if (options[i] < 1) { return TI_INVALID_OPTION; } }
 
-    ti_smi_stream *ptr = new ti_smi_stream;
+    ti_smi_stream *ptr = new(std::nothrow) ti_smi_stream;
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
-- 
2.43.0


From 4634bfd50307ce1b8d92b90d7963e2f5b44c7e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:25 +0000
Subject: [PATCH 10/35] fix: pbands_ref, posc_ref, pfe_ref, vwap_ref, tsi_ref,
 rmi_ref, mama_ref, pvt_ref: validate options and size, check allocations

The references used negative lengths for inputs shorter than start, skipped
the option checks and wrote through unchecked malloc results; the stream
constructors of pbands and posc could throw.
---
 indicators/mama.cc   | 23 +++++++++++++++++++++++
 indicators/pbands.cc | 10 +++++++---
 indicators/pfe.cc    |  3 ++-
 indicators/posc.cc   | 11 ++++++++---
 indicators/pvt.cc    |  2 ++
 indicators/rmi.cc    |  7 +++++++
 indicators/tsi.cc    |  7 +++++++
 indicators/vwap.cc   |  6 ++++--
 8 files changed, 60 insertions(+), 9 deletions(-)

diff --git a/indicators/mama.cc b/indicators/mama.cc
index 0a054cc..ea297a5 100644
--- a/indicators/mama.cc
+++ b/indicators/mama.cc
@@ -100,6 +100,7 @@ int ti_mama_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
             return TI_INVALID_OPTION;
         }
     }
+    if (size <= ti_mama_start(options)) { return TI_OKAY; }
 
     // Straightforward translation of the original definition in EasyLanguage
     TI_REAL const *price = series;
@@ -120,6 +121,28 @@ int ti_mama_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     TI_REAL *deltaphase = (TI_REAL*)calloc(size, sizeof(TI_REAL));
     TI_REAL *alpha = (TI_REAL*)calloc(size, sizeof(TI_REAL));
 
+    if (
+        !smooth || !detrender || !I1 || !Q1 || !jI || !jQ || !I2 || !Q2 || !Re || !Im
+        || !period || !smoothperiod || !phase || !deltaphase || !alpha
+    ) {
+        free(smooth);
+        free(detrender);
+        free(I1);
+        free(Q1);
+        free(jI);
+        free(jQ);
+        free(I2);
+        free(Q2);
+        free(Re);
+        free(Im);
+        free(period);
+        free(smoothperiod);
+        free(phase);
+        free(deltaphase);
+        free(alpha);
+        return TI_OUT_OF_MEMORY;
+    }
+
     for (int i = 6; i < size; ++i) {
         smooth[i] = (4 * price[i] + 3 * price[i-1] + 2 * price[i-2] + price[i-3]) / 10.;
         detrender[i] = (.0962*smooth[i] + .5769*smooth[i-2] - .5769*smooth[i-4] - .0962*smooth[i-6]) * (.075*period[i-1] + .54);
diff --git a/indicators/pbands.cc b/indicators/pbands.cc
index 1133089..efd7a48 100644
--- a/indicators/pbands.cc
+++ b/indicators/pbands.cc
@@ -75,14 +75,18 @@ int ti_pbands_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
     TI_REAL const *close = inputs[2];
-    const TI_REAL period = options[0];
+    const int period = options[0];
     TI_REAL *pbands_lower = outputs[0];
     TI_REAL *pbands_upper = outputs[1];
 
+    if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_pbands_start(options)) { return TI_OKAY; }
+
     int start = ti_linregslope_start(options);
     TI_REAL *b = (TI_REAL*)malloc(sizeof(TI_REAL) * (size - start));
+    if (!b) { return TI_OUT_OF_MEMORY; }
 
-    ti_linregslope(size, &close, &period, &b);
+    ti_linregslope(size, &close, options, &b);
 
     for (int i = start; i < size; ++i) {
         TI_REAL the_max = high[i];
@@ -132,7 +136,7 @@ int ti_pbands_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL period = options[0];
     if (period < 1) { return TI_INVALID_OPTION; }
 
-    ti_pbands_stream *ptr = new ti_pbands_stream();
+    ti_pbands_stream *ptr = new(std::nothrow) ti_pbands_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
diff --git a/indicators/pfe.cc b/indicators/pfe.cc
index 2e2b9a7..85c22b5 100644
--- a/indicators/pfe.cc
+++ b/indicators/pfe.cc
@@ -79,11 +79,12 @@ int ti_pfe(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
 int ti_pfe_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
     TI_REAL const *series = inputs[0];
-    const TI_REAL period = options[0];
+    const int period = options[0];
     const TI_REAL ema_period = options[1];
     TI_REAL *pfe = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (ema_period < 1) { return TI_INVALID_OPTION; }
     if (size <= ti_pfe_start(options)) { return TI_OKAY; }
 
     for (int i = period; i < size; ++i) {
diff --git a/indicators/posc.cc b/indicators/posc.cc
index d6967e0..de9322f 100644
--- a/indicators/posc.cc
+++ b/indicators/posc.cc
@@ -94,14 +94,19 @@ int ti_posc_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
     TI_REAL const *close = inputs[2];
-    const TI_REAL period = options[0];
+    const int period = options[0];
     const TI_REAL ema_period = options[1];
     TI_REAL *posc = outputs[0];
 
+    if (period < 1) { return TI_INVALID_OPTION; }
+    if (ema_period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_posc_start(options)) { return TI_OKAY; }
+
     int start = ti_linregslope_start(options);
     TI_REAL *b = (TI_REAL*)malloc(sizeof(TI_REAL) * (size - start));
+    if (!b) { return TI_OUT_OF_MEMORY; }
 
-    ti_linregslope(size, &close, &period, &b);
+    ti_linregslope(size, &close, options, &b);
 
     for (int i = start; i < size; ++i) {
         TI_REAL the_max = high[i];
@@ -155,7 +160,7 @@ int ti_posc_stream_new(TI_REAL const *options, ti_stream **stream) {
     if (period < 1) { return TI_INVALID_OPTION; }
     if (ema_period < 1) { return TI_INVALID_OPTION; }
 
-    ti_posc_stream *ptr = new ti_posc_stream();
+    ti_posc_stream *ptr = new(std::nothrow) ti_posc_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
diff --git a/indicators/pvt.cc b/indicators/pvt.cc
index cd78758..be825d3 100644
--- a/indicators/pvt.cc
+++ b/indicators/pvt.cc
@@ -40,6 +40,8 @@ DONTOPTIMIZE int ti_pvt_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     
     TI_REAL *pvt = outputs[0];
 
+    if (size <= ti_pvt_start(options)) { return TI_OKAY; }
+
     *pvt++ = volume[1] * (close[1] - close[0]) / close[0] + volume[0];
     for (int i = 2; i < size; i++) {
         *pvt = *(pvt - 1) + volume[i] * (close[i] - close[i - 1]) / close[i - 1];
diff --git a/indicators/rmi.cc b/indicators/rmi.cc
index 1b1214d..8697222 100644
--- a/indicators/rmi.cc
+++ b/indicators/rmi.cc
@@ -61,8 +61,14 @@ int ti_rmi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     if (lookback_period < 1) { return TI_INVALID_OPTION; }
 
     int start = ti_rmi_start(options);
+    if (size <= start) { return TI_OKAY; }
     TI_REAL *gains = (TI_REAL*)malloc(sizeof(TI_REAL) * (size-start));
     TI_REAL *losses = (TI_REAL*)malloc(sizeof(TI_REAL) * (size-start));
+    if (!gains || !losses) {
+        free(gains);
+        free(losses);
+        return TI_OUT_OF_MEMORY;
+    }
 
     for (int i = lookback_period; i < size; ++i) {
         gains[i-start] = MAX(0, series[i] - series[i-(int)lookback_period]);
@@ -120,6 +126,7 @@ int ti_rmi_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.price.resize(lookback_period + 1);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/tsi.cc b/indicators/tsi.cc
index f07cd9f..44c8fcb 100644
--- a/indicators/tsi.cc
+++ b/indicators/tsi.cc
@@ -66,12 +66,19 @@ int ti_tsi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
 
     for (int i = 0; i < 2; ++i) { if (options[i] < 1) { return TI_INVALID_OPTION; } }
 
+    if (size <= ti_tsi_start(options)) { return TI_OKAY; }
+
     TI_REAL _one = 1;
     int outsize = size - ti_mom_start(&_one);
     TI_REAL *momentum = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
+    if (!momentum) { return TI_OUT_OF_MEMORY; }
     ti_mom(size, &series, &_one, &momentum);
 
     TI_REAL *absmomentum = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
+    if (!absmomentum) {
+        free(momentum);
+        return TI_OUT_OF_MEMORY;
+    }
     ti_abs(outsize, &momentum, 0, &absmomentum);
 
     ti_ema(outsize, &momentum, &y_period, &momentum);
diff --git a/indicators/vwap.cc b/indicators/vwap.cc
index 1f4eed7..29d9542 100644
--- a/indicators/vwap.cc
+++ b/indicators/vwap.cc
@@ -54,13 +54,15 @@ int ti_vwap_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     TI_REAL const *low = inputs[1];
     TI_REAL const *close = inputs[2];
     TI_REAL const *volume = inputs[3];
-    const TI_REAL period = options[0];
+    const int period = options[0];
     TI_REAL *vwap = outputs[0];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_vwap_start(options)) { return TI_OKAY; }
 
-    int outsize = size - ti_typprice_start(&period);
+    int outsize = size - ti_typprice_start(0);
     TI_REAL *typprice = (TI_REAL*)malloc(sizeof(TI_REAL) * outsize);
+    if (!typprice) { return TI_OUT_OF_MEMORY; }
     ti_typprice(size, inputs, 0, &typprice);
     
     TI_REAL sum = 0;
-- 
2.43.0


From 28a1da6f57135228721b2b50a51defd4a2b2788e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:25 +0000
Subject: [PATCH 11/35] fix: report allocation failure as TI_OUT_OF_MEMORY
 instead of leaking or throwing

Stream constructors and stream/batch functions that use STL containers let
bad_alloc escape, left the half-built stream behind, or deleted it through
the base class.
---
 indicators/ahma.cc  |  7 ++++++-
 indicators/arsi.cc  |  7 ++++++-
 indicators/dwma.cc  |  8 +++++---
 indicators/edcf.cc  | 17 +++++++++++++----
 indicators/ehma.cc  |  4 +++-
 indicators/emsd.cc  |  7 ++++++-
 indicators/er.cc    |  7 ++++++-
 indicators/evwma.cc |  1 +
 indicators/frama.cc |  4 +++-
 indicators/hf.cc    | 21 ++++++++++++++++-----
 indicators/hfema.cc | 20 ++++++++++++--------
 indicators/hfsma.cc | 20 ++++++++++++--------
 indicators/ichi.cc  | 35 +++++++++++++++++++----------------
 indicators/idwma.cc | 13 ++++++++++---
 indicators/kc.cc    |  2 +-
 indicators/lma.cc   |  4 +++-
 indicators/pwma.cc  |  1 +
 indicators/rmf.cc   |  8 ++++++--
 indicators/rvi.cc   |  2 +-
 indicators/shmma.cc |  7 ++++++-
 indicators/swma.cc  |  1 +
 indicators/t3.cc    |  4 +++-
 22 files changed, 140 insertions(+), 60 deletions(-)

diff --git a/indicators/ahma.cc b/indicators/ahma.cc
index 23ae23a..be34bf3 100644
--- a/indicators/ahma.cc
+++ b/indicators/ahma.cc
@@ -80,7 +80,12 @@ int ti_ahma_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.period = period;
 
-    ptr->state.filt.resize(period+1);
+    try {
+        ptr->state.filt.resize(period+1);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
diff --git a/indicators/arsi.cc b/indicators/arsi.cc
index b329f98..f16b9ef 100644
--- a/indicators/arsi.cc
+++ b/indicators/arsi.cc
@@ -175,7 +175,12 @@ int ti_arsi_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.cycpart = cycpart;
 
-    ptr->state.Price.resize(cycpart * 50 + 1);
+    try {
+        ptr->state.Price.resize(cycpart * 50 + 1);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
diff --git a/indicators/dwma.cc b/indicators/dwma.cc
index 7281314..e3b54c1 100644
--- a/indicators/dwma.cc
+++ b/indicators/dwma.cc
@@ -75,7 +75,7 @@ int ti_dwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 }
 
 DONTOPTIMIZE
-int ti_dwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_dwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int period = options[0];
     TI_REAL *dwma = outputs[0];
@@ -90,6 +90,8 @@ int ti_dwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     ti_wma(size-period+1, arr, options, outputs);
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_dwma_stream : ti_stream {
@@ -130,14 +132,14 @@ int ti_dwma_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->constants.denom = (1. + period) * period / 2.;
 
-    ptr->state.price.resize(period);
-    
     ptr->state.numer1 = 0;
     ptr->state.sum1 = 0;
 
     try {
+        ptr->state.price.resize(period);
         ptr->state.filt1.resize(period);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/edcf.cc b/indicators/edcf.cc
index a269e2a..57b32bf 100644
--- a/indicators/edcf.cc
+++ b/indicators/edcf.cc
@@ -19,7 +19,7 @@ int ti_edcf_start(TI_REAL const *options) {
     return 2*length-1;
 }
 
-int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     TI_REAL length = options[0];
     TI_REAL *edcf = outputs[0];
@@ -60,6 +60,8 @@ int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_edcf_stream : ti_stream {
@@ -94,8 +96,13 @@ int ti_edcf_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.length = length;
 
-    ptr->state.coef.resize(2*length);
-    ptr->state.distance2.resize(2*length);
+    try {
+        ptr->state.coef.resize(2*length);
+        ptr->state.distance2.resize(2*length);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
@@ -104,7 +111,7 @@ void ti_edcf_stream_free(ti_stream *stream) {
     delete static_cast<ti_edcf_stream*>(stream);
 }
 
-int ti_edcf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_edcf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_edcf_stream *ptr = static_cast<ti_edcf_stream*>(stream);
     TI_REAL const *const series = inputs[0];
     TI_REAL *edcf = outputs[0];
@@ -143,4 +150,6 @@ int ti_edcf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
     ptr->progress = progress;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
diff --git a/indicators/ehma.cc b/indicators/ehma.cc
index 72634dd..ad4ad7e 100644
--- a/indicators/ehma.cc
+++ b/indicators/ehma.cc
@@ -53,7 +53,7 @@ int ti_ehma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     return TI_OKAY;
 }
 
-DONTOPTIMIZE int ti_ehma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_ehma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int period = options[0];
     TI_REAL *ehma = outputs[0];
@@ -83,6 +83,8 @@ DONTOPTIMIZE int ti_ehma_ref(int size, TI_REAL const *const *inputs, TI_REAL con
     ti_ema(size, arr_, &n05, outputs);
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_ehma_stream : ti_stream {
diff --git a/indicators/emsd.cc b/indicators/emsd.cc
index 0008fdd..81d32c4 100644
--- a/indicators/emsd.cc
+++ b/indicators/emsd.cc
@@ -143,7 +143,12 @@ int ti_emsd_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.period = period;
     ptr->options.ma_period = ma_period;
 
-    ptr->state.price.resize(period);
+    try {
+        ptr->state.price.resize(period);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     ptr->constants.period_reciprocal = 1. / period;
     ptr->constants.ma_period_plus1_reciprocal = 1. / (ma_period + 1.);
diff --git a/indicators/er.cc b/indicators/er.cc
index 4000814..ba48074 100644
--- a/indicators/er.cc
+++ b/indicators/er.cc
@@ -93,7 +93,12 @@ int ti_er_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.period = period;
 
-    ptr->state.price.resize(period+1);
+    try {
+        ptr->state.price.resize(period+1);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
diff --git a/indicators/evwma.cc b/indicators/evwma.cc
index d676696..abb83ed 100644
--- a/indicators/evwma.cc
+++ b/indicators/evwma.cc
@@ -119,6 +119,7 @@ int ti_evwma_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.volume.resize(period+1);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/frama.cc b/indicators/frama.cc
index 417613e..b5c7491 100644
--- a/indicators/frama.cc
+++ b/indicators/frama.cc
@@ -162,7 +162,7 @@ void ti_frama_stream_free(ti_stream *stream) {
     delete static_cast<ti_frama_stream*>(stream);
 }
 
-int ti_frama_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_frama_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_frama_stream *ptr = static_cast<ti_frama_stream*>(stream);
     TI_REAL const *high = inputs[0];
     TI_REAL const *low = inputs[1];
@@ -326,4 +326,6 @@ int ti_frama_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
     ptr->state.min2_idx = min2_idx;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
diff --git a/indicators/hf.cc b/indicators/hf.cc
index 624b418..ace87a3 100644
--- a/indicators/hf.cc
+++ b/indicators/hf.cc
@@ -21,7 +21,7 @@ int ti_hf_start(TI_REAL const *options) {
     return 2*k;
 }
 
-int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int k = options[0];
     const TI_REAL threshold = options[1];
@@ -58,9 +58,11 @@ int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
-DONTOPTIMIZE int ti_hf_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_hf_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int k = options[0];
     const TI_REAL threshold = options[1];
@@ -95,6 +97,8 @@ DONTOPTIMIZE int ti_hf_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_hf_stream : ti_stream {
@@ -132,8 +136,13 @@ int ti_hf_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.k = k;
     ptr->options.threshold = threshold;
 
-    ptr->state.price.resize(2*k+1);
-    ptr->state.absbuf.resize(2*k+1);
+    try {
+        ptr->state.price.resize(2*k+1);
+        ptr->state.absbuf.resize(2*k+1);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
@@ -142,7 +151,7 @@ void ti_hf_stream_free(ti_stream *stream) {
     delete static_cast<ti_hf_stream*>(stream);
 }
 
-int ti_hf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_hf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_hf_stream *ptr = static_cast<ti_hf_stream*>(stream);
     TI_REAL const *const series = inputs[0];
     TI_REAL *hf = outputs[0];
@@ -183,4 +192,6 @@ int ti_hf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     ptr->progress = progress;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
diff --git a/indicators/hfema.cc b/indicators/hfema.cc
index f76d033..29171ed 100644
--- a/indicators/hfema.cc
+++ b/indicators/hfema.cc
@@ -4,6 +4,7 @@
  */
 
 
+#include <memory>
 #include <new>
 #include <vector>
 #include <set>
@@ -76,7 +77,7 @@ int lessthan(void *one, void *two) {
     return *(TI_REAL*)one < *(TI_REAL*)two;
 }
 
-int ti_hfema_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_hfema_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     int ema_period = options[0];
     int k = options[1];
@@ -87,10 +88,12 @@ int ti_hfema_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     if (k < 1) { return TI_INVALID_OPTION; }
     if (threshold < 0) { return TI_INVALID_OPTION; }
 
-    TI_REAL *ema = new TI_REAL[size];
+    std::unique_ptr<TI_REAL[]> ema_store(new TI_REAL[size]);
+    TI_REAL *ema = ema_store.get();
     ti_ema(size, &series, options, &ema);
 
-    TI_REAL *data = new TI_REAL[2*k+1];
+    std::unique_ptr<TI_REAL[]> data_store(new TI_REAL[2*k+1]);
+    TI_REAL *data = data_store.get();
 
     for (int i = 2*k; i < size; ++i) {
         for (int j = 0; j < 2*k+1; ++j) {
@@ -109,10 +112,9 @@ int ti_hfema_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         *hfema++ = fabs(candidate - median_price) <= threshold * 1.4826 * median_deviation ? candidate : median_price;
     }
 
-    delete[] data;
-    delete[] ema;
-
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_hfema_stream : ti_stream {
@@ -159,7 +161,7 @@ int ti_hfema_stream_new(TI_REAL const *options, ti_stream **stream) {
         ptr->state.a.resize(2*k+1);
         ptr->state.price.resize(2*k+1);
     } catch (std::bad_alloc& e) {
-        delete *stream;
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
@@ -170,7 +172,7 @@ void ti_hfema_stream_free(ti_stream *stream) {
     delete static_cast<ti_hfema_stream*>(stream);
 }
 
-int ti_hfema_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_hfema_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_hfema_stream *ptr = static_cast<ti_hfema_stream*>(stream);
     TI_REAL const *const series = inputs[0];
     TI_REAL *hfema = outputs[0];
@@ -216,4 +218,6 @@ int ti_hfema_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
     ptr->state.ema = ema;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
diff --git a/indicators/hfsma.cc b/indicators/hfsma.cc
index b27cad0..da3ef79 100644
--- a/indicators/hfsma.cc
+++ b/indicators/hfsma.cc
@@ -8,6 +8,7 @@
 #include <deque>
 #include <set>
 #include <algorithm>
+#include <memory>
 #include <new>
 
 #include "../indicators.h"
@@ -72,7 +73,7 @@ int ti_hfsma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     return TI_OUT_OF_MEMORY;
 }
 
-int ti_hfsma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_hfsma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     const TI_REAL *const series = inputs[0];
     int sma_period = options[0];
     int k = options[1];
@@ -83,10 +84,12 @@ int ti_hfsma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
     if (k < 1) { return TI_INVALID_OPTION; }
     if (threshold < 0) { return TI_INVALID_OPTION; }
 
-    TI_REAL *sma = new TI_REAL[size];
+    std::unique_ptr<TI_REAL[]> sma_store(new TI_REAL[size]);
+    TI_REAL *sma = sma_store.get();
     ti_sma(size, &series, options, &sma);
 
-    TI_REAL *data = new TI_REAL[2*(int)k+1];
+    std::unique_ptr<TI_REAL[]> data_store(new TI_REAL[2*(int)k+1]);
+    TI_REAL *data = data_store.get();
 
     for (int i = 2*k; i < size - ti_sma_start(options); ++i) {
         for (int j = 0; j < 2*k+1; ++j) {
@@ -105,10 +108,9 @@ int ti_hfsma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         *hfsma++ = fabs(candidate - median_price) <= threshold * 1.4826 * median_deviation ? candidate : median_price;
     }
 
-    delete[] data;
-    delete[] sma;
-
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_hfsma_stream : ti_stream {
@@ -159,7 +161,7 @@ int ti_hfsma_stream_new(TI_REAL const *options, ti_stream **stream) {
         ptr->state.price.resize(2*k+1);
         ptr->state.smoothed_price.resize(2*k+1);
     } catch (std::bad_alloc& e) {
-        delete *stream;
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
@@ -170,7 +172,7 @@ void ti_hfsma_stream_free(ti_stream *stream) {
     delete static_cast<ti_hfsma_stream*>(stream);
 }
 
-int ti_hfsma_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_hfsma_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_hfsma_stream *ptr = static_cast<ti_hfsma_stream*>(stream);
     const TI_REAL *const series = inputs[0];
     TI_REAL *hfsma = outputs[0];
@@ -222,4 +224,6 @@ int ti_hfsma_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
     ptr->state.sum = sum;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
diff --git a/indicators/ichi.cc b/indicators/ichi.cc
index 09f2504..fdf9f2c 100644
--- a/indicators/ichi.cc
+++ b/indicators/ichi.cc
@@ -4,6 +4,7 @@
  */
 
 
+#include <memory>
 #include <new>
 #include <algorithm>
 #include <limits>
@@ -182,7 +183,7 @@ int ti_ichi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     return TI_OUT_OF_MEMORY;
 }
 
-DONTOPTIMIZE int ti_ichi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_ichi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const high = inputs[0];
     TI_REAL const *const low = inputs[1];
     const int period9 = options[0];
@@ -196,13 +197,20 @@ DONTOPTIMIZE int ti_ichi_ref(int size, TI_REAL const *const *inputs, TI_REAL con
     if (!(0 < period9 && period9 <= period26 && period26 <= period52)) {
         return TI_INVALID_OPTION;
     }
-
-    TI_REAL *hh9 = new TI_REAL[size];
-    TI_REAL *ll9 = new TI_REAL[size];
-    TI_REAL *hh26 = new TI_REAL[size];
-    TI_REAL *ll26 = new TI_REAL[size];
-    TI_REAL *hh52 = new TI_REAL[size];
-    TI_REAL *ll52 = new TI_REAL[size];
+    if (size <= ti_ichi_start(options)) { return TI_OKAY; }
+
+    std::unique_ptr<TI_REAL[]> hh9_store(new TI_REAL[size]);
+    TI_REAL *hh9 = hh9_store.get();
+    std::unique_ptr<TI_REAL[]> ll9_store(new TI_REAL[size]);
+    TI_REAL *ll9 = ll9_store.get();
+    std::unique_ptr<TI_REAL[]> hh26_store(new TI_REAL[size]);
+    TI_REAL *hh26 = hh26_store.get();
+    std::unique_ptr<TI_REAL[]> ll26_store(new TI_REAL[size]);
+    TI_REAL *ll26 = ll26_store.get();
+    std::unique_ptr<TI_REAL[]> hh52_store(new TI_REAL[size]);
+    TI_REAL *hh52 = hh52_store.get();
+    std::unique_ptr<TI_REAL[]> ll52_store(new TI_REAL[size]);
+    TI_REAL *ll52 = ll52_store.get();
 
     const TI_REAL numbers[] = {(TI_REAL)period9, (TI_REAL)period26, (TI_REAL)period52};
 
@@ -230,14 +238,9 @@ DONTOPTIMIZE int ti_ichi_ref(int size, TI_REAL const *const *inputs, TI_REAL con
         *ichi_senkou_span_B++ = (hh52[i-period26] + ll52[i-period26]) / 2.;
     }
 
-    delete[] hh9;
-    delete[] ll9;
-    delete[] hh26;
-    delete[] ll26;
-    delete[] hh52;
-    delete[] ll52;
-
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_ichi_stream : ti_stream {
@@ -304,7 +307,7 @@ int ti_ichi_stream_new(TI_REAL const *options, ti_stream **stream) {
         ptr->state.price_high.resize(period52);
         ptr->state.price_low.resize(period52);
     } catch (std::bad_alloc& e) {
-        delete *stream;
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/idwma.cc b/indicators/idwma.cc
index 3fcad8f..6e85abe 100644
--- a/indicators/idwma.cc
+++ b/indicators/idwma.cc
@@ -19,7 +19,7 @@ int ti_idwma_start(TI_REAL const *options) {
     return period-1;
 }
 
-int ti_idwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_idwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int period = options[0];
     const TI_REAL exponent = options[1];
@@ -45,6 +45,8 @@ int ti_idwma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 DONTOPTIMIZE int ti_idwma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
@@ -108,10 +110,15 @@ int ti_idwma_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.period = period;
     ptr->options.exponent = exponent;
 
-    ptr->state.price.resize(period);
+    try {
+        ptr->state.price.resize(period);
+        ptr->constants.coefficients.resize(period);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     ptr->constants.denom = 0;
-    ptr->constants.coefficients.resize(period);
 
     for (int i = 0; i < period; ++i) {
         ptr->constants.coefficients[i] = 1 / pow(i+1, exponent);
diff --git a/indicators/kc.cc b/indicators/kc.cc
index b9c1cc1..5cc755a 100644
--- a/indicators/kc.cc
+++ b/indicators/kc.cc
@@ -93,7 +93,7 @@ int ti_kc_stream_new(TI_REAL const *options, ti_stream **stream) {
     if (period < 0) { return TI_INVALID_OPTION; }
     if (multiple < 0) { return TI_INVALID_OPTION; }
 
-    ti_kc_stream *ptr = new ti_kc_stream();
+    ti_kc_stream *ptr = new(std::nothrow) ti_kc_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
diff --git a/indicators/lma.cc b/indicators/lma.cc
index a741bc7..c1f1274 100644
--- a/indicators/lma.cc
+++ b/indicators/lma.cc
@@ -53,7 +53,7 @@ int ti_lma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     return TI_OKAY;
 }
 
-DONTOPTIMIZE int ti_lma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_lma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const int period = options[0];
     TI_REAL *lma = outputs[0];
@@ -76,6 +76,8 @@ DONTOPTIMIZE int ti_lma_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_lma_stream : ti_stream {
diff --git a/indicators/pwma.cc b/indicators/pwma.cc
index e65dded..1f1b333 100644
--- a/indicators/pwma.cc
+++ b/indicators/pwma.cc
@@ -103,6 +103,7 @@ int ti_pwma_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.price.resize(period+1);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/rmf.cc b/indicators/rmf.cc
index 199545a..9fc77a0 100644
--- a/indicators/rmf.cc
+++ b/indicators/rmf.cc
@@ -22,7 +22,7 @@ int ti_rmf_start(TI_REAL const *options) {
     return median_period-1;
 }
 
-int ti_rmf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+int ti_rmf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     TI_REAL critical_period = options[0];
     TI_REAL median_period = options[1];
@@ -64,6 +64,8 @@ int ti_rmf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_rmf_stream : ti_stream {
@@ -111,7 +113,7 @@ void ti_rmf_stream_free(ti_stream *stream) {
     delete static_cast<ti_rmf_stream*>(stream);
 }
 
-int ti_rmf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) {
+int ti_rmf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs, TI_REAL *const *outputs) try {
     ti_rmf_stream *ptr = static_cast<ti_rmf_stream*>(stream);
     TI_REAL const *const series = inputs[0];
     TI_REAL *rmf = outputs[0];
@@ -151,4 +153,6 @@ int ti_rmf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     ptr->state.rmf_val = rmf_val;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
diff --git a/indicators/rvi.cc b/indicators/rvi.cc
index efb19c8..417ea3d 100644
--- a/indicators/rvi.cc
+++ b/indicators/rvi.cc
@@ -91,7 +91,7 @@ int ti_rvi_stream_new(TI_REAL const *options, ti_stream **stream) {
     if (ema_period < 1) { return TI_INVALID_OPTION; }
     if (stddev_period < 1) { return TI_INVALID_OPTION; }
 
-    ti_rvi_stream *ptr = new ti_rvi_stream();
+    ti_rvi_stream *ptr = new(std::nothrow) ti_rvi_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
     *stream = ptr;
 
diff --git a/indicators/shmma.cc b/indicators/shmma.cc
index f9a66a6..ff00997 100644
--- a/indicators/shmma.cc
+++ b/indicators/shmma.cc
@@ -101,7 +101,12 @@ int ti_shmma_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     ptr->options.period = period;
 
-    ptr->state.price.resize(period);
+    try {
+        ptr->state.price.resize(period);
+    } catch (std::bad_alloc& e) {
+        delete ptr;
+        return TI_OUT_OF_MEMORY;
+    }
 
     return TI_OKAY;
 }
diff --git a/indicators/swma.cc b/indicators/swma.cc
index 2880cbb..d9d0e7a 100644
--- a/indicators/swma.cc
+++ b/indicators/swma.cc
@@ -115,6 +115,7 @@ int ti_swma_stream_new(TI_REAL const *options, ti_stream **stream) {
     try {
         ptr->state.price.resize(period);
     } catch (std::bad_alloc& e) {
+        delete ptr;
         return TI_OUT_OF_MEMORY;
     }
 
diff --git a/indicators/t3.cc b/indicators/t3.cc
index a197159..38a5264 100644
--- a/indicators/t3.cc
+++ b/indicators/t3.cc
@@ -76,7 +76,7 @@ int ti_t3(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     return TI_OKAY;
 }
 
-DONTOPTIMIZE int ti_t3_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) {
+DONTOPTIMIZE int ti_t3_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REAL *const *outputs) try {
     TI_REAL const *const series = inputs[0];
     const TI_REAL period = options[0];
     const TI_REAL v = options[1];
@@ -112,6 +112,8 @@ DONTOPTIMIZE int ti_t3_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     std::memcpy(t3, output.data(), sizeof(TI_REAL) * size);
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 struct ti_t3_stream : ti_stream {
-- 
2.43.0


From 7ec4dc45f4789795d7414615445e234e805c2d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:53 +0000
Subject: [PATCH 12/35] fix: do not convert market data to int (arsi,
 evwma_ref, trunc); abands_ref returns early for short inputs

(int)(cycpart*SmoothPeriod) and (int)input[i] are undefined for NaN and large
values, accumulate with an int seed truncated every partial sum of evwma_ref,
arsi's stream buffer was too small for Price[3] when cycpart is tiny.
---
 indicators/abands.cc | 1 +
 indicators/arsi.cc   | 8 ++++----
 indicators/evwma.cc  | 2 +-
 indicators/trunc.cc  | 2 +-
 4 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/indicators/abands.cc b/indicators/abands.cc
index e0fdedb..f4c8ebf 100644
--- a/indicators/abands.cc
+++ b/indicators/abands.cc
@@ -93,6 +93,7 @@ int ti_abands_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options
     TI_REAL *middle_point = outputs[2];
 
     if (period < 1) { return TI_INVALID_OPTION; }
+    if (size <= ti_abands_start(options)) return TI_OKAY;
 
     for (int i = period-1; i < size; ++i) {
         TI_REAL upper = 0;
diff --git a/indicators/arsi.cc b/indicators/arsi.cc
index f16b9ef..943ca97 100644
--- a/indicators/arsi.cc
+++ b/indicators/arsi.cc
@@ -68,7 +68,7 @@ int ti_arsi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
         TI_REAL CU = 0;
         TI_REAL CD = 0;
-        for (int count = 0; count < (int)(cycpart * SmoothPeriod) && count < i; ++count) {
+        for (int count = 0; count + 1 <= cycpart * SmoothPeriod && count < i; ++count) {
             CU += std::max<TI_REAL>(0, series[i-count] - series[i-count-1]);
             CD += -std::min<TI_REAL>(0, series[i-count] - series[i-count-1]);
         }
@@ -126,7 +126,7 @@ DONTOPTIMIZE int ti_arsi_ref(int size, TI_REAL const *const *inputs, TI_REAL con
 
         TI_REAL CU = 0;
         TI_REAL CD = 0;
-        for (int count = 0; count < (int)(cycpart * SmoothPeriod) && count < i; ++count) {
+        for (int count = 0; count + 1 <= cycpart * SmoothPeriod && count < i; ++count) {
             CU += std::max<TI_REAL>(0, series[i-count] - series[i-count-1]);
             CD += -std::min<TI_REAL>(0, series[i-count] - series[i-count-1]);
         }
@@ -176,7 +176,7 @@ int ti_arsi_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.cycpart = cycpart;
 
     try {
-        ptr->state.Price.resize(cycpart * 50 + 1);
+        ptr->state.Price.resize(std::max(4, (int)(cycpart * 50 + 1)));
     } catch (std::bad_alloc& e) {
         delete ptr;
         return TI_OUT_OF_MEMORY;
@@ -243,7 +243,7 @@ int ti_arsi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
 
         TI_REAL CU = 0;
         TI_REAL CD = 0;
-        for (int count = 0; count < (int)(cycpart * SmoothPeriod) && count < progress + 5; ++count) {
+        for (int count = 0; count + 1 <= cycpart * SmoothPeriod && count < progress + 5; ++count) {
             CU += std::max<TI_REAL>(0, Price[count] - Price[count+1]);
             CD += -std::min<TI_REAL>(0, Price[count] - Price[count+1]);
         }
diff --git a/indicators/evwma.cc b/indicators/evwma.cc
index abb83ed..eaa802a 100644
--- a/indicators/evwma.cc
+++ b/indicators/evwma.cc
@@ -71,7 +71,7 @@ DONTOPTIMIZE int ti_evwma_ref(int size, TI_REAL const *const *inputs, TI_REAL co
         *evwma++ = filt;
     }
     for (; i < size; ++i) {
-        const TI_REAL N = std::accumulate(volume + i - period + 1, volume + i + 1, 0);
+        const TI_REAL N = std::accumulate(volume + i - period + 1, volume + i + 1, (TI_REAL)0);
 
         filt = filt * (1 - volume[i] / (gamma * N)) + volume[i] / (gamma * N) * close[i];
 
diff --git a/indicators/trunc.cc b/indicators/trunc.cc
index f1b166d..9dfcb17 100644
--- a/indicators/trunc.cc
+++ b/indicators/trunc.cc
@@ -9,4 +9,4 @@
 #include "simple1.h"
 
 
-SIMPLE1(ti_trunc_start, ti_trunc, (int)(in1[i]))
+SIMPLE1(ti_trunc_start, ti_trunc, trunc(in1[i]))
-- 
2.43.0


From 4ed1a9cd715036f3c93b2864da383b72416b13d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:31:28 +0000
Subject: [PATCH 13/35] fix: ce, cmi, mhlma streams and smi: emit the first
 output when the leading period is 1

---
 indicators/ce.cc    | 4 ++++
 indicators/cmi.cc   | 4 ++++
 indicators/mhlma.cc | 6 ++++++
 indicators/smi.cc   | 6 ++++++
 4 files changed, 20 insertions(+)

diff --git a/indicators/ce.cc b/indicators/ce.cc
index bc17898..f77b07f 100644
--- a/indicators/ce.cc
+++ b/indicators/ce.cc
@@ -254,6 +254,10 @@ int ti_ce_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
         min = low[i];
         max_idx = progress;
         min_idx = progress;
+        if (progress == 0) {
+            *ce_high++ = max - coef * atr;
+            *ce_low++ = min + coef * atr;
+        }
 
         prev_close = close[i];
     }
diff --git a/indicators/cmi.cc b/indicators/cmi.cc
index 7a53ec5..62ca0bc 100644
--- a/indicators/cmi.cc
+++ b/indicators/cmi.cc
@@ -201,6 +201,10 @@ int ti_cmi_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
         ll = tr;
         hh_idx = progress;
         ll_idx = progress;
+        if (progress == 0) {
+            *cmi++ = log((hh - ll) / sum) / log(period) * 100;
+            sum -= tr;
+        }
     }
     for (; progress < 0 && i < size; ++i, ++progress, step(tr, price_close)) {
         price_close = close[i];
diff --git a/indicators/mhlma.cc b/indicators/mhlma.cc
index b47d2a1..afee656 100644
--- a/indicators/mhlma.cc
+++ b/indicators/mhlma.cc
@@ -250,6 +250,12 @@ int ti_mhlma_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
 
         sum += mhl;
         ema = mhl;
+
+        if (progress == 0) {
+            *mhlsma++ = sum / ma_period;
+            *mhlema++ = ema;
+            sum -= mhl;
+        }
     }
     for (; progress < -ma_period+1 + period && progress < 0 && i < size; ++i, ++progress, step(mhl, price)) {
         price = series[i];
diff --git a/indicators/smi.cc b/indicators/smi.cc
index 0718724..01c486e 100644
--- a/indicators/smi.cc
+++ b/indicators/smi.cc
@@ -48,6 +48,12 @@ int ti_smi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
         hh_idx = progress;
         ll = low[i];
         ll_idx = progress;
+        if (progress == 0) {
+            ema_r_num = ema_s_num = close[i] - 0.5 * (hh + ll);
+            ema_r_den = ema_s_den = hh - ll;
+
+            *smi++ = ema_s_den ? 100 * ema_s_num / (0.5 * ema_s_den) : 0;
+        }
     }
     for (; i < size && progress < 0; ++i, ++progress) {
         if (hh <= high[i]) {
-- 
2.43.0


From 2d034d441be6d398ff1ee8314dc86072c865b2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:23 +0000
Subject: [PATCH 14/35] fix: pvt: a bar without volume leaves the running total
 unchanged instead of resetting it

---
 indicators/pvt.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/indicators/pvt.cc b/indicators/pvt.cc
index be825d3..e74a7ea 100644
--- a/indicators/pvt.cc
+++ b/indicators/pvt.cc
@@ -24,10 +24,10 @@ int ti_pvt(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
 
     int i = 1;
     for (; i < 2 && i < size; ++i) {
-        *pvt++ = volume[i] && volume[i-1] ? volume[i] * (close[i] - close[i-1]) / close[i-1] + volume[i-1] : 0;
+        *pvt++ = volume[i] * (close[i] - close[i-1]) / close[i-1] + volume[i-1];
     }
     for (; i < size; i++) {
-        *pvt = volume[i] && volume[i-1] ? *(pvt - 1) + volume[i] * (close[i] - close[i-1]) / close[i-1] : 0;
+        *pvt = *(pvt - 1) + volume[i] * (close[i] - close[i-1]) / close[i-1];
         pvt++;
     }
 
@@ -96,7 +96,7 @@ int ti_pvt_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     } 
  
     if (progress == 0 && index < size) {
-        last_pvt = volume[index] && starting ? volume[index] * (close[index] - last_close) / last_close + starting : 0;
+        last_pvt = volume[index] * (close[index] - last_close) / last_close + starting;
         last_close = close[index];
 
         *pvt++ = last_pvt;
@@ -106,7 +106,7 @@ int ti_pvt_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
     }
 
     for (; index < size; index++) {
-        last_pvt += volume[index] && last_pvt ? volume[index] * (close[index] - last_close) / last_close : 0;
+        last_pvt += volume[index] * (close[index] - last_close) / last_close;
         last_close = close[index];
 
         *pvt++ = last_pvt;
-- 
2.43.0


From 30826abb54d04383680eb64e6eb3b6affa2cdd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:44 +0000
Subject: [PATCH 15/35] fix: hf, hfema, hfsma, rmf: order NaN consistently so
 bad data cannot corrupt the ranked window

---
 indicators/hf.cc    | 13 +++++++------
 indicators/hfema.cc | 13 +++++++------
 indicators/hfsma.cc | 15 ++++++++-------
 indicators/rmf.cc   |  5 +++--
 utils/nanorder.hh   | 13 +++++++++++++
 5 files changed, 38 insertions(+), 21 deletions(-)
 create mode 100644 utils/nanorder.hh

diff --git a/indicators/hf.cc b/indicators/hf.cc
index ace87a3..e67b1d2 100644
--- a/indicators/hf.cc
+++ b/indicators/hf.cc
@@ -11,6 +11,7 @@
 
 #include "../indicators.h"
 #include "../utils/log.h"
+#include "../utils/nanorder.hh"
 #include "../utils/minmax.h"
 #include "../utils/ringbuf.hh"
 
@@ -30,7 +31,7 @@ int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
     if (k < 1) { return TI_INVALID_OPTION; }
     if (threshold < 0) { return TI_INVALID_OPTION; }
 
-    std::multiset<TI_REAL> rankedprice;
+    std::multiset<TI_REAL, nan_last> rankedprice;
     std::vector<TI_REAL> a(2*k+1);
 
     int i = 0;
@@ -48,7 +49,7 @@ int ti_hf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_REA
             ++j;
         }
 
-        std::nth_element(a.begin(), a.begin()+k, a.end());
+        std::nth_element(a.begin(), a.begin()+k, a.end(), nan_last());
         TI_REAL median_deviation = a[k];
 
         TI_REAL candidate = series[i];
@@ -71,7 +72,7 @@ DONTOPTIMIZE int ti_hf_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     if (k < 1) { return TI_INVALID_OPTION; }
     if (threshold < 0) { return TI_INVALID_OPTION; }
 
-    std::multiset<TI_REAL> rankedprice;
+    std::multiset<TI_REAL, nan_last> rankedprice;
 
     int i = 0;
     for (; i < 2*k && i < size; ++i) {
@@ -87,7 +88,7 @@ DONTOPTIMIZE int ti_hf_ref(int size, TI_REAL const *const *inputs, TI_REAL const
             a.push_back(fabs(price - median_price));
         }
 
-        std::nth_element(a.begin(), a.begin()+k, a.end());
+        std::nth_element(a.begin(), a.begin()+k, a.end(), nan_last());
         TI_REAL median_deviation = a[k];
 
         TI_REAL candidate = series[i];
@@ -110,7 +111,7 @@ struct ti_hf_stream : ti_stream {
 
     struct {
         ringbuf<0> price;
-        std::multiset<TI_REAL> rankedprice;
+        std::multiset<TI_REAL, nan_last> rankedprice;
         std::vector<TI_REAL> absbuf;
     } state;
 
@@ -180,7 +181,7 @@ int ti_hf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs,
             ++j;
         }
 
-        std::nth_element(absbuf.begin(), absbuf.begin()+k, absbuf.end());
+        std::nth_element(absbuf.begin(), absbuf.begin()+k, absbuf.end(), nan_last());
         TI_REAL median_deviation = absbuf[k];
 
         TI_REAL candidate = series[i];
diff --git a/indicators/hfema.cc b/indicators/hfema.cc
index 29171ed..09e306a 100644
--- a/indicators/hfema.cc
+++ b/indicators/hfema.cc
@@ -13,6 +13,7 @@
 #include "../indicators.h"
 #include "../utils/ringbuf.hh"
 #include "../utils/log.h"
+#include "../utils/nanorder.hh"
 
 int ti_hfema_start(TI_REAL const *options) {
     int ema_period = options[0];
@@ -34,7 +35,7 @@ int ti_hfema(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     if (threshold < 0) { return TI_INVALID_OPTION; }
 
     TI_REAL ema;
-    std::multiset<TI_REAL> rankedprice;
+    std::multiset<TI_REAL, nan_last> rankedprice;
     ringbuf<0> price(2*k+1);
     std::vector<TI_REAL> a(2*k+1);
 
@@ -60,7 +61,7 @@ int ti_hfema(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
         for (auto it = rankedprice.begin(); it != rankedprice.end(); ++it, ++j) {
             a[j] = fabs(*it - median_price);
         }
-        std::nth_element(a.begin(), a.begin()+k, a.end());
+        std::nth_element(a.begin(), a.begin()+k, a.end(), nan_last());
         TI_REAL median_deviation = a[k];
         TI_REAL candidate = price[k];
         *hfema++ = fabs(candidate - median_price) <= threshold * 1.4826 * median_deviation ? candidate : median_price;
@@ -99,13 +100,13 @@ int ti_hfema_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         for (int j = 0; j < 2*k+1; ++j) {
             data[j] = ema[i-2*(int)k+j];
         }
-        std::sort(data, data+2*k+1);
+        std::sort(data, data+2*k+1, nan_last());
         TI_REAL median_price = data[(int)k];
 
         for (int j = 0; j < 2*k+1; ++j) {
             data[j] = fabs(data[j] - median_price);
         }
-        std::sort(data, data+2*k+1);
+        std::sort(data, data+2*k+1, nan_last());
         TI_REAL median_deviation = data[(int)k];
 
         TI_REAL candidate = ema[i-(int)k];
@@ -128,7 +129,7 @@ struct ti_hfema_stream : ti_stream {
     struct {
         TI_REAL ema;
         ringbuf<0> price;
-        std::multiset<TI_REAL> rankedprice;
+        std::multiset<TI_REAL, nan_last> rankedprice;
         std::vector<TI_REAL> a;
     } state;
 
@@ -206,7 +207,7 @@ int ti_hfema_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
         for (auto it = rankedprice.begin(); it != rankedprice.end(); ++it, ++j) {
             a[j] = fabs(*it - median_price);
         }
-        std::nth_element(a.begin(), a.begin()+k, a.end());
+        std::nth_element(a.begin(), a.begin()+k, a.end(), nan_last());
         TI_REAL median_deviation = a[k];
         TI_REAL candidate = price[k];
         *hfema++ = fabs(candidate - median_price) <= threshold * 1.4826 * median_deviation ? candidate : median_price;
diff --git a/indicators/hfsma.cc b/indicators/hfsma.cc
index da3ef79..52a6591 100644
--- a/indicators/hfsma.cc
+++ b/indicators/hfsma.cc
@@ -12,6 +12,7 @@
 #include <new>
 
 #include "../indicators.h"
+#include "../utils/nanorder.hh"
 #include "../utils/ringbuf.hh"
 
 int ti_hfsma_start(TI_REAL const *options) {
@@ -34,7 +35,7 @@ int ti_hfsma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
     if (threshold < 0) { return TI_INVALID_OPTION; }
 
     TI_REAL sum = 0.;
-    std::multiset<TI_REAL> rankedprice;
+    std::multiset<TI_REAL, nan_last> rankedprice;
     ringbuf<0> smoothed_price(2*k+1);
     std::vector<TI_REAL> a(2*k+1);
 
@@ -59,7 +60,7 @@ int ti_hfsma(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_
         for (auto it = rankedprice.begin(); it != rankedprice.end(); ++it, ++j) {
             a[j] = fabs(*it - median_price);
         }
-        std::nth_element(a.begin(), a.begin()+k, a.end());
+        std::nth_element(a.begin(), a.begin()+k, a.end(), nan_last());
         TI_REAL median_deviation = a[k];
         TI_REAL candidate = smoothed_price[k];
         *hfsma++ = fabs(candidate - median_price) <= threshold * 1.4826 * median_deviation ? candidate : median_price;
@@ -95,13 +96,13 @@ int ti_hfsma_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         for (int j = 0; j < 2*k+1; ++j) {
             data[j] = sma[i-2*(int)k+j];
         }
-        std::sort(data, data + 2*(int)k+1);
+        std::sort(data, data + 2*(int)k+1, nan_last());
         TI_REAL median_price = data[(int)k];
 
         for (int j = 0; j < 2*k+1; ++j) {
             data[j] = fabs(data[j] - median_price);
         }
-        std::sort(data, data + 2*(int)k+1);
+        std::sort(data, data + 2*(int)k+1, nan_last());
         TI_REAL median_deviation = data[(int)k];
 
         TI_REAL candidate = sma[i-(int)k];
@@ -123,7 +124,7 @@ struct ti_hfsma_stream : ti_stream {
 
     struct {
         TI_REAL sum;
-        std::multiset<TI_REAL> rankedprice;
+        std::multiset<TI_REAL, nan_last> rankedprice;
         ringbuf<0> price;
         ringbuf<0> smoothed_price;
         std::vector<TI_REAL> a;
@@ -182,7 +183,7 @@ int ti_hfsma_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
     TI_REAL threshold = ptr->options.threshold;
 
     TI_REAL sum = ptr->state.sum;
-    std::multiset<TI_REAL> &rankedprice = ptr->state.rankedprice;
+    std::multiset<TI_REAL, nan_last> &rankedprice = ptr->state.rankedprice;
     auto &price = ptr->state.price;
     auto &smoothed_price = ptr->state.smoothed_price;
     auto &a = ptr->state.a;
@@ -211,7 +212,7 @@ int ti_hfsma_stream_run(ti_stream *stream, int size, TI_REAL const *const *input
         for (auto it = rankedprice.begin(); it != rankedprice.end(); ++it, ++j) {
             a[j] = fabs(*it - median_price);
         }
-        std::nth_element(a.begin(), a.begin()+k, a.end());
+        std::nth_element(a.begin(), a.begin()+k, a.end(), nan_last());
         TI_REAL median_deviation = a[k];
         TI_REAL candidate = smoothed_price[k];
         *hfsma++ = fabs(candidate - median_price) <= threshold * 1.4826 * median_deviation ? candidate : median_price;
diff --git a/indicators/rmf.cc b/indicators/rmf.cc
index 9fc77a0..061664b 100644
--- a/indicators/rmf.cc
+++ b/indicators/rmf.cc
@@ -12,6 +12,7 @@
 #include "../indicators.h"
 #include "../utils/localbuffer.h"
 #include "../utils/log.h"
+#include "../utils/nanorder.hh"
 
 const TI_REAL PI = acos(-1);
 
@@ -33,7 +34,7 @@ int ti_rmf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     if ((int)median_period % 2 != 1) { return TI_INVALID_OPTION; }
 
     TI_REAL rmf_val;
-    std::multiset<TI_REAL> rankedprice;
+    std::multiset<TI_REAL, nan_last> rankedprice;
     std::deque<TI_REAL> price;
 
     TI_REAL alpha = (cos(2*PI/critical_period) + sin(2*PI/critical_period) - 1.) / cos(2*PI/critical_period);
@@ -77,7 +78,7 @@ struct ti_rmf_stream : ti_stream {
 
     struct {
         TI_REAL rmf_val;
-        std::multiset<TI_REAL> rankedprice;
+        std::multiset<TI_REAL, nan_last> rankedprice;
         std::deque<TI_REAL> price;
     } state;
 
diff --git a/utils/nanorder.hh b/utils/nanorder.hh
new file mode 100644
index 0000000..772566e
--- /dev/null
+++ b/utils/nanorder.hh
@@ -0,0 +1,13 @@
+/*
+ * This file is part of tindicators, licensed under GNU LGPL v3.
+ */
+
+
+#pragma once
+
+/* std::less that also orders NaN (after everything else): the standard
+ * containers and algorithms need a strict weak order, otherwise a NaN in the
+ * data makes their behaviour undefined. */
+struct nan_last {
+    bool operator()(double a, double b) const { return a < b || (a == a && b != b); }
+};
-- 
2.43.0


From 236b8565b5180228a17f11b177c9aa81b65c7329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:38 +0000
Subject: [PATCH 16/35] fix: frama, edcf, rmf, vi streams: report allocation
 failure while the stream object is constructed; frama stream validates and
 truncates like the batch function

---
 indicators/edcf.cc  | 4 +++-
 indicators/frama.cc | 9 ++++++---
 indicators/rmf.cc   | 4 +++-
 indicators/vi.cc    | 4 +++-
 4 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/indicators/edcf.cc b/indicators/edcf.cc
index 57b32bf..ad8e82b 100644
--- a/indicators/edcf.cc
+++ b/indicators/edcf.cc
@@ -81,7 +81,7 @@ struct ti_edcf_stream : ti_stream {
     } constants;
 };
 
-int ti_edcf_stream_new(TI_REAL const *options, ti_stream **stream) {
+int ti_edcf_stream_new(TI_REAL const *options, ti_stream **stream) try {
     TI_REAL lookback = options[0];
     TI_REAL length = options[0];
 
@@ -105,6 +105,8 @@ int ti_edcf_stream_new(TI_REAL const *options, ti_stream **stream) {
     }
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 void ti_edcf_stream_free(ti_stream *stream) {
diff --git a/indicators/frama.cc b/indicators/frama.cc
index b5c7491..1bb1371 100644
--- a/indicators/frama.cc
+++ b/indicators/frama.cc
@@ -136,12 +136,13 @@ struct ti_frama_stream : ti_stream {
     } constants;
 };
 
-int ti_frama_stream_new(TI_REAL const *options, ti_stream **stream) {
-    TI_REAL period = options[0];
+int ti_frama_stream_new(TI_REAL const *options, ti_stream **stream) try {
+    const int period = options[0];
     TI_REAL average_period = options[1];
 
     if (period < 1) { return TI_INVALID_OPTION; }
-    if ((int)period % 2 != 0) { return TI_INVALID_OPTION; }
+    if (average_period < 2) { return TI_INVALID_OPTION; }
+    if (period % 2 != 0) { return TI_INVALID_OPTION; }
 
     ti_frama_stream *ptr = new(std::nothrow) ti_frama_stream();
     if (!ptr) { return TI_OUT_OF_MEMORY; }
@@ -156,6 +157,8 @@ int ti_frama_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->constants.w = log(2.0 / (1.0 + average_period));
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 void ti_frama_stream_free(ti_stream *stream) {
diff --git a/indicators/rmf.cc b/indicators/rmf.cc
index 061664b..38368d8 100644
--- a/indicators/rmf.cc
+++ b/indicators/rmf.cc
@@ -87,7 +87,7 @@ struct ti_rmf_stream : ti_stream {
     } constants;
 };
 
-int ti_rmf_stream_new(TI_REAL const *options, ti_stream **stream) {
+int ti_rmf_stream_new(TI_REAL const *options, ti_stream **stream) try {
     TI_REAL critical_period = options[0];
     TI_REAL median_period = options[1];
 
@@ -108,6 +108,8 @@ int ti_rmf_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->constants.alpha = (cos(2*PI/critical_period) + sin(2*PI/critical_period) - 1.) / cos(2*PI/critical_period);
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 void ti_rmf_stream_free(ti_stream *stream) {
diff --git a/indicators/vi.cc b/indicators/vi.cc
index 9c83cf7..a4f574c 100644
--- a/indicators/vi.cc
+++ b/indicators/vi.cc
@@ -126,7 +126,7 @@ struct ti_vi_stream : ti_stream {
     } constants;
 };
 
-int ti_vi_stream_new(TI_REAL const *options, ti_stream **stream) {
+int ti_vi_stream_new(TI_REAL const *options, ti_stream **stream) try {
     const TI_REAL period = options[0];
 
     if (period < 1) return TI_INVALID_OPTION;
@@ -141,6 +141,8 @@ int ti_vi_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.period = period;
 
     return TI_OKAY;
+} catch (std::bad_alloc& e) {
+    return TI_OUT_OF_MEMORY;
 }
 
 void ti_vi_stream_free(ti_stream *stream) {
-- 
2.43.0


From 6f224f496d0b27aa76d286b622b0e8b0d2b81e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:38 +0000
Subject: [PATCH 17/35] fix: hfsma stream keeps sma_period prices, its running
 sum read past the buffer

---
 indicators/hfsma.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/hfsma.cc b/indicators/hfsma.cc
index 52a6591..7006896 100644
--- a/indicators/hfsma.cc
+++ b/indicators/hfsma.cc
@@ -159,7 +159,7 @@ int ti_hfsma_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     try {
         ptr->state.a.resize(2*k+1);
-        ptr->state.price.resize(2*k+1);
+        ptr->state.price.resize(sma_period);
         ptr->state.smoothed_price.resize(2*k+1);
     } catch (std::bad_alloc& e) {
         delete ptr;
-- 
2.43.0


From c806b219513dd6c46106ed0c31e22393db43334a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:38 +0000
Subject: [PATCH 18/35] fix: hurst stream truncates a fractional period

---
 indicators/hurst.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/hurst.cc b/indicators/hurst.cc
index c3b8c95..337c611 100644
--- a/indicators/hurst.cc
+++ b/indicators/hurst.cc
@@ -134,7 +134,7 @@ struct ti_hurst_stream : ti_stream {
 };
 
 int ti_hurst_stream_new(TI_REAL const *options, ti_stream **stream) {
-    const TI_REAL period = options[0];
+    const int period = options[0];
 
     if (period < 2) { return TI_INVALID_OPTION; }
 
-- 
2.43.0


From 78be39a5092f66ec7f3dbf6d89199396aae29559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:38 +0000
Subject: [PATCH 19/35] fix: fi_ref and the kc stream reject periods below 1
 like ti_fi and ti_kc

---
 indicators/fi.cc | 1 +
 indicators/kc.cc | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/indicators/fi.cc b/indicators/fi.cc
index fc5ccc7..7405d34 100644
--- a/indicators/fi.cc
+++ b/indicators/fi.cc
@@ -41,6 +41,7 @@ int ti_fi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
     TI_REAL const period = options[0];
     TI_REAL *fi = outputs[0];
 
+    if (period < 1) { return TI_INVALID_OPTION; }
     if (size <= ti_fi_start(options)) { return TI_OKAY; }
 
     for (int i = 1; i < size; ++i) {
diff --git a/indicators/kc.cc b/indicators/kc.cc
index 5cc755a..3cbe357 100644
--- a/indicators/kc.cc
+++ b/indicators/kc.cc
@@ -90,7 +90,7 @@ int ti_kc_stream_new(TI_REAL const *options, ti_stream **stream) {
     const TI_REAL period = options[0];
     const TI_REAL multiple = options[1];
 
-    if (period < 0) { return TI_INVALID_OPTION; }
+    if (period < 1) { return TI_INVALID_OPTION; }
     if (multiple < 0) { return TI_INVALID_OPTION; }
 
     ti_kc_stream *ptr = new(std::nothrow) ti_kc_stream();
-- 
2.43.0


From 3878c32de62fd9035d1515962e83bbe67125d8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:38 +0000
Subject: [PATCH 20/35] fix: ehma_ref must not truncate the half and
 square-root periods

---
 indicators/ehma.cc | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/indicators/ehma.cc b/indicators/ehma.cc
index ad4ad7e..742bdbf 100644
--- a/indicators/ehma.cc
+++ b/indicators/ehma.cc
@@ -68,19 +68,21 @@ DONTOPTIMIZE int ti_ehma_ref(int size, TI_REAL const *const *inputs, TI_REAL con
     TI_REAL n = period;
     TI_REAL n05 = sqrt(period);
 
-    TI_REAL* arr_[1];
+    // ti_ema truncates its period, n2 and n05 need not be integral
+    auto ema = [size](TI_REAL const *input, TI_REAL period, TI_REAL *output) {
+        for (int i = 0; i < size; ++i) {
+            output[i] = i == 0 ? input[i] : (input[i] - output[i-1]) * 2. / (period + 1.) + output[i-1];
+        }
+    };
 
-    arr_[0] = ema_n2.data();
-    ti_ema(size, &series, &n2, arr_);
-    arr_[0] = ema_n.data();
-    ti_ema(size, &series, &n, arr_);
+    ema(series, n2, ema_n2.data());
+    ema(series, n, ema_n.data());
 
     for (int i = 0; i < size; ++i) {
         subtr[i] = 2. * ema_n2[i] - ema_n[i];
     }
 
-    arr_[0] = subtr.data();
-    ti_ema(size, arr_, &n05, outputs);
+    ema(subtr.data(), n05, ehma);
 
     return TI_OKAY;
 } catch (std::bad_alloc& e) {
-- 
2.43.0


From 540b8dcab98875aa7c97720384c082a8e38fa5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:38 +0000
Subject: [PATCH 21/35] fix: hma_start and t3_ref: no undefined conversion or
 null copy on degenerate arguments

---
 indicators/hma.cc | 3 ++-
 indicators/t3.cc  | 2 ++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/indicators/hma.cc b/indicators/hma.cc
index 25dc6fc..31d656f 100644
--- a/indicators/hma.cc
+++ b/indicators/hma.cc
@@ -13,8 +13,9 @@
 
 int ti_hma_start(TI_REAL const *options) {
     const int period = (int)options[0];
+    if (period < 0) { return -1; }
     const int periodsqrt = (int)(sqrt(period));
-    return period >= 0 ? period + periodsqrt - 2 : -1;
+    return period + periodsqrt - 2;
 }
 
 
diff --git a/indicators/t3.cc b/indicators/t3.cc
index 38a5264..3dfb5b2 100644
--- a/indicators/t3.cc
+++ b/indicators/t3.cc
@@ -85,6 +85,8 @@ DONTOPTIMIZE int ti_t3_ref(int size, TI_REAL const *const *inputs, TI_REAL const
     if (period < 1) { return TI_INVALID_OPTION; }
     if (v < 0) { return TI_INVALID_OPTION; }
 
+    if (size <= ti_t3_start(options)) { return TI_OKAY; }
+
     auto GD = [period, v](const std::vector<TI_REAL> &input) -> std::vector<TI_REAL> {
         const int size = input.size();
 
-- 
2.43.0


From d98ae1ed3de2e304fce392411ee93090f1b1f95c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:24 +0000
Subject: [PATCH 22/35] fix: copp stream computes the weight sum in TI_REAL
 like ti_copp

---
 indicators/copp.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/copp.cc b/indicators/copp.cc
index 92326e5..4ba96a6 100644
--- a/indicators/copp.cc
+++ b/indicators/copp.cc
@@ -163,7 +163,7 @@ int ti_copp_stream_new(TI_REAL const *options, ti_stream **stream) {
     ptr->options.roc_longer_period = roc_longer_period;
     ptr->options.wma_period = wma_period;
 
-    ptr->constants.denominator = 1. / (wma_period * (wma_period + 1) / 2);
+    ptr->constants.denominator = 1. / (wma_period * (wma_period + 1.) / 2.);
 
     ptr->state.flat_rocs_sum = 0.;
     ptr->state.weighted_rocs_sum = 0.;
-- 
2.43.0


From ff5314dc3952b46d5f27e0fbf47c94a345485cc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:09:43 +0000
Subject: [PATCH 23/35] fix: cvi: with period 1 the first output read the lag
 buffer before anything was stored in it

---
 indicators/cvi.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/indicators/cvi.cc b/indicators/cvi.cc
index 54b7c78..1133716 100644
--- a/indicators/cvi.cc
+++ b/indicators/cvi.cc
@@ -32,6 +32,7 @@ int ti_cvi(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     if (!lag) { return TI_OUT_OF_MEMORY; }
 
     TI_REAL val = high[0]-low[0];
+    ti_buffer_qpush(lag, val);
 
     int i;
     for (i = 1; i < period*2-1; ++i) {
-- 
2.43.0


From 0b4d653b03e800317ad9030aad0aaff23ed3d1fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:31:32 +0000
Subject: [PATCH 24/35] fix: ringbuf<2>: a maximum or minimum over one value
 ignored the period

---
 utils/ringbuf.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/utils/ringbuf.hh b/utils/ringbuf.hh
index 955eddb..46ebfa9 100644
--- a/utils/ringbuf.hh
+++ b/utils/ringbuf.hh
@@ -105,11 +105,11 @@ struct ringbuf<2> {
 
     template<class Cmp = std::less<TI_REAL>>
     TI_REAL* find_max(int period) {
-        if (a1 >= a2) { return &a1; }
+        if (period < 2 || a1 >= a2) { return &a1; }
         else { return &a2; }
     }
     TI_REAL* find_min(int period) {
-        if (a1 <= a2) { return &a1; }
+        if (period < 2 || a1 <= a2) { return &a1; }
         else { return &a2; }
     }
 
-- 
2.43.0


From b8425de11909edfeb8a803d804d8bd2059fc4d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:45 +0000
Subject: [PATCH 25/35] fix: gf3: the feedback coefficients were read from the
 wrong table

---
 indicators/gf3.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/indicators/gf3.cc b/indicators/gf3.cc
index f2a9e0f..9745d57 100644
--- a/indicators/gf3.cc
+++ b/indicators/gf3.cc
@@ -38,9 +38,9 @@ int ti_gf3(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_RE
     const int idx = period/2-1;
 
     const TI_REAL B0 = tables.B0[idx];
-    const TI_REAL A1 = tables.B0[idx];
-    const TI_REAL A2 = tables.B0[idx];
-    const TI_REAL A3 = tables.B0[idx];
+    const TI_REAL A1 = tables.A1[idx];
+    const TI_REAL A2 = tables.A2[idx];
+    const TI_REAL A3 = tables.A3[idx];
     const TI_REAL csum_recipr = 1. / (B0 + A1 + A2 + A3);
 
     int i = 0;
@@ -66,9 +66,9 @@ DONTOPTIMIZE int ti_gf3_ref(int size, TI_REAL const *const *inputs, TI_REAL cons
     const int idx = period/2-1;
 
     const TI_REAL B0 = tables.B0[idx];
-    const TI_REAL A1 = tables.B0[idx];
-    const TI_REAL A2 = tables.B0[idx];
-    const TI_REAL A3 = tables.B0[idx];
+    const TI_REAL A1 = tables.A1[idx];
+    const TI_REAL A2 = tables.A2[idx];
+    const TI_REAL A3 = tables.A3[idx];
     const TI_REAL csum_recipr = 1. / (B0 + A1 + A2 + A3);
 
     int i = 0;
@@ -117,9 +117,9 @@ int ti_gf3_stream_new(TI_REAL const *options, ti_stream **stream) {
 
     const int idx = period/2-1;
     ptr->constants.B0 = tables.B0[idx];
-    ptr->constants.A1 = tables.B0[idx];
-    ptr->constants.A2 = tables.B0[idx];
-    ptr->constants.A3 = tables.B0[idx];
+    ptr->constants.A1 = tables.A1[idx];
+    ptr->constants.A2 = tables.A2[idx];
+    ptr->constants.A3 = tables.A3[idx];
     ptr->constants.csum_recipr = 1. / (ptr->constants.B0 + ptr->constants.A1 + ptr->constants.A2 + ptr->constants.A3);
 
     return TI_OKAY;
-- 
2.43.0


From e4576ae0df37d65be02b278fa7ff5d8c256f69df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:45 +0000
Subject: [PATCH 26/35] fix: emsd: the averaging period had no effect on the
 result

---
 indicators/emsd.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/indicators/emsd.cc b/indicators/emsd.cc
index 81d32c4..62fc4a1 100644
--- a/indicators/emsd.cc
+++ b/indicators/emsd.cc
@@ -53,7 +53,7 @@ int ti_emsd(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
 
         TI_REAL variance = sum2/period - (sum/period)*(sum/period);
         ema = (variance - ema) * 2 / (ma_period + 1) + ema;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(ema);
 
         sum -= series[i-period+1];
         sum2 -= series[i-period+1]*series[i-period+1];
@@ -97,7 +97,7 @@ DONTOPTIMIZE int ti_emsd_ref(int size, TI_REAL const *const *inputs, TI_REAL con
 
         TI_REAL variance = sum2/period - (sum/period)*(sum/period);
         ema = (variance - ema) * 2 / (ma_period + 1) + ema;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(ema);
 
         sum -= series[i-(int)period+1];
         sum2 -= series[i-(int)period+1]*series[i-(int)period+1];
@@ -202,7 +202,7 @@ int ti_emsd_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
 
         TI_REAL variance = sum2*period_reciprocal - (sum*period_reciprocal)*(sum*period_reciprocal);
         ema = (variance - ema) * 2 * ma_period_plus1_reciprocal + ema;
-        *emsd++ = sqrt(variance);
+        *emsd++ = sqrt(ema);
 
         sum -= price[period-1];
         sum2 -= price[period-1]*price[period-1];
-- 
2.43.0


From 5da5f91452de0f24d79eb3bc0544a69d6579e92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:45 +0000
Subject: [PATCH 27/35] fix: mama: the arc tangents were used in radians where
 the formulas take degrees

---
 indicators/mama.cc | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/indicators/mama.cc b/indicators/mama.cc
index ea297a5..ca418e2 100644
--- a/indicators/mama.cc
+++ b/indicators/mama.cc
@@ -11,6 +11,9 @@
 #include "../utils/ringbuf.hh"
 #include "../utils/minmax.h"
 
+/* the published formulas take the arc tangent in degrees */
+#define RAD2DEG(x) ((x) * 180. / 3.14159265358979323846)
+
 int ti_mama_start(TI_REAL const *options) {
     return 6;
 }
@@ -62,7 +65,7 @@ int ti_mama(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
         Re = .2*Re + .8*Re[1];
         Im = .2*Im + .8*Im[1];
 
-        if (Im != 0. && Re != 0.) { period = 360. / atan(Im / Re); }
+        if (Im != 0. && Re != 0.) { period = 360. / RAD2DEG(atan(Im / Re)); }
         if (period > 1.5 * period[1]) { period = 1.5 * period[1]; }
         if (period < 0.67 * period[1]) { period = 0.67 * period[1]; }
         if (period < 6.) { period = 6.; }
@@ -70,7 +73,7 @@ int ti_mama(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
         period = .2*period + .8*period[1];
         smoothperiod = .33*period + .67*smoothperiod[1];
 
-        if (I1 != 0.) { phase = atan(Q1 / I1); }
+        if (I1 != 0.) { phase = RAD2DEG(atan(Q1 / I1)); }
         else { phase = 0; }
 
         const TI_REAL deltaphase = std::max(1., phase[1] - phase);
@@ -165,7 +168,7 @@ int ti_mama_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         Im[i] = .2*Im[i] + .8*Im[i-1];
 
         if (Im[i] != 0. && Re[i] != 0.) {
-            period[i] = 360. / atan(Im[i] / Re[i]);
+            period[i] = 360. / RAD2DEG(atan(Im[i] / Re[i]));
         }
         if (period[i] > 1.5 * period[i-1]) {
             period[i] = 1.5 * period[i-1];
@@ -182,7 +185,7 @@ int ti_mama_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         period[i] = .2 * period[i] + .8 * period[i-1];
         smoothperiod[i] = .33 * period[i] + .67 * smoothperiod[i-1];
         if (I1[i] != 0.) {
-            phase[i] = atan(Q1[i] / I1[i]);
+            phase[i] = RAD2DEG(atan(Q1[i] / I1[i]));
         }
         deltaphase[i] = phase[i-1] - phase[i];
         if (deltaphase[i] < 1.) {
@@ -314,7 +317,7 @@ int ti_mama_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
         Re = .2*(I2*I2[1] + Q2*Q2[1]) + .8*Re[1];
         Im = .2*(I2*Q2[1] - Q2*I2[1]) + .8*Im[1];
 
-        if (Im != 0. && Re != 0.) { period = 360. / atan(Im / Re); }
+        if (Im != 0. && Re != 0.) { period = 360. / RAD2DEG(atan(Im / Re)); }
         if (period > 1.5 * period[1]) { period = 1.5 * period[1]; }
         if (period < 0.67 * period[1]) { period = 0.67 * period[1]; }
         if (period < 6.) { period = 6.; }
@@ -322,7 +325,7 @@ int ti_mama_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
         period = .2*period + .8*period[1];
         smoothperiod = .33*period + .67*smoothperiod[1];
 
-        if (I1 != 0.) { phase = atan(Q1 / I1); }
+        if (I1 != 0.) { phase = RAD2DEG(atan(Q1 / I1)); }
         else { phase = 0; }
 
         const TI_REAL deltaphase = std::max(1., phase[1] - phase);
-- 
2.43.0


From d3a135506240da0738f10dba6ab0041dc717b51d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:45:46 +0000
Subject: [PATCH 28/35] fix: trix: with period 1 the first output compared with
 zero instead of the first bar

---
 indicators/trix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/indicators/trix.cc b/indicators/trix.cc
index 88b334d..cdabad2 100644
--- a/indicators/trix.cc
+++ b/indicators/trix.cc
@@ -27,7 +27,7 @@ int ti_trix(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
     const TI_REAL per = 2 / ((TI_REAL)period + 1);
 
     TI_REAL ema1 = input[0];
-    TI_REAL ema2 = 0, ema3 = 0;
+    TI_REAL ema2 = ema1, ema3 = ema1;
 
     int i;
     for (i = 1; i < start; ++i) {
-- 
2.43.0


From 63bb2e47613798c92429da7b3909a0493ab862e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:11 +0000
Subject: [PATCH 29/35] fix: rmta: with period 1 the first bar was counted
 twice

---
 indicators/rmta.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/indicators/rmta.cc b/indicators/rmta.cc
index 6e99da6..226ec45 100644
--- a/indicators/rmta.cc
+++ b/indicators/rmta.cc
@@ -35,7 +35,8 @@ int ti_rmta(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
         b = next_b;
     }
 
-    for (int i = period-1; i < size; ++i) {
+    if (period == 1) { *output++ = rmta; }
+    for (int i = period > 1 ? period-1 : 1; i < size; ++i) {
         TI_REAL next_b = (1. - alpha) * b + input[i];
         rmta = (1. - alpha) * rmta + alpha * (input[i] + next_b - b);
         b = next_b;
-- 
2.43.0


From 89ba7c362b0b5925587d1b0e385825b8d9943499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:11 +0000
Subject: [PATCH 30/35] fix: ultosc: a medium or short period equal to the long
 one read elements already overwritten

---
 indicators/ultosc.cc | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/indicators/ultosc.cc b/indicators/ultosc.cc
index 56776d6..e57cb51 100644
--- a/indicators/ultosc.cc
+++ b/indicators/ultosc.cc
@@ -56,25 +56,26 @@ int ti_ultosc(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
         r_short_sum += r;
         r_medium_sum += r;
 
-        ti_buffer_push(bp_buf, bp);
-        ti_buffer_push(r_buf, r);
-
         /* The long sum takes care of itself, but we're piggy-backing
-         * the medium and short sums off the same buffers. */
+         * the medium and short sums off the same buffers. What leaves them is
+         * looked up before it can be overwritten. */
         if (i > short_period) {
-            int short_index = bp_buf->index - short_period - 1;
+            int short_index = bp_buf->index - short_period;
             if (short_index < 0) short_index += long_period;
             bp_short_sum -= bp_buf->vals[short_index];
             r_short_sum -= r_buf->vals[short_index];
 
             if (i > medium_period) {
-                int medium_index = bp_buf->index - medium_period - 1;
+                int medium_index = bp_buf->index - medium_period;
                 if (medium_index < 0) medium_index += long_period;
                 bp_medium_sum -= bp_buf->vals[medium_index];
                 r_medium_sum -= r_buf->vals[medium_index];
             }
         }
 
+        ti_buffer_push(bp_buf, bp);
+        ti_buffer_push(r_buf, r);
+
         if (i >= long_period) {
             const TI_REAL first = bp_short_sum ? 4 * bp_short_sum / r_short_sum : 0;
             const TI_REAL second = bp_medium_sum ? 2 * bp_medium_sum / r_medium_sum : 0;
-- 
2.43.0


From 3e3cd2096649d014231d863f1cf6814ab83e16d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:11 +0000
Subject: [PATCH 31/35] fix: bbands: rounding of a zero variance gave NaN bands

---
 indicators/bbands.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/indicators/bbands.cc b/indicators/bbands.cc
index d312c3e..69b31d6 100644
--- a/indicators/bbands.cc
+++ b/indicators/bbands.cc
@@ -6,6 +6,7 @@
 
 
 #include "../indicators.h"
+#include "../utils/minmax.h"
 
 
 int ti_bbands_start(TI_REAL const *options) {
@@ -36,7 +37,7 @@ int ti_bbands(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
         sum2 += input[i] * input[i];
     }
 
-    TI_REAL sd = sqrt(sum2 * scale - (sum * scale) * (sum * scale));
+    TI_REAL sd = sqrt(MAX(0.0, sum2 * scale - (sum * scale) * (sum * scale)));
     *middle = sum * scale;
     *lower++ = *middle - stddev * sd;
     *upper++ = *middle + stddev * sd;
@@ -49,7 +50,7 @@ int ti_bbands(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI
         sum -= input[i-period];
         sum2 -= input[i-period] * input[i-period];
 
-        sd = sqrt(sum2 * scale - (sum * scale) * (sum * scale));
+        sd = sqrt(MAX(0.0, sum2 * scale - (sum * scale) * (sum * scale)));
         *middle = sum * scale;
         *upper++ = *middle + stddev * sd;
         *lower++ = *middle - stddev * sd;
-- 
2.43.0


From b18ad5a75e182bb790b25391e1d187d53f1d365b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:11 +0000
Subject: [PATCH 32/35] fix: volatility: rounding of a zero variance gave NaN

---
 indicators/volatility.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/indicators/volatility.cc b/indicators/volatility.cc
index 8a4871b..4a7aa6a 100644
--- a/indicators/volatility.cc
+++ b/indicators/volatility.cc
@@ -8,6 +8,7 @@
 #include <new>
 
 #include "../indicators.h"
+#include "../utils/minmax.h"
 
 #define CHANGE(i) (input[i-1] ? input[i]/input[i-1]-1.0 : 0)
 
@@ -38,7 +39,7 @@ int ti_volatility(int size, TI_REAL const *const *inputs, TI_REAL const *options
         sum2 += c * c;
     }
 
-    *output++ = sqrt(sum2 * scale - (sum * scale) * (sum * scale)) * annual;
+    *output++ = sqrt(MAX(0.0, sum2 * scale - (sum * scale) * (sum * scale))) * annual;
 
     for (i = period+1; i < size; ++i) {
         const TI_REAL c = CHANGE(i);
@@ -49,7 +50,7 @@ int ti_volatility(int size, TI_REAL const *const *inputs, TI_REAL const *options
         sum -= cp;
         sum2 -= cp * cp;
 
-        *output++ = sqrt(sum2 * scale - (sum * scale) * (sum * scale)) * annual;
+        *output++ = sqrt(MAX(0.0, sum2 * scale - (sum * scale) * (sum * scale))) * annual;
     }
 
     assert(output - outputs[0] == size - ti_volatility_start(options));
-- 
2.43.0


From e192d6886bcdf414b00a77ca84668fd0d247b3bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:11 +0000
Subject: [PATCH 33/35] fix: emsd: rounding of a zero variance gave NaN

---
 indicators/emsd.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/indicators/emsd.cc b/indicators/emsd.cc
index 62fc4a1..05f143f 100644
--- a/indicators/emsd.cc
+++ b/indicators/emsd.cc
@@ -40,7 +40,7 @@ int ti_emsd(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
         sum += series[i];
         sum2 += series[i]*series[i];
 
-        TI_REAL variance = sum2/period - pow(sum/period, 2);
+        TI_REAL variance = MAX(0.0, sum2/period - pow(sum/period, 2));
         ema = variance;
         *emsd++ = sqrt(variance);
 
@@ -51,7 +51,7 @@ int ti_emsd(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
         sum += series[i];
         sum2 += series[i]*series[i];
 
-        TI_REAL variance = sum2/period - (sum/period)*(sum/period);
+        TI_REAL variance = MAX(0.0, sum2/period - (sum/period)*(sum/period));
         ema = (variance - ema) * 2 / (ma_period + 1) + ema;
         *emsd++ = sqrt(ema);
 
@@ -84,7 +84,7 @@ DONTOPTIMIZE int ti_emsd_ref(int size, TI_REAL const *const *inputs, TI_REAL con
         sum += series[i];
         sum2 += series[i]*series[i];
 
-        TI_REAL variance = sum2/period - pow(sum/period, 2);
+        TI_REAL variance = MAX(0.0, sum2/period - pow(sum/period, 2));
         ema = variance;
         *emsd++ = sqrt(variance);
 
@@ -95,7 +95,7 @@ DONTOPTIMIZE int ti_emsd_ref(int size, TI_REAL const *const *inputs, TI_REAL con
         sum += series[i];
         sum2 += series[i]*series[i];
 
-        TI_REAL variance = sum2/period - (sum/period)*(sum/period);
+        TI_REAL variance = MAX(0.0, sum2/period - (sum/period)*(sum/period));
         ema = (variance - ema) * 2 / (ma_period + 1) + ema;
         *emsd++ = sqrt(ema);
 
@@ -187,7 +187,7 @@ int ti_emsd_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
         sum += series[i];
         sum2 += series[i]*series[i];
 
-        TI_REAL variance = sum2*period_reciprocal - pow(sum*period_reciprocal, 2);
+        TI_REAL variance = MAX(0.0, sum2*period_reciprocal - pow(sum*period_reciprocal, 2));
         ema = variance;
         *emsd++ = sqrt(variance);
 
@@ -200,7 +200,7 @@ int ti_emsd_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
         sum += series[i];
         sum2 += series[i]*series[i];
 
-        TI_REAL variance = sum2*period_reciprocal - (sum*period_reciprocal)*(sum*period_reciprocal);
+        TI_REAL variance = MAX(0.0, sum2*period_reciprocal - (sum*period_reciprocal)*(sum*period_reciprocal));
         ema = (variance - ema) * 2 * ma_period_plus1_reciprocal + ema;
         *emsd++ = sqrt(ema);
 
-- 
2.43.0


From 363d95795533d56cc1abb3ef068ea43d7b1212a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:53 +0000
Subject: [PATCH 34/35] fix: reference variants: zero denominators gave NaN
 where the functions give 0

---
 indicators/hurst.cc     | 2 +-
 indicators/mesastoch.cc | 2 +-
 indicators/posc.cc      | 2 +-
 indicators/rmi.cc       | 2 +-
 indicators/smi.cc       | 2 +-
 indicators/tsi.cc       | 2 +-
 indicators/vi.cc        | 8 ++++----
 7 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/indicators/hurst.cc b/indicators/hurst.cc
index 337c611..235cbd9 100644
--- a/indicators/hurst.cc
+++ b/indicators/hurst.cc
@@ -106,7 +106,7 @@ int ti_hurst_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
         TI_REAL R = max_cum_meandev - min_cum_meandev;
         TI_REAL S = stddev;
 
-        TI_REAL H = log(R/S) / log(period);
+        TI_REAL H = R ? log(R/S) / log(period) : 0;
         *hurst++ = H;
         *fractal_dim++ = 2 - H;
     }
diff --git a/indicators/mesastoch.cc b/indicators/mesastoch.cc
index 9b81fca..d821f9c 100644
--- a/indicators/mesastoch.cc
+++ b/indicators/mesastoch.cc
@@ -160,7 +160,7 @@ int ti_mesastoch_ref(int size, TI_REAL const *const *inputs, TI_REAL const *opti
         highestC = *std::max_element(filt.begin(), filt.begin() + period);
         lowestC = *std::min_element(filt.begin(), filt.begin() + period);
 
-        stoc[0] = (filt[0] - lowestC) / (highestC - lowestC);
+        stoc[0] = (filt[0] - lowestC) ? (filt[0] - lowestC) / (highestC - lowestC) : 0;
         result[0] = c1 * (stoc[0] + stoc[1]) / 2. + c2 * result[1] + c3 * result[2];
 
         *mesastoch++ = result[0];
diff --git a/indicators/posc.cc b/indicators/posc.cc
index de9322f..c148ca4 100644
--- a/indicators/posc.cc
+++ b/indicators/posc.cc
@@ -122,7 +122,7 @@ int ti_posc_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options,
             }
         }
 
-        posc[i-start] = (close[i] - the_min) / (the_max - the_min) * 100.;
+        posc[i-start] = (close[i] - the_min) ? (close[i] - the_min) / (the_max - the_min) * 100. : 0;
     }
     ti_ema(size-start, &posc, &ema_period, &posc);
 
diff --git a/indicators/rmi.cc b/indicators/rmi.cc
index 8697222..f17f25b 100644
--- a/indicators/rmi.cc
+++ b/indicators/rmi.cc
@@ -80,7 +80,7 @@ int ti_rmi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     TI_REAL *inputs_[] = {gains, losses};
     ti_add(size-start, inputs_, 0, &losses);
     for (int i = 0; i < size-start; ++i) {
-        *rmi++ = gains[i] / losses[i] * 100.;
+        *rmi++ = gains[i] ? gains[i] / losses[i] * 100. : 0;
     }
 
     free(gains);
diff --git a/indicators/smi.cc b/indicators/smi.cc
index 01c486e..24bfe0f 100644
--- a/indicators/smi.cc
+++ b/indicators/smi.cc
@@ -167,7 +167,7 @@ int ti_smi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     ti_ema(outsize, &den, &s_period, &den);
 
     for (int i = 0; i < outsize; ++i) {
-        smi[i] = 100. * num[i] / (0.5 * den[i]);
+        smi[i] = den[i] ? 100. * num[i] / (0.5 * den[i]) : 0;
     }
 
     free(max);
diff --git a/indicators/tsi.cc b/indicators/tsi.cc
index 44c8fcb..c0ccf5f 100644
--- a/indicators/tsi.cc
+++ b/indicators/tsi.cc
@@ -88,7 +88,7 @@ int ti_tsi_ref(int size, TI_REAL const *const *inputs, TI_REAL const *options, T
     ti_ema(outsize, &absmomentum, &z_period, &absmomentum);
 
     for (int i = 0; i < outsize; ++i) {
-        *tsi++ = 100. * momentum[i] / absmomentum[i];
+        *tsi++ = 100. * (absmomentum[i] ? momentum[i] / absmomentum[i] : 0);
     }
 
     free(momentum);
diff --git a/indicators/vi.cc b/indicators/vi.cc
index a4f574c..4f9cc12 100644
--- a/indicators/vi.cc
+++ b/indicators/vi.cc
@@ -88,16 +88,16 @@ DONTOPTIMIZE int ti_vi_ref(int size, TI_REAL const *const *inputs, TI_REAL const
         vm_m_period[period] += vm_m[k];
         TR_period[period] += TR[k];
  
-        vi_p[0] = vm_p_period[period] / TR_period[period];
-        vi_m[0] = vm_m_period[period] / TR_period[period];
+        vi_p[0] = vm_p_period[period] ? vm_p_period[period] / TR_period[period] : 0;
+        vi_m[0] = vm_m_period[period] ? vm_m_period[period] / TR_period[period] : 0;
     }
     for (int i = period + 1; i < size; i++) {
         vm_p_period[i] = vm_p_period[i - 1] - vm_p[i - period] + vm_p[i];
         vm_m_period[i] = vm_m_period[i - 1] - vm_m[i - period] + vm_m[i];
         TR_period[i] = TR_period[i - 1] - TR[i - period] + TR[i];
 
-        vi_p[i - period] = vm_p_period[i] / TR_period[i];
-        vi_m[i - period] = vm_m_period[i] / TR_period[i];
+        vi_p[i - period] = vm_p_period[i] ? vm_p_period[i] / TR_period[i] : 0;
+        vi_m[i - period] = vm_m_period[i] ? vm_m_period[i] / TR_period[i] : 0;
     }
     
     return TI_OKAY;
-- 
2.43.0


From 5326e60986f1ce1ab59258e192c1a82db8fee9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:43:57 +0000
Subject: [PATCH 35/35] fix: edcf: a flat window gave 0 instead of the price

---
 indicators/edcf.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/indicators/edcf.cc b/indicators/edcf.cc
index ad8e82b..8e5ec54 100644
--- a/indicators/edcf.cc
+++ b/indicators/edcf.cc
@@ -54,7 +54,7 @@ int ti_edcf(int size, TI_REAL const *const *inputs, TI_REAL const *options, TI_R
             num += coef[count] * price[count];
             sumcoef += coef[count];
         }
-        *edcf++ = (sumcoef != 0. ? num / sumcoef : 0.);
+        *edcf++ = (sumcoef != 0. ? num / sumcoef : price[0]);
 
         price.pop_back();
     }
@@ -144,7 +144,7 @@ int ti_edcf_stream_run(ti_stream *stream, int size, TI_REAL const *const *inputs
             num += coef[count] * price[count];
             sumcoef += coef[count];
         }
-        *edcf++ = (sumcoef != 0. ? num / sumcoef : 0.);
+        *edcf++ = (sumcoef != 0. ? num / sumcoef : price[0]);
 
         price.pop_back();
     }
-- 
2.43.0

