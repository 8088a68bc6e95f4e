From cd7de288f03404889ac651f8c4c789ae8e72033a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 01/52] fix: report the out-of-bounds status also when running
 with a single thread

With one worker thread the worker is called directly and its status was never
copied to the return value, so 'stop' was reported as a CTRL-C, and 'warn' and
'ignore' returned status none.
---
 extra_src/das.cc        | 1 +
 src/dream_arr_annu.cc   | 1 +
 src/dream_arr_circ.cc   | 1 +
 src/dream_arr_cylind.cc | 1 +
 src/dream_arr_rect.cc   | 1 +
 src/dreamcirc.cc        | 1 +
 src/dreamcirc_f.cc      | 1 +
 src/dreamcylind.cc      | 1 +
 src/dreamline.cc        | 1 +
 src/dreamrect.cc        | 1 +
 src/dreamrect_f.cc      | 1 +
 src/dreamsphere.cc      | 1 +
 12 files changed, 12 insertions(+)

diff --git a/extra_src/das.cc b/extra_src/das.cc
index a02dbba..ad0cc05 100644
--- a/extra_src/das.cc
+++ b/extra_src/das.cc
@@ -273,6 +273,7 @@ SIRError DAS<T>::das(const T *Y, const T *Ro, const T *Gt, const T *Gr,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_das(&D[0]);
+      err = D[0].err;
     }
   }
 
diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index 86e13cb..f2fcc3a 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -604,6 +604,7 @@ SIRError ArrAnnu::dream_arr_annu(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_arr_annu(&D[0]);
+      err = D[0].err;
     }
 
   }
diff --git a/src/dream_arr_circ.cc b/src/dream_arr_circ.cc
index f6b8d9a..683193e 100644
--- a/src/dream_arr_circ.cc
+++ b/src/dream_arr_circ.cc
@@ -404,6 +404,7 @@ SIRError ArrCirc::dream_arr_circ(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_arr_circ(&D[0]);
+      err = D[0].err;
     }
   }
 
diff --git a/src/dream_arr_cylind.cc b/src/dream_arr_cylind.cc
index 61d6e13..8b37da5 100644
--- a/src/dream_arr_cylind.cc
+++ b/src/dream_arr_cylind.cc
@@ -412,6 +412,7 @@ SIRError ArrCylind::dream_arr_cylind(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_arr_cylind(&D[0]);
+      err = D[0].err;
     }
   }
 
diff --git a/src/dream_arr_rect.cc b/src/dream_arr_rect.cc
index b6ee4ea..37e315a 100644
--- a/src/dream_arr_rect.cc
+++ b/src/dream_arr_rect.cc
@@ -408,6 +408,7 @@ SIRError ArrRect::dream_arr_rect(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_arr_rect(&D[0]);
+      err = D[0].err;
     }
   }
 
diff --git a/src/dreamcirc.cc b/src/dreamcirc.cc
index e376b23..35609a0 100644
--- a/src/dreamcirc.cc
+++ b/src/dreamcirc.cc
@@ -250,6 +250,7 @@ SIRError Circ::dreamcirc(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_circ(&D[0]);
+      err = D[0].err;
     }
   }
 
diff --git a/src/dreamcirc_f.cc b/src/dreamcirc_f.cc
index e4eb3a4..82d1130 100644
--- a/src/dreamcirc_f.cc
+++ b/src/dreamcirc_f.cc
@@ -251,6 +251,7 @@ SIRError Circ_f::dreamcirc_f(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_circ_f(&D[0]);
+      err = D[0].err;
     }
   }
 
diff --git a/src/dreamcylind.cc b/src/dreamcylind.cc
index 8939e15..949fbec 100644
--- a/src/dreamcylind.cc
+++ b/src/dreamcylind.cc
@@ -248,6 +248,7 @@ SIRError Cylind::dreamcylind(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_cylind(&D[0]);
+      err = D[0].err;
     }
   }
 
diff --git a/src/dreamline.cc b/src/dreamline.cc
index 3033813..b718316 100644
--- a/src/dreamline.cc
+++ b/src/dreamline.cc
@@ -235,6 +235,7 @@ SIRError Line::dreamline(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_line(&D[0]);
+      err = D[0].err;
     }
   }
 
diff --git a/src/dreamrect.cc b/src/dreamrect.cc
index bd00da2..e292ed3 100644
--- a/src/dreamrect.cc
+++ b/src/dreamrect.cc
@@ -247,6 +247,7 @@ SIRError Rect::dreamrect(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_rect(&D[0]);
+      err = D[0].err;
     }
   }
 
diff --git a/src/dreamrect_f.cc b/src/dreamrect_f.cc
index a7a5dbb..23bcd48 100644
--- a/src/dreamrect_f.cc
+++ b/src/dreamrect_f.cc
@@ -251,6 +251,7 @@ SIRError Rect_f::dreamrect_f(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_rect_f(&D[0]);
+      err = D[0].err;
     }
   }
 
diff --git a/src/dreamsphere.cc b/src/dreamsphere.cc
index dc44852..bbb9d00 100644
--- a/src/dreamsphere.cc
+++ b/src/dreamsphere.cc
@@ -246,6 +246,7 @@ SIRError Sphere::dreamsphere(double alpha,
       set_dream_thread_affinity(thread_n, nthreads, threads);
     } else {
       smp_dream_sphere(&D[0]);
+      err = D[0].err;
     }
   }
 
-- 
2.43.0


From 13c80a366951a67049e04b98e9607434880b057d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:20 +0000
Subject: [PATCH 02/52] fix: dreamsphere: return the 'warn' and 'ignore'
 out-of-bounds status from the threads

---
 src/dreamsphere.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/dreamsphere.cc b/src/dreamsphere.cc
index bbb9d00..204d4b0 100644
--- a/src/dreamsphere.cc
+++ b/src/dreamsphere.cc
@@ -255,9 +255,9 @@ SIRError Sphere::dreamsphere(double alpha,
     for (dream_idx_type thread_n = 0; thread_n < nthreads; thread_n++) {
       threads[thread_n].join();
 
-      // Check if the current thread or a previous had an out-of-bounds error.
-      if ( (err == SIRError::out_of_bounds) || (D[thread_n].err == SIRError::out_of_bounds) ) {
-        err = SIRError::out_of_bounds;
+      // Check if one of the threads had an out-of-bounds event.
+      if (D[thread_n].err != SIRError::none) {
+        err = D[thread_n].err;
       }
 
     }
-- 
2.43.0


From 3e73d8855dac652175a29f7de4e84484d54fdbc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:05 +0000
Subject: [PATCH 03/52] fix: arrays: keep the out-of-bounds status of every
 element

The status was overwritten by each following element (or disc), so an
out-of-bounds event was only reported when it happened in the last one.
---
 src/dream_arr_annu.cc   | 14 ++++++++++++--
 src/dream_arr_circ.cc   | 14 ++++++++++++--
 src/dream_arr_cylind.cc | 14 ++++++++++++--
 src/dream_arr_rect.cc   | 14 ++++++++++++--
 4 files changed, 48 insertions(+), 8 deletions(-)

diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index f2fcc3a..70b047b 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -194,6 +194,7 @@ SIRError ArrAnnu::dream_arr_annu_serial(double xo, double yo, double zo,
                                         double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError arr_err = SIRError::none;
   verbose_err_messages = false;
 
   // NB. The first ring have no inner radius (it is a normal
@@ -238,6 +239,10 @@ SIRError ArrAnnu::dream_arr_annu_serial(double xo, double yo, double zo,
         return err; // Bail out.
       }
 
+      if (err != SIRError::none) {
+        arr_err = err; // Remember out-of-bounds events for any of the discs.
+      }
+
     }
   }
 
@@ -265,7 +270,7 @@ SIRError ArrAnnu::dream_arr_annu_serial(double xo, double yo, double zo,
     superpos_annular(h_ring.get(), h, nt, weight, foc_delay, n, dt); // Add the n:th impulse response.
   }
 
-  return err;
+  return arr_err;
 }
 
 SIRError ArrAnnu::dream_arr_annu_serial(Attenuation &att, FFTCVec &xc_vec, FFTVec &x_vec,
@@ -280,6 +285,7 @@ SIRError ArrAnnu::dream_arr_annu_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
                                         double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError arr_err = SIRError::none;
 
   // NB. The first ring have no inner radius (it is a normal
   // circular disc).
@@ -322,6 +328,10 @@ SIRError ArrAnnu::dream_arr_annu_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
         return err; // Bail out.
       }
 
+      if (err != SIRError::none) {
+        arr_err = err; // Remember out-of-bounds events for any of the discs.
+      }
+
     }
   }
 
@@ -349,7 +359,7 @@ SIRError ArrAnnu::dream_arr_annu_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
     superpos_annular(h_ring.get(), h, nt, weight, foc_delay, n, dt); // Add the n:th impulse response.
   }
 
-  return err;
+  return arr_err;
 }
 
 /***
diff --git a/src/dream_arr_circ.cc b/src/dream_arr_circ.cc
index 683193e..5793ef1 100644
--- a/src/dream_arr_circ.cc
+++ b/src/dream_arr_circ.cc
@@ -200,6 +200,7 @@ SIRError ArrCirc::dream_arr_circ_serial(double xo, double yo, double zo,
                                         ApodMet apod_met, double apod_par, double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError arr_err = SIRError::none;
   verbose_err_messages = false;
 
   double r_max, x_max, y_max;
@@ -236,9 +237,13 @@ SIRError ArrCirc::dream_arr_circ_serial(double xo, double yo, double zo,
       return err; // Bail out.
     }
 
+    if (err != SIRError::none) {
+      arr_err = err; // Remember out-of-bounds events for any of the elements.
+    }
+
   }
 
-  return err;
+  return arr_err;
 }
 
 SIRError ArrCirc::dream_arr_circ_serial(Attenuation &att, FFTCVec &xc_vec, FFTVec &x_vec,
@@ -253,6 +258,7 @@ SIRError ArrCirc::dream_arr_circ_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
                                         ApodMet apod_met, double apod_par, double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError arr_err = SIRError::none;
 
   // FIXME: Do we need this one?
   for (dream_idx_type i=0; i<nt; i++) {
@@ -293,9 +299,13 @@ SIRError ArrCirc::dream_arr_circ_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
       return err; // Bail out.
     }
 
+    if (err != SIRError::none) {
+      arr_err = err; // Remember out-of-bounds events for any of the elements.
+    }
+
   }
 
-  return err;
+  return arr_err;
 }
 
 /***
diff --git a/src/dream_arr_cylind.cc b/src/dream_arr_cylind.cc
index 8b37da5..9134e24 100644
--- a/src/dream_arr_cylind.cc
+++ b/src/dream_arr_cylind.cc
@@ -209,6 +209,7 @@ SIRError ArrCylind::dream_arr_cylind_serial(Cylind &cylind,
                                             double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError arr_err = SIRError::none;
   verbose_err_messages = false;
 
   double r_max, x_max, y_max;
@@ -244,9 +245,13 @@ SIRError ArrCylind::dream_arr_cylind_serial(Cylind &cylind,
       return err; // Bail out.
     }
 
+    if (err != SIRError::none) {
+      arr_err = err; // Remember out-of-bounds events for any of the elements.
+    }
+
   }
 
-  return err;
+  return arr_err;
 }
 
 SIRError ArrCylind::dream_arr_cylind_serial(Cylind &cylind,
@@ -263,6 +268,7 @@ SIRError ArrCylind::dream_arr_cylind_serial(Cylind &cylind,
                                             double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError arr_err = SIRError::none;
 
   double r_max, x_max, y_max;
   max_dim_arr(&x_max, &y_max, &r_max, gx, gy, gz, num_elements);
@@ -299,9 +305,13 @@ SIRError ArrCylind::dream_arr_cylind_serial(Cylind &cylind,
       return err; // Bail out.
     }
 
+    if (err != SIRError::none) {
+      arr_err = err; // Remember out-of-bounds events for any of the elements.
+    }
+
   }
 
-  return err;
+  return arr_err;
 }
 
 /***
diff --git a/src/dream_arr_rect.cc b/src/dream_arr_rect.cc
index 37e315a..979be88 100644
--- a/src/dream_arr_rect.cc
+++ b/src/dream_arr_rect.cc
@@ -201,6 +201,7 @@ SIRError ArrRect::dream_arr_rect_serial(double xo, double yo, double zo,
                                         double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError arr_err = SIRError::none;
   verbose_err_messages = false;
 
   double r_max, x_max, y_max;
@@ -238,9 +239,13 @@ SIRError ArrRect::dream_arr_rect_serial(double xo, double yo, double zo,
       return err; // Bail out.
     }
 
+    if (err != SIRError::none) {
+      arr_err = err; // Remember out-of-bounds events for any of the elements.
+    }
+
   }
 
-  return err;
+  return arr_err;
 }
 
 SIRError ArrRect::dream_arr_rect_serial(Attenuation &att, FFTCVec &xc_vec, FFTVec &x_vec,
@@ -255,6 +260,7 @@ SIRError ArrRect::dream_arr_rect_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
                                         double *h, ErrorLevel err_level)
 {
   SIRError err = SIRError::none;
+  SIRError arr_err = SIRError::none;
 
   // FIXME: Do we need this one?
   for (dream_idx_type i=0; i<nt; i++) {
@@ -296,9 +302,13 @@ SIRError ArrRect::dream_arr_rect_serial(Attenuation &att, FFTCVec &xc_vec, FFTVe
       return err; // Bail out.
     }
 
+    if (err != SIRError::none) {
+      arr_err = err; // Remember out-of-bounds events for any of the elements.
+    }
+
   }
 
-  return err;
+  return arr_err;
 }
 
 /***
-- 
2.43.0


From eb25bd949049c06fc823ccf69694f361fc39ca4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:13 +0000
Subject: [PATCH 04/52] fix: python arrays: use the win_par argument

---
 python/src/py_dream_arr_annu.cc   | 2 +-
 python/src/py_dream_arr_circ.cc   | 2 +-
 python/src/py_dream_arr_cylind.cc | 2 +-
 python/src/py_dream_arr_rect.cc   | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/src/py_dream_arr_annu.cc b/python/src/py_dream_arr_annu.cc
index cfaefdc..1886671 100644
--- a/python/src/py_dream_arr_annu.cc
+++ b/python/src/py_dream_arr_annu.cc
@@ -140,7 +140,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_annu", apod_str, py_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_annu!");
diff --git a/python/src/py_dream_arr_circ.cc b/python/src/py_dream_arr_circ.cc
index e3b2efc..60b3b29 100644
--- a/python/src/py_dream_arr_circ.cc
+++ b/python/src/py_dream_arr_circ.cc
@@ -164,7 +164,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_circ(py::array_t<double,py::
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_circ", apod_str, py_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_circ!");
diff --git a/python/src/py_dream_arr_cylind.cc b/python/src/py_dream_arr_cylind.cc
index 1a72585..e407793 100644
--- a/python/src/py_dream_arr_cylind.cc
+++ b/python/src/py_dream_arr_cylind.cc
@@ -164,7 +164,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_cylind(py::array_t<double,py
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_cylind", apod_str, py_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_cylind!");
diff --git a/python/src/py_dream_arr_rect.cc b/python/src/py_dream_arr_rect.cc
index 4d4aac3..ae3fd74 100644
--- a/python/src/py_dream_arr_rect.cc
+++ b/python/src/py_dream_arr_rect.cc
@@ -164,7 +164,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_rect(py::array_t<double,py::
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
 
-  double apod_par=0.0;
+  double apod_par=win_par;
   if (!ap.parse_apod_args("dream_arr_rect", apod_str, py_apod, num_elements,
                           do_apod, apod.get(), apod_met, apod_par)) {
     throw std::runtime_error("Error in dream_arr_rect!");
-- 
2.43.0


From 354ed44e785cc57d76e28229e2f01de11c856981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:47 +0000
Subject: [PATCH 05/52] fix: annular array: do not shift by an extra sample and
 do not write outside the buffer for negative or large delays

---
 src/dream_arr_annu.cc | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index 70b047b..e36733b 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -470,24 +470,20 @@ double ArrAnnu::apodization_annular(ApodMet apod_met, dream_idx_type n, double *
 void ArrAnnu::superpos_annular(double *h_ring, double *h, dream_idx_type nt,
                       double weight, double foc_delay, dream_idx_type n, double dt)
 {
-  double *buf = (double*) malloc(2*nt*sizeof(double));
-  for (dream_idx_type i=0; i<2*nt; i++) {
-    buf[i] = 0.0;
+  double delay_samples = std::rint(foc_delay/dt);
+  if (!(std::fabs(delay_samples) < (double) nt)) {
+    return; // The ring is moved out of the window.
   }
 
-  dream_idx_type delay_idx = (dream_idx_type) std::rint(foc_delay/dt) + 1;
-  for (dream_idx_type i=0; i<nt; i++) { // FIXME: can delay_idx be > nt?
-    if (delay_idx < nt) {
-      buf[i + delay_idx] = h_ring[i + n*nt];
+  long len = (long) nt;
+  long delay_idx = (long) delay_samples;
+  for (long i=0; i<len; i++) {
+    long k = i + delay_idx;
+    if ( (k >= 0) && (k < len) ) { // Samples moved out of the window are dropped.
+      h[k] += weight * h_ring[i + n*nt];
     }
   }
 
-  for (dream_idx_type i=0; i<nt; i++) {
-    h[i] += weight * buf[i];
-  }
-
-  free(buf);
-
   return;
 }
 
-- 
2.43.0


From 599f912c736cc4a083b8ee014662eb8fc64b607e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:47 +0000
Subject: [PATCH 06/52] fix: annular array: implement the documented hann and
 hamming apodization

---
 src/dream_arr_annu.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index e36733b..9e11249 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -443,6 +443,17 @@ double ArrAnnu::apodization_annular(ApodMet apod_met, dream_idx_type n, double *
     weight = apod_par + std::cos(ring_r * M_PI / ring_r_max);
     break;
 
+  case ApodMet::hann:
+    weight = 0.5 * (1.0 - std::cos((ring_r+ring_r_max)*M_PI/ring_r_max));
+    break;
+
+  case ApodMet::hamming:
+    {
+      double a0 = 25.0/46.0;
+      weight = a0 - (1.0 - a0) * std::cos((ring_r+ring_r_max)*M_PI/ring_r_max);
+    }
+    break;
+
   case ApodMet::simply_supported:
     weight = 1.0 - ring_r*ring_r / (ring_r_max*ring_r_max);
     break;
-- 
2.43.0


From 6bcb94b7d8bd03900ca415ff9a1376984d3f31fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:00 +0000
Subject: [PATCH 07/52] fix: annular array: python used the number of radii as
 number of rings and ignored row vectors; reject even-length grids

---
 include/arg_parser.h            | 2 +-
 include/arg_parser_python.h     | 4 ++--
 python/src/py_dream_arr_annu.cc | 6 ++++--
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/arg_parser.h b/include/arg_parser.h
index d750ba6..31d8b5f 100644
--- a/include/arg_parser.h
+++ b/include/arg_parser.h
@@ -109,7 +109,7 @@ public:
   bool check_array_annu(const char *func_name, args_t args, dream_idx_type arg_num) {
     bool retval=true;
     std::ostringstream s;
-    if ( (get_m(args, arg_num) != 1) && (get_n(args, arg_num) != 1) && (get_n(args, arg_num)*get_n(args, arg_num) % 2 == 0) ) {
+    if ( ((get_m(args, arg_num) != 1) && (get_n(args, arg_num) != 1)) || (get_m(args, arg_num)*get_n(args, arg_num) % 2 == 0) ) {
       s << func_name <<  " requires that arg " << arg_num+1 << "  must be a (number of radii) vector with an odd number of elements!";
       dream_err_msg(s.str().c_str());
       retval=false;
diff --git a/include/arg_parser_python.h b/include/arg_parser_python.h
index 57bac5d..70c1853 100644
--- a/include/arg_parser_python.h
+++ b/include/arg_parser_python.h
@@ -116,8 +116,8 @@ public:
     bool retval=true;
     std::ostringstream s;
 
-    if ( (get_m(py_G) != 1) && (get_n(py_G) != 1) &&
-         (get_n(py_G)*get_n(py_G) % 2 == 0) ) {
+    if ( ((get_m(py_G) != 1) && (get_n(py_G) != 1)) ||
+         (get_m(py_G)*get_n(py_G) % 2 == 0) ) {
       s << func_name <<  " requires that array grid arg must be a (number of radii) vector with an odd number of elements!";
       dream_err_msg(s.str().c_str());
       retval=false;
diff --git a/python/src/py_dream_arr_annu.cc b/python/src/py_dream_arr_annu.cc
index 1886671..d1ad69c 100644
--- a/python/src/py_dream_arr_annu.cc
+++ b/python/src/py_dream_arr_annu.cc
@@ -76,9 +76,11 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
 
   py::buffer_info G_info = py_G->request();
   auto G_m = G_info.shape[0];
+  auto G_n = G_info.shape[1];
   double *G = static_cast<double*>(G_info.ptr);
 
-  dream_idx_type num_elements = (dream_idx_type) G_m;
+  dream_idx_type num_radii = (dream_idx_type) G_m*G_n;
+  dream_idx_type num_elements = (num_radii+1)/2; // The number of rings.
 
   //
   // Temporal and spatial sampling parameters.
@@ -178,7 +180,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
                                         dx, dy,  dt, nt,
                                         delay_type, delay,
                                         v, cp,
-                                        num_elements, G,
+                                        num_radii, G,
                                         foc_met, focal.get(),
                                         apod.get(), do_apod, apod_met, apod_par,
                                         h, err_level);
-- 
2.43.0


From fce2b175566bd116c2acd365a5c1c4fed24184e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 08/52] fix: restore the previous signal handlers when leaving
 a function, and let SIGINT (not SIGABRT) stop das and rect_sir

The running flag is now atomic and an interrupted conv/circ_sir call ends in an error.
---
 extra_src/oct_add_p.cc            | 40 +++-------------
 extra_src/oct_circ_sir.cc         | 45 ++++--------------
 extra_src/oct_conv_p.cc           | 43 ++++-------------
 extra_src/oct_copy_p.cc           | 40 +++-------------
 extra_src/oct_das.cc              | 18 +++----
 extra_src/oct_fftconv_ola.cc      | 43 ++++-------------
 extra_src/oct_fftconv_p.cc        | 43 ++++-------------
 extra_src/oct_rect_sir.cc         |  7 +--
 extra_src/oct_scirc_sir.cc        | 45 +++++-------------
 extra_src/oct_sum_fftconv.cc      | 43 ++++-------------
 include/signal_guard.h            | 79 +++++++++++++++++++++++++++++++
 oct/oct_dream_arr_annu.cc         |  5 +-
 oct/oct_dream_arr_circ.cc         |  4 +-
 oct/oct_dream_arr_cylind.cc       |  4 +-
 oct/oct_dream_arr_rect.cc         |  4 +-
 oct/oct_dreamcirc.cc              |  4 +-
 oct/oct_dreamcirc_f.cc            |  4 +-
 oct/oct_dreamcylind.cc            |  4 +-
 oct/oct_dreamline.cc              |  4 +-
 oct/oct_dreamrect.cc              |  4 +-
 oct/oct_dreamrect_f.cc            |  4 +-
 oct/oct_dreamsphere.cc            |  4 +-
 python/include/py_das.hpp         |  3 +-
 python/src/py_dream_arr_annu.cc   |  4 +-
 python/src/py_dream_arr_circ.cc   |  4 +-
 python/src/py_dream_arr_cylind.cc |  4 +-
 python/src/py_dream_arr_rect.cc   |  4 +-
 python/src/py_dreamcirc.cc        |  4 +-
 python/src/py_dreamcirc_f.cc      |  4 +-
 python/src/py_dreamcylind.cc      |  4 +-
 python/src/py_dreamline.cc        |  4 +-
 python/src/py_dreamrect.cc        |  4 +-
 python/src/py_dreamrect_f.cc      |  4 +-
 python/src/py_dreamsphere.cc      |  4 +-
 34 files changed, 211 insertions(+), 327 deletions(-)
 create mode 100644 include/signal_guard.h

diff --git a/extra_src/oct_add_p.cc b/extra_src/oct_add_p.cc
index c240ce9..9797265 100644
--- a/extra_src/oct_add_p.cc
+++ b/extra_src/oct_add_p.cc
@@ -22,7 +22,8 @@
 ***/
 
 #include <iostream>
-#include <csignal>
+#include "signal_guard.h"
+#include <atomic>
 #include <thread>
 
 //
@@ -44,7 +45,7 @@
 // Globals
 //
 
-volatile int running;
+std::atomic<bool> running;
 
 //
 // typedef:s
@@ -65,8 +66,6 @@ typedef struct
   octave_idx_type len;
 } DATA;
 
-typedef void (*sighandler_t)(int);
-
 //
 // Function prototypes.
 //
@@ -96,7 +95,7 @@ void* smp_dream_add_p(void *arg)
     }
 
     if (running==false) {
-      octave_stdout << "add_p: thread for column " << col_start+1 << " -> " << col_stop << " bailing out!\n";
+      std::cout << "add_p: thread for column " << col_start+1 << " -> " << col_stop << " bailing out!" << std::endl;
       break;
     }
 
@@ -162,7 +161,6 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
 @end deftypefn")
 {
   double         *A,*B;
-  sighandler_t   old_handler, old_handler_abrt, old_handler_keyint;
   octave_idx_type col_start, col_stop, A_M, A_N, B_M, B_N;
   octave_idx_type r_M, r_N, k_M, k_N;
   double         *r, *k;
@@ -277,17 +275,9 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
   // Register signal handlers.
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard sigterm_guard(SIGTERM, &sighandler);
+  SignalGuard sigabrt_guard(SIGABRT, &sighandler);
+  SignalGuard sigint_guard(SIGINT, &sighandler);
 
   //
   // Call the add subroutine.
@@ -339,22 +329,6 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
   // Free memory.
   free((void*) D);
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
     error("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
diff --git a/extra_src/oct_circ_sir.cc b/extra_src/oct_circ_sir.cc
index 5d39561..661ad62 100644
--- a/extra_src/oct_circ_sir.cc
+++ b/extra_src/oct_circ_sir.cc
@@ -22,7 +22,8 @@
 ***/
 
 #include <iostream>
-#include <csignal>
+#include "signal_guard.h"
+#include <atomic>
 #include <thread>
 #include <mutex>
 
@@ -42,7 +43,7 @@
 
 //volatile ErrorLevel out_err=ErrorLevel::none;
 //std::mutex err_lock;
-int running;
+std::atomic<bool> running;
 
 //
 // typedef:s
@@ -66,8 +67,6 @@ typedef struct
   //ErrorLevel err_level;
 } DATA;
 
-typedef void (*sighandler_t)(int);
-
 /***
  *
  * Thread function.
@@ -103,7 +102,7 @@ void* smp_dream_circ_sir(void *arg)
       circ_sir(xo,yo,zo,r,dt,nt,delay[0],v,cp,&h[n*nt]); // TODO: Add attenuation.
 
       if (!running) {
-        octave_stdout << "Thread for observation points " << start+1 << " -> " << stop << " bailing out!\n";
+        std::cout << "Thread for observation points " << start+1 << " -> " << stop << " bailing out!" << std::endl;
         return(NULL);
       }
 
@@ -117,7 +116,7 @@ void* smp_dream_circ_sir(void *arg)
       circ_sir(xo,yo,zo,r,dt,nt,delay[n],v,cp,&h[n*nt]); // TODO: Add attenuation.
 
       if (!running) {
-        octave_stdout << "Thread for observation points " << start+1 << " -> " << stop << " bailing out!\n";
+        std::cout << "Thread for observation points " << start+1 << " -> " << stop << " bailing out!" << std::endl;
         return(NULL);
       }
 
@@ -225,7 +224,6 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   octave_idx_type start, stop;
   std::thread *threads;
   unsigned int thread_n, nthreads;
-  sighandler_t  old_handler, old_handler_abrt, old_handler_keyint;
   octave_value_list oct_retval;
 
   int nrhs = args.length ();
@@ -341,17 +339,9 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   // Register signal handlers.
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard sigterm_guard(SIGTERM, &sighandler);
+  SignalGuard sigabrt_guard(SIGABRT, &sighandler);
+  SignalGuard sigint_guard(SIGINT, &sighandler);
 
   //
   // Call the analytic SIR subroutine.
@@ -404,24 +394,9 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   // Free memory.
   free((void*) D);
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
-    dream_err_msg("CTRL-C pressed!\n"); // Bail out.
+    error("CTRL-C pressed!\n"); // Bail out.
+    return oct_retval;
   }
 
   oct_retval.append(h_mat);
diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index 1cbcfc4..855fe07 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -21,7 +21,9 @@
 *
 ***/
 
-#include <csignal>
+#include "signal_guard.h"
+#include <atomic>
+#include <iostream>
 #include <thread>
 
 #include <octave/oct.h>
@@ -40,7 +42,7 @@
 // Globals
 //
 
-volatile int running;
+std::atomic<bool> running;
 
 //
 // typedef:s
@@ -60,8 +62,6 @@ typedef struct
   ConvMode conv_mode;
 } DATA;
 
-typedef void (*sighandler_t)(int);
-
 //
 // Function prototypes.
 //
@@ -95,7 +95,7 @@ void* smp_dream_conv(void *arg)
       conv( &A[0+n*A_M], A_M, B, B_M, &Y[0+n*(A_M+B_M-1)], conv_mode);
 
     if (running == false) {
-      octave_stdout << "conv_p: thread for column " << col_start+1 << " -> " << col_stop << "bailing out!\n";
+      std::cout << "conv_p: thread for column " << col_start+1 << " -> " << col_stop << "bailing out!" << std::endl;
       break;
       //return(NULL);
     }
@@ -158,7 +158,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 @end deftypefn")
 {
   double *A = nullptr, *B = nullptr, *Y = nullptr;
-  sighandler_t old_handler, old_handler_abrt, old_handler_keyint;
   octave_idx_type col_start, col_stop, A_M, A_N, B_M, B_N;
   bool is_set = false;
   DATA *D = nullptr;
@@ -281,17 +280,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   // Register signal handlers.
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard sigterm_guard(SIGTERM, &sighandler);
+  SignalGuard sigabrt_guard(SIGABRT, &sighandler);
+  SignalGuard sigint_guard(SIGINT, &sighandler);
 
   if (nrhs == 2) { // Test for in-place/normal mode.
 
@@ -383,24 +374,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     free((void*) D);
   }
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
-    dream_err_msg("CTRL-C pressed!\n"); // Bail out.
+    error("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
   }
 
diff --git a/extra_src/oct_copy_p.cc b/extra_src/oct_copy_p.cc
index 5f24b9a..3c7de8d 100644
--- a/extra_src/oct_copy_p.cc
+++ b/extra_src/oct_copy_p.cc
@@ -22,7 +22,8 @@
 ***/
 
 #include <iostream>
-#include <csignal>
+#include "signal_guard.h"
+#include <atomic>
 #include <thread>
 
 //
@@ -44,7 +45,7 @@
 // Globals
 //
 
-volatile int running;
+std::atomic<bool> running;
 
 //
 // typedef:s
@@ -65,8 +66,6 @@ typedef struct
   octave_idx_type len;
 } DATA;
 
-typedef void (*sighandler_t)(int);
-
 //
 // Function prototypes.
 //
@@ -94,7 +93,7 @@ void* smp_dream_copy_p(void *arg)
     memcpy( &A[r+(k+n)*A_M], &B[0+n*B_M], len*sizeof(double));
 
     if (running==false) {
-      octave_stdout << "copy_p: thread for column " << line_start+1 << " -> " << line_stop << " bailing out!\n";
+      std::cout << "copy_p: thread for column " << line_start+1 << " -> " << line_stop << " bailing out!" << std::endl;
       break;
     }
 
@@ -160,7 +159,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 @end deftypefn")
 {
   double         *A,*B;
-  sighandler_t   old_handler, old_handler_abrt, old_handler_keyint;
   octave_idx_type line_start, line_stop, A_M, A_N, B_M, B_N;
   octave_idx_type r_M, r_N, k_M, k_N;
   double         *r=nullptr, *k=nullptr;
@@ -275,17 +273,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   // Register signal handlers.
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard sigterm_guard(SIGTERM, &sighandler);
+  SignalGuard sigabrt_guard(SIGABRT, &sighandler);
+  SignalGuard sigint_guard(SIGINT, &sighandler);
 
   //
   // Call the mem_copy subroutine.
@@ -337,22 +327,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   // Free memory.
   free((void*) D);
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
     error("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 1c4c660..14df65a 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -21,7 +21,7 @@
 *
 ***/
 
-#include<csignal>
+#include "signal_guard.h"
 
 #include "das.h"
 #include "arg_parser.h"
@@ -464,11 +464,6 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
       }
     }
 
-    das_d->set_running();
-
-    // Register signal handler.
-    std::signal(SIGABRT, DAS<float>::abort);
-
   } else {
 
     //
@@ -501,12 +496,17 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
       }
     }
 
-    das_d->set_running();
+  }
 
-    // Register signal handler.
-    std::signal(SIGABRT, DAS<double>::abort);
+  if (use_float) {
+    das_f->set_running();
+  } else {
+    das_d->set_running();
   }
 
+  // Register signal handler.
+  SignalGuard sigint_guard(SIGINT, use_float ? DAS<float>::abort : DAS<double>::abort);
+
   SIRError err = SIRError::none;
 
 #ifdef USE_OPENCL
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 796678f..130a741 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -21,7 +21,9 @@
 *
 ***/
 
-#include <csignal>
+#include "signal_guard.h"
+#include <atomic>
+#include <iostream>
 #include <thread>
 #include <complex>
 
@@ -41,7 +43,7 @@
 // Globals
 //
 
-volatile int running;
+std::atomic<bool> running;
 
 //
 // typedef:s
@@ -63,8 +65,6 @@ typedef struct
   ConvMode conv_mode;
 } DATA;
 
-typedef void (*sighandler_t)(int);
-
 //
 // Function prototypes.
 //
@@ -178,7 +178,7 @@ void* smp_dream_fftconv_ola(void *arg)
       }
 
       if (running==false) {
-        octave_stdout << "fftconv_ola: thread for column " << col_start+1 << " -> " <<
+        std::cout << "fftconv_ola: thread for column " << col_start+1 << " -> " <<
           col_stop << " bailing out at column = " << n <<"!\n";
         break;
       }
@@ -245,7 +245,7 @@ void* smp_dream_fftconv_ola(void *arg)
       } // while
 
       if (running==false) {
-        octave_stdout << "fftconv_ola: thread for column " << col_start+1 << " -> " <<
+        std::cout << "fftconv_ola: thread for column " << col_start+1 << " -> " <<
           col_stop << " bailing out at column = " << n <<"!\n";
         break;
       }
@@ -337,7 +337,6 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
 @seealso {conv_p, fftconv_p, fftconv, conv, fftw_wisdom}\n\
 @end deftypefn")
 {
-  sighandler_t old_handler, old_handler_abrt, old_handler_keyint;
   std::thread *threads;
   double *Y = nullptr;
   DATA  *D = nullptr;
@@ -561,17 +560,9 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
   // Register signal handlers.
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard sigterm_guard(SIGTERM, &sighandler);
+  SignalGuard sigabrt_guard(SIGABRT, &sighandler);
+  SignalGuard sigint_guard(SIGINT, &sighandler);
 
   // ********************************************
   //
@@ -681,22 +672,6 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     free((void*) D);
   }
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
     error("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index dd525bf..c618c38 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -21,7 +21,9 @@
 *
 ***/
 
-#include <csignal>
+#include "signal_guard.h"
+#include <atomic>
+#include <iostream>
 #include <thread>
 #include <complex>
 
@@ -46,7 +48,7 @@ std::mutex print_mutex;         // Debug print mutex (C++11)
 // Globals
 //
 
-volatile int running;
+std::atomic<bool> running;
 
 //
 // typedef:s
@@ -67,8 +69,6 @@ typedef struct
   ConvMode conv_mode;
 } DATA;
 
-typedef void (*sighandler_t)(int);
-
 //
 // Function prototypes.
 //
@@ -126,7 +126,7 @@ void* smp_dream_fftconv(void *arg)
       Yp += fft_len;
 
       if (running==false) {
-        octave_stdout << "fftconv_p: thread for column " << col_start+1 << " -> " << col_stop << " bailing out!\n";
+        std::cout << "fftconv_p: thread for column " << col_start+1 << " -> " << col_stop << " bailing out!" << std::endl;
         break;
       }
 
@@ -144,7 +144,7 @@ void* smp_dream_fftconv(void *arg)
       Yp += fft_len;
 
       if (running==false) {
-        octave_stdout << "fftconv_p: thread for column " << col_start+1 << " -> " << col_stop << " bailing out!\n";
+        std::cout << "fftconv_p: thread for column " << col_start+1 << " -> " << col_stop << " bailing out!" << std::endl;
         break;
       }
 
@@ -241,7 +241,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 @end deftypefn")
 {
   double *A=nullptr,*B=nullptr, *Y=nullptr;
-  sighandler_t    old_handler, old_handler_abrt, old_handler_keyint;
   std::thread     *threads;
   dream_idx_type  thread_n, nthreads;
   dream_idx_type col_start, col_stop, A_M, A_N, B_M, B_N;
@@ -443,17 +442,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   // Register signal handlers.
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard sigterm_guard(SIGTERM, &sighandler);
+  SignalGuard sigabrt_guard(SIGABRT, &sighandler);
+  SignalGuard sigint_guard(SIGINT, &sighandler);
 
   //
   // Init the FFTW plans.
@@ -569,22 +560,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     free((void*) D);
   }
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
     error("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
diff --git a/extra_src/oct_rect_sir.cc b/extra_src/oct_rect_sir.cc
index 69ce2b6..755add9 100644
--- a/extra_src/oct_rect_sir.cc
+++ b/extra_src/oct_rect_sir.cc
@@ -21,7 +21,7 @@
 *
 ***/
 
-#include <csignal>
+#include "signal_guard.h"
 
 #include "rect_sir.h"
 #include "arg_parser.h"
@@ -224,7 +224,7 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   RectSir rect_sir;
 
   // Register signal handler.
-  std::signal(SIGABRT, RectSir::abort);
+  SignalGuard sigint_guard(SIGINT, RectSir::abort);
 
   //
   // Call the rect_sir subroutine.
@@ -247,7 +247,8 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
                                        h);
 
     if (!rect_sir.is_running()) {
-      dream_err_msg("CTRL-C pressed!\n"); // Bail out.
+      error("CTRL-C pressed!\n"); // Bail out.
+      return oct_retval;
     }
 
     //
diff --git a/extra_src/oct_scirc_sir.cc b/extra_src/oct_scirc_sir.cc
index 82a6aaf..d141ce6 100644
--- a/extra_src/oct_scirc_sir.cc
+++ b/extra_src/oct_scirc_sir.cc
@@ -21,7 +21,10 @@
 *
 ***/
 
+#include <atomic>
+#include <iostream>
 #include <thread>
+#include "signal_guard.h"
 #include <mutex>
 
 #include "scirc_sir.h"
@@ -39,7 +42,7 @@
 
 //volatile ErrorLevel out_err=ErrorLevel::none;
 //std::mutex err_lock;
-int running;
+std::atomic<bool> running;
 
 //
 // typedef:s
@@ -64,8 +67,6 @@ typedef struct
   //ErrorLevel err_level;
 } DATA;
 
-typedef void (*sighandler_t)(int);
-
 /***
  *
  * Thread function.
@@ -101,7 +102,7 @@ void* smp_dream_scirc_sir(void *arg)
       scirc_sir(xo,yo,zo,r,dt,nt,delay[0],v,cp,int_len,&h[n*nt]); // TODO: Add attenuation.
 
       if (!running) {
-        octave_stdout << "Thread for observation points " << start+1 << " -> " << stop << " bailing out!\n";
+        std::cout << "Thread for observation points " << start+1 << " -> " << stop << " bailing out!" << std::endl;
         return(NULL);
       }
 
@@ -115,7 +116,7 @@ void* smp_dream_scirc_sir(void *arg)
       scirc_sir(xo,yo,zo,r,dt,nt,delay[n],v,cp,int_len,&h[n*nt]); // TODO: Add attenuation.
 
       if (!running) {
-        octave_stdout << "Thread for observation points " << start+1 << " -> " << stop << " bailing out!\n";
+        std::cout << "Thread for observation points " << start+1 << " -> " << stop << " bailing out!" << std::endl;
         return(NULL);
       }
 
@@ -230,7 +231,6 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   octave_idx_type start, stop;
   std::thread *threads;
   dream_idx_type thread_n, nthreads;
-  sighandler_t  old_handler, old_handler_abrt, old_handler_keyint;
   octave_value_list oct_retval;
 
   int nrhs = args.length ();
@@ -356,17 +356,9 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   // Register signal handlers.
   //
 
-  if ((old_handler = signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    printf("Couldn't register SIGTERM signal handler.\n");
-  }
-
-  if (( old_handler_abrt=signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    printf("Couldn't register SIGABRT signal handler.\n");
-  }
-
-  if (( old_handler_keyint=signal(SIGINT, &sighandler)) == SIG_ERR) {
-    printf("Couldn't register SIGINT signal handler.\n");
-  }
+  SignalGuard sigterm_guard(SIGTERM, &sighandler);
+  SignalGuard sigabrt_guard(SIGABRT, &sighandler);
+  SignalGuard sigint_guard(SIGINT, &sighandler);
 
   //
   // Call the sampled analytic SIR subroutine.
@@ -421,24 +413,9 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   // Free memory.
   free((void*) D);
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (signal(SIGTERM, old_handler) == SIG_ERR) {
-    printf("Couldn't register old SIGTERM signal handler.\n");
-  }
-
-  if (signal(SIGABRT,  old_handler_abrt) == SIG_ERR) {
-    printf("Couldn't register old SIGABRT signal handler.\n");
-  }
-
-  if (signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    printf("Couldn't register old SIGINT signal handler.\n");
-  }
-
   if (!running) {
-    dream_err_msg("CTRL-C pressed!\n"); // Bail out.
+    error("CTRL-C pressed!\n"); // Bail out.
+    return oct_retval;
   }
 
   oct_retval.append(h_mat);
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index c158383..0480786 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -21,7 +21,9 @@
 *
 ***/
 
-#include <csignal>
+#include "signal_guard.h"
+#include <atomic>
+#include <iostream>
 #include <thread>
 #include <complex>
 
@@ -41,7 +43,7 @@
 // Globals
 //
 
-volatile int running;
+std::atomic<bool> running;
 
 //
 // typedef:s
@@ -63,8 +65,6 @@ typedef struct
   ConvMode conv_mode;
 } DATA;
 
-typedef void (*sighandler_t)(int);
-
 //
 // Function prototypes.
 //
@@ -121,7 +121,7 @@ void* smp_dream_sum_fftconv(void *arg)
                 conv_mode);
 
     if (running==false) {
-      octave_stdout << "sum_fftconv: thread for column " << col_start+1 << " -> " << col_stop << " bailing out!\n";
+      std::cout << "sum_fftconv: thread for column " << col_start+1 << " -> " << col_stop << " bailing out!" << std::endl;
       break;
     }
   }
@@ -259,7 +259,6 @@ sum_fftconv is a part of the DREAM Toolbox available at\n\
 Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 @seealso {conv, conv_p, fftconv, fftconv_p, fftw_wisdom}")
 {
-  sighandler_t old_handler, old_handler_abrt, old_handler_keyint;
   dream_idx_type col_start, col_stop, H_M, H_N, H_L, U_M, U_N;
   double *Y = nullptr;
   std::thread *threads;
@@ -428,17 +427,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   // Register signal handlers.
   //
 
-  if ((old_handler = std::signal(SIGTERM, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGTERM signal handler!" << std::endl;
-  }
-
-  if ((old_handler_abrt = std::signal(SIGABRT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGABRT signal handler!" << std::endl;
-  }
-
-  if ((old_handler_keyint = std::signal(SIGINT, &sighandler)) == SIG_ERR) {
-    std::cerr << "Couldn't register SIGINT signal handler!" << std::endl;
-  }
+  SignalGuard sigterm_guard(SIGTERM, &sighandler);
+  SignalGuard sigabrt_guard(SIGABRT, &sighandler);
+  SignalGuard sigint_guard(SIGINT, &sighandler);
 
   //
   // Init the FFTW plans.
@@ -548,24 +539,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     free((void*) D);
   }
 
-  //
-  // Restore old signal handlers.
-  //
-
-  if (std::signal(SIGTERM, old_handler) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGTERM signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGABRT, old_handler_abrt) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGABRT signal handler!" << std::endl;
-  }
-
-  if (std::signal(SIGINT, old_handler_keyint) == SIG_ERR) {
-    std::cerr << "Couldn't register old SIGINT signal handler!" << std::endl;
-  }
-
   if (!running) {
-    dream_err_msg("CTRL-C pressed!\n"); // Bail out.
+    error("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
   }
 
diff --git a/include/signal_guard.h b/include/signal_guard.h
new file mode 100644
index 0000000..0d68a6c
--- /dev/null
+++ b/include/signal_guard.h
@@ -0,0 +1,79 @@
+/***
+*
+* Copyright (C) 2024 Fredrik Lingvall
+*
+* This file is part of the DREAM Toolbox.
+*
+* The DREAM Toolbox is free software; you can redistribute it and/or modify
+* it under the terms of the GNU General Public License as published by the
+* Free Software Foundation; either version 2, or (at your option) any
+* later version.
+*
+* The DREAM Toolbox is distributed in the hope that it will be useful, but
+* WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY or
+* FITNESS FOR A PARTICULAR PURPOSE. See the GNU General Public License
+* for more details.
+*
+* You should have received a copy of the GNU General Public License
+* along with the DREAM Toolbox; see the file COPYING.  If not, write to the
+* Free
+* Software Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA
+* 02110-1301, USA.
+*
+***/
+
+#pragma once
+
+#include <csignal>
+
+/***
+ *
+ * Installs a signal handler and restores the previous one when going out of scope
+ * (also when leaving by an exception).
+ *
+ ***/
+
+class SignalGuard
+{
+ public:
+
+  SignalGuard(int signum, void (*handler)(int))
+    : m_signum(signum)
+  {
+#if defined(_WIN32)
+    m_old = std::signal(signum, handler);
+    m_is_set = (m_old != SIG_ERR);
+#else
+    struct sigaction sa = {};
+    sa.sa_handler = handler;
+    sa.sa_flags = SA_RESTART;
+    sigemptyset(&sa.sa_mask);
+    m_is_set = (sigaction(signum, &sa, &m_old) == 0);
+#endif
+  }
+
+  ~SignalGuard()
+  {
+    if (m_is_set) {
+#if defined(_WIN32)
+      std::signal(m_signum, m_old);
+#else
+      sigaction(m_signum, &m_old, nullptr);
+#endif
+    }
+  }
+
+  SignalGuard(const SignalGuard&) = delete;
+  SignalGuard& operator=(const SignalGuard&) = delete;
+
+ private:
+
+  int m_signum;
+  bool m_is_set = false;
+
+#if defined(_WIN32)
+  void (*m_old)(int);
+#else
+  struct sigaction m_old;
+#endif
+};
diff --git a/oct/oct_dream_arr_annu.cc b/oct/oct_dream_arr_annu.cc
index 991a3af..72be83a 100644
--- a/oct/oct_dream_arr_annu.cc
+++ b/oct/oct_dream_arr_annu.cc
@@ -21,7 +21,7 @@
 *
 ***/
 
-#include <csignal>
+#include "signal_guard.h"
 
 #include "dream_arr_annu.h"
 #include "arg_parser.h"
@@ -293,6 +293,9 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
   ArrAnnu arr_annu;
 
+  // Register signal handler.
+  SignalGuard sigint_guard(SIGINT, ArrAnnu::abort);
+
   //
   // Call the DREAM subroutine.
   //
diff --git a/oct/oct_dream_arr_circ.cc b/oct/oct_dream_arr_circ.cc
index 453128e..0e77d2c 100644
--- a/oct/oct_dream_arr_circ.cc
+++ b/oct/oct_dream_arr_circ.cc
@@ -21,7 +21,7 @@
 *
 ***/
 
-#include <csignal>
+#include "signal_guard.h"
 
 #include "dream_arr_circ.h"
 #include "arg_parser.h"
@@ -334,7 +334,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   ArrCirc arr_circ;
 
   // Register signal handler.
-  std::signal(SIGINT, ArrCirc::abort);
+  SignalGuard sigint_guard(SIGINT, ArrCirc::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dream_arr_cylind.cc b/oct/oct_dream_arr_cylind.cc
index dc47b8f..9276d2d 100644
--- a/oct/oct_dream_arr_cylind.cc
+++ b/oct/oct_dream_arr_cylind.cc
@@ -21,7 +21,7 @@
 *
 ***/
 
-#include <csignal>
+#include "signal_guard.h"
 
 #include "dream_arr_cylind.h"
 #include "arg_parser.h"
@@ -338,7 +338,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   ArrCylind arr_cylind;
 
   // Register signal handler.
-  std::signal(SIGINT, ArrCylind::abort);
+  SignalGuard sigint_guard(SIGINT, ArrCylind::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dream_arr_rect.cc b/oct/oct_dream_arr_rect.cc
index 6df3e5f..0983143 100644
--- a/oct/oct_dream_arr_rect.cc
+++ b/oct/oct_dream_arr_rect.cc
@@ -21,7 +21,7 @@
 *
 ***/
 
-#include <csignal>
+#include "signal_guard.h"
 
 #include "dream_arr_rect.h"
 #include "arg_parser.h"
@@ -336,7 +336,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   ArrRect arr_rect;
 
   // Register signal handler.
-  std::signal(SIGINT, ArrRect::abort);
+  SignalGuard sigint_guard(SIGINT, ArrRect::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dreamcirc.cc b/oct/oct_dreamcirc.cc
index 4e5d165..1bd3111 100644
--- a/oct/oct_dreamcirc.cc
+++ b/oct/oct_dreamcirc.cc
@@ -21,7 +21,7 @@
 *
 ***/
 
-#include <csignal>
+#include "signal_guard.h"
 
 #include "dreamcirc.h"
 #include "arg_parser.h"
@@ -221,7 +221,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   Circ circ;
 
   // Register signal handler.
-  std::signal(SIGINT, Circ::abort);
+  SignalGuard sigint_guard(SIGINT, Circ::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dreamcirc_f.cc b/oct/oct_dreamcirc_f.cc
index 21774ac..a60963a 100644
--- a/oct/oct_dreamcirc_f.cc
+++ b/oct/oct_dreamcirc_f.cc
@@ -21,7 +21,7 @@
  *
  ***/
 
-#include <csignal>
+#include "signal_guard.h"
 
 #include "dreamcirc_f.h"
 #include "arg_parser.h"
@@ -227,7 +227,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   Circ_f circ_f;
 
   // Register signal handler.
-  std::signal(SIGINT, Circ_f::abort);
+  SignalGuard sigint_guard(SIGINT, Circ_f::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dreamcylind.cc b/oct/oct_dreamcylind.cc
index 1bf8104..f5d61f7 100644
--- a/oct/oct_dreamcylind.cc
+++ b/oct/oct_dreamcylind.cc
@@ -21,7 +21,7 @@
 *
 ***/
 
-#include <csignal>
+#include "signal_guard.h"
 
 #include "dreamcylind.h"
 #include "arg_parser.h"
@@ -213,7 +213,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   Cylind cylind;
 
   // Register signal handler.
-  std::signal(SIGINT, Cylind::abort);
+  SignalGuard sigint_guard(SIGINT, Cylind::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dreamline.cc b/oct/oct_dreamline.cc
index 1e46c26..38d3d37 100644
--- a/oct/oct_dreamline.cc
+++ b/oct/oct_dreamline.cc
@@ -21,7 +21,7 @@
 *
 ***/
 
-#include <csignal>
+#include "signal_guard.h"
 #include <atomic>
 
 #include "dreamline.h"
@@ -192,7 +192,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   Line line;
 
   // Register signal handler.
-  std::signal(SIGINT, Line::abort);
+  SignalGuard sigint_guard(SIGINT, Line::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dreamrect.cc b/oct/oct_dreamrect.cc
index a5851f8..edef094 100644
--- a/oct/oct_dreamrect.cc
+++ b/oct/oct_dreamrect.cc
@@ -21,7 +21,7 @@
 *
 ***/
 
-#include <csignal>
+#include "signal_guard.h"
 
 #include "dreamrect.h"
 #include "arg_parser.h"
@@ -224,7 +224,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   Rect rect;
 
   // Register signal handler.
-  std::signal(SIGINT, Rect::abort);
+  SignalGuard sigint_guard(SIGINT, Rect::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dreamrect_f.cc b/oct/oct_dreamrect_f.cc
index 3161f94..4a49204 100644
--- a/oct/oct_dreamrect_f.cc
+++ b/oct/oct_dreamrect_f.cc
@@ -21,7 +21,7 @@
 *
 ***/
 
-#include <csignal>
+#include "signal_guard.h"
 
 #include "dreamrect_f.h"
 #include "arg_parser.h"
@@ -230,7 +230,7 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   Rect_f rect_f;
 
   // Register signal handler.
-  std::signal(SIGINT, Rect_f::abort);
+  SignalGuard sigint_guard(SIGINT, Rect_f::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/oct/oct_dreamsphere.cc b/oct/oct_dreamsphere.cc
index cf8d5fc..e1577ee 100644
--- a/oct/oct_dreamsphere.cc
+++ b/oct/oct_dreamsphere.cc
@@ -21,7 +21,7 @@
 *
 ***/
 
-#include <csignal>
+#include "signal_guard.h"
 
 #include "dreamsphere.h"
 #include "arg_parser.h"
@@ -205,7 +205,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   Sphere sphere;
 
   // Register signal handler.
-  std::signal(SIGINT, Sphere::abort);
+  SignalGuard sigint_guard(SIGINT, Sphere::abort);
 
   //
   // Call the DREAM subroutine.
diff --git a/python/include/py_das.hpp b/python/include/py_das.hpp
index 7b7d5e5..e0adcf1 100644
--- a/python/include/py_das.hpp
+++ b/python/include/py_das.hpp
@@ -25,6 +25,7 @@
 #include <memory>
 
 #include "arg_parser_python.h"
+#include "signal_guard.h"
 
 #include <pybind11/pybind11.h>
 #include <pybind11/numpy.h>
@@ -206,7 +207,7 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
   das->set_running();
 
   // Register signal handler.
-  std::signal(SIGABRT, DAS<T>::abort);
+  SignalGuard sigint_guard(SIGINT, DAS<T>::abort);
 
 #ifdef USE_OPENCL
 
diff --git a/python/src/py_dream_arr_annu.cc b/python/src/py_dream_arr_annu.cc
index d1ad69c..f229c40 100644
--- a/python/src/py_dream_arr_annu.cc
+++ b/python/src/py_dream_arr_annu.cc
@@ -21,7 +21,7 @@
 *
 ***/
 
-#include <csignal>
+#include "signal_guard.h"
 #include <memory>
 
 #include "dream_arr_annu.h"
@@ -167,7 +167,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
   hsir.clear();
 
   // Register signal handler.
-  std::signal(SIGINT, ArrAnnu::abort);
+  SignalGuard sigint_guard(SIGINT, ArrAnnu::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dream_arr_circ.cc b/python/src/py_dream_arr_circ.cc
index 60b3b29..bae83e5 100644
--- a/python/src/py_dream_arr_circ.cc
+++ b/python/src/py_dream_arr_circ.cc
@@ -21,7 +21,7 @@
 *
 ***/
 
-#include <csignal>
+#include "signal_guard.h"
 #include <memory>
 
 #include "dream_arr_circ.h"
@@ -189,7 +189,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_circ(py::array_t<double,py::
   hsir.clear();
 
   // Register signal handler.
-  std::signal(SIGINT, ArrCirc::abort);
+  SignalGuard sigint_guard(SIGINT, ArrCirc::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dream_arr_cylind.cc b/python/src/py_dream_arr_cylind.cc
index e407793..e870227 100644
--- a/python/src/py_dream_arr_cylind.cc
+++ b/python/src/py_dream_arr_cylind.cc
@@ -21,7 +21,7 @@
 *
 ***/
 
-#include <csignal>
+#include "signal_guard.h"
 #include <memory>
 
 #include "dream_arr_cylind.h"
@@ -189,7 +189,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_cylind(py::array_t<double,py
   hsir.clear();
 
   // Register signal handler.
-  std::signal(SIGINT, ArrCylind::abort);
+  SignalGuard sigint_guard(SIGINT, ArrCylind::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dream_arr_rect.cc b/python/src/py_dream_arr_rect.cc
index ae3fd74..fb8b4c3 100644
--- a/python/src/py_dream_arr_rect.cc
+++ b/python/src/py_dream_arr_rect.cc
@@ -21,7 +21,7 @@
 *
 ***/
 
-#include <csignal>
+#include "signal_guard.h"
 #include <memory>
 
 #include "dream_arr_rect.h"
@@ -189,7 +189,7 @@ py::array_t<double,py::array::f_style> py_dream_arr_rect(py::array_t<double,py::
   hsir.clear();
 
   // Register signal handler.
-  std::signal(SIGINT, ArrRect::abort);
+  SignalGuard sigint_guard(SIGINT, ArrRect::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dreamcirc.cc b/python/src/py_dreamcirc.cc
index 6cc4009..81bb511 100644
--- a/python/src/py_dreamcirc.cc
+++ b/python/src/py_dreamcirc.cc
@@ -21,7 +21,7 @@
 *
 ***/
 
-#include <csignal>
+#include "signal_guard.h"
 #include <memory>
 
 #include "dreamcirc.h"
@@ -127,7 +127,7 @@ py::array_t<double,py::array::f_style> py_dreamcirc(py::array_t<double,py::array
   hsir.clear();
 
   // Register signal handler.
-  std::signal(SIGINT, Circ::abort);
+  SignalGuard sigint_guard(SIGINT, Circ::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dreamcirc_f.cc b/python/src/py_dreamcirc_f.cc
index ac66b1f..f403dbf 100644
--- a/python/src/py_dreamcirc_f.cc
+++ b/python/src/py_dreamcirc_f.cc
@@ -21,7 +21,7 @@
 *
 ***/
 
-#include <csignal>
+#include "signal_guard.h"
 #include <memory>
 
 #include "dreamcirc_f.h"
@@ -142,7 +142,7 @@ py::array_t<double,py::array::f_style> py_dreamcirc_f(py::array_t<double,py::arr
   Circ_f circ_f;
 
   // Register signal handler.
-  std::signal(SIGINT, Circ_f::abort);
+  SignalGuard sigint_guard(SIGINT, Circ_f::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dreamcylind.cc b/python/src/py_dreamcylind.cc
index 1e8b19f..e6e8189 100644
--- a/python/src/py_dreamcylind.cc
+++ b/python/src/py_dreamcylind.cc
@@ -21,7 +21,7 @@
 *
 ***/
 
-#include <csignal>
+#include "signal_guard.h"
 #include <memory>
 
 #include "dreamcylind.h"
@@ -127,7 +127,7 @@ py::array_t<double,py::array::f_style> py_dreamcylind(py::array_t<double,py::arr
   hsir.clear();
 
   // Register signal handler.
-  std::signal(SIGINT, Cylind::abort);
+  SignalGuard sigint_guard(SIGINT, Cylind::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dreamline.cc b/python/src/py_dreamline.cc
index f0d8591..f8587e8 100644
--- a/python/src/py_dreamline.cc
+++ b/python/src/py_dreamline.cc
@@ -21,7 +21,7 @@
 *
 ***/
 
-#include <csignal>
+#include "signal_guard.h"
 #include <memory>
 
 #include "dreamline.h"
@@ -129,7 +129,7 @@ py::array_t<double,py::array::f_style> py_dreamline(py::array_t<double,py::array
   Line line;
 
   // Register signal handler.
-  std::signal(SIGINT, Line::abort);
+  SignalGuard sigint_guard(SIGINT, Line::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dreamrect.cc b/python/src/py_dreamrect.cc
index be1e020..c65ccb4 100644
--- a/python/src/py_dreamrect.cc
+++ b/python/src/py_dreamrect.cc
@@ -21,7 +21,7 @@
 *
 ***/
 
-#include <csignal>
+#include "signal_guard.h"
 #include <memory>
 
 #include "dreamrect.h"
@@ -129,7 +129,7 @@ py::array_t<double,py::array::f_style> py_dreamrect(py::array_t<double,py::array
   Rect rect;
 
   // Register signal handler.
-  std::signal(SIGINT, Rect::abort);
+  SignalGuard sigint_guard(SIGINT, Rect::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dreamrect_f.cc b/python/src/py_dreamrect_f.cc
index 5e4223e..e56cc8c 100644
--- a/python/src/py_dreamrect_f.cc
+++ b/python/src/py_dreamrect_f.cc
@@ -21,7 +21,7 @@
 *
 ***/
 
-#include <csignal>
+#include "signal_guard.h"
 #include <memory>
 
 #include "dreamrect_f.h"
@@ -142,7 +142,7 @@ py::array_t<double,py::array::f_style> py_dreamrect_f(py::array_t<double,py::arr
   Rect_f rect_f;
 
   // Register signal handler.
-  std::signal(SIGINT, Rect_f::abort);
+  SignalGuard sigint_guard(SIGINT, Rect_f::abort);
 
   //
   // Call DREAM function
diff --git a/python/src/py_dreamsphere.cc b/python/src/py_dreamsphere.cc
index c3bee38..0e348fc 100644
--- a/python/src/py_dreamsphere.cc
+++ b/python/src/py_dreamsphere.cc
@@ -21,7 +21,7 @@
 *
 ***/
 
-#include <csignal>
+#include "signal_guard.h"
 #include <memory>
 
 #include "dreamsphere.h"
@@ -127,7 +127,7 @@ py::array_t<double,py::array::f_style> py_dreamsphere(py::array_t<double,py::arr
   hsir.clear();
 
   // Register signal handler.
-  std::signal(SIGINT, Sphere::abort);
+  SignalGuard sigint_guard(SIGINT, Sphere::abort);
 
   //
   // Call DREAM function
-- 
2.43.0


From c447535d2fa338fd5814adf9eb5479e7f69c2067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 09/52] fix: octave: argument errors now raise an error, and a
 cylinder wider than its curvature diameter is rejected before starting the
 threads

---
 oct/oct_dream_arr_cylind.cc       |  5 +++++
 oct/oct_dreamcylind.cc            |  5 +++++
 python/src/py_dream_arr_cylind.cc |  4 ++++
 python/src/py_dreamcylind.cc      |  4 ++++
 src/dream_error.cc                | 10 +++++++++-
 5 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/oct/oct_dream_arr_cylind.cc b/oct/oct_dream_arr_cylind.cc
index 9276d2d..6a5d39b 100644
--- a/oct/oct_dream_arr_cylind.cc
+++ b/oct/oct_dream_arr_cylind.cc
@@ -215,6 +215,11 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  if (b > 2.0*std::fabs(Rcurv)) {
+    error("dream_arr_cylind: the y-size, b, must be less than the curvature diameter 2*Rcurv!\n");
+    return oct_retval;
+  }
+
   //
   // Grid function (position vectors of the elements).
   //
diff --git a/oct/oct_dreamcylind.cc b/oct/oct_dreamcylind.cc
index f5d61f7..14d0b5d 100644
--- a/oct/oct_dreamcylind.cc
+++ b/oct/oct_dreamcylind.cc
@@ -154,6 +154,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  if (b > 2.0*std::fabs(Rcurv)) {
+    error("dreamcylind: the y-size, b, must be less than the curvature diameter 2*Rcurv!\n");
+    return oct_retval;
+  }
+
   //
   // Temporal and spatial sampling parameters.
   //
diff --git a/python/src/py_dream_arr_cylind.cc b/python/src/py_dream_arr_cylind.cc
index e870227..610aa45 100644
--- a/python/src/py_dream_arr_cylind.cc
+++ b/python/src/py_dream_arr_cylind.cc
@@ -79,6 +79,10 @@ py::array_t<double,py::array::f_style> py_dream_arr_cylind(py::array_t<double,py
     throw std::runtime_error("Error in dream_arr_cylind!");
   }
 
+  if (b > 2.0*std::fabs(Rcurv)) {
+    throw std::runtime_error("Error in dream_arr_cylind: the y-size, b, must be less than the curvature diameter 2*Rcurv!");
+  }
+
   //
   // Grid function (position vectors of the elements).
   //
diff --git a/python/src/py_dreamcylind.cc b/python/src/py_dreamcylind.cc
index e6e8189..39ad338 100644
--- a/python/src/py_dreamcylind.cc
+++ b/python/src/py_dreamcylind.cc
@@ -71,6 +71,10 @@ py::array_t<double,py::array::f_style> py_dreamcylind(py::array_t<double,py::arr
     throw std::runtime_error("Error in dreamcylind!");
   }
 
+  if (b > 2.0*std::fabs(Rcurv)) {
+    throw std::runtime_error("Error in dreamcylind: the y-size, b, must be less than the curvature diameter 2*Rcurv!");
+  }
+
   //
   // Temporal and spatial sampling parameters.
   //
diff --git a/src/dream_error.cc b/src/dream_error.cc
index 2eeade6..9b9944e 100644
--- a/src/dream_error.cc
+++ b/src/dream_error.cc
@@ -31,6 +31,10 @@
 #include "mex.h"
 #endif
 
+#ifdef DREAM_OCTAVE
+#include <octave/oct.h>
+#endif
+
 /***
  *
  * Functions for error handling.
@@ -77,10 +81,14 @@ SIRError dream_out_of_bounds_err(const char *msg, dream_idx_type idx, ErrorLevel
 
 void dream_err_msg(const char *msg)
 {
-#if defined(DREAM_OCTAVE) || defined(DREAM_PYTHON) || defined(DREAM_JULIA)
+#if defined(DREAM_PYTHON) || defined(DREAM_JULIA)
   std::cout << msg << std::endl;
 #endif
 
+#ifdef DREAM_OCTAVE
+  error("%s", msg); // Do not return.
+#endif
+
 #ifdef DREAM_MATLAB
   mexErrMsgTxt(msg);
 #endif
-- 
2.43.0


From b3c06a191ce1b5ded39aa87d22c4aa69e7f03fea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 10/52] fix: check the shape of the delay argument, and python:
 1-D and N-D array arguments read outside the shape vector

---
 include/arg_parser.h              | 10 ++++-----
 include/arg_parser_python.h       | 36 +++++++++++++++----------------
 python/src/py_dream_arr_annu.cc   |  8 +++----
 python/src/py_dream_arr_circ.cc   |  4 ++--
 python/src/py_dream_arr_cylind.cc |  4 ++--
 python/src/py_dream_arr_rect.cc   |  4 ++--
 python/src/py_dreamcirc.cc        |  4 ++--
 python/src/py_dreamcirc_f.cc      |  4 ++--
 python/src/py_dreamcylind.cc      |  4 ++--
 python/src/py_dreamline.cc        |  4 ++--
 python/src/py_dreamrect.cc        |  4 ++--
 python/src/py_dreamrect_f.cc      |  4 ++--
 python/src/py_dreamsphere.cc      |  4 ++--
 13 files changed, 45 insertions(+), 49 deletions(-)

diff --git a/include/arg_parser.h b/include/arg_parser.h
index 31d8b5f..f229b18 100644
--- a/include/arg_parser.h
+++ b/include/arg_parser.h
@@ -238,12 +238,10 @@ public:
     std::ostringstream s;
 
     dream_idx_type delay_len = get_m(args, arg_num)*get_n(args, arg_num);
-    if ( (delay_len > 1) && (delay_len != No) ) { // delay is a vector
-
-      if (!((get_m(args, arg_num)==delay_len && get_n(args, arg_num)==1) || (get_m(args, arg_num)==1 && get_n(args, arg_num)==delay_len))) {
-        s << func_name <<  " requires that arg " << arg_num+1 << " (delay) must be a " << delay_len << " element vector";
-        s << " (with a length equal to the number of observation points) or a scalar!";
-      }
+    bool is_vector = (get_m(args, arg_num) == 1 || get_n(args, arg_num) == 1);
+    if ( (delay_len != 1) && ((delay_len != No) || !is_vector) ) {
+      s << func_name <<  " requires that arg " << arg_num+1 << " (delay) must be a " << No << " element vector";
+      s << " (with a length equal to the number of observation points) or a scalar!";
       dream_err_msg(s.str().c_str());
       retval=false;
     }
diff --git a/include/arg_parser_python.h b/include/arg_parser_python.h
index 70c1853..ff5e3cd 100644
--- a/include/arg_parser_python.h
+++ b/include/arg_parser_python.h
@@ -84,8 +84,7 @@ public:
     bool retval=true;
     std::ostringstream s;
 
-    py::buffer_info ro_info = py_ro->request();
-    auto ro_n = ro_info.shape[1];
+    auto ro_n = get_n(py_ro);
 
     if (ro_n != 3) {
       s << func_name <<  " requires that observation point arg must be a (number of observation points) x 3 matrix!";
@@ -100,8 +99,7 @@ public:
     bool retval=true;
     std::ostringstream s;
 
-    py::buffer_info G_info = py_G->request();
-    auto G_n = G_info.shape[1];
+    auto G_n = get_n(py_G);
 
     if ( G_n != 3 ) {
       s << func_name <<  " requires that array grid arg must be a (number of array elements) x 3 matrix!";
@@ -259,13 +257,10 @@ public:
     std::ostringstream s;
 
     dream_idx_type delay_len = get_m(py_focal)*get_n(py_focal);
-    if ( (delay_len > 1) && (delay_len != No) ) { // delay is a vector
-
-      if (!((get_m(py_focal) == delay_len && get_n(py_focal) == 1) ||
-            (get_m(py_focal) == 1 && get_n(py_focal) == delay_len))) {
-        s << func_name <<  " requires that delay arg must be a " << delay_len << " element vector";
-        s << " (with a length equal to the number of observation points) or a scalar!";
-      }
+    bool is_vector = (get_m(py_focal) == 1 || get_n(py_focal) == 1);
+    if ( (delay_len != 1) && ((delay_len != No) || !is_vector) ) {
+      s << func_name <<  " requires that delay arg must be a " << No << " element vector";
+      s << " (with a length equal to the number of observation points) or a scalar!";
       dream_err_msg(s.str().c_str());
       retval=false;
     }
@@ -592,24 +587,27 @@ public:
 
   dream_idx_type get_m(const py::array_t<T,py::array::f_style> *py_arg) {
     py::buffer_info py_arg_info = py_arg->request();
-    auto m = py_arg_info.shape[0];
 
-    return (dream_idx_type) m;
+    if (py_arg_info.ndim > 2) {
+      throw std::runtime_error("Arguments must be scalars, vectors, or matrices!");
+    }
+
+    return (dream_idx_type) (py_arg_info.ndim > 0 ? py_arg_info.shape[0] : 1);
   };
 
   dream_idx_type get_n(const py::array_t<T,py::array::f_style> *py_arg) {
     py::buffer_info py_arg_info = py_arg->request();
-    auto n = py_arg_info.shape[1];
 
-    return (dream_idx_type) n;
+    if (py_arg_info.ndim > 2) {
+      throw std::runtime_error("Arguments must be scalars, vectors, or matrices!");
+    }
+
+    return (dream_idx_type) (py_arg_info.ndim > 1 ? py_arg_info.shape[1] : 1); // A 1-D array is a column vector.
   };
 
   // Assume vector here. We do not care it is a row or column vector.
   dream_idx_type get_len(const py::array_t<T,py::array::f_style> *py_arg) {
-    py::buffer_info py_arg_info = py_arg->request();
-    auto len = py_arg_info.shape[0] * py_arg_info.shape[1];
-
-    return (dream_idx_type) len;
+    return get_m(py_arg) * get_n(py_arg);
   };
 
   T* get_data(const py::array_t<T,py::array::f_style> *py_arg) {
diff --git a/python/src/py_dream_arr_annu.cc b/python/src/py_dream_arr_annu.cc
index f229c40..f632554 100644
--- a/python/src/py_dream_arr_annu.cc
+++ b/python/src/py_dream_arr_annu.cc
@@ -75,8 +75,8 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
   }
 
   py::buffer_info G_info = py_G->request();
-  auto G_m = G_info.shape[0];
-  auto G_n = G_info.shape[1];
+  auto G_m = ap.get_m(py_G);
+  auto G_n = ap.get_n(py_G);
   double *G = static_cast<double*>(G_info.ptr);
 
   dream_idx_type num_radii = (dream_idx_type) G_m*G_n;
@@ -101,8 +101,8 @@ py::array_t<double,py::array::f_style> py_dream_arr_annu(py::array_t<double,py::
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dream_arr_circ.cc b/python/src/py_dream_arr_circ.cc
index bae83e5..9df1f89 100644
--- a/python/src/py_dream_arr_circ.cc
+++ b/python/src/py_dream_arr_circ.cc
@@ -112,8 +112,8 @@ py::array_t<double,py::array::f_style> py_dream_arr_circ(py::array_t<double,py::
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dream_arr_cylind.cc b/python/src/py_dream_arr_cylind.cc
index 610aa45..57ba8a6 100644
--- a/python/src/py_dream_arr_cylind.cc
+++ b/python/src/py_dream_arr_cylind.cc
@@ -116,8 +116,8 @@ py::array_t<double,py::array::f_style> py_dream_arr_cylind(py::array_t<double,py
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dream_arr_rect.cc b/python/src/py_dream_arr_rect.cc
index fb8b4c3..4c56bf5 100644
--- a/python/src/py_dream_arr_rect.cc
+++ b/python/src/py_dream_arr_rect.cc
@@ -112,8 +112,8 @@ py::array_t<double,py::array::f_style> py_dream_arr_rect(py::array_t<double,py::
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dreamcirc.cc b/python/src/py_dreamcirc.cc
index 81bb511..ad0c2e0 100644
--- a/python/src/py_dreamcirc.cc
+++ b/python/src/py_dreamcirc.cc
@@ -90,8 +90,8 @@ py::array_t<double,py::array::f_style> py_dreamcirc(py::array_t<double,py::array
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dreamcirc_f.cc b/python/src/py_dreamcirc_f.cc
index f403dbf..b05bf7d 100644
--- a/python/src/py_dreamcirc_f.cc
+++ b/python/src/py_dreamcirc_f.cc
@@ -92,8 +92,8 @@ py::array_t<double,py::array::f_style> py_dreamcirc_f(py::array_t<double,py::arr
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dreamcylind.cc b/python/src/py_dreamcylind.cc
index 39ad338..7c7bb12 100644
--- a/python/src/py_dreamcylind.cc
+++ b/python/src/py_dreamcylind.cc
@@ -94,8 +94,8 @@ py::array_t<double,py::array::f_style> py_dreamcylind(py::array_t<double,py::arr
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dreamline.cc b/python/src/py_dreamline.cc
index f8587e8..6c2a976 100644
--- a/python/src/py_dreamline.cc
+++ b/python/src/py_dreamline.cc
@@ -90,8 +90,8 @@ py::array_t<double,py::array::f_style> py_dreamline(py::array_t<double,py::array
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dreamrect.cc b/python/src/py_dreamrect.cc
index c65ccb4..faa75cf 100644
--- a/python/src/py_dreamrect.cc
+++ b/python/src/py_dreamrect.cc
@@ -90,8 +90,8 @@ py::array_t<double,py::array::f_style> py_dreamrect(py::array_t<double,py::array
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dreamrect_f.cc b/python/src/py_dreamrect_f.cc
index e56cc8c..0ccd898 100644
--- a/python/src/py_dreamrect_f.cc
+++ b/python/src/py_dreamrect_f.cc
@@ -92,8 +92,8 @@ py::array_t<double,py::array::f_style> py_dreamrect_f(py::array_t<double,py::arr
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
diff --git a/python/src/py_dreamsphere.cc b/python/src/py_dreamsphere.cc
index 0e348fc..dda0604 100644
--- a/python/src/py_dreamsphere.cc
+++ b/python/src/py_dreamsphere.cc
@@ -90,8 +90,8 @@ py::array_t<double,py::array::f_style> py_dreamsphere(py::array_t<double,py::arr
   }
 
   py::buffer_info delay_info = py_delay->request();
-  auto delay_m = delay_info.shape[0];
-  auto delay_n = delay_info.shape[1];
+  auto delay_m = ap.get_m(py_delay);
+  auto delay_n = ap.get_n(py_delay);
   double *delay = static_cast<double*>(delay_info.ptr);
 
   DelayType delay_type = DelayType::single; // delay is a scalar.
-- 
2.43.0


From c77cf31fd94d6987843b6f70232de310604c86d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:13 +0000
Subject: [PATCH 11/52] fix: report a wrong length of user defined focusing
 delays and apodization weights

---
 include/arg_parser.h        | 2 ++
 include/arg_parser_python.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/arg_parser.h b/include/arg_parser.h
index f229b18..8125976 100644
--- a/include/arg_parser.h
+++ b/include/arg_parser.h
@@ -510,6 +510,7 @@ public:
         // Vector of apodization weights.
         if (get_m(args, arg_num+1) * get_n(args, arg_num+1) != num_elements) {
           s << func_name <<  " the length of argument arg " << arg_num+1 << " (apodization vector) must be the same as the number of array elements!";
+          dream_err_msg(s.str().c_str());
           retval=false;
         } else { // Copy the user defined apodization weights.
           double *tmp_apod = get_data(args, arg_num+1);
@@ -517,6 +518,7 @@ public:
             std::memcpy(apod, tmp_apod, num_elements*sizeof(double));
           } else {
             s << func_name << " apodization vector not initialzed!";
+            dream_err_msg(s.str().c_str());
             retval=false;
           }
         }
diff --git a/include/arg_parser_python.h b/include/arg_parser_python.h
index ff5e3cd..d02c952 100644
--- a/include/arg_parser_python.h
+++ b/include/arg_parser_python.h
@@ -349,6 +349,7 @@ public:
       if (get_m(py_focal) * get_n(py_focal) != num_elements) {
         s << func_name <<  " the time delay vector arg for user defined ('ud') focusing\n!";
         s << "delays must have the same length as the number of array elements!";
+        dream_err_msg(s.str().c_str());
         retval=false;
       } else { // Copy the user defined apodization weights.
         T *tmp_focal = get_data(py_focal);
@@ -501,6 +502,7 @@ public:
       // Vector of apodization weights.
       if (get_m(py_apod) * get_n(py_apod) != num_elements) {
         s << func_name <<  " the length of apodization vector argument must be the same as the number of array elements!";
+        dream_err_msg(s.str().c_str());
         retval=false;
       } else { // Copy the user defined apodization weights.
         T *tmp_apod = get_data(py_apod);
-- 
2.43.0


From edf85656a6c00950a46a83d7361ee02d8c3c61b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:28 +0000
Subject: [PATCH 12/52] fix: octave: ArgParser::get_data returned a pointer to
 freed memory for scalars, ranges, and converted arguments

---
 include/arg_parser.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/include/arg_parser.h b/include/arg_parser.h
index 8125976..59b3d20 100644
--- a/include/arg_parser.h
+++ b/include/arg_parser.h
@@ -24,6 +24,7 @@
 
 #pragma once
 
+#include <list>
 #include <sstream>
 #include <cstring>
 #include <cstdarg>
@@ -604,8 +605,10 @@ public:
   };
 
   double* get_data(const args_t args, dream_idx_type arg_num) {
-    const Matrix tmp_mat = args(arg_num).matrix_value();
-    return (double*) tmp_mat.data();
+    // Keep the matrix, which is a temporary object if arg is a scalar, a range, or is
+    // converted from another type, as long as the pointer to its data is used.
+    m_mats.push_back(args(arg_num).matrix_value());
+    return (double*) m_mats.back().data();
   };
 
   double get_scalar(const args_t args, dream_idx_type arg_num) {
@@ -657,4 +660,10 @@ public:
     return s.str();
   };
 #endif
+
+#ifdef DREAM_OCTAVE
+ private:
+
+  std::list<Matrix> m_mats;
+#endif
 };
-- 
2.43.0


From 4de4e4f4ff8135d0330822767024220c21085e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 13/52] fix: octave das: data pointers (eg. a scalar delay)
 pointed to freed memory

---
 extra_src/oct_das.cc | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 14df65a..21e4fbb 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -195,6 +195,10 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
     }
   }
 
+  // The input matrices must stay in scope while their data pointers are used.
+  FloatMatrix tmp0f, tmp1f, tmp2f, tmp3f, tmp4f, tmp5f, tmp6f;
+  Matrix tmp0d, tmp1d, tmp2d, tmp3d, tmp4d, tmp5d, tmp6d;
+
   //
   // Data
   //
@@ -205,10 +209,10 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   double *Yd = nullptr;
 
   if (use_float) {
-    const FloatMatrix tmp0f= args(0).float_matrix_value();
+    tmp0f = args(0).float_matrix_value();
     Yf = (float*) tmp0f.data();
   } else {
-    const Matrix tmp0d = args(0).matrix_value();
+    tmp0d = args(0).matrix_value();
     Yd = (double*) tmp0d.data();
   }
 
@@ -227,10 +231,10 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   const double *Gt_d=nullptr;
 
   if (use_float) {
-    const FloatMatrix tmp1f = args(1).float_matrix_value();
+    tmp1f = args(1).float_matrix_value();
     Gt_f = tmp1f.data();
   } else {
-    const Matrix tmp1d = args(1).matrix_value();
+    tmp1d = args(1).matrix_value();
     Gt_d = tmp1d.data();
   }
 
@@ -252,10 +256,10 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
     num_r_elements = mxGetM(2);
 
     if (use_float) {
-      const FloatMatrix tmp2f = args(2).float_matrix_value();
+      tmp2f = args(2).float_matrix_value();
       Gr_f = tmp2f.data();
     } else {
-      const Matrix tmp2d = args(2).matrix_value();
+      tmp2d = args(2).matrix_value();
       Gr_d = tmp2d.data();
     }
 
@@ -277,10 +281,10 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   const double *Ro_d = nullptr;
 
   if (use_float) {
-    const FloatMatrix tmp3f= args(3).float_matrix_value();
+    tmp3f = args(3).float_matrix_value();
     Ro_f = tmp3f.data();
   } else {
-    const Matrix tmp3d = args(3).matrix_value();
+    tmp3d = args(3).matrix_value();
     Ro_d = tmp3d.data();
   }
 
@@ -297,11 +301,11 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   double dt_d = 0.0;
 
   if (use_float) {
-    const FloatMatrix tmp4f= args(4).float_matrix_value();
+    tmp4f = args(4).float_matrix_value();
     const float *s_par_f = tmp4f.data();
     dt_f = s_par_f[0];
   } else {
-    const Matrix tmp4d = args(4).matrix_value();
+    tmp4d = args(4).matrix_value();
     const double *s_par_d = (double*) tmp4d.data();
     dt_d = s_par_d[0];
   }
@@ -323,10 +327,10 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   const double *delay_d = nullptr;
 
   if (use_float) {
-    const FloatMatrix tmp5f = args(5).float_matrix_value();
+    tmp5f = args(5).float_matrix_value();
     delay_f = tmp5f.data();
   } else {
-    const Matrix tmp5d = args(5).matrix_value();
+    tmp5d = args(5).matrix_value();
     delay_d = tmp5d.data();
   }
 
@@ -345,11 +349,11 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   double cp_d = 0.0;
 
   if (use_float) {
-    const FloatMatrix tmp6f = args(6).float_matrix_value();
+    tmp6f = args(6).float_matrix_value();
     const float *m_par_f = tmp6f.data();
     cp_f = m_par_f[0];
   } else {
-    const Matrix tmp6d = args(6).matrix_value();
+    tmp6d = args(6).matrix_value();
     const double *m_par_d = (double*) tmp6d.data();
     cp_d = m_par_d[0];
   }
-- 
2.43.0


From d25c5eda6e69fdc8aaffb6539fcd01449e807ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 14/52] fix: octave das_uni: data pointers (eg. a scalar delay)
 pointed to freed memory

---
 extra_src/oct_das_uni.cc | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/extra_src/oct_das_uni.cc b/extra_src/oct_das_uni.cc
index f851617..943aa64 100644
--- a/extra_src/oct_das_uni.cc
+++ b/extra_src/oct_das_uni.cc
@@ -173,6 +173,10 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
     }
   }
 
+  // The input matrices must stay in scope while their data pointers are used.
+  FloatMatrix tmp0f, tmp1f, tmp2f, tmp3f, tmp4f, tmp5f, tmp6f;
+  Matrix tmp0d, tmp1d, tmp2d, tmp3d, tmp4d, tmp5d, tmp6d;
+
   //
   // Data
   //
@@ -183,10 +187,10 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
   const double *Yd = nullptr;
 
   if (use_float) {
-    const FloatMatrix tmp0f= args(0).float_matrix_value();
+    tmp0f = args(0).float_matrix_value();
     Yf = (float*) tmp0f.data();
   } else {
-    const Matrix tmp0d = args(0).matrix_value();
+    tmp0d = args(0).matrix_value();
     Yd = (double*) tmp0d.data();
   }
 
@@ -208,12 +212,12 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
   double max_t_d = 0.0;
 
   if (use_float) {
-    const FloatMatrix tmp1f = args(1).float_matrix_value();
+    tmp1f = args(1).float_matrix_value();
     min_t_f = tmp1f.data()[0];
     pitch_t_f = tmp1f.data()[1];
     max_t_f = tmp1f.data()[2];
   } else {
-    const Matrix tmp1d = args(1).matrix_value();
+    tmp1d = args(1).matrix_value();
     min_t_d = tmp1d.data()[0];
     pitch_t_d = tmp1d.data()[1];
     max_t_d = tmp1d.data()[2];
@@ -239,12 +243,12 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
     }
 
     if (use_float) {
-      const FloatMatrix tmp2f = args(2).float_matrix_value();
+      tmp2f = args(2).float_matrix_value();
       min_r_f = tmp2f.data()[0];
       pitch_r_f = tmp2f.data()[1];
       max_r_f = tmp2f.data()[2];
     } else {
-      const Matrix tmp2d = args(2).matrix_value();
+      tmp2d = args(2).matrix_value();
       min_r_d = tmp2d.data()[0];
       pitch_r_d = tmp2d.data()[1];
       max_r_d = tmp2d.data()[2];
@@ -273,7 +277,7 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
   double min_Rz_d=0.0, dz_d=0.0, max_Rz_d=0.0;
 
   if (use_float) {
-    const FloatMatrix tmp3f= args(3).float_matrix_value();
+    tmp3f = args(3).float_matrix_value();
     min_Rx_f=tmp3f.data()[0]; dx_f=tmp3f.data()[3]; max_Rx_f=tmp3f.data()[6];
     min_Ry_f=tmp3f.data()[1]; dy_f=tmp3f.data()[4]; max_Ry_f=tmp3f.data()[7];
     min_Rz_f=tmp3f.data()[2]; dz_f=tmp3f.data()[5]; max_Rz_f=tmp3f.data()[8];
@@ -281,7 +285,7 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
     Ny = (dream_idx_type) ((max_Ry_f - min_Ry_f)/dy_f+1.0);
     Nz = (dream_idx_type) ((max_Rz_f - min_Rz_f)/dz_f+1.0);
   } else {
-    const Matrix tmp3d = args(3).matrix_value();
+    tmp3d = args(3).matrix_value();
     min_Rx_d=tmp3d.data()[0]; dx_d=tmp3d.data()[3]; max_Rx_d=tmp3d.data()[6];
     min_Ry_d=tmp3d.data()[1]; dy_d=tmp3d.data()[4]; max_Ry_d=tmp3d.data()[7];
     min_Rz_d=tmp3d.data()[2]; dz_d=tmp3d.data()[5]; max_Rz_d=tmp3d.data()[8];
@@ -305,11 +309,11 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
   double dt_d = 0.0;
 
   if (use_float) {
-    const FloatMatrix tmp4f= args(4).float_matrix_value();
+    tmp4f = args(4).float_matrix_value();
     const float *s_par_f = tmp4f.data();
     dt_f = s_par_f[0];
   } else {
-    const Matrix tmp4d = args(4).matrix_value();
+    tmp4d = args(4).matrix_value();
     const double *s_par_d = (double*) tmp4d.data();
     dt_d = s_par_d[0];
   }
@@ -326,10 +330,10 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
   const double *delay_d = nullptr;
 
   if (use_float) {
-    const FloatMatrix tmp5f = args(5).float_matrix_value();
+    tmp5f = args(5).float_matrix_value();
     delay_f = tmp5f.data();
   } else {
-    const Matrix tmp5d = args(5).matrix_value();
+    tmp5d = args(5).matrix_value();
     delay_d = tmp5d.data();
   }
 
@@ -349,11 +353,11 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
   double cp_d = 0.0;
 
   if (use_float) {
-    const FloatMatrix tmp6f = args(6).float_matrix_value();
+    tmp6f = args(6).float_matrix_value();
     const float *m_par_f = tmp6f.data();
     cp_f = m_par_f[0];
   } else {
-    const Matrix tmp6d = args(6).matrix_value();
+    tmp6d = args(6).matrix_value();
     const double *m_par_d = (double*) tmp6d.data();
     cp_d = m_par_d[0];
   }
-- 
2.43.0


From d40c90ea6e7a2fcd267a53ed49dd04fcddafb3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:55 +0000
Subject: [PATCH 15/52] fix: das rca: stripe edges used the number of columns
 for the rows and vice versa

---
 extra_src/das.cc     | 12 ++++++------
 opencl/das_double.cl | 12 ++++++------
 opencl/das_float.cl  | 12 ++++++------
 3 files changed, 18 insertions(+), 18 deletions(-)

diff --git a/extra_src/das.cc b/extra_src/das.cc
index ad0cc05..09e01a5 100644
--- a/extra_src/das.cc
+++ b/extra_src/das.cc
@@ -462,10 +462,10 @@ SIRError DAS<T>::das_rca_serial_coltx(const T *Y, // Size: a_scan_len x num_cols
   //   (y-dim edge positions).
 
   // Element (stripe) lengths
-  T gc_y_min = G_row[0 + 1*num_cols];
-  T gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  T gc_y_min = G_row[0 + 1*num_rows];
+  T gc_y_max = G_row[num_rows-1 + 1*num_rows];
   T gr_x_min = G_col[0];
-  T gr_x_max = G_col[num_rows-1];
+  T gr_x_max = G_col[num_cols-1];
 
   im = 0.0;
   const T *y_p = Y;
@@ -558,10 +558,10 @@ SIRError DAS<T>::das_rca_serial_rowtx(const T *Y, // Size: a_scan_len x num_cols
   //   (y-dim edge positions).
 
   // Element (stripe) lengths
-  T gc_y_min = G_row[0 + 1*num_cols];
-  T gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  T gc_y_min = G_row[0 + 1*num_rows];
+  T gc_y_max = G_row[num_rows-1 + 1*num_rows];
   T gr_x_min = G_col[0];
-  T gr_x_max = G_col[num_rows-1];
+  T gr_x_max = G_col[num_cols-1];
 
   im = 0.0;
   const T *y_p = Y;
diff --git a/opencl/das_double.cl b/opencl/das_double.cl
index 825ebf4..b7daf59 100644
--- a/opencl/das_double.cl
+++ b/opencl/das_double.cl
@@ -127,10 +127,10 @@ __kernel void das_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
   const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
 
   // Element (stripe) lengths
-  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_cols];
-  const DAS_DATATYPE gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
+  const DAS_DATATYPE gc_y_max = G_row[num_rows-1 + 1*num_rows];
   const DAS_DATATYPE gr_x_min = G_col[0];
-  const DAS_DATATYPE gr_x_max = G_col[num_rows-1];
+  const DAS_DATATYPE gr_x_max = G_col[num_cols-1];
 
   // Work on local data.
   DAS_DATATYPE im = 0.0;
@@ -207,10 +207,10 @@ __kernel void das_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
   const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
 
   // Element (stripe) lengths
-  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_cols];
-  const DAS_DATATYPE gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
+  const DAS_DATATYPE gc_y_max = G_row[num_rows-1 + 1*num_rows];
   const DAS_DATATYPE gr_x_min = G_col[0];
-  const DAS_DATATYPE gr_x_max = G_col[num_rows-1];
+  const DAS_DATATYPE gr_x_max = G_col[num_cols-1];
 
   // Work on local data.
   DAS_DATATYPE im = 0.0;
diff --git a/opencl/das_float.cl b/opencl/das_float.cl
index c525101..3fc582c 100644
--- a/opencl/das_float.cl
+++ b/opencl/das_float.cl
@@ -128,10 +128,10 @@ __kernel void das_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
   const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
 
   // Element (stripe) lengths
-  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_cols];
-  const DAS_DATATYPE gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
+  const DAS_DATATYPE gc_y_max = G_row[num_rows-1 + 1*num_rows];
   const DAS_DATATYPE gr_x_min = G_col[0];
-  const DAS_DATATYPE gr_x_max = G_col[num_rows-1];
+  const DAS_DATATYPE gr_x_max = G_col[num_cols-1];
 
   // Work on local data.
   DAS_DATATYPE im = F_SFX(0.0);
@@ -208,10 +208,10 @@ __kernel void das_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
   const DAS_DATATYPE delay_ms = (DAS_DATATYPE) delay/1000.0;
 
   // Element (stripe) lengths
-  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_cols];
-  const DAS_DATATYPE gc_y_max = G_row[num_cols-1 + 1*num_cols];
+  const DAS_DATATYPE gc_y_min = G_row[0 + 1*num_rows];
+  const DAS_DATATYPE gc_y_max = G_row[num_rows-1 + 1*num_rows];
   const DAS_DATATYPE gr_x_min = G_col[0];
-  const DAS_DATATYPE gr_x_max = G_col[num_rows-1];
+  const DAS_DATATYPE gr_x_max = G_col[num_cols-1];
 
   // Work on local data.
   DAS_DATATYPE im = F_SFX(0.0);
-- 
2.43.0


From 41fb7ba14657ceb3aa6dfeef8829a3a8cbdb46e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 16/52] fix: python: the documented optional err_level argument
 (and device and verbose in das) had no default

---
 python/src/py_das.cc              | 12 ++++++------
 python/src/py_dream_arr_annu.cc   |  2 +-
 python/src/py_dream_arr_circ.cc   |  2 +-
 python/src/py_dream_arr_cylind.cc |  2 +-
 python/src/py_dream_arr_rect.cc   |  2 +-
 python/src/py_dreamcirc.cc        |  2 +-
 python/src/py_dreamcirc_f.cc      |  2 +-
 python/src/py_dreamcylind.cc      |  2 +-
 python/src/py_dreamline.cc        |  2 +-
 python/src/py_dreamrect.cc        |  2 +-
 python/src/py_dreamrect_f.cc      |  2 +-
 python/src/py_dreamsphere.cc      |  2 +-
 12 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/python/src/py_das.cc b/python/src/py_das.cc
index 3c23496..ad58dd4 100644
--- a/python/src/py_das.cc
+++ b/python/src/py_das.cc
@@ -56,9 +56,9 @@ Copyright 2006-2025 Fredrik Lingvall.";
         py::arg("delay"),
         py::arg("cp"),
         py::arg("method"),
-        py::arg("err_level"),
-        py::arg("device"),
-        py::arg("verbose"));
+        py::arg("err_level") = "stop",
+        py::arg("device") = "cpu",
+        py::arg("verbose") = "");
 }
 
 #else
@@ -82,8 +82,8 @@ Copyright 2006-2025 Fredrik Lingvall.";
         py::arg("delay"),
         py::arg("cp"),
         py::arg("method"),
-        py::arg("err_level"),
-        py::arg("device"),
-        py::arg("vebose"));
+        py::arg("err_level") = "stop",
+        py::arg("device") = "cpu",
+        py::arg("verbose") = "");
 }
 #endif
diff --git a/python/src/py_dream_arr_annu.cc b/python/src/py_dream_arr_annu.cc
index f632554..1771b1c 100644
--- a/python/src/py_dream_arr_annu.cc
+++ b/python/src/py_dream_arr_annu.cc
@@ -315,7 +315,7 @@ Copyright 2006-2023 Fredrik Lingvall.";
         py::arg("apod_met"),
         py::arg("apod"),
         py::arg("win_par"),
-        py::arg("err_level"));
+        py::arg("err_level") = "stop");
 
   //py::arg("H"),
   //py::arg("err"),
diff --git a/python/src/py_dream_arr_circ.cc b/python/src/py_dream_arr_circ.cc
index 9df1f89..9975bea 100644
--- a/python/src/py_dream_arr_circ.cc
+++ b/python/src/py_dream_arr_circ.cc
@@ -358,7 +358,7 @@ Copyright 2006-2023 Fredrik Lingvall.";
         py::arg("apod_met"),
         py::arg("apod"),
         py::arg("win_par"),
-        py::arg("err_level"));
+        py::arg("err_level") = "stop");
 
   //py::arg("H"),
   //py::arg("err"),
diff --git a/python/src/py_dream_arr_cylind.cc b/python/src/py_dream_arr_cylind.cc
index 57ba8a6..7c0a523 100644
--- a/python/src/py_dream_arr_cylind.cc
+++ b/python/src/py_dream_arr_cylind.cc
@@ -366,7 +366,7 @@ Copyright 2006-2023 Fredrik Lingvall.";
         py::arg("apod_met"),
         py::arg("apod"),
         py::arg("win_par"),
-        py::arg("err_level"));
+        py::arg("err_level") = "stop");
 
   //py::arg("H"),
   //py::arg("err"),
diff --git a/python/src/py_dream_arr_rect.cc b/python/src/py_dream_arr_rect.cc
index 4c56bf5..e1082a0 100644
--- a/python/src/py_dream_arr_rect.cc
+++ b/python/src/py_dream_arr_rect.cc
@@ -360,7 +360,7 @@ Copyright 2006-2023 Fredrik Lingvall.";
         py::arg("apod_met"),
         py::arg("apod"),
         py::arg("win_par"),
-        py::arg("err_level"));
+        py::arg("err_level") = "stop");
 
   //py::arg("H"),
   //py::arg("err"),
diff --git a/python/src/py_dreamcirc.cc b/python/src/py_dreamcirc.cc
index ad0c2e0..aece29d 100644
--- a/python/src/py_dreamcirc.cc
+++ b/python/src/py_dreamcirc.cc
@@ -232,5 +232,5 @@ Copyright 2006-2023 Fredrik Lingvall.";
         py::arg("s_par"),
         py::arg("delay"),
         py::arg("m_par"),
-        py::arg("err_level"));
+        py::arg("err_level") = "stop");
 }
diff --git a/python/src/py_dreamcirc_f.cc b/python/src/py_dreamcirc_f.cc
index b05bf7d..af7f5ac 100644
--- a/python/src/py_dreamcirc_f.cc
+++ b/python/src/py_dreamcirc_f.cc
@@ -255,5 +255,5 @@ Copyright 2006-2023 Fredrik Lingvall.";
         py::arg("m_par"),
         py::arg("foc_met"),
         py::arg("focal"),
-        py::arg("err_level"));
+        py::arg("err_level") = "stop");
 }
diff --git a/python/src/py_dreamcylind.cc b/python/src/py_dreamcylind.cc
index 7c7bb12..54e4701 100644
--- a/python/src/py_dreamcylind.cc
+++ b/python/src/py_dreamcylind.cc
@@ -239,5 +239,5 @@ Copyright 2006-2023 Fredrik Lingvall.";
         py::arg("s_par"),
         py::arg("delay"),
         py::arg("m_par"),
-        py::arg("err_level"));
+        py::arg("err_level") = "stop");
 }
diff --git a/python/src/py_dreamline.cc b/python/src/py_dreamline.cc
index 6c2a976..c365e7e 100644
--- a/python/src/py_dreamline.cc
+++ b/python/src/py_dreamline.cc
@@ -232,5 +232,5 @@ Copyright 2006-2023 Fredrik Lingvall.";
         py::arg("s_par"),
         py::arg("delay"),
         py::arg("m_par"),
-        py::arg("err_level"));
+        py::arg("err_level") = "stop");
 }
diff --git a/python/src/py_dreamrect.cc b/python/src/py_dreamrect.cc
index faa75cf..29e5ad8 100644
--- a/python/src/py_dreamrect.cc
+++ b/python/src/py_dreamrect.cc
@@ -234,5 +234,5 @@ Copyright 2006-2023 Fredrik Lingvall.";
         py::arg("s_par"),
         py::arg("delay"),
         py::arg("m_par"),
-        py::arg("err_level"));
+        py::arg("err_level") = "stop");
 }
diff --git a/python/src/py_dreamrect_f.cc b/python/src/py_dreamrect_f.cc
index 0ccd898..58d27c5 100644
--- a/python/src/py_dreamrect_f.cc
+++ b/python/src/py_dreamrect_f.cc
@@ -257,5 +257,5 @@ Copyright 2006-2023 Fredrik Lingvall.";
         py::arg("m_par"),
         py::arg("foc_met"),
         py::arg("focal"),
-        py::arg("err_level"));
+        py::arg("err_level") = "stop");
 }
diff --git a/python/src/py_dreamsphere.cc b/python/src/py_dreamsphere.cc
index dda0604..cee297c 100644
--- a/python/src/py_dreamsphere.cc
+++ b/python/src/py_dreamsphere.cc
@@ -234,5 +234,5 @@ Copyright 2006-2023 Fredrik Lingvall.";
         py::arg("s_par"),
         py::arg("delay"),
         py::arg("m_par"),
-        py::arg("err_level"));
+        py::arg("err_level") = "stop");
 }
-- 
2.43.0


From be4d317fd86ad63f4fae241cbdbc0efe7290e5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:39 +0000
Subject: [PATCH 17/52] fix: python das: unknown compute devices were accepted
 and an out-of-bounds stop was reported as CTRL-C

---
 python/include/py_das.hpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/python/include/py_das.hpp b/python/include/py_das.hpp
index e0adcf1..c340d3f 100644
--- a/python/include/py_das.hpp
+++ b/python/include/py_das.hpp
@@ -144,7 +144,7 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
   // Compute device
   //
 
-  if (device_str != "cpu" && device_str == "gpu") {
+  if (device_str != "cpu" && device_str != "gpu") {
     throw std::runtime_error("Error in das - unkown compute device string!");
   }
 
@@ -228,12 +228,10 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
     err = das->das(Y, Ro, Gt, Gr, dt, delay_type, delay, cp, Im, err_level);
     if (!das->is_running()) {
       if (err == SIRError::out_of_bounds) {
-        dream_err_msg("DAS out-of-bounds!\n"); // Bail out.
+        throw std::runtime_error("DAS out-of-bounds!\n"); // Bail out.
       } else {
-        dream_err_msg("CTRL-C pressed!\n"); // Bail out.
+        throw std::runtime_error("CTRL-C pressed!\n"); // Bail out.
       }
-
-      throw std::runtime_error("CTRL-C pressed!\n"); // Bail out.
     }
 
 #ifdef USE_OPENCL
-- 
2.43.0


From 0e5591da2410034b55f691eedf0399bedda88d41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:58 +0000
Subject: [PATCH 18/52] fix: das: data with too few (or too many) columns was
 not rejected but read outside the matrix

---
 extra_src/oct_das.cc      | 11 +++++++++++
 python/include/py_das.hpp | 10 ++++++++++
 2 files changed, 21 insertions(+)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 21e4fbb..34adb93 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -367,6 +367,17 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  // One A-scan per transmit/receive element (SAFT) or per pair of transmit and receive elements.
+  dream_idx_type num_a_scans = num_t_elements;
+  if (das_type != DASType::saft && num_r_elements != 0) {
+    num_a_scans *= num_r_elements;
+  }
+
+  if (mxGetN(0) != num_a_scans) {
+    error("The number of columns of argument 1 (the number of A-scans) does not match the number of elements!");
+    return oct_retval;
+  }
+
   //
   // Error reporting.
   //
diff --git a/python/include/py_das.hpp b/python/include/py_das.hpp
index c340d3f..7f7d7b7 100644
--- a/python/include/py_das.hpp
+++ b/python/include/py_das.hpp
@@ -92,6 +92,16 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
     Gr = static_cast<T*>(ap.get_data(py_Gr));
   }
 
+  // One A-scan per transmit/receive element (SAFT) or per pair of transmit and receive elements.
+  dream_idx_type num_a_scans = num_t_elements;
+  if (num_r_elements != 0) {
+    num_a_scans *= num_r_elements;
+  }
+
+  if ((dream_idx_type) ap.get_n(py_Y) != num_a_scans) {
+    throw std::runtime_error("The number of columns of argument 1 (the number of A-scans) does not match the number of elements!");
+  }
+
   //
   // Observation point.
   //
-- 
2.43.0


From 5b5df9932bbf642a15ed65c2e019cb9daaa430a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:06 +0000
Subject: [PATCH 19/52] fix: octave das: the device argument was ignored with
 11 arguments, unknown devices and a failing device setup were not reported

---
 extra_src/oct_das.cc | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 34adb93..8a58d2a 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -398,7 +398,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
 
   std::string device;
 
-  if (nrhs == 10) {
+  if (nrhs >= 10) {
 
     if (!mxIsChar(9)) {
       error("Argument 10 must be a string");
@@ -406,6 +406,11 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
     }
 
     device = args(9).string_value();
+
+    if (device != "cpu" && device != "gpu") {
+      error("Argument 10 (the compute device) must be 'cpu' or 'gpu'!");
+      return oct_retval;
+    }
   }
 
   //
@@ -417,7 +422,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   if (nrhs == 11) {
 
     if (!mxIsChar(10)) {
-      error("Argument 10 must be a string");
+      error("Argument 11 must be a string");
       return oct_retval;
     }
 
@@ -474,7 +479,7 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
       }
 
       catch (std::runtime_error &std_err) {
-        std::cout << std_err.what();
+        error("%s", std_err.what());
         return oct_retval;
       }
     }
@@ -502,11 +507,11 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
       }
 
       try {
-        das_d = std::make_unique<DAS<double>>(das_type, a_scan_len, No, num_t_elements, num_r_elements, use_gpu);
+        das_d = std::make_unique<DAS<double>>(das_type, a_scan_len, No, num_t_elements, num_r_elements, use_gpu, verbose);
       }
 
       catch (std::runtime_error &std_err) {
-        std::cout << std_err.what();
+        error("%s", std_err.what());
         return oct_retval;
       }
     }
-- 
2.43.0


From 2b93273f0dd0864d3ae51696662bcf4291cf73c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 20/52] fix: rect_sir: wrong height of the fourth sub-rectangle
 for points inside the aperture's projection

---
 extra_src/rect_sir.cc | 2 +-
 opencl/rect_sir.cl    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra_src/rect_sir.cc b/extra_src/rect_sir.cc
index 5b78231..937e3d2 100644
--- a/extra_src/rect_sir.cc
+++ b/extra_src/rect_sir.cc
@@ -288,7 +288,7 @@ void RectSir::rect_sir_serial(double xo_i,
 
       case 4:
         s_k = fabs(a/2.0 - xo);
-        l_k = fabs(b/2.0 - yo);
+        l_k = fabs(yo + b/2.0);
         break;
 
       default:
diff --git a/opencl/rect_sir.cl b/opencl/rect_sir.cl
index 9428a22..fa79299 100644
--- a/opencl/rect_sir.cl
+++ b/opencl/rect_sir.cl
@@ -58,7 +58,7 @@ __kernel void rect_sir(__global const double *Ro,
 
       case 4:
         s_k = fabs(a/2.0 - xo);
-        l_k = fabs(b/2.0 - yo);
+        l_k = fabs(yo + b/2.0);
         break;
 
       default:
-- 
2.43.0


From f5dad7371a098510d9f6a792d0d8ee433c3ef8c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 21/52] fix: rect_sir: the normal velocity was ignored

---
 extra_src/rect_sir.cc | 2 +-
 opencl/rect_sir.cl    | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/extra_src/rect_sir.cc b/extra_src/rect_sir.cc
index 937e3d2..411e15f 100644
--- a/extra_src/rect_sir.cc
+++ b/extra_src/rect_sir.cc
@@ -415,7 +415,7 @@ void RectSir::rect_sir_serial(double xo_i,
       if ( (t >= tau_3) && (t <= tau_4) )
         a_k -= cp/(2*M_PI) * std::acos( l_k / (cp * std::sqrt(t*t - t_z*t_z)));
 
-      h[it] += g_k * a_k;
+      h[it] += v * g_k * a_k;
 
     } // for it
   } // for k
diff --git a/opencl/rect_sir.cl b/opencl/rect_sir.cl
index fa79299..2353149 100644
--- a/opencl/rect_sir.cl
+++ b/opencl/rect_sir.cl
@@ -189,7 +189,7 @@ __kernel void rect_sir(__global const double *Ro,
       }
 
       if (a_k > 0.0) {
-        h[it] += g_k * a_k; // This hits global memory
+        h[it] += v * g_k * a_k; // This hits global memory
       }
 
     } // for it
-- 
2.43.0


From 8db9dd71650e08b4749a105b2154f3fcf58285d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 22/52] fix: rect_sir, circ_sir: NaN for points on an edge and
 for arrivals that coincide with a sample

---
 extra_src/circ_sir.cc | 20 ++++++++++++++++++--
 extra_src/rect_sir.cc | 15 +++++++++++++--
 2 files changed, 31 insertions(+), 4 deletions(-)

diff --git a/extra_src/circ_sir.cc b/extra_src/circ_sir.cc
index cee1694..8e2a353 100644
--- a/extra_src/circ_sir.cc
+++ b/extra_src/circ_sir.cc
@@ -21,11 +21,27 @@
 *
 ***/
 
+#include <algorithm>
 #include <cmath>
 
 #include "circ_sir.h"
 #include "dream_error.h"
 
+// acos(x/y) where rounding errors must not make the argument larger than one
+// and where x = y = 0 at the first arrival for points on the edge.
+static double arc_angle(double x, double y)
+{
+  if (std::fabs(x) < y) {
+    return std::acos(x/y);
+  }
+
+  if (x == 0.0) {
+    return M_PI/2.0;
+  }
+
+  return (x < 0.0) ? M_PI : 0.0;
+}
+
 /***
  *
  *  Subroutine circ_sir - Continous spatial impulse response for a circular aperture.
@@ -77,7 +93,7 @@ void circ_sir(double xo_i,
         h[it] = v * cp;
       }
       else if ( (cp*t >= Rprim) && (cp*t < R) ) {
-        h[it] = v * cp/M_PI * std::acos( (cp*t*cp*t - zo*zo + r_cyl*r_cyl - r*r) / (2.0*r_cyl*std::sqrt(cp*t*cp*t-zo*zo)));
+        h[it] = v * cp/M_PI * arc_angle(cp*t*cp*t - zo*zo + r_cyl*r_cyl - r*r, 2.0*r_cyl*std::sqrt(std::max(cp*t*cp*t - zo*zo, 0.0)));
       }
       else if (cp*t >= R) {
         h[it] = 0.0;
@@ -90,7 +106,7 @@ void circ_sir(double xo_i,
         h[it] = 0.0;
       }
       else if ( (cp*t >= Rprim) && (cp*t < R) ) {
-        h[it] = v * cp/M_PI * std::acos( (cp*t*cp*t - zo*zo + r_cyl*r_cyl - r*r) / (2.0*r_cyl*std::sqrt(cp*t*cp*t-zo*zo)));
+        h[it] = v * cp/M_PI * arc_angle(cp*t*cp*t - zo*zo + r_cyl*r_cyl - r*r, 2.0*r_cyl*std::sqrt(std::max(cp*t*cp*t - zo*zo, 0.0)));
       }
       else if (cp*t >= R) {
         h[it] = 0.0;
diff --git a/extra_src/rect_sir.cc b/extra_src/rect_sir.cc
index 411e15f..f80dee3 100644
--- a/extra_src/rect_sir.cc
+++ b/extra_src/rect_sir.cc
@@ -21,6 +21,7 @@
 *
 ***/
 
+#include <algorithm>
 #include <cmath>
 #include <atomic>
 #include <iostream>
@@ -226,6 +227,12 @@ ErrorLevel RectSir::rect_sir(double *Ro, dream_idx_type No,
   return m_out_err;
 }
 
+// acos(d/r) where rounding errors must not make the argument larger than one.
+static double arc_angle(double d, double r)
+{
+  return (d < r) ? std::acos(d/r) : 0.0;
+}
+
 /***
  *
  *  Subroutine rect_sir - Continous spatial impulse response for a rectangular aperture.
@@ -394,6 +401,10 @@ void RectSir::rect_sir_serial(double xo_i,
       }
     } // if outside both  a/2 and b/2.
 
+    if (s_k <= 0.0 || l_k <= 0.0) {
+      continue;                 // An empty sub-rectangle (on an edge) has no contribution.
+    }
+
     t_z = zo / cp;
 
     tau_1 = t_z;
@@ -410,10 +421,10 @@ void RectSir::rect_sir_serial(double xo_i,
         a_k += cp/4;
 
       if ( (t >= tau_2) && (t <= tau_4) )
-        a_k -= cp/(2*M_PI) * std::acos( s_k / (cp * std::sqrt(t*t - t_z*t_z)));
+        a_k -= cp/(2*M_PI) * arc_angle(s_k, cp * std::sqrt(std::max(t*t - t_z*t_z, 0.0)));
 
       if ( (t >= tau_3) && (t <= tau_4) )
-        a_k -= cp/(2*M_PI) * std::acos( l_k / (cp * std::sqrt(t*t - t_z*t_z)));
+        a_k -= cp/(2*M_PI) * arc_angle(l_k, cp * std::sqrt(std::max(t*t - t_z*t_z, 0.0)));
 
       h[it] += v * g_k * a_k;
 
-- 
2.43.0


From e6134ff67f06106ff35ab1fcfce794e9dcc7c897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:28 +0000
Subject: [PATCH 23/52] fix: scirc_sir: a NaN at an interval end counted as
 zero angle for points on the edge

---
 extra_src/scirc_sir.cc | 40 +++++++++++++++-------------------------
 1 file changed, 15 insertions(+), 25 deletions(-)

diff --git a/extra_src/scirc_sir.cc b/extra_src/scirc_sir.cc
index 723e23d..c1cf68e 100644
--- a/extra_src/scirc_sir.cc
+++ b/extra_src/scirc_sir.cc
@@ -21,6 +21,7 @@
 *
 ***/
 
+#include <algorithm>
 #include <cmath>
 
 #include "scirc_sir.h"
@@ -29,7 +30,7 @@
 // Function prototypes.
 //
 
-double acos_acos(double c1,double c2);
+double acos_frac(double x, double y);
 double trapets_int(double t1, double t2, double zo, double r, double r_cyl, double cp,dream_idx_type int_len);
 
 /***
@@ -240,34 +241,21 @@ void scirc_sir(double xo_i,
 
 
 //
-// Function to avoid numrical problem for acos near +/- 1.
+// acos(x/y) where numerical problems for acos near +/- 1 are avoided,
+// and where x = y = 0 at the first arrival for points on the edge.
 //
 
-double acos_acos(double c1,double c2)
+double acos_frac(double x, double y)
 {
-  double ac1=0.0, ac2=0.0;
-
-  if (c1 >= -1.0 && c1 <= 1.0) {
-    ac1 = std::acos(c1);
-  }
-  else if (c1 < -1.0) {
-    ac1 = M_PI;
-  }
-  else if (c1 > 1.0) {
-    ac1 = 0.0;
+  if (std::fabs(x) < y) {
+    return std::acos(x/y);
   }
 
-  if (c2 >= -1.0 && c2 <= 1.0) {
-    ac2 = std::acos(c2);
-  }
-  else if (c2 < -1.0) {
-    ac2 = M_PI;
-  }
-  else if (c2 > 1.0) {
-    ac2 = 0.0;
+  if (x == 0.0) {
+    return M_PI/2.0;
   }
 
-  return ac1 + ac2;
+  return (x < 0.0) ? M_PI : 0.0;
 }
 
 //
@@ -284,10 +272,12 @@ double trapets_int(double t1, double t2, double zo, double r, double r_cyl, doub
   t = t1;
   for (n = 0; n < int_len; n++) {
 
-    c1 = (cp*t*cp*t - zo*zo + r_cyl*r_cyl - r*r) / (2*r_cyl*std::sqrt(cp*t*cp*t-zo*zo));
-    c2 = (cp*(t+dt)*cp*(t+dt) - zo*zo + r_cyl*r_cyl - r*r)  / (2*r_cyl*std::sqrt(cp*(t+dt)*cp*(t+dt)-zo*zo));
+    c1 = acos_frac(cp*t*cp*t - zo*zo + r_cyl*r_cyl - r*r,
+                   2*r_cyl*std::sqrt(std::max(cp*t*cp*t - zo*zo, 0.0)));
+    c2 = acos_frac(cp*(t+dt)*cp*(t+dt) - zo*zo + r_cyl*r_cyl - r*r,
+                   2*r_cyl*std::sqrt(std::max(cp*(t+dt)*cp*(t+dt) - zo*zo, 0.0)));
 
-    y += acos_acos(c1,c2)/2 * dt;
+    y += (c1 + c2)/2 * dt;
 
     t += dt;
   }
-- 
2.43.0


From c36559accecd1e7dec2da141521438a01c6baa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:03 +0000
Subject: [PATCH 24/52] fix: release the thread objects after every threaded
 computation

---
 extra_src/das.cc             | 2 ++
 extra_src/fftconv_p.cc       | 2 ++
 extra_src/oct_add_p.cc       | 2 ++
 extra_src/oct_circ_sir.cc    | 2 ++
 extra_src/oct_conv_p.cc      | 2 ++
 extra_src/oct_copy_p.cc      | 2 ++
 extra_src/oct_fftconv_ola.cc | 2 ++
 extra_src/oct_fftconv_p.cc   | 2 ++
 extra_src/oct_scirc_sir.cc   | 2 ++
 extra_src/oct_sum_fftconv.cc | 2 ++
 extra_src/rect_sir.cc        | 2 ++
 src/dream_arr_annu.cc        | 2 ++
 src/dream_arr_circ.cc        | 2 ++
 src/dream_arr_cylind.cc      | 2 ++
 src/dream_arr_rect.cc        | 2 ++
 src/dreamcirc.cc             | 2 ++
 src/dreamcirc_f.cc           | 2 ++
 src/dreamcylind.cc           | 2 ++
 src/dreamline.cc             | 2 ++
 src/dreamrect.cc             | 2 ++
 src/dreamrect_f.cc           | 2 ++
 src/dreamsphere.cc           | 2 ++
 22 files changed, 44 insertions(+)

diff --git a/extra_src/das.cc b/extra_src/das.cc
index 09e01a5..c844272 100644
--- a/extra_src/das.cc
+++ b/extra_src/das.cc
@@ -295,6 +295,8 @@ SIRError DAS<T>::das(const T *Y, const T *Ro, const T *Gt, const T *Gr,
     free((void*) D);
   }
 
+  delete[] threads;
+
   return err;
 }
 
diff --git a/extra_src/fftconv_p.cc b/extra_src/fftconv_p.cc
index 63603d8..9da0b29 100644
--- a/extra_src/fftconv_p.cc
+++ b/extra_src/fftconv_p.cc
@@ -391,6 +391,8 @@ ErrorLevel FFTConvP::run(double *Y,
     free((void*) D);
   }
 
+  delete[] threads;
+
   // FIXME: Return the FFTW Wisdom so that the plans can be re-used.
   /*
   if (return_wisdom) {
diff --git a/extra_src/oct_add_p.cc b/extra_src/oct_add_p.cc
index 9797265..d00a802 100644
--- a/extra_src/oct_add_p.cc
+++ b/extra_src/oct_add_p.cc
@@ -329,6 +329,8 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
   // Free memory.
   free((void*) D);
 
+  delete[] threads;
+
   if (!running) {
     error("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
diff --git a/extra_src/oct_circ_sir.cc b/extra_src/oct_circ_sir.cc
index 661ad62..9f8200a 100644
--- a/extra_src/oct_circ_sir.cc
+++ b/extra_src/oct_circ_sir.cc
@@ -394,6 +394,8 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   // Free memory.
   free((void*) D);
 
+  delete[] threads;
+
   if (!running) {
     error("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index 855fe07..3778ffc 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -374,6 +374,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     free((void*) D);
   }
 
+  delete[] threads;
+
   if (!running) {
     error("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
diff --git a/extra_src/oct_copy_p.cc b/extra_src/oct_copy_p.cc
index 3c7de8d..7bbfa1b 100644
--- a/extra_src/oct_copy_p.cc
+++ b/extra_src/oct_copy_p.cc
@@ -327,6 +327,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   // Free memory.
   free((void*) D);
 
+  delete[] threads;
+
   if (!running) {
     error("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 130a741..8220f90 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -672,6 +672,8 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     free((void*) D);
   }
 
+  delete[] threads;
+
   if (!running) {
     error("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index c618c38..b3f0881 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -560,6 +560,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     free((void*) D);
   }
 
+  delete[] threads;
+
   if (!running) {
     error("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
diff --git a/extra_src/oct_scirc_sir.cc b/extra_src/oct_scirc_sir.cc
index d141ce6..d5b2bbc 100644
--- a/extra_src/oct_scirc_sir.cc
+++ b/extra_src/oct_scirc_sir.cc
@@ -413,6 +413,8 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   // Free memory.
   free((void*) D);
 
+  delete[] threads;
+
   if (!running) {
     error("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 0480786..bbafc89 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -539,6 +539,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     free((void*) D);
   }
 
+  delete[] threads;
+
   if (!running) {
     error("CTRL-C pressed!\n"); // Bail out.
     return oct_retval;
diff --git a/extra_src/rect_sir.cc b/extra_src/rect_sir.cc
index f80dee3..6ecce56 100644
--- a/extra_src/rect_sir.cc
+++ b/extra_src/rect_sir.cc
@@ -224,6 +224,8 @@ ErrorLevel RectSir::rect_sir(double *Ro, dream_idx_type No,
     free((void*) D);
   }
 
+  delete[] threads;
+
   return m_out_err;
 }
 
diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index 9e11249..fb6b77d 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -644,5 +644,7 @@ SIRError ArrAnnu::dream_arr_annu(double alpha,
     free((void*) D);
   }
 
+  delete[] threads;
+
   return err;
 }
diff --git a/src/dream_arr_circ.cc b/src/dream_arr_circ.cc
index 5793ef1..f5b1866 100644
--- a/src/dream_arr_circ.cc
+++ b/src/dream_arr_circ.cc
@@ -434,5 +434,7 @@ SIRError ArrCirc::dream_arr_circ(double alpha,
   // Free memory.
   free((void*) D);
 
+  delete[] threads;
+
   return err;
 }
diff --git a/src/dream_arr_cylind.cc b/src/dream_arr_cylind.cc
index 9134e24..4719e55 100644
--- a/src/dream_arr_cylind.cc
+++ b/src/dream_arr_cylind.cc
@@ -444,5 +444,7 @@ SIRError ArrCylind::dream_arr_cylind(double alpha,
     free((void*) D);
   }
 
+  delete[] threads;
+
   return  err;
 }
diff --git a/src/dream_arr_rect.cc b/src/dream_arr_rect.cc
index 979be88..7a942eb 100644
--- a/src/dream_arr_rect.cc
+++ b/src/dream_arr_rect.cc
@@ -440,5 +440,7 @@ SIRError ArrRect::dream_arr_rect(double alpha,
     free((void*) D);
   }
 
+  delete[] threads;
+
   return err;
 }
diff --git a/src/dreamcirc.cc b/src/dreamcirc.cc
index 35609a0..56e3a61 100644
--- a/src/dreamcirc.cc
+++ b/src/dreamcirc.cc
@@ -272,6 +272,8 @@ SIRError Circ::dreamcirc(double alpha,
     free((void*) D);
   }
 
+  delete[] threads;
+
   return err;
 }
 
diff --git a/src/dreamcirc_f.cc b/src/dreamcirc_f.cc
index 82d1130..b609c88 100644
--- a/src/dreamcirc_f.cc
+++ b/src/dreamcirc_f.cc
@@ -273,6 +273,8 @@ SIRError Circ_f::dreamcirc_f(double alpha,
     free((void*) D);
   }
 
+  delete[] threads;
+
   return err;
 }
 
diff --git a/src/dreamcylind.cc b/src/dreamcylind.cc
index 949fbec..a3db5e8 100644
--- a/src/dreamcylind.cc
+++ b/src/dreamcylind.cc
@@ -270,6 +270,8 @@ SIRError Cylind::dreamcylind(double alpha,
     free((void*) D);
   }
 
+  delete[] threads;
+
   return err;
 }
 
diff --git a/src/dreamline.cc b/src/dreamline.cc
index b718316..eeeecde 100644
--- a/src/dreamline.cc
+++ b/src/dreamline.cc
@@ -257,6 +257,8 @@ SIRError Line::dreamline(double alpha,
     free((void*) D);
   }
 
+  delete[] threads;
+
   return err;
 }
 
diff --git a/src/dreamrect.cc b/src/dreamrect.cc
index e292ed3..2a5dd2b 100644
--- a/src/dreamrect.cc
+++ b/src/dreamrect.cc
@@ -269,6 +269,8 @@ SIRError Rect::dreamrect(double alpha,
     free((void*) D);
   }
 
+  delete[] threads;
+
   return err;
 }
 
diff --git a/src/dreamrect_f.cc b/src/dreamrect_f.cc
index 23bcd48..3dac753 100644
--- a/src/dreamrect_f.cc
+++ b/src/dreamrect_f.cc
@@ -273,6 +273,8 @@ SIRError Rect_f::dreamrect_f(double alpha,
     free((void*) D);
   }
 
+  delete[] threads;
+
   return err;
 }
 
diff --git a/src/dreamsphere.cc b/src/dreamsphere.cc
index 204d4b0..41c6989 100644
--- a/src/dreamsphere.cc
+++ b/src/dreamsphere.cc
@@ -268,6 +268,8 @@ SIRError Sphere::dreamsphere(double alpha,
     free((void*) D);
   }
 
+  delete[] threads;
+
   return err;
 }
 
-- 
2.43.0


From 2787deb7dbc263b16d3637e9ea500fdec40a4b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:38 +0000
Subject: [PATCH 25/52] fix: fft: destroy the FFTW plans and free the exported
 wisdom string

---
 include/fft.h | 23 +++++++++++++++--------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/include/fft.h b/include/fft.h
index 6d99259..589ea32 100644
--- a/include/fft.h
+++ b/include/fft.h
@@ -25,8 +25,11 @@
 
 #include <complex> // Must be included before fftw3.h
 #include <mutex>
+#include <cstdlib>
 #include <cstring>
 #include <iostream>
+#include <memory>
+#include <type_traits>
 
 #include "dream.h"
 
@@ -143,24 +146,24 @@ class FFT
 
       const std::lock_guard<std::mutex> lock(m_fft_mutex[0]);
 
-      m_p_forward = fftw_plan_dft_r2c_1d( (int) fft_len, x.get(), reinterpret_cast<fftw_complex*>(xc.get()), pm);
-      m_p_backward = fftw_plan_dft_c2r_1d( (int) fft_len, reinterpret_cast<fftw_complex*>(xc.get()), x.get(), pm);
+      m_p_forward = PlanPtr(fftw_plan_dft_r2c_1d( (int) fft_len, x.get(), reinterpret_cast<fftw_complex*>(xc.get()), pm), fftw_destroy_plan);
+      m_p_backward = PlanPtr(fftw_plan_dft_c2r_1d( (int) fft_len, reinterpret_cast<fftw_complex*>(xc.get()), x.get(), pm), fftw_destroy_plan);
 
     } else { // Don't use a mutex
 
-      m_p_forward = fftw_plan_dft_r2c_1d( (int) fft_len, x.get(), reinterpret_cast<fftw_complex*>(xc.get()), pm);
-      m_p_backward = fftw_plan_dft_c2r_1d( (int)fft_len, reinterpret_cast<fftw_complex*>(xc.get()), x.get(), pm);
+      m_p_forward = PlanPtr(fftw_plan_dft_r2c_1d( (int) fft_len, x.get(), reinterpret_cast<fftw_complex*>(xc.get()), pm), fftw_destroy_plan);
+      m_p_backward = PlanPtr(fftw_plan_dft_c2r_1d( (int)fft_len, reinterpret_cast<fftw_complex*>(xc.get()), x.get(), pm), fftw_destroy_plan);
     }
   };
 
   ~FFT() = default;
 
   void fft(FFTVec &x, FFTCVec &yc) {
-    fftw_execute_dft_r2c(m_p_forward, x.get(), reinterpret_cast<fftw_complex*>(yc.get()));
+    fftw_execute_dft_r2c(m_p_forward.get(), x.get(), reinterpret_cast<fftw_complex*>(yc.get()));
   }
 
   void ifft(FFTCVec &xc, FFTVec &y) {
-    fftw_execute_dft_c2r(m_p_backward, reinterpret_cast<fftw_complex*>(xc.get()), y.get());
+    fftw_execute_dft_c2r(m_p_backward.get(), reinterpret_cast<fftw_complex*>(xc.get()), y.get());
 
     // FFTW's FFT's are not normalized so normalize it:
     for (dream_idx_type k=0; k<m_fft_len; k++) {
@@ -178,15 +181,19 @@ class FFT
   std::string get_wisdom() {
     char *str = fftw_export_wisdom_to_string();
     std::string w_str(str);
+    free(str);
     return w_str;
   }
 
  private:
 
+  // The threads work on copies of the FFT object so the plans are shared.
+  typedef std::shared_ptr<std::remove_pointer<fftw_plan>::type> PlanPtr;
+
   dream_idx_type m_fft_len;
   std::mutex *m_fft_mutex;
-  fftw_plan m_p_forward;
-  fftw_plan m_p_backward;
+  PlanPtr m_p_forward;
+  PlanPtr m_p_backward;
 };
 
 #endif
-- 
2.43.0


From 492803f730413e56370873311f27d7f268f0fc0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 26/52] fix: fft: is_wisdom accepted any string except the
 format name itself

---
 include/fft.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/fft.h b/include/fft.h
index 589ea32..2decf38 100644
--- a/include/fft.h
+++ b/include/fft.h
@@ -176,8 +176,8 @@ class FFT
   bool import_wisdom(char *str) {return fftw_import_wisdom_from_string(str);}
   bool import_wisdom(std::string str) {return fftw_import_wisdom_from_string(str.c_str());}
   void forget_wisdom() {fftw_forget_wisdom();}
-  bool is_wisdom(char *str) {return std::strcmp("fftw_wisdom",str);}
-  bool is_wisdom(std::string str) {return std::strcmp("fftw_wisdom",str.c_str());}
+  bool is_wisdom(const char *str) {return std::strstr(str, "fftw_wisdom") != nullptr;}
+  bool is_wisdom(const std::string &str) {return is_wisdom(str.c_str());}
   std::string get_wisdom() {
     char *str = fftw_export_wisdom_to_string();
     std::string w_str(str);
-- 
2.43.0


From 5b6a69cdbb7617722a521a67f645352d5bcfc9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:30 +0000
Subject: [PATCH 27/52] fix: fftconv_p, fftconv_ola: the in-place mode was
 ignored when a wisdom string was also given

---
 extra_src/oct_fftconv_ola.cc | 26 ++++++++++++++++++++++++++
 extra_src/oct_fftconv_p.cc   | 26 ++++++++++++++++++++++++++
 2 files changed, 52 insertions(+)

diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 8220f90..03d4534 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -504,6 +504,32 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     break;
 
   case 6: // In-place mode if 6 input args.
+
+    if ( args(4).is_string() ) { // 5th arg is a string ('=','+=', or '-=').
+
+      std::string ip_mode = args(4).string_value();
+
+      if (ip_mode.compare("=") == 0) {
+        conv_mode=ConvMode::equ;
+        is_set = true;
+      }
+
+      if (ip_mode.compare("+=") == 0) {
+        conv_mode=ConvMode::sum;
+        is_set = true;
+      }
+
+      if (ip_mode.compare("-=") == 0) {
+        conv_mode=ConvMode::neg;
+        is_set = true;
+      }
+    }
+
+    if (is_set == false) {
+      error("Non-valid string in arg 5!");
+      return oct_retval;
+    }
+
     if ( args(5).is_string() ) { // 6:th arg is a string (fftw wisdom).
 
       // Read the wisdom string.
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index b3f0881..0c4aee0 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -390,6 +390,32 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     break;
 
   case 5: // In-place mode if input 5 args.
+
+    if ( args(3).is_string() ) { // 4th arg is a string ('=','+=', or '-=').
+
+      std::string ip_mode = args(3).string_value();
+
+      if (ip_mode.compare("=") == 0) {
+        conv_mode=ConvMode::equ;
+        is_set = true;
+      }
+
+      if (ip_mode.compare("+=") == 0) {
+        conv_mode=ConvMode::sum;
+        is_set = true;
+      }
+
+      if (ip_mode.compare("-=") == 0) {
+        conv_mode=ConvMode::neg;
+        is_set = true;
+      }
+    }
+
+    if (is_set == false) {
+      error("Non-valid string in arg 4!");
+      return oct_retval;
+    }
+
     if ( args(4).is_string() ) { // 5:th arg is a string (FFTW wisdom).
 
       // Read the wisdom string.
-- 
2.43.0


From 52cf45cf63f06f0c16405f1c88de153f2c2023a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 28/52] fix: fftconv_ola: wrong blocks with a vector second
 operand, in-place modes added to the target, and block_len = 0 never returned

---
 extra_src/oct_fftconv_ola.cc | 63 ++++++++++++++++++++++--------------
 1 file changed, 38 insertions(+), 25 deletions(-)

diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 03d4534..6321249 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -22,7 +22,9 @@
 ***/
 
 #include "signal_guard.h"
+#include <algorithm>
 #include <atomic>
+#include <cstring>
 #include <iostream>
 #include <thread>
 #include <complex>
@@ -74,6 +76,25 @@ void sighandler(int signum);
 void sig_abrt_handler(int signum);
 void sig_keyint_handler(int signum);
 
+/***
+ *
+ * Add (or subtract) one convolved block to the output.
+ *
+ ***/
+
+static void add_overlap(double *Y, const double *y, dream_idx_type len, ConvMode conv_mode)
+{
+  if (conv_mode == ConvMode::neg) {
+    for (dream_idx_type l=0; l<len; l++) {
+      Y[l] -= y[l];
+    }
+  } else {
+    for (dream_idx_type l=0; l<len; l++) {
+      Y[l] += y[l];
+    }
+  }
+}
+
 /***
  *
  * Thread function
@@ -122,6 +143,11 @@ void* smp_dream_fftconv_ola(void *arg)
 
     for (n=col_start; n<col_stop; n++) {
 
+      // In '=' mode the blocks replace the old data.
+      if (conv_mode == ConvMode::equ) {
+        memset(&Y[n*(A_M+B_M-1)], 0, (A_M+B_M-1)*sizeof(double));
+      }
+
       //
       // The overlap-and-add algorithm.
       //
@@ -137,7 +163,7 @@ void* smp_dream_fftconv_ola(void *arg)
         if (k+block_len < A_M) {
 
           fftconv(fft, Ap, block_len, Bp, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
           len = block_len;
 
@@ -155,7 +181,7 @@ void* smp_dream_fftconv_ola(void *arg)
           memset(&a_block[A_M-k], 0, (block_len - len)*sizeof(double));
 
           fftconv(fft, a_block, block_len, Bp, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
         }
 
         Ap += len;
@@ -164,15 +190,7 @@ void* smp_dream_fftconv_ola(void *arg)
         // Add the overlap.
         //
 
-        if (k+fft_len <  A_M+B_M-1) {
-          for (dream_idx_type l=0; l<fft_len; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
-          }
-        } else {
-          for (dream_idx_type l=0; l<(A_M+B_M-1)-k; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
-          }
-        }
+        add_overlap(&Y[k + n*(A_M+B_M-1)], y, std::min(fft_len, (A_M+B_M-1)-k), conv_mode);
 
         k += block_len;
       }
@@ -194,6 +212,11 @@ void* smp_dream_fftconv_ola(void *arg)
 
     for (n=col_start; n<col_stop; n++) {
 
+      // In '=' mode the blocks replace the old data.
+      if (conv_mode == ConvMode::equ) {
+        memset(&Y[n*(A_M+B_M-1)], 0, (A_M+B_M-1)*sizeof(double));
+      }
+
       //
       // The overlap-and-add algorithm.
       //
@@ -206,7 +229,7 @@ void* smp_dream_fftconv_ola(void *arg)
         if (k+block_len < A_M) {
 
           fftconv(fft, Ap, block_len, B, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
           len = block_len;
 
@@ -224,22 +247,14 @@ void* smp_dream_fftconv_ola(void *arg)
           memset(&a_block[A_M-k], 0, (block_len - len)*sizeof(double));
 
           fftconv(fft, a_block, block_len, B, B_M, y,
-                  a, b, c, af, bf, cf, conv_mode);
+                  a, b, c, af, bf, cf, ConvMode::equ);
 
         }
 
         Ap += len;
 
         // Add the overlap.
-        if (k+fft_len < A_M+B_M-1) {
-          for (dream_idx_type l=0; l<fft_len; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
-          }
-        } else {
-          for (dream_idx_type l=0; l<(A_M+B_M-1)-k; l++) {
-            Y[k+l + n*(A_M+B_M-1)] += y[l];
-          }
-        }
+        add_overlap(&Y[k + n*(A_M+B_M-1)], y, std::min(fft_len, (A_M+B_M-1)-k), conv_mode);
 
         k += block_len;
       } // while
@@ -250,8 +265,6 @@ void* smp_dream_fftconv_ola(void *arg)
         break;
       }
 
-      Ap += A_M;
-
     } // for
   } // if
 
@@ -413,7 +426,7 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if (block_len < 0 || block_len > A_M) {
+  if (block_len < 1 || block_len > A_M) {
     error("Argument 3 is out of bounds! Must be > 0 and less than number of rows of arg 1!");
     return oct_retval;
   }
-- 
2.43.0


From 7d65cc924d4e2a311562f18436524a9ca39a1d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:06 +0000
Subject: [PATCH 29/52] fix: octave in-place functions: scalars, ranges and
 non-double targets were written to freed temporary memory

---
 extra_src/oct_add_p.cc       |  3 +++
 extra_src/oct_conv_p.cc      |  3 +++
 extra_src/oct_copy_p.cc      |  3 +++
 extra_src/oct_fftconv_ola.cc |  3 +++
 extra_src/oct_fftconv_p.cc   |  3 +++
 extra_src/oct_sum_fftconv.cc |  3 +++
 include/inplace_arg.h        | 40 ++++++++++++++++++++++++++++++++++++
 7 files changed, 58 insertions(+)
 create mode 100644 include/inplace_arg.h

diff --git a/extra_src/oct_add_p.cc b/extra_src/oct_add_p.cc
index d00a802..1ad0eb0 100644
--- a/extra_src/oct_add_p.cc
+++ b/extra_src/oct_add_p.cc
@@ -33,6 +33,7 @@
 #include <octave/oct.h>
 
 #include "dream.h"
+#include "inplace_arg.h"
 #include "affinity.h"
 
 /***
@@ -183,6 +184,8 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  check_inplace_arg(args(0), 1);
+
   const Matrix tmp = args(0).matrix_value();
   A_M = tmp.rows();
   A_N = tmp.cols();
diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index 3778ffc..3171320 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -29,6 +29,7 @@
 #include <octave/oct.h>
 
 #include "dream.h"
+#include "inplace_arg.h"
 #include "affinity.h"
 #include "conv.h"
 
@@ -301,6 +302,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     // In-place mode.
     //
 
+    check_inplace_arg(args(2), 3);
+
     if (args(2).matrix_value().rows() != A_M+B_M-1) {
       dream_err_msg("Wrong number of rows in argument 3!");
       return oct_retval;
diff --git a/extra_src/oct_copy_p.cc b/extra_src/oct_copy_p.cc
index 7bbfa1b..f19c2ef 100644
--- a/extra_src/oct_copy_p.cc
+++ b/extra_src/oct_copy_p.cc
@@ -33,6 +33,7 @@
 #include <octave/oct.h>
 
 #include "dream.h"
+#include "inplace_arg.h"
 #include "affinity.h"
 
 /***
@@ -181,6 +182,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  check_inplace_arg(args(0), 1);
+
   const Matrix tmp = args(0).matrix_value();
   A_M = tmp.rows();
   A_N = tmp.cols();
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 6321249..8f1aefb 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -32,6 +32,7 @@
 #include <octave/oct.h>
 
 #include "dream.h"
+#include "inplace_arg.h"
 //#include "affinity.h"
 #include "fftconv.h"
 
@@ -639,6 +640,8 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
 
   if ( (nrhs == 4 && !load_wisdom) || nrhs == 5 || nrhs == 6) {
 
+    check_inplace_arg(args(3), 4);
+
     if (args(3).matrix_value().rows() != A_M+B_M-1) {
       error("Wrong number of rows in argument 4!");
       return oct_retval;
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index 0c4aee0..f171305 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -30,6 +30,7 @@
 #include <octave/oct.h>
 
 #include "dream.h"
+#include "inplace_arg.h"
 #include "affinity.h"
 #include "fftconv.h"
 
@@ -504,6 +505,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   if ( (nrhs == 3 && !load_wisdom) || nrhs == 4 || nrhs == 5) {
 
+    check_inplace_arg(args(2), 3);
+
     if (  args(2).matrix_value().rows() != A_M+B_M-1) {
       error("Wrong number of rows in argument 3!");
       return oct_retval;
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index bbafc89..bc4dc49 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -30,6 +30,7 @@
 #include <octave/oct.h>
 
 #include "dream.h"
+#include "inplace_arg.h"
 #include "affinity.h"
 #include "fftconv.h"
 
@@ -466,6 +467,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
     conv_mode = ConvMode::sum;
 
+    check_inplace_arg(args(2), 3);
+
     if (args(2).matrix_value().rows() != fft_len) {
       dream_err_msg("Wrong number of rows in argument 3!");
       return oct_retval;
diff --git a/include/inplace_arg.h b/include/inplace_arg.h
new file mode 100644
index 0000000..de94d11
--- /dev/null
+++ b/include/inplace_arg.h
@@ -0,0 +1,40 @@
+/***
+*
+* This file is part of the DREAM Toolbox.
+*
+* The DREAM Toolbox is free software; you can redistribute it and/or modify
+* it under the terms of the GNU General Public License as published by the
+* Free Software Foundation; either version 2, or (at your option) any
+* later version.
+*
+* The DREAM Toolbox is distributed in the hope that it will be useful, but
+* WITHOUT ANY WARRANTY; without even the implied warranty of MERCHANTABILITY or
+* FITNESS FOR A PARTICULAR PURPOSE. See the GNU General Public License
+* for more details.
+*
+* You should have received a copy of the GNU General Public License
+* along with the DREAM Toolbox; see the file COPYING.  If not, write to the
+* Free Software Foundation, Inc., 51 Franklin Street, Fifth Floor, Boston, MA
+* 02110-1301, USA.
+*
+***/
+
+#pragma once
+
+#include <octave/oct.h>
+
+/***
+ *
+ * The in-place functions write directly to the data of an input argument. This
+ * is only possible for a full, real, double precision matrix, since matrix_value()
+ * returns a temporary (converted) copy of everything else (eg. scalars, ranges,
+ * single precision, logical, and complex data).
+ *
+ ***/
+
+inline void check_inplace_arg(const octave_value &arg, int arg_n)
+{
+  if (arg.type_name() != "matrix") {
+    error("Argument %d must be a full real double precision matrix (with more than one element) in in-place mode!", arg_n);
+  }
+}
-- 
2.43.0


From ec71dc4eec8d10e85a9f293a09283619312606ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:15 +0000
Subject: [PATCH 30/52] fix: octave convolutions: reject empty data, non-string
 modes and output arguments in in-place mode before changing the target

---
 extra_src/oct_conv_p.cc      | 13 +++++++++++++
 extra_src/oct_fftconv_ola.cc | 10 ++++++++++
 extra_src/oct_fftconv_p.cc   | 10 ++++++++++
 extra_src/oct_sum_fftconv.cc |  5 +++++
 4 files changed, 38 insertions(+)

diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index 3171320..31eb349 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -193,6 +193,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     break;
 
   case 4:
+    if (nlhs > 0) {
+      dream_err_msg("No output arguments required for conv_p in in-place operating mode!");
+      return oct_retval;
+    }
+
     if ( args(3).is_string() ) { // 4:th arg is a string '=', '+=', or '-='.
 
       std::string ip_mode = args(3).string_value();
@@ -223,6 +228,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
         dream_err_msg("Non-valid string in arg 4!");
         return oct_retval;
       }
+    } else { // 4th arg not a string
+      dream_err_msg("Argument 4 is not a valid string format!");
+      return oct_retval;
     }
     break;
 
@@ -248,6 +256,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  if (A_M < 1 || B_M*B_N < 1) {
+    dream_err_msg("Arguments 1 and 2 must not be empty!");
+    return oct_retval;
+  }
+
   if (  B_M == 1 || B_N == 1 ) { // B is a vector.
     B_M = B_M*B_N;
     B_N = 1;
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 8f1aefb..a4f86fb 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -412,6 +412,11 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  if (A_M < 1 || B_M*B_N < 1) {
+    error("Arguments 1 and 2 must not be empty!");
+    return oct_retval;
+  }
+
   if ( B_M == 1 || B_N == 1 ) { // B is a vector.
     B_M = B_M*B_N;
     B_N = 1;
@@ -640,6 +645,11 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
 
   if ( (nrhs == 4 && !load_wisdom) || nrhs == 5 || nrhs == 6) {
 
+    if (nlhs > 0) {
+      error("No output arguments required for fftconv_ola in in-place operating mode!");
+      return oct_retval;
+    }
+
     check_inplace_arg(args(3), 4);
 
     if (args(3).matrix_value().rows() != A_M+B_M-1) {
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index f171305..d990306 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -301,6 +301,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  if (A_M < 1 || B_M*B_N < 1) {
+    error("Arguments 1 and 2 must not be empty!");
+    return oct_retval;
+  }
+
   if (  B_M == 1 || B_N == 1 ) { // B is a vector.
     B_M = B_M*B_N;
     B_N = 1;
@@ -505,6 +510,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   if ( (nrhs == 3 && !load_wisdom) || nrhs == 4 || nrhs == 5) {
 
+    if (nlhs > 0) {
+      error("No output arguments required for fftconv_p in in-place operating mode!");
+      return oct_retval;
+    }
+
     check_inplace_arg(args(2), 3);
 
     if (  args(2).matrix_value().rows() != A_M+B_M-1) {
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index bc4dc49..668afbb 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -467,6 +467,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
     conv_mode = ConvMode::sum;
 
+    if (nlhs > 0) {
+      dream_err_msg("No output arguments required for sum_fftconv in in-place operating mode!");
+      return oct_retval;
+    }
+
     check_inplace_arg(args(2), 3);
 
     if (args(2).matrix_value().rows() != fft_len) {
-- 
2.43.0


From 2362a9dbc3e80394c18a6cd136d717f4e0f868e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:33 +0000
Subject: [PATCH 31/52] fix: sum_fftconv: wrong lengths for one-sample input
 signals, reject empty data and output arguments in in-place mode, release the
 pointer table on errors

---
 extra_src/oct_sum_fftconv.cc | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 668afbb..8009f72 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -26,6 +26,7 @@
 #include <iostream>
 #include <thread>
 #include <complex>
+#include <vector>
 
 #include <octave/oct.h>
 
@@ -318,7 +319,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   H_L = dv(2);
 
   // Store pointers to the L A-matrices in a vector.
-  double **H = (double**) malloc(H_L*sizeof(double*));
+  std::vector<double*> H_vec(H_L);
+  double **H = H_vec.data();
   for (dream_idx_type k=0; k<H_L; k++) {
     H[k] = (double*) &(tmp0.data()[H_M*H_N*k]);
   }
@@ -333,9 +335,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if (U_M == 1 || U_N == 1 ) { // U is a vector.
-    U_M = U_M*U_N;
-    U_N = 1;
+  if (H_M < 1 || U_M < 1) {
+    dream_err_msg("Arguments 1 and 2 must not be empty!");
+    return oct_retval;
   }
 
   fft_len = H_M+U_M-1;
@@ -554,10 +556,6 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if (H) {
-    free(H);
-  }
-
   // Return the FFTW Wisdom so that the plans can be re-used.
   if (return_wisdom) {
     std::string cmout = fft.get_wisdom();
-- 
2.43.0


From be9c088dab6d92c8a02c05783cb5c2e273792b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:42 +0000
Subject: [PATCH 32/52] fix: add_p, copy_p: columns after the designated range
 were changed, and reversed or non-matching ranges were accepted

---
 extra_src/oct_add_p.cc  | 24 ++++++++++++------------
 extra_src/oct_copy_p.cc | 24 ++++++++++++------------
 2 files changed, 24 insertions(+), 24 deletions(-)

diff --git a/extra_src/oct_add_p.cc b/extra_src/oct_add_p.cc
index 1ad0eb0..f106624 100644
--- a/extra_src/oct_add_p.cc
+++ b/extra_src/oct_add_p.cc
@@ -212,8 +212,8 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if ( (octave_idx_type) r[1] < 1) {
-    error("1st element of argument 2 must be > 1!");
+  if (!(r[0] >= 1.0 && r[0] <= r[1])) {
+    error("Argument 2 must be a range with 1st element >= 1 and 2nd element >= the 1st!");
     return oct_retval;
   }
 
@@ -228,8 +228,8 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if ( (octave_idx_type) k[1] < 1) {
-    error("1st element of argument 3 must be > 1!");
+  if (!(k[0] >= 1.0 && k[0] <= k[1])) {
+    error("Argument 3 must be a range with 1st element >= 1 and 2nd element >= the 1st!");
     return oct_retval;
   }
 
@@ -239,12 +239,12 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
   }
 
   // Check that arg 4.
-  if (B_M < (octave_idx_type) (r[1]-r[0])+1 ) {
+  if (B_M != (octave_idx_type) r[1] - (octave_idx_type) r[0] + 1) {
     error("Argument 4 has not the number of rows as given by arg 2!");
     return oct_retval;
   }
 
-  if (B_N != (octave_idx_type) (k[1]-k[0])+1 ) {
+  if (B_N != (octave_idx_type) k[1] - (octave_idx_type) k[0] + 1) {
     error("Argument 4 has not the number of columns as given by arg 3!");
     return oct_retval;
   }
@@ -265,9 +265,9 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
     }
   }
 
-  // nthreads can't be larger then the number of columns in the A matrix.
-  if (nthreads > A_N) {
-    nthreads = A_N;
+  // nthreads can't be larger then the number of columns in the B matrix.
+  if (nthreads > B_N) {
+    nthreads = B_N;
   }
 
   if (nthreads < 1) {
@@ -304,8 +304,8 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
 
-    col_start = ((octave_idx_type) thread_n) * A_N/nthreads;
-    col_stop =  ((octave_idx_type) thread_n+1) * A_N/nthreads;
+    col_start = ((octave_idx_type) thread_n) * B_N/nthreads;
+    col_stop =  ((octave_idx_type) thread_n+1) * B_N/nthreads;
 
     // Init local data.
     D[thread_n].col_start = col_start; // Local start index;
@@ -318,7 +318,7 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
     D[thread_n].B_N = B_N;
     D[thread_n].r = (octave_idx_type) (r[0]-1);
     D[thread_n].k = (octave_idx_type) (k[0]-1);
-    D[thread_n].len = (octave_idx_type) (r[1]-r[0]+1);
+    D[thread_n].len = B_M;
 
     // Start the threads.
     threads[thread_n] = std::thread(smp_dream_add_p, &D[thread_n]);
diff --git a/extra_src/oct_copy_p.cc b/extra_src/oct_copy_p.cc
index f19c2ef..3910e1d 100644
--- a/extra_src/oct_copy_p.cc
+++ b/extra_src/oct_copy_p.cc
@@ -210,8 +210,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if ( (octave_idx_type) r[1] < 1) {
-    error("1st element of argument 2 must be > 1!");
+  if (!(r[0] >= 1.0 && r[0] <= r[1])) {
+    error("Argument 2 must be a range with 1st element >= 1 and 2nd element >= the 1st!");
     return oct_retval;
   }
 
@@ -226,8 +226,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
-  if ( (octave_idx_type) k[1] < 1) {
-    error("1st element of argument 3 must be > 1!");
+  if (!(k[0] >= 1.0 && k[0] <= k[1])) {
+    error("Argument 3 must be a range with 1st element >= 1 and 2nd element >= the 1st!");
     return oct_retval;
   }
 
@@ -237,12 +237,12 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   }
 
   // Check that arg 4.
-  if (B_M < (octave_idx_type) (r[1]-r[0])+1 ) {
+  if (B_M != (octave_idx_type) r[1] - (octave_idx_type) r[0] + 1) {
     error("Argument 4 has not the number of rows as given by arg 2!");
     return oct_retval;
   }
 
-  if (B_N != (octave_idx_type) (k[1]-k[0])+1 ) {
+  if (B_N != (octave_idx_type) k[1] - (octave_idx_type) k[0] + 1) {
     error("Argument 4 has not the number of columns as given by arg 3!");
     return oct_retval;
   }
@@ -263,9 +263,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     }
   }
 
-  // nthreads can't be larger then the number of columns in the A matrix.
-  if (nthreads > A_N) {
-    nthreads = A_N;
+  // nthreads can't be larger then the number of columns in the B matrix.
+  if (nthreads > B_N) {
+    nthreads = B_N;
   }
 
   if (nthreads < 1) {
@@ -302,8 +302,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   for (thread_n = 0; thread_n < nthreads; thread_n++) {
 
-    line_start = ((octave_idx_type) thread_n) * A_N/nthreads;
-    line_stop =  ((octave_idx_type) thread_n+1) * A_N/nthreads;
+    line_start = ((octave_idx_type) thread_n) * B_N/nthreads;
+    line_stop =  ((octave_idx_type) thread_n+1) * B_N/nthreads;
 
     // Init local data.
     D[thread_n].line_start = line_start; // Local start index;
@@ -316,7 +316,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     D[thread_n].B_N = B_N;
     D[thread_n].r = (octave_idx_type) (r[0]-1);
     D[thread_n].k = (octave_idx_type) (k[0]-1);
-    D[thread_n].len = (octave_idx_type) (r[1]-r[0]+1);
+    D[thread_n].len = B_M;
 
     // Start the threads.
     threads[thread_n] = std::thread(smp_dream_copy_p, &D[thread_n]);
-- 
2.43.0


From ea766548f7c1509be35fb16e64392c8c6540cf6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:53 +0000
Subject: [PATCH 33/52] fix: python fftconv_p: reject empty signals

---
 python/include/py_fftconv_p.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/include/py_fftconv_p.hpp b/python/include/py_fftconv_p.hpp
index 7fe3cce..3cb3276 100644
--- a/python/include/py_fftconv_p.hpp
+++ b/python/include/py_fftconv_p.hpp
@@ -58,6 +58,11 @@ py::array_t<T,py::array::f_style> py_fftconv_p(py::array_t<T,py::array::f_style>
   }
   T *B = static_cast<T*>(ap.get_data(py_B));
 
+  // The linear convolution of an empty signal is not defined.
+  if (A_M*A_N == 0 || B_M*B_N == 0) {
+    throw std::runtime_error("Arguments must not be empty!");
+  }
+
   // Check that arg 2 has the correct dim (matrix or vector allowed).
   if ( B_M != 1 && B_N !=1 && B_N != A_N) {
     throw std::runtime_error("Argument 2 must be a vector or a matrix with the same number of columns as arg 1!");
-- 
2.43.0


From 1cff5683ed31b2bac696214819354e6006ae2db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:53 +0000
Subject: [PATCH 34/52] fix: dream_apodwin: 'off' returned uninitialised memory
 and 'ud' took the first weight as the window length

---
 oct/oct_dream_apodwin.cc | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/oct/oct_dream_apodwin.cc b/oct/oct_dream_apodwin.cc
index af6a2aa..a22f638 100644
--- a/oct/oct_dream_apodwin.cc
+++ b/oct/oct_dream_apodwin.cc
@@ -107,8 +107,16 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   // Apodization.
   //
 
+  // The window length or, for the 'ud' option, the vector of weights.
   const Matrix tmp1 = args(1).matrix_value();
-  dream_idx_type num_elements = (dream_idx_type) tmp1.data()[0];
+  dream_idx_type num_elements = (dream_idx_type) tmp1.numel();
+  if (!args(0).is_string() || args(0).string_value() != "ud") {
+    if (tmp1.numel() != 1 || !(tmp1.data()[0] >= 0.0) || !std::isfinite(tmp1.data()[0])) {
+      error("Argument 2 must be the (non-negative) length of the window!");
+      return oct_retval;
+    }
+    num_elements = (dream_idx_type) tmp1.data()[0];
+  }
 
   // Allocate space for the user defined apodization weights
   std::unique_ptr<double[]> apod = std::make_unique<double[]>(num_elements);
@@ -132,6 +140,10 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
       apodization(apod_met, n, apod.get(), &weight, xs, ys, ramax, apod_par);
       h[n] = weight;
     }
+  } else { // No apodization.
+    for (dream_idx_type n=0; n<num_elements; n++) {
+      h[n] = 1.0;
+    }
   }
 
   oct_retval.append(h_mat);
-- 
2.43.0


From 6460a85c052971faf9c4eeb8a4018f86cd38f949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:53 +0000
Subject: [PATCH 35/52] fix: octave dreamrect, dreamcirc, rect_sir: unknown
 compute devices were accepted

---
 extra_src/oct_rect_sir.cc | 5 +++++
 oct/oct_dreamcirc.cc      | 5 +++++
 oct/oct_dreamrect.cc      | 5 +++++
 3 files changed, 15 insertions(+)

diff --git a/extra_src/oct_rect_sir.cc b/extra_src/oct_rect_sir.cc
index 755add9..21ae4ce 100644
--- a/extra_src/oct_rect_sir.cc
+++ b/extra_src/oct_rect_sir.cc
@@ -209,6 +209,11 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
     }
 
     device = args(5).string_value();
+
+    if (device != "cpu" && device != "gpu") {
+      error("Argument 6 (the compute device) must be 'cpu' or 'gpu'!");
+      return oct_retval;
+    }
   }
 
   //
diff --git a/oct/oct_dreamcirc.cc b/oct/oct_dreamcirc.cc
index 1bd3111..72c2bbc 100644
--- a/oct/oct_dreamcirc.cc
+++ b/oct/oct_dreamcirc.cc
@@ -209,6 +209,11 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
     }
 
     device = args(6).string_value();
+
+    if (device != "cpu" && device != "gpu") {
+      error("Argument 7 (the compute device) must be 'cpu' or 'gpu'!");
+      return oct_retval;
+    }
   }
 
   // Create an output matrix for the impulse response
diff --git a/oct/oct_dreamrect.cc b/oct/oct_dreamrect.cc
index edef094..e1c5b46 100644
--- a/oct/oct_dreamrect.cc
+++ b/oct/oct_dreamrect.cc
@@ -212,6 +212,11 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
     }
 
     device = args(6).string_value();
+
+    if (device != "cpu" && device != "gpu") {
+      error("Argument 7 (the compute device) must be 'cpu' or 'gpu'!");
+      return oct_retval;
+    }
   }
 
   // Create an output matrix for the impulse response
-- 
2.43.0


From 38f2ad701acd6da0dbab7660bea089c61e910d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:54 +0000
Subject: [PATCH 36/52] fix: octave convolutions: results of a single sample
 were written to released memory

---
 extra_src/oct_conv_p.cc      | 13 +++++++++++--
 extra_src/oct_fftconv_ola.cc | 13 +++++++++++--
 extra_src/oct_fftconv_p.cc   | 17 +++++++++++++----
 extra_src/oct_sum_fftconv.cc | 13 +++++++++++--
 4 files changed, 46 insertions(+), 10 deletions(-)

diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index 31eb349..bed3264 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -298,16 +298,21 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   SignalGuard sigabrt_guard(SIGABRT, &sighandler);
   SignalGuard sigint_guard(SIGINT, &sighandler);
 
+  // NB. Append the output matrix to the return values when it has been computed: a
+  // 1x1 matrix is converted to a scalar then and its data is released.
+  Matrix Ymat;
+  bool return_Y = false;
+
   if (nrhs == 2) { // Test for in-place/normal mode.
 
     //
     // Normal (non in-place) mode.
     //
 
-    Matrix Ymat(A_M+B_M-1, A_N);
+    Ymat = Matrix(A_M+B_M-1, A_N);
     Y = (double*) Ymat.data();
 
-    oct_retval.append(Ymat);
+    return_Y = true;
 
   } else {
 
@@ -397,5 +402,9 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  if (return_Y) {
+    oct_retval.append(Ymat);
+  }
+
   return oct_retval;
 }
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index a4f86fb..60e2204 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -623,6 +623,11 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     }
   }
 
+  // NB. Append the output matrix to the return values when it has been computed: a
+  // 1x1 matrix is converted to a scalar then and its data is released.
+  Matrix Ymat;
+  bool return_Y = false;
+
   //
   // Normal (non in-place) mode.
   //
@@ -630,13 +635,13 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
   if (nrhs == 3 || (nrhs == 4 && load_wisdom)) { // Normal mode.
 
     // Allocate mamory for the output matrix.
-    Matrix Ymat(A_M+B_M-1, A_N);
+    Ymat = Matrix(A_M+B_M-1, A_N);
     Y = (double*) Ymat.data();
 
     SIRData ymat(Y, A_M+B_M-1, A_N);
     ymat.clear();
 
-    oct_retval.append(Ymat);
+    return_Y = true;
   }
 
   //
@@ -731,6 +736,10 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  if (return_Y) {
+    oct_retval.append(Ymat);
+  }
+
   // Return the FFTW Wisdom so that the plans can be re-used.
   if (return_wisdom) {
     std::string cmout = fft.get_wisdom();
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index d990306..eb2fad3 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -489,19 +489,24 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     }
   }
 
+  // NB. Append the output matrix to the return values when it has been computed: a
+  // 1x1 matrix is converted to a scalar then and its data is released.
+  Matrix Ymat;
+  bool return_Y = false;
+
   //
   // Normal (non in-place) mode.
   //
 
   if (nrhs == 2 || (nrhs == 3 && load_wisdom)) { // Normal mode.
 
-    Matrix Ymat(A_M+B_M-1, A_N);
+    Ymat = Matrix(A_M+B_M-1, A_N);
     Y = (double*) Ymat.data();
 
     SIRData ymat(Y, A_M+B_M-1, A_N);
     ymat.clear();
 
-    oct_retval.append(Ymat);
+    return_Y = true;
   }
 
   //
@@ -527,8 +532,8 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
       return oct_retval;
     }
 
-    const Matrix Ymat = args(2).matrix_value();
-    Y = (double*) Ymat.data(); // NB. Do  not clear data here!
+    const Matrix Ytmp = args(2).matrix_value();
+    Y = (double*) Ytmp.data(); // NB. Do  not clear data here!
   }
 
   //
@@ -606,6 +611,10 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  if (return_Y) {
+    oct_retval.append(Ymat);
+  }
+
   // Return the FFTW Wisdom so that the plans can be re-used.
   if (return_wisdom) {
     std::string cmout = fft.get_wisdom();
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 8009f72..7a91d29 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -445,20 +445,25 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     }
   }
 
+  // NB. Append the output matrix to the return values when it has been computed: a
+  // 1x1 matrix is converted to a scalar then and its data is released.
+  Matrix Ymat;
+  bool return_Y = false;
+
   //
   // Normal (non in-place) mode.
   //
 
   if (nrhs == 2 ||  (nrhs == 3 && load_wisdom)) {
 
-    Matrix Ymat(fft_len, H_N);
+    Ymat = Matrix(fft_len, H_N);
     Y = (double*) Ymat.data();
 
     // Clear output in normal mode
     SIRData ymat(Y, fft_len, H_N);
     ymat.clear();
 
-    oct_retval.append(Ymat);
+    return_Y = true;
   }
 
   //
@@ -556,6 +561,10 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  if (return_Y) {
+    oct_retval.append(Ymat);
+  }
+
   // Return the FFTW Wisdom so that the plans can be re-used.
   if (return_wisdom) {
     std::string cmout = fft.get_wisdom();
-- 
2.43.0


From c1cf343e9698defa6c80922e6c3129b4be89975b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:01 +0000
Subject: [PATCH 37/52] fix: fftconv: products of Fourier coefficients that the
 transforms do not set

---
 extra_src/fftconv.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/extra_src/fftconv.cc b/extra_src/fftconv.cc
index 3defc41..aaddbea 100644
--- a/extra_src/fftconv.cc
+++ b/extra_src/fftconv.cc
@@ -68,8 +68,8 @@ void fftconv(FFT &fft,
   FFTCVec bf_v(fft_len, bf);
   fft.fft(b_v, bf_v);
 
-  // Do the filtering.
-  for (n = 0; n < fft_len; n++) {
+  // Do the filtering (the transform of a real signal has fft_len/2+1 Fourier coefficients).
+  for (n = 0; n < fft_len/2+1; n++) {
     cf[n] = (af[n] * bf[n]);
   }
 
@@ -172,7 +172,8 @@ void add_fftconv(FFT &fft,
     fft.fft(b_v, bf_v);
 
     // Do the filtering and add (accumulate) the results
-    for (dream_idx_type i_f=0; i_f < fft_len; i_f++) {
+    // (the transform of a real signal has fft_len/2+1 Fourier coefficients).
+    for (dream_idx_type i_f=0; i_f < fft_len/2+1; i_f++) {
       cf[i_f] += (af[i_f] * bf[i_f])  / double(fft_len);
     }
   }
-- 
2.43.0


From 8159fbea498f5a558b598349d5176d417324daca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 38/52] fix: octave dreamline: interrupts were only looked for
 before the first observation point

---
 src/dreamline.cc | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/dreamline.cc b/src/dreamline.cc
index eeeecde..b3d1429 100644
--- a/src/dreamline.cc
+++ b/src/dreamline.cc
@@ -97,6 +97,18 @@ void* Line::smp_dream_line(void *arg)
     x_vec = std::make_unique<FFTVec>(nt);
   }
 
+  for (n=start; n<stop; n++) {
+    xo = Ro[n];
+    yo = Ro[n+1*No];
+    zo = Ro[n+2*No];
+
+    double dlay = 0.0;
+    if (D->delay_type == DelayType::single) {
+      dlay = delay[0];
+    } else { // DelayType::multiple.
+      dlay = delay[n];
+    }
+
 #ifdef OCTAVE
     // Octave throws an exception when pressing CTRL-C
     // so catch it here and set running to false.
@@ -111,18 +123,6 @@ void* Line::smp_dream_line(void *arg)
     catch (int &signum) {;}
 #endif
 
-  for (n=start; n<stop; n++) {
-    xo = Ro[n];
-    yo = Ro[n+1*No];
-    zo = Ro[n+2*No];
-
-    double dlay = 0.0;
-    if (D->delay_type == DelayType::single) {
-      dlay = delay[0];
-    } else { // DelayType::multiple.
-      dlay = delay[n];
-    }
-
     if (att == nullptr) {
       err = dreamline_serial(xo,yo,zo,a,dx,dy,dt,nt,dlay,v,cp, &h[n*nt], err_level);
     } else {
-- 
2.43.0


From 197b4e177babee037fbe3378e3a34ebe64e2e6e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:54 +0000
Subject: [PATCH 39/52] fix: octave das, rect_sir, circ_sir, scirc_sir,
 convolutions: interrupts did not stop the computation

---
 extra_src/das.cc             | 18 ++++++++++++++++++
 extra_src/oct_circ_sir.cc    | 28 ++++++++++++++++++++++++++++
 extra_src/oct_conv_p.cc      | 14 ++++++++++++++
 extra_src/oct_fftconv_ola.cc | 28 ++++++++++++++++++++++++++++
 extra_src/oct_fftconv_p.cc   | 28 ++++++++++++++++++++++++++++
 extra_src/oct_scirc_sir.cc   | 28 ++++++++++++++++++++++++++++
 extra_src/oct_sum_fftconv.cc | 14 ++++++++++++++
 extra_src/rect_sir.cc        | 18 ++++++++++++++++++
 8 files changed, 176 insertions(+)

diff --git a/extra_src/das.cc b/extra_src/das.cc
index c844272..8d6d40b 100644
--- a/extra_src/das.cc
+++ b/extra_src/das.cc
@@ -29,6 +29,10 @@
 #include "das.h"
 #include "affinity.h"
 
+#ifdef OCTAVE
+#include <octave/oct.h>
+#endif
+
 std::mutex err_mutex;
 std::atomic<bool> running;
 
@@ -135,6 +139,20 @@ void* DAS<T>::smp_das(void *arg)
       dlay = delay[no];
     }
 
+#ifdef OCTAVE
+    // Octave throws an exception when pressing CTRL-C
+    // so catch it here and set running to false.
+    try {
+      OCTAVE_QUIT;
+    }
+
+    catch (octave::interrupt_exception &e) {
+      running = false;
+    }
+
+    catch (int &signum) {;}
+#endif
+
     if (das_type == DASType::saft) {
       err = das_saft_serial(Y, a_scan_len,
                             Gt, num_t_elements, // Transmit = receive here.
diff --git a/extra_src/oct_circ_sir.cc b/extra_src/oct_circ_sir.cc
index 9f8200a..5da6ce1 100644
--- a/extra_src/oct_circ_sir.cc
+++ b/extra_src/oct_circ_sir.cc
@@ -99,6 +99,20 @@ void* smp_dream_circ_sir(void *arg)
       yo = Ro[n+1*No];
       zo = Ro[n+2*No];
 
+#ifdef OCTAVE
+      // Octave throws an exception when pressing CTRL-C
+      // so catch it here and set running to false.
+      try {
+        OCTAVE_QUIT;
+      }
+
+      catch (octave::interrupt_exception &e) {
+        running = false;
+      }
+
+      catch (int &signum) {;}
+#endif
+
       circ_sir(xo,yo,zo,r,dt,nt,delay[0],v,cp,&h[n*nt]); // TODO: Add attenuation.
 
       if (!running) {
@@ -113,6 +127,20 @@ void* smp_dream_circ_sir(void *arg)
       yo = Ro[n+1*No];
       zo = Ro[n+2*No];
 
+#ifdef OCTAVE
+      // Octave throws an exception when pressing CTRL-C
+      // so catch it here and set running to false.
+      try {
+        OCTAVE_QUIT;
+      }
+
+      catch (octave::interrupt_exception &e) {
+        running = false;
+      }
+
+      catch (int &signum) {;}
+#endif
+
       circ_sir(xo,yo,zo,r,dt,nt,delay[n],v,cp,&h[n*nt]); // TODO: Add attenuation.
 
       if (!running) {
diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index bed3264..1ec3cda 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -90,6 +90,20 @@ void* smp_dream_conv(void *arg)
 
   for (dream_idx_type n=col_start; n<col_stop; n++) {
 
+#ifdef OCTAVE
+    // Octave throws an exception when pressing CTRL-C
+    // so catch it here and set running to false.
+    try {
+      OCTAVE_QUIT;
+    }
+
+    catch (octave::interrupt_exception &e) {
+      running = false;
+    }
+
+    catch (int &signum) {;}
+#endif
+
     if (B_N > 1) // B is a matrix.
       conv( &A[0+n*A_M], A_M, &B[0+n*B_M], B_M, &Y[0+n*(A_M+B_M-1)], conv_mode);
     else // B is a vector.
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 60e2204..223631c 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -144,6 +144,20 @@ void* smp_dream_fftconv_ola(void *arg)
 
     for (n=col_start; n<col_stop; n++) {
 
+#ifdef OCTAVE
+      // Octave throws an exception when pressing CTRL-C
+      // so catch it here and set running to false.
+      try {
+        OCTAVE_QUIT;
+      }
+
+      catch (octave::interrupt_exception &e) {
+        running = false;
+      }
+
+      catch (int &signum) {;}
+#endif
+
       // In '=' mode the blocks replace the old data.
       if (conv_mode == ConvMode::equ) {
         memset(&Y[n*(A_M+B_M-1)], 0, (A_M+B_M-1)*sizeof(double));
@@ -213,6 +227,20 @@ void* smp_dream_fftconv_ola(void *arg)
 
     for (n=col_start; n<col_stop; n++) {
 
+#ifdef OCTAVE
+      // Octave throws an exception when pressing CTRL-C
+      // so catch it here and set running to false.
+      try {
+        OCTAVE_QUIT;
+      }
+
+      catch (octave::interrupt_exception &e) {
+        running = false;
+      }
+
+      catch (int &signum) {;}
+#endif
+
       // In '=' mode the blocks replace the old data.
       if (conv_mode == ConvMode::equ) {
         memset(&Y[n*(A_M+B_M-1)], 0, (A_M+B_M-1)*sizeof(double));
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index eb2fad3..1ee60f1 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -119,6 +119,20 @@ void* smp_dream_fftconv(void *arg)
     double *Yp = &Y[0+n*(A_M+B_M-1)];
     for (n=col_start; n<col_stop; n++) {
 
+#ifdef OCTAVE
+      // Octave throws an exception when pressing CTRL-C
+      // so catch it here and set running to false.
+      try {
+        OCTAVE_QUIT;
+      }
+
+      catch (octave::interrupt_exception &e) {
+        running = false;
+      }
+
+      catch (int &signum) {;}
+#endif
+
       fftconv(fft, Ap, A_M, Bp, B_M, Yp,
               a, b, c, af, bf, cf, conv_mode);
 
@@ -139,6 +153,20 @@ void* smp_dream_fftconv(void *arg)
     double *Yp = &Y[0+n*(A_M+B_M-1)];
     for (n=col_start; n<col_stop; n++) {
 
+#ifdef OCTAVE
+      // Octave throws an exception when pressing CTRL-C
+      // so catch it here and set running to false.
+      try {
+        OCTAVE_QUIT;
+      }
+
+      catch (octave::interrupt_exception &e) {
+        running = false;
+      }
+
+      catch (int &signum) {;}
+#endif
+
       fftconv(fft, Ap, A_M, B, B_M, Yp, a,b,c,af,bf,cf,conv_mode);
 
       Ap += A_M;
diff --git a/extra_src/oct_scirc_sir.cc b/extra_src/oct_scirc_sir.cc
index d5b2bbc..2f0200e 100644
--- a/extra_src/oct_scirc_sir.cc
+++ b/extra_src/oct_scirc_sir.cc
@@ -99,6 +99,20 @@ void* smp_dream_scirc_sir(void *arg)
       yo = Ro[n+1*No];
       zo = Ro[n+2*No];
 
+#ifdef OCTAVE
+      // Octave throws an exception when pressing CTRL-C
+      // so catch it here and set running to false.
+      try {
+        OCTAVE_QUIT;
+      }
+
+      catch (octave::interrupt_exception &e) {
+        running = false;
+      }
+
+      catch (int &signum) {;}
+#endif
+
       scirc_sir(xo,yo,zo,r,dt,nt,delay[0],v,cp,int_len,&h[n*nt]); // TODO: Add attenuation.
 
       if (!running) {
@@ -113,6 +127,20 @@ void* smp_dream_scirc_sir(void *arg)
       yo = Ro[n+1*No];
       zo = Ro[n+2*No];
 
+#ifdef OCTAVE
+      // Octave throws an exception when pressing CTRL-C
+      // so catch it here and set running to false.
+      try {
+        OCTAVE_QUIT;
+      }
+
+      catch (octave::interrupt_exception &e) {
+        running = false;
+      }
+
+      catch (int &signum) {;}
+#endif
+
       scirc_sir(xo,yo,zo,r,dt,nt,delay[n],v,cp,int_len,&h[n*nt]); // TODO: Add attenuation.
 
       if (!running) {
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index 7a91d29..fd378f6 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -114,6 +114,20 @@ void* smp_dream_sum_fftconv(void *arg)
 
   for (n=col_start; n<col_stop; n++) {
 
+#ifdef OCTAVE
+    // Octave throws an exception when pressing CTRL-C
+    // so catch it here and set running to false.
+    try {
+      OCTAVE_QUIT;
+    }
+
+    catch (octave::interrupt_exception &e) {
+      running = false;
+    }
+
+    catch (int &signum) {;}
+#endif
+
     add_fftconv(fft,
                 H, L, H_M,
                 n,
diff --git a/extra_src/rect_sir.cc b/extra_src/rect_sir.cc
index 6ecce56..bf0967e 100644
--- a/extra_src/rect_sir.cc
+++ b/extra_src/rect_sir.cc
@@ -30,6 +30,10 @@
 #include "rect_sir.h"
 #include "affinity.h"
 
+#ifdef OCTAVE
+#include <octave/oct.h>
+#endif
+
 //std::mutex err_mutex;
 std::atomic<bool> running;
 
@@ -103,6 +107,20 @@ void* RectSir::smp_rect_sir(void *arg)
       dlay = delay[n];
     }
 
+#ifdef OCTAVE
+    // Octave throws an exception when pressing CTRL-C
+    // so catch it here and set running to false.
+    try {
+      OCTAVE_QUIT;
+    }
+
+    catch (octave::interrupt_exception &e) {
+      running = false;
+    }
+
+    catch (int &signum) {;}
+#endif
+
     // NB. rect_sir_serial do not return any error codes!
     rect_sir_serial(xo,yo,zo,a,b,dt,nt,dlay,v,cp,&h[n*nt]); // TODO: Add attenuation.
 
-- 
2.43.0


From fd46374ae53d686d813fdab8fa584ac3bbb01577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:00 +0000
Subject: [PATCH 40/52] fix: scirc_sir: negative response before time zero for
 points in the plane of the aperture

---
 extra_src/scirc_sir.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/extra_src/scirc_sir.cc b/extra_src/scirc_sir.cc
index c1cf68e..049bc85 100644
--- a/extra_src/scirc_sir.cc
+++ b/extra_src/scirc_sir.cc
@@ -87,6 +87,9 @@ void scirc_sir(double xo_i,
     if (t1 < 0.0)
       t1 = 0.0;
 
+    if (t2 < 0.0)
+      t2 = 0.0;
+
     if (r > r_cyl) {
 
       if ( (cp*t1 < zo) && (cp*t2 < zo)) {
-- 
2.43.0


From f56a141e5839b155eed59ca25d8406604263fee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:19 +0000
Subject: [PATCH 41/52] fix: h2o_soundspeed: wrong powers and a wrong exponent
 in the salinity and pressure terms

---
 m_files/h2o_soundspeed.m | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/m_files/h2o_soundspeed.m b/m_files/h2o_soundspeed.m
index 44ef2f6..c8b4483 100644
--- a/m_files/h2o_soundspeed.m
+++ b/m_files/h2o_soundspeed.m
@@ -71,7 +71,7 @@ end
              + 0.221535969240e-3  .* T.^3;
 
   deltaC_S = 0.132952290781e1   .* S ...
-             + 0.128955756844e-3 .* S.^3;
+             + 0.128955756844e-3 .* S.^2;
 
   deltaC_P = 0.156059257041     .* P ...
              + 0.244998688441e-4 .* P.^2 ...
@@ -80,10 +80,10 @@ end
   deltaC_STP = - 0.127562783426e-1.*T.*S  ...
                + 0.635191613389e-2 .* T    .* P    ...
                + 0.265484716608e-7 .* T.^2 .* P.^2 ...
-               - 0.159349479045e-5 .* T    .* P.^3 ...
+               - 0.159349479045e-5 .* T    .* P.^2 ...
                + 0.522116437235e-9 .* T    .* P.^3 ...
                - 0.438031096213e-6 .* T.^3 .* P    ...
-               - 0.161674495909-8  .* S.^2 .* P.^2 ...
+               - 0.161674495909e-8 .* S.^2 .* P.^2 ...
                + 0.968403156410e-4 .* T.^2 .* S    ...
                + 0.485639620015e-5 .* T    .* S.^2 .* P ...
                - 0.340597039004e-3 .* T    .* S    .* P;
-- 
2.43.0


From a7015efae66d9554f9cda41e450adafbbd5e1c9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:10 +0000
Subject: [PATCH 42/52] fix: OpenCL: nothing was computed unless the number of
 observation points was a multiple of 64

---
 opencl/cl_das.cc       | 3 +--
 opencl/cl_das_uni.cc   | 3 +--
 opencl/cl_dreamcirc.cc | 3 +--
 opencl/cl_dreamrect.cc | 3 +--
 opencl/cl_rect_sir.cc  | 3 +--
 5 files changed, 5 insertions(+), 10 deletions(-)

diff --git a/opencl/cl_das.cc b/opencl/cl_das.cc
index b9d0197..617cd18 100644
--- a/opencl/cl_das.cc
+++ b/opencl/cl_das.cc
@@ -132,9 +132,8 @@ int DAS<T>::cl_das(const T *Y, // Data
   //
 
   cl::NDRange global(m_No);
-  cl::NDRange local(64); // Works on both Nvidia and AMD GPUs.
   try {
-    m_queue.enqueueNDRangeKernel(m_kernel, cl::NullRange, global, local);
+    m_queue.enqueueNDRangeKernel(m_kernel, cl::NullRange, global, cl::NullRange);
   }
 
   catch (const cl::Error &err) {
diff --git a/opencl/cl_das_uni.cc b/opencl/cl_das_uni.cc
index 1074874..b5f0c1b 100644
--- a/opencl/cl_das_uni.cc
+++ b/opencl/cl_das_uni.cc
@@ -159,9 +159,8 @@ int DAS_UNI<T>::cl_das_uni(const T *Y, // Data
   //
 
   cl::NDRange global(m_No);
-  cl::NDRange local(64); // Works on both Nvidia and AMD GPUs.
   try {
-    m_queue.enqueueNDRangeKernel(m_kernel, cl::NullRange, global, local);
+    m_queue.enqueueNDRangeKernel(m_kernel, cl::NullRange, global, cl::NullRange);
   }
 
   catch (const cl::Error &err) {
diff --git a/opencl/cl_dreamcirc.cc b/opencl/cl_dreamcirc.cc
index f656dad..cde8c7e 100644
--- a/opencl/cl_dreamcirc.cc
+++ b/opencl/cl_dreamcirc.cc
@@ -203,8 +203,7 @@ int Circ::cl_dreamcirc(const double *Ro,
   //
 
   size_t global_item_size = No; // Process the entire number of observation points
-  size_t local_item_size = 64; // NB No must be dividable by the local item  size (work group size).
-  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, &local_item_size, 0, NULL, NULL);
+  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, NULL, 0, NULL, NULL);
   if (ret < 0) std::cout << "cl enqueue ret: " << ret << std::endl;
 
   //
diff --git a/opencl/cl_dreamrect.cc b/opencl/cl_dreamrect.cc
index 1fd85a5..2e9230a 100644
--- a/opencl/cl_dreamrect.cc
+++ b/opencl/cl_dreamrect.cc
@@ -206,8 +206,7 @@ int Rect::cl_dreamrect(const double *Ro,
   //
 
   size_t global_item_size = No; // Process the entire number of observation points
-  size_t local_item_size = 64; // NB No must be dividable by the local item size (work group size).
-  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, &local_item_size, 0, NULL, NULL);
+  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, NULL, 0, NULL, NULL);
   if (ret < 0) std::cout << "cl enqueue ret: " << ret << std::endl;
 
   //
diff --git a/opencl/cl_rect_sir.cc b/opencl/cl_rect_sir.cc
index 8d6b0a4..5ebf1f5 100644
--- a/opencl/cl_rect_sir.cc
+++ b/opencl/cl_rect_sir.cc
@@ -193,8 +193,7 @@ int RectSir::cl_rect_sir(const double *Ro,
   //
 
   size_t global_item_size = No; // Process the entire number of observation points
-  size_t local_item_size = 64; // NB No must be dividable by the local item  size (work group size).
-  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, &local_item_size, 0, NULL, NULL);
+  ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, NULL, 0, NULL, NULL);
   if (ret < 0) std::cout << "cl enqueue ret: " << ret << std::endl;
 
   //
-- 
2.43.0


From 58f034c64840a3fb87fb37ac25fbe1d044a1c5d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:10 +0000
Subject: [PATCH 43/52] fix: OpenCL rect_sir: samples were dropped for points
 on an edge and for arrivals that coincide with a sample

---
 opencl/rect_sir.cl | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/opencl/rect_sir.cl b/opencl/rect_sir.cl
index 2353149..aa15404 100644
--- a/opencl/rect_sir.cl
+++ b/opencl/rect_sir.cl
@@ -1,3 +1,9 @@
+// acos(d/r) where rounding errors must not make the argument larger than one.
+double arc_angle(double d, double r)
+{
+  return (d < r) ? acos(d/r) : 0.0;
+}
+
 __kernel void rect_sir(__global const double *Ro,
                        int No,
                        double a_i,
@@ -164,12 +170,16 @@ __kernel void rect_sir(__global const double *Ro,
       }
     } // if outside both  a/2.0 and b/2.0.
 
+    if (s_k <= 0.0 || l_k <= 0.0) {
+      continue;                 // An empty sub-rectangle (on an edge) has no contribution.
+    }
+
     t_z = zo / cp;
 
     tau_1 = t_z;
-    tau_2 = native_sqrt(zo*zo + s_k*s_k) / cp;
-    tau_3 = native_sqrt(zo*zo + l_k*l_k) / cp;
-    tau_4 = native_sqrt(zo*zo + l_k*l_k + s_k*s_k) / cp;
+    tau_2 = sqrt(zo*zo + s_k*s_k) / cp;
+    tau_3 = sqrt(zo*zo + l_k*l_k) / cp;
+    tau_4 = sqrt(zo*zo + l_k*l_k + s_k*s_k) / cp;
 
     for (it=0; it<nt; it++) {
 
@@ -181,11 +191,11 @@ __kernel void rect_sir(__global const double *Ro,
       }
 
       if ( (t >= tau_2) && (t <= tau_4) ) {
-        a_k -= cp_2pi * acos( s_k / (cp * native_sqrt(t*t - t_z*t_z)));
+        a_k -= cp_2pi * arc_angle(s_k, cp * sqrt(fmax(t*t - t_z*t_z, 0.0)));
       }
 
       if ( (t >= tau_3) && (t <= tau_4) ) {
-        a_k -= cp_2pi * acos( l_k / (cp * native_sqrt(t*t - t_z*t_z)));
+        a_k -= cp_2pi * arc_angle(l_k, cp * sqrt(fmax(t*t - t_z*t_z, 0.0)));
       }
 
       if (a_k > 0.0) {
-- 
2.43.0


From f7adfae505429fc1c7b08b3655b01459375e3c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:03 +0000
Subject: [PATCH 44/52] fix: OpenCL: per-point delays and attenuation were
 ignored, use the CPU for them

---
 extra_src/oct_das.cc      | 4 ++++
 extra_src/oct_rect_sir.cc | 4 ++--
 oct/oct_dreamcirc.cc      | 4 ++--
 oct/oct_dreamrect.cc      | 4 ++--
 python/include/py_das.hpp | 4 ++++
 5 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 8a58d2a..0496601 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -447,6 +447,10 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   // We use this to make the GPU init code run
   bool use_gpu = false;
 #ifdef USE_OPENCL
+  if (delay_type == DelayType::multiple) {
+    device = "cpu"; // The GPU has one common delay.
+  }
+
   if (device == "gpu") {
     use_gpu = true;
   }
diff --git a/extra_src/oct_rect_sir.cc b/extra_src/oct_rect_sir.cc
index 21ae4ce..fb8cfc5 100644
--- a/extra_src/oct_rect_sir.cc
+++ b/extra_src/oct_rect_sir.cc
@@ -235,10 +235,10 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
   // Call the rect_sir subroutine.
   //
 
-  // Check if we should use the GPU
+  // Check if we should use the GPU (which has one common delay).
 
 #ifdef USE_OPENCL
-  if (device == "gpu") {
+  if (device == "gpu" && delay_type == DelayType::single) {
     rect_sir.cl_rect_sir(Ro, No, a, b, dt, nt, delay[0], v, cp, h);
 
   } else { // Otherwise use the cpu
diff --git a/oct/oct_dreamcirc.cc b/oct/oct_dreamcirc.cc
index 72c2bbc..65fe736 100644
--- a/oct/oct_dreamcirc.cc
+++ b/oct/oct_dreamcirc.cc
@@ -236,8 +236,8 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
 #ifdef USE_OPENCL
 
-  // Check if we should use the GPU
-  if (device == "gpu") {
+  // Check if we should use the GPU (which has one common delay and no attenuation).
+  if (device == "gpu" && delay_type == DelayType::single && !(alpha > std::numeric_limits<double>::epsilon())) {
 
     circ.cl_dreamcirc(Ro, No, R,  dx, dy, dt, nt,  delay[0], v, cp, h);
 
diff --git a/oct/oct_dreamrect.cc b/oct/oct_dreamrect.cc
index e1c5b46..d152b24 100644
--- a/oct/oct_dreamrect.cc
+++ b/oct/oct_dreamrect.cc
@@ -239,8 +239,8 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
 #ifdef USE_OPENCL
 
-  // Check if we should use the GPU
-  if (device == "gpu") {
+  // Check if we should use the GPU (which has one common delay and no attenuation).
+  if (device == "gpu" && delay_type == DelayType::single && !(alpha > std::numeric_limits<double>::epsilon())) {
     rect.cl_dreamrect(Ro, No, a, b, dx, dy, dt, nt, delay[0], v, cp, h);
 
   } else { // Otherwise use the cpu
diff --git a/python/include/py_das.hpp b/python/include/py_das.hpp
index 7f7d7b7..e1ca05d 100644
--- a/python/include/py_das.hpp
+++ b/python/include/py_das.hpp
@@ -177,6 +177,10 @@ py::array_t<T,py::array::f_style> py_das(py::array_t<T,py::array::f_style> *py_Y
   // We use this to make the GPU init code run
   bool use_gpu = false;
 #ifdef USE_OPENCL
+  if (delay_type == DelayType::multiple) {
+    device_str = "cpu"; // The GPU has one common delay.
+  }
+
   if (device_str == "gpu") {
     use_gpu = true;
   }
-- 
2.43.0


From c17f131af8e2a39b174be67cba1cf8b4b4f162ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:15 +0000
Subject: [PATCH 45/52] fix: das_uni: data with too few columns was not
 rejected, an empty gr did not select SAFT, and a failing device setup was not
 reported

---
 extra_src/oct_das_uni.cc | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/extra_src/oct_das_uni.cc b/extra_src/oct_das_uni.cc
index 943aa64..0f5dca7 100644
--- a/extra_src/oct_das_uni.cc
+++ b/extra_src/oct_das_uni.cc
@@ -371,6 +371,23 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
     return oct_retval;
   }
 
+  if (mxGetM(2)*mxGetN(2) == 0) {
+    das_type = DASType::saft; // SAFT is also selected if gr=[].
+  }
+
+  // One A-scan per transmit/receive element (SAFT) or per pair of transmit and receive elements.
+  dream_idx_type num_a_scans = use_float ? (dream_idx_type) ((max_t_f - min_t_f)/pitch_t_f+1.0) :
+    (dream_idx_type) ((max_t_d - min_t_d)/pitch_t_d+1.0);
+  if (das_type != DASType::saft) {
+    num_a_scans *= use_float ? (dream_idx_type) ((max_r_f - min_r_f)/pitch_r_f+1.0) :
+      (dream_idx_type) ((max_r_d - min_r_d)/pitch_r_d+1.0);
+  }
+
+  if (mxGetN(0) != num_a_scans) {
+    error("The number of columns of argument 1 (the number of A-scans) does not match the number of elements!");
+    return oct_retval;
+  }
+
   //
   // Init DAS_UNI and output arg.
   //
@@ -419,7 +436,7 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
       }
 
       catch (std::runtime_error &err) {
-        std::cout << err.what();
+        error("%s", err.what());
         return oct_retval;
       }
     }
@@ -461,7 +478,7 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
       }
 
       catch (std::runtime_error &err) {
-        std::cout << err.what();
+        error("%s", err.what());
         return oct_retval;
       }
     }
-- 
2.43.0


From f0d7969427fc6cc749f1fba8aaf7b6b95c02ff4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:28 +0000
Subject: [PATCH 46/52] fix: OpenCL das: empty receive elements did not select
 SAFT

---
 include/das.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/das.h b/include/das.h
index c79ad2d..242e055 100644
--- a/include/das.h
+++ b/include/das.h
@@ -100,6 +100,10 @@ public:
     std::string kernel_str;
     std::string kernel_name="das_tfm"; // Default function name of the OpenCL kernel
 
+    if (m_num_r_elements == 0) {
+      m_das_type = DASType::saft; // SAFT is also selected when there are no receive elements.
+    }
+
     if (m_das_type == DASType::saft) {
       kernel_name="das_saft";
       m_num_r_elements = 0;
-- 
2.43.0


From c5632ce249bd74b3424c6d10110d730a8c29a7ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:30 +0000
Subject: [PATCH 47/52] fix: octave das_uni: the module could not be loaded
 (undefined symbol dream_err_msg)

---
 oct/CMakeLists.txt | 1 +
 1 file changed, 1 insertion(+)

diff --git a/oct/CMakeLists.txt b/oct/CMakeLists.txt
index 12d0378..da7dd3a 100644
--- a/oct/CMakeLists.txt
+++ b/oct/CMakeLists.txt
@@ -546,6 +546,7 @@ if (OpenCL_FOUND)
   set (oct_das_uni_SOURCE_FILES
     ../extra_src/oct_das_uni.cc
     ../opencl/cl_das_uni.cc
+    ../src/dream_error.cc
   )
 
   file (COPY ../opencl/das_uni_float.cl DESTINATION kernels)
-- 
2.43.0


From 4eb76fd1b54b7367d6d7a2c149e3d693f00e652f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:29 +0000
Subject: [PATCH 48/52] fix: OpenCL: a missing device, kernel file, or a
 failing kernel gave silent zeros or terminated Octave

---
 extra_src/oct_das.cc      | 17 ++++++++---
 extra_src/oct_das_uni.cc  | 49 +++++++++++++++++++-------------
 extra_src/oct_rect_sir.cc |  9 +++++-
 include/das.h             |  3 ++
 include/das_uni.h         |  3 ++
 oct/oct_dreamcirc.cc      |  9 +++++-
 oct/oct_dreamrect.cc      |  9 +++++-
 opencl/cl_das.cc          |  4 +--
 opencl/cl_das_uni.cc      |  4 +--
 opencl/cl_dreamcirc.cc    | 57 +++++++++++++++++++++++--------------
 opencl/cl_dreamrect.cc    | 59 ++++++++++++++++++++++++---------------
 opencl/cl_rect_sir.cc     | 55 +++++++++++++++++++++++-------------
 12 files changed, 184 insertions(+), 94 deletions(-)

diff --git a/extra_src/oct_das.cc b/extra_src/oct_das.cc
index 0496601..b27b0d0 100644
--- a/extra_src/oct_das.cc
+++ b/extra_src/oct_das.cc
@@ -538,10 +538,19 @@ Copyright @copyright{} 2008-2025 Fredrik Lingvall.\n\
   // Check if we should use the GPU
   if (device == "gpu") {
 
-    if (use_float) { // Single precision
-      das_f->cl_das(Yf, Ro_f, Gt_f, Gr_f, dt_f, delay_f[0], cp_f, Im_f);
-    } else { // Double precision
-      das_d->cl_das(Yd, Ro_d, Gt_d, Gr_d, dt_d, delay_d[0], cp_d, Im_d);
+    try {
+
+      if (use_float) { // Single precision
+        das_f->cl_das(Yf, Ro_f, Gt_f, Gr_f, dt_f, delay_f[0], cp_f, Im_f);
+      } else { // Double precision
+        das_d->cl_das(Yd, Ro_d, Gt_d, Gr_d, dt_d, delay_d[0], cp_d, Im_d);
+      }
+
+    }
+
+    catch (std::exception &std_err) {
+      error("%s", std_err.what());
+      return oct_retval;
     }
 
   } else { // Otherwise use the cpu
diff --git a/extra_src/oct_das_uni.cc b/extra_src/oct_das_uni.cc
index 0f5dca7..c8ad0c4 100644
--- a/extra_src/oct_das_uni.cc
+++ b/extra_src/oct_das_uni.cc
@@ -484,26 +484,35 @@ Copyright @copyright{} 2023 Fredrik Lingvall.\n\
     }
   }
 
-  if (use_float) { // Single precision
-    das_uni_f->cl_das_uni(Yf,
-                          min_t_f, pitch_t_f, max_t_f,
-                          min_r_f, pitch_r_f, max_r_f,
-                          min_Rx_f, dx_f, max_Rx_f,
-                          min_Ry_f, dy_f, max_Ry_f,
-                          min_Rz_f, dz_f, max_Rz_f,
-                          dt_f,
-                          delay_f[0], cp_f,
-                          Im_f);
-  } else { // Double precision
-    das_uni_d->cl_das_uni(Yd,
-                          min_t_d, pitch_t_d, max_t_d,
-                          min_r_d, pitch_r_d, max_r_d,
-                          min_Rx_d, dx_d, max_Rx_d,
-                          min_Ry_d, dy_d, max_Ry_d,
-                          min_Rz_d, dz_d, max_Rz_d,
-                          dt_d,
-                          delay_d[0], cp_d,
-                          Im_d);
+  try {
+
+    if (use_float) { // Single precision
+      das_uni_f->cl_das_uni(Yf,
+                            min_t_f, pitch_t_f, max_t_f,
+                            min_r_f, pitch_r_f, max_r_f,
+                            min_Rx_f, dx_f, max_Rx_f,
+                            min_Ry_f, dy_f, max_Ry_f,
+                            min_Rz_f, dz_f, max_Rz_f,
+                            dt_f,
+                            delay_f[0], cp_f,
+                            Im_f);
+    } else { // Double precision
+      das_uni_d->cl_das_uni(Yd,
+                            min_t_d, pitch_t_d, max_t_d,
+                            min_r_d, pitch_r_d, max_r_d,
+                            min_Rx_d, dx_d, max_Rx_d,
+                            min_Ry_d, dy_d, max_Ry_d,
+                            min_Rz_d, dz_d, max_Rz_d,
+                            dt_d,
+                            delay_d[0], cp_d,
+                            Im_d);
+    }
+
+  }
+
+  catch (std::exception &std_err) {
+    error("%s", std_err.what());
+    return oct_retval;
   }
 
   if (use_float) {
diff --git a/extra_src/oct_rect_sir.cc b/extra_src/oct_rect_sir.cc
index fb8cfc5..340e9bc 100644
--- a/extra_src/oct_rect_sir.cc
+++ b/extra_src/oct_rect_sir.cc
@@ -239,7 +239,14 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
 
 #ifdef USE_OPENCL
   if (device == "gpu" && delay_type == DelayType::single) {
-    rect_sir.cl_rect_sir(Ro, No, a, b, dt, nt, delay[0], v, cp, h);
+    try {
+      rect_sir.cl_rect_sir(Ro, No, a, b, dt, nt, delay[0], v, cp, h);
+    }
+
+    catch (std::runtime_error &err) {
+      error("%s", err.what());
+      return oct_retval;
+    }
 
   } else { // Otherwise use the cpu
 #endif
diff --git a/include/das.h b/include/das.h
index 242e055..8a73c70 100644
--- a/include/das.h
+++ b/include/das.h
@@ -140,6 +140,9 @@ public:
         das_kernel += "/das_double.cl";
       }
       std::ifstream f_kernel(das_kernel);
+      if (!f_kernel) {
+        throw std::runtime_error("Error in das - could not read the OpenCL kernel: " + das_kernel);
+      }
       f_kernel.seekg(0, std::ios::end);
       kernel_str.reserve(f_kernel.tellg());
       f_kernel.seekg(0, std::ios::beg);
diff --git a/include/das_uni.h b/include/das_uni.h
index 7191f42..2439fdd 100644
--- a/include/das_uni.h
+++ b/include/das_uni.h
@@ -118,6 +118,9 @@ class DAS_UNI
         das_kernel += "/das_uni_double.cl";
       }
       std::ifstream f_kernel(das_kernel);
+      if (!f_kernel) {
+        throw std::runtime_error("Error in das_uni - could not read the OpenCL kernel: " + das_kernel);
+      }
       f_kernel.seekg(0, std::ios::end);
       kernel_str.reserve(f_kernel.tellg());
       f_kernel.seekg(0, std::ios::beg);
diff --git a/oct/oct_dreamcirc.cc b/oct/oct_dreamcirc.cc
index 65fe736..66a4e14 100644
--- a/oct/oct_dreamcirc.cc
+++ b/oct/oct_dreamcirc.cc
@@ -239,7 +239,14 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
   // Check if we should use the GPU (which has one common delay and no attenuation).
   if (device == "gpu" && delay_type == DelayType::single && !(alpha > std::numeric_limits<double>::epsilon())) {
 
-    circ.cl_dreamcirc(Ro, No, R,  dx, dy, dt, nt,  delay[0], v, cp, h);
+    try {
+      circ.cl_dreamcirc(Ro, No, R,  dx, dy, dt, nt,  delay[0], v, cp, h);
+    }
+
+    catch (std::runtime_error &err) {
+      error("%s", err.what());
+      return oct_retval;
+    }
 
   } else { // Otherwise use the cpu
 #endif
diff --git a/oct/oct_dreamrect.cc b/oct/oct_dreamrect.cc
index d152b24..b2446e8 100644
--- a/oct/oct_dreamrect.cc
+++ b/oct/oct_dreamrect.cc
@@ -241,7 +241,14 @@ Copyright @copyright{} 2006-2024 Fredrik Lingvall.\n\
 
   // Check if we should use the GPU (which has one common delay and no attenuation).
   if (device == "gpu" && delay_type == DelayType::single && !(alpha > std::numeric_limits<double>::epsilon())) {
-    rect.cl_dreamrect(Ro, No, a, b, dx, dy, dt, nt, delay[0], v, cp, h);
+    try {
+      rect.cl_dreamrect(Ro, No, a, b, dx, dy, dt, nt, delay[0], v, cp, h);
+    }
+
+    catch (std::runtime_error &err) {
+      error("%s", err.what());
+      return oct_retval;
+    }
 
   } else { // Otherwise use the cpu
 #endif
diff --git a/opencl/cl_das.cc b/opencl/cl_das.cc
index 617cd18..6403f9a 100644
--- a/opencl/cl_das.cc
+++ b/opencl/cl_das.cc
@@ -137,7 +137,7 @@ int DAS<T>::cl_das(const T *Y, // Data
   }
 
   catch (const cl::Error &err) {
-    std::cerr << "OpenCL kernel run failed: " << err.what() << std::endl;
+    throw std::runtime_error(std::string("Error in das - OpenCL kernel run failed: ") + err.what());
   }
 
   //
@@ -149,7 +149,7 @@ int DAS<T>::cl_das(const T *Y, // Data
   }
 
   catch (const cl::Error &err) {
-    std::cerr << "Failed to get results buffer from GPU: " << err.what() << std::endl;
+    throw std::runtime_error(std::string("Error in das - Failed to get results buffer from GPU: ") + err.what());
   }
 
   int retval = 0;
diff --git a/opencl/cl_das_uni.cc b/opencl/cl_das_uni.cc
index b5f0c1b..efbe73b 100644
--- a/opencl/cl_das_uni.cc
+++ b/opencl/cl_das_uni.cc
@@ -164,7 +164,7 @@ int DAS_UNI<T>::cl_das_uni(const T *Y, // Data
   }
 
   catch (const cl::Error &err) {
-    std::cerr << "OpenCL kernel run failed: " << err.what() << std::endl;
+    throw std::runtime_error(std::string("Error in das_uni - OpenCL kernel run failed: ") + err.what());
   }
 
   //
@@ -176,7 +176,7 @@ int DAS_UNI<T>::cl_das_uni(const T *Y, // Data
   }
 
   catch (const cl::Error &err) {
-    std::cerr << "Failed to get results buffer from GPU: " << err.what() << std::endl;
+    throw std::runtime_error(std::string("Error in das_uni - Failed to get results buffer from GPU: ") + err.what());
   }
 
   int retval = 0;
diff --git a/opencl/cl_dreamcirc.cc b/opencl/cl_dreamcirc.cc
index cde8c7e..e8a1e8d 100644
--- a/opencl/cl_dreamcirc.cc
+++ b/opencl/cl_dreamcirc.cc
@@ -25,6 +25,8 @@
 #include <math.h>
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
+#include <string>
 #include <streambuf>
 
 #include "dreamcirc.h"
@@ -34,6 +36,13 @@
 #include <CL/cl.h>
 
 
+static void cl_check(cl_int ret, const char *what)
+{
+  if (ret < 0) {
+    throw std::runtime_error(std::string("Error in dreamcirc - OpenCL error: ") + what + " ret: " + std::to_string(ret));
+  }
+}
+
 /***
  *
  * OpenCL version of dreamcirc
@@ -68,6 +77,9 @@ int Circ::cl_dreamcirc(const double *Ro,
   std::string dreamcirc_kernel = dream_cl_kernel;
   dreamcirc_kernel += "/dreamcirc.cl";
   std::ifstream f_kernel(dreamcirc_kernel);
+  if (!f_kernel) {
+    throw std::runtime_error("Error in dreamcirc - could not read the OpenCL kernel: " + dreamcirc_kernel);
+  }
   f_kernel.seekg(0, std::ios::end);
   kernel_str.reserve(f_kernel.tellg());
   f_kernel.seekg(0, std::ios::beg);
@@ -91,15 +103,17 @@ int Circ::cl_dreamcirc(const double *Ro,
 
   //ret = clGetDeviceIDs(platform_id, CL_DEVICE_TYPE_DEFAULT, 1, &device_id, &ret_num_devices);
   ret = clGetDeviceIDs(platform_id, CL_DEVICE_TYPE_GPU, 1, &device_id, &ret_num_devices);
-  if (ret < 0) std::cout << "ret: " << ret << " num devices: " << ret_num_devices << std::endl;
+  if (ret < 0) {
+    throw std::runtime_error("Error in dreamcirc - OpenCL error: Found no GPU device!");
+  }
 
   // Create an OpenCL context
   cl_context context = clCreateContext( NULL, 1, &device_id, NULL, NULL, &ret);
-  if (ret < 0) std::cout << "cl context ret: " << ret << std::endl;
+  cl_check(ret, "context");
 
   // Create a command queue
   cl_command_queue command_queue = clCreateCommandQueue(context, device_id, 0, &ret);
-  if (ret < 0) std::cout << "cl command queue ret: " << ret << std::endl;
+  cl_check(ret, "command queue");
 
   //
   // Create memory buffers on the device for arguement to the  kernel
@@ -108,7 +122,7 @@ int Circ::cl_dreamcirc(const double *Ro,
   // Read
 
   cl_mem Ro_mo = clCreateBuffer(context, CL_MEM_READ_ONLY, No*3*sizeof(double), NULL, &ret);
-  if (ret < 0) std::cout << "cl Ro mem ret: " << ret << std::endl;
+  cl_check(ret, "Ro mem");
   cl_int No_mo = No;
 
   cl_double r_mo = r;
@@ -123,13 +137,14 @@ int Circ::cl_dreamcirc(const double *Ro,
   // Write
 
   cl_mem H_mo = clCreateBuffer(context, CL_MEM_WRITE_ONLY, nt * No * sizeof(double), NULL, &ret);
-  if (ret < 0) std::cout << "cl H mem ret: " << ret << std::endl;
+  cl_check(ret, "H mem");
 
   //
   // Copy input arguments to their respective memory buffers
   //
 
   ret = clEnqueueWriteBuffer(command_queue, Ro_mo, CL_TRUE, 0, No*3 * sizeof(double), Ro,  0, NULL, NULL);
+  cl_check(ret, "write");
 
   //
   // Create a program from the kernel source
@@ -137,14 +152,13 @@ int Circ::cl_dreamcirc(const double *Ro,
 
   const char *k_c_str = kernel_str.c_str();
   cl_program program = clCreateProgramWithSource(context, 1, (const char **) &k_c_str, (const size_t *) &source_size, &ret);
-  if (ret < 0) std::cout << "cl program ret: " << ret << std::endl;
+  cl_check(ret, "program");
 
   //
   // Build the program
   //
 
   ret = clBuildProgram(program, 1, &device_id, NULL, NULL, NULL);
-  if (ret < 0) std::cout << "cl build program ret: " << ret << std::endl;
 
   if (ret == CL_BUILD_PROGRAM_FAILURE) {
     // Determine the size of the log
@@ -162,41 +176,42 @@ int Circ::cl_dreamcirc(const double *Ro,
 
     free(log);
   }
+  cl_check(ret, "build program");
 
   // Create the OpenCL kernel
   cl_kernel kernel = clCreateKernel(program, "dreamcirc", &ret);
-  if (ret < 0) std::cout << "cl kernel ret: " << ret << std::endl;
+  cl_check(ret, "kernel");
 
   // Set the arguments of the kernel
 
   ret = clSetKernelArg(kernel, 0, sizeof(cl_mem), (void *) &Ro_mo);
-  if (ret < 0) std::cout << "cl kernel arg Ro ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg Ro");
 
   ret = clSetKernelArg(kernel, 1, sizeof(cl_int), (void *) &No_mo);
-  if (ret < 0) std::cout << "cl kernel arg No ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg No");
 
   ret = clSetKernelArg(kernel, 2, sizeof(cl_double), (void *) &r_mo);
-  if (ret < 0) std::cout << "cl kernel arg r ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg r");
 
   ret = clSetKernelArg(kernel, 3, sizeof(cl_double), (void *) &dx_mo);
-  if (ret < 0) std::cout << "cl kernel arg dx ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg dx");
   ret = clSetKernelArg(kernel, 4, sizeof(cl_double), (void *) &dy_mo);
-  if (ret < 0) std::cout << "cl kernel arg dy ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg dy");
   ret = clSetKernelArg(kernel, 5, sizeof(cl_double), (void *) &dt_mo);
-  if (ret < 0) std::cout << "cl kernel arg dt ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg dt");
 
   ret = clSetKernelArg(kernel, 6, sizeof(cl_int), (void *) &nt_mo);
-  if (ret < 0) std::cout << "cl kernel arg nt ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg nt");
 
   ret = clSetKernelArg(kernel, 7, sizeof(cl_double), (void *) &delay_mo);
-  if (ret < 0) std::cout << "cl kernel arg delay ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg delay");
   ret = clSetKernelArg(kernel, 8, sizeof(cl_double), (void *) &v_mo);
-  if (ret < 0) std::cout << "cl kernel arg v ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg v");
   ret = clSetKernelArg(kernel, 9, sizeof(cl_double), (void *) &cp_mo);
-  if (ret < 0) std::cout << "cl kernel arg cp ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg cp");
 
   ret = clSetKernelArg(kernel, 10, sizeof(cl_mem), (void *) &H_mo);
-  if (ret < 0) std::cout << "cl kernel arg H ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg H");
 
   //
   // Execute the OpenCL kernel
@@ -204,14 +219,14 @@ int Circ::cl_dreamcirc(const double *Ro,
 
   size_t global_item_size = No; // Process the entire number of observation points
   ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, NULL, 0, NULL, NULL);
-  if (ret < 0) std::cout << "cl enqueue ret: " << ret << std::endl;
+  cl_check(ret, "enqueue");
 
   //
   // Read the memory buffer C on the device to the local variable C
   //
 
   ret = clEnqueueReadBuffer(command_queue, H_mo, CL_TRUE, 0, nt*No*sizeof(double), H, 0, NULL, NULL);
-  if (ret < 0) std::cout << "cl read ret: " << ret << std::endl;
+  cl_check(ret, "read");
 
   //
   // Clean up
diff --git a/opencl/cl_dreamrect.cc b/opencl/cl_dreamrect.cc
index 2e9230a..9a16d98 100644
--- a/opencl/cl_dreamrect.cc
+++ b/opencl/cl_dreamrect.cc
@@ -25,6 +25,8 @@
 #include <math.h>
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
+#include <string>
 #include <streambuf>
 
 #include "dreamrect.h"
@@ -33,6 +35,13 @@
 #define CL_TARGET_OPENCL_VERSION 120
 #include <CL/cl.h>
 
+static void cl_check(cl_int ret, const char *what)
+{
+  if (ret < 0) {
+    throw std::runtime_error(std::string("Error in dreamrect - OpenCL error: ") + what + " ret: " + std::to_string(ret));
+  }
+}
+
 /***
  *
  * OpenCL version of dreamrect
@@ -68,6 +77,9 @@ int Rect::cl_dreamrect(const double *Ro,
   std::string dreamrect_kernel = dream_cl_kernel;
   dreamrect_kernel += "/dreamrect.cl";
   std::ifstream f_kernel(dreamrect_kernel);
+  if (!f_kernel) {
+    throw std::runtime_error("Error in dreamrect - could not read the OpenCL kernel: " + dreamrect_kernel);
+  }
   f_kernel.seekg(0, std::ios::end);
   kernel_str.reserve(f_kernel.tellg());
   f_kernel.seekg(0, std::ios::beg);
@@ -91,15 +103,17 @@ int Rect::cl_dreamrect(const double *Ro,
 
   //ret = clGetDeviceIDs(platform_id, CL_DEVICE_TYPE_DEFAULT, 1, &device_id, &ret_num_devices);
   ret = clGetDeviceIDs(platform_id, CL_DEVICE_TYPE_GPU, 1, &device_id, &ret_num_devices);
-  if (ret < 0) std::cout << "ret: " << ret << " num devices: " << ret_num_devices << std::endl;
+  if (ret < 0) {
+    throw std::runtime_error("Error in dreamrect - OpenCL error: Found no GPU device!");
+  }
 
   // Create an OpenCL context
   cl_context context = clCreateContext( NULL, 1, &device_id, NULL, NULL, &ret);
-  if (ret < 0) std::cout << "cl context ret: " << ret << std::endl;
+  cl_check(ret, "context");
 
   // Create a command queue
   cl_command_queue command_queue = clCreateCommandQueue(context, device_id, 0, &ret);
-  if (ret < 0) std::cout << "cl command queue ret: " << ret << std::endl;
+  cl_check(ret, "command queue");
 
   //
   // Create memory buffers on the device for arguement to the  kernel
@@ -108,7 +122,7 @@ int Rect::cl_dreamrect(const double *Ro,
   // Read
 
   cl_mem Ro_mo = clCreateBuffer(context, CL_MEM_READ_ONLY, No*3*sizeof(double), NULL, &ret);
-  if (ret < 0) std::cout << "cl Ro mem ret: " << ret << std::endl;
+  cl_check(ret, "Ro mem");
   cl_int No_mo = No;
 
   cl_double a_mo = a;
@@ -124,13 +138,14 @@ int Rect::cl_dreamrect(const double *Ro,
   // Write
 
   cl_mem H_mo = clCreateBuffer(context, CL_MEM_WRITE_ONLY, nt * No * sizeof(double), NULL, &ret);
-  if (ret < 0) std::cout << "cl H mem ret: " << ret << std::endl;
+  cl_check(ret, "H mem");
 
   //
   // Copy input arguments to their respective memory buffers
   //
 
   ret = clEnqueueWriteBuffer(command_queue, Ro_mo, CL_TRUE, 0, No*3 * sizeof(double), Ro,  0, NULL, NULL);
+  cl_check(ret, "write");
 
   //
   // Create a program from the kernel source
@@ -138,14 +153,13 @@ int Rect::cl_dreamrect(const double *Ro,
 
   const char *k_c_str = kernel_str.c_str();
   cl_program program = clCreateProgramWithSource(context, 1, (const char **) &k_c_str, (const size_t *) &source_size, &ret);
-  if (ret < 0) std::cout << "cl program ret: " << ret << std::endl;
+  cl_check(ret, "program");
 
   //
   // Build the program
   //
 
   ret = clBuildProgram(program, 1, &device_id, NULL, NULL, NULL);
-  if (ret < 0) std::cout << "cl build program ret: " << ret << std::endl;
 
   if (ret == CL_BUILD_PROGRAM_FAILURE) {
     // Determine the size of the log
@@ -163,43 +177,44 @@ int Rect::cl_dreamrect(const double *Ro,
 
     free(log);
   }
+  cl_check(ret, "build program");
 
   // Create the OpenCL kernel
   cl_kernel kernel = clCreateKernel(program, "dreamrect", &ret);
-  if (ret < 0) std::cout << "cl kernel ret: " << ret << std::endl;
+  cl_check(ret, "kernel");
 
   // Set the arguments of the kernel
 
   ret = clSetKernelArg(kernel, 0, sizeof(cl_mem), (void *) &Ro_mo);
-  if (ret < 0) std::cout << "cl kernel arg Ro ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg Ro");
 
   ret = clSetKernelArg(kernel, 1, sizeof(cl_int), (void *) &No_mo);
-  if (ret < 0) std::cout << "cl kernel arg No ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg No");
 
   ret = clSetKernelArg(kernel, 2, sizeof(cl_double), (void *) &a_mo);
-  if (ret < 0) std::cout << "cl kernel arg a ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg a");
   ret = clSetKernelArg(kernel, 3, sizeof(cl_double), (void *) &b_mo);
-  if (ret < 0) std::cout << "cl kernel arg b ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg b");
 
   ret = clSetKernelArg(kernel, 4, sizeof(cl_double), (void *) &dx_mo);
-  if (ret < 0) std::cout << "cl kernel arg dx ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg dx");
   ret = clSetKernelArg(kernel, 5, sizeof(cl_double), (void *) &dy_mo);
-  if (ret < 0) std::cout << "cl kernel arg dy ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg dy");
   ret = clSetKernelArg(kernel, 6, sizeof(cl_double), (void *) &dt_mo);
-  if (ret < 0) std::cout << "cl kernel arg dt ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg dt");
 
   ret = clSetKernelArg(kernel, 7, sizeof(cl_int), (void *) &nt_mo);
-  if (ret < 0) std::cout << "cl kernel arg nt ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg nt");
 
   ret = clSetKernelArg(kernel, 8, sizeof(cl_double), (void *) &delay_mo);
-  if (ret < 0) std::cout << "cl kernel arg delay ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg delay");
   ret = clSetKernelArg(kernel, 9, sizeof(cl_double), (void *) &v_mo);
-  if (ret < 0) std::cout << "cl kernel arg v ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg v");
   ret = clSetKernelArg(kernel, 10, sizeof(cl_double), (void *) &cp_mo);
-  if (ret < 0) std::cout << "cl kernel arg cp ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg cp");
 
   ret = clSetKernelArg(kernel, 11, sizeof(cl_mem), (void *) &H_mo);
-  if (ret < 0) std::cout << "cl kernel arg H ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg H");
 
   //
   // Execute the OpenCL kernel
@@ -207,14 +222,14 @@ int Rect::cl_dreamrect(const double *Ro,
 
   size_t global_item_size = No; // Process the entire number of observation points
   ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, NULL, 0, NULL, NULL);
-  if (ret < 0) std::cout << "cl enqueue ret: " << ret << std::endl;
+  cl_check(ret, "enqueue");
 
   //
   // Read the memory buffer C on the device to the local variable C
   //
 
   ret = clEnqueueReadBuffer(command_queue, H_mo, CL_TRUE, 0, nt*No*sizeof(double), H, 0, NULL, NULL);
-  if (ret < 0) std::cout << "cl read ret: " << ret << std::endl;
+  cl_check(ret, "read");
 
   //
   // Clean up
diff --git a/opencl/cl_rect_sir.cc b/opencl/cl_rect_sir.cc
index 5ebf1f5..ad8c5ef 100644
--- a/opencl/cl_rect_sir.cc
+++ b/opencl/cl_rect_sir.cc
@@ -25,6 +25,8 @@
 #include <math.h>
 #include <iostream>
 #include <fstream>
+#include <stdexcept>
+#include <string>
 #include <streambuf>
 
 #include "rect_sir.h"
@@ -32,6 +34,13 @@
 #define CL_TARGET_OPENCL_VERSION 120
 #include <CL/cl.h>
 
+static void cl_check(cl_int ret, const char *what)
+{
+  if (ret < 0) {
+    throw std::runtime_error(std::string("Error in rect_sir - OpenCL error: ") + what + " ret: " + std::to_string(ret));
+  }
+}
+
 /***
  *
  * OpenCL version of rect_sir
@@ -61,6 +70,9 @@ int RectSir::cl_rect_sir(const double *Ro,
   std::string rect_sir_kernel = dream_cl_kernel;
   rect_sir_kernel += "/rect_sir.cl";
   std::ifstream f_kernel(rect_sir_kernel);
+  if (!f_kernel) {
+    throw std::runtime_error("Error in rect_sir - could not read the OpenCL kernel: " + rect_sir_kernel);
+  }
   f_kernel.seekg(0, std::ios::end);
   kernel_str.reserve(f_kernel.tellg());
   f_kernel.seekg(0, std::ios::beg);
@@ -84,15 +96,17 @@ int RectSir::cl_rect_sir(const double *Ro,
 
   //ret = clGetDeviceIDs(platform_id, CL_DEVICE_TYPE_DEFAULT, 1, &device_id, &ret_num_devices);
   ret = clGetDeviceIDs(platform_id, CL_DEVICE_TYPE_GPU, 1, &device_id, &ret_num_devices);
-  if (ret < 0) std::cout << "ret: " << ret << " num devices: " << ret_num_devices << std::endl;
+  if (ret < 0) {
+    throw std::runtime_error("Error in rect_sir - OpenCL error: Found no GPU device!");
+  }
 
   // Create an OpenCL context
   cl_context context = clCreateContext( NULL, 1, &device_id, NULL, NULL, &ret);
-  if (ret < 0) std::cout << "cl context ret: " << ret << std::endl;
+  cl_check(ret, "context");
 
   // Create a command queue
   cl_command_queue command_queue = clCreateCommandQueue(context, device_id, 0, &ret);
-  if (ret < 0) std::cout << "cl command queue ret: " << ret << std::endl;
+  cl_check(ret, "command queue");
 
   //
   // Create memory buffers on the device for arguement to the  kernel
@@ -101,7 +115,7 @@ int RectSir::cl_rect_sir(const double *Ro,
   // Read
 
   cl_mem Ro_mo = clCreateBuffer(context, CL_MEM_READ_ONLY, No*3*sizeof(double), NULL, &ret);
-  if (ret < 0) std::cout << "cl Ro mem ret: " << ret << std::endl;
+  cl_check(ret, "Ro mem");
   cl_int No_mo = No;
 
   cl_double a_mo = a;
@@ -115,13 +129,14 @@ int RectSir::cl_rect_sir(const double *Ro,
   // Write
 
   cl_mem H_mo = clCreateBuffer(context, CL_MEM_WRITE_ONLY, nt * No * sizeof(double), NULL, &ret);
-  if (ret < 0) std::cout << "cl H mem ret: " << ret << std::endl;
+  cl_check(ret, "H mem");
 
   //
   // Copy input arguments to their respective memory buffers
   //
 
   ret = clEnqueueWriteBuffer(command_queue, Ro_mo, CL_TRUE, 0, No*3 * sizeof(double), Ro,  0, NULL, NULL);
+  cl_check(ret, "write");
 
   //
   // Create a program from the kernel source
@@ -129,14 +144,13 @@ int RectSir::cl_rect_sir(const double *Ro,
 
   const char *k_c_str = kernel_str.c_str();
   cl_program program = clCreateProgramWithSource(context, 1, (const char **) &k_c_str, (const size_t *) &source_size, &ret);
-  if (ret < 0) std::cout << "cl program ret: " << ret << std::endl;
+  cl_check(ret, "program");
 
   //
   // Build the program
   //
 
   ret = clBuildProgram(program, 1, &device_id, NULL, NULL, NULL);
-  if (ret < 0) std::cout << "cl build program ret: " << ret << std::endl;
 
   if (ret == CL_BUILD_PROGRAM_FAILURE) {
     // Determine the size of the log
@@ -154,39 +168,40 @@ int RectSir::cl_rect_sir(const double *Ro,
 
     free(log);
   }
+  cl_check(ret, "build program");
 
   // Create the OpenCL kernel
   cl_kernel kernel = clCreateKernel(program, "rect_sir", &ret);
-  if (ret < 0) std::cout << "cl kernel ret: " << ret << std::endl;
+  cl_check(ret, "kernel");
 
   // Set the arguments of the kernel
 
   ret = clSetKernelArg(kernel, 0, sizeof(cl_mem), (void *) &Ro_mo);
-  if (ret < 0) std::cout << "cl kernel arg Ro ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg Ro");
 
   ret = clSetKernelArg(kernel, 1, sizeof(cl_int), (void *) &No_mo);
-  if (ret < 0) std::cout << "cl kernel arg No ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg No");
 
   ret = clSetKernelArg(kernel, 2, sizeof(cl_double), (void *) &a_mo);
-  if (ret < 0) std::cout << "cl kernel arg a ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg a");
   ret = clSetKernelArg(kernel, 3, sizeof(cl_double), (void *) &b_mo);
-  if (ret < 0) std::cout << "cl kernel arg b ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg b");
 
   ret = clSetKernelArg(kernel, 4, sizeof(cl_double), (void *) &dt_mo);
-  if (ret < 0) std::cout << "cl kernel arg dt ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg dt");
 
   ret = clSetKernelArg(kernel, 5, sizeof(cl_int), (void *) &nt_mo);
-  if (ret < 0) std::cout << "cl kernel arg nt ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg nt");
 
   ret = clSetKernelArg(kernel, 6, sizeof(cl_double), (void *) &delay_mo);
-  if (ret < 0) std::cout << "cl kernel arg delay ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg delay");
   ret = clSetKernelArg(kernel, 7, sizeof(cl_double), (void *) &v_mo);
-  if (ret < 0) std::cout << "cl kernel arg v ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg v");
   ret = clSetKernelArg(kernel, 8, sizeof(cl_double), (void *) &cp_mo);
-  if (ret < 0) std::cout << "cl kernel arg cp ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg cp");
 
   ret = clSetKernelArg(kernel, 9, sizeof(cl_mem), (void *) &H_mo);
-  if (ret < 0) std::cout << "cl kernel arg H ret: " << ret << std::endl;
+  cl_check(ret, "kernel arg H");
 
   //
   // Execute the OpenCL kernel
@@ -194,14 +209,14 @@ int RectSir::cl_rect_sir(const double *Ro,
 
   size_t global_item_size = No; // Process the entire number of observation points
   ret = clEnqueueNDRangeKernel(command_queue, kernel, 1, NULL, &global_item_size, NULL, 0, NULL, NULL);
-  if (ret < 0) std::cout << "cl enqueue ret: " << ret << std::endl;
+  cl_check(ret, "enqueue");
 
   //
   // Read the memory buffer C on the device to the local variable C
   //
 
   ret = clEnqueueReadBuffer(command_queue, H_mo, CL_TRUE, 0, nt*No*sizeof(double), h, 0, NULL, NULL);
-  if (ret < 0) std::cout << "cl read ret: " << ret << std::endl;
+  cl_check(ret, "read");
 
   //
   // Clean up
-- 
2.43.0


From f761d8cb5e16221218d4297377dd6440444bebfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:10 +0000
Subject: [PATCH 49/52] fix: use sqrt in the double precision DAS kernels,
 native_sqrt is only defined for single precision

---
 opencl/das_double.cl     | 14 +++++++-------
 opencl/das_uni_double.cl | 18 +++++++++---------
 2 files changed, 16 insertions(+), 16 deletions(-)

diff --git a/opencl/das_double.cl b/opencl/das_double.cl
index b7daf59..907c968 100644
--- a/opencl/das_double.cl
+++ b/opencl/das_double.cl
@@ -34,7 +34,7 @@ __kernel void das_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x num
     DAS_DATATYPE gx_tr = G[n_tr] - xo;
     DAS_DATATYPE gy_tr = G[n_tr + 1*num_elements] - yo;
     DAS_DATATYPE gz_tr = G[n_tr + 2*num_elements] - zo;
-    DAS_DATATYPE t_tr = native_sqrt(gx_tr*gx_tr + gy_tr*gy_tr + gz_tr*gz_tr) * one_over_cp; // [ms].
+    DAS_DATATYPE t_tr = sqrt(gx_tr*gx_tr + gy_tr*gy_tr + gz_tr*gz_tr) * one_over_cp; // [ms].
     t_tr += delay_ms;           // Compensate for pulse system delay.
 
     DAS_DATATYPE t_dp = 2.0*t_tr; // Double-path travel time.
@@ -81,7 +81,7 @@ __kernel void das_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x num_
     DAS_DATATYPE gx_t = Gt[n_t] - xo;
     DAS_DATATYPE gy_t = Gt[n_t + 1*num_t_elements] - yo;
     DAS_DATATYPE gz_t = Gt[n_t + 2*num_t_elements] - zo;
-    DAS_DATATYPE t_t = native_sqrt(gx_t*gx_t + gy_t*gy_t + gz_t*gz_t) * one_over_cp; // [ms].
+    DAS_DATATYPE t_t = sqrt(gx_t*gx_t + gy_t*gy_t + gz_t*gz_t) * one_over_cp; // [ms].
     t_t += delay_ms;            // Compensate for pulse system delay.
 
     for (int n_r=0; n_r<num_r_elements; n_r++) {
@@ -90,7 +90,7 @@ __kernel void das_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x num_
       DAS_DATATYPE gx_r = Gr[n_r] - xo;
       DAS_DATATYPE gy_r = Gr[n_r + 1*num_r_elements] - yo;
       DAS_DATATYPE gz_r = Gr[n_r + 2*num_r_elements] - zo;
-      DAS_DATATYPE t_r = native_sqrt(gx_r*gx_r + gy_r*gy_r + gz_r*gz_r) * one_over_cp;
+      DAS_DATATYPE t_r = sqrt(gx_r*gx_r + gy_r*gy_r + gz_r*gz_r) * one_over_cp;
 
       DAS_DATATYPE t_dp = t_t + t_r; // Double-path travel time.
       int k = (int) (t_dp*Fs_khz);
@@ -152,7 +152,7 @@ __kernel void das_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
       }
     }
     DAS_DATATYPE gz_c = G_col[n_c + 2*num_cols] - zo;
-    DAS_DATATYPE t_c = native_sqrt(gx_c*gx_c + gy_c*gy_c + gz_c*gz_c) * one_over_cp; // [ms].
+    DAS_DATATYPE t_c = sqrt(gx_c*gx_c + gy_c*gy_c + gz_c*gz_c) * one_over_cp; // [ms].
     t_c += delay_ms;            // Compensate for pulse system delay.
 
     for (int n_r=0; n_r<num_rows; n_r++) {
@@ -170,7 +170,7 @@ __kernel void das_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
       }
       DAS_DATATYPE gy_r = G_row[n_r + 1*num_rows] - yo;
       DAS_DATATYPE gz_r = G_row[n_r + 2*num_rows] - zo;
-      DAS_DATATYPE t_r = native_sqrt(gx_r*gx_r + gy_r*gy_r + gz_r*gz_r) * one_over_cp;
+      DAS_DATATYPE t_r = sqrt(gx_r*gx_r + gy_r*gy_r + gz_r*gz_r) * one_over_cp;
 
       DAS_DATATYPE t_dp = t_c + t_r; // Double-path travel time.
       int k = (int) (t_dp*Fs_khz);
@@ -232,7 +232,7 @@ __kernel void das_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
     }
     DAS_DATATYPE gy_r = G_row[n_r + 1*num_rows] - yo;
     DAS_DATATYPE gz_r = G_row[n_r + 2*num_rows] - zo;
-    DAS_DATATYPE t_r = native_sqrt(gx_r*gx_r + gy_r*gy_r + gz_r*gz_r) * one_over_cp;
+    DAS_DATATYPE t_r = sqrt(gx_r*gx_r + gy_r*gy_r + gz_r*gz_r) * one_over_cp;
 
     for (int n_c=0; n_c<num_cols; n_c++) {
 
@@ -249,7 +249,7 @@ __kernel void das_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_len
         }
       }
       DAS_DATATYPE gz_c = G_col[n_c + 2*num_cols] - zo;
-      DAS_DATATYPE t_c = native_sqrt(gx_c*gx_c + gy_c*gy_c + gz_c*gz_c) * one_over_cp; // [ms].
+      DAS_DATATYPE t_c = sqrt(gx_c*gx_c + gy_c*gy_c + gz_c*gz_c) * one_over_cp; // [ms].
       t_c += delay_ms;            // Compensate for pulse system delay.
 
       DAS_DATATYPE t_dp = t_c + t_r; // Double-path travel time.
diff --git a/opencl/das_uni_double.cl b/opencl/das_uni_double.cl
index 91d622e..99cf192 100644
--- a/opencl/das_uni_double.cl
+++ b/opencl/das_uni_double.cl
@@ -59,7 +59,7 @@ __kernel void das_uni_saft(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
     DAS_DATATYPE gx_tr = x_tr - xo;
     //DAS_DATATYPE gy_tr = yo; // Assume y_tr = 0.0;
     //DAS_DATATYPE gz_tr = zo; // Assume z_tr = 0.0;
-    DAS_DATATYPE t_tr = native_sqrt(gx_tr*gx_tr + yo*yo + zo*zo) * one_over_cp; // [ms].
+    DAS_DATATYPE t_tr = sqrt(gx_tr*gx_tr + yo*yo + zo*zo) * one_over_cp; // [ms].
     t_tr += delay_ms;           // Compensate for pulse system delay.
 
     DAS_DATATYPE t_dp = 2.0*t_tr; // Double-path travel time.
@@ -136,8 +136,8 @@ __kernel void das_uni_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
     DAS_DATATYPE gx_t = xt - xo;
     //DAS_DATATYPE gy_t = yo; // Assume yt = 0.0;
     //DAS_DATATYPE gz_t = zo; // Assume zt = 0.0;
-    //DAS_DATATYPE t_t = native_sqrt(gx_t*gx_t + gy_t*gy_t + gz_t*gz_t) * one_over_cp; // [ms].
-    DAS_DATATYPE t_t = native_sqrt(gx_t*gx_t + yo*yo + zo*zo) * one_over_cp; // [ms].
+    //DAS_DATATYPE t_t = sqrt(gx_t*gx_t + gy_t*gy_t + gz_t*gz_t) * one_over_cp; // [ms].
+    DAS_DATATYPE t_t = sqrt(gx_t*gx_t + yo*yo + zo*zo) * one_over_cp; // [ms].
     t_t += delay_ms;            // Compensate for pulse system delay.
 
     for (int n_r=0; n_r<num_r_elements; n_r++) {
@@ -147,8 +147,8 @@ __kernel void das_uni_tfm(__global const DAS_DATATYPE *Y, // Size: a_scan_len x
       DAS_DATATYPE gx_r = xr - xo;
       //DAS_DATATYPE gy_r = yo;  // Assume yr = 0.0;
       //DAS_DATATYPE gz_r = zo;  // Assume zt = 0.0;
-      //DAS_DATATYPE t_r = native_sqrt(gx_r*gx_r + gy_r*gy_r + gz_r*gz_r) * one_over_cp;
-      DAS_DATATYPE t_r = native_sqrt(gx_r*gx_r + yo*yo + zo*zo) * one_over_cp; // [ms].
+      //DAS_DATATYPE t_r = sqrt(gx_r*gx_r + gy_r*gy_r + gz_r*gz_r) * one_over_cp;
+      DAS_DATATYPE t_r = sqrt(gx_r*gx_r + yo*yo + zo*zo) * one_over_cp; // [ms].
 
       DAS_DATATYPE t_dp = t_t + t_r; // Double-path travel time.
       int k = (int) (t_dp*Fs_khz);
@@ -242,7 +242,7 @@ __kernel void das_uni_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_
     }
 
     //DAS_DATATYPE gz_c = zo; // Assume zc = 0.0;
-    DAS_DATATYPE t_c = native_sqrt(gx_c*gx_c + gy_c*gy_c + zo*zo) * one_over_cp; // [ms].
+    DAS_DATATYPE t_c = sqrt(gx_c*gx_c + gy_c*gy_c + zo*zo) * one_over_cp; // [ms].
 
     t_c += delay_ms;            // Compensate for pulse system delay.
 
@@ -262,7 +262,7 @@ __kernel void das_uni_rca_coltx(__global const DAS_DATATYPE *Y, // Size: a_scan_
       DAS_DATATYPE yr = min_r + ((DAS_DATATYPE) n_r)*pitch_r;
       DAS_DATATYPE gy_r = yr - yo;
       //DAS_DATATYPE gz_r = zo; // Assume zr = 0.0;
-      DAS_DATATYPE t_r = native_sqrt(gx_r*gx_r + gy_r*gy_r + zo*zo) * one_over_cp;
+      DAS_DATATYPE t_r = sqrt(gx_r*gx_r + gy_r*gy_r + zo*zo) * one_over_cp;
 
       DAS_DATATYPE t_dp = t_c + t_r; // Double-path travel time.
       int k = (int) (t_dp*Fs_khz);
@@ -355,7 +355,7 @@ __kernel void das_uni_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_
     DAS_DATATYPE yr = min_r + ((DAS_DATATYPE) n_r)*pitch_r;
     DAS_DATATYPE gy_r = yr - yo;
     //DAS_DATATYPE gz_r = zo; // Assume zr = 0.0;
-    DAS_DATATYPE t_r = native_sqrt(gx_r*gx_r + gy_r*gy_r + zo*zo) * one_over_cp;
+    DAS_DATATYPE t_r = sqrt(gx_r*gx_r + gy_r*gy_r + zo*zo) * one_over_cp;
 
     t_r += delay_ms;            // Compensate for pulse system delay.
 
@@ -376,7 +376,7 @@ __kernel void das_uni_rca_rowtx(__global const DAS_DATATYPE *Y, // Size: a_scan_
       }
 
       //DAS_DATATYPE gz_c = zo; // Assume zc = 0.0;
-      DAS_DATATYPE t_c = native_sqrt(gx_c*gx_c + gy_c*gy_c + zo*zo) * one_over_cp; // [ms].
+      DAS_DATATYPE t_c = sqrt(gx_c*gx_c + gy_c*gy_c + zo*zo) * one_over_cp; // [ms].
 
       DAS_DATATYPE t_dp = t_c + t_r; // Double-path travel time.
       int k = (int) (t_dp*Fs_khz);
-- 
2.43.0


From d87882b822ac31acb2f3def49114e570717df1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:11:03 +0000
Subject: [PATCH 50/52] fix: a DREAM_NUM_THREADS that is not a number (or
 empty) aborted the session

---
 extra_src/das.cc             | 2 +-
 extra_src/fftconv_p.cc       | 2 +-
 extra_src/mex_circ_sir.cc    | 2 +-
 extra_src/mex_conv_p.cc      | 2 +-
 extra_src/mex_copy_p.cc      | 2 +-
 extra_src/mex_fftconv_ola.cc | 2 +-
 extra_src/mex_fftconv_p.cc   | 2 +-
 extra_src/mex_scirc_sir.cc   | 2 +-
 extra_src/mex_sum_fftconv.cc | 2 +-
 extra_src/oct_add_p.cc       | 2 +-
 extra_src/oct_circ_sir.cc    | 2 +-
 extra_src/oct_conv_p.cc      | 2 +-
 extra_src/oct_copy_p.cc      | 2 +-
 extra_src/oct_fftconv_ola.cc | 2 +-
 extra_src/oct_fftconv_p.cc   | 2 +-
 extra_src/oct_sum_fftconv.cc | 2 +-
 extra_src/rect_sir.cc        | 2 +-
 julia/src/jl_conv_p.cc       | 2 +-
 julia/src/jl_fftconv_p.cc    | 2 +-
 src/dream_arr_annu.cc        | 2 +-
 src/dream_arr_circ.cc        | 2 +-
 src/dream_arr_cylind.cc      | 2 +-
 src/dream_arr_rect.cc        | 2 +-
 src/dreamcirc.cc             | 2 +-
 src/dreamcirc_f.cc           | 2 +-
 src/dreamcylind.cc           | 2 +-
 src/dreamline.cc             | 2 +-
 src/dreamrect.cc             | 2 +-
 src/dreamrect_f.cc           | 2 +-
 src/dreamsphere.cc           | 2 +-
 30 files changed, 30 insertions(+), 30 deletions(-)

diff --git a/extra_src/das.cc b/extra_src/das.cc
index 8d6d40b..7f839b1 100644
--- a/extra_src/das.cc
+++ b/extra_src/das.cc
@@ -239,7 +239,7 @@ SIRError DAS<T>::das(const T *Y, const T *Ro, const T *Gt, const T *Gr,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = (dream_idx_type) std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/fftconv_p.cc b/extra_src/fftconv_p.cc
index 9da0b29..9a14ab1 100644
--- a/extra_src/fftconv_p.cc
+++ b/extra_src/fftconv_p.cc
@@ -307,7 +307,7 @@ ErrorLevel FFTConvP::run(double *Y,
 
   // Read DREAM_NUM_THREADS env var
   if (const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/mex_circ_sir.cc b/extra_src/mex_circ_sir.cc
index 9bd827c..ccd44c0 100644
--- a/extra_src/mex_circ_sir.cc
+++ b/extra_src/mex_circ_sir.cc
@@ -228,7 +228,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = (dream_idx_type) std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/mex_conv_p.cc b/extra_src/mex_conv_p.cc
index 756ce4b..d9ce749 100644
--- a/extra_src/mex_conv_p.cc
+++ b/extra_src/mex_conv_p.cc
@@ -229,7 +229,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    unsigned int dream_threads = std::stoul(env_p);
+    unsigned int dream_threads = std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/mex_copy_p.cc b/extra_src/mex_copy_p.cc
index 11b260a..9724a5b 100644
--- a/extra_src/mex_copy_p.cc
+++ b/extra_src/mex_copy_p.cc
@@ -202,7 +202,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    unsigned int dream_threads = std::stoul(env_p);
+    unsigned int dream_threads = std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/mex_fftconv_ola.cc b/extra_src/mex_fftconv_ola.cc
index 7e0a712..1492a69 100644
--- a/extra_src/mex_fftconv_ola.cc
+++ b/extra_src/mex_fftconv_ola.cc
@@ -475,7 +475,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/mex_fftconv_p.cc b/extra_src/mex_fftconv_p.cc
index e982699..6d9c7b3 100644
--- a/extra_src/mex_fftconv_p.cc
+++ b/extra_src/mex_fftconv_p.cc
@@ -365,7 +365,7 @@ void mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/mex_scirc_sir.cc b/extra_src/mex_scirc_sir.cc
index d22b974..cbe9921 100644
--- a/extra_src/mex_scirc_sir.cc
+++ b/extra_src/mex_scirc_sir.cc
@@ -243,7 +243,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = (dream_idx_type) std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/mex_sum_fftconv.cc b/extra_src/mex_sum_fftconv.cc
index 8280b76..c77a5e0 100644
--- a/extra_src/mex_sum_fftconv.cc
+++ b/extra_src/mex_sum_fftconv.cc
@@ -303,7 +303,7 @@ void  mexFunction(int nlhs, mxArray *plhs[], int nrhs, const mxArray *prhs[])
   nthreads = std::thread::hardware_concurrency();
 
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/oct_add_p.cc b/extra_src/oct_add_p.cc
index f106624..0681445 100644
--- a/extra_src/oct_add_p.cc
+++ b/extra_src/oct_add_p.cc
@@ -259,7 +259,7 @@ Addright @addright{} 2006-2023 Fredrik Lingvall.\n\
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/oct_circ_sir.cc b/extra_src/oct_circ_sir.cc
index 5da6ce1..cacf654 100644
--- a/extra_src/oct_circ_sir.cc
+++ b/extra_src/oct_circ_sir.cc
@@ -338,7 +338,7 @@ Copyright @copyright{} 2008-2023 Fredrik Lingvall.\n\
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    unsigned int dream_threads = std::stoul(env_p);
+    unsigned int dream_threads = std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/oct_conv_p.cc b/extra_src/oct_conv_p.cc
index 1ec3cda..26deb92 100644
--- a/extra_src/oct_conv_p.cc
+++ b/extra_src/oct_conv_p.cc
@@ -289,7 +289,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/oct_copy_p.cc b/extra_src/oct_copy_p.cc
index 3910e1d..cf50356 100644
--- a/extra_src/oct_copy_p.cc
+++ b/extra_src/oct_copy_p.cc
@@ -257,7 +257,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/oct_fftconv_ola.cc b/extra_src/oct_fftconv_ola.cc
index 223631c..f18ce2b 100644
--- a/extra_src/oct_fftconv_ola.cc
+++ b/extra_src/oct_fftconv_ola.cc
@@ -611,7 +611,7 @@ Copyright @copyright{} 2010-2021 Fredrik Lingvall.\n\
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/oct_fftconv_p.cc b/extra_src/oct_fftconv_p.cc
index 1ee60f1..6c7c407 100644
--- a/extra_src/oct_fftconv_p.cc
+++ b/extra_src/oct_fftconv_p.cc
@@ -483,7 +483,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
 
   // Read DREAM_NUM_THREADS env var
   if (const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/oct_sum_fftconv.cc b/extra_src/oct_sum_fftconv.cc
index fd378f6..e18496a 100644
--- a/extra_src/oct_sum_fftconv.cc
+++ b/extra_src/oct_sum_fftconv.cc
@@ -425,7 +425,7 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   nthreads = std::thread::hardware_concurrency();
 
   if (const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/extra_src/rect_sir.cc b/extra_src/rect_sir.cc
index bf0967e..0f93069 100644
--- a/extra_src/rect_sir.cc
+++ b/extra_src/rect_sir.cc
@@ -178,7 +178,7 @@ ErrorLevel RectSir::rect_sir(double *Ro, dream_idx_type No,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    unsigned int dream_threads = std::stoul(env_p);
+    unsigned int dream_threads = std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/julia/src/jl_conv_p.cc b/julia/src/jl_conv_p.cc
index bffd5d1..fc0e117 100644
--- a/julia/src/jl_conv_p.cc
+++ b/julia/src/jl_conv_p.cc
@@ -168,7 +168,7 @@ jl::ArrayRef<double, 2> jl_conv_p(jl::ArrayRef<double, 2> jl_A,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/julia/src/jl_fftconv_p.cc b/julia/src/jl_fftconv_p.cc
index dc17fc9..cd54643 100644
--- a/julia/src/jl_fftconv_p.cc
+++ b/julia/src/jl_fftconv_p.cc
@@ -218,7 +218,7 @@ jl::ArrayRef<double, 2> jl_fftconv_p(jl::ArrayRef<double, 2> jl_A,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = std::stoul(env_p);
+    dream_idx_type dream_threads = std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/src/dream_arr_annu.cc b/src/dream_arr_annu.cc
index fb6b77d..8e9dfad 100644
--- a/src/dream_arr_annu.cc
+++ b/src/dream_arr_annu.cc
@@ -556,7 +556,7 @@ SIRError ArrAnnu::dream_arr_annu(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = (dream_idx_type) std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/src/dream_arr_circ.cc b/src/dream_arr_circ.cc
index f5b1866..f7ea224 100644
--- a/src/dream_arr_circ.cc
+++ b/src/dream_arr_circ.cc
@@ -345,7 +345,7 @@ SIRError ArrCirc::dream_arr_circ(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = (dream_idx_type) std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/src/dream_arr_cylind.cc b/src/dream_arr_cylind.cc
index 4719e55..6701bc7 100644
--- a/src/dream_arr_cylind.cc
+++ b/src/dream_arr_cylind.cc
@@ -351,7 +351,7 @@ SIRError ArrCylind::dream_arr_cylind(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = (dream_idx_type) std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/src/dream_arr_rect.cc b/src/dream_arr_rect.cc
index 7a942eb..b2e96d7 100644
--- a/src/dream_arr_rect.cc
+++ b/src/dream_arr_rect.cc
@@ -348,7 +348,7 @@ SIRError ArrRect::dream_arr_rect(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = (dream_idx_type) std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/src/dreamcirc.cc b/src/dreamcirc.cc
index 56e3a61..7240072 100644
--- a/src/dreamcirc.cc
+++ b/src/dreamcirc.cc
@@ -192,7 +192,7 @@ SIRError Circ::dreamcirc(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = (dream_idx_type) std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/src/dreamcirc_f.cc b/src/dreamcirc_f.cc
index b609c88..76df83c 100644
--- a/src/dreamcirc_f.cc
+++ b/src/dreamcirc_f.cc
@@ -191,7 +191,7 @@ SIRError Circ_f::dreamcirc_f(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = (dream_idx_type) std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/src/dreamcylind.cc b/src/dreamcylind.cc
index a3db5e8..30ec701 100644
--- a/src/dreamcylind.cc
+++ b/src/dreamcylind.cc
@@ -189,7 +189,7 @@ SIRError Cylind::dreamcylind(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = (dream_idx_type) std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/src/dreamline.cc b/src/dreamline.cc
index b3d1429..622c562 100644
--- a/src/dreamline.cc
+++ b/src/dreamline.cc
@@ -177,7 +177,7 @@ SIRError Line::dreamline(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = (dream_idx_type) std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/src/dreamrect.cc b/src/dreamrect.cc
index 2a5dd2b..67eab56 100644
--- a/src/dreamrect.cc
+++ b/src/dreamrect.cc
@@ -188,7 +188,7 @@ SIRError Rect::dreamrect(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = (dream_idx_type) std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/src/dreamrect_f.cc b/src/dreamrect_f.cc
index 3dac753..b986fd5 100644
--- a/src/dreamrect_f.cc
+++ b/src/dreamrect_f.cc
@@ -190,7 +190,7 @@ SIRError Rect_f::dreamrect_f(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = (dream_idx_type) std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
diff --git a/src/dreamsphere.cc b/src/dreamsphere.cc
index 41c6989..3c132c5 100644
--- a/src/dreamsphere.cc
+++ b/src/dreamsphere.cc
@@ -187,7 +187,7 @@ SIRError Sphere::dreamsphere(double alpha,
 
   // Read DREAM_NUM_THREADS env var
   if(const char* env_p = std::getenv("DREAM_NUM_THREADS")) {
-    dream_idx_type dream_threads = (dream_idx_type) std::stoul(env_p);
+    dream_idx_type dream_threads = (dream_idx_type) std::strtoul(env_p, nullptr, 10);
     if (dream_threads < nthreads) {
       nthreads = dream_threads;
     }
-- 
2.43.0


From 6a947b6813b3f29fbda825f1c2343d218088519f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:00 +0000
Subject: [PATCH 51/52] fix: dream_att with a length below one crashed the
 session

---
 oct/oct_dream_att.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/oct/oct_dream_att.cc b/oct/oct_dream_att.cc
index 9351f7a..fbd1a1c 100644
--- a/oct/oct_dream_att.cc
+++ b/oct/oct_dream_att.cc
@@ -132,6 +132,11 @@ Copyright @copyright{} 2006-2023 Fredrik Lingvall.\n\
   dt    = s_par[0];		// Temporal discretization size (= 1/sampling freq).
   nt    = (int) s_par[1];	// Length of SIR.
 
+  if (nt < 1) {
+    error("dream_att: the length of the impulse response, nt, must be at least one!");
+    return oct_retval;
+  }
+
   //
   // Start point of impulse response vector ([us]).
   //
-- 
2.43.0


From 2ac250d2a8e509584b57ea6c5899da0d0ba52c92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:14 +0000
Subject: [PATCH 52/52] fix: an element grid without elements was read out of
 bounds instead of being rejected

---
 include/arg_parser.h        | 2 +-
 include/arg_parser_python.h | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/arg_parser.h b/include/arg_parser.h
index 59b3d20..a347b94 100644
--- a/include/arg_parser.h
+++ b/include/arg_parser.h
@@ -98,7 +98,7 @@ public:
   bool check_array(const char *func_name, args_t args, dream_idx_type arg_num) {
     bool retval=true;
     std::ostringstream s;
-    if ( get_n(args, arg_num) != 3 ) {
+    if ( get_n(args, arg_num) != 3 || get_m(args, arg_num) < 1 ) {
       s << func_name <<  " requires that arg " << arg_num+1 << "  must be a (number of array elements) x 3 matrix!";
       dream_err_msg(s.str().c_str());
       retval=false;
diff --git a/include/arg_parser_python.h b/include/arg_parser_python.h
index d02c952..4cca955 100644
--- a/include/arg_parser_python.h
+++ b/include/arg_parser_python.h
@@ -101,7 +101,7 @@ public:
 
     auto G_n = get_n(py_G);
 
-    if ( G_n != 3 ) {
+    if ( G_n != 3 || get_m(py_G) < 1 ) {
       s << func_name <<  " requires that array grid arg must be a (number of array elements) x 3 matrix!";
       dream_err_msg(s.str().c_str());
       retval=false;
-- 
2.43.0

