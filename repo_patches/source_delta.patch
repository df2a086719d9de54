From 760353943cd78e0a2080c98288c7df8b81ff6b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 01/39] fix: destroying a worker thread can miss its wakeup and
 hang

Thread::~Thread cleared is_running and notified without holding task_mutex,
so a worker between testing is_running and waiting never saw the wakeup.
---
 src/runtime/inside/thread_pool.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/runtime/inside/thread_pool.cpp b/src/runtime/inside/thread_pool.cpp
index 3540e7b..0a61ee8 100644
--- a/src/runtime/inside/thread_pool.cpp
+++ b/src/runtime/inside/thread_pool.cpp
@@ -13,7 +13,11 @@ namespace ts {
     }
 
     Thread::~Thread() {
-        is_running = false;
+        {
+            // the worker must not miss the change between testing is_running and waiting
+            std::unique_lock<std::mutex> locker(task_mutex);
+            is_running = false;
+        }
         task_cond.notify_all();
         core.join();
     }
-- 
2.43.0


From 11e9a0d95169d606f5e98bb887364ecadecf5af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:13 +0000
Subject: [PATCH 02/39] fix: a task accepted by a worker thread is dropped when
 the thread is destroyed at once

A task assigned by ThreadPool::run whose worker had not started it yet was
silently discarded by the destructor; run it before stopping.
---
 src/runtime/inside/thread_pool.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/runtime/inside/thread_pool.cpp b/src/runtime/inside/thread_pool.cpp
index 0a61ee8..0b25376 100644
--- a/src/runtime/inside/thread_pool.cpp
+++ b/src/runtime/inside/thread_pool.cpp
@@ -44,9 +44,9 @@ namespace ts {
 
     void Thread::operating() {
         std::unique_lock<std::mutex> locker(task_mutex);
-        while (is_running) {
+        while (true) {
             while (is_running && !task) task_cond.wait(locker);
-            if (!is_running) break;
+            if (!task) break;   // asked to stop, and no accepted task is left
             task(signet);
             if (after_task) after_task(signet);
             task = nullptr;
-- 
2.43.0


From 8d81fa177d2579f301bdc23e95ddad0f6593b258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 03/39] fix: dequantization of quantized convolution shares its
 output pointer between threads

---
 src/kernels/cpu/quantized/conv2d_quantized_core.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/kernels/cpu/quantized/conv2d_quantized_core.cpp b/src/kernels/cpu/quantized/conv2d_quantized_core.cpp
index 2760bae..804a5a2 100644
--- a/src/kernels/cpu/quantized/conv2d_quantized_core.cpp
+++ b/src/kernels/cpu/quantized/conv2d_quantized_core.cpp
@@ -88,6 +88,7 @@ namespace ts {
 #endif
                 for (int c = 0; c < out_shape[1]; c++){
                     auto input_cur = input_data + n * num_offset + c * channal_offset;
+                    auto output_cur = poutput + n * num_offset + c * channal_offset;
                     float dequantize_scale = dequantize_scales[c];
                     float32x4x2 dequantize_scale_x4x2(dequantize_scale);
                     int count = channal_offset;
@@ -97,11 +98,10 @@ namespace ts {
                         int ii = i * 8;
                         float32x4x2 input_x4x2 = intx4x2_to_float32x4x2(int32x4x2(&input_cur[ii]));
                         float32x4x2 out_x4x2 = input_x4x2 * dequantize_scale_x4x2;
-                        out_x4x2.store(poutput);
-                        poutput += 8;
+                        out_x4x2.store(&output_cur[ii]);
                     }
                     for (int i = remain; i < count; i++){
-                        *poutput++ = input_cur[i] * dequantize_scale;
+                        output_cur[i] = input_cur[i] * dequantize_scale;
                     }
                 }
             }
-- 
2.43.0


From e71db3155fdd6d7c5ad5e759bec6afec466fbba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 04/39] fix: linear and cubic sampling read outside images with
 few rows or columns

---
 src/kernels/cpu/affine_sample2d.cpp | 57 +++++++++++++++++-----------
 src/kernels/cpu/resize2d.cpp        | 58 ++++++++++++++++++-----------
 2 files changed, 71 insertions(+), 44 deletions(-)

diff --git a/src/kernels/cpu/affine_sample2d.cpp b/src/kernels/cpu/affine_sample2d.cpp
index 5987558..1761024 100644
--- a/src/kernels/cpu/affine_sample2d.cpp
+++ b/src/kernels/cpu/affine_sample2d.cpp
@@ -90,6 +90,9 @@ namespace ts {
                     int n_x_s = int(lf_x_s);
                     int n_y_s = int(lf_y_s);
 
+                    int n_x_n = n_x_s + 1 < src_width ? n_x_s + 1 : n_x_s;
+                    int n_y_n = n_y_s + 1 < src_height ? n_y_s + 1 : n_y_s;
+
                     double lf_weight_x = lf_x_s - n_x_s;
                     double lf_weight_y = lf_y_s - n_y_s;
 
@@ -98,11 +101,11 @@ namespace ts {
                                 ((1 - lf_weight_y) * (1 - lf_weight_x) *
                                  src_im[(n_y_s * src_width + n_x_s) * channels + c] +
                                  (1 - lf_weight_y) * lf_weight_x *
-                                 src_im[(n_y_s * src_width + n_x_s + 1) * channels + c] +
+                                 src_im[(n_y_s * src_width + n_x_n) * channels + c] +
                                  lf_weight_y * (1 - lf_weight_x) *
-                                 src_im[((n_y_s + 1) * src_width + n_x_s) * channels + c] +
+                                 src_im[(n_y_n * src_width + n_x_s) * channels + c] +
                                  lf_weight_y * lf_weight_x *
-                                 src_im[((n_y_s + 1) * src_width + n_x_s + 1) * channels + c]));
+                                 src_im[(n_y_n * src_width + n_x_n) * channels + c]));
 
                     } //end for c
                 }
@@ -289,27 +292,37 @@ namespace ts {
                         coeffsX[2] = ((A + 2) * (1 - fx) - (A + 3)) * (1 - fx) * (1 - fx) + 1;
                         coeffsX[3] = 1.f - coeffsX[0] - coeffsX[1] - coeffsX[2];
 
+                        // an image with less than 4 rows or columns repeats its border
+                        const int y0 = std::min(std::max(sy - 1, 0), x_height - 1);
+                        const int y1 = std::min(std::max(sy, 0), x_height - 1);
+                        const int y2 = std::min(std::max(sy + 1, 0), x_height - 1);
+                        const int y3 = std::min(std::max(sy + 2, 0), x_height - 1);
+                        const int x0 = std::min(std::max(sx - 1, 0), x_width - 1);
+                        const int x1 = std::min(std::max(sx, 0), x_width - 1);
+                        const int x2 = std::min(std::max(sx + 1, 0), x_width - 1);
+                        const int x3 = std::min(std::max(sx + 2, 0), x_width - 1);
+
                         for (int k = 0; k < channels; k++) {
                             pdst[m * dstrows + n * channels + k] = clamp<T, double>(((
-                                    psrc[(sy - 1) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[0] +
-                                    psrc[(sy) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[1] +
-                                    psrc[(sy + 1) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[2] +
-                                    psrc[(sy + 2) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[3] +
-
-                                    psrc[(sy - 1) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[0] +
-                                    psrc[(sy) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[1] +
-                                    psrc[(sy + 1) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[2] +
-                                    psrc[(sy + 2) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[3] +
-
-                                    psrc[(sy - 1) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[0] +
-                                    psrc[(sy) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[1] +
-                                    psrc[(sy + 1) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[2] +
-                                    psrc[(sy + 2) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[3] +
-
-                                    psrc[(sy - 1) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[0] +
-                                    psrc[(sy) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[1] +
-                                    psrc[(sy + 1) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[2] +
-                                    psrc[(sy + 2) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[3])));
+                                    psrc[y0 * srcrows + x0 * channels + k] * coeffsX[0] * coeffsY[0] +
+                                    psrc[y1 * srcrows + x0 * channels + k] * coeffsX[0] * coeffsY[1] +
+                                    psrc[y2 * srcrows + x0 * channels + k] * coeffsX[0] * coeffsY[2] +
+                                    psrc[y3 * srcrows + x0 * channels + k] * coeffsX[0] * coeffsY[3] +
+
+                                    psrc[y0 * srcrows + x1 * channels + k] * coeffsX[1] * coeffsY[0] +
+                                    psrc[y1 * srcrows + x1 * channels + k] * coeffsX[1] * coeffsY[1] +
+                                    psrc[y2 * srcrows + x1 * channels + k] * coeffsX[1] * coeffsY[2] +
+                                    psrc[y3 * srcrows + x1 * channels + k] * coeffsX[1] * coeffsY[3] +
+
+                                    psrc[y0 * srcrows + x2 * channels + k] * coeffsX[2] * coeffsY[0] +
+                                    psrc[y1 * srcrows + x2 * channels + k] * coeffsX[2] * coeffsY[1] +
+                                    psrc[y2 * srcrows + x2 * channels + k] * coeffsX[2] * coeffsY[2] +
+                                    psrc[y3 * srcrows + x2 * channels + k] * coeffsX[2] * coeffsY[3] +
+
+                                    psrc[y0 * srcrows + x3 * channels + k] * coeffsX[3] * coeffsY[0] +
+                                    psrc[y1 * srcrows + x3 * channels + k] * coeffsX[3] * coeffsY[1] +
+                                    psrc[y2 * srcrows + x3 * channels + k] * coeffsX[3] * coeffsY[2] +
+                                    psrc[y3 * srcrows + x3 * channels + k] * coeffsX[3] * coeffsY[3])));
 
                         }
                     }
diff --git a/src/kernels/cpu/resize2d.cpp b/src/kernels/cpu/resize2d.cpp
index cd72e6f..878968b 100644
--- a/src/kernels/cpu/resize2d.cpp
+++ b/src/kernels/cpu/resize2d.cpp
@@ -1,5 +1,6 @@
 #include <kernels/cpu/resize2d.h>
 #include <core/tensor_builder.h>
+#include <algorithm>
 #include <memory>
 #include <global/operator_factory.h>
 #include <backend/name.h>
@@ -42,6 +43,9 @@ namespace ts {
                     int n_x_s = int(lf_x_s);
                     int n_y_s = int(lf_y_s);
 
+                    int n_x_n = n_x_s + 1 < src_width ? n_x_s + 1 : n_x_s;
+                    int n_y_n = n_y_s + 1 < src_height ? n_y_s + 1 : n_y_s;
+
                     double lf_weight_x = lf_x_s - n_x_s;
                     double lf_weight_y = lf_y_s - n_y_s;
 
@@ -50,11 +54,11 @@ namespace ts {
                                 (T) ((1 - lf_weight_y) * (1 - lf_weight_x) *
                                      src_im[(n_y_s * src_width + n_x_s) * channels + c] +
                                      (1 - lf_weight_y) * lf_weight_x *
-                                     src_im[(n_y_s * src_width + n_x_s + 1) * channels + c] +
+                                     src_im[(n_y_s * src_width + n_x_n) * channels + c] +
                                      lf_weight_y * (1 - lf_weight_x) *
-                                     src_im[((n_y_s + 1) * src_width + n_x_s) * channels + c] +
+                                     src_im[(n_y_n * src_width + n_x_s) * channels + c] +
                                      lf_weight_y * lf_weight_x *
-                                     src_im[((n_y_s + 1) * src_width + n_x_s + 1) * channels + c]);
+                                     src_im[(n_y_n * src_width + n_x_n) * channels + c]);
 
                     }//end for c
                 }
@@ -115,27 +119,37 @@ namespace ts {
                     coeffsX[2] = ((A + 2) * (1 - fx) - (A + 3)) * (1 - fx) * (1 - fx) + 1;
                     coeffsX[3] = 1.f - coeffsX[0] - coeffsX[1] - coeffsX[2];
 
+                    // an image with less than 4 rows or columns repeats its border
+                    const int y0 = std::min(std::max(sy - 1, 0), src_height - 1);
+                    const int y1 = std::min(std::max(sy, 0), src_height - 1);
+                    const int y2 = std::min(std::max(sy + 1, 0), src_height - 1);
+                    const int y3 = std::min(std::max(sy + 2, 0), src_height - 1);
+                    const int x0 = std::min(std::max(sx - 1, 0), src_width - 1);
+                    const int x1 = std::min(std::max(sx, 0), src_width - 1);
+                    const int x2 = std::min(std::max(sx + 1, 0), src_width - 1);
+                    const int x3 = std::min(std::max(sx + 2, 0), src_width - 1);
+
                     for (int k = 0; k < channels; ++k) {
                         dst_im[j * dstrows + i * channels + k] = (T) ((
-                                src_im[(sy - 1) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[0] +
-                                src_im[(sy) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[1] +
-                                src_im[(sy + 1) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[2] +
-                                src_im[(sy + 2) * srcrows + (sx - 1) * channels + k] * coeffsX[0] * coeffsY[3] +
-
-                                src_im[(sy - 1) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[0] +
-                                src_im[(sy) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[1] +
-                                src_im[(sy + 1) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[2] +
-                                src_im[(sy + 2) * srcrows + (sx) * channels + k] * coeffsX[1] * coeffsY[3] +
-
-                                src_im[(sy - 1) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[0] +
-                                src_im[(sy) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[1] +
-                                src_im[(sy + 1) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[2] +
-                                src_im[(sy + 2) * srcrows + (sx + 1) * channels + k] * coeffsX[2] * coeffsY[3] +
-
-                                src_im[(sy - 1) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[0] +
-                                src_im[(sy) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[1] +
-                                src_im[(sy + 1) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[2] +
-                                src_im[(sy + 2) * srcrows + (sx + 2) * channels + k] * coeffsX[3] * coeffsY[3]));
+                                src_im[y0 * srcrows + x0 * channels + k] * coeffsX[0] * coeffsY[0] +
+                                src_im[y1 * srcrows + x0 * channels + k] * coeffsX[0] * coeffsY[1] +
+                                src_im[y2 * srcrows + x0 * channels + k] * coeffsX[0] * coeffsY[2] +
+                                src_im[y3 * srcrows + x0 * channels + k] * coeffsX[0] * coeffsY[3] +
+
+                                src_im[y0 * srcrows + x1 * channels + k] * coeffsX[1] * coeffsY[0] +
+                                src_im[y1 * srcrows + x1 * channels + k] * coeffsX[1] * coeffsY[1] +
+                                src_im[y2 * srcrows + x1 * channels + k] * coeffsX[1] * coeffsY[2] +
+                                src_im[y3 * srcrows + x1 * channels + k] * coeffsX[1] * coeffsY[3] +
+
+                                src_im[y0 * srcrows + x2 * channels + k] * coeffsX[2] * coeffsY[0] +
+                                src_im[y1 * srcrows + x2 * channels + k] * coeffsX[2] * coeffsY[1] +
+                                src_im[y2 * srcrows + x2 * channels + k] * coeffsX[2] * coeffsY[2] +
+                                src_im[y3 * srcrows + x2 * channels + k] * coeffsX[2] * coeffsY[3] +
+
+                                src_im[y0 * srcrows + x3 * channels + k] * coeffsX[3] * coeffsY[0] +
+                                src_im[y1 * srcrows + x3 * channels + k] * coeffsX[3] * coeffsY[1] +
+                                src_im[y2 * srcrows + x3 * channels + k] * coeffsX[3] * coeffsY[2] +
+                                src_im[y3 * srcrows + x3 * channels + k] * coeffsX[3] * coeffsY[3]));
 
                     }//end k
                 }
-- 
2.43.0


From 2d2225ebdd042493caf2ed78f69c8870777b12db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 05/39] fix: depthwise 3x3 convolution reads past its weights
 and writes outside small outputs

---
 .../cpu/depthwise_conv2d_algorithm.cpp        | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/kernels/cpu/depthwise_conv2d_algorithm.cpp b/src/kernels/cpu/depthwise_conv2d_algorithm.cpp
index 8401b63..dc19d75 100644
--- a/src/kernels/cpu/depthwise_conv2d_algorithm.cpp
+++ b/src/kernels/cpu/depthwise_conv2d_algorithm.cpp
@@ -1,6 +1,8 @@
 #include "kernels/cpu/depthwise_conv2d_algorithm.h"
 #include "kernels/common/simd.h"
 
+#include <algorithm>
+
 #ifdef TS_USE_OPENMP
 #include "kernels/common/openmp.h"
 #endif
@@ -122,9 +124,9 @@ namespace ts {
             //h_end = padding.bottom == 0 ? output_height : output_height - ((padding.bottom - 1) / stride.height + 1)
             //w_strst = padding.left == 0 ? 0 : (padding.left - 1) / stride.width + 1
             //w_end = padding.right == 0 ? output_width : output_width - ((padding.right - 1) / stride.width + 1)
-            int h_start = padding.top == 0 ? 0 : padding.top;
+            int h_start = padding.top == 0 ? 0 : std::min(padding.top, output_height);
             int h_end = padding.bottom == 0 ? output_height : output_height - padding.bottom;
-            int w_start = padding.left == 0 ? 0 : padding.left;
+            int w_start = padding.left == 0 ? 0 : std::min(padding.left, output_width);
             int w_end = padding.right == 0 ? output_width : output_width - padding.right;
             
             const float* pinput = x.data<float>();
@@ -150,7 +152,8 @@ namespace ts {
 //#else
                     float32x4 k0_x4(kernel_at);
                     float32x4 k1_x4(kernel_at + 3);
-                    float32x4 k2_x4(kernel_at + 6);
+                    const float k2[4] = {kernel_at[6], kernel_at[7], kernel_at[8], 0};
+                    float32x4 k2_x4(k2);
 //#endif
 
                     int h, w;
@@ -300,9 +303,9 @@ namespace ts {
             //h_end = padding.bottom == 0 ? output_height : output_height - ((padding.bottom - 1) / stride.height + 1)
             //w_strst = padding.left == 0 ? 0 : (padding.left - 1) / stride.width + 1
             //w_end = padding.right == 0 ? output_width : output_width - ((padding.right - 1) / stride.width + 1)
-            int h_start = padding.top == 0 ? 0 : (padding.top - 1) / 2 + 1;
+            int h_start = padding.top == 0 ? 0 : std::min((padding.top - 1) / 2 + 1, output_height);
             int h_end = padding.bottom == 0 ? output_height : output_height - ((padding.bottom - 1) / 2 + 1);
-            int w_start = padding.left == 0 ? 0 : (padding.left - 1) / 2 + 1;
+            int w_start = padding.left == 0 ? 0 : std::min((padding.left - 1) / 2 + 1, output_width);
             int w_end = padding.right == 0 ? output_width : output_width - ((padding.right - 1) / 2 + 1);
 
             const float* pinput = x.data<float>();
@@ -324,7 +327,8 @@ namespace ts {
 
                     float32x4 k0_x4(kernel_at);
                     float32x4 k1_x4(kernel_at + 3);
-                    float32x4 k2_x4(kernel_at + 6);
+                    const float k2[4] = {kernel_at[6], kernel_at[7], kernel_at[8], 0};
+                    float32x4 k2_x4(k2);
 
                     int h, w;
 
@@ -422,9 +426,9 @@ namespace ts {
             //h_end = padding.bottom == 0 ? output_height : output_height - ((padding.bottom - 1) / stride.height + 1)
             //w_strst = padding.left == 0 ? 0 : (padding.left - 1) / stride.width + 1
             //w_end = padding.right == 0 ? output_width : output_width - ((padding.right - 1) / stride.width + 1)
-            int h_start = padding.top == 0 ? 0 : padding.top;
+            int h_start = padding.top == 0 ? 0 : std::min(padding.top, output_height);
             int h_end = padding.bottom == 0 ? output_height : output_height - padding.bottom;
-            int w_start = padding.left == 0 ? 0 : padding.left;
+            int w_start = padding.left == 0 ? 0 : std::min(padding.left, output_width);
             int w_end = padding.right == 0 ? output_width : output_width - padding.right;
 
             const float* pinput = x.data<float>();
@@ -449,7 +453,8 @@ namespace ts {
                     //#else
                     float32x4 k0_x4(kernel_at);
                     float32x4 k1_x4(kernel_at + 3);
-                    float32x4 k2_x4(kernel_at + 6);
+                    const float k2[4] = {kernel_at[6], kernel_at[7], kernel_at[8], 0};
+                    float32x4 k2_x4(k2);
                     //#endif
 
                     int h, w;
-- 
2.43.0


From 153217a2d2ec7a060ec6cdaa5e78984aabf2da1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:36 +0000
Subject: [PATCH 06/39] fix: max pooling kernels leave small inputs' buffers
 and skip double outputs

---
 src/kernels/cpu/pooling2d_core.cpp | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/kernels/cpu/pooling2d_core.cpp b/src/kernels/cpu/pooling2d_core.cpp
index 6d67ab8..bdbacce 100644
--- a/src/kernels/cpu/pooling2d_core.cpp
+++ b/src/kernels/cpu/pooling2d_core.cpp
@@ -8,6 +8,7 @@
 
 #include <algorithm>
 #include <functional>
+#include <type_traits>
 #include <kernels/cpu/pooling_algorithm.h>
 
 #include "utils/platform.h"
@@ -17,13 +18,31 @@ namespace ts {
 
         using function = std::function<void(const Tensor &,Tensor &,const Padding2D &)>;
 
+        /**
+         * The special kernels need an input no smaller than the window, and no window lying completely in the padding.
+         */
+        static inline bool fits_pooling_kernel(int input, int output, int padding, int ksize, int stride) {
+            int real_pad_end = (output - 1) * stride + ksize - input - padding;
+            return input >= ksize && real_pad_end < ksize;
+        }
+
         template<typename T>
-        static inline function get_pooling_kernel(const Padding2D &padding,
+        static inline function get_pooling_kernel(const Shape &input_shape,
+                                                  const Shape &output_shape,
+                                                  const Padding2D &padding,
                                                   const KSize2D &ksize,
                                                   const Stride2D &stride,
                                                   Pooling2DType pooling_type){
             function pooling_kernel;
 
+            // the special kernels are only implemented for float
+            if (!std::is_same<T, float>::value) return pooling_kernel;
+
+            if (!fits_pooling_kernel(input_shape[2], output_shape[2], padding.top, ksize.height, stride.height) ||
+                !fits_pooling_kernel(input_shape[3], output_shape[3], padding.left, ksize.width, stride.width)) {
+                return pooling_kernel;
+            }
+
             if((stride.height == 2 && stride.width == 2) &&
               (padding.top == 0 || padding.top == 1) &&
               (padding.bottom == 0 || padding.bottom == 1) &&
@@ -68,7 +87,7 @@ namespace ts {
                             iwStart = std::max<int>(iwStart, 0);
                             int outIndex = oh * output_w + ow;
                             //T maxVlue = 0;
-                            T maxVlue = input_data[ihStart * input_w + iwStart];
+                            T maxVlue = input_data[std::min(ihStart, input_h - 1) * input_w + std::min(iwStart, input_w - 1)];
                             //int count = 0;
                             for (int ih = ihStart; ih < ihEnd; ih++) {
                                 for (int iw = iwStart; iw < iwEnd; iw++) {
@@ -197,7 +216,7 @@ namespace ts {
             static const auto WHITE_MAX = ENCODE(Padding2DType::WHITE, Pooling2DType::MAX);
             static const auto WHITE_AVG = ENCODE(Padding2DType::WHITE, Pooling2DType::AVG);
 
-            auto pooling_kernel = get_pooling_kernel<T>(padding, ksize, stride, type);
+            auto pooling_kernel = get_pooling_kernel<T>(x.sizes(), out.sizes(), padding, ksize, stride, type);
 
             if (code == BLACK_MAX) {
                 if(pooling_kernel){
-- 
2.43.0


From 03fc0cd372fcad5bb99535695f385222cb3d7cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:14 +0000
Subject: [PATCH 07/39] fix: linking a node again never ends once another node
 linked to its inputs has expired

---
 include/module/graph.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/module/graph.h b/include/module/graph.h
index f9b80b1..8b9de1d 100644
--- a/include/module/graph.h
+++ b/include/module/graph.h
@@ -46,8 +46,7 @@ namespace ts {
                 auto &bottom_tops = tmp->m_outputs;
                 for (auto it = bottom_tops.begin(); it != bottom_tops.end();) {
                     auto top = it->lock();
-                    if (!top) continue;
-                    if (top == output) {
+                    if (!top || top == output) {
                         it = bottom_tops.erase(it);
                     } else {
                         ++it;
-- 
2.43.0


From 27bb804e27d607022ad106c98e7f9836da2c78eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:14 +0000
Subject: [PATCH 08/39] fix: compiling rewrites the graph of the module it was
 given

---
 src/compiler/translater.cpp | 35 +++++++++++++++++++++++++++++++++--
 1 file changed, 33 insertions(+), 2 deletions(-)

diff --git a/src/compiler/translater.cpp b/src/compiler/translater.cpp
index 59488ec..16ad315 100644
--- a/src/compiler/translater.cpp
+++ b/src/compiler/translater.cpp
@@ -55,6 +55,29 @@ namespace ts {
         return translated_node;
     }
 
+    static Node copy_node(const Node &node, std::unordered_map<Node, Node> &copied_map) {
+        auto copied_it = copied_map.find(node);
+        if (copied_it != copied_map.end()) return copied_it->second;
+
+        auto copied_node = bubble::bubble(node.bubble());
+        std::vector<Node> copied_inputs;
+        for (auto &input : node.inputs()) {
+            copied_inputs.emplace_back(copy_node(input, copied_map));
+        }
+        Node::Link(copied_node, copied_inputs);
+
+        copied_map.insert(std::make_pair(node, copied_node));
+        return copied_node;
+    }
+
+    static std::vector<Node> copy_nodes(const std::vector<Node> &nodes, std::unordered_map<Node, Node> &copied_map) {
+        std::vector<Node> copied_nodes;
+        for (auto &node : nodes) {
+            copied_nodes.emplace_back(copy_node(node, copied_map));
+        }
+        return copied_nodes;
+    }
+
     Module::shared Translator::translate(const Module::shared& module) const {
 
         //std::cout << "+++++++++++++++++ original graph ++++++++++++++++++++++" << std::endl;
@@ -81,8 +104,16 @@ namespace ts {
         std::vector<Node> traslated_nodes;
         std::unordered_map<Node, Node> ready_map;
 
-        auto output_nodes = new_module->outputs();
-        auto intput_nodes = new_module->inputs();
+        // options rewrite the nodes they got and link new nodes to them, never do this on module given by user
+        Graph source_graph;
+        std::vector<Node> output_nodes;
+        std::vector<Node> intput_nodes;
+        {
+            ctx::bind<Graph> _bind_source_graph(source_graph);
+            std::unordered_map<Node, Node> copied_map;
+            output_nodes = copy_nodes(new_module->outputs(), copied_map);
+            intput_nodes = copy_nodes(new_module->inputs(), copied_map);
+        }
         for (auto &node : output_nodes)
         {
             auto translated_node = translate_node(node, ready_map, m_device, options, m_params, true);
-- 
2.43.0


From 3a0e69254abc21faf7e79daf3e68e2dbd9ef29ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:14 +0000
Subject: [PATCH 09/39] fix: packing the weights of one operator changes other
 operators using the same weights

---
 src/compiler/option/pack_translator_option.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/compiler/option/pack_translator_option.cpp b/src/compiler/option/pack_translator_option.cpp
index e8182aa..f1d11a2 100644
--- a/src/compiler/option/pack_translator_option.cpp
+++ b/src/compiler/option/pack_translator_option.cpp
@@ -89,6 +89,7 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
                     break;
                 }
             }
+            A_trans_node = bubble::bubble(A_node.bubble());
             A_trans_node.bubble().set(name::value, transposed);
         }
 
@@ -108,6 +109,7 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
                     break;
                 }
             }
+            B_trans_node = bubble::bubble(B_node.bubble());
             B_trans_node.bubble().set(name::value, transposed);
         }
 
@@ -235,7 +237,7 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
     }
 
 
-    Node kernel_packed_node = kernel_node;
+    Node kernel_packed_node = bubble::bubble(kernel_node.bubble());
     kernel_packed_node.bubble().set(name::value, kernel_packed);
     translated_node.bubble().set(name::kernel_packed, tensor::from<bool>(true));
 
-- 
2.43.0


From f8e75e212e2f71f362997c378b80f1a90d9538ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:14 +0000
Subject: [PATCH 10/39] fix: argmax reads its input as integers whatever its
 type

---
 src/kernels/cpu/argmax.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kernels/cpu/argmax.cpp b/src/kernels/cpu/argmax.cpp
index 1e7b26e..26b4a6d 100644
--- a/src/kernels/cpu/argmax.cpp
+++ b/src/kernels/cpu/argmax.cpp
@@ -53,7 +53,7 @@ namespace ts {
 
 
         void ArgMax::argmax(const Tensor &x, int dim, Tensor &out) {
-            DTYPE dtype = out.dtype();
+            DTYPE dtype = x.dtype();
            
             switch (dtype) {
 #define DECLARE_COMPUTE_RUN(DTYPE, TYPE) \
-- 
2.43.0


From 9d1c1c047081b59d6373a3652d72ceb89cb18b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:35 +0000
Subject: [PATCH 11/39] fix: gather_elements leaves its output unset after the
 first index of the axis

---
 src/kernels/cpu/gather_elements.cpp | 58 +++++++++++++++++------------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/src/kernels/cpu/gather_elements.cpp b/src/kernels/cpu/gather_elements.cpp
index a15584b..5d99f42 100644
--- a/src/kernels/cpu/gather_elements.cpp
+++ b/src/kernels/cpu/gather_elements.cpp
@@ -28,28 +28,33 @@ namespace ts {
             auto width = std::accumulate(x_shape.begin() + axis + 1, x_shape.end(), 1,
                                          std::multiplies<int>());
 
+            auto length = number * width > 0 ? indices.count() / (number * width) : 0;
+
             HypeShape norm_x_shape({number, x_shape[axis], width});
-            HypeShape norm_out_shape({number, width});
+            HypeShape norm_out_shape({number, length, width});
 
             auto x_data = x.data<T>();
             auto out_data = out.data<T>();
             auto indices_data = indices.data<int32_t>();
 
             std::vector<int> norm_x_coord = {0, 0, 0};
-            std::vector<int> norm_out_coord {0, 0};
+            std::vector<int> norm_out_coord {0, 0, 0};
 
             for (int n = 0; n < number; ++n) {
                 norm_out_coord[0] = n;
                 norm_x_coord[0] = n;
-                for (int i = 0; i < width; ++i) {
-                    norm_out_coord[1] = i;
-                    norm_x_coord[2] = i;
-
-                    auto out_index = norm_out_shape.to_index(norm_out_coord);
-                    norm_x_coord[1] = indices_data[out_index];
-                    auto x_index = norm_x_shape.to_index(norm_x_coord);
-
-                    out_data[out_index] = x_data[x_index];
+                for (int l = 0; l < length; ++l) {
+                    norm_out_coord[1] = l;
+                    for (int i = 0; i < width; ++i) {
+                        norm_out_coord[2] = i;
+                        norm_x_coord[2] = i;
+
+                        auto out_index = norm_out_shape.to_index(norm_out_coord);
+                        norm_x_coord[1] = indices_data[out_index];
+                        auto x_index = norm_x_shape.to_index(norm_x_coord);
+
+                        out_data[out_index] = x_data[x_index];
+                    }
                 }
             }
         }
@@ -90,8 +95,10 @@ namespace ts {
             auto number = std::accumulate(x_shape.begin(), x_shape.begin() + axis, 1, std::multiplies<int>());
             auto width = std::accumulate(x_shape.begin() + axis + 1, x_shape.end(), 1, std::multiplies<int>());
 
+            auto length = number * width > 0 ? indices.count() / (number * width) : 0;
+
             HypeShape norm_x_shape({number, x_shape[axis], width});
-            HypeShape norm_out_shape({number, width});
+            HypeShape norm_out_shape({number, length, width});
 
             auto bytes = x.proto().type_bytes();
 
@@ -100,22 +107,25 @@ namespace ts {
             auto indices_data = indices.data<int32_t>();
 
             std::vector<int> norm_x_coord = {0, 0, 0};
-            std::vector<int> norm_out_coord {0, 0};
+            std::vector<int> norm_out_coord {0, 0, 0};
 
             for (int n = 0; n < number; ++n) {
                 norm_out_coord[0] = n;
                 norm_x_coord[0] = n;
-                for (int i = 0; i < width; ++i) {
-                    norm_out_coord[1] = i;
-                    norm_x_coord[2] = i;
-
-                    auto out_index = norm_out_shape.to_index(norm_out_coord);
-                    norm_x_coord[1] = indices_data[out_index];
-                    auto x_index = norm_x_shape.to_index(norm_x_coord);
-
-                    auto src_ptr = x_data + x_index * bytes;
-                    auto dst_ptr = out_data + out_index * bytes;
-                    memcpy_handler(device_id, dst_ptr, device_id, src_ptr, size_t(bytes));
+                for (int l = 0; l < length; ++l) {
+                    norm_out_coord[1] = l;
+                    for (int i = 0; i < width; ++i) {
+                        norm_out_coord[2] = i;
+                        norm_x_coord[2] = i;
+
+                        auto out_index = norm_out_shape.to_index(norm_out_coord);
+                        norm_x_coord[1] = indices_data[out_index];
+                        auto x_index = norm_x_shape.to_index(norm_x_coord);
+
+                        auto src_ptr = x_data + x_index * bytes;
+                        auto dst_ptr = out_data + out_index * bytes;
+                        memcpy_handler(device_id, dst_ptr, device_id, src_ptr, size_t(bytes));
+                    }
                 }
             }
         }
-- 
2.43.0


From 66d4d353054ca67fa055962a7e79a685d600c734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:46 +0000
Subject: [PATCH 12/39] fix: a cloned program loses its input and output names,
 run_hook on a cloned workbench crashes

---
 src/runtime/program.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/runtime/program.cpp b/src/runtime/program.cpp
index 4caedf7..cea8bab 100644
--- a/src/runtime/program.cpp
+++ b/src/runtime/program.cpp
@@ -151,6 +151,8 @@ namespace ts {
         // dolly->m_outputs.resize(this->m_outputs.size());
         dolly->m_map_input_slots = this->m_map_input_slots;
         dolly->m_map_output_slots = this->m_map_output_slots;
+        dolly->m_input_names = this->m_input_names;
+        dolly->m_output_names = this->m_output_names;
         dolly->m_data_segment = this->m_data_segment;
         dolly->m_input_filters.resize(this->m_input_filters.size(), nullptr);
 
-- 
2.43.0


From ab0ba6e1c0be9e4ba7ae93fafcb01720cf08da2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:23 +0000
Subject: [PATCH 13/39] fix: compiling with --pack or --float16 drops the
 declared data type and shape of inputs

---
 src/compiler/option/fp16_translator_option.cpp | 6 +-----
 src/compiler/option/pack_translator_option.cpp | 6 +-----
 2 files changed, 2 insertions(+), 10 deletions(-)

diff --git a/src/compiler/option/fp16_translator_option.cpp b/src/compiler/option/fp16_translator_option.cpp
index 3f28936..d38923d 100644
--- a/src/compiler/option/fp16_translator_option.cpp
+++ b/src/compiler/option/fp16_translator_option.cpp
@@ -23,11 +23,7 @@ ts::Fp16TranslatorOption::translate(const ts::ComputingDevice &device,
     auto op_name = node.bubble().op();
 
     if (Bubble::IsEndPoint(op_name)) {
-        if (op_name == Bubble::Parameter)
-            translated_node = bubble::param(node.bubble().name());
-        else if (op_name == Bubble::Const) {
-            translated_node = bubble::bubble(node.bubble());
-        }
+        translated_node = bubble::bubble(node.bubble());
         return true;
     }
 
diff --git a/src/compiler/option/pack_translator_option.cpp b/src/compiler/option/pack_translator_option.cpp
index f1d11a2..d5e9286 100644
--- a/src/compiler/option/pack_translator_option.cpp
+++ b/src/compiler/option/pack_translator_option.cpp
@@ -31,11 +31,7 @@ bool ts::PackTranslatorOption::translate(const ComputingDevice &device, const No
     auto op_name = node.bubble().op();
 
     if (Bubble::IsEndPoint(op_name)) {
-        if (op_name == Bubble::Parameter)
-            translated_node = bubble::param(node.bubble().name());
-        else if (op_name == Bubble::Const) {
-            translated_node = bubble::bubble(node.bubble());
-        }
+        translated_node = bubble::bubble(node.bubble());
         return true;
     }
 
-- 
2.43.0


From 5aed08aae0fe7af2cde6b58dbaf2c304996f4ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:25 +0000
Subject: [PATCH 14/39] fix: profiling a model with % in the name of a node
 uses the name as a printf format

---
 src/runtime/instruction.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/runtime/instruction.cpp b/src/runtime/instruction.cpp
index c01ea04..7c7b5ce 100644
--- a/src/runtime/instruction.cpp
+++ b/src/runtime/instruction.cpp
@@ -22,12 +22,22 @@ namespace ts {
         TS_AUTO_CHECK(m_func != nullptr);
     }
 
+    // the timer's name is a printf format, so names of the model must not be taken as a part of it
+    static std::string escape_format(const std::string &text) {
+        std::string escaped;
+        for (auto ch : text) {
+            if (ch == '%') escaped.push_back('%');
+            escaped.push_back(ch);
+        }
+        return escaped;
+    }
+
     Later profiler_run(const Operator::shared &op) {
         if (!profiler_on()) return Later();
         std::ostringstream oss;
         oss << "op(%04d):"
-            << tensor::to_string(op->get(Bubble::RetentionParam::op)) << ":"
-            << tensor::to_string(op->get(Bubble::RetentionParam::name));
+            << escape_format(tensor::to_string(op->get(Bubble::RetentionParam::op))) << ":"
+            << escape_format(tensor::to_string(op->get(Bubble::RetentionParam::name)));
         return profiler_serial_timer(oss.str());
     }
 
-- 
2.43.0


From ae7d1b008bdd2eb9a4c1345f46e6573e5ca4bc47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:35 +0000
Subject: [PATCH 15/39] fix: the reference count of tensor memory is not atomic

---
 include/core/threadsafe/smart.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/core/threadsafe/smart.h b/include/core/threadsafe/smart.h
index 58d11cd..b02c73a 100644
--- a/include/core/threadsafe/smart.h
+++ b/include/core/threadsafe/smart.h
@@ -52,13 +52,13 @@ namespace ts {
         Counter &operator==(self &&other) TS_NOEXCEPT {
 #define MOVE_MEMBER(member) this->member = std::move(other.member)
             MOVE_MEMBER(object);
-            MOVE_MEMBER(use_count);
+            this->use_count = other.use_count.load();
 #undef MOVE_MEMBER
             return *this;
         }
 
         Object *object = nullptr;
-        int use_count = 0;
+        std::atomic<int> use_count{0};
         Deleter deleter = default_deleter<T>();
     };
 
@@ -113,8 +113,7 @@ namespace ts {
 
         void dispose() {
             if (m_counted && m_mode == SMART) {
-                --m_counted->use_count;
-                if (m_counted->use_count <= 0) {
+                if (--m_counted->use_count <= 0) {
                     delete m_counted;
                     m_counted = nullptr;
                 }
-- 
2.43.0


From f44d8adac4bcf1ebc76ea5917713cb63464b24d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:12 +0000
Subject: [PATCH 16/39] fix: an output that is a constant of the model dangles
 once the workbench is destroyed

---
 src/runtime/workbench.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/runtime/workbench.cpp b/src/runtime/workbench.cpp
index a3bcaf4..4e60382 100644
--- a/src/runtime/workbench.cpp
+++ b/src/runtime/workbench.cpp
@@ -523,7 +523,8 @@ namespace ts {
 
         std::vector<Tensor> outputs;
         for (int i = 0; i < return_count; ++i) {
-            outputs.emplace_back(*this->m_stack->index(i));
+            // an output may be a weak constant of the program, which it has to outlive
+            outputs.emplace_back(this->m_stack->index(i)->strong());
         }
 
         return std::move(outputs);
-- 
2.43.0


From ef14d5cd37d02e684090bf58a9452cae0cf390a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:22 +0000
Subject: [PATCH 17/39] fix: gather and gather_elements rewrite negative
 indices in the caller's tensor or in the shared constants of the model

---
 src/backend/base/base_gather.cpp          | 3 ++-
 src/backend/base/base_gather_elements.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/backend/base/base_gather.cpp b/src/backend/base/base_gather.cpp
index 907ae82..c44fb32 100644
--- a/src/backend/base/base_gather.cpp
+++ b/src/backend/base/base_gather.cpp
@@ -54,7 +54,8 @@ namespace ts {
         int Gather::run(Stack &stack) {
             TS_AUTO_CHECK(stack.size() == 2);
 
-            auto indices =  tensor::cast(INT32, stack[1]);
+            // cast returns the same memory for INT32, which may belong to the caller or to the model
+            auto indices = tensor::cast(INT32, stack[1]).clone();
             auto output_proto = infer_gather(stack[0], indices, m_axis);
 
             auto memory_device = running_memory_device();
diff --git a/src/backend/base/base_gather_elements.cpp b/src/backend/base/base_gather_elements.cpp
index 1dc0c3b..0065ce9 100644
--- a/src/backend/base/base_gather_elements.cpp
+++ b/src/backend/base/base_gather_elements.cpp
@@ -42,7 +42,8 @@ namespace ts {
         int GatherElements::run(Stack &stack) {
             TS_AUTO_CHECK(stack.size() == 2);
 
-            auto indices =  tensor::cast(INT32, stack[1]);
+            // cast returns the same memory for INT32, which may belong to the caller or to the model
+            auto indices = tensor::cast(INT32, stack[1]).clone();
             auto output_proto = infer_gather(stack[0], indices, m_axis);
 
             auto memory_device = running_memory_device();
-- 
2.43.0


From eac3fa8791d0983e5e0ce46db720eeae5ef06928 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:13 +0000
Subject: [PATCH 18/39] fix: an exception thrown while creating an operator
 terminates the process

---
 include/global/operator_factory.h | 2 +-
 src/global/operator_factory.cpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/global/operator_factory.h b/include/global/operator_factory.h
index 35b6a62..fb002f5 100644
--- a/include/global/operator_factory.h
+++ b/include/global/operator_factory.h
@@ -61,7 +61,7 @@ namespace ts {
 
         static Operator::shared CreateNoException(const DeviceType &device_type,
                                                   const std::string &operator_name,
-                                                  bool strict = false) TS_NOEXCEPT;
+                                                  bool strict = false);
 
         /**
          * Will throw OperatorNotFoundException if operator not found
diff --git a/src/global/operator_factory.cpp b/src/global/operator_factory.cpp
index 99ce607..9767f26 100644
--- a/src/global/operator_factory.cpp
+++ b/src/global/operator_factory.cpp
@@ -81,7 +81,7 @@ namespace ts {
     }
 
     Operator::shared OperatorCreator::CreateNoException(const DeviceType &device_type, const std::string &operator_name,
-                                                        bool strict) TS_NOEXCEPT {
+                                                        bool strict) {
         auto creator = TalentQuery(device_type, operator_name, strict);
         if (!creator) return nullptr;
         return creator();
-- 
2.43.0


From 7aef0aad6711a0c5b98f28e6503825d17ff69592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:45 +0000
Subject: [PATCH 19/39] fix: releasing a tensor in one thread races with the
 workbench using its memory pool in another

---
 src/memory/flow.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/memory/flow.cpp b/src/memory/flow.cpp
index 8963013..d80b5f9 100644
--- a/src/memory/flow.cpp
+++ b/src/memory/flow.cpp
@@ -11,6 +11,7 @@
 #include "orz/vat.h"
 
 #include <list>
+#include <mutex>
 
 namespace ts {
     class VatMemoryController::Implement {
@@ -19,6 +20,7 @@ namespace ts {
         MemoryDevice m_device;
         HardAllocator::function m_managed_allocator;
         std::shared_ptr<Vat> m_vat;
+        std::shared_ptr<std::mutex> m_mutex;    ///< memory can be released in any thread
     };
 
     VatMemoryController::VatMemoryController(const MemoryDevice &device) {
@@ -33,8 +35,11 @@ namespace ts {
 
         m_impl->m_device = device;
         m_impl->m_vat = std::make_shared<Vat>(pot_allocator);
+        m_impl->m_mutex = std::make_shared<std::mutex>();
         auto &vat = m_impl->m_vat;
-        m_impl->m_managed_allocator = [vat](int, size_t new_size, void *mem, size_t mem_size) -> void * {
+        auto &mutex = m_impl->m_mutex;
+        m_impl->m_managed_allocator = [vat, mutex](int, size_t new_size, void *mem, size_t mem_size) -> void * {
+            std::unique_lock<std::mutex> _lock(*mutex);
             void *new_mem = nullptr;
             if (new_size == 0) {
                 // TS_LOG_DEBUG << "free(" << mem << ")";
@@ -57,6 +62,7 @@ namespace ts {
     }
 
     VatMemoryController::~VatMemoryController() {
+        std::unique_lock<std::mutex> _lock(*m_impl->m_mutex);
         m_impl->m_vat->deprecated();
     }
 
@@ -65,6 +71,7 @@ namespace ts {
     }
 
     uint64_t VatMemoryController::summary() const {
+        std::unique_lock<std::mutex> _lock(*m_impl->m_mutex);
         return m_impl->m_vat->summary();
     }
 
-- 
2.43.0


From 1cdf36d21bdc57a94db3df5e87318a324b704800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:00 +0000
Subject: [PATCH 20/39] fix: a memory block dangles after a failing resize, is
 unusable after dispose and leaks when assigned to

---
 src/core/hard_memory.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/core/hard_memory.cpp b/src/core/hard_memory.cpp
index cfaa7cf..47434a8 100644
--- a/src/core/hard_memory.cpp
+++ b/src/core/hard_memory.cpp
@@ -43,6 +43,7 @@ namespace ts {
     void HardMemory::dispose() {
         if (m_allocator) m_allocator(m_device.id(), 0, m_data, 0);
         m_data = nullptr;
+        m_capacity = 0;
     }
 
     void HardMemory::expect(size_t size) {
@@ -64,7 +65,9 @@ namespace ts {
     void HardMemory::resize(size_t size) {
         if (!m_allocator) TS_LOG_ERROR("Borrowed memory can not be resized.") << eject;
         if (size != m_capacity) {
-            m_data = m_allocator(m_device.id(), size, m_data, 0);
+            // the content is not kept, so give the old block back first: it is gone even if allocation fails
+            this->dispose();
+            m_data = m_allocator(m_device.id(), size, nullptr, 0);
             m_capacity = size;
         }
     }
@@ -81,12 +84,8 @@ namespace ts {
     }
 
     HardMemory &HardMemory::operator=(self &&other) TS_NOEXCEPT {
-#define MOVE_MEMBER(member) this->member = std::move(other.member)
-        MOVE_MEMBER(m_device);
-        MOVE_MEMBER(m_capacity);
-        MOVE_MEMBER(m_data);
-        MOVE_MEMBER(m_allocator);
-#undef MOVE_MEMBER
+        // the block this held till now is released with other
+        this->swap(other);
         return *this;
     }
 }
-- 
2.43.0


From 33f99d306bd361325de3447d83d06a9da19b3f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:43 +0000
Subject: [PATCH 21/39] fix: models and tensors are read or written wrongly if
 a stream delivers or accepts data in pieces, ends early or fails

---
 include/module/io/stream.h  | 41 +++++++++++++++++++++++++++++++------
 src/module/loaders/open.cpp |  7 ++++++-
 2 files changed, 41 insertions(+), 7 deletions(-)

diff --git a/include/module/io/stream.h b/include/module/io/stream.h
index 0c06b83..32a258e 100644
--- a/include/module/io/stream.h
+++ b/include/module/io/stream.h
@@ -10,6 +10,7 @@
 #include <string>
 
 #include <utils/api.h>
+#include <utils/except.h>
 
 
 namespace ts {
@@ -40,34 +41,62 @@ namespace ts {
     };
 
     namespace binio {
+        /**
+         * Read exactly size bytes, the stream may deliver them in pieces.
+         * @throw Exception if the stream ends or fails before
+         */
+        inline size_t read_all(StreamReader &stream, void *buffer, size_t size) {
+            size_t done = 0;
+            while (done < size) {
+                auto got = stream.read(reinterpret_cast<char *>(buffer) + done, size - done);
+                if (got == 0 || got > size - done) throw Exception("Stream ended or failed before all data was read.");
+                done += got;
+            }
+            return done;
+        }
+
+        /**
+         * Write exactly size bytes, the stream may accept them in pieces.
+         * @throw Exception if the stream does not accept them
+         */
+        inline size_t write_all(StreamWriter &stream, const void *buffer, size_t size) {
+            size_t done = 0;
+            while (done < size) {
+                auto put = stream.write(reinterpret_cast<const char *>(buffer) + done, size - done);
+                if (put == 0 || put > size - done) throw Exception("Stream failed before all data was written.");
+                done += put;
+            }
+            return done;
+        }
+
         template<typename T>
         size_t read(StreamReader &stream, T &buffer) {
-            return stream.read(&buffer, sizeof(T));
+            return read_all(stream, &buffer, sizeof(T));
         }
 
         template<typename T>
         size_t read(StreamReader &stream, T *buffer, size_t size) {
-            return stream.read(buffer, sizeof(T) * size);
+            return read_all(stream, buffer, sizeof(T) * size);
         }
 
         template<typename T, size_t _Size>
         size_t read(StreamReader &stream, T (&buffer)[_Size]) {
-            return stream.read(buffer, sizeof(T) * _Size);
+            return read_all(stream, buffer, sizeof(T) * _Size);
         }
 
         template<typename T>
         size_t write(StreamWriter &stream, const T &buffer) {
-            return stream.write(&buffer, sizeof(T));
+            return write_all(stream, &buffer, sizeof(T));
         }
 
         template<typename T>
         size_t write(StreamWriter &stream, const T *buffer, size_t size) {
-            return stream.write(buffer, sizeof(T) * size);
+            return write_all(stream, buffer, sizeof(T) * size);
         }
 
         template<typename T, size_t _Size>
         size_t write(StreamWriter &stream, const T (&buffer)[_Size]) {
-            return stream.write(buffer, sizeof(T) * _Size);
+            return write_all(stream, buffer, sizeof(T) * _Size);
         }
     }
 }
diff --git a/src/module/loaders/open.cpp b/src/module/loaders/open.cpp
index d34443e..e654cf1 100644
--- a/src/module/loaders/open.cpp
+++ b/src/module/loaders/open.cpp
@@ -12,7 +12,12 @@ Module::shared open_loader(StreamReaderV2 &stream, const void *buffer, int32_t b
 
     // 0. read header
     Header header;
-    read_size += header.externalize(stream);
+    try {
+        read_size += header.externalize(stream);
+    } catch (const Exception &) {
+        // too short to be of this format
+        throw FormatMismatchException("Module format mismatch.");
+    }
     if (header.code != TS_MODULE_CODE_V1) {
         throw FormatMismatchException("Module format mismatch.");
     }
-- 
2.43.0


From 3f547fcf102b519ee4bbdda9ada6c7bce1310084 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:43 +0000
Subject: [PATCH 22/39] fix: saving a model or a tensor reports success
 although the last data did not reach the file

---
 src/core/tensor_builder.cpp | 4 +++-
 src/module/module.cpp       | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/core/tensor_builder.cpp b/src/core/tensor_builder.cpp
index f352cd6..7cdd470 100644
--- a/src/core/tensor_builder.cpp
+++ b/src/core/tensor_builder.cpp
@@ -307,7 +307,9 @@ namespace ts {
         void save(const std::string &filename, const Tensor &tensor) {
             FileStreamWriter stream(filename);
             if (!stream.is_open()) TS_LOG_ERROR << "Can not access " << filename << eject;
-            return save(stream, tensor);
+            save(stream, tensor);
+            stream.close();
+            if (stream.stream().fail()) TS_LOG_ERROR << "Can not write " << filename << eject;
         }
     }
 
diff --git a/src/module/module.cpp b/src/module/module.cpp
index f39de8e..edbfd31 100644
--- a/src/module/module.cpp
+++ b/src/module/module.cpp
@@ -278,7 +278,9 @@ namespace ts {
         FileStreamWriter stream(filename);
 
         TS_CHECK(stream.is_open()) << "Can not access: " << filename << eject;
-        Save(stream, module, format);  
+        Save(stream, module, format);
+        stream.close();
+        TS_CHECK(!stream.stream().fail()) << "Can not write: " << filename << eject;
     }
 
     size_t read_uint32_list(StreamReader &stream, std::vector<uint32_t> &list) {
-- 
2.43.0


From d565ee61c0003d7bc2c1ed13dc8763af453426e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:43 +0000
Subject: [PATCH 23/39] fix: rewinding a file stream that reached its end has
 no effect

---
 include/api/cpp/stream.h  | 1 +
 src/module/io/fstream.cpp | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/api/cpp/stream.h b/include/api/cpp/stream.h
index aabb105..ef59918 100644
--- a/include/api/cpp/stream.h
+++ b/include/api/cpp/stream.h
@@ -219,6 +219,7 @@ namespace ts {
         inline FileStreamReaderV2::FileStreamReaderV2() = default;
 
         inline void FileStreamReaderV2::rewind() {
+            m_stream.clear();
             m_stream.seekg(0, std::ifstream::beg);
         }
 
diff --git a/src/module/io/fstream.cpp b/src/module/io/fstream.cpp
index 1cc4fa8..ec1e428 100644
--- a/src/module/io/fstream.cpp
+++ b/src/module/io/fstream.cpp
@@ -38,6 +38,7 @@ namespace ts {
     }
 
     void FileStreamReaderV2::rewind() {
+        m_stream.clear();
         m_stream.seekg(0, std::ios::beg);
     }
 
-- 
2.43.0


From 6d4621c2a9c61407168c9f98cf0b05d1fbe218d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:43 +0000
Subject: [PATCH 24/39] fix: reading an encrypted file with a wrong key or
 damaged data accesses memory outside the buffers

---
 src/encryption/aes_fstream.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/encryption/aes_fstream.cpp b/src/encryption/aes_fstream.cpp
index f8832b4..98c764f 100644
--- a/src/encryption/aes_fstream.cpp
+++ b/src/encryption/aes_fstream.cpp
@@ -82,7 +82,14 @@ namespace ts {
             }
  
             if(iseof) {
-                m_master_datalen -= (int)(m_master[AES_BLOCKLEN - 1]); 
+                // a wrong key or a damaged file gives any value here
+                int npadding = (int)(m_master[AES_BLOCKLEN - 1]);
+                if(npadding < 1 || npadding > AES_BLOCKLEN) {
+                    m_master_datalen = 0;
+                    TS_LOG_ERROR << "mode file read format is error!" << eject;
+                    return 0;
+                }
+                m_master_datalen -= npadding;
             } 
 
             
-- 
2.43.0


From b7dc8e27a8060ebb4808847080e109231d05e5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:43 +0000
Subject: [PATCH 25/39] fix: failing to flush an encrypted file is not
 reported, or terminates the process

---
 src/encryption/aes_fstream.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/encryption/aes_fstream.cpp b/src/encryption/aes_fstream.cpp
index 98c764f..5a56cff 100644
--- a/src/encryption/aes_fstream.cpp
+++ b/src/encryption/aes_fstream.cpp
@@ -175,7 +175,11 @@ namespace ts {
     }
 
     AESFileStreamWriter::~AESFileStreamWriter() {
-         close();
+        try {
+            close();
+        } catch (const Exception &) {
+            // the failure was logged, no one can be told here
+        }
     }
 
     void AESFileStreamWriter::close() {
@@ -187,10 +191,6 @@ namespace ts {
             AES_ECB_encrypt(&m_ctx, m_master);  
             m_stream.write(reinterpret_cast<const char *>(m_master), AES_BLOCKLEN);
             m_master_datalen = 0;
-            if(m_stream.bad()) {
-                TS_LOG_ERROR << "write mode file failed!" << eject;
-                return;
-            }
         } 
         uint8_t npadding = (uint8_t)(AES_BLOCKLEN - m_master_datalen);
         uint8_t buf[AES_BLOCKLEN];
@@ -201,6 +201,9 @@ namespace ts {
         m_stream.write(reinterpret_cast<const char *>(buf), AES_BLOCKLEN);
         m_master_datalen = 0;
         m_stream.close();
+        if(m_stream.fail()) {
+            TS_LOG_ERROR << "write mode file failed!" << eject;
+        }
     }
 
 }
-- 
2.43.0


From dac593a3bfd3b1a16a87b7750226ad95aa9c7b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:47 +0000
Subject: [PATCH 26/39] fix: exceptions other than ts::Exception escape the C
 interface, and failing registrations are not reported

---
 src/api/common.cpp    | 2 +-
 src/api/declaration.h | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/api/common.cpp b/src/api/common.cpp
index 69ca17c..dd6471e 100644
--- a/src/api/common.cpp
+++ b/src/api/common.cpp
@@ -13,5 +13,5 @@ const char *ts_last_error_message() {
 }
 
 void ts_set_error_message(const char *message) {
-    SetLEM(message);
+    SetLEM(message ? message : "");
 }
diff --git a/src/api/declaration.h b/src/api/declaration.h
index 4ce97f6..cd1eb8b 100644
--- a/src/api/declaration.h
+++ b/src/api/declaration.h
@@ -35,13 +35,14 @@ try {
 
 #define RETURN_OR_CATCH(ret, cat) \
 return ret; \
-} catch (const Exception &e) { \
+} catch (const std::exception &e) { \
 ts::api::SetLEM(e.what()); \
 return cat; \
 }
 
 #define TRY_TAIL \
-} catch (const Exception &) { \
+} catch (const std::exception &e) { \
+ts::api::SetLEM(e.what()); \
 }
 
 #endif //TENNIS_API_DECLARATION_H
-- 
2.43.0


From 2d1abbb3240f4a09f0a7eef4951d893ee9a4babf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:47 +0000
Subject: [PATCH 27/39] fix: loading a tensor from a file that can not be
 opened reports no failure

---
 src/core/tensor_builder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/tensor_builder.cpp b/src/core/tensor_builder.cpp
index 7cdd470..03ec144 100644
--- a/src/core/tensor_builder.cpp
+++ b/src/core/tensor_builder.cpp
@@ -290,7 +290,7 @@ namespace ts {
 
         Tensor load(const std::string &filename) {
             FileStreamReader stream(filename);
-            if (!stream.is_open()) return Tensor();
+            if (!stream.is_open()) TS_LOG_ERROR << "Can not access " << filename << eject;
             return load(stream);
         }
 
-- 
2.43.0


From 67e5a9e6237beba6d008e527b69c7f9c7e7a10b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:47 +0000
Subject: [PATCH 28/39] fix: run_hook on a workbench without a program crashes

---
 src/runtime/workbench.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/runtime/workbench.cpp b/src/runtime/workbench.cpp
index 4e60382..b6773aa 100644
--- a/src/runtime/workbench.cpp
+++ b/src/runtime/workbench.cpp
@@ -583,6 +583,10 @@ namespace ts {
     }
 
     void Workbench::run_hook(const std::vector<std::string> &node_names) {
+        if (m_desktop == nullptr) {
+            TS_LOG_ERROR << "Can not run workbench with no program setup" << eject;
+        }
+
         this->m_hooked_tensor.clear();
 
         auto controller = std::make_shared<DynamicMemoryController>(MemoryDevice(CPU));
-- 
2.43.0


From 495af8c650b7167b61de1f489d2f750ad9962ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:47 +0000
Subject: [PATCH 29/39] fix: slices outside a tensor read memory it does not
 own

---
 src/core/tensor.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/core/tensor.cpp b/src/core/tensor.cpp
index 925c014..5190d95 100644
--- a/src/core/tensor.cpp
+++ b/src/core/tensor.cpp
@@ -625,6 +625,7 @@ namespace ts {
 
     Tensor Tensor::slice(int i) {
         auto &sizes = this->sizes();
+        TS_AUTO_CHECK(!sizes.empty() && i >= 0 && i < sizes[0]);
         auto width = std::accumulate(sizes.begin() + 1, sizes.end(), 1, std::multiplies<int>());
         width *= this->proto().type_bytes();
         Shape slice_shape(sizes.begin() + 1, sizes.end());
@@ -635,6 +636,7 @@ namespace ts {
     Tensor Tensor::slice(int beg, int end) {
         TS_AUTO_CHECK(beg < end);
         auto &sizes = this->sizes();
+        TS_AUTO_CHECK(!sizes.empty() && beg >= 0 && end <= sizes[0]);
         auto width = std::accumulate(sizes.begin() + 1, sizes.end(), 1, std::multiplies<int>());
         width *= this->proto().type_bytes();
 
-- 
2.43.0


From 1886c5590d12c5524874ce839b14b926e350f187 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:47 +0000
Subject: [PATCH 30/39] fix: reshaping with a null shape crashes

---
 src/api/tensor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/api/tensor.cpp b/src/api/tensor.cpp
index 04fe886..f9206b4 100644
--- a/src/api/tensor.cpp
+++ b/src/api/tensor.cpp
@@ -113,6 +113,7 @@ ts_Tensor *ts_Tensor_cast(ts_Tensor *tensor, ts_DTYPE dtype) {
 ts_Tensor *ts_Tensor_reshape(ts_Tensor *tensor, const int32_t *shape, int32_t shape_len) {
     TRY_HEAD
         if (!tensor) throw Exception("NullPointerException: @param: 1");
+        if (shape == nullptr) shape_len = 0;
         std::unique_ptr<ts_Tensor> dolly(new ts_Tensor((*tensor)->reshape(Shape(shape, shape + shape_len))));
     RETURN_OR_CATCH(dolly.release(), nullptr)
 }
-- 
2.43.0


From 6651c596321f90ada74875100374f7891ef8f535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:59 +0000
Subject: [PATCH 31/39] fix: shapes of more than 7 dimensions overflow their
 storage

---
 include/utils/otl.h | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/include/utils/otl.h b/include/utils/otl.h
index cef9c49..4767e5f 100644
--- a/include/utils/otl.h
+++ b/include/utils/otl.h
@@ -279,15 +279,15 @@ namespace ts {
 
             // fill
             explicit vector (size_type n)
-                : m_size(S(n)) {}
+                : m_size(_checked(n)) {}
 
             vector(size_type n, const value_type& val)
-                : m_size(S(n)) {
+                : m_size(_checked(n)) {
                 for (auto &slot : *this) slot = val;
             }
 
             vector(int n, const value_type& val)
-                    : m_size(S(n)) {
+                    : m_size(_checked(size_type(n))) {
                 for (auto &slot : *this) slot = val;
             }
 
@@ -296,9 +296,7 @@ namespace ts {
             vector(InputIterator first, InputIterator last) {
                 size_type n = 0;
                 for (auto it = first; it != last; ++it) {
-                    if (n > CAPACITY) {
-                        TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(n)) << eject;
-                    }
+                    _checked(n + 1);
                     m_buf[n] = *it;
                     ++n;
                 }
@@ -395,6 +393,7 @@ namespace ts {
             }
 
             void push_back(const T &val) {
+                _checked(this->size() + 1);
                 m_buf[m_size] = val;
                 ++m_size;
             }
@@ -405,6 +404,7 @@ namespace ts {
 
             template <typename ...Args>
             void emplace_back(Args &&...args) {
+                _checked(this->size() + 1);
                 new(m_buf + m_size) T(std::forward<Args>(args)...);
                 ++m_size;
             }
@@ -416,6 +416,13 @@ namespace ts {
             void reserve(size_type n) {}
 
         private:
+            static S _checked(size_type n) {
+                if (n > CAPACITY) {
+                    TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(n)) << eject;
+                }
+                return S(n);
+            }
+
             size_type _pointer2index(const T*ptr) const {
                 return ptr < m_buf ? 0 : ptr - m_buf;
             }
@@ -428,9 +435,7 @@ namespace ts {
             }
 
             void _insert(size_type i, const T&val) {
-                if (i + 1 > this->capacity()) {
-                    TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(N)) << eject;
-                }
+                _checked(this->size() + 1);
                 std::memmove(m_buf + i + 1, m_buf + i, sizeof(T) * (this->size() - i));
                 m_buf[i] = val;
                 m_size += 1;
@@ -438,9 +443,7 @@ namespace ts {
 
             template <size_t _N, typename _S>
             void _insert(size_type i, const vector<T, _N, _S> &vec) {
-                if (i + vec.size() > this->capacity()) {
-                    TS_LOG_ERROR << VectorOutOfRangeException::Message(N, int(N)) << eject;
-                }
+                _checked(this->size() + vec.size());
                 std::memmove(m_buf + i + vec.size(), m_buf + i, sizeof(T) * (this->size() - i));
                 std::memcpy(m_buf + i, vec.data(), sizeof(T) * (vec.size()));
                 m_size += S(vec.size());
-- 
2.43.0


From 3ca6fd9082fb9c90a374ef88b36e46754f545313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:59 +0000
Subject: [PATCH 32/39] fix: reshaping with -1 and a zero dimension divides by
 zero

---
 src/core/tensor.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/tensor.cpp b/src/core/tensor.cpp
index 5190d95..819308c 100644
--- a/src/core/tensor.cpp
+++ b/src/core/tensor.cpp
@@ -226,6 +226,9 @@ namespace ts {
         if (fixed_index >= 0) {
             auto up = std::accumulate(this->sizes().begin(), this->sizes().end(), 1, std::multiplies<int>());
             auto down = std::accumulate(fixed_shape.begin(), fixed_shape.end(), 1, std::multiplies<int>());
+            if (down == 0) {
+                TS_LOG_ERROR << "Can not reshape " << to_string(this->sizes()) << " to " << to_string(shape) << eject;
+            }
             fixed_shape[fixed_index] = up / -down;
         }
 
-- 
2.43.0


From a2f82394e0e2e2675b44ae49fc8a0d5405675fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:59 +0000
Subject: [PATCH 33/39] fix: softmax of integers divides by zero

---
 src/kernels/cpu/softmax.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/kernels/cpu/softmax.cpp b/src/kernels/cpu/softmax.cpp
index fceb35d..ec65797 100644
--- a/src/kernels/cpu/softmax.cpp
+++ b/src/kernels/cpu/softmax.cpp
@@ -60,6 +60,7 @@ namespace ts {
                         loop_in += tail_num;
                         loop_out += tail_num;
                     }
+                    if (std::is_integral<T>::value && sum == T(0)) continue;
                     loop_in = input_channel_data;
                     loop_out = output_channel_data;
                     for (int i = 0; i < body_num; ++i) {
@@ -127,6 +128,7 @@ namespace ts {
                         loop_in += tail_num;
                         loop_out += tail_num;
                     }
+                    if (std::is_integral<T>::value && sum == T(0)) continue;
                     loop_in = input_channel_data;
                     loop_out = output_channel_data;
                     for (int i = 0; i < body_num; ++i) {
-- 
2.43.0


From 33ca3060f6b666ce1c0fb8e23bf746bdb607d330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:00 +0000
Subject: [PATCH 34/39] fix: an image filter that could not be cleared crashes
 on next use

---
 src/runtime/image_filter.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/runtime/image_filter.cpp b/src/runtime/image_filter.cpp
index 37452e9..c90a7d5 100644
--- a/src/runtime/image_filter.cpp
+++ b/src/runtime/image_filter.cpp
@@ -35,10 +35,11 @@ namespace ts {
     }
 
     void ImageFilter::clear() {
+        auto graph = std::make_shared<Graph>();
+        ctx::bind<Graph> _bind_graph(graph.get());
+        bubble::param("_" + std::to_string(graph->nodes().size()), UINT8, {-1, -1, -1});    // add input param to graph
         m_impl->m_program.reset();
-        m_impl->m_graph = std::make_shared<Graph>();
-        ctx::bind<Graph> _bind_graph(m_impl->m_graph.get());
-        bubble::param(serial_name(), UINT8, {-1, -1, -1});    // add input param to graph
+        m_impl->m_graph = graph;
         m_impl->m_compiled = false;
     }
 
-- 
2.43.0


From 819c765d263b99854df34d545b224d9a6e3d8fb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:53 +0000
Subject: [PATCH 35/39] fix: fusing modules ignores the input slot

---
 include/module/module.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/module/module.h b/include/module/module.h
index 65964be..24e176d 100644
--- a/include/module/module.h
+++ b/include/module/module.h
@@ -77,7 +77,7 @@ namespace ts {
         class Route {
         public:
             Route(int32_t in, int32_t in_out_slot, int32_t out, int32_t out_in_slot)
-                    : in(in), in_out_slot(in_out_slot), out(out), out_in_slot() {
+                    : in(in), in_out_slot(in_out_slot), out(out), out_in_slot(out_in_slot) {
             }
 
             Route() = default;
-- 
2.43.0


From d3e1cd1dcdef00a64384b04b25b5b058d5ce6b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:15 +0000
Subject: [PATCH 36/39] fix: a freed workbench stays the current context

---
 src/runtime/workbench.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/runtime/workbench.cpp b/src/runtime/workbench.cpp
index b6773aa..b7811de 100644
--- a/src/runtime/workbench.cpp
+++ b/src/runtime/workbench.cpp
@@ -134,6 +134,7 @@ namespace ts {
     }
 
     Workbench::~Workbench() {
+        if (ctx::get<Workbench>() == this) ctx::set<Workbench>(nullptr);
         this->m_desktop.reset();
         this->m_stack->clear();
         this->m_inputs.clear();
-- 
2.43.0


From b7470f4fc9bbe39eb4d7e3a5d48e52843b91487f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:41:49 +0000
Subject: [PATCH 37/39] fix: fusing with a module that has no input crashes

---
 src/module/module.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/module/module.cpp b/src/module/module.cpp
index edbfd31..c878933 100644
--- a/src/module/module.cpp
+++ b/src/module/module.cpp
@@ -442,8 +442,8 @@ namespace ts {
         for (auto &route : routes) {
             if (route.in < 0 || route.in >= int(submodules.size()) ||
                 route.out < 0 || route.out >= int(submodules.size()) ||
-                (route.in_out_slot < 0 && submodules[route.in]->outputs().size() > 1) ||
-                (route.out_in_slot < 0 && submodules[route.out]->inputs().size() > 1) ||
+                (route.in_out_slot < 0 && submodules[route.in]->outputs().size() != 1) ||
+                (route.out_in_slot < 0 && submodules[route.out]->inputs().size() != 1) ||
                 route.in_out_slot >= int(submodules[route.in]->outputs().size()) ||
                 route.out_in_slot >= int(submodules[route.out]->inputs().size())) {
                 TS_LOG_ERROR << "Got invalid route: [" << route.in << ", "
-- 
2.43.0


From 050028dd6a46e29776fdec96ea9e579b760b81ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:35 +0000
Subject: [PATCH 38/39] fix: resizing an empty image reads memory it does not
 own

---
 src/backend/base/base_resize2d.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/backend/base/base_resize2d.cpp b/src/backend/base/base_resize2d.cpp
index 22209fc..817825d 100644
--- a/src/backend/base/base_resize2d.cpp
+++ b/src/backend/base/base_resize2d.cpp
@@ -112,6 +112,11 @@ namespace ts {
                 return 1;
             }
 
+            if (stack[0].size(dim) <= 0 || stack[0].size(dim + 1) <= 0) {
+                TS_LOG_ERROR << "Can not resize " << to_string(stack[0].sizes())
+                             << " to " << to_string(resized_proto.sizes()) << eject;
+            }
+
             auto memory_device = running_memory_device();
 
             auto x = stack[0].view(memory_device);
-- 
2.43.0


From a7efac861d6409df91a18411daa2418f33d2d193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:25:34 +0000
Subject: [PATCH 39/39] fix: cloning a workbench initialises operators with a
 thread pool that is gone

---
 src/runtime/workbench.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/runtime/workbench.cpp b/src/runtime/workbench.cpp
index b7811de..318cfbf 100644
--- a/src/runtime/workbench.cpp
+++ b/src/runtime/workbench.cpp
@@ -166,11 +166,13 @@ namespace ts {
         Workbench::shared dolly(new Workbench(
                 this->m_device_context.computing_device));
 
+        // the thread pool has to be the final one before it is bound
+        dolly->m_runtime_context = this->m_runtime_context.clone();
+
         BindWorkbenchRuntime _bind_runtime(*dolly);
 
         dolly->m_inputs.resize(this->m_inputs.size());
         dolly->m_outputs.resize(this->m_outputs.size());
-        dolly->m_runtime_context = this->m_runtime_context.clone();
         if (this->m_desktop) {
             dolly->m_desktop = this->m_desktop->clone();
         }
-- 
2.43.0

