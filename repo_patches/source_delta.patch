From 072ea1fb24c4c8f58dbc528204914ef587efe37f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:53 +0000
Subject: [PATCH 01/22] fix: honor the box order in the 2D and 3D FFTW and MKL
 executors

---
 include/heffte_backend_fftw.h | 30 ++++++++++++++++--------------
 include/heffte_backend_mkl.h  | 15 ++++++++-------
 2 files changed, 24 insertions(+), 21 deletions(-)

diff --git a/include/heffte_backend_fftw.h b/include/heffte_backend_fftw.h
index b501e8b..14438bf 100644
--- a/include/heffte_backend_fftw.h
+++ b/include/heffte_backend_fftw.h
@@ -230,7 +230,8 @@ public:
     //! \brief Merges two FFTs into one.
     template<typename index>
     fftw_executor(void*, box3d<index> const box, int dir1, int dir2) :
-        size(box.size[std::min(dir1, dir2)]), size2(box.size[std::max(dir1, dir2)]),
+        size(box.osize(std::min(box.find_order(dir1), box.find_order(dir2)))),
+        size2(box.osize(std::max(box.find_order(dir1), box.find_order(dir2)))),
         blocks(1), block_stride(0), total_size(box.count()), embed({0, 0})
     {
         int odir1 = box.find_order(dir1);
@@ -239,22 +240,22 @@ public:
         if (std::min(odir1, odir2) == 0 and std::max(odir1, odir2) == 1){
             stride = 1;
             dist = size * size2;
-            howmanyffts = box.size[2];
+            howmanyffts = box.osize(2);
         }else if (std::min(odir1, odir2) == 1 and std::max(odir1, odir2) == 2){
-            stride = box.size[0];
+            stride = box.osize(0);
             dist = 1;
-            howmanyffts = box.size[0];
+            howmanyffts = box.osize(0);
         }else{ // case of directions (0, 2)
             stride = 1;
             dist = size;
-            embed = {static_cast<int>(box.size[2]), static_cast<int>(box.size[1] * box.size[0])};
-            howmanyffts = box.size[1];
+            embed = {static_cast<int>(box.osize(2)), static_cast<int>(box.osize(1) * box.osize(0))};
+            howmanyffts = box.osize(1);
         }
     }
     //! \brief Merges three FFTs into one.
     template<typename index>
     fftw_executor(void*, box3d<index> const box) :
-        size(box.size[0]), size2(box.size[1]), howmanyffts(box.size[2]),
+        size(box.osize(0)), size2(box.osize(1)), howmanyffts(box.osize(2)),
         stride(0), dist(0),
         blocks(1), block_stride(0),
         total_size(box.count()),
@@ -594,7 +595,8 @@ template<typename prepost_processor> struct real2real_executor<backend::fftw, pr
     //! \brief Construct a plan for batch 2D transforms, not implemented currently.
     template<typename index>
     real2real_executor(void*, box3d<index> const box, int dir1, int dir2) :
-        size(box.size[std::min(dir1, dir2)]), size2(box.size[std::max(dir1, dir2)]),
+        size(box.osize(std::min(box.find_order(dir1), box.find_order(dir2)))),
+        size2(box.osize(std::max(box.find_order(dir1), box.find_order(dir2)))),
         blocks(1), block_stride(0), total_size(box.count()), embed({0, 0})
     {
         int odir1 = box.find_order(dir1);
@@ -603,22 +605,22 @@ template<typename prepost_processor> struct real2real_executor<backend::fftw, pr
         if (std::min(odir1, odir2) == 0 and std::max(odir1, odir2) == 1){
             stride = 1;
             dist = size * size2;
-            howmanyffts = box.size[2];
+            howmanyffts = box.osize(2);
         }else if (std::min(odir1, odir2) == 1 and std::max(odir1, odir2) == 2){
-            stride = box.size[0];
+            stride = box.osize(0);
             dist = 1;
-            howmanyffts = box.size[0];
+            howmanyffts = box.osize(0);
         }else{ // case of directions (0, 2)
             stride = 1;
             dist = size;
-            embed = {static_cast<int>(box.size[2]), static_cast<int>(box.size[1] * box.size[0])};
-            howmanyffts = box.size[1];
+            embed = {static_cast<int>(box.osize(2)), static_cast<int>(box.osize(1) * box.osize(0))};
+            howmanyffts = box.osize(1);
         }
     }
     //! \brief Construct a plan for a single 3D transform, not implemented currently.
     template<typename index>
     real2real_executor(void*, box3d<index> const box) :
-        size(box.size[0]), size2(box.size[1]), howmanyffts(box.size[2]),
+        size(box.osize(0)), size2(box.osize(1)), howmanyffts(box.osize(2)),
         stride(0), dist(0),
         blocks(1), block_stride(0),
         total_size(box.count()),
diff --git a/include/heffte_backend_mkl.h b/include/heffte_backend_mkl.h
index cdbc32c..72957ec 100644
--- a/include/heffte_backend_mkl.h
+++ b/include/heffte_backend_mkl.h
@@ -195,7 +195,8 @@ public:
     //! \brief Merges two FFTs into one.
     template<typename index>
     mkl_executor(void*, box3d<index> const box, int dir1, int dir2) :
-        size(box.size[std::min(dir1, dir2)]), size2(box.size[std::max(dir1, dir2)]),
+        size(box.osize(std::min(box.find_order(dir1), box.find_order(dir2)))),
+        size2(box.osize(std::max(box.find_order(dir1), box.find_order(dir2)))),
         blocks(1), block_stride(0), total_size(box.count())
     {
         int odir1 = box.find_order(dir1);
@@ -205,23 +206,23 @@ public:
             stride = 1;
             dist = size * size2;
             embed = {static_cast<MKL_LONG>(stride), static_cast<MKL_LONG>(size)};
-            howmanyffts = box.size[2];
+            howmanyffts = box.osize(2);
         }else if (std::min(odir1, odir2) == 1 and std::max(odir1, odir2) == 2){
-            stride = box.size[0];
+            stride = box.osize(0);
             dist = 1;
             embed = {static_cast<MKL_LONG>(stride), static_cast<MKL_LONG>(size) * static_cast<MKL_LONG>(stride)};
-            howmanyffts = box.size[0];
+            howmanyffts = box.osize(0);
         }else{ // case of directions (0, 2)
             stride = 1;
             dist = size;
-            embed = {static_cast<MKL_LONG>(stride), static_cast<MKL_LONG>(box.size[1]) * static_cast<MKL_LONG>(box.size[0])};
-            howmanyffts = box.size[1];
+            embed = {static_cast<MKL_LONG>(stride), static_cast<MKL_LONG>(box.osize(1)) * static_cast<MKL_LONG>(box.osize(0))};
+            howmanyffts = box.osize(1);
         }
     }
     //! \brief Merges three FFTs into one.
     template<typename index>
     mkl_executor(void*, box3d<index> const box) :
-        size(box.size[0]), size2(box.size[1]), howmanyffts(box.size[2]),
+        size(box.osize(0)), size2(box.osize(1)), howmanyffts(box.osize(2)),
         stride(0), dist(0),
         blocks(1), block_stride(0),
         total_size(box.count()),
-- 
2.43.0


From 0f32562fdff5dc753f81d9942fff416a3ba07bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:53 +0000
Subject: [PATCH 02/22] fix: copy the input in the backward transform when the
 3D executor is used

---
 src/heffte_compute_transform.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/heffte_compute_transform.cpp b/src/heffte_compute_transform.cpp
index 1f425fe..c34fb83 100644
--- a/src/heffte_compute_transform.cpp
+++ b/src/heffte_compute_transform.cpp
@@ -72,8 +72,9 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
         scalar_type *effective_input = output;
         if (input != output){
             add_trace name("copy");
-            if (executor[0] != nullptr)
-                backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * executor[0]->box_size(), temp_buffer);
+            int valid_executor = (executor[0] != nullptr) ? 0 : ((executor[1] != nullptr) ? 1 : 2);
+            if (executor[valid_executor] != nullptr)
+                backend::data_manipulator<location_tag>::copy_n(stream, input, batch_size * executor[valid_executor]->box_size(), temp_buffer);
             effective_input = temp_buffer;
         }
         for(int i=0; i<last; i++)
-- 
2.43.0


From 90dd15a8d0b9e37fb37d6cfef09112453adcd263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:53 +0000
Subject: [PATCH 03/22] fix: use the correct batch offsets in the forward r2c
 transform without reshapes

---
 src/heffte_compute_transform.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/heffte_compute_transform.cpp b/src/heffte_compute_transform.cpp
index c34fb83..2468f91 100644
--- a/src/heffte_compute_transform.cpp
+++ b/src/heffte_compute_transform.cpp
@@ -156,8 +156,8 @@ void compute_transform(typename backend::data_manipulator<location_tag>::stream_
         for(int j=0; j<batch_size; j++){
             if (executor[0] != nullptr) executor[0]->forward(effective_input + j * executor[0]->box_size(),
                                                              output + j * executor[0]->complex_size(), executor_workspace);
-            if (executor[1] != nullptr) executor[1]->forward(output + j * executor[0]->box_size(), executor_workspace);
-            if (executor[2] != nullptr) executor[2]->forward(output + j * executor[0]->box_size(), executor_workspace);
+            if (executor[1] != nullptr) executor[1]->forward(output + j * executor[1]->box_size(), executor_workspace);
+            if (executor[2] != nullptr) executor[2]->forward(output + j * executor[2]->box_size(), executor_workspace);
         }
         return;
     }
-- 
2.43.0


From a91dc09a90f66e5886e3d04718d4c9fa8c9b2822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:53 +0000
Subject: [PATCH 04/22] fix: create out-of-place FFTW plans for the r2c
 executor

---
 include/heffte_backend_fftw.h | 40 +++++++++++++++++++++--------------
 1 file changed, 24 insertions(+), 16 deletions(-)

diff --git a/include/heffte_backend_fftw.h b/include/heffte_backend_fftw.h
index 14438bf..770884b 100644
--- a/include/heffte_backend_fftw.h
+++ b/include/heffte_backend_fftw.h
@@ -358,17 +358,21 @@ struct plan_fftw<float, dir>{
      * \param rdist is the distance between the first entries of consecutive sequences in the real sequences
      * \param cdist is the distance between the first entries of consecutive sequences in the complex sequences
      */
-    plan_fftw(int size, int howmanyffts, int stride, int rdist, int cdist) :
-        plan((dir == direction::forward) ?
-             fftwf_plan_many_dft_r2c(1, &size, howmanyffts, nullptr, nullptr, stride, rdist,
-                                                   nullptr, nullptr, stride, cdist,
+    plan_fftw(int size, int howmanyffts, int stride, int rdist, int cdist){
+        // FFTW_ESTIMATE never reads or writes the arrays, but two distinct addresses are needed
+        // since identical addresses (e.g., two nullptr) create a plan that is valid only for in-place transforms
+        alignas(64) float rdata[2];
+        alignas(64) fftwf_complex cdata[2];
+        plan = (dir == direction::forward) ?
+             fftwf_plan_many_dft_r2c(1, &size, howmanyffts, rdata, nullptr, stride, rdist,
+                                                   cdata, nullptr, stride, cdist,
                                                    FFTW_ESTIMATE
                                    ) :
-             fftwf_plan_many_dft_c2r(1, &size, howmanyffts, nullptr, nullptr, stride, cdist,
-                                                   nullptr, nullptr, stride, rdist,
+             fftwf_plan_many_dft_c2r(1, &size, howmanyffts, cdata, nullptr, stride, cdist,
+                                                   rdata, nullptr, stride, rdist,
                                                    FFTW_ESTIMATE
-                                   ))
-        {}
+                                   );
+    }
     //! \brief Identical to the float-complex specialization.
     ~plan_fftw(){ fftwf_destroy_plan(plan); }
     //! \brief Identical to the float-complex specialization.
@@ -383,17 +387,21 @@ struct plan_fftw<float, dir>{
 template<direction dir>
 struct plan_fftw<double, dir>{
     //! \brief Identical to the float-complex specialization.
-    plan_fftw(int size, int howmanyffts, int stride, int rdist, int cdist) :
-        plan((dir == direction::forward) ?
-             fftw_plan_many_dft_r2c(1, &size, howmanyffts, nullptr, nullptr, stride, rdist,
-                                                   nullptr, nullptr, stride, cdist,
+    plan_fftw(int size, int howmanyffts, int stride, int rdist, int cdist){
+        // FFTW_ESTIMATE never reads or writes the arrays, but two distinct addresses are needed
+        // since identical addresses (e.g., two nullptr) create a plan that is valid only for in-place transforms
+        alignas(64) double rdata[2];
+        alignas(64) fftw_complex cdata[2];
+        plan = (dir == direction::forward) ?
+             fftw_plan_many_dft_r2c(1, &size, howmanyffts, rdata, nullptr, stride, rdist,
+                                                   cdata, nullptr, stride, cdist,
                                                    FFTW_ESTIMATE
                                    ) :
-             fftw_plan_many_dft_c2r(1, &size, howmanyffts, nullptr, nullptr, stride, cdist,
-                                                   nullptr, nullptr, stride, rdist,
+             fftw_plan_many_dft_c2r(1, &size, howmanyffts, cdata, nullptr, stride, cdist,
+                                                   rdata, nullptr, stride, rdist,
                                                    FFTW_ESTIMATE
-                                   ))
-        {}
+                                   );
+    }
     //! \brief Identical to the float-complex specialization.
     ~plan_fftw(){ fftw_destroy_plan(plan); }
     //! \brief Identical to the float-complex specialization.
-- 
2.43.0


From 2f4c8b87ce34bb36d1cc76e08cb6a50278d91aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:50 +0000
Subject: [PATCH 05/22] fix: check the input size in the vector variants of the
 complex-to-real backward transform

---
 include/heffte_fft3d.h     | 2 ++
 include/heffte_fft3d_r2c.h | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/include/heffte_fft3d.h b/include/heffte_fft3d.h
index 95d22ff..c771ba7 100644
--- a/include/heffte_fft3d.h
+++ b/include/heffte_fft3d.h
@@ -536,6 +536,8 @@ public:
     real_buffer_container<scalar_type> backward_real(buffer_container<scalar_type> const &input, scale scaling = scale::none){
         static_assert(not backend::uses_fft_types<backend_tag>::value or is_ccomplex<scalar_type>::value or is_zcomplex<scalar_type>::value,
                       "Either calling backward() with non-complex input or using an unknown complex type.");
+        if (input.size() < static_cast<size_t>(size_outbox()))
+            throw std::invalid_argument("The input vector is smaller than size_outbox(), i.e., not enough entries provided to fill the outbox.");
         auto result = make_buffer_container<typename transform_real_type<scalar_type, backend_tag>::type>(this->stream(), size_inbox());
         backward(input.data(), result.data(), scaling);
         return result;
diff --git a/include/heffte_fft3d_r2c.h b/include/heffte_fft3d_r2c.h
index e95ef47..e450e65 100644
--- a/include/heffte_fft3d_r2c.h
+++ b/include/heffte_fft3d_r2c.h
@@ -286,6 +286,8 @@ public:
     real_buffer_container<scalar_type> backward(buffer_container<scalar_type> const &input, scale scaling = scale::none){
         static_assert(is_ccomplex<scalar_type>::value or is_zcomplex<scalar_type>::value,
                       "Either calling backward() with non-complex input or using an unknown complex type.");
+        if (input.size() < static_cast<size_t>(size_outbox()))
+            throw std::invalid_argument("The input vector is smaller than size_outbox(), i.e., not enough entries provided to fill the outbox.");
         auto result = make_buffer_container<typename define_standard_type<scalar_type>::type::value_type>(this->stream(), size_inbox());
         backward(input.data(), result.data(), scaling);
         return result;
-- 
2.43.0


From b08f4045a5fbd4a5897ad11d1629f69a4edc0689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:49 +0000
Subject: [PATCH 06/22] fix: use 64-bit counts when maximizing the overlap of
 boxes

---
 include/heffte_geometry.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/heffte_geometry.h b/include/heffte_geometry.h
index e030715..6ad310e 100644
--- a/include/heffte_geometry.h
+++ b/include/heffte_geometry.h
@@ -506,10 +506,10 @@ inline std::vector<box3d<index>> maximize_overlap(std::vector<box3d<index>> cons
         }
         // for each box in the result, find the box among the new_boxes
         // that has not been taken and has the largest overlap with the corresponding old box
-        int max_overlap = -1;
+        long long max_overlap = -1;
         size_t max_index = new_boxes.size();
         for(size_t j=0; j<new_boxes.size(); j++){
-            int overlap = old_boxes[i].collide(new_boxes[j]).count();
+            long long overlap = old_boxes[i].collide(new_boxes[j]).count();
             if (not taken[j] and overlap > max_overlap){
                 max_overlap = overlap;
                 max_index = j;
-- 
2.43.0


From 3c7e79258900277035039f73152279b274da1a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:47:57 +0000
Subject: [PATCH 07/22] fix: consider all factors of the process count in
 proc_setup_min_surface

---
 include/heffte_geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/heffte_geometry.h b/include/heffte_geometry.h
index 6ad310e..8889b25 100644
--- a/include/heffte_geometry.h
+++ b/include/heffte_geometry.h
@@ -668,7 +668,7 @@ inline std::array<int, 3> proc_setup_min_surface(box3d<index> const world, int n
         if (num_procs % i == 0){
             int const j_max = std::min((index)(num_procs / i), all_indexes[1]);
             for(int j=1; j<=j_max; j++){
-                if (j_max % j == 0){
+                if ((num_procs / i) % j == 0){
                     int const k = num_procs / (i * j);
                     if (k <= all_indexes[2]){
                         if (i * j * k == num_procs) {
-- 
2.43.0


From b4da07fc7f58c2dc4159ebfe497dcda6057398a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:51:05 +0000
Subject: [PATCH 08/22] fix: let the two dimensional box constructor with order
 work with 64-bit indexes

---
 include/heffte_geometry.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/heffte_geometry.h b/include/heffte_geometry.h
index 8889b25..72c0a25 100644
--- a/include/heffte_geometry.h
+++ b/include/heffte_geometry.h
@@ -80,7 +80,7 @@ struct box3d{
     //! \brief Constructor for the two dimensional case, order is either (0, 1) or (1, 0).
     box3d(std::array<index, 2> clow, std::array<index, 2> chigh, std::array<int, 2> corder) :
         box3d(std::array<index, 3>{clow[0], clow[1], 0}, std::array<index, 3>{chigh[0], chigh[1], 0},
-              std::array<index, 3>{corder[0], corder[1], 2}){}
+              std::array<int, 3>{corder[0], corder[1], 2}){}
     //! \brief Returns true if the box contains no indexes.
     bool empty() const{ return (size[0] <= 0 or size[1] <= 0 or size[2] <= 0); }
     //! \brief Counts all indexes in the box, i.e., the volume.
-- 
2.43.0


From c1e030b93fd3d66f7b614063876bab0a2c337ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:48 +0000
Subject: [PATCH 09/22] fix: stock DFT and Rader twiddle factors lose all
 precision for long prime lengths

---
 include/stock_fft/heffte_stock_algos.h | 52 +++++++++++++-------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/include/stock_fft/heffte_stock_algos.h b/include/stock_fft/heffte_stock_algos.h
index 50cfbcd..b5e4bdd 100644
--- a/include/stock_fft/heffte_stock_algos.h
+++ b/include/stock_fft/heffte_stock_algos.h
@@ -34,8 +34,10 @@ struct biFuncNode;
 template<typename F, int L>
 struct omega {
     static inline Complex<F, L> get(size_t power, size_t N, direction dir) {
-        F a = 2.*M_PI*((F) power)/((F) N);
-        return Complex<F,L>(cos(a), direction_sign(dir)*sin(a));
+        // reduce the power with exact integer arithmetic and form the angle in double precision,
+        // the single precision angle has no correct digits when the power or N are large
+        double a = 2.*M_PI*static_cast<double>(power % N)/static_cast<double>(N);
+        return Complex<F,L>(static_cast<F>(std::cos(a)), static_cast<F>(direction_sign(dir)*std::sin(a)));
     }
 };
 
@@ -82,27 +84,17 @@ struct biFuncNode {
     size_t right = 0;            // Offset in array until right child
     complex_vector<F,L> workspace; // Workspace
     biFuncNode(): fptr(fft_type::discrete) {};
-    biFuncNode(size_t sig_size, fft_type type): sz(sig_size), fptr(type), workspace(sig_size) {}; // Create default constructor
+    biFuncNode(size_t sig_size, fft_type type): sz(sig_size), fptr(type), workspace(sig_size) { // Create default constructor
+        // the direct DFT keeps the forward twiddle factors in the workspace
+        if (type == fft_type::discrete) for(size_t k = 0; k < sig_size; k++) workspace[k] = omega<F,L>::get(k, sig_size, direction::forward);
+    }
     biFuncNode(size_t sig_size, size_t a, size_t ainv): sz(sig_size), fptr(a,ainv), workspace(sig_size) {};
 };
 
-// Internal helper function to perform a DFT
+// Internal helper function to perform a DFT, takes the table of the forward twiddle factors
+// (multiplying up the powers of a single twiddle factor loses precision quadratically with the size)
 template<typename F, int L>
-inline void DFT_helper(size_t size, Complex<F,L>* sig_in, Complex<F,L>* sig_out, size_t s_in, size_t s_out, direction dir) {
-    if(size == 1) {
-        sig_out[0] = sig_in[0];
-        return;
-    }
-
-    // Twiddle with smallest numerator
-    Complex<F,L> w0 = omega<F,L>::get(1, size, dir);
-
-    // Base twiddle for each outer iteration
-    Complex<F,L> wk = w0;
-
-    // Twiddle for inner iterations
-    Complex<F,L> wkn = w0;
-
+inline void DFT_helper(size_t size, Complex<F,L>* sig_in, Complex<F,L>* sig_out, size_t s_in, size_t s_out, Complex<F,L> const* twiddle, direction dir) {
     // Calculate first element of output
     Complex<F,L> tmp = sig_in[0];
     for(size_t n = 1; n < size; n++) {
@@ -115,23 +107,33 @@ inline void DFT_helper(size_t size, Complex<F,L>* sig_in, Complex<F,L>* sig_out,
         // Initialize kth output
         tmp = sig_in[0];
 
+        // The twiddle powers advance by k (modulo the size), the backward direction uses the conjugate powers
+        const size_t step = (dir == direction::forward) ? k : size - k;
+        size_t power = step;
+
         // Calculate kth output
         for(size_t n = 1; n < size; n++) {
+            Complex<F,L> wkn = twiddle[power];
             tmp = wkn.fmadd(sig_in[n*s_in], tmp);
-            wkn *= wk;
+            power += step;
+            if(power >= size) power -= size;
         }
         sig_out[k*s_out] = tmp;
-
-        // "Increment" wk and "reset" wkn
-        wk *= w0;
-        wkn = wk;
     }
 }
 
+// Internal helper function to perform a DFT without a precomputed table of twiddle factors
+template<typename F, int L>
+inline void DFT_helper(size_t size, Complex<F,L>* sig_in, Complex<F,L>* sig_out, size_t s_in, size_t s_out, direction dir) {
+    complex_vector<F,L> twiddle(size);
+    for(size_t k = 0; k < size; k++) twiddle[k] = omega<F,L>::get(k, size, direction::forward);
+    DFT_helper(size, sig_in, sig_out, s_in, s_out, static_cast<Complex<F,L> const*>(twiddle.data()), dir);
+}
+
 // External-facing function to properly call the internal DFT function
 template<typename F, int L>
 inline void DFT(Complex<F,L>* x, Complex<F,L>* y, size_t s_in, size_t s_out, biFuncNode<F,L>* sLeaf, direction dir) {
-    DFT_helper(sLeaf->sz, x, y, s_in, s_out, dir);
+    DFT_helper(sLeaf->sz, x, y, s_in, s_out, static_cast<Complex<F,L> const*>(sLeaf->workspace.data()), dir);
 }
 
 // Recursive helper function implementing a classic C-T FFT
-- 
2.43.0


From 500b7f6320edc17a41e983dee8eabfa194296d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:02:34 +0000
Subject: [PATCH 10/22] fix: stock factorisation missed squares of primes above
 1213

---
 include/stock_fft/heffte_stock_tree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stock_fft/heffte_stock_tree.h b/include/stock_fft/heffte_stock_tree.h
index 4ecdc59..c635eef 100644
--- a/include/stock_fft/heffte_stock_tree.h
+++ b/include/stock_fft/heffte_stock_tree.h
@@ -48,7 +48,7 @@ inline size_t factor(const size_t f) {
     }
 
     // If none of those work, turn to odd numbers that are greater than the last index
-    for(k = factors[k - 1]; k*k < f; k+=2) {
+    for(k = factors[k - 1]; k*k <= f; k+=2) {
         if( f % k == 0 ) return k;
     }
 
-- 
2.43.0


From 14677433fc294d1862e303c68c9607af97f07fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:51 +0000
Subject: [PATCH 11/22] fix: create FFTW plans that accept arrays of any
 alignment

---
 include/heffte_backend_fftw.h | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/include/heffte_backend_fftw.h b/include/heffte_backend_fftw.h
index 770884b..cb77527 100644
--- a/include/heffte_backend_fftw.h
+++ b/include/heffte_backend_fftw.h
@@ -111,7 +111,7 @@ struct plan_fftw<std::complex<float>, dir>{
     plan_fftw(int size, int howmanyffts, int stride, int dist) :
         plan(fftwf_plan_many_dft(1, &size, howmanyffts, nullptr, nullptr, stride, dist,
                                                     nullptr, nullptr, stride, dist,
-                                                    (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE
+                                                    (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE | FFTW_UNALIGNED
                                 ))
         {}
     /*!
@@ -130,12 +130,12 @@ struct plan_fftw<std::complex<float>, dir>{
         if (embed[0] == 0 and embed[1] == 0){
             plan = fftwf_plan_many_dft(2, size.data(), howmanyffts, nullptr, nullptr, stride, dist,
                                                     nullptr, nullptr, stride, dist,
-                                                    (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE
+                                                    (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE | FFTW_UNALIGNED
                                       );
         }else{
             plan = fftwf_plan_many_dft(2, size.data(), howmanyffts, nullptr, embed.data(), stride, dist,
                                                     nullptr, embed.data(), stride, dist,
-                                                    (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE
+                                                    (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE | FFTW_UNALIGNED
                                       );
         }
     }
@@ -143,7 +143,7 @@ struct plan_fftw<std::complex<float>, dir>{
     plan_fftw(int size1, int size2, int size3){
         std::array<int, 3> size = {size3, size2, size1};
         plan = fftwf_plan_many_dft(3, size.data(), 1, nullptr, nullptr, 1, 1, nullptr, nullptr, 1, 1,
-                                   (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE);
+                                   (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE | FFTW_UNALIGNED);
     }
     //! \brief Destructor, deletes the plan.
     ~plan_fftw(){ fftwf_destroy_plan(plan); }
@@ -162,7 +162,7 @@ struct plan_fftw<std::complex<double>, dir>{
     plan_fftw(int size, int howmanyffts, int stride, int dist) :
         plan(fftw_plan_many_dft(1, &size, howmanyffts, nullptr, nullptr, stride, dist,
                                                    nullptr, nullptr, stride, dist,
-                                                   (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE
+                                                   (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE | FFTW_UNALIGNED
                                ))
         {}
     //! \brief Identical to the float-complex specialization.
@@ -172,12 +172,12 @@ struct plan_fftw<std::complex<double>, dir>{
         if (embed[0] == 0 and embed[1] == 0){
             plan = fftw_plan_many_dft(2, size.data(), howmanyffts, nullptr, nullptr, stride, dist,
                                                       nullptr, nullptr, stride, dist,
-                                                      (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE
+                                                      (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE | FFTW_UNALIGNED
                                      );
         }else{
             plan = fftw_plan_many_dft(2, size.data(), howmanyffts, nullptr, embed.data(), stride, dist,
                                                       nullptr, embed.data(), stride, dist,
-                                                      (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE
+                                                      (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE | FFTW_UNALIGNED
                                      );
         }
     }
@@ -185,7 +185,7 @@ struct plan_fftw<std::complex<double>, dir>{
     plan_fftw(int size1, int size2, int size3){
         std::array<int, 3> size = {size3, size2, size1};
         plan = fftw_plan_many_dft(3, size.data(), 1, nullptr, nullptr, 1, 1, nullptr, nullptr, 1, 1,
-                                  (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE);
+                                  (dir == direction::forward) ? FFTW_FORWARD : FFTW_BACKWARD, FFTW_ESTIMATE | FFTW_UNALIGNED);
     }
     //! \brief Identical to the float-complex specialization.
     ~plan_fftw(){ fftw_destroy_plan(plan); }
@@ -366,11 +366,11 @@ struct plan_fftw<float, dir>{
         plan = (dir == direction::forward) ?
              fftwf_plan_many_dft_r2c(1, &size, howmanyffts, rdata, nullptr, stride, rdist,
                                                    cdata, nullptr, stride, cdist,
-                                                   FFTW_ESTIMATE
+                                                   FFTW_ESTIMATE | FFTW_UNALIGNED
                                    ) :
              fftwf_plan_many_dft_c2r(1, &size, howmanyffts, cdata, nullptr, stride, cdist,
                                                    rdata, nullptr, stride, rdist,
-                                                   FFTW_ESTIMATE
+                                                   FFTW_ESTIMATE | FFTW_UNALIGNED
                                    );
     }
     //! \brief Identical to the float-complex specialization.
@@ -395,11 +395,11 @@ struct plan_fftw<double, dir>{
         plan = (dir == direction::forward) ?
              fftw_plan_many_dft_r2c(1, &size, howmanyffts, rdata, nullptr, stride, rdist,
                                                    cdata, nullptr, stride, cdist,
-                                                   FFTW_ESTIMATE
+                                                   FFTW_ESTIMATE | FFTW_UNALIGNED
                                    ) :
              fftw_plan_many_dft_c2r(1, &size, howmanyffts, cdata, nullptr, stride, cdist,
                                                    rdata, nullptr, stride, rdist,
-                                                   FFTW_ESTIMATE
+                                                   FFTW_ESTIMATE | FFTW_UNALIGNED
                                    );
     }
     //! \brief Identical to the float-complex specialization.
@@ -544,7 +544,7 @@ struct plan_fftw_r2r{
     plan_fftw_r2r(int size, int howmanyffts, int stride, int dist){
         auto kind = make_kind_array<1>();
         plan = fftw_r2r_types<scalar_type>::plan_many(1, &size, howmanyffts, nullptr, nullptr, stride, dist,
-                                                      nullptr, nullptr, stride, dist, kind.data(), FFTW_ESTIMATE);
+                                                      nullptr, nullptr, stride, dist, kind.data(), FFTW_ESTIMATE | FFTW_UNALIGNED);
     }
     //! \brief Identical to the float-complex specialization.
     plan_fftw_r2r(int size1, int size2, std::array<int, 2> const &embed, int howmanyffts, int stride, int dist){
@@ -553,17 +553,17 @@ struct plan_fftw_r2r{
 
         if (embed[0] == 0 and embed[1] == 0){
             plan = fftw_r2r_types<scalar_type>::plan_many(2, size.data(), howmanyffts, nullptr, nullptr, stride, dist,
-                                                          nullptr, nullptr, stride, dist, kind.data(), FFTW_ESTIMATE);
+                                                          nullptr, nullptr, stride, dist, kind.data(), FFTW_ESTIMATE | FFTW_UNALIGNED);
         }else{
             plan = fftw_r2r_types<scalar_type>::plan_many(2, size.data(), howmanyffts, nullptr, embed.data(), stride, dist,
-                                                          nullptr, embed.data(), stride, dist, kind.data(), FFTW_ESTIMATE);
+                                                          nullptr, embed.data(), stride, dist, kind.data(), FFTW_ESTIMATE | FFTW_UNALIGNED);
         }
     }
     //! \brief Identical to the float-complex specialization.
     plan_fftw_r2r(int size1, int size2, int size3){
         std::array<int, 3> size = {size3, size2, size1};
         auto kind = make_kind_array<3>();
-        plan = fftw_r2r_types<scalar_type>::plan_many(3, size.data(), 1, nullptr, nullptr, 1, 1, nullptr, nullptr, 1, 1, kind.data(), FFTW_ESTIMATE);
+        plan = fftw_r2r_types<scalar_type>::plan_many(3, size.data(), 1, nullptr, nullptr, 1, 1, nullptr, nullptr, 1, 1, kind.data(), FFTW_ESTIMATE | FFTW_UNALIGNED);
     }
     //! \brief Make the array with the kind of the transform.
     template<size_t dims> static std::array<fftw_r2r_kind, dims> make_kind_array() {
-- 
2.43.0


From 5642ffaddf4323bfc005bf1c772adf8c3c5172d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:27 +0000
Subject: [PATCH 12/22] fix: set use_gpu_aware in the default options of the C
 interface

---
 src/heffte_c.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/heffte_c.cpp b/src/heffte_c.cpp
index 75bf9e1..4a9c72c 100644
--- a/src/heffte_c.cpp
+++ b/src/heffte_c.cpp
@@ -223,6 +223,7 @@ int heffte_set_default_options(int backend, heffte_plan_options *options){
     options->use_reorder = (opts.use_reorder) ? 1 : 0;
     options->algorithm = Heffte_RESHAPE_ALGORITHM_ALLTOALLV;
     options->use_pencils = (opts.use_pencils) ? 1 : 0;
+    options->use_gpu_aware = (opts.use_gpu_aware) ? 1 : 0;
     return Heffte_SUCCESS;
 }
 
-- 
2.43.0


From 558585d60eff55b70ed9ef479ca09e5e1e941a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:27 +0000
Subject: [PATCH 13/22] fix: report every failed plan creation through the
 return code of the C interface

---
 src/heffte_c.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/heffte_c.cpp b/src/heffte_c.cpp
index 4a9c72c..bed7230 100644
--- a/src/heffte_c.cpp
+++ b/src/heffte_c.cpp
@@ -244,9 +244,9 @@ int heffte_plan_create(int backend, int const inbox_low[3], int const inbox_high
         heffte_set_default_options(backend, &c_opts);
         opts = &c_opts;
     }
-    heffte::plan_options cpp_opts = heffte::options_from_c_options(opts);
 
     try{
+    heffte::plan_options cpp_opts = heffte::options_from_c_options(opts);
     if (backend == Heffte_BACKEND_STOCK){
         (*plan)->fft = reinterpret_cast<void*>(new heffte::fft3d<heffte::backend::stock>(inbox, outbox, comm, cpp_opts));
     }
@@ -271,9 +271,9 @@ int heffte_plan_create(int backend, int const inbox_low[3], int const inbox_high
     }
     #endif
 
-    }catch(std::runtime_error &){
+    }catch(std::exception &){
         delete *plan;
-        plan = nullptr;
+        *plan = nullptr;
         return 2;
     }
 
@@ -298,9 +298,9 @@ int heffte_plan_create_r2c(int backend, int const inbox_low[3], int const inbox_
         heffte_set_default_options(backend, &c_opts);
         opts = &c_opts;
     }
-    heffte::plan_options cpp_opts = heffte::options_from_c_options(opts);
 
     try{
+    heffte::plan_options cpp_opts = heffte::options_from_c_options(opts);
     if (backend == Heffte_BACKEND_STOCK){
         (*plan)->fft = reinterpret_cast<void*>(new heffte::fft3d_r2c<heffte::backend::stock>(inbox, outbox, r2c_direction, comm, cpp_opts));
     }
@@ -325,9 +325,9 @@ int heffte_plan_create_r2c(int backend, int const inbox_low[3], int const inbox_
     }
     #endif
 
-    }catch(std::runtime_error &){
+    }catch(std::exception &){
         delete *plan;
-        plan = nullptr;
+        *plan = nullptr;
         return 2;
     }
 
-- 
2.43.0


From 91c7c5edf59b138552c3809bcfd95e988b650d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:47 +0000
Subject: [PATCH 14/22] fix: match the Python plan options to the C structure

---
 python/heffte.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/heffte.py b/python/heffte.py
index 4ffa2b0..47063a8 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -38,7 +38,7 @@ class heffte_plan(Structure):
 LP_plan = POINTER(heffte_plan)
 
 class plan_options(Structure):
-    _fields_ = [ ("use_reorder", c_int), ("use_alltoall", c_int), ("use_pencils", c_int) ]
+    _fields_ = [ ("use_reorder", c_int), ("use_alltoall", c_int), ("use_pencils", c_int), ("use_gpu_aware", c_int) ]
 
 # double-check this!
 MPI_Comm = c_int if mpi._sizeof(mpi.COMM_WORLD) == sizeof(c_int) else c_void_p
@@ -150,7 +150,7 @@ def fft3d(backend_tag, inbox, outbox, comm):
     # Initialize
     plan.fft_comm = comm
     plan.plan = LP_plan()
-    options = plan_options(0,1,1)
+    options = plan_options(0,1,1,1)
 
     herr = libheffte.heffte_plan_create(backend_tag, inbox.low, inbox.high, inbox.order,
                                         outbox.low, outbox.high, outbox.order,
@@ -182,7 +182,7 @@ def fft3d_r2c(backend_tag, inbox, outbox, r2c_direction, comm):
     # Initialize
     plan.fft_comm = comm
     plan.plan = LP_plan()
-    options = plan_options(0,1,1)
+    options = plan_options(0,1,1,1)
 
     herr = libheffte.heffte_plan_create_r2c(backend_tag, inbox.low, inbox.high, inbox.order,
                                             outbox.low, outbox.high, outbox.order,
-- 
2.43.0


From cab75403a55a6e1d9ad2479f13dd09a282998a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:47 +0000
Subject: [PATCH 15/22] fix: check the backward array sizes in Python against
 the matching boxes

---
 python/heffte.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/heffte.py b/python/heffte.py
index 47063a8..1ecfe71 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -316,7 +316,7 @@ class heffte_fft_plan:
         if scaling not in (0, 1, 2):
             raise heffte_input_error("backward() called with invalid scaling")
 
-        if inarray.size != self.size_inbox() or outarray.size != self.size_outbox():
+        if inarray.size != self.size_outbox() or outarray.size != self.size_inbox():
             raise heffte_input_error("backward() called with invalid array size")
 
         if self.use_r2c:
@@ -359,9 +359,12 @@ class heffte_fft_plan:
         if scaling not in (0, 1, 2):
             raise heffte_input_error("backward() called with invalid scaling")
 
-        if inarray.size != self.size_inbox() or outarray.size != self.size_outbox():
+        if inarray.size != self.size_outbox() or outarray.size != self.size_inbox():
             raise heffte_input_error("backward() called with invalid array size")
 
+        if workspace.size < self.size_workspace():
+            raise heffte_input_error("backward() called with insufficient workspace size")
+
         if self.use_r2c:
             if outarray.dtype == np.complex64 or outarray.dtype == np.complex128:
                 raise heffte_input_error("backward() called with r2c can use only real outarray types")
-- 
2.43.0


From 609430327d4741ab9c6eaf16e41ad2b324704acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:47 +0000
Subject: [PATCH 16/22] fix: mark the real-to-complex plans in Python

---
 python/heffte.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/heffte.py b/python/heffte.py
index 1ecfe71..41130cf 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -174,7 +174,7 @@ def fft3d_r2c(backend_tag, inbox, outbox, r2c_direction, comm):
         raise heffte_input_error("fft3d_r2c() called with invalid r2c_direction, must use 0, 1, or 2")
 
     plan = heffte_fft_plan()
-    plan.use_r2c = False
+    plan.use_r2c = True
 
     # Define ctypes API for each library method
     comm_value = MPI_Comm.from_address( mpi._addressof(comm) )
-- 
2.43.0


From 1845091412febd77448d2d7caf3cff27e52046c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:47 +0000
Subject: [PATCH 17/22] fix: print the message of the Python exception

---
 python/heffte.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/heffte.py b/python/heffte.py
index 41130cf..c9a8bbd 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -31,7 +31,7 @@ class heffte_input_error(Exception):
         '''
         Prints the message set by the constructor.
         '''
-        print(message)
+        print(self.message)
 
 class heffte_plan(Structure):
     _fields_ = [ ("backend_type", c_int), ("using_r2c", c_int), ("fft", c_void_p) ]
-- 
2.43.0


From 9963e1978c03f8b836357af55dd624928e277604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:47 +0000
Subject: [PATCH 18/22] fix: do not destroy Python plans that were never
 created

---
 python/heffte.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/heffte.py b/python/heffte.py
index c9a8bbd..b3aff1e 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -199,10 +199,11 @@ class heffte_fft_plan:
 
         Use one of the factory methods, either fft3d() or fft3d_r2c().
         '''
-        pass
+        self.plan = LP_plan()
 
     def __del__(self):
-        libheffte.heffte_plan_destroy(self.plan)
+        if self.plan:
+            libheffte.heffte_plan_destroy(self.plan)
 
     def _get_ctypes_data(self, x, xtype):
         '''
-- 
2.43.0


From ba5681a335ac87ac53fe54770e1a5220879cb713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:12 +0000
Subject: [PATCH 19/22] fix: make the Python decomposition helpers work

---
 python/heffte.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/python/heffte.py b/python/heffte.py
index b3aff1e..88a3eed 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -125,12 +125,19 @@ class box3d:
         self.low = np.array(clow, dtype = np.int32)
         self.high = np.array(chigh, dtype = np.int32)
         self.order = np.array(corder, dtype = np.int32)
+        self.size = self.high - self.low + 1
         assert self.low.size == 3
         assert self.high.size == 3
         assert self.order.size == 3
         for i in range(3):
             assert self.order[i] in [0, 1, 2]
 
+    def count(self):
+        '''
+        Returns the number of indexes contained in the box.
+        '''
+        return int(np.prod(self.size, dtype = np.int64)) if np.all(self.size > 0) else 0
+
 def fft3d(backend_tag, inbox, outbox, comm):
     '''
     Initialize a fft3d operation, the syntax is near identical to C++.
@@ -440,10 +447,10 @@ def proc_setup(world, num_procs):
 
     for i in np.arange(1, num_procs+1):
         if (num_procs % i == 0):
-            remainder = num_procs / i
+            remainder = num_procs // i
             for j in np.arange(1, remainder+1):
                 if (remainder % j == 0):
-                    candidate_grid = [i, j, remainder / j]
+                    candidate_grid = [i, j, remainder // j]
                     candidate_surface = surface(candidate_grid)
                     if (candidate_surface < best_surface):
                         best_surface = candidate_surface
@@ -454,9 +461,9 @@ def proc_setup(world, num_procs):
     return best_grid
 
 def split_world(world, proc_grid):
-    fast = lambda i : world.low[0] + i * (world.size[0] / proc_grid[0]) + min(i, (world.size[0] % proc_grid[0]))
-    mid  = lambda i : world.low[1] + i * (world.size[1] / proc_grid[1]) + min(i, (world.size[1] % proc_grid[1]))
-    slow = lambda i : world.low[2] + i * (world.size[2] / proc_grid[2]) + min(i, (world.size[2] % proc_grid[2]))
+    fast = lambda i : world.low[0] + i * (world.size[0] // proc_grid[0]) + min(i, (world.size[0] % proc_grid[0]))
+    mid  = lambda i : world.low[1] + i * (world.size[1] // proc_grid[1]) + min(i, (world.size[1] % proc_grid[1]))
+    slow = lambda i : world.low[2] + i * (world.size[2] // proc_grid[2]) + min(i, (world.size[2] % proc_grid[2]))
 
     result = []
     for k in np.arange(proc_grid[2]):
-- 
2.43.0


From 046f43b132395bf341692ca2d7749b4578c7533c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:40 +0000
Subject: [PATCH 20/22] fix: provide the documented name of the ROCm backend in
 Python

---
 python/heffte.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/heffte.py b/python/heffte.py
index 88a3eed..3f56442 100644
--- a/python/heffte.py
+++ b/python/heffte.py
@@ -113,6 +113,7 @@ class backend:
     mkl = 2
     cufft = 10
     rocm = 11
+    rocfft = 11
     valid = [0, 1, 2, 10, 11]
 
 class scale:
-- 
2.43.0


From 9a28273712194fdbfba480aed0034682daaa0880 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:10 +0000
Subject: [PATCH 21/22] fix: complex types of the backend libraries with
 library-allocated workspace

The overloads that allocate the workspace did not compile for the types that
the documentation lists next to std::complex, e.g., fftw_complex in a batch
forward or in any backward transform.
---
 include/heffte_fft3d.h     | 10 +++++-----
 include/heffte_fft3d_r2c.h | 16 ++++++++--------
 2 files changed, 13 insertions(+), 13 deletions(-)

diff --git a/include/heffte_fft3d.h b/include/heffte_fft3d.h
index c771ba7..444f30e 100644
--- a/include/heffte_fft3d.h
+++ b/include/heffte_fft3d.h
@@ -410,7 +410,7 @@ public:
 
         auto workspace = make_buffer_container<typename transform_output<typename define_standard_type<output_type>::type, backend_tag>::type>(this->stream(), batch_size * size_workspace());
 
-        forward(batch_size, input, output, workspace.data(), scaling);
+        forward(batch_size, convert_to_standard(input), convert_to_standard(output), workspace.data(), scaling);
     }
 
     /*!
@@ -470,8 +470,8 @@ public:
         static_assert(backend::check_types<backend_tag, output_type, input_type>::value,
                       "Using either an unknown complex type or an incompatible pair of types!");
 
-        auto workspace = make_buffer_container<typename transform_output<input_type, backend_tag>::type>(this->stream(), size_workspace());
-        backward(input, output, workspace.data(), scaling);
+        auto workspace = make_buffer_container<typename transform_output<typename define_standard_type<input_type>::type, backend_tag>::type>(this->stream(), size_workspace());
+        backward(convert_to_standard(input), convert_to_standard(output), workspace.data(), scaling);
     }
 
     /*!
@@ -511,8 +511,8 @@ public:
         static_assert(backend::check_types<backend_tag, output_type, input_type>::value,
                       "Using either an unknown complex type or an incompatible pair of types!");
 
-        auto workspace = make_buffer_container<typename transform_output<input_type, backend_tag>::type>(this->stream(), batch_size * size_workspace());
-        backward(batch_size, input, output, workspace.data(), scaling);
+        auto workspace = make_buffer_container<typename transform_output<typename define_standard_type<input_type>::type, backend_tag>::type>(this->stream(), batch_size * size_workspace());
+        backward(batch_size, convert_to_standard(input), convert_to_standard(output), workspace.data(), scaling);
     }
 
     /*!
diff --git a/include/heffte_fft3d_r2c.h b/include/heffte_fft3d_r2c.h
index e450e65..bf91a22 100644
--- a/include/heffte_fft3d_r2c.h
+++ b/include/heffte_fft3d_r2c.h
@@ -149,8 +149,8 @@ public:
                    or (std::is_same<input_type, double>::value and is_zcomplex<output_type>::value),
                 "Using either an unknown complex type or an incompatible pair of types!");
 
-        auto workspace = make_buffer_container<output_type>(this->stream(), size_workspace());
-        forward(input, output, workspace.data(), scaling);
+        auto workspace = make_buffer_container<typename define_standard_type<output_type>::type>(this->stream(), size_workspace());
+        forward(convert_to_standard(input), convert_to_standard(output), workspace.data(), scaling);
     }
 
     //! \brief Overload utilizing a user provided buffer.
@@ -187,8 +187,8 @@ public:
                    or (std::is_same<input_type, double>::value and is_zcomplex<output_type>::value),
                 "Using either an unknown complex type or an incompatible pair of types!");
 
-        auto workspace = make_buffer_container<output_type>(this->stream(), batch_size * size_workspace());
-        forward(batch_size, input, output, workspace.data(), scaling);
+        auto workspace = make_buffer_container<typename define_standard_type<output_type>::type>(this->stream(), batch_size * size_workspace());
+        forward(batch_size, convert_to_standard(input), convert_to_standard(output), workspace.data(), scaling);
     }
 
     /*!
@@ -237,8 +237,8 @@ public:
                    or (std::is_same<output_type, double>::value and is_zcomplex<input_type>::value),
                 "Using either an unknown complex type or an incompatible pair of types!");
 
-        auto workspace = make_buffer_container<input_type>(this->stream(), size_workspace());
-        backward(input, output, workspace.data(), scaling);
+        auto workspace = make_buffer_container<typename define_standard_type<input_type>::type>(this->stream(), size_workspace());
+        backward(convert_to_standard(input), convert_to_standard(output), workspace.data(), scaling);
     }
 
     //! \brief Overload utilizing a user provided buffer.
@@ -275,8 +275,8 @@ public:
                    or (std::is_same<output_type, double>::value and is_zcomplex<input_type>::value),
                 "Using either an unknown complex type or an incompatible pair of types!");
 
-        auto workspace = make_buffer_container<input_type>(this->stream(), batch_size * size_workspace());
-        backward(batch_size, input, output, workspace.data(), scaling);
+        auto workspace = make_buffer_container<typename define_standard_type<input_type>::type>(this->stream(), batch_size * size_workspace());
+        backward(batch_size, convert_to_standard(input), convert_to_standard(output), workspace.data(), scaling);
     }
 
     /*!
-- 
2.43.0


From 8c3aea81e23e76e4fc995d71035374d8ebb80db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:10 +0000
Subject: [PATCH 22/22] fix: use_subcomm() restricts the work to the ranks of
 the sub-communicator

The sub-communicator was ignored and all intermediate work was done on rank 0
of the plan communicator even if that rank was not part of it.
---
 include/heffte_fft3d.h      |  4 ++--
 include/heffte_fft3d_r2c.h  |  4 ++--
 include/heffte_geometry.h   |  4 +++-
 include/heffte_plan_logic.h | 14 ++++++++++++--
 src/heffte_plan_logic.cpp   | 12 ++++++++----
 5 files changed, 27 insertions(+), 11 deletions(-)

diff --git a/include/heffte_fft3d.h b/include/heffte_fft3d.h
index 444f30e..cd095f2 100644
--- a/include/heffte_fft3d.h
+++ b/include/heffte_fft3d.h
@@ -269,7 +269,7 @@ public:
      */
     fft3d(box3d<index> const inbox, box3d<index> const outbox, MPI_Comm const comm,
           plan_options const options = default_options<backend_tag>()) :
-        fft3d(plan_operations(mpi::gather_boxes(inbox, outbox, comm), -1, set_options<backend_tag>(options), mpi::comm_rank(comm)), comm){
+        fft3d(plan_operations(mpi::gather_boxes(inbox, outbox, comm), -1, set_options<backend_tag>(options), mpi::comm_rank(comm), comm), comm){
         static_assert(backend::is_enabled<backend_tag>::value, "The requested backend is invalid or has not been enabled.");
     }
     /*!
@@ -292,7 +292,7 @@ public:
     fft3d(typename backend::device_instance<location_tag>::stream_type gpu_stream,
           box3d<index> const inbox, box3d<index> const outbox, MPI_Comm const comm,
           plan_options const options = default_options<backend_tag>()) :
-        fft3d(gpu_stream, plan_operations(mpi::gather_boxes(inbox, outbox, comm), -1, set_options<backend_tag>(options), mpi::comm_rank(comm)), comm){
+        fft3d(gpu_stream, plan_operations(mpi::gather_boxes(inbox, outbox, comm), -1, set_options<backend_tag>(options), mpi::comm_rank(comm), comm), comm){
         static_assert(backend::is_enabled<backend_tag>::value, "The requested backend is invalid or has not been enabled.");
     }
 
diff --git a/include/heffte_fft3d_r2c.h b/include/heffte_fft3d_r2c.h
index bf91a22..43b0187 100644
--- a/include/heffte_fft3d_r2c.h
+++ b/include/heffte_fft3d_r2c.h
@@ -75,7 +75,7 @@ public:
      */
     fft3d_r2c(box3d<index> const inbox, box3d<index> const outbox, int r2c_direction, MPI_Comm const comm,
               plan_options const options = default_options<backend_tag>()) :
-        fft3d_r2c(plan_operations(mpi::gather_boxes(inbox, outbox, comm), r2c_direction, set_options<backend_tag, true>(options), mpi::comm_rank(comm)), comm){
+        fft3d_r2c(plan_operations(mpi::gather_boxes(inbox, outbox, comm), r2c_direction, set_options<backend_tag, true>(options), mpi::comm_rank(comm), comm), comm){
         assert(r2c_direction == 0 or r2c_direction == 1 or r2c_direction == 2);
         static_assert(backend::is_enabled<backend_tag>::value, "The requested backend is invalid or has not been enabled.");
     }
@@ -86,7 +86,7 @@ public:
               box3d<index> const inbox, box3d<index> const outbox, int r2c_direction, MPI_Comm const comm,
               plan_options const options = default_options<backend_tag>()) :
         fft3d_r2c(gpu_stream,
-                  plan_operations(mpi::gather_boxes(inbox, outbox, comm), r2c_direction, set_options<backend_tag, true>(options), mpi::comm_rank(comm)),
+                  plan_operations(mpi::gather_boxes(inbox, outbox, comm), r2c_direction, set_options<backend_tag, true>(options), mpi::comm_rank(comm), comm),
                   comm){
         assert(r2c_direction == 0 or r2c_direction == 1 or r2c_direction == 2);
         static_assert(backend::is_enabled<backend_tag>::value, "The requested backend is invalid or has not been enabled.");
diff --git a/include/heffte_geometry.h b/include/heffte_geometry.h
index 72c0a25..21b5b44 100644
--- a/include/heffte_geometry.h
+++ b/include/heffte_geometry.h
@@ -94,7 +94,7 @@ struct box3d{
     }
     //! \brief Returns the box that is reduced in the given dimension according to the real-to-complex symmetry.
     box3d r2c(int dimension) const{
-        if (empty()) return box3d({0, 0, 0}, {-1, -1, -1});
+        if (empty()) return box3d({0, 0, 0}, {-1, -1, -1}, order);
         switch(dimension){
             case 0: return box3d(low, {low[0] + size[0] / 2, high[1], high[2]}, order);
             case 1: return box3d(low, {high[0], low[1] + size[1] / 2, high[2]}, order);
@@ -197,6 +197,8 @@ struct rank_remap{
         int subcomm_rank = (subcomm == MPI_COMM_NULL) ? -1 : mpi::comm_rank(subcomm);
         map = std::vector<int>(mpi::comm_size(global));
         MPI_Allgather(&subcomm_rank, 1, MPI_INT, map.data(), 1, MPI_INT, global);
+        size_subcomm = static_cast<int>(std::count_if(map.begin(), map.end(), [](int r)->bool{ return (r != -1); }));
+        if (size_subcomm == 0) map.clear(); // no rank is part of a sub-communicator
     }
     //! \brief The number of ranks in the sub-comm.
     int size_subcomm;
diff --git a/include/heffte_plan_logic.h b/include/heffte_plan_logic.h
index 3884720..c76355e 100644
--- a/include/heffte_plan_logic.h
+++ b/include/heffte_plan_logic.h
@@ -136,11 +136,12 @@ struct plan_options{
           use_pencils(true),
           use_gpu_aware(true),
           num_sub(-1),
+          has_subcomm(false),
           subcomm(MPI_COMM_NULL)
     {}
     //! \brief Constructor, initializes each variable, primarily for internal use.
     plan_options(bool reorder, reshape_algorithm alg, bool pencils)
-        : use_reorder(reorder), algorithm(alg), use_pencils(pencils), use_gpu_aware(true), num_sub(-1), subcomm(MPI_COMM_NULL)
+        : use_reorder(reorder), algorithm(alg), use_pencils(pencils), use_gpu_aware(true), num_sub(-1), has_subcomm(false), subcomm(MPI_COMM_NULL)
     {}
     //! \brief Defines whether to transpose the data on reshape or to use strided 1-D ffts.
     bool use_reorder;
@@ -166,12 +167,18 @@ struct plan_options{
      */
     void use_subcomm(MPI_Comm comm){
         num_sub = 1;
+        has_subcomm = true;
         subcomm = comm;
     }
     //! \brief Return the set number of sub-ranks.
     int get_subranks() const{ return num_sub; }
+    //! \brief Return true if use_subcomm() has been called (even if the local rank used MPI_COMM_NULL).
+    bool uses_subcomm() const{ return has_subcomm; }
+    //! \brief Return the sub-communicator, MPI_COMM_NULL on the ranks that are not part of it.
+    MPI_Comm get_subcomm() const{ return subcomm; }
 private:
     int num_sub;
+    bool has_subcomm;
     MPI_Comm subcomm;
 };
 
@@ -312,11 +319,14 @@ inline std::array<bool, 3> pencil_directions(box3d<index> const world, std::vect
  * \param r2c_direction is the direction is the direction of shrinking of the data for an r2c transform
  *              the c2c case should use -1
  * \param options is a set of heffte::plan_options to use
+ * \param mpi_rank is the rank of the current process
+ * \param comm is the communicator associated with the boxes, needed only when the options use a sub-communicator
  *
  * \returns the plan for reshape and 1-D fft transformations
  */
 template<typename index>
-logic_plan3d<index> plan_operations(ioboxes<index> const &boxes, int r2c_direction, plan_options const options, int const mpi_rank);
+logic_plan3d<index> plan_operations(ioboxes<index> const &boxes, int r2c_direction, plan_options const options, int const mpi_rank,
+                                    MPI_Comm const comm = MPI_COMM_NULL);
 
 /*!
  * \ingroup fft3dplan
diff --git a/src/heffte_plan_logic.cpp b/src/heffte_plan_logic.cpp
index 84c061c..11c1639 100644
--- a/src/heffte_plan_logic.cpp
+++ b/src/heffte_plan_logic.cpp
@@ -422,10 +422,14 @@ logic_plan3d<index> plan_slab_reshapes(box3d<index> world_in, box3d<index> world
 }
 
 template<typename index>
-logic_plan3d<index> plan_operations(ioboxes<index> const &boxes, int r2c_direction, plan_options const opts, int const mpi_rank){
+logic_plan3d<index> plan_operations(ioboxes<index> const &boxes, int r2c_direction, plan_options const opts, int const mpi_rank,
+                                    MPI_Comm const comm){
 
     rank_remap remap(mpi_rank);
-    if (opts.get_subranks() > 0 and static_cast<size_t>(opts.get_subranks()) < boxes.in.size()){ // using sub-ranks
+    if (opts.uses_subcomm() and comm != MPI_COMM_NULL){ // using the ranks of a sub-communicator
+        remap.set_subranks(comm, opts.get_subcomm());
+    }
+    if (remap.empty() and opts.get_subranks() > 0 and static_cast<size_t>(opts.get_subranks()) < boxes.in.size()){ // using sub-ranks
         assert(opts.get_subranks() < static_cast<int>(boxes.in.size()));
         remap.set_subranks(boxes.in.size(), opts.get_subranks());
     }
@@ -453,9 +457,9 @@ logic_plan3d<index> plan_operations(ioboxes<index> const &boxes, int r2c_directi
 }
 
 //! \brief Instantiate for int.
-template logic_plan3d<int> plan_operations<int>(ioboxes<int> const&, int, plan_options const, int const);
+template logic_plan3d<int> plan_operations<int>(ioboxes<int> const&, int, plan_options const, int const, MPI_Comm const);
 //! \brief Instantiate for long long.
-template logic_plan3d<long long> plan_operations<long long>(ioboxes<long long> const&, int, plan_options const, int const);
+template logic_plan3d<long long> plan_operations<long long>(ioboxes<long long> const&, int, plan_options const, int const, MPI_Comm const);
 
 template<typename index>
 std::vector<std::array<int, 3>> compute_grids(logic_plan3d<index> const &plan){
-- 
2.43.0

