From aa329549b748c5ab5f34aea80edd96d46db16cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:07 +0000
Subject: [PATCH 01/16] fix: line search must not step to the infinite minimum
 of a degenerate parabola

---
 src/linesearch/linesearch.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/linesearch/linesearch.hpp b/src/linesearch/linesearch.hpp
index 3edc424..7f9261a 100644
--- a/src/linesearch/linesearch.hpp
+++ b/src/linesearch/linesearch.hpp
@@ -130,6 +130,12 @@ line_search::qline(GEODESIC& G, FREE_ENERGY& FE, double slope, bool& force_resta
     }
   }
 
+  // no minimum can be predicted from a degenerate parabola (F linear in t to rounding) or from an
+  // invalid energy, t_min would not be finite
+  if (!(a > 0)) {
+    throw StepError();
+  }
+
   double F_pred = -b * b / (4 * a) + c;
 
   // evaluate FE at predicted minimum
-- 
2.43.0


From 328557bc6b65a18ec8300c1fc4758f9b7e82d3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:07 +0000
Subject: [PATCH 02/16] fix: restore the accepted point in the host before
 giving up the line search

---
 src/linesearch/linesearch.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/linesearch/linesearch.hpp b/src/linesearch/linesearch.hpp
index 7f9261a..2d4c9da 100644
--- a/src/linesearch/linesearch.hpp
+++ b/src/linesearch/linesearch.hpp
@@ -78,6 +78,7 @@ line_search::bt_search(GEODESIC& G, FREE_ENERGY& FE, double F0, bool& force_rest
   // TODO: let logger print state
   Logger::GetInstance().flush();
   if (force_restart)  {
+    G(0);  // leave the host at the last accepted point, not at the last rejected trial
     throw DescentError();
   } else {
     force_restart = true;
-- 
2.43.0


From 67c115f19aaa10e6910d4aed52862b45d376f419 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:07 +0000
Subject: [PATCH 03/16] fix: returned info describes the final point (residual
 without placeholder, budget exit)

---
 src/nlcglib.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/nlcglib.cpp b/src/nlcglib.cpp
index fb1e9cf..6a50e54 100644
--- a/src/nlcglib.cpp
+++ b/src/nlcglib.cpp
@@ -88,7 +88,7 @@ print_info(double free_energy,
   nlcg_info info;
   info.F = free_energy;
   info.S = entropy;
-  info.tolerance = slope_x + slope_eta;
+  info.tolerance = slope_x;  // slope_eta is not separated from slope_x yet
   info.iter = step;
 
   return info;
@@ -438,6 +438,13 @@ nlcg_us(EnergyBase& energy_base,
       return info;
     }
   }
+
+  // iteration budget used up: describe the point at which the host was left
+  info.F = free_energy.get_F();
+  info.S = free_energy.get_entropy();
+  info.tolerance = slope;
+  info.iter = std::max(maxiter, 0);
+
   return info;
 }
 
-- 
2.43.0


From 5967269e8428a57cc527b507c543fcdba7c46267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:07 +0000
Subject: [PATCH 04/16] fix: Gaussian-spline entropy lacked the factor of the
 maximum occupancy

---
 src/smearing.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smearing.hpp b/src/smearing.hpp
index 40ed9f3..2d264c2 100644
--- a/src/smearing.hpp
+++ b/src/smearing.hpp
@@ -193,10 +193,10 @@ struct gaussian_spline : summed<gaussian_spline>
     double sqrte = std::exp(0.5);
 
     if (x > 0) {
-      return 0.25 *
+      return mo * 0.25 *
              (2 * std::exp(-x * (sqrt2 + x)) * x + sqrte * sqrtpi * std::erfc(1 / sqrt2 + x));
     } else {
-      return 0.25 *
+      return mo * 0.25 *
              (-2 * std::exp(x * (sqrt2 - x)) * x + sqrte * sqrtpi * std::erfc(1 / sqrt2 - x));
     }
   }
-- 
2.43.0


From efc22a7d57cc4c61ccf8724151c7d2c9c533fb5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:07 +0000
Subject: [PATCH 05/16] fix: gradient of the free energy for cold smearing used
 the mirrored delta function

---
 src/pseudo_hamiltonian/grad_eta.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pseudo_hamiltonian/grad_eta.hpp b/src/pseudo_hamiltonian/grad_eta.hpp
index 3e07e62..99bde17 100644
--- a/src/pseudo_hamiltonian/grad_eta.hpp
+++ b/src/pseudo_hamiltonian/grad_eta.hpp
@@ -39,7 +39,7 @@ struct GradEtaHelper
           "dFdmu",
           Kokkos::RangePolicy<Kokkos::Serial>(0, nbands),
           KOKKOS_LAMBDA(int i, Kokkos::complex<double>& result) {
-            double delta = smearing<smearing_t>::delta((en_loc(i) - mu) / kT, mo);
+            double delta = smearing<smearing_t>::delta((mu - en_loc(i)) / kT, mo);
             result += (hii(i) - en_loc(i)) * (delta);
           },
           v);
@@ -72,7 +72,7 @@ struct GradEtaHelper
       int nbands = en[key].size();
       auto en_loc = en[key];
       for (int i = 0; i < nbands; ++i) {
-        double delta = smearing<smearing_t>::delta((en_loc(i) - mu) / kT, mo);
+        double delta = smearing<smearing_t>::delta((mu - en_loc(i)) / kT, mo);
         v += delta * w_k;
       }
     }
@@ -151,7 +151,7 @@ public:
     double kT_loc = kT;
     Kokkos::parallel_for(
         "gEta (1)", Kokkos::RangePolicy<exec_space>(0, nbands), KOKKOS_LAMBDA(int i) {
-          double delta = smearing<smearing_t>::delta((ek(i) - mu) / kT_loc, mo);
+          double delta = smearing<smearing_t>::delta((mu - ek(i)) / kT_loc, mo);
           mgETA(i, i) = -1 / kT_loc * (mHij(i, i) - wk * ek(i)) * (delta);
         });
 
@@ -161,7 +161,7 @@ public:
       Kokkos::parallel_for(
           "gEta (2)", Kokkos::RangePolicy<exec_space>(0, nbands), KOKKOS_LAMBDA(int i) {
             // sumfn dmuFn
-            double delta = smearing<smearing_t>::delta((ek(i) - mu) / kT_loc, mo);
+            double delta = smearing<smearing_t>::delta((mu - ek(i)) / kT_loc, mo);
             mgETA(i, i) += wk * (delta) / dmu_deta * (dFdmu / kT_loc);
           });
     }
-- 
2.43.0


From 33aae220c1283bf983591982daf8a76a09f6f0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:26:07 +0000
Subject: [PATCH 06/16] fix: second derivative of Methfessel-Paxton and
 Gaussian-spline occupations lacked a factor x

---
 src/smearing.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/smearing.hpp b/src/smearing.hpp
index 2d264c2..bb27099 100644
--- a/src/smearing.hpp
+++ b/src/smearing.hpp
@@ -208,7 +208,7 @@ struct gaussian_spline : summed<gaussian_spline>
     if (x > 8 || x < -8) return 0;
 
     if (x <= 0) {
-      return -2 * mo * std::exp((sqrt2 - x) * x) * (sqrt2 - x);
+      return -2 * mo * std::exp((sqrt2 - x) * x) * x * (sqrt2 - x);
     } else {
       return -2 * mo * std::exp(-x * (sqrt2 + x)) * x * (sqrt2 + x);
     }
@@ -280,7 +280,7 @@ struct methfessel_paxton_smearing : summed<methfessel_paxton_smearing>, non_mono
   KOKKOS_INLINE_FUNCTION static double dxdelta(double x, double mo)
   {
     double sqrtpi = std::sqrt(constants::pi);
-    return mo * std::exp(-x * x) * (2 * x * x - 5) / sqrtpi;
+    return mo * std::exp(-x * x) * x * (2 * x * x - 5) / sqrtpi;
   }
 
   KOKKOS_INLINE_FUNCTION static double entropy(double x, double mo)
-- 
2.43.0


From f50941301a8aad41bb3a54024e55397e918b6749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:42:45 +0000
Subject: [PATCH 07/16] fix: do not accept a predicted minimum whose free
 energy is not a number

---
 src/linesearch/linesearch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/linesearch/linesearch.hpp b/src/linesearch/linesearch.hpp
index 2d4c9da..30667f4 100644
--- a/src/linesearch/linesearch.hpp
+++ b/src/linesearch/linesearch.hpp
@@ -146,7 +146,7 @@ line_search::qline(GEODESIC& G, FREE_ENERGY& FE, double slope, bool& force_resta
                         << " q line prediction error: " << std::scientific << std::setprecision(8) << (F_pred - F_min)
                         << " dE: " << std::scientific << std::setprecision(8) << (F0 - F_min) << "\n";
 
-  if (F_min > F0) {
+  if (!(F_min <= F0)) {  // also rejects an invalid (NaN) energy
     Logger::GetInstance() << std::setprecision(13)
                           << "\t quadratic line search failed:\n"
                           << "\t - F_min: " << F_min << "\n"
-- 
2.43.0


From a1aad497f186438245327729d1963c6ce9cec44a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:21:42 +0000
Subject: [PATCH 08/16] fix: reject a negative or invalid temperature like a
 zero one

---
 src/smearing.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/smearing.hpp b/src/smearing.hpp
index bb27099..645b516 100644
--- a/src/smearing.hpp
+++ b/src/smearing.hpp
@@ -558,7 +558,7 @@ public:
       , wk(wk)
       , smearing_t(smearing_t)
   {
-    if (T == 0) {
+    if (!(T > 0)) {
       throw std::runtime_error("Temperature must be > 0.");
     }
     kT = T * physical_constants::kb;
-- 
2.43.0


From 0656756cf0c094a7c1a122aa40322f9996f71a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:42:11 +0000
Subject: [PATCH 09/16] fix: gradient of the pseudo-Hamiltonian for degenerate
 bands

The off-diagonal contribution of bands with equal pseudo-eigenvalues was
dropped although the difference quotient has the finite limit f'(e).  The
slope was then not the derivative of the free energy whenever the
Hamiltonian couples degenerate bands.
---
 src/pseudo_hamiltonian/grad_eta.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pseudo_hamiltonian/grad_eta.hpp b/src/pseudo_hamiltonian/grad_eta.hpp
index 99bde17..13c19b8 100644
--- a/src/pseudo_hamiltonian/grad_eta.hpp
+++ b/src/pseudo_hamiltonian/grad_eta.hpp
@@ -176,7 +176,9 @@ public:
             double ej = ek(j);
             double ei = ek(i);
             if (std::abs(ej - ei) < 1e-10) {
-              // zero contribution
+              // degenerate bands: limit of the difference quotient, i.e. the derivative of fn
+              double delta = smearing<smearing_t>::delta((mu - ei) / kT_loc, mo);
+              mgETA(i, j) += -1 / kT_loc * delta * mHij(i, j);
             } else {
               double II = (fn(j) - fn(i)) / (ej - ei);
               mgETA(i, j) += II * mHij(i, j);
-- 
2.43.0


From 118c255a01816caaa020d17b3afd78766dc0c43b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:00:55 +0000
Subject: [PATCH 10/16] fix: MPI datatype of a pair ignored the padding before
 its second member

Gathering std::pair<int, double> (Communicator::allgather) transferred the
wrong bytes of the second member.
---
 src/mpi/mpi_type.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/mpi/mpi_type.hpp b/src/mpi/mpi_type.hpp
index 8fdf03d..0949e6a 100644
--- a/src/mpi/mpi_type.hpp
+++ b/src/mpi/mpi_type.hpp
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <mpi.h>
+#include <cstddef>
 #include <utility>
 #include <complex>
 #include <Kokkos_Core.hpp>
@@ -84,9 +85,11 @@ struct mpi_type<std::pair<T1, T2>>
 {
   static MPI_Datatype type()
   {
+    using pair_t = std::pair<T1, T2>;
     MPI_Datatype result;
     int array_of_block_lengths[2] = {1, 1};
-    MPI_Aint array_of_displacements[2] = {0, sizeof(T1)};
+    // the second member may be preceded by padding
+    MPI_Aint array_of_displacements[2] = {0, offsetof(pair_t, second)};
     MPI_Datatype types[2] = {mpi_type<T1>::type(), mpi_type<T2>::type()};
     CALL_MPI(
         MPI_Type_create_struct, (2,
-- 
2.43.0


From 16bfcb8abda1b0a838f3360638a6a03b9eefead7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:06 +0000
Subject: [PATCH 11/16] fix: outer product of non-square matrices on the CPU

The dimensions passed to gemm were those of the inner product: for operands
that are not square the result was wrong and memory outside of it was written.
---
 src/la/lapack_cpu.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/la/lapack_cpu.hpp b/src/la/lapack_cpu.hpp
index cb0e2e6..0609c6d 100644
--- a/src/la/lapack_cpu.hpp
+++ b/src/la/lapack_cpu.hpp
@@ -155,7 +155,7 @@ inner(KokkosDVector<T0**, LAYOUT0, KOKKOS0...>& C,
   }
 }
 
-///  Inner product: c = a^H * b, on CPU
+///  Outer product: c = a * b^H, on CPU
 template <class T0,
           class LAYOUT0,
           class... KOKKOS0,
@@ -190,9 +190,9 @@ outer(KokkosDVector<T0**, LAYOUT0, KOKKOS0...>& C,
 
   // single rank
   if (A.map().is_local() && B.map().is_local() && C.map().is_local()) {
-    int m = A.map().ncols();
-    int k = A.map().nrows();
-    int n = B.map().ncols();
+    int m = A.map().nrows();
+    int k = A.map().ncols();
+    int n = B.map().nrows();
     numeric_t* A_ptr = A.array().data();
     numeric_t* B_ptr = B.array().data();
     numeric_t* C_ptr = C.array().data();
-- 
2.43.0


From 85c30bd2eee6d9dfc8bb598b955544fc908da7ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:04:51 +0000
Subject: [PATCH 12/16] fix: transform_alloc allocates the result with the
 shape of the product

It took the shape of the first operand; a second operand that is not square
gave a result of the wrong shape or wrote beyond it.
---
 src/la/lapack.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/la/lapack.hpp b/src/la/lapack.hpp
index bf411c3..e1f0e53 100644
--- a/src/la/lapack.hpp
+++ b/src/la/lapack.hpp
@@ -434,7 +434,10 @@ transform_alloc(
     const identity_t<typename M1::numeric_t>& alpha = identity_t<typename M1::numeric_t>{1.0},
     const identity_t<typename M1::numeric_t>& beta = identity_t<typename M1::numeric_t>{0.})
 {
-  to_layout_left_t<M1> C(A.map());
+  int n = A.map().nrows();
+  int m = B.map().ncols();
+  Map<SlabLayoutV> map(A.map().comm(), SlabLayoutV({{0, 0, n, m}}));
+  to_layout_left_t<M1> C(map);
   transform(C, beta, alpha, A, B);
   return C;
 }
-- 
2.43.0


From 47a597ee59cd54391c84f272444a2d55126795cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:21 +0000
Subject: [PATCH 13/16] fix: close the attached log file before opening the
 next one

When the same file is attached again, the text still buffered in the old stream
was written into the new file after it had been truncated, at the old offset.
---
 src/utils/logger.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/utils/logger.hpp b/src/utils/logger.hpp
index 4f581d7..37d54cf 100644
--- a/src/utils/logger.hpp
+++ b/src/utils/logger.hpp
@@ -27,6 +27,8 @@ public:
   void attach_file(const std::string& prefix = "out", const std::string& suffix = ".log")
   {
     MPI_Comm_rank(MPI_COMM_WORLD, &pid_);
+    // close the previous file first, it could be the same
+    stream_ptr_.reset();
     stream_ptr_ = std::make_shared<std::ofstream>(prefix + std::to_string(pid_) + suffix);
   }
 
@@ -34,8 +36,11 @@ public:
   void attach_file_master(const std::string& fname = "nlcg.out")
   {
     MPI_Comm_rank(MPI_COMM_WORLD, &pid_);
-    if (pid_ == 0)
+    if (pid_ == 0) {
+      // close the previous file first, it could be the same
+      stream_ptr_.reset();
       stream_ptr_ = std::make_shared<std::ofstream>(fname);
+    }
   }
 
   template <typename T>
-- 
2.43.0


From b66293303bb649944fe45ab4acaa319758f81aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:04:19 +0000
Subject: [PATCH 14/16] fix: create the MPI datatype of a pair once instead of
 leaking one per use

---
 src/mpi/mpi_type.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/mpi/mpi_type.hpp b/src/mpi/mpi_type.hpp
index 0949e6a..e6e7329 100644
--- a/src/mpi/mpi_type.hpp
+++ b/src/mpi/mpi_type.hpp
@@ -84,6 +84,14 @@ template <class T1, class T2>
 struct mpi_type<std::pair<T1, T2>>
 {
   static MPI_Datatype type()
+  {
+    // created once, a type committed on every call would never be released
+    static const MPI_Datatype pair_type = create();
+    return pair_type;
+  }
+
+private:
+  static MPI_Datatype create()
   {
     using pair_t = std::pair<T1, T2>;
     MPI_Datatype result;
-- 
2.43.0


From b73927633f776d38b7f79134be6e594bde977e65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:46:17 +0000
Subject: [PATCH 15/16] fix: component names that are not valid UTF-8 ended the
 process from the destructor of the step log

---
 src/utils/step_logger.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utils/step_logger.hpp b/src/utils/step_logger.hpp
index daf99d0..b5814be 100644
--- a/src/utils/step_logger.hpp
+++ b/src/utils/step_logger.hpp
@@ -46,7 +46,8 @@ public:
   {
     if(active) {
       std::ofstream fout(std::string("nlcg") + ".json", std::ios_base::app);
-      fout << dict;
+      // names given by the host can be anything: never throw from here
+      fout << dict.dump(-1, ' ', false, nlohmann::json::error_handler_t::replace);
       fout.flush();
     }
   }
-- 
2.43.0


From 0eb7b5109a63da83e26fd316ff31ce77810142cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:48 +0000
Subject: [PATCH 16/16] fix: strides of the host's vectors were ignored

---
 src/la/mvector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/la/mvector.hpp b/src/la/mvector.hpp
index c34610a..777a05b 100644
--- a/src/la/mvector.hpp
+++ b/src/la/mvector.hpp
@@ -398,8 +398,8 @@ auto make_mmvector(std::shared_ptr<VectorBaseZ> vector_base)
       throw std::runtime_error("recompile nlcglib with CUDA support");
 #endif
     } else if (buffer.memtype == memory_type::host) {
-      Kokkos::View<double*, Kokkos::HostSpace, Kokkos::MemoryUnmanaged> src(buffer.data,
-                                                                            buffer.size[0]);
+      Kokkos::View<double*, Kokkos::LayoutStride, Kokkos::HostSpace, Kokkos::MemoryUnmanaged> src(
+          buffer.data, Kokkos::LayoutStride(buffer.size[0], buffer.stride[0]));
       vector_t dst("vector", buffer.size[0]);
       Kokkos::deep_copy(dst, src);
       auto kindex = vector_base->kpoint_index(i);
-- 
2.43.0

