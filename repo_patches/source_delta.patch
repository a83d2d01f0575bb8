From afec2b299d8fe0b9115f95fda45c75466246048a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:17 +0000
Subject: [PATCH 01/41] fix: stop a recurring thread before destroying the
 members that it uses

---
 base/recurring_thread.hpp      |  6 ++++++
 base/recurring_thread_body.hpp | 10 ++++++++++
 2 files changed, 16 insertions(+)

diff --git a/base/recurring_thread.hpp b/base/recurring_thread.hpp
index 2ccc6c4..ef61180 100644
--- a/base/recurring_thread.hpp
+++ b/base/recurring_thread.hpp
@@ -65,6 +65,9 @@ class RecurringThread : public BaseRecurringThread {
   RecurringThread(Action action,
                   std::chrono::milliseconds period);
 
+  // Stops the thread before the members that it uses are destroyed.
+  ~RecurringThread() override;
+
   // Overwrites the contents of the input channel.  The `input` data will be
   // either picked by the next execution of `action`, or overwritten by the next
   // call to `Put`.
@@ -95,6 +98,9 @@ class RecurringThread<Input, void> : public BaseRecurringThread {
   RecurringThread(Action action,
                   std::chrono::milliseconds period);
 
+  // Stops the thread before the members that it uses are destroyed.
+  ~RecurringThread() override;
+
   // Overwrites the contents of the input channel.  The `input` data will be
   // either picked by the next execution of `action`, or overwritten by the next
   // call to `Put`.
diff --git a/base/recurring_thread_body.hpp b/base/recurring_thread_body.hpp
index e05b98b..fbd4bac 100644
--- a/base/recurring_thread_body.hpp
+++ b/base/recurring_thread_body.hpp
@@ -58,6 +58,11 @@ RecurringThread<Input, Output>::RecurringThread(
     : BaseRecurringThread(period),
       action_(std::move(action)) {}
 
+template<typename Input, typename Output>
+RecurringThread<Input, Output>::~RecurringThread() {
+  Stop();
+}
+
 template<typename Input, typename Output>
 void RecurringThread<Input, Output>::Put(Input input) {
   absl::MutexLock l(&input_output_lock_);
@@ -105,6 +110,11 @@ RecurringThread<Input, void>::RecurringThread(
     : BaseRecurringThread(period),
       action_(std::move(action)) {}
 
+template<typename Input>
+RecurringThread<Input, void>::~RecurringThread() {
+  Stop();
+}
+
 template<typename Input>
 void RecurringThread<Input, void>::Put(Input input) {
   absl::MutexLock l(&input_lock_);
-- 
2.43.0


From 5ac8150358002fcd32ce7cd23511118a13e239f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:05:22 +0000
Subject: [PATCH 02/41] fix: make the workers of a bundle notify the end of
 their execution only once

---
 base/bundle.cpp | 18 ++++++++----------
 base/bundle.hpp |  6 +++---
 2 files changed, 11 insertions(+), 13 deletions(-)

diff --git a/base/bundle.cpp b/base/bundle.cpp
index 5bbef39..5c5a869 100644
--- a/base/bundle.cpp
+++ b/base/bundle.cpp
@@ -24,7 +24,7 @@ void Bundle::Add(Task task) {
 
 absl::Status Bundle::Join() {
   joining_ = true;
-  if (number_of_active_workers_ > 0) {
+  if (--number_of_active_workers_ > 0) {
     all_done_.WaitForNotification();
   }
   JoinAll();
@@ -34,7 +34,7 @@ absl::Status Bundle::Join() {
 
 absl::Status Bundle::JoinWithin(std::chrono::steady_clock::duration Δt) {
   joining_ = true;
-  if (number_of_active_workers_ > 0 &&
+  if (--number_of_active_workers_ > 0 &&
       !all_done_.WaitForNotificationWithTimeout(absl::FromChrono(Δt))) {
     absl::MutexLock l(&status_lock_);
     status_ = absl::DeadlineExceededError("Bundle deadline exceeded");
@@ -46,7 +46,7 @@ absl::Status Bundle::JoinWithin(std::chrono::steady_clock::duration Δt) {
 
 absl::Status Bundle::JoinBefore(std::chrono::system_clock::time_point t) {
   joining_ = true;
-  if (number_of_active_workers_ > 0 &&
+  if (--number_of_active_workers_ > 0 &&
       !all_done_.WaitForNotificationWithDeadline(absl::FromChrono(t))) {
     absl::MutexLock l(&status_lock_);
     status_ = absl::DeadlineExceededError("bundle deadline exceeded");
@@ -65,13 +65,11 @@ void Bundle::Toil(Task const& task) {
     status_.Update(status);
   }
 
-  // No locking, so as to avoid contention during joining.  Note that if
-  // `joining_` is true we know that `number_of_active_workers_` cannot
-  // increase.  Reading `number_of_active_workers_` independently from the
-  // decrement would be incorrect as we must ensure that exactly one thread sees
-  // that counter dropping to zero.
-  int const number_of_active_workers = --number_of_active_workers_;
-  if (joining_ && number_of_active_workers == 0) {
+  // No locking, so as to avoid contention during joining.  Since `Join*` counts
+  // as a worker, the counter cannot drop to zero before it is called, and as
+  // `number_of_active_workers_` cannot increase thereafter, exactly one
+  // decrement makes it drop to zero.
+  if (--number_of_active_workers_ == 0) {
     all_done_.Notify();
   }
 }
diff --git a/base/bundle.hpp b/base/bundle.hpp
index bef2bff..d523c4e 100644
--- a/base/bundle.hpp
+++ b/base/bundle.hpp
@@ -56,9 +56,9 @@ class Bundle final {
   std::atomic_bool joining_ = false;
   absl::Notification all_done_;
 
-  // The number of workers currently executing.  Can only be incremented when
-  // `joining_` is false.
-  std::atomic_int number_of_active_workers_ = 0;
+  // The number of workers currently executing, plus one until `Join*` has been
+  // called.  Can only be incremented when `joining_` is false.
+  std::atomic_int number_of_active_workers_ = 1;
   std::list<std::thread> workers_ ABSL_GUARDED_BY(lock_);
 
   static_assert(std::atomic_bool::is_always_lock_free, "bool not lock-free");
-- 
2.43.0


From b1c61796450a6454dc287feb3333d139c5d0bd6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:17:31 +0000
Subject: [PATCH 03/41] fix: do not index a table with a negative char when
 decoding hexadecimal

---
 base/hexadecimal_body.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/base/hexadecimal_body.hpp b/base/hexadecimal_body.hpp
index 47bd0cc..310e896 100644
--- a/base/hexadecimal_body.hpp
+++ b/base/hexadecimal_body.hpp
@@ -107,8 +107,11 @@ void HexadecimalEncoder<null_terminated>::Decode(Array<char const> input,
   for (char const* const input_end = input.data + input.size;
        input.data != input_end;
        input.data += 2, ++output.data) {
-    *output.data = (hexadecimal_digits_to_nibble[*input.data] << 4) |
-                   hexadecimal_digits_to_nibble[*(input.data + 1)];
+    // A `char` may be negative.
+    auto const high_digit = static_cast<std::uint8_t>(input.data[0]);
+    auto const low_digit = static_cast<std::uint8_t>(input.data[1]);
+    *output.data = (hexadecimal_digits_to_nibble[high_digit] << 4) |
+                   hexadecimal_digits_to_nibble[low_digit];
   }
 }
 
-- 
2.43.0


From cce654bc4e4dfb6a8bf9dd0323b6300bdfeba537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 04/41] fix: correct the last bit of the cube root of negative
 numbers too

---
 numerics/cbrt.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/numerics/cbrt.cpp b/numerics/cbrt.cpp
index d648e9b..fb4ff04 100644
--- a/numerics/cbrt.cpp
+++ b/numerics/cbrt.cpp
@@ -115,7 +115,7 @@ bool CorrectionPossiblyNeeded(double const r₀,
   // very close to a tie (for r̃ ≠ r₀) or to a representable number (for r̃ = r₀).
   // On the other hand, it is hard to predict whether r̃ = r₀, i.e., whether r is
   // closer to a representable number than to a tie.
-  return std::abs(0.5 * (r̃ - r₀) - r₁) <= τ * r₀ && r̃ != r₀;
+  return std::abs(0.5 * (r̃ - r₀) - r₁) <= τ * std::abs(r₀) && r̃ != r₀;
 }
 
 template<FMAPresence fma_presence>
-- 
2.43.0


From 1cf93d0545151a99dab37c8fa51251d87c653157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:42 +0000
Subject: [PATCH 05/41] fix: avoid an underflow in the cube root without FMA
 for some binades

---
 numerics/cbrt.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/numerics/cbrt.cpp b/numerics/cbrt.cpp
index fb4ff04..a476956 100644
--- a/numerics/cbrt.cpp
+++ b/numerics/cbrt.cpp
@@ -180,14 +180,16 @@ namespace method_3²ᴄZ5¹ {
 // y ∈ [y₁, y₂].  The limiting expression is the denominator of step 4, wherein
 // the 8th power of x, which is approximately the 8th power of ∛y, appears. The
 // the 9th power of ∛y, i.e., cube of y, does not overflow for y ∈ [y₁, y₂].
+// The numerator of step 4 is about 2⁻¹⁷ times the cube of y, and y₁ is such
+// that its last bits do not underflow.
 // NOTE(egg): the σs do not rescale enough to put the least normal or greatest
 // finite magnitudes inside the non-rescaling range; for very small and very
 // large values, rescaling occurs twice.
-constexpr double y₁ = 0x1p-340;
-constexpr double σ₁ = 0x1p-227;
+constexpr double y₁ = 0x1p-318;
+constexpr double σ₁ = 0x1p-213;
 constexpr double σ₁⁻³ = 1 / (σ₁ * σ₁ * σ₁);
-constexpr double y₂ = 0x1p341;
-constexpr double σ₂ = 0x1p227;
+constexpr double y₂ = 0x1p321;
+constexpr double σ₂ = 0x1p213;
 constexpr double σ₂⁻³ = 1 / (σ₂ * σ₂ * σ₂);
 static_assert(σ₁⁻³ * y₁ == y₂);
 static_assert(σ₂⁻³ * y₂ == y₁);
-- 
2.43.0


From 8f2119e4af36995aac5c8051cd0d5e4d57b60215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:24 +0000
Subject: [PATCH 06/41] fix: do not convert a NaN to an integer when reducing
 an infinite angle

---
 numerics/angle_reduction_body.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/numerics/angle_reduction_body.hpp b/numerics/angle_reduction_body.hpp
index b066d29..1765291 100644
--- a/numerics/angle_reduction_body.hpp
+++ b/numerics/angle_reduction_body.hpp
@@ -33,8 +33,10 @@ template<std::int64_t precision, typename Angle>
 void PayneHanekReduction(Angle const& x,
                          DoublePrecision<Angle>& x_reduced,
                          std::int64_t& quadrant) {
-  if (x != x) {
-    x_reduced = DoublePrecision<Angle>(x);
+  // This is NaN if, and only if, `x` is infinite or NaN.
+  Angle const nan = x - x;
+  if (nan != nan) {
+    x_reduced = DoublePrecision<Angle>(nan);
     quadrant = 0;
     return;
   }
-- 
2.43.0


From d5ad268be971fa42b1c9566e90ae8724c3262477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:13 +0000
Subject: [PATCH 07/41] fix: do not read past the end of the Payne-Hanek table
 for large angles

---
 numerics/angle_reduction_body.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/numerics/angle_reduction_body.hpp b/numerics/angle_reduction_body.hpp
index 1765291..a627472 100644
--- a/numerics/angle_reduction_body.hpp
+++ b/numerics/angle_reduction_body.hpp
@@ -76,6 +76,14 @@ void PayneHanekReduction(Angle const& x,
   // medium_last].
   std::int64_t const medium_first = bit_to_index(n - e + 1);
   std::int64_t const medium_last = bit_to_index(-n - e - 1 - p);
+  if (medium_last >= static_cast<std::int64_t>(PayneHanekChunks.size())) {
+    // `x` is so large that the chunks, which are limited by the range of
+    // `double`, do not have enough bits to reduce it with this `precision`.
+    x_reduced = DoublePrecision<Angle>(
+        std::numeric_limits<double>::quiet_NaN() * si::Unit<Angle>);
+    quadrant = 0;
+    return;
+  }
   // This is not in [Mul97].  The bit numbered 2 - e can only contribute a value
   // sligtly smaller than 8 to `h`.  However, if this bit is 1 and some bits
   // with lower number of the same chunk are 1, then the contribution to `h` can
-- 
2.43.0


From c2b4d5beaa203430f32942971c296fb279a36ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:48 +0000
Subject: [PATCH 08/41] fix: use the slow path when the Payne-Hanek reduction
 is not accurate enough

---
 numerics/sin_cos.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/numerics/sin_cos.cpp b/numerics/sin_cos.cpp
index 6702111..babc1b1 100644
--- a/numerics/sin_cos.cpp
+++ b/numerics/sin_cos.cpp
@@ -2,6 +2,7 @@
 
 #include <immintrin.h>
 
+#include <cmath>
 #include <cstdint>
 #include <limits>
 #include <utility>
@@ -97,6 +98,10 @@ constexpr double sin_near_zero_cutoff =
 
 constexpr std::int64_t κ₃ = 18;
 
+// Below this value, the result of the Payne-Hanek reduction is deemed too
+// inaccurate to determine the rounding.
+constexpr double payne_hanek_threshold = 0x1p-20;
+
 constexpr double e_sin_near_zero = 0x1.0000'D28F'8E40'4p0;  // 2^-70.281.
 constexpr double e_sin = 0x1.0001'94C0'D077'2p0;  // 2^-69.339.
 constexpr double e_cos = 0x1.0001'58B5'12B3'2p0;  // 2^-69.570.
@@ -301,7 +306,12 @@ FORCE_INLINE void PayneHanekReduction(Argument const x,
   _angle_reduction::PayneHanekReduction<61>(
       x_double, x_reduced_double, quadrant);
   x_reduced.value = M128D(x_reduced_double.value);
-  x_reduced.error = M128D(x_reduced_double.error);
+  // The absolute error of `x_reduced` is roughly 2⁻¹⁰⁰.  For a value close to 0
+  // the relative error is too large for the bounds used in the rounding test,
+  // so we must force the slow path.
+  x_reduced.error = std::abs(x_reduced_double.value) < payne_hanek_threshold
+                        ? m128d::quiet_NaN
+                        : M128D(x_reduced_double.error);
 }
 
 // This is the reduction technique described in [BDL09].  We are following
-- 
2.43.0


From 777c6331e417859415cc84e1f267b1e3ab9222b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:43 +0000
Subject: [PATCH 09/41] fix: ignore the error when truncating a DoublePrecision
 whose value is not integral

---
 numerics/double_precision_body.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/numerics/double_precision_body.hpp b/numerics/double_precision_body.hpp
index 8337ca6..ffd52d5 100644
--- a/numerics/double_precision_body.hpp
+++ b/numerics/double_precision_body.hpp
@@ -285,7 +285,12 @@ DoublePrecision<T> Trunc(DoublePrecision<T> const& a) {
   // so we cannot use `trunc`.
   DoublePrecision<T> result(uninitialized);
   result.value = a.value > 0.0 ? std::floor(a.value) : std::ceil(a.value);
-  result.error = a.value > 0.0 ? std::floor(a.error) : std::ceil(a.error);
+  if (result.value == a.value) {
+    result.error = a.value > 0.0 ? std::floor(a.error) : std::ceil(a.error);
+  } else {
+    // The fractional point is in `value`, so `error` does not matter.
+    result.error = 0;
+  }
   return result;
 }
 
-- 
2.43.0


From 0b4a512223830051d5188dcbc5a04bb5ad75968c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:43 +0000
Subject: [PATCH 10/41] fix: do not underflow when scaling down a large
 negative number

---
 numerics/scale_b_body.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/numerics/scale_b_body.hpp b/numerics/scale_b_body.hpp
index 634ea64..1c0f7dd 100644
--- a/numerics/scale_b_body.hpp
+++ b/numerics/scale_b_body.hpp
@@ -15,8 +15,9 @@ constexpr SourceFormat ScaleB(SourceFormat const x, LogBFormat const N) {
   SourceFormat result = x;
   if (N < 0) {
     for (LogBFormat k = 0; k > N; --k) {
-      if (result < std::numeric_limits<SourceFormat>::radix *
-                       std::numeric_limits<SourceFormat>::min()) {
+      SourceFormat const abs_result = result > 0 ? result : 0 - result;
+      if (abs_result < std::numeric_limits<SourceFormat>::radix *
+                           std::numeric_limits<SourceFormat>::min()) {
         SourceFormat radix_power = 1;
         for (; k > N; --k) {
           radix_power *= std::numeric_limits<SourceFormat>::radix;
-- 
2.43.0


From a0e0aa15547b5979d25eb8307e7c73476b9ee031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:31 +0000
Subject: [PATCH 11/41] =?UTF-8?q?fix:=20Frobenius=20companion=20matrix=20o?=
 =?UTF-8?q?f=20a=20=D0=A7=D0=B5=D0=B1=D1=8B=D1=88=D1=91=D0=B2=20series=20o?=
 =?UTF-8?q?f=20degree=201.?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 ...5\320\261\321\213\321\210\321\221\320\262_basis_body.hpp" | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git "a/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp" "b/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp"
index ab1efe9..5769c79 100644
--- "a/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp"
+++ "b/numerics/polynomial_in_\321\207\320\265\320\261\321\213\321\210\321\221\320\262_basis_body.hpp"
@@ -262,8 +262,9 @@ PolynomialInЧебышёвBasis<Value_, Argument_, degree_>::FrobeniusCompanionM
     }
   }
 
-  // j = N.
-  auto const two_aN = 2 * coefficients_[N];
+  // j = N.  Note that [Boy13] formula (B.2) assumes that N > 1: the recurrence
+  // has no factor 2 for T₁.
+  auto const two_aN = N == 1 ? coefficients_[N] : 2 * coefficients_[N];
   for (int k = 1; k <= N; ++k) {
     auto& Aⱼₖ = A(N - 1, k - 1);
     // Note that [Boy13] formula (B.2) has aⱼ₋₁ instead of aₖ₋₁ below, but
-- 
2.43.0


From 8317523cef228eacfde2cf5861ac5c7d19d36fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:54 +0000
Subject: [PATCH 12/41] fix: Householder reflections of vectors that are null
 or opposite to the first basis vector.

---
 numerics/matrix_computations_body.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/numerics/matrix_computations_body.hpp b/numerics/matrix_computations_body.hpp
index 26ffc7a..5a61aab 100644
--- a/numerics/matrix_computations_body.hpp
+++ b/numerics/matrix_computations_body.hpp
@@ -45,10 +45,15 @@ struct HouseholderReflection {
 
 template<typename Vector>
 HouseholderReflection ComputeHouseholderReflection(Vector const& x) {
+  using Scalar = typename Vector::Scalar;
+  UnboundedVector<Scalar> const unbounded_x(x);
+  if (unbounded_x.Norm() == Scalar{}) {
+    // Nothing to reflect.
+    return {.v = UnboundedVector<double>(unbounded_x.size()), .β = 0};
+  }
   // In order to avoid issues with quantities, we start by normalizing x.  This
   // implies that μ is 1.
-  auto const normalized_x =
-      UnboundedVector<typename Vector::Scalar>(x).Normalize();
+  auto const normalized_x = unbounded_x.Normalize();
   HouseholderReflection result{.v = normalized_x,
                                .β = 0};
   double const& x₁ = normalized_x[0];
@@ -59,7 +64,8 @@ HouseholderReflection ComputeHouseholderReflection(Vector const& x) {
   v₁ = 1;
   if (σ == 0) {
     if (x₁ < 0) {
-      result.β = -2;
+      // Note that [GV13] has -2 here, which would not be a reflection.
+      result.β = 2;
     }
   } else {
     static constexpr double μ = 1;
-- 
2.43.0


From 714f287bbc47113b46ab22053e03f6a3f7df2d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:11:43 +0000
Subject: [PATCH 13/41] fix: use exceptional shifts when the QR iteration
 cycles.

---
 numerics/matrix_computations_body.hpp | 47 +++++++++++++++++++++++----
 1 file changed, 40 insertions(+), 7 deletions(-)

diff --git a/numerics/matrix_computations_body.hpp b/numerics/matrix_computations_body.hpp
index 5a61aab..0bccc51 100644
--- a/numerics/matrix_computations_body.hpp
+++ b/numerics/matrix_computations_body.hpp
@@ -182,14 +182,20 @@ absl::btree_set<typename Matrix::Scalar> Compute2By2Eigenvalues(
                                                   solutions.end());
 }
 
-// [GV13] algorithm 7.5.1.
+// [GV13] algorithm 7.5.1.  If `exceptional_shift` is true, the shifts are not
+// derived from the trailing block, but are those of the EISPACK function HQR.
 template<typename Scalar, typename Matrix>
-void FrancisQRStep(Matrix& H) {
+void FrancisQRStep(Matrix& H, bool const exceptional_shift) {
   std::int64_t const n = H.rows();
   std::int64_t const m = n - 1;
-  auto const s = H(m - 1, m - 1) + H(n - 1, n - 1);
-  auto const t = H(m - 1, m - 1) * H(n - 1, n - 1) -
-                 H(m - 1, n - 1) * H(n - 1, m - 1);
+  auto s = H(m - 1, m - 1) + H(n - 1, n - 1);
+  auto t = H(m - 1, m - 1) * H(n - 1, n - 1) -
+           H(m - 1, n - 1) * H(n - 1, m - 1);
+  if (exceptional_shift) {
+    auto const w = Abs(H(n - 1, n - 2)) + Abs(H(n - 2, n - 3));
+    s = 1.5 * w;
+    t = Pow<2>(w);
+  }
   FixedVector<Scalar, 3> xyz(uninitialized);
   auto& x = xyz[0];
   auto& y = xyz[1];
@@ -892,9 +898,26 @@ RealSchurDecomposition(Matrix const& A, double const ε) {
   auto hessenberg = HessenbergDecomposition(A);
   auto& H = hessenberg.H;
   std::int64_t const n = H.rows();
+
+  auto const A_frobenius_norm = A.FrobeniusNorm();
+
+  // There are matrices for which the usual shifts cycle, e.g., the companion
+  // matrices of some odd or even series.  If an active block doesn't change for
+  // this many steps, an exceptional shift is used.
+  constexpr std::int64_t max_steps_without_deflation = 10;
+  std::int64_t steps_without_deflation = 0;
+  std::int64_t previous_p = -1;
+  std::int64_t previous_q = -1;
+
   for (;;) {
     for (std::int64_t i = 1; i < n; ++i) {
-      if (Abs(H(i, i - 1)) <= ε * (Abs(H(i, i)) + Abs(H(i - 1, i - 1)))) {
+      // As in the EISPACK function HQR, use the norm of the matrix if the
+      // diagonal elements are no indication of the scale.
+      auto scale = Abs(H(i, i)) + Abs(H(i - 1, i - 1));
+      if (scale == zero) {
+        scale = A_frobenius_norm;
+      }
+      if (Abs(H(i, i - 1)) <= ε * scale) {
         H(i, i - 1) = zero;
       }
     }
@@ -932,7 +955,17 @@ RealSchurDecomposition(Matrix const& A, double const ε) {
                                  .last_row = n - q - 1,
                                  .first_column = p,
                                  .last_column = n - q - 1};
-    FrancisQRStep<Scalar>(H₂₂);
+    if (p == previous_p && q == previous_q) {
+      ++steps_without_deflation;
+    } else {
+      steps_without_deflation = 0;
+      previous_p = p;
+      previous_q = q;
+    }
+    bool const exceptional_shift =
+        steps_without_deflation % max_steps_without_deflation ==
+        max_steps_without_deflation - 1;
+    FrancisQRStep<Scalar>(H₂₂, exceptional_shift);
   }
 
   // Find the real eigenvalues.  Note that they may be part of a 2×2 block which
-- 
2.43.0


From ec139f41bcb222863e8cfa06a1290f789ebcbcbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:40:51 +0000
Subject: [PATCH 14/41] fix: do not keep references into the timeline when
 updating an interpolation

---
 physics/discrete_trajectory_segment_body.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/physics/discrete_trajectory_segment_body.hpp b/physics/discrete_trajectory_segment_body.hpp
index b15a8f2..ea81e48 100644
--- a/physics/discrete_trajectory_segment_body.hpp
+++ b/physics/discrete_trajectory_segment_body.hpp
@@ -584,10 +584,12 @@ void DiscreteTrajectorySegment<Frame>::UpdateInterpolation(
     typename Timeline::iterator const upper) {
   CHECK(upper != timeline_.cbegin());
   auto const lower = std::prev(upper);
-  auto const& [lower_time, lower_degrees_of_freedom] = *lower;
 
-  // This needs to be copied because the element designated by `upper` is going
-  // to be extracted from the set, which invalidates `upper`.
+  // These need to be copied because the element designated by `upper` is going
+  // to be extracted from the set, which invalidates `upper` and may move the
+  // element designated by `lower`.
+  auto const lower_time = lower->time;
+  auto const lower_degrees_of_freedom = lower->degrees_of_freedom;
   auto const upper_time = upper->time;
   auto const upper_degrees_of_freedom = upper->degrees_of_freedom;
 
-- 
2.43.0


From 605e28363174fc1ad99ffb5d8ea6c0306f754e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:10 +0000
Subject: [PATCH 15/41] fix: preserve the time-to-segment entries when
 attaching a trajectory whose first segment has one point

---
 physics/discrete_trajectory_body.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/physics/discrete_trajectory_body.hpp b/physics/discrete_trajectory_body.hpp
index c10ada1..d613833 100644
--- a/physics/discrete_trajectory_body.hpp
+++ b/physics/discrete_trajectory_body.hpp
@@ -218,9 +218,13 @@ DiscreteTrajectory<Frame>::AttachSegments(DiscreteTrajectory trajectory) {
         << "Mismatching times when attaching segments";
     trajectory.segments_->begin()->Prepend(back().time,
                                            back().degrees_of_freedom);
+    // Beware, if the first segment had a single point, the first entry of the
+    // map may be for a subsequent segment, in which case it must be preserved.
     auto const leit = trajectory.segment_by_left_endpoint_.cbegin();
-    auto const sit = leit->second;
-    trajectory.segment_by_left_endpoint_.erase(leit);
+    auto const sit = trajectory.segments_->begin();
+    if (leit->second == sit) {
+      trajectory.segment_by_left_endpoint_.erase(leit);
+    }
     trajectory.segment_by_left_endpoint_.emplace(back().time, sit);
   }
 
-- 
2.43.0


From 7ae432dc2c5f88ee4f453861fa6996463e8f4049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:10 +0000
Subject: [PATCH 16/41] fix: do not overwrite the time-to-segment entry of a
 subsequent segment in ForgetBefore

---
 physics/discrete_trajectory_body.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/physics/discrete_trajectory_body.hpp b/physics/discrete_trajectory_body.hpp
index d613833..5a4a721 100644
--- a/physics/discrete_trajectory_body.hpp
+++ b/physics/discrete_trajectory_body.hpp
@@ -343,9 +343,11 @@ void DiscreteTrajectory<Frame>::ForgetBefore(Instant const& t) {
   // just have truncated.
   segment_by_left_endpoint_.erase(segment_by_left_endpoint_.begin(),
                                   std::next(leit));
-  // It `*sit` is not empty, recreate an entry with its new left endpoint.
+  // It `*sit` is not empty, recreate an entry with its new left endpoint.  If
+  // `*sit` is left with a single point, there may already be an entry at that
+  // time, for a subsequent segment; it must be preserved.
   if (!sit->empty()) {
-    segment_by_left_endpoint_.insert_or_assign(
+    segment_by_left_endpoint_.try_emplace(
         segment_by_left_endpoint_.begin(),
         sit->front().time,
         sit);
-- 
2.43.0


From e6a105f4a6dd9b9c6b998501da739d3edaa0e34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:43:22 +0000
Subject: [PATCH 17/41] fix: close the bit streams used for ZFP compression

---
 base/zfp_compressor.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/base/zfp_compressor.cpp b/base/zfp_compressor.cpp
index 332c5ee..3799e98 100644
--- a/base/zfp_compressor.cpp
+++ b/base/zfp_compressor.cpp
@@ -40,15 +40,18 @@ void ZfpCompressor::WriteToMessage(const zfp_field* const field,
   }
   std::size_t const buffer_size = zfp_stream_maximum_size(zfp.get(), field);
   UniqueArray<std::uint8_t> const buffer(buffer_size);
-  not_null<bitstream*> const stream =
-      check_not_null(stream_open(buffer.data.get(), buffer_size));
-  zfp_stream_set_bit_stream(zfp.get(), &*stream);
+  // Note that `zfp_stream_close` doesn't close the bit stream.
+  std::unique_ptr<bitstream, std::function<void(bitstream*)>> const stream(
+      stream_open(buffer.data.get(), buffer_size),
+      [](bitstream* const stream) { stream_close(stream); });
+  CHECK_NE(nullptr, stream);
+  zfp_stream_set_bit_stream(zfp.get(), stream.get());
 
   zfp_write_header(zfp.get(), field, header_mask);
   std::size_t const compressed_size = zfp_compress(zfp.get(), field);
   CHECK_LT(0, compressed_size);
-  message->append(static_cast<char const*>(stream_data(stream)),
-                  stream_size(stream));
+  message->append(static_cast<char const*>(stream_data(stream.get())),
+                  stream_size(stream.get()));
 }
 
 void ZfpCompressor::ReadFromMessage(zfp_field* const field,
@@ -57,9 +60,11 @@ void ZfpCompressor::ReadFromMessage(zfp_field* const field,
       zfp_stream_open(/*stream=*/nullptr),
       [](zfp_stream* const zfp) { zfp_stream_close(zfp); });
 
-  not_null<bitstream*> const stream = check_not_null(
-      stream_open(const_cast<char*>(&message.front()), message.size()));
-  zfp_stream_set_bit_stream(zfp.get(), &*stream);
+  std::unique_ptr<bitstream, std::function<void(bitstream*)>> const stream(
+      stream_open(const_cast<char*>(&message.front()), message.size()),
+      [](bitstream* const stream) { stream_close(stream); });
+  CHECK_NE(nullptr, stream);
+  zfp_stream_set_bit_stream(zfp.get(), stream.get());
   std::size_t const header_bits =
       zfp_read_header(zfp.get(), field, header_mask);
   CHECK_LT(0, header_bits);
-- 
2.43.0


From 401b81c1a89ea62c1f9156b21230015bddb8b37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:55:30 +0000
Subject: [PATCH 18/41] fix: restore the downsampling error when deserializing
 or merging segments

---
 physics/discrete_trajectory_segment.hpp      |  4 ++++
 physics/discrete_trajectory_segment_body.hpp | 19 ++++++++++++++++---
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/physics/discrete_trajectory_segment.hpp b/physics/discrete_trajectory_segment.hpp
index 68cab60..0f39c17 100644
--- a/physics/discrete_trajectory_segment.hpp
+++ b/physics/discrete_trajectory_segment.hpp
@@ -163,6 +163,10 @@ class DiscreteTrajectorySegment : public Trajectory<Frame> {
   void ForgetAfter(Instant const& t);
   void ForgetAfter(typename Timeline::const_iterator begin);
 
+  // Sets the downsampling error to the one resulting from the last
+  // interpolation, if there is one, and to 0 otherwise.
+  void RestoreDownsamplingError();
+
   // Removes all points with a time strictly less than `t` (1st overload) or
   // ending at `end` (2nd overload).
   void ForgetBefore(Instant const& t);
diff --git a/physics/discrete_trajectory_segment_body.hpp b/physics/discrete_trajectory_segment_body.hpp
index ea81e48..5cd80a1 100644
--- a/physics/discrete_trajectory_segment_body.hpp
+++ b/physics/discrete_trajectory_segment_body.hpp
@@ -312,6 +312,7 @@ DiscreteTrajectorySegment<Frame>::ReadFromMessage(
     segment.downsampling_parameters_ = DownsamplingParameters::ReadFromMessage(
         message.downsampling_parameters());
   }
+  segment.RestoreDownsamplingError();
 
   return segment;
 }
@@ -382,9 +383,12 @@ template<typename Frame>
 void DiscreteTrajectorySegment<Frame>::ForgetAfter(
     typename Timeline::const_iterator const begin) {
   timeline_.erase(begin, timeline_.cend());
+  RestoreDownsamplingError();
+}
+
+template<typename Frame>
+void DiscreteTrajectorySegment<Frame>::RestoreDownsamplingError() {
   if (!timeline_.empty()) {
-    // Restore the downsampling error resulting from the last interpolation, if
-    // there is one.
     auto const& last_interpolation = timeline_.crbegin()->interpolation;
     if (last_interpolation != nullptr) {
       downsampling_error_ = last_interpolation->error;
@@ -493,6 +497,7 @@ void DiscreteTrajectorySegment<Frame>::Merge(
   } else if (timeline_.empty()) {
     downsampling_parameters_ = segment.downsampling_parameters_;
     timeline_ = std::move(segment.timeline_);
+    RestoreDownsamplingError();
   } else if (auto const [this_crbegin, segment_begin] =
                  std::pair{std::prev(timeline_.cend()),
                            segment.timeline_.begin()};
@@ -521,6 +526,7 @@ void DiscreteTrajectorySegment<Frame>::Merge(
     if (it != timeline_.cbegin()) {
       UpdateInterpolation(it);
     }
+    RestoreDownsamplingError();
   } else if (auto const [segment_crbegin, this_begin] =
                  std::pair{std::prev(segment.timeline_.cend()),
                            timeline_.begin()};
@@ -598,6 +604,13 @@ void DiscreteTrajectorySegment<Frame>::UpdateInterpolation(
   // `extract_and_get_next` to get the iterator that we'll use as a hint for
   // reinsertion.
   auto [extracted, next] = timeline_.extract_and_get_next(upper);
+
+  // If there was already an interpolation, preserve its error, as it accounts
+  // for points that are no longer in the timeline.
+  auto const& interpolation = extracted.value().interpolation;
+  Length const error =
+      interpolation == nullptr ? Length{} : interpolation->error;
+
   extracted.value().interpolation =
       NewInterpolation(Hermite3<Position<Frame>, Instant>(
                            std::pair{lower_time, upper_time},
@@ -605,7 +618,7 @@ void DiscreteTrajectorySegment<Frame>::UpdateInterpolation(
                                      upper_degrees_of_freedom.position()},
                            std::pair{lower_degrees_of_freedom.velocity(),
                                      upper_degrees_of_freedom.velocity()}),
-                       /*error=*/Length{});
+                       error);
   timeline_.insert(next, std::move(extracted));
 }
 
-- 
2.43.0


From 85a1250e285b5be563dc20886c9a1bc0c90915cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:25 +0000
Subject: [PATCH 19/41] fix: ContinuousTrajectory: make the polynomial cache
 atomic, it is updated under a reader lock

---
 physics/continuous_trajectory.hpp      | 7 +++++--
 physics/continuous_trajectory_body.hpp | 8 +++++---
 2 files changed, 10 insertions(+), 5 deletions(-)

diff --git a/physics/continuous_trajectory.hpp b/physics/continuous_trajectory.hpp
index 19d8781..9835f36 100644
--- a/physics/continuous_trajectory.hpp
+++ b/physics/continuous_trajectory.hpp
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <atomic>
 #include <memory>
 #include <optional>
 #include <utility>
@@ -243,8 +244,10 @@ class ContinuousTrajectory : public Trajectory<Frame> {
   // multithreading it may be that different threads would want to access
   // polynomials at different indices, but by and large the threads progress in
   // parallel, and benchmarks show that there is no adverse performance effects.
-  // Any value in the range of `polynomials_` or 0 is correct.
-  mutable std::int64_t last_accessed_polynomial_ ABSL_GUARDED_BY(lock_) = 0;
+  // Any value in the range of `polynomials_` or 0 is correct.  It is updated by
+  // threads which only hold a reader lock, so it must be atomic.
+  mutable std::atomic<std::int64_t> last_accessed_polynomial_
+      ABSL_GUARDED_BY(lock_) = 0;
 
   // The time at which this trajectory starts.  Set for a nonempty trajectory.
   std::optional<Instant> first_time_ ABSL_GUARDED_BY(lock_);
diff --git a/physics/continuous_trajectory_body.hpp b/physics/continuous_trajectory_body.hpp
index 6964967..c71933b 100644
--- a/physics/continuous_trajectory_body.hpp
+++ b/physics/continuous_trajectory_body.hpp
@@ -144,7 +144,7 @@ void ContinuousTrajectory<Frame>::Prepend(ContinuousTrajectory&& prefix) {
     degree_ = prefix.degree_;
     degree_age_ = prefix.degree_age_;
     polynomials_ = std::move(prefix.polynomials_);
-    last_accessed_polynomial_ = prefix.last_accessed_polynomial_;
+    last_accessed_polynomial_ = prefix.last_accessed_polynomial_.load();
     first_time_ = prefix.first_time_;
     last_points_ = prefix.last_points_;
   } else {
@@ -864,7 +864,8 @@ ContinuousTrajectory<Frame>::FindPolynomialForInstantLocked(
   // This returns the first polynomial `p` such that `time <= p.t_max`.
   {
     auto const begin = polynomials_.begin();
-    auto const it = begin + last_accessed_polynomial_;
+    auto const it =
+        begin + last_accessed_polynomial_.load(std::memory_order_relaxed);
     if (it != polynomials_.end() && time <= it->t_max &&
         (it == begin || std::prev(it)->t_max < time)) {
       return it;
@@ -879,7 +880,8 @@ ContinuousTrajectory<Frame>::FindPolynomialForInstantLocked(
                             Instant const& right) {
                            return left.t_max < right;
                          });
-    last_accessed_polynomial_ = it - polynomials_.begin();
+    last_accessed_polynomial_.store(it - polynomials_.begin(),
+                                    std::memory_order_relaxed);
     return it;
   }
 }
-- 
2.43.0


From c6f7d00e4d6e23e03814c97b64fdafb52de933ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:12:49 +0000
Subject: [PATCH 20/41] fix: Don't ignore the status of the startup of
 multistep integrators

When the thread was stopped during the startup (say, because the reanimator was
restarted) Solve returned OK without having reached the final time, so
Ephemeris::ReanimateOneCheckpoint prepended incomplete trajectories and recorded
the checkpoint as reanimated, leaving AwaitReanimation blocked forever.
---
 .../explicit_linear_multistep_integrator_body.hpp   |  7 +++----
 integrators/starter.hpp                             |  6 ++++--
 integrators/starter_body.hpp                        | 13 +++++++------
 .../symmetric_linear_multistep_integrator_body.hpp  |  6 +++---
 4 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/integrators/explicit_linear_multistep_integrator_body.hpp b/integrators/explicit_linear_multistep_integrator_body.hpp
index 019c536..790ce44 100644
--- a/integrators/explicit_linear_multistep_integrator_body.hpp
+++ b/integrators/explicit_linear_multistep_integrator_body.hpp
@@ -35,13 +35,14 @@ ExplicitLinearMultistepIntegrator<Method, ODE_>::Instance::Solve(
   auto const& step = this->step_;
   auto const& equation = this->equation_;
 
+  absl::Status status;
   if (!starter_.started()) {
-    starter_.Solve(s_final);
+    status = starter_.Solve(s_final);
 
     // If `s_final` is not large enough, we may not have generated enough
     // points.  Bail out, we'll continue the next time `Solve` is called.
     if (!starter_.started()) {
-      return absl::OkStatus();
+      return status;
     }
   }
   auto const& previous_steps = starter_.previous_steps();
@@ -61,8 +62,6 @@ ExplicitLinearMultistepIntegrator<Method, ODE_>::Instance::Solve(
   // Current stage of the integrator.
   DependentVariables y_stage;
 
-  absl::Status status;
-
   while (h <= (s_final - s.value) - s.error) {
     DoubleDependentVariables Σⱼ_minus_αⱼ_yⱼ{};
     DependentVariableDerivatives Σⱼ_βⱼ_numerator_fⱼ{};
diff --git a/integrators/starter.hpp b/integrators/starter.hpp
index 9b315e2..c527e19 100644
--- a/integrators/starter.hpp
+++ b/integrators/starter.hpp
@@ -2,6 +2,7 @@
 
 #include <list>
 
+#include "absl/status/status.h"
 #include "base/not_null.hpp"
 #include "integrators/integrators.hpp"
 
@@ -31,8 +32,9 @@ class Starter {
   // Performs the startup integration, i.e., computes enough states to either
   // reach `s_final` or to reach a point where `instance.previous_steps_` has
   // `order - 1` elements.  During startup `instance.current_state_` is
-  // updated more frequently than once every `instance.step_`.
-  void Solve(typename ODE::IndependentVariable const& s_final);
+  // updated more frequently than once every `instance.step_`.  Returns the
+  // status of the startup integration.
+  absl::Status Solve(typename ODE::IndependentVariable const& s_final);
 
   // Appends a new step to `previous_steps_` and drops the oldest one if needed.
   // This object must be `started()`.
diff --git a/integrators/starter_body.hpp b/integrators/starter_body.hpp
index 32cedd6..5540a15 100644
--- a/integrators/starter_body.hpp
+++ b/integrators/starter_body.hpp
@@ -21,7 +21,7 @@ Starter<ODE, Step, steps>::Starter(
       instance_(instance) {}
 
 template<typename ODE, typename Step, int steps>
-void Starter<ODE, Step, steps>::Solve(
+absl::Status Starter<ODE, Step, steps>::Solve(
     typename ODE::IndependentVariable const& s_final) {
   auto const& equation = instance_->equation();
   auto& current_state = instance_->state();
@@ -64,13 +64,14 @@ void Starter<ODE, Step, steps>::Solve(
   auto const startup_instance = startup_integrator_.NewInstance(
       {equation, current_state}, startup_append_state, startup_step);
 
-  startup_instance
-      ->Solve(std::min(independent_variable() +
-                           (steps - previous_steps_.size()) * step + step / 2.0,
-                       s_final))
-      .IgnoreError();
+  absl::Status const status = startup_instance->Solve(
+      std::min(independent_variable() +
+                   (steps - previous_steps_.size()) * step + step / 2.0,
+               s_final));
 
   CHECK_LE(previous_steps_.size(), steps);
+
+  return status;
 }
 
 template<typename ODE, typename Step, int steps>
diff --git a/integrators/symmetric_linear_multistep_integrator_body.hpp b/integrators/symmetric_linear_multistep_integrator_body.hpp
index d36f069..e4ba2ba 100644
--- a/integrators/symmetric_linear_multistep_integrator_body.hpp
+++ b/integrators/symmetric_linear_multistep_integrator_body.hpp
@@ -39,13 +39,14 @@ SymmetricLinearMultistepIntegrator<Method, ODE_>::Instance::Solve(
   auto const& step = this->step_;
   auto const& equation = this->equation_;
 
+  absl::Status status;
   if (!starter_.started()) {
-    starter_.Solve(t_final);
+    status = starter_.Solve(t_final);
 
     // If `t_final` is not large enough, we may not have generated enough
     // points.  Bail out, we'll continue the next time `Solve` is called.
     if (!starter_.started()) {
-      return absl::OkStatus();
+      return status;
     }
   }
   auto const& previous_steps = starter_.previous_steps();
@@ -61,7 +62,6 @@ SymmetricLinearMultistepIntegrator<Method, ODE_>::Instance::Solve(
   // Order.
   int const k = order;
 
-  absl::Status status;
   std::vector<Position> positions(dimension);
 
   DoubleDisplacements Σⱼ_minus_αⱼ_qⱼ(dimension);
-- 
2.43.0


From b46f20e8ddbd05d2d31aed0839af34645d43cf20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:47 +0000
Subject: [PATCH 21/41] fix: Don't omit the last step when reanimating a
 checkpoint

The time of a checkpoint is rounded, so it may be slightly before the (double
precision) time to which the integrator would step, in which case Solve would
stop one step short.  If a series ended at the checkpoint, the reanimated
trajectories would not abut the existing ones, causing a check failure.
---
 physics/ephemeris_body.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/physics/ephemeris_body.hpp b/physics/ephemeris_body.hpp
index 7523491..55e10be 100644
--- a/physics/ephemeris_body.hpp
+++ b/physics/ephemeris_body.hpp
@@ -1044,8 +1044,11 @@ absl::Status Ephemeris<Frame>::ReanimateOneCheckpoint(
   // Do the integration.  After this step the t_max() of the trajectories may
   // be before t_final because there may be last_points_ that haven't been put
   // in a series.  Don't proceed in case of error, we would run into a gap when
-  // trying to stitch the trajectories.
-  RETURN_IF_ERROR(instance->Solve(t_final));
+  // trying to stitch the trajectories.  The times of the checkpoints may have
+  // been rounded, so add half a step to make sure that we don't omit the last
+  // step because of rounding errors.
+  RETURN_IF_ERROR(
+      instance->Solve(t_final + fixed_step_parameters_.step() / 2));
 
   // Stitch the local trajectories to the ones in this ephemeris and record that
   // we will not reanimate this checkpoint again.
-- 
2.43.0


From 7909ca3b77c2ffa4fe503d09d8fce4db11d94e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:19:10 +0000
Subject: [PATCH 22/41] fix: Don't use an iterator of the checkpoints without
 the lock

ReadFromCheckpointAt was dereferencing an iterator into the btree after having
released the lock, at which point another thread may be inserting a checkpoint
and rebalancing the tree.
---
 physics/checkpointer_body.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/physics/checkpointer_body.hpp b/physics/checkpointer_body.hpp
index 1635eb9..57a0221 100644
--- a/physics/checkpointer_body.hpp
+++ b/physics/checkpointer_body.hpp
@@ -215,15 +215,16 @@ template<typename Message>
 absl::Status Checkpointer<Message>::ReadFromCheckpointAt(
     Instant const& t,
     Reader const& reader) const {
-  typename CheckpointsByTime::const_iterator it;
+  typename Message::Checkpoint const* checkpoint = nullptr;
   {
     absl::ReaderMutexLock l(&lock_);
-    it = checkpoints_.find(t);
+    auto const it = checkpoints_.find(t);
     if (it == checkpoints_.end()) {
       return absl::NotFoundError("No checkpoint found");
     }
+    checkpoint = it->second.get();
   }
-  return reader(*it->second);
+  return reader(*checkpoint);
 }
 
 template<typename Message>
-- 
2.43.0


From 903612a3ce4bc915f74ecff66ab1576de4beed77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:46 +0000
Subject: [PATCH 23/41] fix: the first client of a clientele was read without
 holding the lock

Clientele::first returned a reference into the btree, which another thread
joining or leaving may move or deallocate before it is read.
---
 physics/clientele.hpp      | 2 +-
 physics/clientele_body.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/physics/clientele.hpp b/physics/clientele.hpp
index c1520c0..94be37d 100644
--- a/physics/clientele.hpp
+++ b/physics/clientele.hpp
@@ -26,7 +26,7 @@ class Clientele {
   void Leave(Key const& key);
 
   // Returns the smallest key of all clients currently in this object.
-  Key const& first() const;
+  Key first() const;
 
  private:
   Key const default_key_;
diff --git a/physics/clientele_body.hpp b/physics/clientele_body.hpp
index 5917bfb..bef3e18 100644
--- a/physics/clientele_body.hpp
+++ b/physics/clientele_body.hpp
@@ -26,7 +26,7 @@ void Clientele<Key>::Leave(Key const& key) {
 }
 
 template<typename Key>
-Key const& Clientele<Key>::first() const {
+Key Clientele<Key>::first() const {
   absl::MutexLock l(&lock_);
   if (auto const it = clients_.begin(); it == clients_.end()) {
     return default_key_;
-- 
2.43.0


From 5902e6f4163621ec6a70b9802f5e8ef48788cc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:49 +0000
Subject: [PATCH 24/41] fix: a request for reanimation could override one for
 which a client waits

The time given to the reanimator was determined under the lock but put after
releasing it, so an older time put in the meantime for another client was lost,
and that client waited forever.
---
 physics/ephemeris_body.hpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/physics/ephemeris_body.hpp b/physics/ephemeris_body.hpp
index 55e10be..61c166f 100644
--- a/physics/ephemeris_body.hpp
+++ b/physics/ephemeris_body.hpp
@@ -293,7 +293,16 @@ void Ephemeris<Frame>::RequestReanimation(Instant const& desired_t_min) {
   if (must_restart) {
     reanimator_.Restart();
   }
-  reanimator_.Put(allowable_desired_t_min);
+
+  // While we weren't holding the lock other clients may have joined and put
+  // their desired time, and we must not override it with a later one.
+  {
+    absl::MutexLock l(&lock_);
+    allowable_desired_t_min =
+        std::min(desired_t_min, reanimator_clientele_.first());
+    last_desired_t_min_ = allowable_desired_t_min;
+    reanimator_.Put(allowable_desired_t_min);
+  }
 }
 
 template<typename Frame>
-- 
2.43.0


From 38041e7c462763fd9cae67bda6752ba768f1e358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:01 +0000
Subject: [PATCH 25/41] fix: a continuous trajectory could reject the times of
 an integrator near J2000

A point was required to be within 1 ULP of the preceding one plus the step, but
when the time gets closer to J2000 the ULP shrinks below the rounding error of
the preceding time.
---
 physics/continuous_trajectory_body.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/physics/continuous_trajectory_body.hpp b/physics/continuous_trajectory_body.hpp
index c71933b..b9b840c 100644
--- a/physics/continuous_trajectory_body.hpp
+++ b/physics/continuous_trajectory_body.hpp
@@ -12,11 +12,11 @@
 
 #include "absl/log/internal/container.h"
 #include "geometry/interval.hpp"
+#include "numerics/elementary_functions.hpp"
 #include "numerics/fma.hpp"
 #include "numerics/newhall.hpp"
 #include "numerics/poisson_series.hpp"
 #include "numerics/polynomial_in_чебышёв_basis.hpp"
-#include "numerics/ulp_distance.hpp"
 #include "quantities/si.hpp"
 
 namespace principia {
@@ -25,11 +25,11 @@ namespace _continuous_trajectory {
 namespace internal {
 
 using namespace principia::geometry::_interval;
+using namespace principia::numerics::_elementary_functions;
 using namespace principia::numerics::_fma;
 using namespace principia::numerics::_newhall;
 using namespace principia::numerics::_poisson_series;
 using namespace principia::numerics::_polynomial_in_чебышёв_basis;
-using namespace principia::numerics::_ulp_distance;
 using namespace principia::quantities::_si;
 
 constexpr int max_degree = 17;
@@ -87,11 +87,13 @@ absl::Status ContinuousTrajectory<Frame>::Append(
 
   // Consistency checks.
   if (first_time_) {
+    // The times may have been rounded, and the largest one in absolute value
+    // determines the rounding error.
     Instant const t0;
-    CHECK_GE(1,
-             ULPDistance((last_points_.back().first + step_ - t0) /
-                             si::Unit<Time>,
-                         (time - t0) / si::Unit<Time>))
+    Instant const& last_time = last_points_.back().first;
+    CHECK_LE(Abs(time - (last_time + step_)),
+             std::numeric_limits<double>::epsilon() *
+                 std::max({Abs(last_time - t0), Abs(time - t0), step_}))
         << "Append at times that are not equally spaced, expected " << step_
         << ", found " << last_points_.back().first << " and " << time;
   } else {
-- 
2.43.0


From d73bb586f121cfa7f91f00b9b3db2c69114a41e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:08:55 +0000
Subject: [PATCH 26/41] fix: make checkpoints visible to the readers only once
 they are complete

---
 physics/checkpointer.hpp      | 15 +++++++--
 physics/checkpointer_body.hpp | 62 ++++++++++++++++++++++++++---------
 2 files changed, 60 insertions(+), 17 deletions(-)

diff --git a/physics/checkpointer.hpp b/physics/checkpointer.hpp
index a77d3ec..91de005 100644
--- a/physics/checkpointer.hpp
+++ b/physics/checkpointer.hpp
@@ -147,8 +147,19 @@ class Checkpointer {
       Instant,
       google::protobuf::Arena::UniquePtr<typename Message::Checkpoint>>;
 
-  void WriteToCheckpointLocked(Instant const& t)
-      ABSL_EXCLUSIVE_LOCKS_REQUIRED(lock_);
+  // Returns a new checkpoint filled by `writer`.  It must not be visible to the
+  // other threads until it is complete.
+  google::protobuf::Arena::UniquePtr<typename Message::Checkpoint>
+  MakeCheckpoint(Writer const& writer) EXCLUDES(lock_);
+
+  bool IsCheckpointNeededLocked(Instant const& t,
+                                Time const& max_time_between_checkpoints) const
+      REQUIRES_SHARED(lock_);
+
+  void InsertCheckpointLocked(
+      Instant const& t,
+      google::protobuf::Arena::UniquePtr<typename Message::Checkpoint>
+          checkpoint) REQUIRES(lock_);
 
   mutable absl::Mutex lock_;
   Writer writer_;
diff --git a/physics/checkpointer_body.hpp b/physics/checkpointer_body.hpp
index 57a0221..4684fc5 100644
--- a/physics/checkpointer_body.hpp
+++ b/physics/checkpointer_body.hpp
@@ -152,21 +152,38 @@ absl::btree_set<Instant> Checkpointer<Message>::all_checkpoints_between(
 
 template<typename Message>
 void Checkpointer<Message>::WriteToCheckpoint(Instant const& t) {
+  Writer writer;
+  {
+    absl::ReaderMutexLock l(&lock_);
+    CHECK(!checkpoints_.contains(t)) << t;
+    writer = writer_;
+  }
+  auto checkpoint = MakeCheckpoint(writer);
   absl::MutexLock l(&lock_);
-  WriteToCheckpointLocked(t);
+  InsertCheckpointLocked(t, std::move(checkpoint));
 }
 
 template<typename Message>
 bool Checkpointer<Message>::WriteToCheckpointIfNeeded(
     Instant const& t,
     Time const& max_time_between_checkpoints) {
+  Writer writer;
+  {
+    absl::ReaderMutexLock l(&lock_);
+    if (!IsCheckpointNeededLocked(t, max_time_between_checkpoints)) {
+      return false;
+    }
+    CHECK(!checkpoints_.contains(t)) << t;
+    writer = writer_;
+  }
+  auto checkpoint = MakeCheckpoint(writer);
   absl::MutexLock l(&lock_);
-  if (checkpoints_.empty() ||
-      max_time_between_checkpoints < t - checkpoints_.crbegin()->first) {
-    WriteToCheckpointLocked(t);
-    return true;
+  // Another thread may have created a checkpoint in the meantime.
+  if (!IsCheckpointNeededLocked(t, max_time_between_checkpoints)) {
+    return false;
   }
-  return false;
+  InsertCheckpointLocked(t, std::move(checkpoint));
+  return true;
 }
 
 template<typename Message>
@@ -287,17 +304,32 @@ Checkpointer<Message>::ReadFromMessage(
 }
 
 template<typename Message>
-void Checkpointer<Message>::WriteToCheckpointLocked(Instant const& t) {
+google::protobuf::Arena::UniquePtr<typename Message::Checkpoint>
+Checkpointer<Message>::MakeCheckpoint(Writer const& writer) {
+  auto checkpoint =
+      google::protobuf::Arena::MakeUnique<typename Message::Checkpoint>(
+          &arena_);
+  writer(checkpoint.get());
+  return checkpoint;
+}
+
+template<typename Message>
+bool Checkpointer<Message>::IsCheckpointNeededLocked(
+    Instant const& t,
+    Time const& max_time_between_checkpoints) const {
+  lock_.AssertReaderHeld();
+  return checkpoints_.empty() ||
+         max_time_between_checkpoints < t - checkpoints_.crbegin()->first;
+}
+
+template<typename Message>
+void Checkpointer<Message>::InsertCheckpointLocked(
+    Instant const& t,
+    google::protobuf::Arena::UniquePtr<typename Message::Checkpoint>
+        checkpoint) {
   lock_.AssertHeld();
   CHECK(!checkpoints_.contains(t)) << t;
-  auto const it = checkpoints_.emplace_hint(
-      checkpoints_.end(),
-      t,
-      google::protobuf::Arena::MakeUnique<typename Message::Checkpoint>(
-          &arena_));
-  lock_.Unlock();
-  writer_(it->second.get());
-  lock_.Lock();
+  checkpoints_.emplace_hint(checkpoints_.end(), t, std::move(checkpoint));
 }
 
 }  // namespace internal
-- 
2.43.0


From 980125c0c2cb6ddf62e21882061007dc9c46828e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:57 +0000
Subject: [PATCH 27/41] =?UTF-8?q?fix:=20Correct=20the=20coefficient=20a?=
 =?UTF-8?q?=E2=80=B2=E2=82=84=E2=82=82=20of=20Fine1987RKNG34,=20a=20transp?=
 =?UTF-8?q?osition=20of=20digits=20that=20reduced=20its=20order=20to=201?=
MIME-Version: 1.0
Content-Type: text/plain; charset=UTF-8
Content-Transfer-Encoding: 8bit

---
 integrators/methods.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/integrators/methods.hpp b/integrators/methods.hpp
index a14c7c0..25142aa 100644
--- a/integrators/methods.hpp
+++ b/integrators/methods.hpp
@@ -557,7 +557,7 @@ struct Fine1987RKNG34 : EmbeddedExplicitGeneralizedRungeKuttaNyström {
   static constexpr FixedStrictlyLowerTriangularMatrix<double, stages> aʹ{{
       {  2 /     9.0,
          1 /    12.0,    1 /   4.0,
-        69 /   128.0, -234 / 128.0, 135 /    64.0,
+        69 /   128.0, -243 / 128.0, 135 /    64.0,
        -17 /    12.0,   27 /   4.0, -27 /     5.0, 16 /    15.0}}};
   static constexpr FixedVector<double, stages> b̂{{
       { 19 /   180.0,    0        ,  63 /   200.0, 16 /   225.0,   1 / 120.0}}};
-- 
2.43.0


From 27abf97919e16ac8677eb139a09a51b7c2c84d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:28:11 +0000
Subject: [PATCH 28/41] fix: Make the clone of a multistep instance own its
 startup instead of driving the original

---
 integrators/explicit_linear_multistep_integrator.hpp   |  3 +++
 .../explicit_linear_multistep_integrator_body.hpp      |  7 +++++++
 integrators/starter.hpp                                | 10 ++++++++++
 integrators/starter_body.hpp                           | 10 ++++++++++
 integrators/symmetric_linear_multistep_integrator.hpp  |  3 +++
 .../symmetric_linear_multistep_integrator_body.hpp     |  7 +++++++
 6 files changed, 40 insertions(+)

diff --git a/integrators/explicit_linear_multistep_integrator.hpp b/integrators/explicit_linear_multistep_integrator.hpp
index 68d684a..0fcc7c9 100644
--- a/integrators/explicit_linear_multistep_integrator.hpp
+++ b/integrators/explicit_linear_multistep_integrator.hpp
@@ -81,6 +81,9 @@ class ExplicitLinearMultistepIntegrator
              IndependentVariableDifference const& step,
              ExplicitLinearMultistepIntegrator const& integrator);
 
+    // The starter of the copy must not refer to the `other` instance.
+    Instance(Instance const& other);
+
     Starter starter_;
     ExplicitLinearMultistepIntegrator const& integrator_;
     friend class ExplicitLinearMultistepIntegrator;
diff --git a/integrators/explicit_linear_multistep_integrator_body.hpp b/integrators/explicit_linear_multistep_integrator_body.hpp
index 790ce44..edf9ac2 100644
--- a/integrators/explicit_linear_multistep_integrator_body.hpp
+++ b/integrators/explicit_linear_multistep_integrator_body.hpp
@@ -175,6 +175,13 @@ ExplicitLinearMultistepIntegrator<Method, ODE_>::Instance::Instance(
       starter_(integrator.startup_integrator_, startup_step_divisor, this),
       integrator_(integrator) {}
 
+template<typename Method, typename ODE_>
+ExplicitLinearMultistepIntegrator<Method, ODE_>::Instance::Instance(
+    Instance const& other)
+    : FixedStepSizeIntegrator<ODE>::Instance(other),
+      starter_(other.starter_, this),
+      integrator_(other.integrator_) {}
+
 template<typename Method, typename ODE_>
 ExplicitLinearMultistepIntegrator<Method, ODE_>::
 ExplicitLinearMultistepIntegrator(
diff --git a/integrators/starter.hpp b/integrators/starter.hpp
index c527e19..0e54bf1 100644
--- a/integrators/starter.hpp
+++ b/integrators/starter.hpp
@@ -29,6 +29,16 @@ class Starter {
           std::int64_t startup_step_divisor,
           not_null<typename FixedStepSizeIntegrator<ODE>::Instance*> instance);
 
+  // Copies the progress of the startup.  The new object operates on `instance`,
+  // not on the instance of `other`.
+  Starter(Starter const& other,
+          not_null<typename FixedStepSizeIntegrator<ODE>::Instance*> instance);
+
+  Starter(Starter const&) = delete;
+  Starter(Starter&&) = delete;
+  Starter& operator=(Starter const&) = delete;
+  Starter& operator=(Starter&&) = delete;
+
   // Performs the startup integration, i.e., computes enough states to either
   // reach `s_final` or to reach a point where `instance.previous_steps_` has
   // `order - 1` elements.  During startup `instance.current_state_` is
diff --git a/integrators/starter_body.hpp b/integrators/starter_body.hpp
index 5540a15..cb045d1 100644
--- a/integrators/starter_body.hpp
+++ b/integrators/starter_body.hpp
@@ -20,6 +20,16 @@ Starter<ODE, Step, steps>::Starter(
       startup_step_divisor_(startup_step_divisor),
       instance_(instance) {}
 
+template<typename ODE, typename Step, int steps>
+Starter<ODE, Step, steps>::Starter(
+    Starter const& other,
+    not_null<typename FixedStepSizeIntegrator<ODE>::Instance*> const instance)
+    : startup_integrator_(other.startup_integrator_),
+      startup_step_divisor_(other.startup_step_divisor_),
+      instance_(instance),
+      startup_step_index_(other.startup_step_index_),
+      previous_steps_(other.previous_steps_) {}
+
 template<typename ODE, typename Step, int steps>
 absl::Status Starter<ODE, Step, steps>::Solve(
     typename ODE::IndependentVariable const& s_final) {
diff --git a/integrators/symmetric_linear_multistep_integrator.hpp b/integrators/symmetric_linear_multistep_integrator.hpp
index dac4ebf..7d6c649 100644
--- a/integrators/symmetric_linear_multistep_integrator.hpp
+++ b/integrators/symmetric_linear_multistep_integrator.hpp
@@ -102,6 +102,9 @@ class SymmetricLinearMultistepIntegrator
              Time const& step,
              SymmetricLinearMultistepIntegrator const& integrator);
 
+    // The starter of the copy must not refer to the `other` instance.
+    Instance(Instance const& other);
+
     // Performs the velocity computation using the Cohen-Hubbard-Oesterwinter
     // method based on the accelerations computed by the main integrator.
     void ComputeVelocityUsingCohenHubbardOesterwinter();
diff --git a/integrators/symmetric_linear_multistep_integrator_body.hpp b/integrators/symmetric_linear_multistep_integrator_body.hpp
index e4ba2ba..94619a5 100644
--- a/integrators/symmetric_linear_multistep_integrator_body.hpp
+++ b/integrators/symmetric_linear_multistep_integrator_body.hpp
@@ -278,6 +278,13 @@ SymmetricLinearMultistepIntegrator<Method, ODE_>::Instance::Instance(
       starter_(integrator.startup_integrator_, startup_step_divisor, this),
       integrator_(integrator) {}
 
+template<typename Method, typename ODE_>
+SymmetricLinearMultistepIntegrator<Method, ODE_>::Instance::Instance(
+    Instance const& other)
+    : FixedStepSizeIntegrator<ODE>::Instance(other),
+      starter_(other.starter_, this),
+      integrator_(other.integrator_) {}
+
 template<typename Method, typename ODE_>
 void SymmetricLinearMultistepIntegrator<Method, ODE_>::
 Instance::ComputeVelocityUsingCohenHubbardOesterwinter() {
-- 
2.43.0


From cc3c0cd2605ffbf9e0c9b3c98f845b1a38f59dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:53 +0000
Subject: [PATCH 29/41] fix: Detect the overshoot of inexact adaptive
 integrations in both directions, backward ones stopped at once or ran away

---
 ...eralized_runge_kutta_nystr\303\266m_integrator_body.hpp" | 6 +++++-
 .../embedded_explicit_runge_kutta_integrator_body.hpp       | 6 +++++-
 ...explicit_runge_kutta_nystr\303\266m_integrator_body.hpp" | 6 +++++-
 3 files changed, 15 insertions(+), 3 deletions(-)

diff --git "a/integrators/embedded_explicit_generalized_runge_kutta_nystr\303\266m_integrator_body.hpp" "b/integrators/embedded_explicit_generalized_runge_kutta_nystr\303\266m_integrator_body.hpp"
index b06962d..5cd3598 100644
--- "a/integrators/embedded_explicit_generalized_runge_kutta_nystr\303\266m_integrator_body.hpp"
+++ "b/integrators/embedded_explicit_generalized_runge_kutta_nystr\303\266m_integrator_body.hpp"
@@ -229,7 +229,11 @@ absl::Status EmbeddedExplicitGeneralizedRungeKuttaNyströmIntegrator<
 
     status.Update(step_status);
 
-    if (!parameters.last_step_is_exact && t.value + (t.error + h) > t_final) {
+    auto const t_next = t.value + (t.error + h);
+    bool const overshoots = integration_direction.is_positive()
+                                ? t_next > t_final
+                                : t_next < t_final;
+    if (!parameters.last_step_is_exact && overshoots) {
       // We did overshoot.  Drop the point that we just computed and exit.
       final_state = current_state;
       break;
diff --git a/integrators/embedded_explicit_runge_kutta_integrator_body.hpp b/integrators/embedded_explicit_runge_kutta_integrator_body.hpp
index 1b531f3..6354755 100644
--- a/integrators/embedded_explicit_runge_kutta_integrator_body.hpp
+++ b/integrators/embedded_explicit_runge_kutta_integrator_body.hpp
@@ -227,7 +227,11 @@ Solve(typename ODE::IndependentVariable const& s_final) {
 
     status.Update(step_status);
 
-    if (!parameters.last_step_is_exact && s.value + (s.error + h) > s_final) {
+    auto const s_next = s.value + (s.error + h);
+    bool const overshoots = integration_direction.is_positive()
+                                ? s_next > s_final
+                                : s_next < s_final;
+    if (!parameters.last_step_is_exact && overshoots) {
       // We did overshoot.  Drop the point that we just computed and exit.
       final_state = current_state;
       break;
diff --git "a/integrators/embedded_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp" "b/integrators/embedded_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp"
index 05b85a1..23ae49c 100644
--- "a/integrators/embedded_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp"
+++ "b/integrators/embedded_explicit_runge_kutta_nystr\303\266m_integrator_body.hpp"
@@ -221,7 +221,11 @@ Instance::Solve(Instant const& t_final) {
 
     status.Update(step_status);
 
-    if (!parameters.last_step_is_exact && t.value + (t.error + h) > t_final) {
+    auto const t_next = t.value + (t.error + h);
+    bool const overshoots = integration_direction.is_positive()
+                                ? t_next > t_final
+                                : t_next < t_final;
+    if (!parameters.last_step_is_exact && overshoots) {
       // We did overshoot.  Drop the point that we just computed and exit.
       final_state = current_state;
       break;
-- 
2.43.0


From 079b506792044a8d9231ec6c922d5fe7e2ac5dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:30 +0000
Subject: [PATCH 30/41] fix: R3Element::ToSpherical loses the latitude near the
 poles

---
 geometry/r3_element_body.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/geometry/r3_element_body.hpp b/geometry/r3_element_body.hpp
index 1ea0ef0..112cf84 100644
--- a/geometry/r3_element_body.hpp
+++ b/geometry/r3_element_body.hpp
@@ -176,7 +176,8 @@ template<typename Scalar>
 SphericalCoordinates<Scalar> R3Element<Scalar>::ToSpherical() const {
   SphericalCoordinates<Scalar> result;
   result.radius = Norm();
-  result.latitude = ArcSin(z / result.radius);
+  // Not an `ArcSin`, which would be inaccurate near the poles.
+  result.latitude = ArcTan(z, Sqrt(x * x + y * y));
   result.longitude = ArcTan(y, x);
   return result;
 }
-- 
2.43.0


From 7eb6b8c2b9c1d34efc92f03d486c7440c5c04372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:28 +0000
Subject: [PATCH 31/41] fix: Choose the pivots of Solve in the reduced matrix,
 regular matrices were taken for singular or solved inaccurately

---
 numerics/matrix_computations_body.hpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/numerics/matrix_computations_body.hpp b/numerics/matrix_computations_body.hpp
index 0bccc51..08d459b 100644
--- a/numerics/matrix_computations_body.hpp
+++ b/numerics/matrix_computations_body.hpp
@@ -1108,6 +1108,16 @@ Solve(Matrix A, Vector b) {
   // Doolittle's method: write P * A = L * U where P is an implicit permutation
   // that is also applied to b.  See [Hig02], Algorithm 9.2 p. 162.
   for (std::int64_t k = 0; k < A.columns(); ++k) {
+    // Reduce the column k.  The pivot must be chosen among the elements of the
+    // reduced matrix, see [Hig02], p. 163.
+    for (std::int64_t i = k; i < A.rows(); ++i) {
+      auto A_ik = A(i, k);
+      for (std::int64_t j = 0; j < k; ++j) {
+        A_ik -= L(i, j) * U(j, k);
+      }
+      A(i, k) = A_ik;
+    }
+
     // Partial pivoting.
     std::int64_t r = -1;
     Scalar max{};
@@ -1134,7 +1144,8 @@ Solve(Matrix A, Vector b) {
     LOG_IF(WARNING, A(k, k) == Scalar{})
         << A << " does not have a unique LU decomposition";
 
-    for (std::int64_t j = k; j < A.columns(); ++j) {
+    U(k, k) = A(k, k);
+    for (std::int64_t j = k + 1; j < A.columns(); ++j) {
       auto U_kj = A(k, j);
       for (std::int64_t i = 0; i < k; ++i) {
         U_kj -= L(k, i) * U(i, j);
@@ -1142,11 +1153,7 @@ Solve(Matrix A, Vector b) {
       U(k, j) = U_kj;
     }
     for (std::int64_t i = k + 1; i < A.rows(); ++i) {
-      auto L_ik = A(i, k);
-      for (std::int64_t j = 0; j < k; ++j) {
-        L_ik -= L(i, j) * U(j, k);
-      }
-      L(i, k) = L_ik / U(k, k);
+      L(i, k) = A(i, k) / U(k, k);
     }
     L(k, k) = 1;
   }
-- 
2.43.0


From 7620e69c7d1dbf7dd90274b67543effca4e75bbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:33 +0000
Subject: [PATCH 32/41] fix: Reduce lattices of large integers in a reasonable
 number of steps

---
 numerics/lattices_body.hpp | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/numerics/lattices_body.hpp b/numerics/lattices_body.hpp
index 1e9dc20..5f16ab3 100644
--- a/numerics/lattices_body.hpp
+++ b/numerics/lattices_body.hpp
@@ -3,7 +3,9 @@
 #include "numerics/lattices.hpp"
 
 #include <algorithm>
+#include <cmath>
 #include <limits>
+#include <type_traits>
 #include <utility>
 #include <vector>
 
@@ -384,24 +386,34 @@ void SizeReduce(std::int64_t const κ,
       return;
     }
 
-    std::vector<std::int64_t> X(κ);
+    // If the elements of `b` are unbounded, so must be those of `X`: saturating
+    // would require many iterations to perform one reduction.
+    using Integer = std::conditional_t<boost_cpp_int<typename Matrix::Scalar>,
+                                       cpp_int,
+                                       std::int64_t>;
+    std::vector<Integer> X(κ);
     bool making_progress = false;
     for (std::int64_t i = κ - 1; i >= 0; --i) {
-      // Step 4.  A large `double` value may overflow `int64_t`, and cause
-      // `llround` to return junk.  To avoid this, we make the conversion
-      // saturating and trust that the reduction will iterate.
       double const μ_iκ = μ(i, κ);
-      if (μ_iκ > largest_convertible_integer) {
-        X[i] = largest_convertible_integer;
-      } else if (μ_iκ < -largest_convertible_integer) {
-        X[i] = -largest_convertible_integer;
+      if constexpr (boost_cpp_int<typename Matrix::Scalar>) {
+        // Step 4.
+        X[i] = static_cast<Integer>(std::round(μ_iκ));
       } else {
-        X[i] = std::llround(μ_iκ);
+        // Step 4.  A large `double` value may overflow `int64_t`, and cause
+        // `llround` to return junk.  To avoid this, we make the conversion
+        // saturating and trust that the reduction will iterate.
+        if (μ_iκ > largest_convertible_integer) {
+          X[i] = largest_convertible_integer;
+        } else if (μ_iκ < -largest_convertible_integer) {
+          X[i] = -largest_convertible_integer;
+        } else {
+          X[i] = std::llround(μ_iκ);
+        }
       }
       making_progress |= X[i] != 0;
       // Step 5.
       for (std::int64_t j = 0; j <= i - 1; ++j) {
-        μ(j, κ) -= X[i] * μ(j, i);
+        μ(j, κ) -= static_cast<double>(X[i]) * μ(j, i);
       }
     }
     CHECK(making_progress) << b;
-- 
2.43.0


From 2ef73c8cd927671b0799b0986c0603a5b59bc8a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:04:33 +0000
Subject: [PATCH 33/41] fix: RayleighQuotientIteration fails when it hits an
 eigenvalue exactly

---
 numerics/matrix_computations_body.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/numerics/matrix_computations_body.hpp b/numerics/matrix_computations_body.hpp
index 08d459b..296adb3 100644
--- a/numerics/matrix_computations_body.hpp
+++ b/numerics/matrix_computations_body.hpp
@@ -17,6 +17,7 @@
 #include "numerics/transposed_view.hpp"
 #include "numerics/unbounded_arrays.hpp"
 #include "quantities/named_quantities.hpp"
+#include "quantities/quantities.hpp"
 #include "quantities/si.hpp"
 
 namespace principia {
@@ -34,6 +35,7 @@ using namespace principia::numerics::_root_finders;
 using namespace principia::numerics::_transposed_view;
 using namespace principia::numerics::_unbounded_arrays;
 using namespace principia::quantities::_named_quantities;
+using namespace principia::quantities::_quantities;
 using namespace principia::quantities::_si;
 
 // As mentioned in [GV13] section 5.1.4, "It is critical to exploit structure
@@ -1087,7 +1089,16 @@ RayleighQuotientIteration(Matrix const& A, Vector const& x) {
                        si::Unit<decltype(residual)>) {
       return result;
     }
-    auto const zₖ₊₁ = Solve(A_minus_μₖ_I, xₖ);
+    auto zₖ₊₁ = Solve(A_minus_μₖ_I, xₖ);
+    if (!IsFinite(zₖ₊₁.Norm())) {
+      // The eigenvalue is so good that the matrix is singular (but the
+      // eigenvector may not be good yet).  Move the eigenvalue a bit.
+      for (std::int64_t i = 0; i < A.rows(); ++i) {
+        A_minus_μₖ_I(i, i) +=
+            std::numeric_limits<double>::epsilon() * A.FrobeniusNorm();
+      }
+      zₖ₊₁ = Solve(A_minus_μₖ_I, xₖ);
+    }
     xₖ = zₖ₊₁ / zₖ₊₁.Norm();
   }
   LOG(WARNING) << "Unconverged Rayleigh quotient iteration: " << A;
@@ -1153,7 +1164,8 @@ Solve(Matrix A, Vector b) {
       U(k, j) = U_kj;
     }
     for (std::int64_t i = k + 1; i < A.rows(); ++i) {
-      L(i, k) = A(i, k) / U(k, k);
+      // If the pivot is zero, so are all the elements below it.
+      L(i, k) = U(k, k) == Scalar{} ? 0 : A(i, k) / U(k, k);
     }
     L(k, k) = 1;
   }
-- 
2.43.0


From f2825fa1283e464d33129c924f448c9dcda816c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:30:42 +0000
Subject: [PATCH 34/41] fix: Stop the line search of
 BroydenFletcherGoldfarbShanno beyond the radius, it never ended for functions
 that decrease forever

---
 numerics/gradient_descent_body.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/numerics/gradient_descent_body.hpp b/numerics/gradient_descent_body.hpp
index 9fe76a4..5aa2c21 100644
--- a/numerics/gradient_descent_body.hpp
+++ b/numerics/gradient_descent_body.hpp
@@ -191,6 +191,7 @@ double LineSearch(
     Gradient<Scalar, Argument> const& grad_f_x,
     Field<Scalar, Argument> const& f,
     GateauxDerivative<Scalar, Argument> const& gateaux_derivative_f,
+    NormType<Difference<Argument>> const& radius,
     bool& satisfies_strong_wolfe_condition) {
   auto const ϕ_0 = f(x);
   auto const ϕʹ_0 = InnerProduct(grad_f_x, p);
@@ -224,6 +225,13 @@ double LineSearch(
                   satisfies_strong_wolfe_condition);
     }
 
+    // Since `x` is within `radius` of the start of the descent, we are now
+    // outside of that ball.  The function may be decreasing forever, so there
+    // is no point in going further: the caller will report `NoMinimum`.
+    if (αᵢ * p.Norm() > 2 * radius) {
+      return αᵢ;
+    }
+
     // We don't have a maximum value of α so we blindly increase it until the
     // conditions are met.
     αᵢ *= α_multiplier;
@@ -281,6 +289,7 @@ absl::StatusOr<Argument> BroydenFletcherGoldfarbShanno(
       -Normalize(grad_f_x₀) * first_step.value_or(tolerance);
 
   double const α₀ = LineSearch(x₀, p₀, grad_f_x₀, f, gateaux_derivative_f,
+                               radius,
                                satisfies_strong_wolfe_condition);
   auto const x₁ = x₀+ α₀ * p₀;
   if (!satisfies_strong_wolfe_condition) {
@@ -313,6 +322,7 @@ absl::StatusOr<Argument> BroydenFletcherGoldfarbShanno(
       return xₖ;
     }
     double const αₖ = LineSearch(xₖ, pₖ, grad_f_xₖ, f, gateaux_derivative_f,
+                                 radius,
                                  satisfies_strong_wolfe_condition);
     auto const xₖ₊₁ = xₖ + αₖ * pₖ;
     auto const grad_f_xₖ₊₁ = grad_f(xₖ₊₁);
@@ -324,7 +334,7 @@ absl::StatusOr<Argument> BroydenFletcherGoldfarbShanno(
     if (!satisfies_strong_wolfe_condition) {
       LOG(INFO) << "Doesn't satisfy the strong Wolfe condition at: " << xₖ₊₁;
       return xₖ₊₁;
-    } else if (sₖyₖ == Scalar{}) {  // NOLINT
+    } else if (sₖyₖ == Scalar{} && (xₖ₊₁ - x₀).Norm() <= radius) {  // NOLINT
       LOG(INFO) << "No progress at: " << xₖ₊₁
               << " (s: " << sₖ << ", y: " << yₖ << ")";
       return xₖ₊₁;
-- 
2.43.0


From e5d06333908650866f3564a3a101cb281c39ba73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:15 +0000
Subject: [PATCH 35/41] fix: Keep the sign of the hyperbolic mean anomaly in
 KeplerOrbit, inbound hyperbolic orbits were turned into outbound ones

---
 physics/kepler_orbit_body.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/physics/kepler_orbit_body.hpp b/physics/kepler_orbit_body.hpp
index 7e9e3c8..0c9296d 100644
--- a/physics/kepler_orbit_body.hpp
+++ b/physics/kepler_orbit_body.hpp
@@ -607,7 +607,8 @@ void KeplerOrbit<Frame>::CompleteAnomalies(KeplerianElements<Frame>& elements) {
     mean_anomaly =
         positive_angle(eccentric_anomaly - e * Sin(eccentric_anomaly) * Radian);
     Angle const hyperbolic_eccentric_anomaly =
-        ArcCosh((e + cos_ν) / (1 + e * cos_ν));
+        2 * ArcSinh(Sqrt((e - 1) / (1 + e * cos_ν)) *
+                    Sin(ReduceAngle<-π, π>(ν) / 2));
     hyperbolic_mean_anomaly = e * Sinh(hyperbolic_eccentric_anomaly) * Radian -
                               hyperbolic_eccentric_anomaly;
   } else if (mean_anomaly) {
-- 
2.43.0


From 8596a61cf71636d5c2c34f1815d28bf395549a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:15 +0000
Subject: [PATCH 36/41] fix: Bracket the root of the hyperbolic Kepler equation
 properly, it was not bracketed close to the periapsis

---
 physics/kepler_orbit_body.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/physics/kepler_orbit_body.hpp b/physics/kepler_orbit_body.hpp
index 0c9296d..fbd46c8 100644
--- a/physics/kepler_orbit_body.hpp
+++ b/physics/kepler_orbit_body.hpp
@@ -634,10 +634,13 @@ void KeplerOrbit<Frame>::CompleteAnomalies(KeplerianElements<Frame>& elements) {
              (e * Sinh(hyperbolic_eccentric_anomaly) * Radian -
               hyperbolic_eccentric_anomaly);
     };
+    // Since e sinh H - H ≥ (e - 1) sinh H for positive H, the solution is bounded
+    // by the arcsinh of M / (e - 1).  The factor of 2 makes sure that the zero is
+    // properly bracketed irrespective of roundings.
     Angle const hyperbolic_eccentric_anomaly =
         Brent(hyperbolic_kepler_equation,
               0 * Radian,
-              *hyperbolic_mean_anomaly / (e - 1));
+              ArcSinh(2 * *hyperbolic_mean_anomaly / ((e - 1) * Radian)));
     true_anomaly =
         2 * ArcTan(Sqrt(e + 1) * Sinh(hyperbolic_eccentric_anomaly / 2),
                    Sqrt(e - 1) * Cosh(hyperbolic_eccentric_anomaly / 2));
-- 
2.43.0


From 20051aaf8a685e8759e3c5d5a5dc52128342d6a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:15 +0000
Subject: [PATCH 37/41] fix: Do not lose the periapsis of exactly equatorial
 orbits in KeplerOrbit

---
 physics/kepler_orbit_body.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/physics/kepler_orbit_body.hpp b/physics/kepler_orbit_body.hpp
index fbd46c8..5230afa 100644
--- a/physics/kepler_orbit_body.hpp
+++ b/physics/kepler_orbit_body.hpp
@@ -163,7 +163,11 @@ KeplerOrbit<Frame>::KeplerOrbit(
   Vector<double, Frame> const eccentricity_vector =
       v * h / (μ * Radian) - Normalize(r);
   auto const& periapsis = eccentricity_vector;
-  Vector<SpecificAngularMomentum, Frame> const ascending_node = z * h;
+  // If the orbit is equatorial there is no ascending node, we choose the x axis
+  // so that Ω is 0.
+  Vector<SpecificAngularMomentum, Frame> const z_h = z * h;
+  Vector<SpecificAngularMomentum, Frame> const ascending_node =
+      z_h == Vector<SpecificAngularMomentum, Frame>{} ? x * h.Norm() : z_h;
 
   // Inclination (above the xy plane).
   Angle const i = AngleBetween(x_wedge_y, h);
-- 
2.43.0


From 326ce16cb9d9d5280322daa4282af45242676539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:54:15 +0000
Subject: [PATCH 38/41] fix: Make the true anomaly consistent with the argument
 of periapsis for circular orbits in KeplerOrbit

---
 physics/kepler_orbit_body.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/physics/kepler_orbit_body.hpp b/physics/kepler_orbit_body.hpp
index 5230afa..3fa88d1 100644
--- a/physics/kepler_orbit_body.hpp
+++ b/physics/kepler_orbit_body.hpp
@@ -179,8 +179,13 @@ KeplerOrbit<Frame>::KeplerOrbit(
   // since `ascending_node` lies in the xy plane.
   Angle const Ω = ReduceAngle<0.0, 2 * π>(
       ArcTan(ascending_node.coordinates().y, ascending_node.coordinates().x));
-  Angle const true_anomaly =
-      ReduceAngle<0.0, 2 * π>(OrientedAngleBetween(periapsis, r, h));
+  // If the orbit is circular to within rounding, the error on the
+  // `eccentricity_vector` may take it out of the orbital plane.  The argument of
+  // latitude remains well-defined.
+  Angle const true_anomaly = ReduceAngle<0.0, 2 * π>(
+      eccentricity_vector.Norm() < 0x1p-26
+          ? OrientedAngleBetween(ascending_node, r, h) - ω
+          : OrientedAngleBetween(periapsis, r, h));
 
   SpecificEnergy const ε = v.Norm²() / 2 - μ / r.Norm();
   double const e = eccentricity_vector.Norm();
-- 
2.43.0


From b42100dcd8c808f9a86c6678bba5afe5535dad1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:06 +0000
Subject: [PATCH 39/41] fix: Negative leaps of UTC only affect the last second
 of the day

---
 astronomy/time_scales_body.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/astronomy/time_scales_body.hpp b/astronomy/time_scales_body.hpp
index f07ac4c..727f332 100644
--- a/astronomy/time_scales_body.hpp
+++ b/astronomy/time_scales_body.hpp
@@ -218,6 +218,7 @@ constexpr bool IsValidStretchyUTCIfOnDayOfNegativeLeap(DateTime const& utc,
   return utc.date().next_day() != next_day ||
          utc.time().hour() < 23 ||
          utc.time().minute() < 59 ||
+         utc.time().second() < 59 ||
          utc.time().millisecond() < 1000 - milliseconds;
 }
 
-- 
2.43.0


From 0e191ecee115999e3fa2f4f60fb2c1f0db8d38c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:07:06 +0000
Subject: [PATCH 40/41] fix: Support negative years in ordinal dates

---
 astronomy/date_time_body.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/astronomy/date_time_body.hpp b/astronomy/date_time_body.hpp
index 0bbb525..56354a6 100644
--- a/astronomy/date_time_body.hpp
+++ b/astronomy/date_time_body.hpp
@@ -112,10 +112,11 @@ constexpr Date Date::YYYYMMDD(
 constexpr Date Date::YYYYDDD(
     std::int64_t const digits,
     std::optional<_date_time::Calendar> const calendar) {
+  auto const abs_digits = digits < 0 ? -digits : digits;
   auto const sign = digits < 0 ? -1 : 1;
-  CONSTEXPR_CHECK(digits <= 9999'999);
-  return Date::Ordinal(sign * digit_range(digits, 3, 7),
-                       digit_range(digits, 0, 3),
+  CONSTEXPR_CHECK(abs_digits <= 9999'999);
+  return Date::Ordinal(sign * digit_range(abs_digits, 3, 7),
+                       digit_range(abs_digits, 0, 3),
                        calendar);
 }
 
-- 
2.43.0


From 379dfe0ac2786c1ed158468ed2cde0ee7a282a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:10:36 +0000
Subject: [PATCH 41/41] fix: Compute the Julian dates of proleptic Gregorian
 dates with negative years

---
 astronomy/date_time_body.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/astronomy/date_time_body.hpp b/astronomy/date_time_body.hpp
index 56354a6..800036b 100644
--- a/astronomy/date_time_body.hpp
+++ b/astronomy/date_time_body.hpp
@@ -228,8 +228,10 @@ constexpr double Date::jd() const {
   if (calendar_ == Calendar::Julian) {
      B = 0;
   } else {
-    double const A = static_cast<std::int64_t>(Y / 100);
-    B = 2 - A + static_cast<std::int64_t>(A / 4);
+    // These divisions must be floored: the year may be negative.
+    int const y = Y;
+    int const A = (y - mod(y, 100)) / 100;
+    B = 2 - A + (A - mod(A, 4)) / 4;
   }
   return static_cast<std::int64_t>(365.25 * (Y + 4716)) +
          static_cast<std::int64_t>(30.6001 * (M + 1)) + D + B - 1524.5;
-- 
2.43.0

