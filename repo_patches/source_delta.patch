From 1a16dde5a7ab0748fd315837afa6975c7d0d650c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:20 +0000
Subject: [PATCH 01/82] fix: ring buffers: make operator[], at() and data()
 usable

---
 include/edsp/types/fixed_ring_buffer.hpp | 17 ++++++++++++-----
 include/edsp/types/ring_buffer.hpp       | 17 ++++++++++++-----
 2 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/include/edsp/types/fixed_ring_buffer.hpp b/include/edsp/types/fixed_ring_buffer.hpp
index 726b8c1..d123a49 100644
--- a/include/edsp/types/fixed_ring_buffer.hpp
+++ b/include/edsp/types/fixed_ring_buffer.hpp
@@ -26,6 +26,7 @@
 #include <edsp/meta/unused.hpp>
 #include <edsp/types/ring_span.hpp>
 #include <array>
+#include <stdexcept>
 
 namespace edsp { inline namespace types {
 
@@ -266,7 +267,7 @@ namespace edsp { inline namespace types {
          *  see at().)
          */
         reference operator[](std::size_t i) {
-            return ring_[i];
+            return *(begin() + static_cast<int>(i));
         }
 
         /**
@@ -281,7 +282,7 @@ namespace edsp { inline namespace types {
          *  see at().)
          */
         const_reference operator[](std::size_t i) const {
-            return ring_[i];
+            return *(begin() + static_cast<int>(i));
         }
 
         /**
@@ -296,7 +297,10 @@ namespace edsp { inline namespace types {
          *  function throws out_of_range if the check fails.
          */
         reference at(std::size_t i) {
-            return ring_.at(i);
+            if (i >= size()) {
+                throw std::out_of_range("edsp::fixed_ring_buffer::at");
+            }
+            return (*this)[i];
         }
 
         /**
@@ -311,7 +315,10 @@ namespace edsp { inline namespace types {
          *  function throws out_of_range if the check fails.
          */
         const_reference at(std::size_t i) const {
-            return ring_.at(i);
+            if (i >= size()) {
+                throw std::out_of_range("edsp::fixed_ring_buffer::at");
+            }
+            return (*this)[i];
         }
 
         /**
@@ -426,7 +433,7 @@ namespace edsp { inline namespace types {
          * @brief Returns a const pointer to the underlying data of the internal buffer
          * @return Array holding the internal data.
          */
-        const_pointer* data() const {
+        const value_type* data() const {
             return buffer_.data();
         }
 
diff --git a/include/edsp/types/ring_buffer.hpp b/include/edsp/types/ring_buffer.hpp
index f3e6da6..4a65366 100644
--- a/include/edsp/types/ring_buffer.hpp
+++ b/include/edsp/types/ring_buffer.hpp
@@ -28,6 +28,7 @@
 
 #include <edsp/meta/unused.hpp>
 #include <edsp/types/ring_span.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace edsp { inline namespace types {
@@ -304,7 +305,7 @@ namespace edsp { inline namespace types {
          *  see at().)
          */
         reference operator[](std::size_t i) {
-            return ring_[i];
+            return *(begin() + static_cast<int>(i));
         }
 
         /**
@@ -319,7 +320,7 @@ namespace edsp { inline namespace types {
          *  see at().)
          */
         const_reference operator[](std::size_t i) const {
-            return ring_[i];
+            return *(begin() + static_cast<int>(i));
         }
 
         /**
@@ -334,7 +335,10 @@ namespace edsp { inline namespace types {
          *  function throws out_of_range if the check fails.
          */
         reference at(std::size_t i) {
-            return ring_.at(i);
+            if (i >= size()) {
+                throw std::out_of_range("edsp::ring_buffer::at");
+            }
+            return (*this)[i];
         }
 
         /**
@@ -349,7 +353,10 @@ namespace edsp { inline namespace types {
          *  function throws out_of_range if the check fails.
          */
         const_reference at(std::size_t i) const {
-            return ring_.at(i);
+            if (i >= size()) {
+                throw std::out_of_range("edsp::ring_buffer::at");
+            }
+            return (*this)[i];
         }
 
         /**
@@ -463,7 +470,7 @@ namespace edsp { inline namespace types {
          * @brief Returns a const pointer to the underlying data of the internal buffer
          * @return Array holding the internal data.
          */
-        const_pointer* data() const {
+        const value_type* data() const {
             return buffer_.data();
         }
 
-- 
2.43.0


From 261e44804773679e7bba19238a56fb6808023078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:20 +0000
Subject: [PATCH 02/82] fix: fixed_ring_buffer: a moved buffer keeps using its
 own storage

---
 include/edsp/types/fixed_ring_buffer.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/edsp/types/fixed_ring_buffer.hpp b/include/edsp/types/fixed_ring_buffer.hpp
index d123a49..5cee0c4 100644
--- a/include/edsp/types/fixed_ring_buffer.hpp
+++ b/include/edsp/types/fixed_ring_buffer.hpp
@@ -27,6 +27,7 @@
 #include <edsp/types/ring_span.hpp>
 #include <array>
 #include <stdexcept>
+#include <utility>
 
 namespace edsp { inline namespace types {
 
@@ -61,9 +62,21 @@ namespace edsp { inline namespace types {
 
         fixed_ring_buffer()                             = default;
         fixed_ring_buffer(const fixed_ring_buffer&)     = default;
-        fixed_ring_buffer(fixed_ring_buffer&&) noexcept = default;
+        fixed_ring_buffer(fixed_ring_buffer&& other) noexcept {
+            *this = std::move(other);
+        }
         fixed_ring_buffer& operator=(const fixed_ring_buffer&) = default;
-        fixed_ring_buffer& operator=(fixed_ring_buffer&&) noexcept = default;
+
+        fixed_ring_buffer& operator=(fixed_ring_buffer&& other) noexcept {
+            // the ring refers to the storage of its own object: move the elements, not the view
+            if (this != &other) {
+                clear();
+                for (auto& item : other) {
+                    ring_.push_back(std::move(item));
+                }
+            }
+            return *this;
+        }
 
         /**
          *  @brief Default destructor.
-- 
2.43.0


From 1dc13f5e5217a3f114a2ef921ff53522725a1c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:20 +0000
Subject: [PATCH 03/82] fix: moving filters: reset() and resize() restore the
 state of a new filter

---
 include/edsp/filter/moving_average_filter.hpp | 6 ++++--
 include/edsp/filter/moving_median_filter.hpp  | 4 ++--
 include/edsp/filter/moving_rms_filter.hpp     | 6 ++++--
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/edsp/filter/moving_average_filter.hpp b/include/edsp/filter/moving_average_filter.hpp
index 1df4456..0371d16 100644
--- a/include/edsp/filter/moving_average_filter.hpp
+++ b/include/edsp/filter/moving_average_filter.hpp
@@ -105,7 +105,8 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_average<T, Allocator>::reset() {
-        window_.clear();
+        window_ = edsp::ring_buffer<T, Allocator>(window_.capacity(), T());
+        accumulated_ = T();
     }
 
     template <typename T, typename Allocator>
@@ -116,7 +117,8 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_average<T, Allocator>::resize(size_type N) {
-        window_.resize(N);
+        window_ = edsp::ring_buffer<T, Allocator>(N, T());
+        accumulated_ = T();
     }
 
     template <typename T, typename Allocator>
diff --git a/include/edsp/filter/moving_median_filter.hpp b/include/edsp/filter/moving_median_filter.hpp
index a8251b7..70965f5 100644
--- a/include/edsp/filter/moving_median_filter.hpp
+++ b/include/edsp/filter/moving_median_filter.hpp
@@ -100,7 +100,7 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_median<T, Allocator>::reset() {
-        window_.clear();
+        window_ = edsp::ring_buffer<T, Allocator>(window_.capacity(), T());
     }
 
     template <typename T, typename Allocator>
@@ -111,7 +111,7 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_median<T, Allocator>::resize(size_type N) {
-        window_.resize(N);
+        window_ = edsp::ring_buffer<T, Allocator>(N, T());
     }
 
     template <typename T, typename Allocator>
diff --git a/include/edsp/filter/moving_rms_filter.hpp b/include/edsp/filter/moving_rms_filter.hpp
index 92dde0f..707a0c4 100644
--- a/include/edsp/filter/moving_rms_filter.hpp
+++ b/include/edsp/filter/moving_rms_filter.hpp
@@ -106,7 +106,8 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_rms<T, Allocator>::reset() {
-        window_.clear();
+        window_ = edsp::ring_buffer<T, Allocator>(window_.capacity(), T());
+        accumulated_ = T();
     }
 
     template <typename T, typename Allocator>
@@ -117,7 +118,8 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_rms<T, Allocator>::resize(size_type N) {
-        window_.resize(N);
+        window_ = edsp::ring_buffer<T, Allocator>(N, T());
+        accumulated_ = T();
     }
 
     template <typename T, typename Allocator>
-- 
2.43.0


From 2987ff86d9be3df0bba86a93b17d8e2f701a3c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:20 +0000
Subject: [PATCH 04/82] fix: median: compute the median instead of returning
 zero

---
 include/edsp/statistics/median.hpp | 30 +++++++++++++++++++++++-------
 1 file changed, 23 insertions(+), 7 deletions(-)

diff --git a/include/edsp/statistics/median.hpp b/include/edsp/statistics/median.hpp
index 2da6ad5..9b5186f 100644
--- a/include/edsp/statistics/median.hpp
+++ b/include/edsp/statistics/median.hpp
@@ -23,9 +23,7 @@
 #define EDSP_STATISTICAL_MEDIANT_HPP
 
 #include <edsp/meta/iterator.hpp>
-#include <edsp/meta/unused.hpp>
-#include <algorithm>
-#include <numeric>
+#include <cstddef>
 
 namespace edsp { namespace statistics {
 
@@ -42,10 +40,28 @@ namespace edsp { namespace statistics {
      */
     template <typename ForwardIt>
     constexpr meta::value_type_t<ForwardIt> median(ForwardIt first, ForwardIt last) {
-        // TODO: implement the median: do not use sorting algorithm.
-        meta::unused(first);
-        meta::unused(last);
-        return 0;
+        using value_type = meta::value_type_t<ForwardIt>;
+        std::size_t size = 0;
+        for (auto it = first; it != last; ++it) {
+            ++size;
+        }
+        // an element is the k-th smallest one when at most k elements are smaller and more than k are not greater
+        const auto lower = (size > 0 ? (size - 1) / 2 : 0), upper = size / 2;
+        value_type low{}, high{};
+        for (auto it = first; it != last; ++it) {
+            std::size_t smaller = 0, not_greater = 0;
+            for (auto other = first; other != last; ++other) {
+                smaller += (*other < *it) ? 1 : 0;
+                not_greater += (*it < *other) ? 0 : 1;
+            }
+            if (smaller <= lower && lower < not_greater) {
+                low = *it;
+            }
+            if (smaller <= upper && upper < not_greater) {
+                high = *it;
+            }
+        }
+        return lower == upper ? low : (low + high) / static_cast<value_type>(2);
     }
 
 }} // namespace edsp::statistics
-- 
2.43.0


From 67760d88e3bc6f5f6b1e682ce0d9987286de289f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:51:01 +0000
Subject: [PATCH 05/82] fix: biquad: take a0 into account after set_a0()

---
 include/edsp/filter/biquad.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/edsp/filter/biquad.hpp b/include/edsp/filter/biquad.hpp
index 52b5be2..07e7e10 100644
--- a/include/edsp/filter/biquad.hpp
+++ b/include/edsp/filter/biquad.hpp
@@ -275,7 +275,8 @@ namespace edsp { namespace filter {
 
     template <typename T>
     constexpr bool biquad<T>::stability() const noexcept {
-        return std::abs(a2_) < 1 && (std::abs(a1_) < (1 + a2_));
+        const auto a1 = a1_ / a0_, a2 = a2_ / a0_;
+        return std::abs(a2) < 1 && (std::abs(a1) < (1 + a2));
     }
 
     template <typename T>
@@ -324,7 +325,7 @@ namespace edsp { namespace filter {
 
     template <typename T>
     constexpr typename biquad<T>::value_type biquad<T>::tick(const value_type value) noexcept {
-        const auto out = b0_ * value + w0_;
+        const auto out = (b0_ * value + w0_) / a0_;
         w0_            = b1_ * value - a1_ * out + w1_;
         w1_            = b2_ * value - a2_ * out;
         return out;
-- 
2.43.0


From 95cd7d4a3f0f2ec1eb55ccf6e463edde3439db89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:03 +0000
Subject: [PATCH 06/82] fix: Zoelzer shelving filters: a negative gain is a cut

---
 include/edsp/filter/internal/zoelzer_designer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/edsp/filter/internal/zoelzer_designer.hpp b/include/edsp/filter/internal/zoelzer_designer.hpp
index acaab1d..3fd9a26 100644
--- a/include/edsp/filter/internal/zoelzer_designer.hpp
+++ b/include/edsp/filter/internal/zoelzer_designer.hpp
@@ -82,7 +82,7 @@ namespace edsp { namespace filter {
     struct ZoelzerFilterDesigner<T, filter_type::LowShelf> {
         constexpr biquad<T> operator()(T fc, T sample_rate, T Q, T gain_db = 1) const {
             meta::unused(Q);
-            const auto V = db2mag(gain_db);
+            const auto V = db2mag(std::abs(gain_db));
             const auto K = std::tan(constants<T>::pi * fc / sample_rate);
             if (gain_db >= 0) { // boost
                 const auto norm = 1 / (1 + constants<T>::root_two * K + K * K);
@@ -108,7 +108,7 @@ namespace edsp { namespace filter {
     struct ZoelzerFilterDesigner<T, filter_type::HighShelf> {
         constexpr biquad<T> operator()(T fc, T sample_rate, T Q, T gain_db = 1) const {
             meta::unused(Q);
-            const auto V = db2mag(gain_db);
+            const auto V = db2mag(std::abs(gain_db));
             const auto K = std::tan(constants<T>::pi * fc / sample_rate);
             if (gain_db >= 0) { // boost
                 const auto norm = 1 / (1 + constants<T>::root_two * K + K * K);
@@ -125,7 +125,7 @@ namespace edsp { namespace filter {
                 const auto b2   = (1 - constants<T>::root_two * K + K * K) * norm;
                 const auto a1   = 2 * (K * K - V) * norm;
                 const auto a2   = (V - std::sqrt(2 * V) * K + K * K) * norm;
-                return biquad<T>(b0, b1, b2, a1, a1, a2);
+                return biquad<T>(1, a1, a2, b0, b1, b2);
             }
         }
     };
-- 
2.43.0


From 56ed2e531e6b06b4814e8ade8b94d9765a81a968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:27 +0000
Subject: [PATCH 07/82] fix: band pass designs: unit gain at the geometric
 centre of the band

---
 include/edsp/filter/internal/bilinear/bandpass_transformer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/filter/internal/bilinear/bandpass_transformer.hpp b/include/edsp/filter/internal/bilinear/bandpass_transformer.hpp
index 79d29d0..849d642 100644
--- a/include/edsp/filter/internal/bilinear/bandpass_transformer.hpp
+++ b/include/edsp/filter/internal/bilinear/bandpass_transformer.hpp
@@ -76,7 +76,7 @@ namespace edsp { namespace filter {
             }
 
             const auto wn = analog.w();
-            digital.set_w(2 * std::atan(std::sqrt(std::tan((wc + wn) * 0.5) + std::tan((wc2 + wn) * 0.5))));
+            digital.set_w(2 * std::atan(std::sqrt(std::tan((wc + wn) * 0.5) * std::tan((wc2 + wn) * 0.5))));
             digital.set_gain(analog.gain());
         }
 
-- 
2.43.0


From d233866d850a770d4fe300d15632214c27804861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:20:27 +0000
Subject: [PATCH 08/82] fix: band stop designs: reject the requested bandwidth

---
 include/edsp/filter/internal/bilinear/bandstop_transformer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/filter/internal/bilinear/bandstop_transformer.hpp b/include/edsp/filter/internal/bilinear/bandstop_transformer.hpp
index 909fc0d..3cddf91 100644
--- a/include/edsp/filter/internal/bilinear/bandstop_transformer.hpp
+++ b/include/edsp/filter/internal/bilinear/bandstop_transformer.hpp
@@ -47,7 +47,7 @@ namespace edsp { namespace filter {
                 wc = constants<T>::pi - 1e-8;
 
             a  = std::cos((wc + wc2) * 0.5) / std::cos((wc - wc2) * 0.5);
-            b  = math::inv(std::tan((wc - wc2) * 0.5));
+            b  = std::tan((wc - wc2) * 0.5);
             a2 = a * a;
             b2 = b * b;
         }
-- 
2.43.0


From b2c3f98299f8646be5fd59e567c0bea85524d3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:22 +0000
Subject: [PATCH 09/82] fix: square oscillator: the duty is the part of the
 period at +1, also after set_frequency()

---
 include/edsp/oscillators/sinusoidal.hpp | 3 ++-
 include/edsp/oscillators/square.hpp     | 6 +++---
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/edsp/oscillators/sinusoidal.hpp b/include/edsp/oscillators/sinusoidal.hpp
index aa93f17..71b3204 100644
--- a/include/edsp/oscillators/sinusoidal.hpp
+++ b/include/edsp/oscillators/sinusoidal.hpp
@@ -183,7 +183,8 @@ namespace edsp { namespace oscillators {
 
     template <typename T>
     constexpr void oscillator<T>::set_frequency(value_type frequency) noexcept {
-        frequency_ = frequency;
+        frequency_         = frequency;
+        inverse_frequency_ = math::inv(frequency);
     }
 
     template <typename T>
diff --git a/include/edsp/oscillators/square.hpp b/include/edsp/oscillators/square.hpp
index af62169..7a6c9de 100644
--- a/include/edsp/oscillators/square.hpp
+++ b/include/edsp/oscillators/square.hpp
@@ -98,19 +98,19 @@ namespace edsp { namespace oscillators {
     template <typename T>
     constexpr void square_oscillator<T>::set_duty(value_type duty) noexcept {
         meta::expects(duty >= 0 && duty <= 1, "duty must be a real number between 0 and 1.");
-        duty_ = duty * oscillator<T>::inverse_frequency_;
+        duty_ = duty;
     }
 
     template <typename T>
     constexpr typename square_oscillator<T>::value_type square_oscillator<T>::duty() const noexcept {
-        return duty_ * oscillator<T>::frequency_;
+        return duty_;
     }
 
     template <typename T>
     constexpr typename square_oscillator<T>::value_type square_oscillator<T>::operator()() {
         const auto current_t = std::fmod(oscillator<T>::timestamp_, oscillator<T>::inverse_frequency_);
         oscillator<T>::set_timestamp(oscillator<T>::timestamp_ + oscillator<T>::sampling_period_);
-        return (current_t >= duty_ ? 1 : -1) * oscillator<T>::amplitude_;
+        return (current_t < duty_ * oscillator<T>::inverse_frequency_ ? 1 : -1) * oscillator<T>::amplitude_;
     }
 
 }} // namespace edsp::oscillators
-- 
2.43.0


From e8ea72417ef6817edbb74237181e5b82fbfad3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:22 +0000
Subject: [PATCH 10/82] fix: triangular window: same definition for every odd
 length

---
 include/edsp/windowing/triangular.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/windowing/triangular.hpp b/include/edsp/windowing/triangular.hpp
index 415b0af..73d0f79 100644
--- a/include/edsp/windowing/triangular.hpp
+++ b/include/edsp/windowing/triangular.hpp
@@ -45,7 +45,7 @@ namespace edsp { namespace windowing {
         using value_type     = meta::value_type_t<OutputIt>;
         using size_type      = meta::diff_type_t<OutputIt>;
         const auto size      = static_cast<size_type>(std::distance(first, last));
-        const value_type rem = size + std::remainder(size, 2);
+        const value_type rem = size + size % 2;
         value_type initial   = -(size - 1);
         for (size_type i = 0; i < size; ++i, ++first) {
             *first = 1 - std::abs(initial / rem);
-- 
2.43.0


From 21beee352a94ab318a99560b88fa6ab0b0f82f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:22 +0000
Subject: [PATCH 11/82] fix: Welch window: symmetric for even lengths

---
 include/edsp/windowing/welch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/windowing/welch.hpp b/include/edsp/windowing/welch.hpp
index bbc3461..c7d5e14 100644
--- a/include/edsp/windowing/welch.hpp
+++ b/include/edsp/windowing/welch.hpp
@@ -45,7 +45,7 @@ namespace edsp { namespace windowing {
         using value_type   = meta::value_type_t<OutputIt>;
         using size_type    = meta::diff_type_t<OutputIt>;
         const auto size    = static_cast<size_type>(std::distance(first, last));
-        const value_type L = size / 2;
+        const value_type L = static_cast<value_type>(size - 1) / 2;
         for (size_type i = 0; i < size; ++i, ++first) {
             *first = 1 - math::square(static_cast<value_type>(i - L) / L);
         }
-- 
2.43.0


From 994af8d209b67edac8ecd3232c7a0d3ef85f8ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:46:22 +0000
Subject: [PATCH 12/82] fix: windows of one sample are one instead of NaN

---
 include/edsp/windowing/bartlett.hpp         | 4 ++++
 include/edsp/windowing/blackman.hpp         | 4 ++++
 include/edsp/windowing/blackman_harris.hpp  | 4 ++++
 include/edsp/windowing/blackman_nuttall.hpp | 4 ++++
 include/edsp/windowing/flattop.hpp          | 4 ++++
 include/edsp/windowing/hamming.hpp          | 4 ++++
 include/edsp/windowing/hanning.hpp          | 4 ++++
 include/edsp/windowing/welch.hpp            | 4 ++++
 8 files changed, 32 insertions(+)

diff --git a/include/edsp/windowing/bartlett.hpp b/include/edsp/windowing/bartlett.hpp
index d396efa..50ba8d4 100644
--- a/include/edsp/windowing/bartlett.hpp
+++ b/include/edsp/windowing/bartlett.hpp
@@ -37,6 +37,10 @@ namespace edsp { namespace windowing {
         using value_type  = meta::value_type_t<OutputIt>;
         using size_type   = meta::diff_type_t<OutputIt>;
         const auto size   = static_cast<size_type>(std::distance(first, last));
+        if (size == 1) {
+            *first = 1;
+            return;
+        }
         const auto middle = math::is_even(size) ? size / 2 : (size + 1) / 2;
         const auto factor = math::inv(static_cast<value_type>(size - 1));
         for (size_type i = 0; i < middle; ++i, ++first) {
diff --git a/include/edsp/windowing/blackman.hpp b/include/edsp/windowing/blackman.hpp
index 24f8abb..445ebbd 100644
--- a/include/edsp/windowing/blackman.hpp
+++ b/include/edsp/windowing/blackman.hpp
@@ -51,6 +51,10 @@ namespace edsp { namespace windowing {
         constexpr auto a1 = static_cast<value_type>(0.50);
         constexpr auto a2 = static_cast<value_type>(0.08);
         const auto size   = static_cast<size_type>(std::distance(first, last));
+        if (size == 1) {
+            *first = 1;
+            return;
+        }
         const auto factor = constants<value_type>::two_pi / static_cast<value_type>(size - 1);
         for (size_type i = 0; i < size; ++i, ++first) {
             const value_type tmp = factor * i;
diff --git a/include/edsp/windowing/blackman_harris.hpp b/include/edsp/windowing/blackman_harris.hpp
index 0731ea7..df80c21 100644
--- a/include/edsp/windowing/blackman_harris.hpp
+++ b/include/edsp/windowing/blackman_harris.hpp
@@ -51,6 +51,10 @@ namespace edsp { namespace windowing {
         constexpr auto a2 = static_cast<value_type>(0.14128);
         constexpr auto a3 = static_cast<value_type>(0.01168);
         const auto size   = static_cast<size_type>(std::distance(first, last));
+        if (size == 1) {
+            *first = 1;
+            return;
+        }
         const auto factor = math::constants<value_type>::two_pi / static_cast<value_type>(size - 1);
         for (size_type i = 0; i < size; ++i, ++first) {
             const value_type tmp = factor * i;
diff --git a/include/edsp/windowing/blackman_nuttall.hpp b/include/edsp/windowing/blackman_nuttall.hpp
index 21fdab2..8428ec9 100644
--- a/include/edsp/windowing/blackman_nuttall.hpp
+++ b/include/edsp/windowing/blackman_nuttall.hpp
@@ -50,6 +50,10 @@ namespace edsp { namespace windowing {
         constexpr auto a2 = static_cast<value_type>(0.1365995);
         constexpr auto a3 = static_cast<value_type>(0.0106411);
         const auto size   = static_cast<size_type>(std::distance(first, last));
+        if (size == 1) {
+            *first = 1;
+            return;
+        }
         const auto factor = constants<value_type>::two_pi / static_cast<value_type>(size - 1);
         for (size_type i = 0; i < size; ++i, ++first) {
             const value_type tmp = factor * i;
diff --git a/include/edsp/windowing/flattop.hpp b/include/edsp/windowing/flattop.hpp
index b773673..e964234 100644
--- a/include/edsp/windowing/flattop.hpp
+++ b/include/edsp/windowing/flattop.hpp
@@ -52,6 +52,10 @@ namespace edsp { namespace windowing {
         constexpr auto a3 = static_cast<value_type>(0.083578947);
         constexpr auto a4 = static_cast<value_type>(0.006947368);
         const auto size   = static_cast<size_type>(std::distance(first, last));
+        if (size == 1) {
+            *first = 1;
+            return;
+        }
         const auto factor = constants<value_type>::two_pi / static_cast<value_type>(size - 1);
         for (size_type i = 0; i < size; ++i, ++first) {
             const value_type tmp = factor * i;
diff --git a/include/edsp/windowing/hamming.hpp b/include/edsp/windowing/hamming.hpp
index f17fde4..e644e09 100644
--- a/include/edsp/windowing/hamming.hpp
+++ b/include/edsp/windowing/hamming.hpp
@@ -50,6 +50,10 @@ namespace edsp { namespace windowing {
         constexpr auto a0 = static_cast<value_type>(0.54);
         constexpr auto a1 = static_cast<value_type>(0.46);
         const auto size   = static_cast<size_type>(std::distance(first, last));
+        if (size == 1) {
+            *first = 1;
+            return;
+        }
         const auto factor = constants<value_type>::two_pi / static_cast<value_type>(size - 1);
         for (size_type i = 0; i < size; ++i, ++first) {
             const value_type tmp = factor * i;
diff --git a/include/edsp/windowing/hanning.hpp b/include/edsp/windowing/hanning.hpp
index 82c3fa1..e239516 100644
--- a/include/edsp/windowing/hanning.hpp
+++ b/include/edsp/windowing/hanning.hpp
@@ -49,6 +49,10 @@ namespace edsp { namespace windowing {
         constexpr auto a0 = static_cast<value_type>(0.5);
         constexpr auto a1 = static_cast<value_type>(0.5);
         const auto size   = static_cast<size_type>(std::distance(first, last));
+        if (size == 1) {
+            *first = 1;
+            return;
+        }
         const auto factor = constants<value_type>::two_pi / static_cast<value_type>(size - 1);
         for (size_type i = 0; i < size; ++i, ++first) {
             const value_type tmp = factor * i;
diff --git a/include/edsp/windowing/welch.hpp b/include/edsp/windowing/welch.hpp
index c7d5e14..7d94582 100644
--- a/include/edsp/windowing/welch.hpp
+++ b/include/edsp/windowing/welch.hpp
@@ -45,6 +45,10 @@ namespace edsp { namespace windowing {
         using value_type   = meta::value_type_t<OutputIt>;
         using size_type    = meta::diff_type_t<OutputIt>;
         const auto size    = static_cast<size_type>(std::distance(first, last));
+        if (size == 1) {
+            *first = 1;
+            return;
+        }
         const value_type L = static_cast<value_type>(size - 1) / 2;
         for (size_type i = 0; i < size; ++i, ++first) {
             *first = 1 - math::square(static_cast<value_type>(i - L) / L);
-- 
2.43.0


From 3512b04393e798f26960ebf359e33caaeebed723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:38 +0000
Subject: [PATCH 13/82] fix: derivative: callable without naming an unused
 template parameter

---
 include/edsp/algorithm/derivative.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/algorithm/derivative.hpp b/include/edsp/algorithm/derivative.hpp
index fd394f3..eee0a95 100644
--- a/include/edsp/algorithm/derivative.hpp
+++ b/include/edsp/algorithm/derivative.hpp
@@ -42,7 +42,7 @@ namespace edsp { inline namespace algorithm {
          * @param last Forward iterator defining the end of the range to examine.
          * @param d_first Output iterator defining the beginning of the destination range.
          */
-    template <typename InputItr, typename OutputIt, typename Numeric>
+    template <typename InputItr, typename OutputIt, typename Numeric = double>
     constexpr void derivative(InputItr first, InputItr last, OutputIt d_first) {
         std::adjacent_difference(first, last, d_first);
     }
-- 
2.43.0


From 20ac5b611cc4cc97ba3914c38c91c16c9df5a14e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:38 +0000
Subject: [PATCH 14/82] fix: silence: callable without naming an unused
 template parameter

---
 include/edsp/algorithm/silence.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/algorithm/silence.hpp b/include/edsp/algorithm/silence.hpp
index dfccec9..ef72282 100644
--- a/include/edsp/algorithm/silence.hpp
+++ b/include/edsp/algorithm/silence.hpp
@@ -36,7 +36,7 @@ namespace edsp { inline namespace algorithm {
      * @param last Input iterator defining the ending of the input range.
      * @param threshold Threshold .
      */
-    template <typename InputIt, typename OutputIt, typename Numeric>
+    template <typename InputIt, typename OutputIt = InputIt, typename Numeric = double>
     constexpr bool silence(InputIt first, InputIt last, Numeric threshold) {
         return feature::temporal::power(first, last) < threshold;
     }
-- 
2.43.0


From 32381c0f6ff23d302cfd459f34db2389e6c8ad9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:38 +0000
Subject: [PATCH 15/82] fix: peak2peak: difference between the maximum and the
 minimum for every sign

---
 include/edsp/converter/peak2peak.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/converter/peak2peak.hpp b/include/edsp/converter/peak2peak.hpp
index 25b35b0..9f09569 100644
--- a/include/edsp/converter/peak2peak.hpp
+++ b/include/edsp/converter/peak2peak.hpp
@@ -36,7 +36,7 @@ namespace edsp { inline namespace converter {
     template <typename ForwardIt>
     constexpr auto peak2peak(ForwardIt first, ForwardIt last) {
         const auto pair = std::minmax_element(first, last);
-        return std::abs(*pair.second) - std::abs(*pair.first);
+        return *pair.second - *pair.first;
     }
 
 }} // namespace edsp::converter
-- 
2.43.0


From 3bf875c397588c03f38f3ef5bff591f2eeaf52b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:38 +0000
Subject: [PATCH 16/82] fix: rms: sum of squares starts at zero

---
 include/edsp/feature/temporal/rms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/temporal/rms.hpp b/include/edsp/feature/temporal/rms.hpp
index 8249985..ac287f7 100644
--- a/include/edsp/feature/temporal/rms.hpp
+++ b/include/edsp/feature/temporal/rms.hpp
@@ -42,7 +42,7 @@ namespace edsp { namespace feature { inline namespace temporal {
     template <typename ForwardIt>
     constexpr auto rms(ForwardIt first, ForwardIt last) {
         using value_type       = typename std::iterator_traits<ForwardIt>::value_type;
-        const auto accumulated = std::inner_product(first, last, first, static_cast<value_type>(1));
+        const auto accumulated = std::inner_product(first, last, first, static_cast<value_type>(0));
         return std::sqrt(accumulated / static_cast<value_type>(std::distance(first, last)));
     }
 }}} // namespace edsp::feature::temporal
-- 
2.43.0


From 40f0a3bdafd195b678540598a0094484e8f2081e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:58:38 +0000
Subject: [PATCH 17/82] fix: snr: variance of the whole signal

---
 include/edsp/feature/temporal/snr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/temporal/snr.hpp b/include/edsp/feature/temporal/snr.hpp
index 2ec7912..23b3166 100644
--- a/include/edsp/feature/temporal/snr.hpp
+++ b/include/edsp/feature/temporal/snr.hpp
@@ -56,7 +56,7 @@ namespace edsp { namespace feature { inline namespace temporal {
         std::transform(first1, last1, first2, std::begin(noise),
                        [](const value_type left, const value_type right) { return left - right; });
 
-        const auto var_ref   = statistics::variance(first1, first2);
+        const auto var_ref   = statistics::variance(first1, last1);
         const auto var_noise = statistics::variance(std::cbegin(noise), std::cend(noise));
         return converter::pow2db(var_ref / var_noise);
     }
-- 
2.43.0


From 87d3f665ad081afa99041ec5373539810fa14320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:44 +0000
Subject: [PATCH 18/82] fix: is_prime: primes above three are prime

---
 include/edsp/math/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/math/numeric.hpp b/include/edsp/math/numeric.hpp
index f54e39c..1c09944 100644
--- a/include/edsp/math/numeric.hpp
+++ b/include/edsp/math/numeric.hpp
@@ -143,7 +143,7 @@ namespace edsp { inline namespace math {
                 return 0;
             r += 6;
         }
-        return false;
+        return true;
     }
 
     /**
-- 
2.43.0


From 798ca97d2a7ea8afd8265310ad22ad716999b236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:44 +0000
Subject: [PATCH 19/82] fix: is_odd: negative odd numbers are odd

---
 include/edsp/math/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/math/numeric.hpp b/include/edsp/math/numeric.hpp
index 1c09944..4f14f8a 100644
--- a/include/edsp/math/numeric.hpp
+++ b/include/edsp/math/numeric.hpp
@@ -47,7 +47,7 @@ namespace edsp { inline namespace math {
      */
     template <typename T>
     constexpr bool is_odd(T x) {
-        return (x % 2) == 1;
+        return (x % 2) != 0;
     }
 
     /**
-- 
2.43.0


From c39029d7825ee1c1b1ca87cadea66d93d71a4ed0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:44 +0000
Subject: [PATCH 20/82] fix: is_power_two, next_power_two: right beyond 32 bits
 and for negative numbers

---
 include/edsp/math/numeric.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/edsp/math/numeric.hpp b/include/edsp/math/numeric.hpp
index 4f14f8a..78a0fb0 100644
--- a/include/edsp/math/numeric.hpp
+++ b/include/edsp/math/numeric.hpp
@@ -67,8 +67,8 @@ namespace edsp { inline namespace math {
      */
     template <typename T>
     constexpr bool is_power_two(T x) {
-        const auto tmp = static_cast<std::int32_t>(x);
-        return tmp != 0 && !(tmp & (tmp - 1));
+        const auto tmp = static_cast<std::uint64_t>(x);
+        return x > 0 && !(tmp & (tmp - 1));
     }
 
     /**
@@ -168,13 +168,14 @@ namespace edsp { inline namespace math {
         } else if (is_power_two(x)) {
             return x;
         } else {
-            auto _x = static_cast<int32_t>(x);
+            auto _x = static_cast<std::uint64_t>(x);
             --_x;
             _x |= _x >> 1;
             _x |= _x >> 2;
             _x |= _x >> 4;
             _x |= _x >> 8;
             _x |= _x >> 16;
+            _x |= _x >> 32;
             return static_cast<T>(_x + 1);
         }
     }
-- 
2.43.0


From e18e72af904407f10365ba15ba297c2578b129bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:44 +0000
Subject: [PATCH 21/82] fix: manhattan distance: never negative

---
 include/edsp/math/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/math/numeric.hpp b/include/edsp/math/numeric.hpp
index 78a0fb0..18c166b 100644
--- a/include/edsp/math/numeric.hpp
+++ b/include/edsp/math/numeric.hpp
@@ -289,7 +289,7 @@ namespace edsp { inline namespace math {
         struct distance<distances::manhattan> {
             template <typename T>
             constexpr T operator()(T x, T y) noexcept {
-                return x - y;
+                return std::abs(x - y);
             }
         };
 
-- 
2.43.0


From 0797c3edf5f7e4ff8f6f3696e84192eb69d61e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:44 +0000
Subject: [PATCH 22/82] fix: moment<0> is one

---
 include/edsp/statistics/moment.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/statistics/moment.hpp b/include/edsp/statistics/moment.hpp
index 03f490c..b15b55b 100644
--- a/include/edsp/statistics/moment.hpp
+++ b/include/edsp/statistics/moment.hpp
@@ -34,8 +34,8 @@ namespace edsp { namespace statistics {
         // From: https://gist.github.com/ofZach/4014022
         template <int N, class T>
         constexpr T nthPower(T x) {
-            T ret = x;
-            for (int i = 1; i < N; ++i) {
+            T ret = 1;
+            for (int i = 0; i < N; ++i) {
                 ret *= x;
             }
             return ret;
-- 
2.43.0


From b2b53bd5a0796ff21af604f4d67a9b5c4c8b8b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:44 +0000
Subject: [PATCH 23/82] fix: slope: count the elements before walking the range

---
 include/edsp/feature/statistics/slope.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/statistics/slope.hpp b/include/edsp/feature/statistics/slope.hpp
index 3789591..eb9fa2d 100644
--- a/include/edsp/feature/statistics/slope.hpp
+++ b/include/edsp/feature/statistics/slope.hpp
@@ -65,13 +65,13 @@ namespace edsp { namespace feature { inline namespace statistics {
         auto f_sum       = static_cast<value_type>(0);
         auto ff_sum      = static_cast<value_type>(0);
         auto mf_sum      = static_cast<value_type>(0);
+        const auto N = static_cast<value_type>(std::distance(first1, last1));
         for (; first1 != last1; ++first1, ++first2) {
             m_sum += *first1;
             f_sum += *first2;
             mf_sum += (*first1) * (*first2);
             ff_sum += (*first2) * (*first2);
         }
-        const auto N = static_cast<value_type>(std::distance(first1, last1));
         return (1 / m_sum) * (N * mf_sum - f_sum * m_sum) / (N * ff_sum - (f_sum * f_sum));
     }
 
-- 
2.43.0


From e377cfac979836dce8e240ef28f1b01c8d447b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:44 +0000
Subject: [PATCH 24/82] fix: flux: sum of the previous spectrum over the
 previous spectrum

---
 include/edsp/feature/statistics/flux.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/statistics/flux.hpp b/include/edsp/feature/statistics/flux.hpp
index d9ecc30..be01426 100644
--- a/include/edsp/feature/statistics/flux.hpp
+++ b/include/edsp/feature/statistics/flux.hpp
@@ -49,7 +49,7 @@ namespace edsp { namespace feature { inline namespace statistics {
         using value_type        = meta::value_type_t<InputIt>;
         const auto size         = std::distance(first1, last1);
         const auto current_sum  = std::accumulate(first1, last1, static_cast<value_type>(0));
-        const auto previous_sum = std::accumulate(first1, meta::advance(first2, size), static_cast<value_type>(0));
+        const auto previous_sum = std::accumulate(first2, meta::advance(first2, size), static_cast<value_type>(0));
         auto accumulated        = static_cast<value_type>(0);
         for (; first1 != last1; ++first1, ++first2) {
             accumulated += distance<d>(*first1 / current_sum, *first2 / previous_sum);
-- 
2.43.0


From d152ce85416ad0a48621cac1eadd9695916eb71f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:59 +0000
Subject: [PATCH 25/82] fix: decrease: leave the first sample out of the sums
 instead of dividing by zero

---
 include/edsp/feature/spectral/spectral_decrease.hpp | 2 +-
 include/edsp/feature/statistics/decrease.hpp        | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/edsp/feature/spectral/spectral_decrease.hpp b/include/edsp/feature/spectral/spectral_decrease.hpp
index 0426ca6..a281d67 100644
--- a/include/edsp/feature/spectral/spectral_decrease.hpp
+++ b/include/edsp/feature/spectral/spectral_decrease.hpp
@@ -38,7 +38,7 @@ namespace edsp { namespace feature { inline namespace spectral {
      * The spectral decrease represents the amount of decreasing of the spectral amplitude. It is defined as:
      * \f[
      *
-     *  d = \frac{1}{ \sum_{n=1}^{N-1} x(n)} \sum_{n=1}^{N-1} \frac{x(n) - x(n-1)}{n}
+     *  d = \frac{1}{ \sum_{n=1}^{N-1} x(n)} \sum_{n=1}^{N-1} \frac{x(n) - x(0)}{n}
      *
      * \f]
      *
diff --git a/include/edsp/feature/statistics/decrease.hpp b/include/edsp/feature/statistics/decrease.hpp
index 6ad28d6..1578aba 100644
--- a/include/edsp/feature/statistics/decrease.hpp
+++ b/include/edsp/feature/statistics/decrease.hpp
@@ -37,7 +37,7 @@ namespace edsp { namespace feature { inline namespace statistics {
      * The decrease factor represents the amount of decreasing of the signal amplitude. It is defined as:
      * \f[
      *
-     *  d = \frac{1}{ \sum_{n=1}^{N-1} x(n)} \sum_{n=1}^{N-1} \frac{x(n) - x(n-1)}{n}
+     *  d = \frac{1}{ \sum_{n=1}^{N-1} x(n)} \sum_{n=1}^{N-1} \frac{x(n) - x(0)}{n}
      *
      * \f]
      *
@@ -51,7 +51,9 @@ namespace edsp { namespace feature { inline namespace statistics {
         using value_t       = typename std::iterator_traits<ForwardIt>::value_type;
         auto weighted_sum   = static_cast<value_t>(0);
         auto unweighted_sum = static_cast<value_t>(0);
-        for (value_t i = 0, initial = *first; first != last; ++first, ++i) {
+        const auto initial  = *first;
+        ++first;
+        for (value_t i = 1; first != last; ++first, ++i) {
             weighted_sum += ((*first) - initial) / i;
             unweighted_sum += *first;
         }
-- 
2.43.0


From f65aa7ee6a9730dace5d085b2ce841a581ad003b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:59 +0000
Subject: [PATCH 26/82] fix: variation: normalised cross-correlation of the two
 spectra

---
 include/edsp/feature/spectral/spectral_variation.hpp | 2 +-
 include/edsp/feature/statistics/variation.hpp        | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/edsp/feature/spectral/spectral_variation.hpp b/include/edsp/feature/spectral/spectral_variation.hpp
index a9d8edb..2a973cd 100644
--- a/include/edsp/feature/spectral/spectral_variation.hpp
+++ b/include/edsp/feature/spectral/spectral_variation.hpp
@@ -40,7 +40,7 @@ namespace edsp { namespace feature { inline namespace spectral {
      *
      * \f[
      *
-     *  v = 1 - \frac{\sum_k X_1(k) X_2(K)  }{ \sqrt{ \sum_k X_1(k)} \sqrt{\sum_k X_2(k)}}
+     *  v = 1 - \frac{\sum_k X_1(k) X_2(K)  }{ \sqrt{ \sum_k X_1^2(k)} \sqrt{\sum_k X_2^2(k)}}
      *
      * \f]
      *
diff --git a/include/edsp/feature/statistics/variation.hpp b/include/edsp/feature/statistics/variation.hpp
index 5847d51..57105a1 100644
--- a/include/edsp/feature/statistics/variation.hpp
+++ b/include/edsp/feature/statistics/variation.hpp
@@ -41,7 +41,7 @@ namespace edsp { namespace feature { inline namespace statistics {
     *
     * \f[
     *
-    *  v = 1 - \frac{\sum_k X_1(k) X_2(K)  }{ \sqrt{ \sum_k X_1(k)} \sqrt{\sum_k X_2(k)}}
+    *  v = 1 - \frac{\sum_k X_1(k) X_2(K)  }{ \sqrt{ \sum_k X_1^2(k)} \sqrt{\sum_k X_2^2(k)}}
     *
     * \f]
     *
@@ -61,11 +61,11 @@ namespace edsp { namespace feature { inline namespace statistics {
         auto sum_x2      = static_cast<value_type>(0);
         auto sum_x12     = static_cast<value_type>(0);
         for (; first1 != last1; ++first1, ++first2) {
-            sum_x1 += *first1;
-            sum_x2 += *first2;
+            sum_x1 += *first1 * *first1;
+            sum_x2 += *first2 * *first2;
             sum_x12 += *first1 * *first2;
         }
-        return 1 - sum_x2 / (std::sqrt(sum_x1) * std::sqrt(sum_x2));
+        return 1 - sum_x12 / (std::sqrt(sum_x1) * std::sqrt(sum_x2));
     }
 
 }}} // namespace edsp::feature::statistics
-- 
2.43.0


From c29fb3a9a5000bf57d3cacb5133cdb0611bbf428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:59 +0000
Subject: [PATCH 27/82] fix: spectral_irregularity: difference between
 adjoining partials

---
 include/edsp/feature/spectral/spectral_irregularity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/spectral/spectral_irregularity.hpp b/include/edsp/feature/spectral/spectral_irregularity.hpp
index 6063c46..e4a9abd 100644
--- a/include/edsp/feature/spectral/spectral_irregularity.hpp
+++ b/include/edsp/feature/spectral/spectral_irregularity.hpp
@@ -52,7 +52,7 @@ namespace edsp { namespace feature { inline namespace spectral {
         using value_type       = typename std::iterator_traits<ForwardIt>::value_type;
         value_type square_diff = 0, square_ampl = 0;
         for (auto until = (last - 1); first != until; ++first) {
-            const value_type diff = (*first + 1) - (*first);
+            const value_type diff = *(first + 1) - (*first);
             square_diff += diff * diff;
             square_ampl += (*first) * (*first);
         }
-- 
2.43.0


From f58bb4f25b644e797b4e4368c88f0251440a2ee1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:59:59 +0000
Subject: [PATCH 28/82] fix: entropy: an empty bin contributes nothing instead
 of NaN

---
 include/edsp/feature/spectral/spectral_entropy.hpp | 2 +-
 include/edsp/feature/statistics/entropy.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/feature/spectral/spectral_entropy.hpp b/include/edsp/feature/spectral/spectral_entropy.hpp
index 6505010..109d24b 100644
--- a/include/edsp/feature/spectral/spectral_entropy.hpp
+++ b/include/edsp/feature/spectral/spectral_entropy.hpp
@@ -58,7 +58,7 @@ namespace edsp { namespace feature { inline namespace spectral {
         const auto sum       = std::accumulate(first, last, static_cast<input_t>(0));
         const auto predicate = [&](const input_t accumulated, const input_t current) {
             const auto normalized = current / sum;
-            return (accumulated + std::log2(normalized) * normalized);
+            return normalized > 0 ? (accumulated + std::log2(normalized) * normalized) : accumulated;
         };
         const auto size = static_cast<input_t>(std::distance(first, last));
         const auto acc  = std::accumulate(first, last, static_cast<input_t>(0), predicate);
diff --git a/include/edsp/feature/statistics/entropy.hpp b/include/edsp/feature/statistics/entropy.hpp
index 92bbcb9..8800aef 100644
--- a/include/edsp/feature/statistics/entropy.hpp
+++ b/include/edsp/feature/statistics/entropy.hpp
@@ -51,7 +51,7 @@ namespace edsp { namespace feature { inline namespace statistics {
     constexpr meta::value_type_t<ForwardIt> entropy(ForwardIt first, ForwardIt last) {
         using input_t        = meta::value_type_t<ForwardIt>;
         const auto predicate = [](const input_t accumulated, const input_t current) {
-            return (accumulated + std::log2(current) * current);
+            return current > 0 ? (accumulated + std::log2(current) * current) : accumulated;
         };
         const auto size = static_cast<input_t>(std::distance(first, last));
         const auto acc  = std::accumulate(first, last, static_cast<input_t>(0), predicate);
-- 
2.43.0


From ebc7b6d9987c8a6446485deee4a54850feedbb49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:23:26 +0000
Subject: [PATCH 29/82] fix: half: exact for large integers

---
 include/edsp/math/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/math/numeric.hpp b/include/edsp/math/numeric.hpp
index 18c166b..05dd48f 100644
--- a/include/edsp/math/numeric.hpp
+++ b/include/edsp/math/numeric.hpp
@@ -217,7 +217,7 @@ namespace edsp { inline namespace math {
      */
     template <typename T>
     constexpr T half(T x) {
-        return 0.5 * x;
+        return x / static_cast<T>(2);
     }
 
     /**
-- 
2.43.0


From 70cf7db8008282f50765e6475f9723d343a6ed4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:25:39 +0000
Subject: [PATCH 30/82] fix: audspace: pass the scale spaces the range they
 fill

---
 include/edsp/auditory/audspace.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/edsp/auditory/audspace.hpp b/include/edsp/auditory/audspace.hpp
index 82397a9..cf2945f 100644
--- a/include/edsp/auditory/audspace.hpp
+++ b/include/edsp/auditory/audspace.hpp
@@ -27,6 +27,7 @@
 #include <edsp/auditory/melspace.hpp>
 #include <edsp/auditory/erbspace.hpp>
 #include <edsp/auditory/centspace.hpp>
+#include <edsp/meta/advance.hpp>
 
 // TODO: take a look into http://www.ee.ic.ac.uk/hp/staff/dmb/voicebox/voicebox.html
 namespace edsp { namespace auditory {
@@ -55,16 +56,16 @@ namespace edsp { namespace auditory {
     constexpr void audspace(OutputIt d_first, Numeric min, Numeric max, Integer N, auditory_scale scale) {
         switch (scale) {
             case auditory_scale::mel:
-                melspace(d_first, min, max, N);
+                melspace(d_first, meta::advance(d_first, N), min, max);
                 break;
             case auditory_scale::erb:
-                erbspace(d_first, min, max, N);
+                erbspace(d_first, meta::advance(d_first, N), min, max);
                 break;
             case auditory_scale::bark:
-                barkspace(d_first, min, max, N);
+                barkspace(d_first, meta::advance(d_first, N), min, max);
                 break;
             case auditory_scale::cent:
-                centspace(d_first, min, max, N);
+                centspace(d_first, meta::advance(d_first, N), min, max);
                 break;
         }
     }
-- 
2.43.0


From ae1c2f2488fa75551237f175e8b70ee998ff03ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:43 +0000
Subject: [PATCH 31/82] fix: xcorr: biased and unbiased scaling

---
 include/edsp/spectral/correlation.hpp | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/include/edsp/spectral/correlation.hpp b/include/edsp/spectral/correlation.hpp
index b67dfeb..0ba1769 100644
--- a/include/edsp/spectral/correlation.hpp
+++ b/include/edsp/spectral/correlation.hpp
@@ -37,6 +37,21 @@ namespace edsp { inline namespace spectral {
         Unbiased /*!< Unbiased estimate of the cross-correlation. */
     };
 
+    namespace internal {
+        // The inverse transform is not normalised: every lag is scaled by its size and by the samples it averages
+        template <typename InputIt, typename Integer, typename OutputIt>
+        inline void scale_correlation(InputIt first, Integer size, Integer nfft, OutputIt d_first,
+                                      CorrelationScale scale) {
+            using value_type = meta::value_type_t<InputIt>;
+            for (Integer lag = 0; lag < size; ++lag, ++first, ++d_first) {
+                const auto samples = scale == CorrelationScale::Biased
+                                         ? size
+                                         : scale == CorrelationScale::Unbiased ? size - lag : static_cast<Integer>(1);
+                *d_first = *first / (static_cast<value_type>(nfft) * static_cast<value_type>(samples));
+            }
+        }
+    } // namespace internal
+
     /**
      * @brief Computes the autocorrelation of the range [first, last) and stores the result in another range, beginning at d_first.
      *
@@ -75,9 +90,7 @@ namespace edsp { inline namespace spectral {
             [](const std::complex<value_type>& val) -> std::complex<value_type> { return val * std::conj(val); });
 
         ifft_.idft(meta::data(fft_data_), meta::data(temp_output));
-        const auto factor = static_cast<value_type>(nfft * (scale == CorrelationScale::Biased ? nfft : 1));
-        std::transform(std::cbegin(temp_output), std::cbegin(temp_output) + size, d_first,
-                       [factor](value_type val) { return val / factor; });
+        internal::scale_correlation(std::cbegin(temp_output), size, nfft, d_first, scale);
     }
 
     /**
@@ -126,9 +139,7 @@ namespace edsp { inline namespace spectral {
                            -> std::complex<value_type> { return left * std::conj(right); });
 
         ifft_.idft(meta::data(fft_data1), meta::data(temp_output));
-        const auto factor = static_cast<value_type>(nfft * (scale == CorrelationScale::Biased ? nfft : 1));
-        std::transform(std::cbegin(temp_output), std::cbegin(temp_output) + size, d_first,
-                       [factor](value_type val) { return val / factor; });
+        internal::scale_correlation(std::cbegin(temp_output), size, nfft, d_first, scale);
     }
 
 }}     // namespace edsp::spectral
-- 
2.43.0


From 97af1941956dccb799be639866e6a8486bacd732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:27:56 +0000
Subject: [PATCH 32/82] fix: fft_engine: one engine runs any sequence of
 transforms

---
 .../edsp/spectral/internal/libfftw_impl.hpp   | 83 +++++++++++++++----
 1 file changed, 69 insertions(+), 14 deletions(-)

diff --git a/include/edsp/spectral/internal/libfftw_impl.hpp b/include/edsp/spectral/internal/libfftw_impl.hpp
index f015ea7..9e859c1 100644
--- a/include/edsp/spectral/internal/libfftw_impl.hpp
+++ b/include/edsp/spectral/internal/libfftw_impl.hpp
@@ -35,6 +35,9 @@
 
 namespace edsp { inline namespace spectral {
     namespace internal {
+        // Kinds of transforms: a plan can only be executed with the functions of its own kind
+        enum class transform { dft, idft, rdft, ridft, dht, dct, idct };
+
         template <typename T>
         inline T* fftw_cast(const T* p) noexcept {
             return const_cast<T*>(p);
@@ -67,14 +70,14 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void dft(const complex_type* src, complex_type* dst) {
-            if (meta::is_null(plan_))
+            if (outdated(internal::transform::dft, src, dst))
                 plan_ = fftwf_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_FORWARD,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             fftwf_execute_dft(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, complex_type* dst) {
-            if (meta::is_null(plan_)) {
+            if (outdated(internal::transform::idft, src, dst)) {
                 plan_ = fftwf_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_BACKWARD,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -82,7 +85,7 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void dft(const value_type* src, complex_type* dst) {
-            if (meta::is_null(plan_)) {
+            if (outdated(internal::transform::rdft, src, dst)) {
                 plan_ = fftwf_plan_dft_r2c_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                               FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -90,7 +93,7 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void idft(const complex_type* src, value_type* dst) {
-            if (meta::is_null(plan_)) {
+            if (outdated(internal::transform::ridft, src, dst)) {
                 plan_ = fftwf_plan_dft_c2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                               FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -98,7 +101,7 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void dht(const value_type* src, value_type* dst) {
-            if (meta::is_null(plan_)) {
+            if (outdated(internal::transform::dht, src, dst)) {
                 plan_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_DHT,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -106,7 +109,7 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void dct(const value_type* src, value_type* dst) {
-            if (meta::is_null(plan_)) {
+            if (outdated(internal::transform::dct, src, dst)) {
                 plan_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT10,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -114,7 +117,7 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void idct(const value_type* src, value_type* dst) {
-            if (meta::is_null(plan_)) {
+            if (outdated(internal::transform::idct, src, dst)) {
                 plan_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT01,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -143,7 +146,33 @@ namespace edsp { inline namespace spectral {
         }
 
     private:
+        // Drops the plan unless it was made for this kind of transform, alignment of the data and in-place use
+        template <typename R, typename S>
+        inline bool outdated(internal::transform kind, const R* src, S* dst) {
+            auto* in            = const_cast<value_type*>(reinterpret_cast<const value_type*>(src));
+            auto* out           = reinterpret_cast<value_type*>(dst);
+            const bool in_place = in == out;
+            const auto in_alignment = fftwf_alignment_of(in), out_alignment = fftwf_alignment_of(out);
+            if (!meta::is_null(plan_)) {
+                if (kind == kind_ && in_place == in_place_ && in_alignment == in_alignment_ &&
+                    out_alignment == out_alignment_) {
+                    return false;
+                }
+                fftwf_destroy_plan(plan_);
+                plan_ = nullptr;
+            }
+            kind_          = kind;
+            in_place_      = in_place;
+            in_alignment_  = in_alignment;
+            out_alignment_ = out_alignment;
+            return true;
+        }
+
         ::fftwf_plan plan_{nullptr};
+        internal::transform kind_{internal::transform::dft};
+        bool in_place_{false};
+        int in_alignment_{0};
+        int out_alignment_{0};
         size_type nfft_;
     };
 
@@ -162,35 +191,35 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void dft(const complex_type* src, complex_type* dst) {
-            if (meta::is_null(plan_))
+            if (outdated(internal::transform::dft, src, dst))
                 plan_ = fftw_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_FORWARD,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             fftw_execute_dft(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, complex_type* dst) {
-            if (meta::is_null(plan_))
+            if (outdated(internal::transform::idft, src, dst))
                 plan_ = fftw_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_BACKWARD,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             fftw_execute_dft(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dft(const value_type* src, complex_type* dst) {
-            if (meta::is_null(plan_))
+            if (outdated(internal::transform::rdft, src, dst))
                 plan_ = fftw_plan_dft_r2c_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                              FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             fftw_execute_dft_r2c(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, value_type* dst) {
-            if (meta::is_null(plan_))
+            if (outdated(internal::transform::ridft, src, dst))
                 plan_ = fftw_plan_dft_c2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                              FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             fftw_execute_dft_c2r(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dht(const value_type* src, value_type* dst) {
-            if (meta::is_null(plan_)) {
+            if (outdated(internal::transform::dht, src, dst)) {
                 plan_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_DHT,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -198,7 +227,7 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void dct(const value_type* src, value_type* dst) {
-            if (meta::is_null(plan_)) {
+            if (outdated(internal::transform::dct, src, dst)) {
                 plan_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT10,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -206,7 +235,7 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void idct(const value_type* src, value_type* dst) {
-            if (meta::is_null(plan_)) {
+            if (outdated(internal::transform::idct, src, dst)) {
                 plan_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT01,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -235,7 +264,33 @@ namespace edsp { inline namespace spectral {
         }
 
     private:
+        // Drops the plan unless it was made for this kind of transform, alignment of the data and in-place use
+        template <typename R, typename S>
+        inline bool outdated(internal::transform kind, const R* src, S* dst) {
+            auto* in            = const_cast<value_type*>(reinterpret_cast<const value_type*>(src));
+            auto* out           = reinterpret_cast<value_type*>(dst);
+            const bool in_place = in == out;
+            const auto in_alignment = fftw_alignment_of(in), out_alignment = fftw_alignment_of(out);
+            if (!meta::is_null(plan_)) {
+                if (kind == kind_ && in_place == in_place_ && in_alignment == in_alignment_ &&
+                    out_alignment == out_alignment_) {
+                    return false;
+                }
+                fftw_destroy_plan(plan_);
+                plan_ = nullptr;
+            }
+            kind_          = kind;
+            in_place_      = in_place;
+            in_alignment_  = in_alignment;
+            out_alignment_ = out_alignment;
+            return true;
+        }
+
         ::fftw_plan plan_{nullptr};
+        internal::transform kind_{internal::transform::dft};
+        bool in_place_{false};
+        int in_alignment_{0};
+        int out_alignment_{0};
         size_type nfft_;
     };
 }} // namespace edsp::spectral
-- 
2.43.0


From 12029bcb6b1e3a855632c01859c19baa425734fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:41 +0000
Subject: [PATCH 33/82] fix: fft_engine: copies do not share a plan

---
 .../edsp/spectral/internal/libfftw_impl.hpp   | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/edsp/spectral/internal/libfftw_impl.hpp b/include/edsp/spectral/internal/libfftw_impl.hpp
index 9e859c1..333b078 100644
--- a/include/edsp/spectral/internal/libfftw_impl.hpp
+++ b/include/edsp/spectral/internal/libfftw_impl.hpp
@@ -63,6 +63,16 @@ namespace edsp { inline namespace spectral {
 
         explicit fftw_impl(size_type nfft) : nfft_(nfft) {}
 
+        // The plan is not shared between copies
+        fftw_impl(const fftw_impl& other) : nfft_(other.nfft_) {}
+
+        fftw_impl& operator=(const fftw_impl& other) {
+            fftw_impl copy(other);
+            std::swap(plan_, copy.plan_);
+            nfft_ = other.nfft_;
+            return *this;
+        }
+
         ~fftw_impl() {
             if (!meta::is_null(plan_)) {
                 fftwf_destroy_plan(plan_);
@@ -184,6 +194,16 @@ namespace edsp { inline namespace spectral {
 
         explicit fftw_impl(size_type nfft) : nfft_(nfft) {}
 
+        // The plan is not shared between copies
+        fftw_impl(const fftw_impl& other) : nfft_(other.nfft_) {}
+
+        fftw_impl& operator=(const fftw_impl& other) {
+            fftw_impl copy(other);
+            std::swap(plan_, copy.plan_);
+            nfft_ = other.nfft_;
+            return *this;
+        }
+
         ~fftw_impl() {
             if (!meta::is_null(plan_)) {
                 fftw_destroy_plan(plan_);
-- 
2.43.0


From 926a6603f8c7f47aa268ede03a6b44dd4a38d0ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:58 +0000
Subject: [PATCH 34/82] fix: adsr: release_rate() returns the release rate

---
 include/edsp/experimental/envelope/adsr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/experimental/envelope/adsr.hpp b/include/edsp/experimental/envelope/adsr.hpp
index d7b0659..a625fc9 100644
--- a/include/edsp/experimental/envelope/adsr.hpp
+++ b/include/edsp/experimental/envelope/adsr.hpp
@@ -68,7 +68,7 @@ namespace edsp { namespace envelope {
         }
 
         constexpr value_type release_rate() const {
-            return release_time_;
+            return release_rate_;
         }
 
         constexpr value_type decay_rate() const {
-- 
2.43.0


From eca634759fa6ad92b1476ab5382de028baeeff71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:58 +0000
Subject: [PATCH 35/82] fix: ar: the gains follow the times, in milliseconds

---
 include/edsp/experimental/envelope/ar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/experimental/envelope/ar.hpp b/include/edsp/experimental/envelope/ar.hpp
index 1333b07..d27e55f 100644
--- a/include/edsp/experimental/envelope/ar.hpp
+++ b/include/edsp/experimental/envelope/ar.hpp
@@ -197,9 +197,9 @@ namespace edsp { namespace envelope {
 
     template <typename T>
     constexpr void ar<T>::reset() noexcept {
-        attack_gain_ = (attack_gain_ > 0) ? static_cast<value_type>(std::exp(-1 / (attack_time_ * sample_rate_))) : 0;
+        attack_gain_ = (attack_time_ > 0) ? static_cast<value_type>(std::exp(-1000 / (attack_time_ * sample_rate_))) : 0;
         release_gain_ =
-            (release_gain_ > 0) ? static_cast<value_type>(std::exp(-1 / (release_time_ * sample_rate_))) : 0;
+            (release_time_ > 0) ? static_cast<value_type>(std::exp(-1000 / (release_time_ * sample_rate_))) : 0;
         last_ = 0;
     }
 
-- 
2.43.0


From b3e08046737118f4a1725a9f40a7113b3de55047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:49:58 +0000
Subject: [PATCH 36/82] fix: mu-law: callable, and expanding undoes compressing

---
 include/edsp/experimental/quantizer/mu_law_compressor.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/edsp/experimental/quantizer/mu_law_compressor.hpp b/include/edsp/experimental/quantizer/mu_law_compressor.hpp
index 98fc255..fd96b17 100644
--- a/include/edsp/experimental/quantizer/mu_law_compressor.hpp
+++ b/include/edsp/experimental/quantizer/mu_law_compressor.hpp
@@ -51,7 +51,7 @@ namespace edsp { namespace quantizer {
         meta::expects(absolute_max_value > 0, "Expected a maximum absolute value higher than zero");
         meta::expects(compression_factor > 0, "The compression factor should be a positive number");
         using value_type  = meta::value_type_t<InputIt>;
-        const auto lambda = [absolute_max_value](const value_type input) -> value_type {
+        const auto lambda = [absolute_max_value, compression_factor](const value_type input) -> value_type {
             const auto ratio = std::fabs(input) / absolute_max_value;
             return math::sign(input) * absolute_max_value *
                    std::log(static_cast<value_type>(1 + compression_factor * ratio)) /
@@ -83,11 +83,11 @@ namespace edsp { namespace quantizer {
         meta::expects(absolute_max_value > 0, "Expected a maximum absolute value higher than zero");
         meta::expects(compression_factor > 0, "The compression factor should be a positive number");
         using value_type  = meta::value_type_t<InputIt>;
-        const auto lambda = [absolute_max_value](const value_type input) -> value_type {
+        const auto lambda = [absolute_max_value, compression_factor](const value_type input) -> value_type {
             const auto ratio = std::fabs(input) / absolute_max_value;
             return math::sign(input) * absolute_max_value *
                    (std::pow(static_cast<value_type>(1 + compression_factor), ratio) - 1) /
-                   std::log(static_cast<value_type>(1 + compression_factor));
+                   static_cast<value_type>(compression_factor);
         };
         std::transform(first, last, d_first, std::cref(lambda));
     }
-- 
2.43.0


From 58bf2602bc04662aa061248240fa8b335508b10f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:52 +0000
Subject: [PATCH 37/82] fix: random_generator: constructible for every
 distribution

---
 include/edsp/random/random_generator.hpp | 70 ++++++++++++++++++------
 1 file changed, 52 insertions(+), 18 deletions(-)

diff --git a/include/edsp/random/random_generator.hpp b/include/edsp/random/random_generator.hpp
index e98d5ea..7c47926 100644
--- a/include/edsp/random/random_generator.hpp
+++ b/include/edsp/random/random_generator.hpp
@@ -56,12 +56,12 @@ namespace edsp { namespace random {
 
         template <typename Distribution, typename Engine = std::mt19937>
         struct RandomGeneratorImpl {
-            using value_type = typename Distribution::value_type;
+            using value_type = typename Distribution::result_type;
             template <typename... Args>
             explicit RandomGeneratorImpl(Args... arg) :
                 generator_(
                     Engine(static_cast<std::size_t>(std::chrono::system_clock::now().time_since_epoch().count()))),
-                distribution_(Distribution(std::forward(arg...))) {}
+                distribution_(Distribution(arg...)) {}
 
             inline value_type operator()() {
                 return static_cast<value_type>(distribution_(generator_));
@@ -77,73 +77,107 @@ namespace edsp { namespace random {
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Uniform, T>
-            : public RandomGeneratorImpl<std::uniform_real_distribution<T>> {};
+            : public RandomGeneratorImpl<std::uniform_real_distribution<T>> {
+            using RandomGeneratorImpl<std::uniform_real_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Bernoulli, T>
-            : public RandomGeneratorImpl<std::bernoulli_distribution, T> {};
+            : public RandomGeneratorImpl<std::bernoulli_distribution> {
+            using RandomGeneratorImpl<std::bernoulli_distribution>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Binomial, T>
-            : public RandomGeneratorImpl<std::binomial_distribution<T>> {};
+            : public RandomGeneratorImpl<std::binomial_distribution<T>> {
+            using RandomGeneratorImpl<std::binomial_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Geometric, T>
-            : public RandomGeneratorImpl<std::geometric_distribution<T>> {};
+            : public RandomGeneratorImpl<std::geometric_distribution<T>> {
+            using RandomGeneratorImpl<std::geometric_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Poisson, T>
-            : public RandomGeneratorImpl<std::poisson_distribution<T>> {};
+            : public RandomGeneratorImpl<std::poisson_distribution<T>> {
+            using RandomGeneratorImpl<std::poisson_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Exponential, T>
-            : public RandomGeneratorImpl<std::exponential_distribution<T>> {};
+            : public RandomGeneratorImpl<std::exponential_distribution<T>> {
+            using RandomGeneratorImpl<std::exponential_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
-        struct _RandomGenerator<DistributionType::Gamma, T> : public RandomGeneratorImpl<std::gamma_distribution<T>> {};
+        struct _RandomGenerator<DistributionType::Gamma, T> : public RandomGeneratorImpl<std::gamma_distribution<T>> {
+            using RandomGeneratorImpl<std::gamma_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Weibull, T>
-            : public RandomGeneratorImpl<std::weibull_distribution<T>> {};
+            : public RandomGeneratorImpl<std::weibull_distribution<T>> {
+            using RandomGeneratorImpl<std::weibull_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::ExtremeValue, T>
-            : public RandomGeneratorImpl<std::extreme_value_distribution<T>> {};
+            : public RandomGeneratorImpl<std::extreme_value_distribution<T>> {
+            using RandomGeneratorImpl<std::extreme_value_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Normal, T> : public RandomGeneratorImpl<std::normal_distribution<T>> {
+            using RandomGeneratorImpl<std::normal_distribution<T>>::RandomGeneratorImpl;
         };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::LogNormal, T>
-            : public RandomGeneratorImpl<std::lognormal_distribution<T>> {};
+            : public RandomGeneratorImpl<std::lognormal_distribution<T>> {
+            using RandomGeneratorImpl<std::lognormal_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::ChiSquared, T>
-            : public RandomGeneratorImpl<std::chi_squared_distribution<T>> {};
+            : public RandomGeneratorImpl<std::chi_squared_distribution<T>> {
+            using RandomGeneratorImpl<std::chi_squared_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Fisher, T>
-            : public RandomGeneratorImpl<std::fisher_f_distribution<T>> {};
+            : public RandomGeneratorImpl<std::fisher_f_distribution<T>> {
+            using RandomGeneratorImpl<std::fisher_f_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Student, T>
-            : public RandomGeneratorImpl<std::student_t_distribution<T>> {};
+            : public RandomGeneratorImpl<std::student_t_distribution<T>> {
+            using RandomGeneratorImpl<std::student_t_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Discrete, T>
-            : public RandomGeneratorImpl<std::discrete_distribution<T>> {};
+            : public RandomGeneratorImpl<std::discrete_distribution<T>> {
+            using RandomGeneratorImpl<std::discrete_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::PieceWiseConstant, T>
-            : public RandomGeneratorImpl<std::piecewise_constant_distribution<T>> {};
+            : public RandomGeneratorImpl<std::piecewise_constant_distribution<T>> {
+            using RandomGeneratorImpl<std::piecewise_constant_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::PieceWiseLinear, T>
-            : public RandomGeneratorImpl<std::piecewise_linear_distribution<T>> {};
+            : public RandomGeneratorImpl<std::piecewise_linear_distribution<T>> {
+            using RandomGeneratorImpl<std::piecewise_linear_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Cauchy, T> : public RandomGeneratorImpl<std::cauchy_distribution<T>> {
+            using RandomGeneratorImpl<std::cauchy_distribution<T>>::RandomGeneratorImpl;
         };
 
     } // namespace internal
-- 
2.43.0


From 752a6a2b9635d02d76448cfab0375b501c29154c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:52 +0000
Subject: [PATCH 38/82] fix: white noise: floating point values, and noise
 generators with any engine

---
 include/edsp/random/noise/brown_noise_generator.hpp | 2 +-
 include/edsp/random/noise/pink_noise_generator.hpp  | 2 +-
 include/edsp/random/noise/white_noise_generator.hpp | 7 +++++--
 3 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/edsp/random/noise/brown_noise_generator.hpp b/include/edsp/random/noise/brown_noise_generator.hpp
index 9f57e8d..5c3536a 100644
--- a/include/edsp/random/noise/brown_noise_generator.hpp
+++ b/include/edsp/random/noise/brown_noise_generator.hpp
@@ -38,7 +38,7 @@ namespace edsp { namespace random {
          * @brief Creates a brown noise sequence generator.
          */
         inline brown_noise_generator(value_type min, value_type max) :
-            generator_(white_noise_generator<value_type>(min, max)) {}
+            generator_(white_noise_generator<value_type, Engine>(min, max)) {}
 
         /**
         * @brief Generates a random number following the noise distribution.
diff --git a/include/edsp/random/noise/pink_noise_generator.hpp b/include/edsp/random/noise/pink_noise_generator.hpp
index 7f9410f..4c5bcfe 100644
--- a/include/edsp/random/noise/pink_noise_generator.hpp
+++ b/include/edsp/random/noise/pink_noise_generator.hpp
@@ -38,7 +38,7 @@ namespace edsp { namespace random {
          * @brief Creates a pink noise sequence generator.
          */
         inline pink_noise_generator(value_type min, value_type max) :
-            generator_(white_noise_generator<value_type>(min, max)) {}
+            generator_(white_noise_generator<value_type, Engine>(min, max)) {}
 
         /**
         * @brief Generates a random number following the noise distribution.
diff --git a/include/edsp/random/noise/white_noise_generator.hpp b/include/edsp/random/noise/white_noise_generator.hpp
index 02d2cd4..d12586f 100644
--- a/include/edsp/random/noise/white_noise_generator.hpp
+++ b/include/edsp/random/noise/white_noise_generator.hpp
@@ -24,6 +24,7 @@
 
 #include <random>
 #include <chrono>
+#include <type_traits>
 
 namespace edsp { namespace random {
 
@@ -40,7 +41,7 @@ namespace edsp { namespace random {
          */
         inline white_noise_generator(value_type min, value_type max) :
             generator_(Engine(static_cast<std::size_t>(std::chrono::system_clock::now().time_since_epoch().count()))),
-            distribution_(std::uniform_int_distribution<T>(min, max)) {}
+            distribution_(min, max) {}
 
         /**
         * @brief Generates a random number following the noise distribution.
@@ -52,7 +53,9 @@ namespace edsp { namespace random {
 
     private:
         Engine generator_;
-        std::uniform_int_distribution<T> distribution_;
+        std::conditional_t<std::is_floating_point<T>::value, std::uniform_real_distribution<T>,
+                           std::uniform_int_distribution<T>>
+            distribution_;
     };
 
 }} // namespace edsp::random
-- 
2.43.0


From cda2c3f0ec9658bf164e53e13a440ac725aa0e59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:52 +0000
Subject: [PATCH 39/82] fix: perlin noise: usable, interpolates inside the cell
 it picked

---
 .../edsp/random/noise/perlin_noise_generator.hpp    | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/edsp/random/noise/perlin_noise_generator.hpp b/include/edsp/random/noise/perlin_noise_generator.hpp
index 124f112..5460802 100644
--- a/include/edsp/random/noise/perlin_noise_generator.hpp
+++ b/include/edsp/random/noise/perlin_noise_generator.hpp
@@ -23,6 +23,8 @@
 #define EDSP_PERLIN_NOISE_GENERATOR_HPP
 
 #include <array>
+#include <cmath>
+#include <cstdint>
 #include <random>
 #include <chrono>
 
@@ -59,7 +61,7 @@ namespace edsp { namespace random {
          */
         inline perlin_noise_generator() :
             generator_(Engine(static_cast<std::size_t>(std::chrono::system_clock::now().time_since_epoch().count()))),
-            distribution_(std::uniform_int_distribution<T>(0, 511)) {}
+            distribution_(0, 511) {}
 
         /**
         * @brief Generates a random number following the noise distribution.
@@ -69,7 +71,7 @@ namespace edsp { namespace random {
             const auto random_value = distribution_(generator_);
             const auto index        = static_cast<std::int64_t>(random_value) & 0xFF;
             const auto floor_value  = random_value - std::floor(random_value);
-            const auto fade_value   = fade(random_value);
+            const auto fade_value   = fade(floor_value);
             return lerp(fade_value, grad(permutation[index], floor_value),
                         grad(permutation[index + 1], floor_value - 1)) *
                    2;
@@ -77,8 +79,8 @@ namespace edsp { namespace random {
 
     private:
         Engine generator_;
-        std::uniform_int_distribution<T> distribution_;
-        static constexpr const std::array<T, 512> permutation = {
+        std::uniform_real_distribution<T> distribution_;
+        static constexpr const std::array<int, 512> permutation = {
             {151, 160, 137, 91,  90,  15,  131, 13,  201, 95,  96,  53,  194, 233, 7,   225, 140, 36,  103, 30,
              69,  142, 8,   99,  37,  240, 21,  10,  23,  190, 6,   148, 247, 120, 234, 75,  0,   26,  197, 62,
              94,  252, 219, 203, 117, 35,  11,  32,  57,  177, 33,  88,  237, 149, 56,  87,  174, 20,  125, 136,
@@ -94,5 +96,8 @@ namespace edsp { namespace random {
              222, 114, 67,  29,  24,  72,  243, 141, 128, 195, 78,  66,  215, 61,  156, 180}};
     };
 
+    template <typename T, typename Engine>
+    constexpr const std::array<int, 512> perlin_noise_generator<T, Engine>::permutation;
+
 }}     // namespace edsp::random
 #endif // EDSP_PERLIN_NOISE_GENERATOR_HPP
-- 
2.43.0


From 79f035dac0bc87352c8f380f084a43086959596d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:28 +0000
Subject: [PATCH 40/82] fix: string: bytes above 127 are classified as unsigned
 characters

---
 include/edsp/string/to_lower.hpp |  6 +++++-
 include/edsp/string/to_upper.hpp |  6 +++++-
 include/edsp/string/trim.hpp     | 13 +++++++++++--
 3 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/edsp/string/to_lower.hpp b/include/edsp/string/to_lower.hpp
index 9dc97f7..0d9789a 100644
--- a/include/edsp/string/to_lower.hpp
+++ b/include/edsp/string/to_lower.hpp
@@ -24,6 +24,7 @@
 
 #include <algorithm>
 #include <cctype>
+#include <type_traits>
 
 namespace edsp { namespace string {
 
@@ -36,7 +37,10 @@ namespace edsp { namespace string {
      */
     template <typename InputIt, typename OutputIt>
     constexpr void tolower(InputIt first, InputIt last, OutputIt d_first) {
-        std::transform(first, last, d_first, [](const auto element) { return std::tolower(element); });
+        std::transform(first, last, d_first, [](const auto element) {
+            using char_type = std::decay_t<decltype(element)>;
+            return static_cast<char_type>(std::tolower(static_cast<std::make_unsigned_t<char_type>>(element)));
+        });
     }
 
 }} // namespace edsp::string
diff --git a/include/edsp/string/to_upper.hpp b/include/edsp/string/to_upper.hpp
index 0149fe0..4ad623a 100644
--- a/include/edsp/string/to_upper.hpp
+++ b/include/edsp/string/to_upper.hpp
@@ -25,6 +25,7 @@
 
 #include <algorithm>
 #include <cctype>
+#include <type_traits>
 
 namespace edsp { namespace string {
 
@@ -38,7 +39,10 @@ namespace edsp { namespace string {
      */
     template <typename InputIt, typename OutputIt>
     constexpr void toupper(InputIt first, InputIt last, OutputIt d_first) {
-        std::transform(first, last, d_first, [](const auto element) { return std::toupper(element); });
+        std::transform(first, last, d_first, [](const auto element) {
+            using char_type = std::decay_t<decltype(element)>;
+            return static_cast<char_type>(std::toupper(static_cast<std::make_unsigned_t<char_type>>(element)));
+        });
     }
 
 }} // namespace edsp::string
diff --git a/include/edsp/string/trim.hpp b/include/edsp/string/trim.hpp
index 16fffa9..ae53c95 100644
--- a/include/edsp/string/trim.hpp
+++ b/include/edsp/string/trim.hpp
@@ -25,9 +25,18 @@
 #include <edsp/meta/iterator.hpp>
 #include <sstream>
 #include <algorithm>
+#include <cctype>
+#include <type_traits>
 
 namespace edsp { namespace string {
 
+    namespace internal {
+        template <typename Char>
+        inline bool is_space(Char character) {
+            return std::isspace(static_cast<std::make_unsigned_t<Char>>(character)) != 0;
+        }
+    }
+
     /**
     * @brief Filters the leading whitespace of the input string.
     * @param str Input string.
@@ -36,7 +45,7 @@ namespace edsp { namespace string {
     inline void ltrim(String& str) {
         str.erase(
             std::begin(str), std::find_if(std::begin(str), std::end(str),
-                                [](auto character) { return !std::isspace(character); }));
+                                [](auto character) { return !internal::is_space(character); }));
     }
 
     /**
@@ -47,7 +56,7 @@ namespace edsp { namespace string {
     inline void rtrim(String& str) {
         str.erase(
             std::find_if(std::rbegin(str), std::rend(str),
-                         [](auto character) { return !std::isspace(character); })
+                         [](auto character) { return !internal::is_space(character); })
                 .base(), std::end(str));
     }
 
-- 
2.43.0


From c343bf38ff41c70c0d043fc058ced450df966006 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:28 +0000
Subject: [PATCH 41/82] fix: join: keeps the text after an embedded zero

---
 include/edsp/string/join.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/string/join.hpp b/include/edsp/string/join.hpp
index 476e5c9..ee4a29b 100644
--- a/include/edsp/string/join.hpp
+++ b/include/edsp/string/join.hpp
@@ -46,7 +46,7 @@ namespace edsp { namespace string {
             }
             ss << *first;
         }
-        d_str = ss.str().c_str();
+        d_str = ss.str();
     }
 
 }} // namespace edsp::string
-- 
2.43.0


From c399d71c5c7d7c16cf79fda009084ca84548640d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:37 +0000
Subject: [PATCH 42/82] fix: library info: the major version is the major
 version

---
 include/edsp/core/library_info.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/core/library_info.hpp b/include/edsp/core/library_info.hpp
index dbea03a..92a95ee 100644
--- a/include/edsp/core/library_info.hpp
+++ b/include/edsp/core/library_info.hpp
@@ -79,7 +79,7 @@ namespace edsp { inline namespace core {
         }
 
         static constexpr std::int32_t major_version() noexcept {
-            return E_VERSION_MINOR;
+            return E_VERSION_MAJOR;
         }
 
         static constexpr std::int32_t patch_version() noexcept {
-- 
2.43.0


From e36d4d8c3ae9412b25fe727b712bbd27ad72633d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:37 +0000
Subject: [PATCH 43/82] fix: library info: names the FFT library that was
 configured

---
 include/edsp/core/library_info.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/core/library_info.hpp b/include/edsp/core/library_info.hpp
index 92a95ee..a51d4d1 100644
--- a/include/edsp/core/library_info.hpp
+++ b/include/edsp/core/library_info.hpp
@@ -102,9 +102,9 @@ namespace edsp { inline namespace core {
 #if defined(USE_LIBFFTW)
             return fft_lib::fftw;
 #elif defined(USE_LIBPFFFT)
-            return fft_lib::fftw;
+            return fft_lib::pffft;
 #elif defined(USE_LIBACCELERATE)
-            return fft_lib::fftw;
+            return fft_lib::accelerate;
 #else
             return fft_lib::unknown;
 #endif
-- 
2.43.0


From 5a6eceb1912456876e85fb6e3d8bdc2f255b0b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:37 +0000
Subject: [PATCH 44/82] fix: C interface: get_build_date returns the date

---
 bindings/c/src/core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/c/src/core.c b/bindings/c/src/core.c
index a9c6dcc..008c021 100644
--- a/bindings/c/src/core.c
+++ b/bindings/c/src/core.c
@@ -43,7 +43,7 @@ const char *get_version() {
 }
 
 const char *get_build_date() {
-    return edsp::library_info::build_time();
+    return edsp::library_info::build_date();
 }
 
 const char *get_build_time() {
-- 
2.43.0


From 9302afe53de1b0e19ec407c16fd500f7221b7230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:37 +0000
Subject: [PATCH 45/82] fix: environment: names and values that are views end
 where the view ends

---
 include/edsp/core/system.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/edsp/core/system.hpp b/include/edsp/core/system.hpp
index 05b9a14..456fb31 100644
--- a/include/edsp/core/system.hpp
+++ b/include/edsp/core/system.hpp
@@ -184,7 +184,7 @@ namespace edsp { inline namespace core {
         static edsp::expected<edsp::string_view, error>
             get_env(const edsp::string_view& variable_name) noexcept {
             std::lock_guard<std::mutex> lock(mutex());
-            const char* env_p = std::getenv(variable_name.data());
+            const char* env_p = std::getenv(std::string(variable_name.data(), variable_name.size()).c_str());
             if (meta::empty(variable_name)) {
                 return edsp::make_unexpected(error::empty);
             } else {
@@ -209,7 +209,8 @@ namespace edsp { inline namespace core {
             if (meta::empty(variable_name)) {
                 return error::empty;
             } else {
-                const auto result = setenv(meta::data(variable_name), meta::data(variable_value), overwrite);
+                const auto result = setenv(std::string(variable_name.data(), variable_name.size()).c_str(),
+                                           std::string(variable_value.data(), variable_value.size()).c_str(), overwrite);
                 return static_cast<error>(result);
             }
         }
@@ -221,7 +222,7 @@ namespace edsp { inline namespace core {
         */
         static bool exist(const edsp::string_view& variable_name) noexcept {
             std::lock_guard<std::mutex> lock(mutex());
-            return !meta::is_null(std::getenv(meta::data(variable_name)));
+            return !meta::is_null(std::getenv(std::string(variable_name.data(), variable_name.size()).c_str()));
         }
 
     private:
-- 
2.43.0


From ceba2c7c671879218c755fecb8ffcf5f829b1076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:37 +0000
Subject: [PATCH 46/82] fix: C interface: peak_abs returns the absolute peak

---
 bindings/c/src/statistics.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/c/src/statistics.c b/bindings/c/src/statistics.c
index 74f23ef..9e106c7 100644
--- a/bindings/c/src/statistics.c
+++ b/bindings/c/src/statistics.c
@@ -99,7 +99,7 @@ Peak peak(const real_t* data, int size) {
 }
 
 Peak peak_abs(const real_t* data, int size) {
-    const auto peak = edsp::statistics::peak(data, data + size);
+    const auto peak = edsp::statistics::peakabs(data, data + size);
     return Peak{static_cast<int>(peak.first), peak.second};
 }
 
-- 
2.43.0


From 9ad2092136fb0039aba53cce029ecc775bb15870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:37 +0000
Subject: [PATCH 47/82] fix: decoder, encoder: a file is closed only once

---
 include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp | 4 ++++
 include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
index 328cb8f..a0a76b0 100644
--- a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
+++ b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
@@ -81,6 +81,8 @@ namespace edsp { namespace io {
         using value_type = T;
 
         libsndfile_decoder() = default;
+        libsndfile_decoder(const libsndfile_decoder&) = delete;
+        libsndfile_decoder& operator=(const libsndfile_decoder&) = delete;
         ~libsndfile_decoder() {
             close();
         }
@@ -105,6 +107,8 @@ namespace edsp { namespace io {
             }
 
             sf_close(file_);
+            file_ = nullptr;
+            info_ = SF_INFO{};
         }
 
         const edsp::string_view& error() const {
diff --git a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
index c84c887..a416d9b 100644
--- a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
+++ b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
@@ -97,6 +97,9 @@ namespace edsp { namespace io {
             info_.format     = SF_FORMAT_WAV | internal::writer<T>::FORMAT;
         }
 
+        libsndfile_encoder(const libsndfile_encoder&) = delete;
+        libsndfile_encoder& operator=(const libsndfile_encoder&) = delete;
+
         ~libsndfile_encoder() {
             close();
         }
@@ -121,6 +124,7 @@ namespace edsp { namespace io {
             }
 
             sf_close(file_);
+            file_ = nullptr;
         }
 
         const edsp::string_view& error() const {
-- 
2.43.0


From 29cdd97cc354a5d96f0d54f70f5321e475b248bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:37 +0000
Subject: [PATCH 48/82] fix: decoder, encoder: error() does not return a
 dangling reference

---
 include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp | 2 +-
 include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
index a0a76b0..4517ef8 100644
--- a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
+++ b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
@@ -111,7 +111,7 @@ namespace edsp { namespace io {
             info_ = SF_INFO{};
         }
 
-        const edsp::string_view& error() const {
+        edsp::string_view error() const {
             return sf_strerror(file_);
         }
 
diff --git a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
index a416d9b..e26c412 100644
--- a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
+++ b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
@@ -127,7 +127,7 @@ namespace edsp { namespace io {
             file_ = nullptr;
         }
 
-        const edsp::string_view& error() const {
+        edsp::string_view error() const {
             return sf_strerror(file_);
         }
 
-- 
2.43.0


From eb1e1d6f344c9167bac73fc46a6ac54d4f7ede28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:37 +0000
Subject: [PATCH 49/82] fix: decoder: reads whole frames, whatever the number
 of channels

---
 .../edsp/io/internal/decoder/libsndfile_decoder_impl.hpp   | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
index 4517ef8..519d72d 100644
--- a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
+++ b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
@@ -148,11 +148,16 @@ namespace edsp { namespace io {
             using value_type = meta::value_type_t<OutputIt>;
             static_assert(std::is_same<value_type, underlying_t>::value, "Expecting iterator of the same type");
 
+            if (!is_open()) {
+                return 0;
+            }
+
             index_type total        = std::distance(first, last);
             index_type remaining    = total;
             index_type samples_read = 0;
             do {
-                const auto counter = (remaining > N) ? N : remaining;
+                auto counter = (remaining > N) ? N : remaining;
+                counter -= counter % channels(); // only whole frames can be read
                 samples_read       = internal::reader<T>{}.read(file_, meta::data(buffer_), counter);
                 remaining -= samples_read;
                 first = std::copy(std::cbegin(buffer_), std::cbegin(buffer_) + samples_read, first);
-- 
2.43.0


From 8f2d623c432c7986b4d34b3e21fd931a08255bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:37 +0000
Subject: [PATCH 50/82] fix: resampler: the engine is released only once

---
 include/edsp/io/internal/resampler/libsamplerate_impl.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
index 0ef7745..9c18b34 100644
--- a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
+++ b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
@@ -45,6 +45,9 @@ namespace edsp { namespace io {
             report_error(__PRETTY_FUNCTION__);
         }
 
+        libsamplerate_impl(const libsamplerate_impl&) = delete;
+        libsamplerate_impl& operator=(const libsamplerate_impl&) = delete;
+
         ~libsamplerate_impl() {
             src_delete(state_);
         }
-- 
2.43.0


From 39d4a61d485fc5608c37cb9e565052651e10436b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:53:37 +0000
Subject: [PATCH 51/82] fix: resampler: a block that is refused consumed and
 produced nothing

---
 include/edsp/io/internal/resampler/libsamplerate_impl.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
index 9c18b34..f7cb355 100644
--- a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
+++ b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
@@ -63,6 +63,8 @@ namespace edsp { namespace io {
             data_.data_out           = &(*d_first);
             data_.src_ratio          = ratio_;
             data_.end_of_input       = 0;
+            data_.input_frames_used  = 0;
+            data_.output_frames_gen  = 0;
             error_                   = src_process(state_, &data_);
             report_error(__PRETTY_FUNCTION__);
             return {data_.input_frames_used, data_.output_frames_gen};
-- 
2.43.0


From 28791b615ae2664b59237fc466a3505967c45ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:55:02 +0000
Subject: [PATCH 52/82] fix: environment: a variable set to the empty text
 exists

---
 include/edsp/core/system.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/core/system.hpp b/include/edsp/core/system.hpp
index 456fb31..13277b9 100644
--- a/include/edsp/core/system.hpp
+++ b/include/edsp/core/system.hpp
@@ -188,7 +188,7 @@ namespace edsp { inline namespace core {
             if (meta::empty(variable_name)) {
                 return edsp::make_unexpected(error::empty);
             } else {
-                if (!meta::is_null(env_p)) {
+                if (env_p != nullptr) {
                     return env_p;
                 } else {
                     return edsp::make_unexpected(error::not_found);
@@ -222,7 +222,7 @@ namespace edsp { inline namespace core {
         */
         static bool exist(const edsp::string_view& variable_name) noexcept {
             std::lock_guard<std::mutex> lock(mutex());
-            return !meta::is_null(std::getenv(std::string(variable_name.data(), variable_name.size()).c_str()));
+            return std::getenv(std::string(variable_name.data(), variable_name.size()).c_str()) != nullptr;
         }
 
     private:
-- 
2.43.0


From 994ec34ae3ea576d43bb224fb415a552ba30608a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:56:35 +0000
Subject: [PATCH 53/82] fix: metadata: a file that cannot be read has no tag

---
 include/edsp/io/internal/metadata/libtag_impl.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/edsp/io/internal/metadata/libtag_impl.hpp b/include/edsp/io/internal/metadata/libtag_impl.hpp
index efba48d..c036450 100644
--- a/include/edsp/io/internal/metadata/libtag_impl.hpp
+++ b/include/edsp/io/internal/metadata/libtag_impl.hpp
@@ -32,27 +32,27 @@ namespace edsp { namespace io {
         explicit libtag_metadata(const std::string& file) : ref_(meta::data(file)) {}
 
         std::string title() const {
-            return ref_.tag()->title().to8Bit();
+            return ref_.isNull() ? std::string{} : ref_.tag()->title().to8Bit();
         }
 
         std::string artist() const {
-            return ref_.tag()->artist().to8Bit();
+            return ref_.isNull() ? std::string{} : ref_.tag()->artist().to8Bit();
         }
 
         std::string album() const {
-            return ref_.tag()->album().to8Bit();
+            return ref_.isNull() ? std::string{} : ref_.tag()->album().to8Bit();
         }
 
         std::string genre() const {
-            return ref_.tag()->genre().to8Bit();
+            return ref_.isNull() ? std::string{} : ref_.tag()->genre().to8Bit();
         }
 
         size_t track() const {
-            return ref_.tag()->track();
+            return ref_.isNull() ? 0 : ref_.tag()->track();
         }
 
         size_t year() const {
-            return ref_.tag()->year();
+            return ref_.isNull() ? 0 : ref_.tag()->year();
         }
 
     private:
-- 
2.43.0


From 9577f506ad608ea84750d702d6b1852eacfc2cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:40 +0000
Subject: [PATCH 54/82] fix: python package: encoder, decoder and resampler
 hold a handle and are not copied

---
 bindings/python/src/io.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/bindings/python/src/io.cpp b/bindings/python/src/io.cpp
index 1199587..88bf99a 100644
--- a/bindings/python/src/io.cpp
+++ b/bindings/python/src/io.cpp
@@ -93,7 +93,7 @@ void add_io_package() {
         .def("artist", &edsp::io::metadata::artist)
         .def("track", &edsp::io::metadata::track);
 
-    bp::class_<encoder>("Encoder", bp::init<std::size_t, std::size_t>())
+    bp::class_<encoder, boost::noncopyable>("Encoder", bp::init<std::size_t, std::size_t>())
         .def("open", &encoder::open)
         .def("is_open", &encoder::is_open)
         .def("close", &encoder::close)
@@ -101,7 +101,7 @@ void add_io_package() {
         .def("samplerate", &encoder::sample_rate)
         .def("write", encoder_wrapper);
 
-    bp::class_<decoder>("Decoder", bp::init<>())
+    bp::class_<decoder, boost::noncopyable>("Decoder", bp::init<>())
         .def("open", &decoder::open)
         .def("is_open", &decoder::is_open)
         .def("close", &decoder::close)
@@ -119,7 +119,7 @@ void add_io_package() {
         .value("Fastest", edsp::io::resample_quality::sinc_fastest)
         .value("ZeroOrderHold", edsp::io::resample_quality::zero_order_hold);
 
-    bp::class_<resampler>("Resampler", bp::init<std::size_t, edsp::io::resample_quality, real_t>())
+    bp::class_<resampler, boost::noncopyable>("Resampler", bp::init<std::size_t, edsp::io::resample_quality, real_t>())
         .def("process", resampler_process_wrapper)
         .def("error_string", resampler_error_string_wrapper)
         .def("quality", &resampler::quality)
-- 
2.43.0


From 9d9c9b8e02372095ed6ccf1a72f4d78bbbdf898e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:24:40 +0000
Subject: [PATCH 55/82] fix: python package: arrays of another type or not
 contiguous are refused

---
 .../include/boost_numpy_dependencies.hpp      |  9 ++++++
 bindings/python/src/algorithm.cpp             | 20 ++++++-------
 bindings/python/src/converter.cpp             | 20 ++++++-------
 bindings/python/src/feature_spectral.cpp      |  8 +++---
 bindings/python/src/feature_statistics.cpp    |  8 +++---
 bindings/python/src/feature_temporal.cpp      |  8 +++---
 bindings/python/src/filter.cpp                |  4 +--
 bindings/python/src/io.cpp                    |  8 +++---
 bindings/python/src/spectral.cpp              | 28 +++++++++----------
 bindings/python/src/statistics.cpp            |  4 +--
 10 files changed, 63 insertions(+), 54 deletions(-)

diff --git a/bindings/python/include/boost_numpy_dependencies.hpp b/bindings/python/include/boost_numpy_dependencies.hpp
index 0a5bd0c..de01462 100644
--- a/bindings/python/include/boost_numpy_dependencies.hpp
+++ b/bindings/python/include/boost_numpy_dependencies.hpp
@@ -40,4 +40,13 @@ namespace bp = boost::python;
 namespace bn = boost::python::numpy;
 #endif
 
+/**
+ * @brief Checks if the data of an array can be read as consecutive elements of type T.
+ */
+template <typename T>
+inline bool is_vector(const bn::ndarray& array) {
+    return array.get_nd() == 1 && bn::equivalent(array.get_dtype(), bn::dtype::get_builtin<T>()) &&
+           (array.get_flags() & bn::ndarray::CARRAY_RO) == bn::ndarray::CARRAY_RO;
+}
+
 #endif //EDSP_BOOST_NUMPY_DEPENDENCIES_HPP
diff --git a/bindings/python/src/algorithm.cpp b/bindings/python/src/algorithm.cpp
index 9cf43b0..daa744a 100644
--- a/bindings/python/src/algorithm.cpp
+++ b/bindings/python/src/algorithm.cpp
@@ -27,8 +27,8 @@
 
 template <typename Functor, typename... Args>
 bn::ndarray execute_inplace(Functor&& f, bn::ndarray& input, Args... arg) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
+    if (!is_vector<real_t>(input)) {
+        throw std::invalid_argument("Expected one-dimensional contiguous arrays of the type of the samples");
     }
 
     const auto size      = input.shape(0);
@@ -42,8 +42,8 @@ bn::ndarray execute_inplace(Functor&& f, bn::ndarray& input, Args... arg) {
 
 template <typename Functor, typename... Args>
 auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
+    if (!is_vector<real_t>(input)) {
+        throw std::invalid_argument("Expected one-dimensional contiguous arrays of the type of the samples");
     }
 
     const auto size = input.shape(0);
@@ -117,8 +117,8 @@ auto index_of_python(bn::ndarray& input, real_t value) {
 }
 
 bool equal_python(bn::ndarray& first, bn::ndarray& second) {
-    if (first.get_nd() != 1 || second.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
+    if (!is_vector<real_t>(first) || !is_vector<real_t>(second)) {
+        throw std::invalid_argument("Expected one-dimensional contiguous arrays of the type of the samples");
     }
 
     const auto size  = first.shape(0);
@@ -133,8 +133,8 @@ bool equal_python(bn::ndarray& first, bn::ndarray& second) {
 }
 
 bn::ndarray concatenate_python(bn::ndarray& first, bn::ndarray& second) {
-    if (first.get_nd() != 1 || second.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
+    if (!is_vector<real_t>(first) || !is_vector<real_t>(second)) {
+        throw std::invalid_argument("Expected one-dimensional contiguous arrays of the type of the samples");
     }
 
     const auto first_size  = first.shape(0);
@@ -150,8 +150,8 @@ bn::ndarray concatenate_python(bn::ndarray& first, bn::ndarray& second) {
 }
 
 bn::ndarray padder_python(bn::ndarray& input, long size) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
+    if (!is_vector<real_t>(input)) {
+        throw std::invalid_argument("Expected one-dimensional contiguous arrays of the type of the samples");
     }
 
     const auto input_size = input.shape(0);
diff --git a/bindings/python/src/converter.cpp b/bindings/python/src/converter.cpp
index 265f9dd..042e825 100644
--- a/bindings/python/src/converter.cpp
+++ b/bindings/python/src/converter.cpp
@@ -25,8 +25,8 @@
 #include <cedsp/converter.h>
 
 real_t peak2rms_python(bn::ndarray& input) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
+    if (!is_vector<real_t>(input)) {
+        throw std::invalid_argument("Expected one-dimensional contiguous arrays of the type of the samples");
     }
     const auto size = input.shape(0);
     auto* data      = reinterpret_cast<real_t*>(input.get_data());
@@ -35,8 +35,8 @@ real_t peak2rms_python(bn::ndarray& input) {
 }
 
 real_t peak2peak_python(bn::ndarray& input) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
+    if (!is_vector<real_t>(input)) {
+        throw std::invalid_argument("Expected one-dimensional contiguous arrays of the type of the samples");
     }
     const auto size = input.shape(0);
     auto* data      = reinterpret_cast<real_t*>(input.get_data());
@@ -45,8 +45,8 @@ real_t peak2peak_python(bn::ndarray& input) {
 }
 
 bn::ndarray real2complex_python(bn::ndarray& input) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
+    if (!is_vector<real_t>(input)) {
+        throw std::invalid_argument("Expected one-dimensional contiguous arrays of the type of the samples");
     }
 
     const auto size      = input.shape(0);
@@ -60,8 +60,8 @@ bn::ndarray real2complex_python(bn::ndarray& input) {
 }
 
 bn::ndarray ri2complex_python(bn::ndarray& real, bn::ndarray& imag) {
-    if (real.get_nd() != 1 || imag.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
+    if (!is_vector<real_t>(real) || !is_vector<real_t>(imag)) {
+        throw std::invalid_argument("Expected one-dimensional contiguous arrays of the type of the samples");
     }
 
     const auto size      = real.shape(0);
@@ -76,8 +76,8 @@ bn::ndarray ri2complex_python(bn::ndarray& real, bn::ndarray& imag) {
 }
 
 bp::tuple complex2real_python(bn::ndarray& input) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
+    if (!is_vector<std::complex<real_t>>(input)) {
+        throw std::invalid_argument("Expected one-dimensional contiguous arrays of the type of the samples");
     }
 
     const auto size      = input.shape(0);
diff --git a/bindings/python/src/feature_spectral.cpp b/bindings/python/src/feature_spectral.cpp
index 201a045..8cd9314 100644
--- a/bindings/python/src/feature_spectral.cpp
+++ b/bindings/python/src/feature_spectral.cpp
@@ -37,8 +37,8 @@
 
 template <class Functor, typename... Args>
 auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
+    if (!is_vector<real_t>(input)) {
+        throw std::invalid_argument("Expected one-dimensional contiguous arrays of the type of the samples");
     }
     const auto size = input.shape(0);
     auto* data      = reinterpret_cast<real_t*>(input.get_data());
@@ -47,8 +47,8 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
 
 template <class Functor>
 auto execute(Functor&& f, bn::ndarray& first, bn::ndarray& second) {
-    if (first.get_nd() != 1 and second.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
+    if (!is_vector<real_t>(first) and !is_vector<real_t>(second)) {
+        throw std::invalid_argument("Expected one-dimensional contiguous arrays of the type of the samples");
     }
     const auto size   = first.shape(0);
     auto* first_data  = reinterpret_cast<real_t*>(first.get_data());
diff --git a/bindings/python/src/feature_statistics.cpp b/bindings/python/src/feature_statistics.cpp
index aa7e70b..e20e09d 100644
--- a/bindings/python/src/feature_statistics.cpp
+++ b/bindings/python/src/feature_statistics.cpp
@@ -34,8 +34,8 @@
 
 template <class Functor, typename... Args>
 auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
+    if (!is_vector<real_t>(input)) {
+        throw std::invalid_argument("Expected one-dimensional contiguous arrays of the type of the samples");
     }
     const auto size = input.shape(0);
     auto* data      = reinterpret_cast<real_t*>(input.get_data());
@@ -44,8 +44,8 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
 
 template <class Functor>
 auto execute_two_inputs(Functor&& f, bn::ndarray& first, bn::ndarray& second) {
-    if (first.get_nd() != 1 and second.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
+    if (!is_vector<real_t>(first) and !is_vector<real_t>(second)) {
+        throw std::invalid_argument("Expected one-dimensional contiguous arrays of the type of the samples");
     }
     const auto size   = first.shape(0);
     auto* first_data  = reinterpret_cast<real_t*>(first.get_data());
diff --git a/bindings/python/src/feature_temporal.cpp b/bindings/python/src/feature_temporal.cpp
index ceedb3c..e25b280 100644
--- a/bindings/python/src/feature_temporal.cpp
+++ b/bindings/python/src/feature_temporal.cpp
@@ -33,8 +33,8 @@
 
 template <class Functor, typename... Args>
 auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
+    if (!is_vector<real_t>(input)) {
+        throw std::invalid_argument("Expected one-dimensional contiguous arrays of the type of the samples");
     }
 
     const auto size = input.shape(0);
@@ -44,8 +44,8 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
 
 template <class Functor, typename... Args>
 bn::ndarray execute_numpy(Functor&& f, bn::ndarray& input, Args... arg) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
+    if (!is_vector<real_t>(input)) {
+        throw std::invalid_argument("Expected one-dimensional contiguous arrays of the type of the samples");
     }
 
     const auto size      = input.shape(0);
diff --git a/bindings/python/src/filter.cpp b/bindings/python/src/filter.cpp
index 2d813af..73e6375 100644
--- a/bindings/python/src/filter.cpp
+++ b/bindings/python/src/filter.cpp
@@ -24,8 +24,8 @@
 
 template <typename Class>
 auto wrapper_filter(Class& obj, bn::ndarray& input) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
+    if (!is_vector<real_t>(input)) {
+        throw std::invalid_argument("Expected one-dimensional contiguous arrays of the type of the samples");
     }
     const auto size      = input.shape(0);
     Py_intptr_t shape[1] = {size};
diff --git a/bindings/python/src/io.cpp b/bindings/python/src/io.cpp
index 88bf99a..6e4e2d6 100644
--- a/bindings/python/src/io.cpp
+++ b/bindings/python/src/io.cpp
@@ -33,8 +33,8 @@ using decoder   = edsp::io::decoder<real_t>;
 using resampler = edsp::io::resampler<real_t>;
 
 auto encoder_wrapper(encoder& enc, bn::ndarray& input) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
+    if (!is_vector<real_t>(input)) {
+        throw std::invalid_argument("Expected one-dimensional contiguous arrays of the type of the samples");
     }
 
     const auto size = input.shape(0);
@@ -57,8 +57,8 @@ std::string resampler_error_string_wrapper(resampler& res) {
 }
 
 auto resampler_process_wrapper(resampler& res, bn::ndarray& input) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
+    if (!is_vector<real_t>(input)) {
+        throw std::invalid_argument("Expected one-dimensional contiguous arrays of the type of the samples");
     }
 
     const auto size          = input.shape(0);
diff --git a/bindings/python/src/spectral.cpp b/bindings/python/src/spectral.cpp
index 8f3bd56..72dda31 100644
--- a/bindings/python/src/spectral.cpp
+++ b/bindings/python/src/spectral.cpp
@@ -26,8 +26,8 @@
 
 template <typename Functor>
 bn::ndarray execute(Functor&& f, bn::ndarray& left, bn::ndarray& right) {
-    if (left.get_nd() != 1 || right.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
+    if (!is_vector<real_t>(left) || !is_vector<real_t>(right)) {
+        throw std::invalid_argument("Expected one-dimensional contiguous arrays of the type of the samples");
     }
 
     const auto size      = left.shape(0);
@@ -43,8 +43,8 @@ bn::ndarray execute(Functor&& f, bn::ndarray& left, bn::ndarray& right) {
 
 template <typename Functor>
 bn::ndarray execute(Functor&& f, bn::ndarray& input) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
+    if (!is_vector<real_t>(input)) {
+        throw std::invalid_argument("Expected one-dimensional contiguous arrays of the type of the samples");
     }
 
     const auto size      = input.shape(0);
@@ -59,8 +59,8 @@ bn::ndarray execute(Functor&& f, bn::ndarray& input) {
 
 template <typename Functor>
 bn::ndarray execute_r2r_half(Functor&& f, bn::ndarray& input) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
+    if (!is_vector<real_t>(input)) {
+        throw std::invalid_argument("Expected one-dimensional contiguous arrays of the type of the samples");
     }
 
     const auto size      = input.shape(0);
@@ -75,8 +75,8 @@ bn::ndarray execute_r2r_half(Functor&& f, bn::ndarray& input) {
 
 template <typename Functor>
 bn::ndarray execute_r2c_full(Functor&& f, bn::ndarray& input) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
+    if (!is_vector<real_t>(input)) {
+        throw std::invalid_argument("Expected one-dimensional contiguous arrays of the type of the samples");
     }
 
     const auto size      = input.shape(0);
@@ -91,8 +91,8 @@ bn::ndarray execute_r2c_full(Functor&& f, bn::ndarray& input) {
 
 template <typename Functor>
 bn::ndarray execute_r2c_half(Functor&& f, bn::ndarray& input) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
+    if (!is_vector<real_t>(input)) {
+        throw std::invalid_argument("Expected one-dimensional contiguous arrays of the type of the samples");
     }
 
     const auto size      = input.shape(0);
@@ -107,8 +107,8 @@ bn::ndarray execute_r2c_half(Functor&& f, bn::ndarray& input) {
 
 template <typename Functor>
 bn::ndarray execute_c2r(Functor&& f, bn::ndarray& input) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
+    if (!is_vector<std::complex<real_t>>(input)) {
+        throw std::invalid_argument("Expected one-dimensional contiguous arrays of the type of the samples");
     }
 
     const auto size      = input.shape(0);
@@ -123,8 +123,8 @@ bn::ndarray execute_c2r(Functor&& f, bn::ndarray& input) {
 
 template <typename Functor>
 bn::ndarray execute_c2c(Functor&& f, bn::ndarray& input) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
+    if (!is_vector<std::complex<real_t>>(input)) {
+        throw std::invalid_argument("Expected one-dimensional contiguous arrays of the type of the samples");
     }
 
     const auto size      = input.shape(0);
diff --git a/bindings/python/src/statistics.cpp b/bindings/python/src/statistics.cpp
index cf684e0..dfada66 100644
--- a/bindings/python/src/statistics.cpp
+++ b/bindings/python/src/statistics.cpp
@@ -26,8 +26,8 @@
 
 template <class Functor, typename... Arg>
 inline auto execute(Functor&& f, bn::ndarray& input, Arg... arg) {
-    if (input.get_nd() != 1) {
-        throw std::invalid_argument("Expected one-dimensional arrays");
+    if (!is_vector<real_t>(input)) {
+        throw std::invalid_argument("Expected one-dimensional contiguous arrays of the type of the samples");
     }
 
     const auto size = input.shape(0);
-- 
2.43.0


From 624082ab2f674543f0a8b45926f7b8a4851c0a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:43 +0000
Subject: [PATCH 56/82] fix: python package: features of two arrays check both
 arrays and their sizes

---
 bindings/python/src/feature_spectral.cpp   | 5 ++++-
 bindings/python/src/feature_statistics.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/bindings/python/src/feature_spectral.cpp b/bindings/python/src/feature_spectral.cpp
index 8cd9314..040417a 100644
--- a/bindings/python/src/feature_spectral.cpp
+++ b/bindings/python/src/feature_spectral.cpp
@@ -47,9 +47,12 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
 
 template <class Functor>
 auto execute(Functor&& f, bn::ndarray& first, bn::ndarray& second) {
-    if (!is_vector<real_t>(first) and !is_vector<real_t>(second)) {
+    if (!is_vector<real_t>(first) or !is_vector<real_t>(second)) {
         throw std::invalid_argument("Expected one-dimensional contiguous arrays of the type of the samples");
     }
+    if (first.shape(0) != second.shape(0)) {
+        throw std::invalid_argument("Expected arrays of the same size");
+    }
     const auto size   = first.shape(0);
     auto* first_data  = reinterpret_cast<real_t*>(first.get_data());
     auto* second_data = reinterpret_cast<real_t*>(second.get_data());
diff --git a/bindings/python/src/feature_statistics.cpp b/bindings/python/src/feature_statistics.cpp
index e20e09d..f2f2f2e 100644
--- a/bindings/python/src/feature_statistics.cpp
+++ b/bindings/python/src/feature_statistics.cpp
@@ -44,9 +44,12 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
 
 template <class Functor>
 auto execute_two_inputs(Functor&& f, bn::ndarray& first, bn::ndarray& second) {
-    if (!is_vector<real_t>(first) and !is_vector<real_t>(second)) {
+    if (!is_vector<real_t>(first) or !is_vector<real_t>(second)) {
         throw std::invalid_argument("Expected one-dimensional contiguous arrays of the type of the samples");
     }
+    if (first.shape(0) != second.shape(0)) {
+        throw std::invalid_argument("Expected arrays of the same size");
+    }
     const auto size   = first.shape(0);
     auto* first_data  = reinterpret_cast<real_t*>(first.get_data());
     auto* second_data = reinterpret_cast<real_t*>(second.get_data());
-- 
2.43.0


From 0df42aa790d975ec2474a133a6dc90bbe6cb3ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:43 +0000
Subject: [PATCH 57/82] fix: python package: ri2complex refuses parts of
 different sizes

---
 bindings/python/src/converter.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bindings/python/src/converter.cpp b/bindings/python/src/converter.cpp
index 042e825..e45c620 100644
--- a/bindings/python/src/converter.cpp
+++ b/bindings/python/src/converter.cpp
@@ -63,6 +63,9 @@ bn::ndarray ri2complex_python(bn::ndarray& real, bn::ndarray& imag) {
     if (!is_vector<real_t>(real) || !is_vector<real_t>(imag)) {
         throw std::invalid_argument("Expected one-dimensional contiguous arrays of the type of the samples");
     }
+    if (real.shape(0) != imag.shape(0)) {
+        throw std::invalid_argument("Expected arrays of the same size");
+    }
 
     const auto size      = real.shape(0);
     Py_intptr_t shape[1] = {size};
-- 
2.43.0


From cdaf1e5f74f34d749a7f123fcf614ee2a8a887e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:43 +0000
Subject: [PATCH 58/82] fix: python package: conv and xcorr refuse signals of
 different sizes

---
 bindings/python/src/spectral.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bindings/python/src/spectral.cpp b/bindings/python/src/spectral.cpp
index 72dda31..a9e68b0 100644
--- a/bindings/python/src/spectral.cpp
+++ b/bindings/python/src/spectral.cpp
@@ -29,6 +29,9 @@ bn::ndarray execute(Functor&& f, bn::ndarray& left, bn::ndarray& right) {
     if (!is_vector<real_t>(left) || !is_vector<real_t>(right)) {
         throw std::invalid_argument("Expected one-dimensional contiguous arrays of the type of the samples");
     }
+    if (left.shape(0) != right.shape(0)) {
+        throw std::invalid_argument("Expected arrays of the same size");
+    }
 
     const auto size      = left.shape(0);
     Py_intptr_t shape[1] = {size};
-- 
2.43.0


From 5272051897c1b41e576e5ead8b8fc872b5f0072c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:43 +0000
Subject: [PATCH 59/82] fix: python package: real2complex converts its argument

---
 bindings/python/src/converter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/src/converter.cpp b/bindings/python/src/converter.cpp
index e45c620..23ff9d9 100644
--- a/bindings/python/src/converter.cpp
+++ b/bindings/python/src/converter.cpp
@@ -53,7 +53,7 @@ bn::ndarray real2complex_python(bn::ndarray& input) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<std::complex<real_t>>());
 
-    auto* real        = reinterpret_cast<real_t*>(result.get_data());
+    auto* real        = reinterpret_cast<real_t*>(input.get_data());
     auto* result_data = reinterpret_cast<complex_t*>(result.get_data());
     real2complex(real, size, result_data);
     return result;
-- 
2.43.0


From bdf5b797c7711b5ae07ccff335e5152c7dee33f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:43 +0000
Subject: [PATCH 60/82] fix: python package: pad refuses a size smaller than
 the input

---
 bindings/python/src/algorithm.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/bindings/python/src/algorithm.cpp b/bindings/python/src/algorithm.cpp
index daa744a..5928627 100644
--- a/bindings/python/src/algorithm.cpp
+++ b/bindings/python/src/algorithm.cpp
@@ -155,6 +155,10 @@ bn::ndarray padder_python(bn::ndarray& input, long size) {
     }
 
     const auto input_size = input.shape(0);
+    if (size < input_size) {
+        throw std::invalid_argument("Expected a size greater or equal than the input size");
+    }
+
     Py_intptr_t shape[1]  = {size};
     auto result           = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
     auto* in              = reinterpret_cast<real_t*>(input.get_data());
-- 
2.43.0


From b44245f3183c025e37f278fbebd6ab9ceced3256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:43 +0000
Subject: [PATCH 61/82] fix: python package: an absent environment variable is
 reported by the error

---
 bindings/python/src/core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/src/core.cpp b/bindings/python/src/core.cpp
index 18de363..879b84d 100644
--- a/bindings/python/src/core.cpp
+++ b/bindings/python/src/core.cpp
@@ -27,7 +27,7 @@
 bp::tuple get_environment_python(const char* tag) {
     int error = 0;
     const char* data = get_environment(tag, &error);
-    return bp::make_tuple(std::string(data), error);
+    return bp::make_tuple(std::string(data ? data : ""), error);
 }
 
 void add_core_package() {
-- 
2.43.0


From dba271d0925d3e598f7272c70cb68efd8e19a53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:43 +0000
Subject: [PATCH 62/82] fix: python package: a wrong size in the auditory
 spaces is an error of the caller

---
 bindings/python/src/auditory.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bindings/python/src/auditory.cpp b/bindings/python/src/auditory.cpp
index 323e508..b8e694d 100644
--- a/bindings/python/src/auditory.cpp
+++ b/bindings/python/src/auditory.cpp
@@ -37,7 +37,7 @@ constexpr auto converter_python(Functor&& f, T frequency) noexcept {
 }
 
 template <class Functor, typename T, typename Integer>
-bn::ndarray generate_python(Functor&& f, T min, T max, Integer size) noexcept {
+bn::ndarray generate_python(Functor&& f, T min, T max, Integer size) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
     auto* data           = reinterpret_cast<real_t*>(result.get_data());
@@ -77,19 +77,19 @@ real_t erb2hertz(real_t frequency) noexcept {
     return converter_python(edsp::auditory::erb2hertz<real_t>, frequency);
 }
 
-bn::ndarray erbspace(real_t min, real_t max, long size) noexcept {
+bn::ndarray erbspace(real_t min, real_t max, long size) {
     return generate_python(edsp::auditory::erbspace<real_t*, real_t>, min, max, size);
 }
 
-bn::ndarray barkspace(real_t min, real_t max, long size) noexcept {
+bn::ndarray barkspace(real_t min, real_t max, long size) {
     return generate_python(edsp::auditory::barkspace<real_t*, real_t>, min, max, size);
 }
 
-bn::ndarray centspace(real_t min, real_t max, long size) noexcept {
+bn::ndarray centspace(real_t min, real_t max, long size) {
     return generate_python(edsp::auditory::centspace<real_t*, real_t>, min, max, size);
 }
 
-bn::ndarray melspace(real_t min, real_t max, long size) noexcept {
+bn::ndarray melspace(real_t min, real_t max, long size) {
     return generate_python(edsp::auditory::melspace<real_t*, real_t>, min, max, size);
 }
 
-- 
2.43.0


From 0d828a3599c8af112cd7520ff4026f525548d686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:43 +0000
Subject: [PATCH 63/82] fix: python package: the decoder returns the samples it
 read

---
 bindings/python/src/io.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/bindings/python/src/io.cpp b/bindings/python/src/io.cpp
index 6e4e2d6..680e2e0 100644
--- a/bindings/python/src/io.cpp
+++ b/bindings/python/src/io.cpp
@@ -47,9 +47,11 @@ auto decoder_wrapper(decoder& dec, unsigned int size) {
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
     auto data            = reinterpret_cast<real_t*>(result.get_data());
     const auto sizes     = dec.read(data, data + size);
-    const auto frames    = sizes / dec.channels();
-    result.reshape(bp::make_tuple(frames, dec.channels()));
-    return result;
+
+    Py_intptr_t final_shape[1] = {static_cast<Py_intptr_t>(sizes)};
+    auto final_result          = bn::empty(1, final_shape, bn::dtype::get_builtin<real_t>());
+    std::copy(data, data + sizes, reinterpret_cast<real_t*>(final_result.get_data()));
+    return final_result;
 }
 
 std::string resampler_error_string_wrapper(resampler& res) {
-- 
2.43.0


From ac5574930db84ce8a083ed7a2658c1ba41491959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:27:43 +0000
Subject: [PATCH 64/82] fix: python package: the resampler returns all the
 channels it produced

---
 bindings/python/src/io.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bindings/python/src/io.cpp b/bindings/python/src/io.cpp
index 680e2e0..45d8f30 100644
--- a/bindings/python/src/io.cpp
+++ b/bindings/python/src/io.cpp
@@ -64,20 +64,20 @@ auto resampler_process_wrapper(resampler& res, bn::ndarray& input) {
     }
 
     const auto size          = input.shape(0);
-    const auto expected_size = static_cast<unsigned int>(size * res.ratio());
+    const auto channels      = res.channels();
+    const auto expected_size = static_cast<std::size_t>(res.ratio() * (size / channels)) * channels;
 
-    Py_intptr_t shape[1] = {expected_size};
+    Py_intptr_t shape[1] = {static_cast<Py_intptr_t>(expected_size)};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
     auto data            = reinterpret_cast<real_t*>(result.get_data());
     auto in              = reinterpret_cast<real_t*>(input.get_data());
     const auto sizes     = res.process(in, in + size, data);
 
-    Py_intptr_t final_shape[2] = {sizes.second, res.channels()};
-    const auto final_samples   = sizes.second * res.channels();
+    const auto final_samples   = sizes.second * channels;
+    Py_intptr_t final_shape[1] = {final_samples};
     auto final_result          = bn::empty(1, final_shape, bn::dtype::get_builtin<real_t>());
     auto final_data            = reinterpret_cast<real_t*>(final_result.get_data());
     std::copy(data, data + final_samples, final_data);
-    final_result.reshape(bp::make_tuple(sizes.second, res.channels()));
     return bp::make_tuple(final_result, sizes.first);
 }
 
-- 
2.43.0


From 767bbdedc6ef008c2c19d82448d7d6dd70606119 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:05:03 +0000
Subject: [PATCH 65/82] fix: compare numbers in their own type in meta::equal

---
 include/edsp/meta/equal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/meta/equal.hpp b/include/edsp/meta/equal.hpp
index a1b333c..a609504 100644
--- a/include/edsp/meta/equal.hpp
+++ b/include/edsp/meta/equal.hpp
@@ -33,8 +33,8 @@ namespace edsp { namespace meta {
 
         template <typename T, bool = std::is_floating_point<T>::value>
         struct _equal {
-            constexpr bool operator()(const float& lhs, const float& rhs) {
-                return std::abs(lhs - rhs) < std::numeric_limits<float>::epsilon();
+            constexpr bool operator()(const T& lhs, const T& rhs) {
+                return lhs == rhs || std::abs(lhs - rhs) < std::numeric_limits<float>::epsilon();
             }
         };
 
-- 
2.43.0


From 0f6f33b23ced92c37742102298b55146bf44a3c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:19 +0000
Subject: [PATCH 66/82] fix: write a tab and a line end in the logger instead
 of their codes

---
 include/edsp/core/logger.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/edsp/core/logger.hpp b/include/edsp/core/logger.hpp
index 0f52df8..cf6e00e 100644
--- a/include/edsp/core/logger.hpp
+++ b/include/edsp/core/logger.hpp
@@ -224,11 +224,13 @@ namespace edsp { inline namespace core {
     inline namespace internal {
         struct logger_impl {
             inline static logger& tab(logger& stream) {
-                return stream << '\t';
+                stream.msg_ << '\t';
+                return stream;
             }
 
             inline static logger& endl(logger& stream) {
-                return stream << '\n';
+                stream.msg_ << '\n';
+                return stream;
             }
 
             inline static logger& red(logger& stream) {
-- 
2.43.0


From 3c02abf0aaa3e0c344f965a4e172c5324bb38d87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:19 +0000
Subject: [PATCH 67/82] fix: log exactly the characters of a text or view

---
 include/edsp/core/logger.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/core/logger.hpp b/include/edsp/core/logger.hpp
index cf6e00e..f6a954e 100644
--- a/include/edsp/core/logger.hpp
+++ b/include/edsp/core/logger.hpp
@@ -485,13 +485,13 @@ namespace edsp { inline namespace core {
 
     template <typename Char>
     logger& logger::operator<<(const std::basic_string<Char>& str) {
-        msg_ << str.data();
+        msg_.write(str.data(), static_cast<std::streamsize>(str.size()));
         return space();
     }
 
     template <typename Char>
     logger& logger::operator<<(const edsp::basic_string_view<Char>& str) {
-        msg_ << str.data();
+        msg_.write(str.data(), static_cast<std::streamsize>(str.size()));
         return space();
     }
 
-- 
2.43.0


From 7767a20d0277fa1564cbcadfb72b6ad7a3efab81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:19 +0000
Subject: [PATCH 68/82] fix: honour the minimum level of the logger

---
 include/edsp/core/logger.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/edsp/core/logger.hpp b/include/edsp/core/logger.hpp
index f6a954e..e4a4419 100644
--- a/include/edsp/core/logger.hpp
+++ b/include/edsp/core/logger.hpp
@@ -430,7 +430,9 @@ namespace edsp { inline namespace core {
 
     logger::~logger() {
         edsp::endc(*this);
-        std::cout << msg_.str();
+        if (type_ >= global_level() && type_ != levels::off) {
+            std::cout << msg_.str();
+        }
     }
 
     logger& logger::space() {
-- 
2.43.0


From 0c668aa2240a67efce119a2de0e2b2ffb5796be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:11 +0000
Subject: [PATCH 69/82] fix: assigning a variant of the same alternative
 destroys the object it held

---
 include/edsp/thirdparty/nonstd/variant.hpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/variant.hpp b/include/edsp/thirdparty/nonstd/variant.hpp
index 8cf0139..2072bb6 100644
--- a/include/edsp/thirdparty/nonstd/variant.hpp
+++ b/include/edsp/thirdparty/nonstd/variant.hpp
@@ -1651,8 +1651,6 @@ namespace nonstd {
                 } else if (!valueless_by_exception() && other.valueless_by_exception()) {
                     helper_type::destroy(type_index, ptr());
                     type_index = variant_npos_internal();
-                } else if (index() == other.index()) {
-                    type_index = helper_type::copy(other.type_index, other.ptr(), ptr());
                 } else {
                     // alas exception safety with pre-C++11 needs an extra copy:
 
@@ -1660,9 +1658,9 @@ namespace nonstd {
                     helper_type::destroy(type_index, ptr());
                     type_index = variant_npos_internal();
 #        if variant_CPP11_OR_GREATER
-                    type_index = helper_type::move(other.type_index, tmp.ptr(), ptr());
+                    type_index = helper_type::move(tmp.type_index, tmp.ptr(), ptr());
 #        else
-                    type_index = helper_type::copy(other.type_index, tmp.ptr(), ptr());
+                    type_index = helper_type::copy(tmp.type_index, tmp.ptr(), ptr());
 #        endif
                 }
                 return *this;
@@ -1676,9 +1674,7 @@ namespace nonstd {
                 } else if (!valueless_by_exception() && other.valueless_by_exception()) {
                     helper_type::destroy(type_index, ptr());
                     type_index = variant_npos_internal();
-                } else if (index() == other.index()) {
-                    type_index = helper_type::move(other.type_index, other.ptr(), ptr());
-                } else {
+                } else if (this != &other) {
                     helper_type::destroy(type_index, ptr());
                     type_index = variant_npos_internal();
                     type_index = helper_type::move(other.type_index, other.ptr(), ptr());
-- 
2.43.0


From 592a3b6850f4adc75621d70305707c78d1f2522e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:11 +0000
Subject: [PATCH 70/82] fix: an any made from or assigned a named object copies
 it instead of moving from it

---
 include/edsp/thirdparty/nonstd/any.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/any.hpp b/include/edsp/thirdparty/nonstd/any.hpp
index eee470f..4798ddc 100644
--- a/include/edsp/thirdparty/nonstd/any.hpp
+++ b/include/edsp/thirdparty/nonstd/any.hpp
@@ -375,7 +375,7 @@ namespace nonstd {
 
             template <class ValueType, class T = typename std::decay<ValueType>::type,
                       typename = typename std::enable_if<!std::is_same<T, any>::value>::type>
-            any(ValueType&& value) any_noexcept : content(new holder<T>(std::move(value))) {}
+            any(ValueType&& value) any_noexcept : content(new holder<T>(std::forward<ValueType>(value))) {}
 
             template <class T, class... Args,
                       typename = typename std::enable_if<std::is_constructible<T, Args...>::value>::type>
@@ -414,7 +414,7 @@ namespace nonstd {
             template <class ValueType, class T = typename std::decay<ValueType>::type,
                       typename = typename std::enable_if<!std::is_same<T, any>::value>::type>
             any& operator=(ValueType&& value) {
-                any(std::move(value)).swap(*this);
+                any(std::forward<ValueType>(value)).swap(*this);
                 return *this;
             }
 
-- 
2.43.0


From 733ae3e1a082b54fb02900ee810954c8d7984fe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:11 +0000
Subject: [PATCH 71/82] fix: assigning an expected gives a reference to the
 assigned object

---
 include/edsp/thirdparty/nonstd/expected.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/thirdparty/nonstd/expected.hpp b/include/edsp/thirdparty/nonstd/expected.hpp
index bbf4631..835bcf1 100644
--- a/include/edsp/thirdparty/nonstd/expected.hpp
+++ b/include/edsp/thirdparty/nonstd/expected.hpp
@@ -926,7 +926,7 @@ namespace nonstd {
             //        std::is_copy_constructible<E>::value &&
             //        std::is_copy_assignable<E>::value )
 
-            expected operator=(expected const& other) {
+            expected& operator=(expected const& other) {
                 expected(other).swap(*this);
                 return *this;
             }
-- 
2.43.0


From 4fa29a181088f1d7f7dbaca982e010193e26b63e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:11 +0000
Subject: [PATCH 72/82] fix: two failed expecteds are equal only when their
 errors are

---
 include/edsp/thirdparty/nonstd/expected.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/thirdparty/nonstd/expected.hpp b/include/edsp/thirdparty/nonstd/expected.hpp
index 835bcf1..9e1a8c5 100644
--- a/include/edsp/thirdparty/nonstd/expected.hpp
+++ b/include/edsp/thirdparty/nonstd/expected.hpp
@@ -1338,7 +1338,7 @@ namespace nonstd {
 
         template <typename T, typename E>
         constexpr bool operator==(expected<T, E> const& x, expected<T, E> const& y) {
-            return bool(x) != bool(y) ? false : bool(x) == false ? true : *x == *y;
+            return bool(x) != bool(y) ? false : bool(x) == false ? x.error() == y.error() : *x == *y;
         }
 
         template <typename T, typename E>
-- 
2.43.0


From 876604a672a37994f667d175d221a833a1d24ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:11 +0000
Subject: [PATCH 73/82] fix: swapping an expected<void> destroys the error it
 moved away

---
 include/edsp/thirdparty/nonstd/expected.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/edsp/thirdparty/nonstd/expected.hpp b/include/edsp/thirdparty/nonstd/expected.hpp
index 9e1a8c5..99d1efd 100644
--- a/include/edsp/thirdparty/nonstd/expected.hpp
+++ b/include/edsp/thirdparty/nonstd/expected.hpp
@@ -1265,6 +1265,7 @@ namespace nonstd {
                     swap(contained.error(), other.contained.error());
                 } else if (bool(*this) && !bool(other)) {
                     contained.construct_error(std::move(other.error()));
+                    other.contained.destruct_error();
                     swap(has_value_, other.has_value_);
                 } else if (!bool(*this) && bool(other)) {
                     other.swap(*this);
-- 
2.43.0


From 38a891dafe48a229b561ed42803a6096342cd57a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:11 +0000
Subject: [PATCH 74/82] fix: find_last_of and find_last_not_of of an empty view
 find nothing

---
 include/edsp/thirdparty/nonstd/string_view.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/string_view.hpp b/include/edsp/thirdparty/nonstd/string_view.hpp
index 37e8e40..6a9ca83 100644
--- a/include/edsp/thirdparty/nonstd/string_view.hpp
+++ b/include/edsp/thirdparty/nonstd/string_view.hpp
@@ -705,7 +705,8 @@ nssv_DISABLE_MSVC_WARNINGS(4455 26481 26472)
 
             nssv_constexpr size_type find_last_of(basic_string_view v, size_type pos = npos) const nssv_noexcept // (1)
             {
-                return pos >= size() ? find_last_of(v, size() - 1)
+                return empty() ? npos
+                               : pos >= size() ? find_last_of(v, size() - 1)
                                      : to_pos(std::find_first_of(const_reverse_iterator(cbegin() + pos + 1), crend(),
                                                                  v.cbegin(), v.cend(), Traits::eq));
             }
@@ -753,7 +754,8 @@ nssv_DISABLE_MSVC_WARNINGS(4455 26481 26472)
             nssv_constexpr size_type find_last_not_of(basic_string_view v,
                                                       size_type pos = npos) const nssv_noexcept // (1)
             {
-                return pos >= size()
+                return empty() ? npos
+                               : pos >= size()
                            ? find_last_not_of(v, size() - 1)
                            : to_pos(std::find_if(const_reverse_iterator(cbegin() + pos + 1), crend(), not_in_view(v)));
             }
-- 
2.43.0


From 36eea6e1d7c195967870df93055adba08a28a229 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:36:11 +0000
Subject: [PATCH 75/82] fix: an empty pattern is found at the end of a view as
 well

---
 include/edsp/thirdparty/nonstd/string_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/thirdparty/nonstd/string_view.hpp b/include/edsp/thirdparty/nonstd/string_view.hpp
index 6a9ca83..c1d32cd 100644
--- a/include/edsp/thirdparty/nonstd/string_view.hpp
+++ b/include/edsp/thirdparty/nonstd/string_view.hpp
@@ -627,7 +627,7 @@ nssv_DISABLE_MSVC_WARNINGS(4455 26481 26472)
             nssv_constexpr14 size_type find(basic_string_view v, size_type pos = 0) const nssv_noexcept // (1)
             {
                 return assert(v.size() == 0 || v.data() != nssv_nullptr),
-                       pos >= size() ? npos
+                       pos > size() ? npos : v.empty() ? pos
                                      : to_pos(std::search(cbegin() + pos, cend(), v.cbegin(), v.cend(), Traits::eq));
             }
 
-- 
2.43.0


From df1e9931a7c41cad724348245fb2857435c397f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:30 +0000
Subject: [PATCH 76/82] fix: equal variants have equal hashes

---
 include/edsp/thirdparty/nonstd/variant.hpp | 32 ++++++++++------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/variant.hpp b/include/edsp/thirdparty/nonstd/variant.hpp
index 2072bb6..441d40e 100644
--- a/include/edsp/thirdparty/nonstd/variant.hpp
+++ b/include/edsp/thirdparty/nonstd/variant.hpp
@@ -275,6 +275,7 @@ namespace nonstd {
 // additional includes:
 
 #        if variant_HAVE_INITIALIZER_LIST
+#            include <functional>
 #            include <initializer_list>
 #        endif
 
@@ -915,22 +916,6 @@ namespace nonstd {
 
 #        endif // variant_CONFIG_MAX_ALIGN_HACK
 
-            template <typename T>
-            inline std::size_t hash(T const& v) {
-                // primes:
-                unsigned const int a  = 54059;
-                unsigned const int b  = 76963;
-                unsigned const int h0 = 37;
-
-                unsigned int h         = h0;
-                unsigned char const* s = reinterpret_cast<unsigned char const*>(&v);
-
-                for (std::size_t i = 0; i < sizeof(v); ++i, ++s) {
-                    h = (h * a) ^ (*s * b);
-                }
-                return h;
-            }
-
             template <class T0, class T1, class T2, class T3, class T4, class T5, class T6, class T7, class T8,
                       class T9, class T10, class T11, class T12, class T13, class T14, class T15>
             struct helper {
@@ -2339,6 +2324,17 @@ namespace nonstd {
 
 // specialize the std::hash algorithm:
 
+namespace nonstd { namespace variants { namespace detail {
+
+    struct value_hash {
+        template <class T>
+        std::size_t operator()(T const& value) const {
+            return std::hash<T>()(value);
+        }
+    };
+
+}}} // namespace nonstd::variants::detail
+
 namespace std {
 
     template <>
@@ -2354,7 +2350,9 @@ namespace std {
         std::size_t
             operator()(nonstd::variant<T0, T1, T2, T3, T4, T5, T6, T7, T8, T9, T10, T11, T12, T13, T14, T15> const& v)
                 const variant_noexcept {
-            return nonstd::variants::detail::hash(v);
+            if (v.valueless_by_exception())
+                return 0;
+            return nonstd::visit(nonstd::variants::detail::value_hash(), v) + 54059 * v.index();
         }
     };
 
-- 
2.43.0


From f82af1f1110f5a6d69d045348bb3e4844ddc329f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:54 +0000
Subject: [PATCH 77/82] fix: pffft: the Hartley transform counts the first
 sample

---
 include/edsp/spectral/internal/libpffft_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/spectral/internal/libpffft_impl.hpp b/include/edsp/spectral/internal/libpffft_impl.hpp
index 9f70555..50cf63a 100644
--- a/include/edsp/spectral/internal/libpffft_impl.hpp
+++ b/include/edsp/spectral/internal/libpffft_impl.hpp
@@ -111,7 +111,7 @@ namespace edsp { inline namespace spectral {
         template <typename T, typename R>
         void useless_dht(const T* input, T* dst, R N) {
             for (auto k = 0; k < N; ++k) {
-                dst[k] = 0;
+                dst[k] = input[0];
                 for (auto j = 1; j < N; ++j) {
                     const auto factor = math::constants<T>::two_pi * j * k / static_cast<T>(N);
                     dst[k] += input[j] * (std::cos(factor) + std::sin(factor));
-- 
2.43.0


From bd8df3b81d3565755c027ec772daea7026a2c7cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:54 +0000
Subject: [PATCH 78/82] fix: pffft: the cosine transforms work for sizes that
 are not powers of two

---
 .../edsp/spectral/internal/libpffft_impl.hpp  | 46 ++++++++++++++-----
 1 file changed, 35 insertions(+), 11 deletions(-)

diff --git a/include/edsp/spectral/internal/libpffft_impl.hpp b/include/edsp/spectral/internal/libpffft_impl.hpp
index 50cf63a..bb743aa 100644
--- a/include/edsp/spectral/internal/libpffft_impl.hpp
+++ b/include/edsp/spectral/internal/libpffft_impl.hpp
@@ -76,10 +76,38 @@ namespace edsp { inline namespace spectral {
             }
         }
 
+        template <typename T, typename R>
+        void useless_dct(const T* input, T* dst, R N) {
+            for (R k = 0; k < N; ++k) {
+                dst[k] = 0;
+                for (R j = 0; j < N; ++j) {
+                    dst[k] += 2 * input[j] * std::cos(math::constants<T>::pi * k * (j + 0.5) / static_cast<T>(N));
+                }
+            }
+        }
+
+        template <typename T, typename R>
+        void useless_idct(const T* input, T* dst, R N) {
+            for (R k = 0; k < N; ++k) {
+                dst[k] = 0;
+                for (R j = 1; j < N; ++j) {
+                    dst[k] += input[j] * std::cos(math::constants<T>::pi * j * (k + 0.5) / static_cast<T>(N));
+                }
+                dst[k] = input[0] + 2 * dst[k];
+            }
+        }
+
         // DCT type II, unscaled. Algorithm by Byeong Gi Lee, 1984.
         // See: http://citeseerx.ist.psu.edu/viewdoc/download?doi=10.1.1.118.3056&rep=rep1&type=pdf#page=34
         inline void dct(float* vec, size_t len) {
             std::vector<float> temp(len);
+            if ((len & (len - 1)) != 0) {
+                // The algorithm halves the signal down to one sample
+                useless_dct(vec, temp.data(), len);
+                std::copy(temp.cbegin(), temp.cend(), vec);
+                return;
+            }
+
             forward_transform(vec, temp.data(), len);
             for (size_t i = 0; i < len; ++i) {
                 vec[i] *= 2;
@@ -89,6 +117,13 @@ namespace edsp { inline namespace spectral {
         // DCT type III, unscaled. Algorithm by Byeong Gi Lee, 1984.
         // See: http://tsp7.snu.ac.kr/int_jour/IJ_2.pdf
         inline void idct(float* vec, size_t len) {
+            if ((len & (len - 1)) != 0) {
+                // The algorithm halves the signal down to one sample
+                std::vector<float> input(vec, vec + len);
+                useless_idct(input.data(), vec, len);
+                return;
+            }
+
             for (size_t i = 0; i < len; ++i) {
                 vec[i] *= 2;
             }
@@ -97,17 +132,6 @@ namespace edsp { inline namespace spectral {
             inverse_transform(vec, temp.data(), len);
         }
 
-        template <typename T, typename R>
-        void useless_idct(const T* input, T* dst, R N) {
-            for (auto k = 0; k < N; ++k) {
-                dst[k] = 0;
-                for (auto j = 1; j < N; ++j) {
-                    dst[k] += input[j] * std::cos(math::constants<T>::pi * j * (k + 0.5) / static_cast<T>(N));
-                }
-                dst[k] = input[0] + 2 * dst[k];
-            }
-        }
-
         template <typename T, typename R>
         void useless_dht(const T* input, T* dst, R N) {
             for (auto k = 0; k < N; ++k) {
-- 
2.43.0


From b8249a6bc0d57eaf519e4f1918c257dacb54c5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:54 +0000
Subject: [PATCH 79/82] fix: pffft: the spectrum of a real signal has its
 middle bin in its own place

---
 include/edsp/spectral/internal/libpffft_impl.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/edsp/spectral/internal/libpffft_impl.hpp b/include/edsp/spectral/internal/libpffft_impl.hpp
index bb743aa..0bf0eeb 100644
--- a/include/edsp/spectral/internal/libpffft_impl.hpp
+++ b/include/edsp/spectral/internal/libpffft_impl.hpp
@@ -189,13 +189,20 @@ namespace edsp { inline namespace spectral {
                 plan_ = pffft_new_setup(nfft_, PFFFT_REAL);
             }
             pffft_transform_ordered(plan_, src, reinterpret_cast<float*>(dst), work_, PFFFT_FORWARD);
+            // The first and the middle bins, both real, are packed together
+            dst[nfft_ / 2] = complex_type(dst[0].imag(), 0);
+            dst[0]         = complex_type(dst[0].real(), 0);
         }
 
         inline void idft(const complex_type* src, value_type* dst) {
             if (meta::is_null(plan_)) {
                 plan_ = pffft_new_setup(nfft_, PFFFT_REAL);
             }
-            pffft_transform_ordered(plan_, reinterpret_cast<const float*>(src), dst, work_, PFFFT_BACKWARD);
+            // The first and the middle bins, both real, are packed together
+            auto* packed = work_ + nfft_;
+            std::copy(src, src + nfft_ / 2, reinterpret_cast<complex_type*>(packed));
+            packed[1] = src[nfft_ / 2].real();
+            pffft_transform_ordered(plan_, packed, dst, work_, PFFFT_BACKWARD);
         }
 
         inline void dht(const value_type* src, value_type* dst) {
-- 
2.43.0


From 03352df982fea05df42b37ba2710414f376b1a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:13 +0000
Subject: [PATCH 80/82] fix: pffft: one engine runs any sequence of transforms
 of the sizes there are

---
 .../edsp/spectral/internal/libpffft_impl.hpp  | 37 +++++++++++--------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/include/edsp/spectral/internal/libpffft_impl.hpp b/include/edsp/spectral/internal/libpffft_impl.hpp
index 0bf0eeb..23de8f5 100644
--- a/include/edsp/spectral/internal/libpffft_impl.hpp
+++ b/include/edsp/spectral/internal/libpffft_impl.hpp
@@ -169,25 +169,19 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void dft(const complex_type* src, complex_type* dst) {
-            if (meta::is_null(plan_)) {
-                plan_ = pffft_new_setup(nfft_, PFFFT_COMPLEX);
-            }
+            prepare(PFFFT_COMPLEX);
             pffft_transform_ordered(plan_, reinterpret_cast<const float*>(src), reinterpret_cast<float*>(dst), work_,
                                     PFFFT_FORWARD);
         }
 
         inline void idft(const complex_type* src, complex_type* dst) {
-            if (meta::is_null(plan_)) {
-                plan_ = pffft_new_setup(nfft_, PFFFT_COMPLEX);
-            }
+            prepare(PFFFT_COMPLEX);
             pffft_transform_ordered(plan_, reinterpret_cast<const float*>(src), reinterpret_cast<float*>(dst), work_,
                                     PFFFT_BACKWARD);
         }
 
         inline void dft(const value_type* src, complex_type* dst) {
-            if (meta::is_null(plan_)) {
-                plan_ = pffft_new_setup(nfft_, PFFFT_REAL);
-            }
+            prepare(PFFFT_REAL);
             pffft_transform_ordered(plan_, src, reinterpret_cast<float*>(dst), work_, PFFFT_FORWARD);
             // The first and the middle bins, both real, are packed together
             dst[nfft_ / 2] = complex_type(dst[0].imag(), 0);
@@ -195,9 +189,7 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void idft(const complex_type* src, value_type* dst) {
-            if (meta::is_null(plan_)) {
-                plan_ = pffft_new_setup(nfft_, PFFFT_REAL);
-            }
+            prepare(PFFFT_REAL);
             // The first and the middle bins, both real, are packed together
             auto* packed = work_ + nfft_;
             std::copy(src, src + nfft_ / 2, reinterpret_cast<complex_type*>(packed));
@@ -210,9 +202,6 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void dct(const value_type* src, value_type* dst) {
-            if (meta::is_null(plan_)) {
-                plan_ = pffft_new_setup(nfft_, PFFFT_REAL);
-            }
             std::copy(src, src + nfft_, dst);
             internal::dct(dst, nfft_);
         }
@@ -244,7 +233,25 @@ namespace edsp { inline namespace spectral {
         }
 
     private:
+        // A setup transforms either real or complex signals, of the sizes that the library supports
+        void prepare(pffft_transform_t kind) {
+            if (!meta::is_null(plan_) && kind_ == kind) {
+                return;
+            }
+
+            meta::expects(kind == PFFFT_COMPLEX || nfft_ % 32 == 0,
+                          "The size of a real transform must be a multiple of 32");
+            auto* plan = pffft_new_setup(nfft_, kind);
+            meta::expects(!meta::is_null(plan), "The size of a transform must be a product of 2, 3 and 5");
+            if (!meta::is_null(plan_)) {
+                pffft_destroy_setup(plan_);
+            }
+            plan_ = plan;
+            kind_ = kind;
+        }
+
         PFFFT_Setup* plan_{nullptr};
+        pffft_transform_t kind_{PFFFT_REAL};
         float* work_{nullptr};
         size_type nfft_;
     };
-- 
2.43.0


From 1eff3e9206db13483e49176abfea1087717b1b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:55:45 +0000
Subject: [PATCH 81/82] fix: pffft: copies of an engine do not share memory

---
 include/edsp/spectral/internal/libpffft_impl.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/edsp/spectral/internal/libpffft_impl.hpp b/include/edsp/spectral/internal/libpffft_impl.hpp
index 23de8f5..e17f740 100644
--- a/include/edsp/spectral/internal/libpffft_impl.hpp
+++ b/include/edsp/spectral/internal/libpffft_impl.hpp
@@ -161,6 +161,18 @@ namespace edsp { inline namespace spectral {
                 "Unfortunately, the fft_engine size must be a multiple of 16 for complex FFTs  and 32 for real FFTs");
         }
 
+        // The plan and the work area are not shared between copies
+        pffft_impl(const pffft_impl& other) : pffft_impl(other.nfft_) {}
+
+        pffft_impl& operator=(const pffft_impl& other) {
+            pffft_impl copy(other);
+            std::swap(plan_, copy.plan_);
+            std::swap(kind_, copy.kind_);
+            std::swap(work_, copy.work_);
+            std::swap(nfft_, copy.nfft_);
+            return *this;
+        }
+
         ~pffft_impl() {
             if (!meta::is_null(plan_)) {
                 pffft_destroy_setup(plan_);
-- 
2.43.0


From 3f8fd07a5c4287368a3f9b870df4a3ed64bcab43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:16 +0000
Subject: [PATCH 82/82] fix: a value is greater than a failed expected, as the
 failed one is less

---
 include/edsp/thirdparty/nonstd/expected.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/thirdparty/nonstd/expected.hpp b/include/edsp/thirdparty/nonstd/expected.hpp
index 99d1efd..6d21035 100644
--- a/include/edsp/thirdparty/nonstd/expected.hpp
+++ b/include/edsp/thirdparty/nonstd/expected.hpp
@@ -1467,7 +1467,7 @@ namespace nonstd {
 
         template <typename T, typename E>
         constexpr bool operator>(T const& v, expected<T, E> const& x) {
-            return bool(x) ? *x < v : false;
+            return bool(x) ? *x < v : true;
         }
 
         template <typename T, typename E>
-- 
2.43.0

