From 7c7c9a5efbe535fb0cec035e400b4cc2de338d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 01/50] fix: WidthMask(64) shifted by the full word width

---
 include/sim_ds/bit_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index f208c75..04ccaed 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -32,7 +32,7 @@ inline constexpr mask_type width_mask<64> = kMaskFill;
 
 inline constexpr mask_type WidthMask(size_t width) {
     assert(width <= kMaxWidthOfMask);
-    return (1ull << width) - 1;
+    return width < kMaxWidthOfMask ? (1ull << width) - 1 : kMaskFill;
 }
 
 template <size_t Offset>
-- 
2.43.0


From b2af445c378516553f5ccccf26de57a7986160f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 02/50] fix: portable popcnt32 overflowed its 4-bit sums

---
 include/sim_ds/bit_util.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index 04ccaed..d878ee9 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -79,7 +79,8 @@ inline uint32_t popcnt32(uint32_t x) {
 #else
     x = x-((x>>1) & 0x55555555ull);
     x = (x & 0x33333333ull) + ((x>>2) & 0x33333333ull);
-    return (0x10101010*x >>28)+(0x01010101*x >>28);
+    x = (x + (x >> 4)) & 0x0F0F0F0Full;
+    return 0x01010101u*x >> 24;
 #endif
 }
 
-- 
2.43.0


From 10c8b4e80610f8dc41a91490e5f04f8008a62030 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 03/50] fix: portable 32-bit clz subtracted from 63

---
 include/sim_ds/bit_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index d878ee9..dad6aa5 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -294,7 +294,7 @@ inline int clz(uint32_t x) {
     if (x & 0xAAAAAAAA) {
         c |= 1;
     }
-    return c ^ 63;
+    return c ^ 31;
 #endif
 }
     
-- 
2.43.0


From 55aca6287d07f408cb2eb03aade73e916e629c91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:45 +0000
Subject: [PATCH 04/50] fix: clz256 counted words from the wrong end

---
 include/sim_ds/bit_util256.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util256.hpp b/include/sim_ds/bit_util256.hpp
index a32e93b..4d4ce17 100644
--- a/include/sim_ds/bit_util256.hpp
+++ b/include/sim_ds/bit_util256.hpp
@@ -76,7 +76,7 @@ inline int ctz256(const uint64_t* x_addr) {
 
 inline int clz256(const uint64_t* x_addr) {
     for (int i = 3; i >= 0; i--) if (*(x_addr+i))
-        return 64 * i + clz(*(x_addr+i));
+        return 64 * (3 - i) + clz(*(x_addr+i));
     return 256;
 }
 
-- 
2.43.0


From 4997134c7b267e84aa5be4f59d9e81029c7132b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 05/50] fix: rank at the end of a whole-word bit vector read
 past its storage

---
 include/sim_ds/SuccinctBitVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/SuccinctBitVector.hpp b/include/sim_ds/SuccinctBitVector.hpp
index 7e3ea33..d69048f 100644
--- a/include/sim_ds/SuccinctBitVector.hpp
+++ b/include/sim_ds/SuccinctBitVector.hpp
@@ -133,7 +133,7 @@ SuccinctBitVector<UseSelect>::rank_1(const size_t index) const {
     size_t block_index = index / 512 * 2;
     return (basic_block_[block_index] +
             ((basic_block_[block_index+1] >> (63-9*((index/64)%8))) & bit_util::width_mask<9>) +
-            bit_util::cnt(bits_.data()[index/64], index%64));
+            (index%64 != 0 ? bit_util::cnt(bits_.data()[index/64], index%64) : 0));
 }
 
 
-- 
2.43.0


From 88d9d5799604dfa170795caab59816d75c92dd2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 06/50] fix: select read past the tips when the last block
 crosses a 512-ones threshold

---
 include/sim_ds/SuccinctBitVector.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/SuccinctBitVector.hpp b/include/sim_ds/SuccinctBitVector.hpp
index d69048f..7a5151f 100644
--- a/include/sim_ds/SuccinctBitVector.hpp
+++ b/include/sim_ds/SuccinctBitVector.hpp
@@ -152,7 +152,9 @@ SuccinctBitVector<true>::select(size_t index) const {
     if (select_tips_.size() != 0) {
         auto select_tip_index = i / 512;
         left = select_tips_[select_tip_index];
-        right = select_tips_[select_tip_index + 1] + 1;
+        // Ones of the last block may belong to one tip more than the last threshold reached before it
+        if (select_tip_index + 1 < select_tips_.size())
+            right = select_tips_[select_tip_index + 1] + 1;
     }
     while (left + 1 < right) {
         const auto center = (left + right) / 2;
-- 
2.43.0


From 65d341af51bbb839c97bc5b5fe20eb23fff4e180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:55 +0000
Subject: [PATCH 07/50] fix: default constructed SuccinctBitVector had no rank
 block

---
 include/sim_ds/SuccinctBitVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/SuccinctBitVector.hpp b/include/sim_ds/SuccinctBitVector.hpp
index 7a5151f..2203bfa 100644
--- a/include/sim_ds/SuccinctBitVector.hpp
+++ b/include/sim_ds/SuccinctBitVector.hpp
@@ -25,7 +25,7 @@ private:
     std::vector<uint32_t> select_tips_;
     
 public:
-    SuccinctBitVector() = default;
+    SuccinctBitVector() : SuccinctBitVector(BitVector()) {}
     
     explicit SuccinctBitVector(BitVector&& bits);
     
-- 
2.43.0


From 7300bd1d99ace921a2634bea50be75008ae060d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:13 +0000
Subject: [PATCH 08/50] fix: FitVector::resize left removed elements behind

---
 include/sim_ds/FitVector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/FitVector.hpp b/include/sim_ds/FitVector.hpp
index 50d271a..50f7d7a 100644
--- a/include/sim_ds/FitVector.hpp
+++ b/include/sim_ds/FitVector.hpp
@@ -126,6 +126,8 @@ public:
     
     void resize(size_t size) {
         storage_.resize(size == 0 or bits_per_element_ == 0 ? 0 : ((size * bits_per_element_ - 1) / kBitsPerWord) + 1);
+        if (size < size_ and rel_(size) != 0) // Removed elements must not reappear when growing again
+            storage_.back() &= bit_util::WidthMask(rel_(size));
         size_ = size;
     }
     
-- 
2.43.0


From 0fa525e1f4abeee9eccf541f6ab8fbafed87db3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:13 +0000
Subject: [PATCH 09/50] fix: SizeFitsInUnits shifted by the full word width for
 large values

---
 include/sim_ds/calc.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/calc.hpp b/include/sim_ds/calc.hpp
index 3920af7..7002e71 100644
--- a/include/sim_ds/calc.hpp
+++ b/include/sim_ds/calc.hpp
@@ -14,8 +14,8 @@ namespace sim_ds::calc {
 
 /* Calculate minimal number of units of argument required for value expression. */
 inline constexpr size_t SizeFitsInUnits(unsigned long long value, const size_t unit) {
-    size_t size = 0;
-    while (static_cast<bool>(value >> (++size * unit))) continue;
+    size_t size = 1;
+    while (size * unit < sizeof(value) * 8 && static_cast<bool>(value >> (size * unit))) size++;
     return size;
 }
 
-- 
2.43.0


From f42523b41d3c26eb26ea90aa6af285f738f4ab69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:13 +0000
Subject: [PATCH 10/50] fix: DAC level split read and wrote one level past the
 end

---
 include/sim_ds/calc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/calc.hpp b/include/sim_ds/calc.hpp
index 7002e71..8fc39ed 100644
--- a/include/sim_ds/calc.hpp
+++ b/include/sim_ds/calc.hpp
@@ -120,7 +120,7 @@ inline void split_positions_optimized_for_dac(const Container& list, std::vector
     std::vector<size_t> bk;
     bk.reserve(8);
     bk.resize(L);
-    for (size_t k = 0; k <= L; k++) {
+    for (size_t k = 0; k < L; k++) {
         bk[k] = b[t];
         t = t + b[t];
     }
-- 
2.43.0


From ef583965775e4eb6d8dc6c539f52099c77a7b533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:13 +0000
Subject: [PATCH 11/50] fix: DAC level split never removed the last separator

---
 include/sim_ds/calc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/calc.hpp b/include/sim_ds/calc.hpp
index 8fc39ed..add0035 100644
--- a/include/sim_ds/calc.hpp
+++ b/include/sim_ds/calc.hpp
@@ -137,7 +137,7 @@ inline void split_positions_optimized_for_dac(const Container& list, std::vector
             return lhs.first > rhs.first;
         };
         std::vector<P> pq;
-        for (size_t i = 1; i < m; i++) {
+        for (size_t i = 1; i <= m; i++) {
             pq.push_back(P(cf[i - 1] - cf[i], i));
         }
         std::sort(pq.begin(), pq.end(), cmp);
-- 
2.43.0


From bc6228e5579a8abbda0f3fcbc8bedf0d37610447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:31 +0000
Subject: [PATCH 12/50] fix: Heap::push sifts the new element up instead of
 shifting the whole heap

---
 include/sim_ds/Heap.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/Heap.hpp b/include/sim_ds/Heap.hpp
index 3c7f22d..d578e18 100644
--- a/include/sim_ds/Heap.hpp
+++ b/include/sim_ds/Heap.hpp
@@ -63,8 +63,12 @@ public:
     }
     
     void push(id_type value) {
-        base_.insert(base_.begin(), value);
-        Heapify(root());
+        base_.push_back(value);
+        for (auto id = size(); id > root(); id = parent(id)) {
+            if (!Compare(base_[id - 1], base_[parent(id) - 1]))
+                break;
+            std::swap(base_[id - 1], base_[parent(id) - 1]);
+        }
     }
     
     void pop() {
-- 
2.43.0


From d02899e37d549baa58f656102c4c6834aeccb940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:36 +0000
Subject: [PATCH 13/50] fix: HeapSort of an empty range does not move before
 its begin

---
 include/sim_ds/sort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/sort.hpp b/include/sim_ds/sort.hpp
index 9f7f8d3..eea3eb3 100644
--- a/include/sim_ds/sort.hpp
+++ b/include/sim_ds/sort.hpp
@@ -23,7 +23,7 @@ public:
     HeapSorter(Iterator begin, Iterator end, Compare compare) : begin_(begin), end_(end), compare_(compare) {
         for (auto id = size() / 2; id > 0; --id)
             Heapify(id);
-        while (begin_ < end_ - 1) {
+        while (end_ - begin_ > 1) {
             std::swap(*begin_, *(end_ - 1));
             --end_;
             Heapify(1);
-- 
2.43.0


From 09cb4cde34b0201d9d828bafd1e8205c7bec459c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:00 +0000
Subject: [PATCH 14/50] fix: MultiplyHash has a table row for its default width
 64

---
 include/sim_ds/BijectiveHash.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/BijectiveHash.hpp b/include/sim_ds/BijectiveHash.hpp
index 7f1f46f..a3dd402 100644
--- a/include/sim_ds/BijectiveHash.hpp
+++ b/include/sim_ds/BijectiveHash.hpp
@@ -88,7 +88,8 @@ constexpr uint64_t PRIME_TABLE[][2][3] = {
     {{1152921504606846883ULL, 1152921504606846803ULL, 1152921504606846697ULL}, {12397005425880075ULL, 566464323072728283ULL, 4132335141960025ULL}},  // 60
     {{2305843009213693951ULL, 2305843009213693669ULL, 2305843009213693613ULL}, {2305843009213693951ULL, 1768084568902373101ULL, 360500529464087845ULL}},  // 61
     {{4611686018427387733ULL, 4611686018427387421ULL, 4611686018427387271ULL}, {4557748170258646525ULL, 152768066863019061ULL, 1515372340968241207ULL}},  // 62
-    {{9223372036854775291ULL, 9223372036854775279ULL, 9223372036854775181ULL}, {3657236494304118067ULL, 2545580940228350223ULL, 3339243145719352645ULL}}  // 63
+    {{9223372036854775291ULL, 9223372036854775279ULL, 9223372036854775181ULL}, {3657236494304118067ULL, 2545580940228350223ULL, 3339243145719352645ULL}},  // 63
+    {{18446744073709551557ULL, 18446744073709551533ULL, 18446744073709551521ULL}, {3751880150584993549ULL, 6667497857967307813ULL, 12815632724892951649ULL}}  // 64
 };
 
 class MultiplyHash {
-- 
2.43.0


From a800a392dc255b72ffb4ea65a5eb32ac12a866c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:05 +0000
Subject: [PATCH 15/50] fix: MultipleVector::set_element_sizes replaces the
 previous layout

---
 include/sim_ds/MultipleVector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/MultipleVector.hpp b/include/sim_ds/MultipleVector.hpp
index 87746f7..dfc3326 100644
--- a/include/sim_ds/MultipleVector.hpp
+++ b/include/sim_ds/MultipleVector.hpp
@@ -238,6 +238,7 @@ public:
     template <typename T>
     void set_element_sizes(std::vector<T> sizes) {
         size_t pos = 0;
+        element_table_.clear();
         element_table_.reserve(sizes.size());
         for (auto size : sizes) {
             element_table_.emplace_back(pos, size);
-- 
2.43.0


From e0ad1c500d813858c1a9c4185ff897f7dc3face7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:40 +0000
Subject: [PATCH 16/50] fix: an empty DacVector has no levels and size 0

---
 include/sim_ds/DacVector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index d58f76e..b9c1f04 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -121,13 +121,13 @@ public:
     }
     
 private:
-    size_t num_layers_;
+    size_t num_layers_ = 0;
     std::vector<size_t> layers_unit_bits_;
     std::vector<layer_type> layers_;
     std::vector<rank_support_bv_type> paths_;
     
 public:
-    DacVector() : num_layers_(0), layers_unit_bits_(8, 8), layers_(8, layer_type(8)), paths_(7) {}
+    DacVector() = default;
     
     template <typename T>
     DacVector(const std::vector<T>& vector) : DacVector(vector, std::vector<size_t>{}) {}
@@ -141,7 +141,7 @@ public:
     
     // MARK: getter
     
-    size_t size() const {return layers_[0].size();}
+    size_t size() const {return layers_.empty() ? 0 : layers_[0].size();}
     
     bool empty() const {return size() == 0;}
     
-- 
2.43.0


From be8e7b6be430474eb80546e9286693b0098a0b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:47 +0000
Subject: [PATCH 17/50] fix: DacVector levels beyond the widest value reserve
 nothing

---
 include/sim_ds/DacVector.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index b9c1f04..2751008 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -269,9 +269,10 @@ DacVector::DacVector(const std::vector<T>& vector, const std::vector<S>& unit_bi
         std::vector<size_t> cf;
         calc::cummulative_frequency_list(vector, &cf);
         for (size_t i = 0, t = 0; i < num_layers; t += layers_unit_bits_[i], i++) {
-            layers_[i].reserve(cf[t]);
+            const auto frequency = t < cf.size() ? cf[t] : 0;
+            layers_[i].reserve(frequency);
             if (i < num_layers - 1)
-                paths_src_[i].reserve(cf[t]);
+                paths_src_[i].reserve(frequency);
         }
     }
     
-- 
2.43.0


From 9a548b1741f87390f1b51d0f5deb399510f94504 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:56 +0000
Subject: [PATCH 18/50] fix: BlockReference assignment from a list returns the
 block

---
 include/sim_ds/MultipleVector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/MultipleVector.hpp b/include/sim_ds/MultipleVector.hpp
index dfc3326..4aa36fd 100644
--- a/include/sim_ds/MultipleVector.hpp
+++ b/include/sim_ds/MultipleVector.hpp
@@ -65,6 +65,7 @@ public:
         size_t i = 0;
         for (auto v : x)
             set_at(i++, v);
+        return *this;
     }
     
 private:
-- 
2.43.0


From f800ff366df77c4ddf51bec7ee09dff6a3d19900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:29 +0000
Subject: [PATCH 19/50] fix: DacVector with a 64-bit level does not shift by
 the word width

---
 include/sim_ds/DacVector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index 2751008..e1912f6 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -279,7 +279,7 @@ DacVector::DacVector(const std::vector<T>& vector, const std::vector<S>& unit_bi
     for (auto v : vector) {
         value_type x = v;
         layers_[0].push_back(x & bit_util::WidthMask(layers_unit_bits_[0]));
-        x >>= layers_unit_bits_[0];
+        x = layers_unit_bits_[0] < 64 ? x >> layers_unit_bits_[0] : 0;
         for (size_t depth = 1; depth < num_layers; depth++) {
             bool exist = x > 0;
             paths_src_[depth - 1].push_back(exist);
@@ -287,7 +287,7 @@ DacVector::DacVector(const std::vector<T>& vector, const std::vector<S>& unit_bi
                 break;
             auto unit_bits = layers_unit_bits_[depth];
             layers_[depth].push_back(x & bit_util::WidthMask(unit_bits));
-            x >>= unit_bits;
+            x = unit_bits < 64 ? x >> unit_bits : 0;
         }
     }
     
-- 
2.43.0


From daff0942e28e7dc40a7a0963033c1fe3042999eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:34 +0000
Subject: [PATCH 20/50] fix: InitializableArray::get follows the chain link as
 an index, not as an element value

---
 include/sim_ds/InitializableArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/InitializableArray.hpp b/include/sim_ds/InitializableArray.hpp
index 94b48ae..0e87146 100644
--- a/include/sim_ds/InitializableArray.hpp
+++ b/include/sim_ds/InitializableArray.hpp
@@ -97,7 +97,7 @@ public:
             return k != kNoneBlock ? init_v_ : a_[i];
         } else { // Written Chained Area
             if (k != kNoneBlock) {
-                return i%2==0 ? a_[a_[i]+1] : a_[i];
+                return i%2==0 ? a_[2*k+1] : a_[i];
             } else {
                 return init_v_;
             }
-- 
2.43.0


From dda514598bb66806014d4098beff820e76d06e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:08 +0000
Subject: [PATCH 21/50] fix: CHT::get reports erased keys as absent

---
 include/sim_ds/CHT.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 49b7fe2..f8a313e 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -96,6 +96,8 @@ public:
         i = ToClusterHead(i);
         do {
             if (Quotient(i) == quo) {
+                if (IsDeleted(i))
+                    return {false, 0};
                 return {true, values_[i]};
             }
             i = succ(i);
-- 
2.43.0


From 9f66d40ec863df7c28c778aa955e66b077b79dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:14 +0000
Subject: [PATCH 22/50] fix: CHT::erase computes the quotient as set and get do

---
 include/sim_ds/CHT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index f8a313e..3aca0de 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -177,7 +177,7 @@ public:
         }
 
         auto initial_h = hasher_.hash(key);
-        auto quo = initial_h / bucket_bits_;
+        auto quo = initial_h >> bucket_bits_;
         auto initial_i = initial_h & bucket_mask_;
         if (!IsOccupied(initial_i))
             return;
-- 
2.43.0


From 5d7c0a9168f593bba5dab9b0ad1174f8714131aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:20 +0000
Subject: [PATCH 23/50] fix: CHT moves the deleted flag with its entry

---
 include/sim_ds/CHT.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 3aca0de..9b85688 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -142,8 +142,8 @@ public:
             do {
                 auto pj = pred(j);
                 arr_[j] = (
-                    (arr_[j] & (kOccupiedMask|kDeletedMask)) |
-                    (arr_[pj] & (quo_mask_|kContinuationMask)) |
+                    (arr_[j] & kOccupiedMask) |
+                    (arr_[pj] & (quo_mask_|kContinuationMask|kDeletedMask)) |
                     kShiftedMask
                 );
                 values_[j] = values_[pj];
-- 
2.43.0


From 2ee544eccf4a957ab254ac3c20bbaf8ea4eb2611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:25 +0000
Subject: [PATCH 24/50] fix: CHT rebuilds a filled table whose entries are all
 erased

---
 include/sim_ds/CHT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 9b85688..806acb9 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -114,7 +114,7 @@ public:
         assert(64-bit_util::clz(value) <= values_.unit_width());
 
         if (IsFilled()) {
-            reserve(size()*2);
+            reserve(std::max(size()*2, size_t(1)));
         }
 
         uint64_t initial_h = hasher_.hash(key);
-- 
2.43.0


From 2dc1e20ad179879766347218ef3ac2af52197223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:09 +0000
Subject: [PATCH 25/50] fix: CHT with keys wider than 60 bits has enough
 buckets for its quotients to fit

---
 include/sim_ds/CHT.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 806acb9..8f6fd4a 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -49,11 +49,12 @@ public:
     CHT() = default;
     explicit CHT(unsigned key_bits, size_t bucket_size = kDefaultBucketSize) :
         key_bits_(key_bits),
-        bucket_size_(bucket_size),
-        bucket_bits_(bit_util::ctz((uint64_t)bucket_size)),
+        // Quotient and flags of an entry have to fit in a word.
+        bucket_size_(std::max(bucket_size, key_bits+kFlagBits > 64 ? size_t(1) << (key_bits+kFlagBits-64) : size_t(1))),
+        bucket_bits_(bit_util::ctz((uint64_t)bucket_size_)),
         bucket_mask_((1ull<<bucket_bits_)-1),
-        max_size_(bucket_size*MaxLoadFactorPercent/100),
-        min_size_(bucket_size*(MaxLoadFactorPercent-1)/400+1),
+        max_size_(bucket_size_*MaxLoadFactorPercent/100),
+        min_size_(bucket_size_*(MaxLoadFactorPercent-1)/400+1),
         values_(ValueBits, bucket_size_),
         hasher_(key_bits_) {
         assert(bit_util::popcnt(bucket_size) == 1);
-- 
2.43.0


From e59b92176ad39ab23fcbd94d5540197213417d62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:42:31 +0000
Subject: [PATCH 26/50] fix: CDRWArray::set erases the old value from the table
 that holds it

---
 include/sim_ds/CDRWArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CDRWArray.hpp b/include/sim_ds/CDRWArray.hpp
index b72ecfc..8d6d885 100644
--- a/include/sim_ds/CDRWArray.hpp
+++ b/include/sim_ds/CDRWArray.hpp
@@ -46,7 +46,7 @@ public:
         auto value_bits = 64-bit_util::clz((uint64_t)value);
         auto pw = widthes_[i];
         if (pw != 0 and pw != value_bits)
-            sat_table_[pw].erase(i);
+            sat_table_[pw-1].erase(i);
         widthes_[i] = value_bits;
         if (value_bits > 0)
             sat_table_[value_bits-1].set(i, value);
-- 
2.43.0


From 665ef5e99e9591d49cb011d2776414589335d204 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:57 +0000
Subject: [PATCH 27/50] fix: CDRWVector::push_back on an empty vector allocates
 room

---
 include/sim_ds/CDRWArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CDRWArray.hpp b/include/sim_ds/CDRWArray.hpp
index 8d6d885..5eddb81 100644
--- a/include/sim_ds/CDRWArray.hpp
+++ b/include/sim_ds/CDRWArray.hpp
@@ -99,7 +99,7 @@ public:
 
     void push_back(uint64_t value) {
         if (size() == cap_)
-            _allocate(size()*2);
+            _allocate(std::max(size()*2, size_t(1)));
         size_++;
         set(size()-1, value);
     }
-- 
2.43.0


From af3cc65ee89895326da4b889730a5d6064f450ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:03 +0000
Subject: [PATCH 28/50] fix: CDRWVector capacities from resize, reserve and
 shrink_to_fit need not be powers of two

---
 include/sim_ds/CDRWArray.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/sim_ds/CDRWArray.hpp b/include/sim_ds/CDRWArray.hpp
index 5eddb81..ab08389 100644
--- a/include/sim_ds/CDRWArray.hpp
+++ b/include/sim_ds/CDRWArray.hpp
@@ -121,7 +121,6 @@ public:
 private:
     void _allocate(size_t new_cap) {
         assert(new_cap >= size());
-        assert(bit_util::popcnt(new_cap) == 1);
         CDRWArray next(new_cap);
         for (size_t i = 0; i < size(); i++)
             next.set(i, get(i));
-- 
2.43.0


From 2ab7b91753bc1827ba5672eae5104e7d7fe2ccc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:12 +0000
Subject: [PATCH 29/50] fix: write_vec of an empty vector does not dereference
 it

---
 include/sim_ds/basic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/basic.hpp b/include/sim_ds/basic.hpp
index c6f7f0d..3892803 100644
--- a/include/sim_ds/basic.hpp
+++ b/include/sim_ds/basic.hpp
@@ -109,7 +109,7 @@ inline void write_val(const T& val, std::ostream& os) {
 template<typename T, class A>
 inline void write_vec(const std::vector<T, A> &vec, std::ostream &os) {
     write_val(vec.size(), os);
-    os.write(reinterpret_cast<const char*>(&vec[0]), sizeof(T) * vec.size());
+    os.write(reinterpret_cast<const char*>(vec.data()), sizeof(T) * vec.size());
 }
 
 inline void write_string(const std::string &str, std::ostream &os) {
-- 
2.43.0


From 6ad14b5828820961c203c7c368b2be0b9b9e3b87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:29 +0000
Subject: [PATCH 30/50] fix: WaveletTree::Read allocates the nodes it reads

---
 include/sim_ds/WaveletTree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/WaveletTree.hpp b/include/sim_ds/WaveletTree.hpp
index 9a73697..4fd2ec9 100644
--- a/include/sim_ds/WaveletTree.hpp
+++ b/include/sim_ds/WaveletTree.hpp
@@ -128,6 +128,7 @@ public:
         height_ = read_val<size_t>(is);
         leafs_ = read_val<size_t>(is);
         size_ = read_val<size_t>(is);
+        bv_list_.resize((size_t(1) << height_) - 1);
         for (auto &l : bv_list_)
             l.Read(is);
     }
-- 
2.43.0


From 5216f7bbd04dfa19411c558edae4b8f1b1fb881e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:42 +0000
Subject: [PATCH 31/50] fix: SamcDict::access asserted that keys do not contain
 the byte 0xFF

---
 include/sim_ds/string_util/Samc.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/sim_ds/string_util/Samc.hpp b/include/sim_ds/string_util/Samc.hpp
index 8d13ebe..3ad0cf0 100644
--- a/include/sim_ds/string_util/Samc.hpp
+++ b/include/sim_ds/string_util/Samc.hpp
@@ -466,7 +466,6 @@ SamcDict<CodeType>::access(size_t value) const {
   size_t depth = std::upper_bound(_base::head_.begin(), _base::head_.end(), node) - _base::head_.begin() - 1;
   while (depth > 0) {
     auto c = _base::check(node);
-    assert(c != _base::kEmptyChar);
     node -= _base::code(--depth, c);
     text.push_back(c);
   }
-- 
2.43.0


From 353d559a9c1dbf68bc1fc390edf9e725519209f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:10 +0000
Subject: [PATCH 32/50] fix: WaveletTree::rank(c, i) asserted that c is the
 symbol at i

---
 include/sim_ds/WaveletTree.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/sim_ds/WaveletTree.hpp b/include/sim_ds/WaveletTree.hpp
index 4fd2ec9..28de10d 100644
--- a/include/sim_ds/WaveletTree.hpp
+++ b/include/sim_ds/WaveletTree.hpp
@@ -85,7 +85,6 @@ public:
         for (size_t depth = 0, id = 1; depth < height_; depth++) {
             auto& cbv = bv_list_[id - 1];
             auto bit = (c >> (height_ - 1 - depth)) & 1;
-            assert(bit == cbv[idx]);
             idx = !bit ? cbv.rank_0(idx) : cbv.rank_1(idx);
             id = (id << 1) | bit;
         }
-- 
2.43.0


From 7641ca146694a3a6f8a5ded007603d7c4c15a23e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:15 +0000
Subject: [PATCH 33/50] fix: KMP continues after a match without reading past
 the pattern

---
 include/sim_ds/string_util/PatternMatching.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index 249df70..f850d08 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -101,6 +101,7 @@ Kmp::find_all(std::string_view text) const {
         pos++;
         if (pos == difference_type(key_.size())) {
             matchies.push_back(i + 1 - key_.size());
+            pos = next_[pos];
         }
     }
     return matchies;
-- 
2.43.0


From e84d6e0c53a17dd0ff8155918e36d0d3af79ff4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:22 +0000
Subject: [PATCH 34/50] fix: Boyer-Moore skip table covers all 256 byte values

---
 include/sim_ds/string_util/PatternMatching.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index f850d08..78ae132 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -115,9 +115,9 @@ private:
     std::vector<size_t> skip_;
     
 public:
-    Bm(std::string_view key) : _PatternMatchingBase(key), skip_(0xFF, key.size()) {
+    Bm(std::string_view key) : _PatternMatchingBase(key), skip_(0x100, key.size()) {
         for (size_t i = 0; i < key.size() - 1; i++) {
-            skip_[key[i]] = key.size() - i - 1;
+            skip_[uint8_t(key[i])] = key.size() - i - 1;
         }
     }
     
@@ -141,7 +141,7 @@ Bm::find_all(std::string_view text) const {
         }
         if (k == -1) // match
             matchies.push_back(pos + 1);
-        i += skip_[text[i]];
+        i += skip(text[i]);
         
     }
     return matchies;
-- 
2.43.0


From b9fdb13972039f2cf7e497d88712342ff0b05b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:29 +0000
Subject: [PATCH 35/50] fix: Sunday shift table covers all 256 byte values

---
 include/sim_ds/string_util/PatternMatching.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index 78ae132..6a0313a 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -284,9 +284,9 @@ public:
     // Deltas like improved bm skip function
     SundayQS(std::string_view key) : Sunday(key) {
         const size_t kKeySize = key_.size();
-        td1_.assign(0xFF, kKeySize + 1);
+        td1_.assign(0x100, kKeySize + 1);
         for (size_t i = 0; i < key_.size(); i++)
-            td1_[key_[i]] = kKeySize - i;
+            td1_[uint8_t(key_[i])] = kKeySize - i;
     }
     
     size_t delta1(uint8_t type) const {return td1_[type];}
-- 
2.43.0


From 25de439d5db5c4af7f0fa821572f6bf86861bf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:48 +0000
Subject: [PATCH 36/50] fix: Sunday matchers compare bytes above 0x7f

---
 include/sim_ds/string_util/PatternMatching.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index 6a0313a..135139e 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -245,7 +245,7 @@ TurboBom::find_all(std::string_view text) const {
 
 class Sunday : protected _PatternMatchingBase {
 protected:
-    using Pat = std::pair<difference_type, uint8_t>;
+    using Pat = std::pair<difference_type, char>;
     std::vector<Pat> pattern_;
     
 public:
-- 
2.43.0


From f29873e01a38acc0b6d0ae0ea52561665b4d4014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:55 +0000
Subject: [PATCH 37/50] fix: Sunday matchers on a text shorter than the pattern

---
 include/sim_ds/string_util/PatternMatching.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index 135139e..593b944 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -300,6 +300,8 @@ SundayQS::find_all(std::string_view text) const {
     const size_t kKeySize = key_.size();
     
     std::vector<size_t> matchies;
+    if (text.size() < kKeySize)
+        return matchies;
     size_t i = 0;
     while (i <= text.size() - kKeySize) {
         size_t pos = 0;
@@ -372,6 +374,8 @@ SundayMS::find_all(std::string_view text) const {
     const size_t kKeySize = key_.size();
     
     std::vector<size_t> matchies;
+    if (text.size() < kKeySize)
+        return matchies;
     size_t i = 0;
     while (i <= text.size() - kKeySize) {
         size_t pos = 0;
-- 
2.43.0


From da77def2f6a95d7629c39d573cb145373297bf1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:36 +0000
Subject: [PATCH 38/50] fix: FactorOracle::image in the last state reads past
 the labels

---
 include/sim_ds/string_util/FactorOracle.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/FactorOracle.hpp b/include/sim_ds/string_util/FactorOracle.hpp
index 4a07330..b43816a 100644
--- a/include/sim_ds/string_util/FactorOracle.hpp
+++ b/include/sim_ds/string_util/FactorOracle.hpp
@@ -244,6 +244,8 @@ public:
     
     id_type next(size_t index) const {return next_[index];}
     
+    size_t size() const {return check_.size();}
+    
 };
 
 
@@ -281,7 +283,7 @@ public:
     FactorOracle(InputIter begin, InputIter end) : Base(begin, end) {}
     
     bool image(size_t& state, uint8_t c) const {
-        if (Base::check(state + 1) == c) {
+        if (state < Base::size() and Base::check(state + 1) == c) {
             state++;
         } else {
             auto b = Base::base(state);
-- 
2.43.0


From 393311a3b7516f65bab5e7f91bd6bdec60976d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:43 +0000
Subject: [PATCH 39/50] fix: factor oracle loses NUL transitions when a state
 is moved

---
 include/sim_ds/string_util/FactorOracle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/FactorOracle.hpp b/include/sim_ds/string_util/FactorOracle.hpp
index b43816a..d81c791 100644
--- a/include/sim_ds/string_util/FactorOracle.hpp
+++ b/include/sim_ds/string_util/FactorOracle.hpp
@@ -167,7 +167,7 @@ public:
         if (b == kEmptyValue)
             return {};
         std::vector<id_type> transes;
-        for (size_t c = 1; c <= 0xff; c++) {
+        for (size_t c = 0; c <= 0xff; c++) {
             auto n = next(b ^ c);
             if (used_trans_[b ^ c] and n > 0 and check(n) == c) {
                 transes.push_back(n);
-- 
2.43.0


From 2f657976aa5017d426a0f037699dcb1e57824b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:49 +0000
Subject: [PATCH 40/50] fix: factor oracle of the empty text

---
 include/sim_ds/string_util/FactorOracle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/FactorOracle.hpp b/include/sim_ds/string_util/FactorOracle.hpp
index d81c791..b6aa04b 100644
--- a/include/sim_ds/string_util/FactorOracle.hpp
+++ b/include/sim_ds/string_util/FactorOracle.hpp
@@ -39,7 +39,7 @@ private:
         
 //        std::cerr << " expand block" << std::endl;
         int cnt = 0;
-        while (next_.size() < kNumStates - 1) {
+        while (next_.size() < kNumStates) {
 //            std::cerr << ++cnt << std::endl;
             _expand_block();
         }
-- 
2.43.0


From 44402b8e5ee421e7efced5294c169251963d906c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:55 +0000
Subject: [PATCH 41/50] fix: factor oracle expands when no empty transition is
 left

---
 include/sim_ds/string_util/FactorOracle.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/string_util/FactorOracle.hpp b/include/sim_ds/string_util/FactorOracle.hpp
index b6aa04b..c0305d5 100644
--- a/include/sim_ds/string_util/FactorOracle.hpp
+++ b/include/sim_ds/string_util/FactorOracle.hpp
@@ -97,6 +97,8 @@ private:
     }
     
     size_t _find_base(const std::vector<id_type>& transes) {
+        if (used_trans_[empty_trans_front_]) // no empty element is left
+            _expand_block();
         for (auto index = empty_trans_front_; ; index = next(index)) {
             assert(not used_trans_[index]);
             auto b = index ^ check(transes.front());
-- 
2.43.0


From 845b1ccafc5d0ed953eeb6eb4f22c36df3e2dd18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:55 +0000
Subject: [PATCH 42/50] fix: Turbo-BOM misses matches completed inside its KMP
 search

---
 include/sim_ds/string_util/PatternMatching.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index 593b944..44cee19 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -199,12 +199,15 @@ public:
     std::vector<size_t> find_all(std::string_view text) const override;
     
 private:
-    long long kmp_search(std::string_view text, difference_type pos = 0) const {
-        for (size_t i = 0; i < text.size(); i++) {
+    // Stops early at the end of a match. The number of searched characters is set to length.
+    long long kmp_search(std::string_view text, difference_type pos, long long& length) const {
+        size_t i = 0;
+        for (; i < text.size() and pos < difference_type(key_.size()); i++) {
             while (pos > -1 and key_[pos] != text[i])
                 pos = kmp_.next(pos);
-                pos++;
+            pos++;
         }
+        length = i;
         return pos;
     }
     
@@ -232,9 +235,10 @@ TurboBom::find_all(std::string_view text) const {
         } else {
             const auto prefix_size = pos > critpos ? 0 : critpos - begin;
             const auto kmp_begin = std::max(pos, critpos);
-            const auto next = kmp_search(text.substr(kmp_begin, kKmpWindowSize), prefix_size);
-            critpos = kmp_begin + kKmpWindowSize;
-            back = kmp_begin + kKmpWindowSize - next + kWindowSize - 1;
+            long long kmp_size;
+            const auto next = kmp_search(text.substr(kmp_begin, kKmpWindowSize), prefix_size, kmp_size);
+            critpos = kmp_begin + kmp_size;
+            back = kmp_begin + kmp_size - next + kWindowSize - 1;
         }
     }
     return matchies;
-- 
2.43.0


From da69c90169ed5ac42f0cac05a2fe3b2a7e6c0c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:38 +0000
Subject: [PATCH 43/50] fix: suffix array of strings with NUL or bytes above
 0x7f

---
 include/sim_ds/string_util/SuffixArray.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/string_util/SuffixArray.hpp b/include/sim_ds/string_util/SuffixArray.hpp
index c406f87..906cd06 100644
--- a/include/sim_ds/string_util/SuffixArray.hpp
+++ b/include/sim_ds/string_util/SuffixArray.hpp
@@ -130,7 +130,7 @@ void SuffixArray::BuildSA_(const string &str) {
     str_ = str;
     vector<size_t> strVec;
     SaisStr_(strVec, str);
-    vector<size_t> sArr = Sais_(strVec, 0xff);
+    vector<size_t> sArr = Sais_(strVec, 0x100);
     // Erase first element. suffix[0]: '\0'
     sArr.erase(sArr.begin());
     s_arr_ = FitVector(sArr);
@@ -140,7 +140,7 @@ void SuffixArray::BuildSA_(const string &str) {
 void SuffixArray::SaisStr_(vector<size_t> &saisS, const string &str) const {
     saisS.resize(str.size());
     for (size_t i = 0; i < str.size(); i++)
-        saisS[i] = size_t(str[i]);
+        saisS[i] = size_t(uint8_t(str[i])) + 1; // 0 is the terminal
     saisS.push_back(0);
 }
 
-- 
2.43.0


From a4bf4f4bbff36419256d996ede66168d78bbdc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:43 +0000
Subject: [PATCH 44/50] fix: suffix array of the empty string

---
 include/sim_ds/string_util/SuffixArray.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/sim_ds/string_util/SuffixArray.hpp b/include/sim_ds/string_util/SuffixArray.hpp
index 906cd06..c728f17 100644
--- a/include/sim_ds/string_util/SuffixArray.hpp
+++ b/include/sim_ds/string_util/SuffixArray.hpp
@@ -314,6 +314,9 @@ inline void SuffixArray::BuildLCP_() {
     
     lcp_arr_ = FitVector(lcp_arr);
     
+    if (lcp_arr.empty())
+        return;
+    
     size_t maxL = 0;
     long long sum = 0;
     std::sort(lcp_arr.begin(), lcp_arr.end());
-- 
2.43.0


From a2366f1b2298f8e033dcd649a9ee653fc92e9341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:52 +0000
Subject: [PATCH 45/50] fix: Samc of an empty key set

---
 include/sim_ds/string_util/Samc.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/string_util/Samc.hpp b/include/sim_ds/string_util/Samc.hpp
index 3ad0cf0..b9f7157 100644
--- a/include/sim_ds/string_util/Samc.hpp
+++ b/include/sim_ds/string_util/Samc.hpp
@@ -37,6 +37,8 @@ public:
     void for_each_edge(Action action) const {
       if (depth_ == kInvalidDepth)
         throw std::logic_error("class is not initialized");
+      if (begin_ == end_)
+        return;
       auto it = begin_;
       if (begin_->size() == depth_) {
         action('\0', string_array_explorer(end_, end_, depth_));
-- 
2.43.0


From 14ac4c00242a6f3b51c6538a3925d0cd352646a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:50 +0000
Subject: [PATCH 46/50] fix: suffix array induces from sorted LMS suffixes when
 all LMS substrings differ

---
 include/sim_ds/string_util/SuffixArray.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/sim_ds/string_util/SuffixArray.hpp b/include/sim_ds/string_util/SuffixArray.hpp
index c728f17..71d2383 100644
--- a/include/sim_ds/string_util/SuffixArray.hpp
+++ b/include/sim_ds/string_util/SuffixArray.hpp
@@ -212,16 +212,18 @@ inline vector<size_t> SuffixArray::Sais_(const vector<size_t> &str, size_t maxVa
     const vector<size_t> lmsIds = FindLMSs_(slTypes);
     const InducedRV inducedSorted = InducedSort_(maxValue, str, slTypes, lmsIds);
     using std::get;
-    const vector<size_t> sArr = std::move(get<0>(inducedSorted));
     size_t countShared = get<2>(inducedSorted);
+    const vector<size_t> subStr = std::move(get<1>(inducedSorted));
+    vector<size_t> subSais;
     if (countShared == 0) {
-        return sArr;
+        // Every LMS-substring is unique, so that their order is the order of the LMS-suffixes.
+        subSais.resize(subStr.size());
+        for (size_t i = 0; i < subStr.size(); i++)
+            subSais[subStr[i]] = i;
     } else {
-        const vector<size_t> subStr = std::move(get<1>(inducedSorted));
-        const vector<size_t> subSais = Sais_(subStr, lmsIds.size() - 1 - countShared);
-        const vector<size_t> rSais = Induce_(maxValue, str, slTypes, lmsIds, &subSais);
-        return rSais;
+        subSais = Sais_(subStr, lmsIds.size() - 1 - countShared);
     }
+    return Induce_(maxValue, str, slTypes, lmsIds, &subSais);
 }
 
 inline typename SuffixArray::InducedRV SuffixArray::InducedSort_(size_t maxValue, const vector<size_t> &str, const vector<bool> &slTypes, const vector<size_t> &lmsIds) const {
-- 
2.43.0


From 66f4f255da91224686bcd004f888955ba6565c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:08 +0000
Subject: [PATCH 47/50] fix: suffix array of the empty string has no LMS
 suffixes to sort

---
 include/sim_ds/string_util/SuffixArray.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/string_util/SuffixArray.hpp b/include/sim_ds/string_util/SuffixArray.hpp
index 71d2383..7f979ca 100644
--- a/include/sim_ds/string_util/SuffixArray.hpp
+++ b/include/sim_ds/string_util/SuffixArray.hpp
@@ -128,6 +128,8 @@ private:
 
 void SuffixArray::BuildSA_(const string &str) {
     str_ = str;
+    if (str.empty())
+        return;
     vector<size_t> strVec;
     SaisStr_(strVec, str);
     vector<size_t> sArr = Sais_(strVec, 0x100);
-- 
2.43.0


From ea5e6341f607bfc4349ff5b031830d5d42eaafcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:28 +0000
Subject: [PATCH 48/50] fix: Samc rejects strings with NUL instead of walking
 past its leaves

---
 include/sim_ds/string_util/Samc.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/sim_ds/string_util/Samc.hpp b/include/sim_ds/string_util/Samc.hpp
index b9f7157..ca3a502 100644
--- a/include/sim_ds/string_util/Samc.hpp
+++ b/include/sim_ds/string_util/Samc.hpp
@@ -323,6 +323,8 @@ Samc<CodeType, LegacyBuild>::accept(std::string_view key) const {
   size_t depth = 0;
   for (; depth < key.size(); depth++) {
     uint8_t c = key[depth];
+    if (c == _base::kLeafChar) // keys do not contain it
+      return false;
     auto target = node + _base::code(depth, c);
     if (not in_range(target, depth+1) or
         _base::check(target) != c) {
@@ -445,6 +447,8 @@ SamcDict<CodeType>::lookup(std::string_view key) const {
   size_t depth = 0;
   for (; depth < key.size(); depth++) {
     uint8_t c = key[depth];
+    if (c == _base::kLeafChar) // keys do not contain it
+      return kSearchError;
     auto target = node + _base::code(depth, c);
     if (not in_range(target, depth+1) or
         _base::check(target) != c) {
-- 
2.43.0


From d6fad15e881caf89d850a97247128acd064d62eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:53 +0000
Subject: [PATCH 49/50] fix: WaveletTree::rank(c, i) of a symbol beyond the
 alphabet is 0

---
 include/sim_ds/WaveletTree.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/WaveletTree.hpp b/include/sim_ds/WaveletTree.hpp
index 28de10d..2c823f8 100644
--- a/include/sim_ds/WaveletTree.hpp
+++ b/include/sim_ds/WaveletTree.hpp
@@ -81,6 +81,8 @@ public:
     }
     
     size_t rank(uint8_t c, size_t index) const {
+        if (c >= leafs_) return 0;
+        
         size_t idx = index;
         for (size_t depth = 0, id = 1; depth < height_; depth++) {
             auto& cbv = bv_list_[id - 1];
-- 
2.43.0


From b98790116dc2cfc718724da2d7be6c24fc6310ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:27:55 +0000
Subject: [PATCH 50/50] fix: Trie: absent item compared with -1 instead of
 kItemEmpty for narrow size types

---
 include/sim_ds/string_util/graph_util.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/sim_ds/string_util/graph_util.hpp b/include/sim_ds/string_util/graph_util.hpp
index e17f0f6..c75207f 100644
--- a/include/sim_ds/string_util/graph_util.hpp
+++ b/include/sim_ds/string_util/graph_util.hpp
@@ -49,7 +49,7 @@ public:
         item_index_ = item_index;
     }
     
-    bool terminal() const {return item_index() != -1;}
+    bool terminal() const {return item_index() != kItemEmpty;}
     
     template <class ACTION>
     void for_each_edge(ACTION action) const {
@@ -122,7 +122,7 @@ public:
     
     item_type* traverse(std::string_view key) {
         auto item_index = _traverse(key);
-        return item_index != -1 ? &storage_[item_index] : nullptr;
+        return item_index != kItemEmpty ? &storage_[item_index] : nullptr;
     }
     
     template <class NODE_ACTION>
@@ -166,19 +166,19 @@ public:
     }
     
 private:
-    size_t _traverse(std::string_view key) const {
+    size_type _traverse(std::string_view key) const {
         size_t node = kRootIndex;
         for (uint8_t c : key) {
             auto& n = container_[node];
             auto target = n.target(c);
             if (target == kRootIndex)
-                return -1;
+                return kItemEmpty;
             node = target;
         }
         auto& n = container_[node];
         auto target = n.target('\0');
         if (target == kRootIndex)
-            return -1;
+            return kItemEmpty;
         node = target;
         
         auto& terminal = container_[node];
-- 
2.43.0

