From 901f8c86a8a88fb8b7827e9acfbf511a4b98fdf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 01/54] fix: popcnt32 fallback overflowed its 4-bit sums

A half word with 16 or more set bits in one half of the nibbles counted wrong
(0xFFFFFFFF gave 0), so select() on dense bit vectors returned wrong positions.
---
 include/sim_ds/bit_util.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index f208c75..1c9fb07 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -79,7 +79,8 @@ inline uint32_t popcnt32(uint32_t x) {
 #else
     x = x-((x>>1) & 0x55555555ull);
     x = (x & 0x33333333ull) + ((x>>2) & 0x33333333ull);
-    return (0x10101010*x >>28)+(0x01010101*x >>28);
+    x = (x + (x >> 4)) & 0x0F0F0F0Full;
+    return 0x01010101*x >> 24;
 #endif
 }
 
-- 
2.43.0


From d483bc2e761cd5c931a1c19805a6ac519e689bd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 02/54] fix: select did not compile with BMI2

_pdep_u64 returns unsigned long long, which is ambiguous between the ctz
overloads, so no build with -mbmi2 could use the rank/select structures.
---
 include/sim_ds/bit_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index 1c9fb07..3c8d90c 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -511,7 +511,7 @@ constexpr uint8_t kLtSel[9][256] = {
 /* Select operation for 1 index at byte */
 inline int sel(uint64_t x, size_t i) {
 #ifdef __BMI2__
-    return ctz(_pdep_u64(1ull << (i-1), x)) + 1; // for 1 index
+    return ctz(uint64_t(_pdep_u64(1ull << (i-1), x))) + 1; // for 1 index
 #else
     size_t ret = 0;
     auto bit_cnt = bit_util::popcnt32(x);
-- 
2.43.0


From 932c47682c45de51b3e13b872d8f062420a9c24b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 03/54] fix: WidthMask(64) shifted by the word width

A 64-bit wide packed vector got an empty (undefined) mask and lost its values.
---
 include/sim_ds/bit_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index 3c8d90c..955920b 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -32,7 +32,7 @@ inline constexpr mask_type width_mask<64> = kMaskFill;
 
 inline constexpr mask_type WidthMask(size_t width) {
     assert(width <= kMaxWidthOfMask);
-    return (1ull << width) - 1;
+    return width < kMaxWidthOfMask ? (1ull << width) - 1 : kMaskFill;
 }
 
 template <size_t Offset>
-- 
2.43.0


From 8b75a17ada1d677f4de9b7710d29b90b9ff18d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 04/54] fix: rank at the end read one word past the bit vector

rank(size()) with size() a multiple of 64 read the word after the storage.
---
 include/sim_ds/SuccinctBitVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/SuccinctBitVector.hpp b/include/sim_ds/SuccinctBitVector.hpp
index 7e3ea33..49f4346 100644
--- a/include/sim_ds/SuccinctBitVector.hpp
+++ b/include/sim_ds/SuccinctBitVector.hpp
@@ -133,7 +133,7 @@ SuccinctBitVector<UseSelect>::rank_1(const size_t index) const {
     size_t block_index = index / 512 * 2;
     return (basic_block_[block_index] +
             ((basic_block_[block_index+1] >> (63-9*((index/64)%8))) & bit_util::width_mask<9>) +
-            bit_util::cnt(bits_.data()[index/64], index%64));
+            (index%64 == 0 ? 0 : bit_util::cnt(bits_.data()[index/64], index%64)));
 }
 
 
-- 
2.43.0


From 0ecfc628ac5b1d6ba6dd6a1798a95acb86c415ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 05/54] fix: SizeFitsInUnits shifted by 64 or more

For values whose top unit is in use the loop shifted by the word width and
did not end.
---
 include/sim_ds/calc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/calc.hpp b/include/sim_ds/calc.hpp
index 3920af7..5981908 100644
--- a/include/sim_ds/calc.hpp
+++ b/include/sim_ds/calc.hpp
@@ -15,7 +15,7 @@ namespace sim_ds::calc {
 /* Calculate minimal number of units of argument required for value expression. */
 inline constexpr size_t SizeFitsInUnits(unsigned long long value, const size_t unit) {
     size_t size = 0;
-    while (static_cast<bool>(value >> (++size * unit))) continue;
+    while (++size * unit < 64 && static_cast<bool>(value >> (size * unit))) continue;
     return size;
 }
 
-- 
2.43.0


From afc82b3cca229dc8a9126821a5ef4cd0f7e2e94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 06/54] fix: the DAC layer split wrote one element past its
 result

---
 include/sim_ds/calc.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/calc.hpp b/include/sim_ds/calc.hpp
index 5981908..078ddef 100644
--- a/include/sim_ds/calc.hpp
+++ b/include/sim_ds/calc.hpp
@@ -120,7 +120,7 @@ inline void split_positions_optimized_for_dac(const Container& list, std::vector
     std::vector<size_t> bk;
     bk.reserve(8);
     bk.resize(L);
-    for (size_t k = 0; k <= L; k++) {
+    for (size_t k = 0; k < L; k++) {
         bk[k] = b[t];
         t = t + b[t];
     }
-- 
2.43.0


From b8c2ed7c1d3506a58d5803079e246c89b0e6c5f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 07/54] fix: loading from a short stream used an uninitialised
 value

read_val returned stack garbage after a short read, so a truncated file made
loads allocate and read arbitrary amounts.
---
 include/sim_ds/basic.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/basic.hpp b/include/sim_ds/basic.hpp
index c6f7f0d..a57edca 100644
--- a/include/sim_ds/basic.hpp
+++ b/include/sim_ds/basic.hpp
@@ -80,7 +80,7 @@ double microsec_time_in_process(Process process) {
 
 template<typename T>
 inline T read_val(std::istream& is) {
-    T val;
+    T val{};
     is.read(reinterpret_cast<char*>(&val), sizeof(val));
     return val;
 }
-- 
2.43.0


From 2053997f93024dd37d69b162b79916ba16bc57e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 08/54] fix: a wavelet tree loaded into a tree of another
 height read the wrong nodes

The number of nodes was left as it was in the target, so the loaded tree was
wrong and the stream was left in the middle of the data.
---
 include/sim_ds/WaveletTree.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/WaveletTree.hpp b/include/sim_ds/WaveletTree.hpp
index 9a73697..4fd2ec9 100644
--- a/include/sim_ds/WaveletTree.hpp
+++ b/include/sim_ds/WaveletTree.hpp
@@ -128,6 +128,7 @@ public:
         height_ = read_val<size_t>(is);
         leafs_ = read_val<size_t>(is);
         size_ = read_val<size_t>(is);
+        bv_list_.resize((size_t(1) << height_) - 1);
         for (auto &l : bv_list_)
             l.Read(is);
     }
-- 
2.43.0


From 67cff0a971cec6d7155247d028587cdd3e15fb40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:20 +0000
Subject: [PATCH 09/54] fix: loading a multi-field vector kept the target's old
 field layout

set_element_sizes appended to the existing layout, also on a load into a used
object or one made with its layout.
---
 include/sim_ds/MultipleVector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/MultipleVector.hpp b/include/sim_ds/MultipleVector.hpp
index 87746f7..dfc3326 100644
--- a/include/sim_ds/MultipleVector.hpp
+++ b/include/sim_ds/MultipleVector.hpp
@@ -238,6 +238,7 @@ public:
     template <typename T>
     void set_element_sizes(std::vector<T> sizes) {
         size_t pos = 0;
+        element_table_.clear();
         element_table_.reserve(sizes.size());
         for (auto size : sizes) {
             element_table_.emplace_back(pos, size);
-- 
2.43.0


From 77180b72d4006a2a686e17852a1914cc170d7181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 10/54] fix: an empty DacVector had an undefined size and did
 not load back

Built from an empty list it left the number of layers uninitialised and size()
read a layer that is not there; a default one saved 8 layers announced as 0, so
the next object in the stream was read from the middle of its bytes.
---
 include/sim_ds/DacVector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index d58f76e..15e4bfb 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -121,13 +121,13 @@ public:
     }
     
 private:
-    size_t num_layers_;
+    size_t num_layers_ = 0;
     std::vector<size_t> layers_unit_bits_;
     std::vector<layer_type> layers_;
     std::vector<rank_support_bv_type> paths_;
     
 public:
-    DacVector() : num_layers_(0), layers_unit_bits_(8, 8), layers_(8, layer_type(8)), paths_(7) {}
+    DacVector() : num_layers_(0) {}
     
     template <typename T>
     DacVector(const std::vector<T>& vector) : DacVector(vector, std::vector<size_t>{}) {}
@@ -141,7 +141,7 @@ public:
     
     // MARK: getter
     
-    size_t size() const {return layers_[0].size();}
+    size_t size() const {return layers_.empty() ? 0 : layers_[0].size();}
     
     bool empty() const {return size() == 0;}
     
-- 
2.43.0


From 62a75881c00a874b2a61252ee1b09d5dd7ad2689 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:59 +0000
Subject: [PATCH 11/54] fix: explicit layer widths wider than the values read
 past the frequency list

---
 include/sim_ds/DacVector.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index 15e4bfb..b198de1 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -269,9 +269,10 @@ DacVector::DacVector(const std::vector<T>& vector, const std::vector<S>& unit_bi
         std::vector<size_t> cf;
         calc::cummulative_frequency_list(vector, &cf);
         for (size_t i = 0, t = 0; i < num_layers; t += layers_unit_bits_[i], i++) {
-            layers_[i].reserve(cf[t]);
+            size_t num_reserved = t < cf.size() ? cf[t] : 0;
+            layers_[i].reserve(num_reserved);
             if (i < num_layers - 1)
-                paths_src_[i].reserve(cf[t]);
+                paths_src_[i].reserve(num_reserved);
         }
     }
     
-- 
2.43.0


From 0bc0681ac6fd04a933e9fd3e47c6404cb990f6d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:22 +0000
Subject: [PATCH 12/54] fix: select past the last sample read outside the
 sample list

When the number of set bits crossed a multiple of 512 only within the last
block, no sample was kept for it and select() of the bits after the crossing
used an element past the end of the list as its search bound.
---
 include/sim_ds/SuccinctBitVector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/SuccinctBitVector.hpp b/include/sim_ds/SuccinctBitVector.hpp
index 49f4346..65d13d8 100644
--- a/include/sim_ds/SuccinctBitVector.hpp
+++ b/include/sim_ds/SuccinctBitVector.hpp
@@ -123,6 +123,8 @@ SuccinctBitVector<UseSelect>::SuccinctBitVector(BitVector&& bits) : bits_(std::f
                 sum_threshold += 512;
             }
         }
+        if (sum_threshold < rank_1(bits_.size()))
+            select_tips_.push_back(basic_block_size - 1);
         select_tips_.push_back(basic_block_size - 1);
     }
 }
-- 
2.43.0


From 83c547892511bfc772211fede7eba051101c7398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 13/54] fix: the portable 32-bit clz was off by 32

---
 include/sim_ds/bit_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/bit_util.hpp b/include/sim_ds/bit_util.hpp
index 955920b..aded71c 100644
--- a/include/sim_ds/bit_util.hpp
+++ b/include/sim_ds/bit_util.hpp
@@ -294,7 +294,7 @@ inline int clz(uint32_t x) {
     if (x & 0xAAAAAAAA) {
         c |= 1;
     }
-    return c ^ 63;
+    return c ^ 31;
 #endif
 }
     
-- 
2.43.0


From 60519ff5db0fa253ffb5f6197ae6c16cfefca6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 14/54] fix: CHT::erase looked for the wrong quotient

It divided by the number of bucket bits instead of shifting by it, so it missed
most keys, deleted others, and divided by zero with one bucket.
---
 include/sim_ds/CHT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 49b7fe2..aff3222 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -175,7 +175,7 @@ public:
         }
 
         auto initial_h = hasher_.hash(key);
-        auto quo = initial_h / bucket_bits_;
+        auto quo = initial_h >> bucket_bits_;
         auto initial_i = initial_h & bucket_mask_;
         if (!IsOccupied(initial_i))
             return;
-- 
2.43.0


From 08ecc8fe5ef9144b58586b9f8040b952c1a87f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 15/54] fix: CHT::get still returned erased keys

---
 include/sim_ds/CHT.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index aff3222..3aca0de 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -96,6 +96,8 @@ public:
         i = ToClusterHead(i);
         do {
             if (Quotient(i) == quo) {
+                if (IsDeleted(i))
+                    return {false, 0};
                 return {true, values_[i]};
             }
             i = succ(i);
-- 
2.43.0


From ff6e47d18f8c211851083ab0a9176e1ef64ea18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 16/54] fix: CHT left the deleted mark behind when it moved an
 entry

The mark belongs to the entry, not to the slot: shifting entries for an insertion
made an erased key come back and a live one disappear.
---
 include/sim_ds/CHT.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 3aca0de..9b85688 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -142,8 +142,8 @@ public:
             do {
                 auto pj = pred(j);
                 arr_[j] = (
-                    (arr_[j] & (kOccupiedMask|kDeletedMask)) |
-                    (arr_[pj] & (quo_mask_|kContinuationMask)) |
+                    (arr_[j] & kOccupiedMask) |
+                    (arr_[pj] & (quo_mask_|kContinuationMask|kDeletedMask)) |
                     kShiftedMask
                 );
                 values_[j] = values_[pj];
-- 
2.43.0


From 2e9dc8a1fa354fce1bd1c95e1b71d731cf5a3a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 17/54] fix: CHT did not grow when its only entries were erased
 ones

With size() == 0 the growth step was reserve(0), which does nothing, so the table
filled up and insertions did not end; likewise when created with one bucket.
---
 include/sim_ds/CHT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 9b85688..4381acc 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -114,7 +114,7 @@ public:
         assert(64-bit_util::clz(value) <= values_.unit_width());
 
         if (IsFilled()) {
-            reserve(size()*2);
+            reserve(std::max<size_t>(size()*2, 1));
         }
 
         uint64_t initial_h = hasher_.hash(key);
-- 
2.43.0


From acf589663e17c478128fa7467279f1a480f95e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 18/54] fix: CHT growth copied the new table and could fail
 half way

The member-wise copy can run out of memory after some members are replaced.
---
 include/sim_ds/CHT.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index 4381acc..d16b131 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -264,7 +264,7 @@ private:
                 i = succ(i);
             } while (IsShifted(i));
         }
-        *this = next;
+        *this = std::move(next);
     }
 
 };
-- 
2.43.0


From 2e473eb599124636f359037656ed1249e49c9b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 19/54] fix: CHT with keys wider than 60 bits overflowed its
 slots

A slot holds the quotient and four flags in one word, so wide keys need a
minimum number of buckets.
---
 include/sim_ds/CHT.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sim_ds/CHT.hpp b/include/sim_ds/CHT.hpp
index d16b131..98fcd51 100644
--- a/include/sim_ds/CHT.hpp
+++ b/include/sim_ds/CHT.hpp
@@ -49,11 +49,11 @@ public:
     CHT() = default;
     explicit CHT(unsigned key_bits, size_t bucket_size = kDefaultBucketSize) :
         key_bits_(key_bits),
-        bucket_size_(bucket_size),
-        bucket_bits_(bit_util::ctz((uint64_t)bucket_size)),
+        bucket_size_(std::max<size_t>(bucket_size, key_bits > 64-kFlagBits ? 1ull << (key_bits-(64-kFlagBits)) : 1)),
+        bucket_bits_(bit_util::ctz((uint64_t)bucket_size_)),
         bucket_mask_((1ull<<bucket_bits_)-1),
-        max_size_(bucket_size*MaxLoadFactorPercent/100),
-        min_size_(bucket_size*(MaxLoadFactorPercent-1)/400+1),
+        max_size_(bucket_size_*MaxLoadFactorPercent/100),
+        min_size_(bucket_size_*(MaxLoadFactorPercent-1)/400+1),
         values_(ValueBits, bucket_size_),
         hasher_(key_bits_) {
         assert(bit_util::popcnt(bucket_size) == 1);
-- 
2.43.0


From 759e961cbae24a046d58d8adeb16ac71769b56c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 20/54] fix: the hash of 64-bit keys read past the table of
 multipliers

The default width is 64, but the table ended at 63.
---
 include/sim_ds/BijectiveHash.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/BijectiveHash.hpp b/include/sim_ds/BijectiveHash.hpp
index 7f1f46f..a3dd402 100644
--- a/include/sim_ds/BijectiveHash.hpp
+++ b/include/sim_ds/BijectiveHash.hpp
@@ -88,7 +88,8 @@ constexpr uint64_t PRIME_TABLE[][2][3] = {
     {{1152921504606846883ULL, 1152921504606846803ULL, 1152921504606846697ULL}, {12397005425880075ULL, 566464323072728283ULL, 4132335141960025ULL}},  // 60
     {{2305843009213693951ULL, 2305843009213693669ULL, 2305843009213693613ULL}, {2305843009213693951ULL, 1768084568902373101ULL, 360500529464087845ULL}},  // 61
     {{4611686018427387733ULL, 4611686018427387421ULL, 4611686018427387271ULL}, {4557748170258646525ULL, 152768066863019061ULL, 1515372340968241207ULL}},  // 62
-    {{9223372036854775291ULL, 9223372036854775279ULL, 9223372036854775181ULL}, {3657236494304118067ULL, 2545580940228350223ULL, 3339243145719352645ULL}}  // 63
+    {{9223372036854775291ULL, 9223372036854775279ULL, 9223372036854775181ULL}, {3657236494304118067ULL, 2545580940228350223ULL, 3339243145719352645ULL}},  // 63
+    {{18446744073709551557ULL, 18446744073709551533ULL, 18446744073709551521ULL}, {3751880150584993549ULL, 6667497857967307813ULL, 12815632724892951649ULL}}  // 64
 };
 
 class MultiplyHash {
-- 
2.43.0


From 338847ae515f82a7c623a27a5fd49200b95eed40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 21/54] fix: CDRWArray erased from the wrong table and lost
 values when memory ran out

The old value of width w lives in table w-1 (w == 64 was out of bounds). The new
value is stored before the old one is given up, so a failure leaves it readable.
---
 include/sim_ds/CDRWArray.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sim_ds/CDRWArray.hpp b/include/sim_ds/CDRWArray.hpp
index b72ecfc..d0856ef 100644
--- a/include/sim_ds/CDRWArray.hpp
+++ b/include/sim_ds/CDRWArray.hpp
@@ -45,11 +45,11 @@ public:
     void set(size_t i, uint64_t value) {
         auto value_bits = 64-bit_util::clz((uint64_t)value);
         auto pw = widthes_[i];
-        if (pw != 0 and pw != value_bits)
-            sat_table_[pw].erase(i);
-        widthes_[i] = value_bits;
         if (value_bits > 0)
             sat_table_[value_bits-1].set(i, value);
+        if (pw != 0 and pw != value_bits)
+            sat_table_[pw-1].erase(i);
+        widthes_[i] = value_bits;
     }
 
     size_t size() const { return size_; }
-- 
2.43.0


From d95a8f6d2408be9ced089c6a2e71d0fd503ac9db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 22/54] fix: CDRWVector could not grow from empty and grew by
 copying

push_back on an empty vector wrote into an array of size 0. A failed append left
the size increased, and a failed growth a half-copied array.
---
 include/sim_ds/CDRWArray.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sim_ds/CDRWArray.hpp b/include/sim_ds/CDRWArray.hpp
index d0856ef..a9c1e4d 100644
--- a/include/sim_ds/CDRWArray.hpp
+++ b/include/sim_ds/CDRWArray.hpp
@@ -99,9 +99,9 @@ public:
 
     void push_back(uint64_t value) {
         if (size() == cap_)
-            _allocate(size()*2);
+            _allocate(std::max<size_t>(size()*2, 1));
+        set(size(), value);
         size_++;
-        set(size()-1, value);
     }
 
     void pop_back() {
@@ -125,7 +125,7 @@ private:
         CDRWArray next(new_cap);
         for (size_t i = 0; i < size(); i++)
             next.set(i, get(i));
-        arr_ = next;
+        arr_ = std::move(next);
         cap_ = new_cap;
     }
 
-- 
2.43.0


From 48e1682b6777a6c08575a805f6a41bc0429a9620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 23/54] fix: CDRWVector asserted power-of-two capacities it
 does not need

resize, reserve and shrink_to_fit pass the size asked for.
---
 include/sim_ds/CDRWArray.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/sim_ds/CDRWArray.hpp b/include/sim_ds/CDRWArray.hpp
index a9c1e4d..9c3721a 100644
--- a/include/sim_ds/CDRWArray.hpp
+++ b/include/sim_ds/CDRWArray.hpp
@@ -121,7 +121,6 @@ public:
 private:
     void _allocate(size_t new_cap) {
         assert(new_cap >= size());
-        assert(bit_util::popcnt(new_cap) == 1);
         CDRWArray next(new_cap);
         for (size_t i = 0; i < size(); i++)
             next.set(i, get(i));
-- 
2.43.0


From 5653f58d58356f70d0459554c567e02ef11f3803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 24/54] fix: Heap::push broke the heap order

Inserting at the front shifts every element to another node, so later pops came
out of order; append and sift up instead.
---
 include/sim_ds/Heap.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/Heap.hpp b/include/sim_ds/Heap.hpp
index 3c7f22d..0fbec26 100644
--- a/include/sim_ds/Heap.hpp
+++ b/include/sim_ds/Heap.hpp
@@ -63,8 +63,9 @@ public:
     }
     
     void push(id_type value) {
-        base_.insert(base_.begin(), value);
-        Heapify(root());
+        base_.push_back(value);
+        for (auto id = size(); id > root() and !Compare(base_[parent(id) - 1], base_[id - 1]); id = parent(id))
+            std::swap(base_[parent(id) - 1], base_[id - 1]);
     }
     
     void pop() {
-- 
2.43.0


From ecdcd44dadd6b36c4d73de3a60804b8bbbb360ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 25/54] fix: Trie compared item indices with -1 instead of the
 empty index

With an index type other than size_t absent keys and inner nodes looked present.
---
 include/sim_ds/string_util/graph_util.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/sim_ds/string_util/graph_util.hpp b/include/sim_ds/string_util/graph_util.hpp
index e17f0f6..c75207f 100644
--- a/include/sim_ds/string_util/graph_util.hpp
+++ b/include/sim_ds/string_util/graph_util.hpp
@@ -49,7 +49,7 @@ public:
         item_index_ = item_index;
     }
     
-    bool terminal() const {return item_index() != -1;}
+    bool terminal() const {return item_index() != kItemEmpty;}
     
     template <class ACTION>
     void for_each_edge(ACTION action) const {
@@ -122,7 +122,7 @@ public:
     
     item_type* traverse(std::string_view key) {
         auto item_index = _traverse(key);
-        return item_index != -1 ? &storage_[item_index] : nullptr;
+        return item_index != kItemEmpty ? &storage_[item_index] : nullptr;
     }
     
     template <class NODE_ACTION>
@@ -166,19 +166,19 @@ public:
     }
     
 private:
-    size_t _traverse(std::string_view key) const {
+    size_type _traverse(std::string_view key) const {
         size_t node = kRootIndex;
         for (uint8_t c : key) {
             auto& n = container_[node];
             auto target = n.target(c);
             if (target == kRootIndex)
-                return -1;
+                return kItemEmpty;
             node = target;
         }
         auto& n = container_[node];
         auto target = n.target('\0');
         if (target == kRootIndex)
-            return -1;
+            return kItemEmpty;
         node = target;
         
         auto& terminal = container_[node];
-- 
2.43.0


From 195d2e7ef29d5d8c6e830410dcd4c0dbd5890409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:58 +0000
Subject: [PATCH 26/54] fix: a Trie insertion that ran out of memory left a
 broken trie

The edge was added before its node, so a failure left a link to a node that does
not exist, or a partial key without an item. Append first, link last, roll back.
---
 include/sim_ds/string_util/graph_util.hpp | 63 +++++++++++++----------
 1 file changed, 37 insertions(+), 26 deletions(-)

diff --git a/include/sim_ds/string_util/graph_util.hpp b/include/sim_ds/string_util/graph_util.hpp
index c75207f..227f3aa 100644
--- a/include/sim_ds/string_util/graph_util.hpp
+++ b/include/sim_ds/string_util/graph_util.hpp
@@ -85,39 +85,50 @@ public:
     }
     
     item_type* insert(std::string_view key, item_type item) {
+        // Leaf label '\0' is added after the key.
+        auto label = [&](size_t depth) -> uint8_t { return depth < key.size() ? key[depth] : kLeafChar; };
         size_t node = kRootIndex;
-        for (uint8_t c : key) {
-            auto& n = container_[node];
-            auto target = n.target(c);
-            if (target != kRootIndex) {
-                node = target;
+        size_t depth = 0;
+        for (; depth <= key.size(); depth++) {
+            auto target = container_[node].target(label(depth));
+            if (target == kRootIndex)
+                break;
+            node = target;
+        }
+        
+        if (depth > key.size()) {
+            auto& terminal = container_[node];
+            if (terminal.item_index() == kItemEmpty) {
+                // Insert new item.
+                storage_.push_back(item);
+                terminal.set_item_index(storage_.size()-1);
             } else {
-                n.add(c, container_.size());
-                node = container_.size();
-                container_.emplace_back();
+                // Update item.
+                storage_[terminal.item_index()] = item;
             }
-        }
-        // Add leaf label as '\0'.
-        auto& n = container_[node];
-        auto target = n.target(kLeafChar);
-        if (target != kRootIndex) {
-            node = target;
-        } else {
-            n.add(kLeafChar, container_.size());
-            node = container_.size();
-            container_.emplace_back();
+            return &storage_[terminal.item_index()];
         }
         
-        auto& terminal = container_[node];
-        if (terminal.item_index() == kItemEmpty) {
-            // Insert new item.
+        // Append the nodes of the rest of the key, and link them to the trie at last.
+        const auto num_nodes = container_.size();
+        const auto num_items = storage_.size();
+        try {
             storage_.push_back(item);
-            terminal.set_item_index(storage_.size()-1);
-        } else {
-            // Update item.
-            storage_[terminal.item_index()] = item;
+            for (size_t d = depth; d <= key.size(); d++) {
+                container_.emplace_back();
+                if (d > depth)
+                    container_[container_.size()-2].add(label(d), container_.size()-1);
+            }
+            container_.back().set_item_index(storage_.size()-1);
+            container_[node].add(label(depth), num_nodes);
+        } catch (...) {
+            while (container_.size() > num_nodes)
+                container_.pop_back();
+            while (storage_.size() > num_items)
+                storage_.pop_back();
+            throw;
         }
-        return &storage_[terminal.item_index()];
+        return &storage_.back();
     }
     
     item_type* traverse(std::string_view key) {
-- 
2.43.0


From 72b195ae814d924d4e508ac643bef32a7262b4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 27/54] fix: Kmp read past the key after a match

The state after a match is the key length; the next comparison read key_[size].
---
 include/sim_ds/string_util/PatternMatching.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index 249df70..f850d08 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -101,6 +101,7 @@ Kmp::find_all(std::string_view text) const {
         pos++;
         if (pos == difference_type(key_.size())) {
             matchies.push_back(i + 1 - key_.size());
+            pos = next_[pos];
         }
     }
     return matchies;
-- 
2.43.0


From 361c847b9f9c8ed7058bfdf5f61465402b447e83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 28/54] fix: Bm indexed its table with signed characters

Bytes from 0x80 on indexed before the table, and 0xFF had no entry.
---
 include/sim_ds/string_util/PatternMatching.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index f850d08..78ae132 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -115,9 +115,9 @@ private:
     std::vector<size_t> skip_;
     
 public:
-    Bm(std::string_view key) : _PatternMatchingBase(key), skip_(0xFF, key.size()) {
+    Bm(std::string_view key) : _PatternMatchingBase(key), skip_(0x100, key.size()) {
         for (size_t i = 0; i < key.size() - 1; i++) {
-            skip_[key[i]] = key.size() - i - 1;
+            skip_[uint8_t(key[i])] = key.size() - i - 1;
         }
     }
     
@@ -141,7 +141,7 @@ Bm::find_all(std::string_view text) const {
         }
         if (k == -1) // match
             matchies.push_back(pos + 1);
-        i += skip_[text[i]];
+        i += skip(text[i]);
         
     }
     return matchies;
-- 
2.43.0


From 103a9b44c7a3307f4ffd7efd052fdd549026584b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 29/54] fix: the Sunday searchers indexed their tables with
 signed characters

Bytes from 0x80 on indexed before the table, and 0xFF had no entry.
---
 include/sim_ds/string_util/PatternMatching.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index 78ae132..48ab7f7 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -284,9 +284,9 @@ public:
     // Deltas like improved bm skip function
     SundayQS(std::string_view key) : Sunday(key) {
         const size_t kKeySize = key_.size();
-        td1_.assign(0xFF, kKeySize + 1);
+        td1_.assign(0x100, kKeySize + 1);
         for (size_t i = 0; i < key_.size(); i++)
-            td1_[key_[i]] = kKeySize - i;
+            td1_[uint8_t(key_[i])] = kKeySize - i;
     }
     
     size_t delta1(uint8_t type) const {return td1_[type];}
@@ -333,7 +333,7 @@ public:
                     long long j = pat.first - lshift;
                     if (j < 0)
                         continue;
-                    if (pat.second != key_[j])
+                    if (pat.second != uint8_t(key_[j]))
                         break;
                 }
                 if (ppos == -1)
@@ -352,7 +352,7 @@ public:
             while (lshift < key_.size()) {
                 auto& pat = pattern_[pos];
                 long long i = pat.first - lshift;
-                if (i < 0 or pat.second != key_[i])
+                if (i < 0 or pat.second != uint8_t(key_[i]))
                     break;
                 lshift++;
                 lshift = match_shift(pos, lshift);
-- 
2.43.0


From 37591ddac9189d497da4134d7f8b306de24cbfdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 30/54] fix: the Sunday searchers never matched bytes from 0x80
 on

The key is kept as uint8_t and was compared with signed characters.
---
 include/sim_ds/string_util/PatternMatching.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index 48ab7f7..6c74e3b 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -304,7 +304,7 @@ SundayQS::find_all(std::string_view text) const {
     while (i <= text.size() - kKeySize) {
         size_t pos = 0;
         auto* pat = ordered_pattern(pos);
-        while (pos < kKeySize and pat->second == text[i + pat->first]) {
+        while (pos < kKeySize and pat->second == uint8_t(text[i + pat->first])) {
             pos++; ++pat;
         }
         if (pos == kKeySize)
@@ -376,7 +376,7 @@ SundayMS::find_all(std::string_view text) const {
     while (i <= text.size() - kKeySize) {
         size_t pos = 0;
         auto* pat = ordered_pattern(pos);
-        while (pos < kKeySize and pat->second == text[i + pat->first]) {
+        while (pos < kKeySize and pat->second == uint8_t(text[i + pat->first])) {
             pos++; ++pat;
         }
         if (pos == kKeySize)
-- 
2.43.0


From 48a7db53d81cfd0ad6fceb85301f58d2e3d3f8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 31/54] fix: the Sunday searchers read past a text shorter than
 the key

text.size() - kKeySize wrapped around.
---
 include/sim_ds/string_util/PatternMatching.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index 6c74e3b..4b7fd6d 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -300,6 +300,8 @@ SundayQS::find_all(std::string_view text) const {
     const size_t kKeySize = key_.size();
     
     std::vector<size_t> matchies;
+    if (text.size() < kKeySize)
+        return matchies;
     size_t i = 0;
     while (i <= text.size() - kKeySize) {
         size_t pos = 0;
@@ -372,6 +374,8 @@ SundayMS::find_all(std::string_view text) const {
     const size_t kKeySize = key_.size();
     
     std::vector<size_t> matchies;
+    if (text.size() < kKeySize)
+        return matchies;
     size_t i = 0;
     while (i <= text.size() - kKeySize) {
         size_t pos = 0;
-- 
2.43.0


From d3fd2ac8ea3a36fa98bf20e712948a8ea0e052a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 32/54] fix: TurboBom missed occurrences that end inside its
 KMP window

With a known prefix longer than half the key the KMP steps can complete a match;
it was not reported, and the key was read past its end.
---
 include/sim_ds/string_util/PatternMatching.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/include/sim_ds/string_util/PatternMatching.hpp b/include/sim_ds/string_util/PatternMatching.hpp
index 4b7fd6d..be3f26b 100644
--- a/include/sim_ds/string_util/PatternMatching.hpp
+++ b/include/sim_ds/string_util/PatternMatching.hpp
@@ -199,11 +199,16 @@ public:
     std::vector<size_t> find_all(std::string_view text) const override;
     
 private:
-    long long kmp_search(std::string_view text, difference_type pos = 0) const {
-        for (size_t i = 0; i < text.size(); i++) {
+    long long kmp_search(std::string_view text, size_t begin, size_t length, difference_type pos, std::vector<size_t>& matchies) const {
+        const size_t end = std::min(begin + length, text.size());
+        for (size_t i = begin; i < end; i++) {
             while (pos > -1 and key_[pos] != text[i])
                 pos = kmp_.next(pos);
-                pos++;
+            pos++;
+            if (pos == difference_type(key_.size())) { // match
+                matchies.push_back(i + 1 - key_.size());
+                pos = kmp_.next(pos);
+            }
         }
         return pos;
     }
@@ -232,7 +237,7 @@ TurboBom::find_all(std::string_view text) const {
         } else {
             const auto prefix_size = pos > critpos ? 0 : critpos - begin;
             const auto kmp_begin = std::max(pos, critpos);
-            const auto next = kmp_search(text.substr(kmp_begin, kKmpWindowSize), prefix_size);
+            const auto next = kmp_search(text, kmp_begin, kKmpWindowSize, prefix_size, matchies);
             critpos = kmp_begin + kKmpWindowSize;
             back = kmp_begin + kKmpWindowSize - next + kWindowSize - 1;
         }
-- 
2.43.0


From ddd1acfa19ac328278d3d4fe1e6e05ed6397091c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 33/54] fix: the factor oracle read past its text in the last
 state

The byte after the text decided whether a string longer than the text was
accepted.
---
 include/sim_ds/string_util/FactorOracle.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/FactorOracle.hpp b/include/sim_ds/string_util/FactorOracle.hpp
index 4a07330..cb39070 100644
--- a/include/sim_ds/string_util/FactorOracle.hpp
+++ b/include/sim_ds/string_util/FactorOracle.hpp
@@ -238,6 +238,8 @@ public:
     
     explicit FactorOracleBaseCTAFO(std::string_view text) : FactorOracleBaseCTAFO(text.begin(), text.end()) {}
     
+    size_t size() const {return check_.size();}
+    
     uint8_t check(size_t index) const {return index == 0 ? '\0' : check_[index - 1];}
     
     id_type base(size_t index) const {return base_[index];}
@@ -281,7 +283,7 @@ public:
     FactorOracle(InputIter begin, InputIter end) : Base(begin, end) {}
     
     bool image(size_t& state, uint8_t c) const {
-        if (Base::check(state + 1) == c) {
+        if (state < Base::size() and Base::check(state + 1) == c) {
             state++;
         } else {
             auto b = Base::base(state);
-- 
2.43.0


From f5188a5aeffc6f9b59c3845a44283f15d99d7ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 34/54] fix: the factor oracle of an empty text wrote to an
 empty array

---
 include/sim_ds/string_util/FactorOracle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/FactorOracle.hpp b/include/sim_ds/string_util/FactorOracle.hpp
index cb39070..e898e05 100644
--- a/include/sim_ds/string_util/FactorOracle.hpp
+++ b/include/sim_ds/string_util/FactorOracle.hpp
@@ -39,7 +39,7 @@ private:
         
 //        std::cerr << " expand block" << std::endl;
         int cnt = 0;
-        while (next_.size() < kNumStates - 1) {
+        while (next_.size() < kNumStates) {
 //            std::cerr << ++cnt << std::endl;
             _expand_block();
         }
-- 
2.43.0


From 9fc47d2048ecd602cc2e50cfd1e5c2cc13a2d496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 35/54] fix: building a factor oracle did not end once its free
 list was empty

---
 include/sim_ds/string_util/FactorOracle.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/string_util/FactorOracle.hpp b/include/sim_ds/string_util/FactorOracle.hpp
index e898e05..0d49429 100644
--- a/include/sim_ds/string_util/FactorOracle.hpp
+++ b/include/sim_ds/string_util/FactorOracle.hpp
@@ -97,6 +97,8 @@ private:
     }
     
     size_t _find_base(const std::vector<id_type>& transes) {
+        if (used_trans_[empty_trans_front_]) // No empty element is left.
+            _expand_block();
         for (auto index = empty_trans_front_; ; index = next(index)) {
             assert(not used_trans_[index]);
             auto b = index ^ check(transes.front());
-- 
2.43.0


From fb8d878aaf8ba8b18c0ab621da631364e5df1a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:46 +0000
Subject: [PATCH 36/54] fix: the factor oracle lost transitions labelled with a
 zero byte

They were left behind when a state's transitions moved to another base.
---
 include/sim_ds/string_util/FactorOracle.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/FactorOracle.hpp b/include/sim_ds/string_util/FactorOracle.hpp
index 0d49429..152ab8e 100644
--- a/include/sim_ds/string_util/FactorOracle.hpp
+++ b/include/sim_ds/string_util/FactorOracle.hpp
@@ -169,7 +169,7 @@ public:
         if (b == kEmptyValue)
             return {};
         std::vector<id_type> transes;
-        for (size_t c = 1; c <= 0xff; c++) {
+        for (size_t c = 0; c <= 0xff; c++) {
             auto n = next(b ^ c);
             if (used_trans_[b ^ c] and n > 0 and check(n) == c) {
                 transes.push_back(n);
-- 
2.43.0


From 8d64eddbc533af9ef2574743b11a32a46095b3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 37/54] fix: Samc queries with a zero byte walked into and past
 leaves

The zero byte is the leaf label, so such a query could be accepted, or read
behind the code table.
---
 include/sim_ds/string_util/Samc.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/string_util/Samc.hpp b/include/sim_ds/string_util/Samc.hpp
index 8d13ebe..2efc697 100644
--- a/include/sim_ds/string_util/Samc.hpp
+++ b/include/sim_ds/string_util/Samc.hpp
@@ -322,7 +322,8 @@ Samc<CodeType, LegacyBuild>::accept(std::string_view key) const {
   for (; depth < key.size(); depth++) {
     uint8_t c = key[depth];
     auto target = node + _base::code(depth, c);
-    if (not in_range(target, depth+1) or
+    if (c == kLeafChar or
+        not in_range(target, depth+1) or
         _base::check(target) != c) {
       return false;
     }
@@ -444,7 +445,8 @@ SamcDict<CodeType>::lookup(std::string_view key) const {
   for (; depth < key.size(); depth++) {
     uint8_t c = key[depth];
     auto target = node + _base::code(depth, c);
-    if (not in_range(target, depth+1) or
+    if (c == _base::kLeafChar or
+        not in_range(target, depth+1) or
         _base::check(target) != c) {
       return kSearchError;
     }
-- 
2.43.0


From 99ef73f4b727915d69912d2ccba6cb99e798d918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 38/54] fix: building a Samc from an empty set read the element
 at the end

---
 include/sim_ds/string_util/Samc.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/string_util/Samc.hpp b/include/sim_ds/string_util/Samc.hpp
index 2efc697..664df65 100644
--- a/include/sim_ds/string_util/Samc.hpp
+++ b/include/sim_ds/string_util/Samc.hpp
@@ -37,6 +37,8 @@ public:
     void for_each_edge(Action action) const {
       if (depth_ == kInvalidDepth)
         throw std::logic_error("class is not initialized");
+      if (begin_ == end_)
+        return;
       auto it = begin_;
       if (begin_->size() == depth_) {
         action('\0', string_array_explorer(end_, end_, depth_));
-- 
2.43.0


From f5cc58e669ae2fa6455b31c88e8fae73e45c7528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 39/54] fix: the suffix array of a text with bytes from 0x80
 on, or zero, wrote out of bounds

Characters were sign extended and used as bucket index, and a zero byte was taken
for the end marker. Shift the characters above the marker.
---
 include/sim_ds/string_util/SuffixArray.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/string_util/SuffixArray.hpp b/include/sim_ds/string_util/SuffixArray.hpp
index c406f87..e447647 100644
--- a/include/sim_ds/string_util/SuffixArray.hpp
+++ b/include/sim_ds/string_util/SuffixArray.hpp
@@ -130,7 +130,7 @@ void SuffixArray::BuildSA_(const string &str) {
     str_ = str;
     vector<size_t> strVec;
     SaisStr_(strVec, str);
-    vector<size_t> sArr = Sais_(strVec, 0xff);
+    vector<size_t> sArr = Sais_(strVec, 0x100);
     // Erase first element. suffix[0]: '\0'
     sArr.erase(sArr.begin());
     s_arr_ = FitVector(sArr);
@@ -140,7 +140,7 @@ void SuffixArray::BuildSA_(const string &str) {
 void SuffixArray::SaisStr_(vector<size_t> &saisS, const string &str) const {
     saisS.resize(str.size());
     for (size_t i = 0; i < str.size(); i++)
-        saisS[i] = size_t(str[i]);
+        saisS[i] = size_t(uint8_t(str[i])) + 1;
     saisS.push_back(0);
 }
 
-- 
2.43.0


From 420294b5a97aa69433161de4c77313de7d786f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:29 +0000
Subject: [PATCH 40/54] fix: building the suffix array of an empty text was
 undefined

---
 include/sim_ds/string_util/SuffixArray.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/string_util/SuffixArray.hpp b/include/sim_ds/string_util/SuffixArray.hpp
index e447647..97a549c 100644
--- a/include/sim_ds/string_util/SuffixArray.hpp
+++ b/include/sim_ds/string_util/SuffixArray.hpp
@@ -33,6 +33,8 @@ public:
     SuffixArray() = default;
     
     SuffixArray(const string &str) {
+        if (str.empty())
+            return;
         BuildSA_(str);
         BuildLCP_();
     }
-- 
2.43.0


From 063847ec742783bf23f7c1bf08648d2d2ecbcfb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:34 +0000
Subject: [PATCH 41/54] fix: the suffix array was not sorted when all LMS
 substrings differ

The result of the first induction, which starts from unsorted LMS suffixes, was
returned; "babab" gave 3 1 4 0 2. Induce again from the sorted ones.
---
 include/sim_ds/string_util/SuffixArray.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/sim_ds/string_util/SuffixArray.hpp b/include/sim_ds/string_util/SuffixArray.hpp
index 97a549c..dce2128 100644
--- a/include/sim_ds/string_util/SuffixArray.hpp
+++ b/include/sim_ds/string_util/SuffixArray.hpp
@@ -214,16 +214,18 @@ inline vector<size_t> SuffixArray::Sais_(const vector<size_t> &str, size_t maxVa
     const vector<size_t> lmsIds = FindLMSs_(slTypes);
     const InducedRV inducedSorted = InducedSort_(maxValue, str, slTypes, lmsIds);
     using std::get;
-    const vector<size_t> sArr = std::move(get<0>(inducedSorted));
     size_t countShared = get<2>(inducedSorted);
+    const vector<size_t> subStr = std::move(get<1>(inducedSorted));
+    vector<size_t> subSais;
     if (countShared == 0) {
-        return sArr;
+        // All LMS substrings differ, their order is the order of LMS suffixes.
+        subSais.resize(subStr.size());
+        for (size_t i = 0; i < subStr.size(); i++)
+            subSais[subStr[i]] = i;
     } else {
-        const vector<size_t> subStr = std::move(get<1>(inducedSorted));
-        const vector<size_t> subSais = Sais_(subStr, lmsIds.size() - 1 - countShared);
-        const vector<size_t> rSais = Induce_(maxValue, str, slTypes, lmsIds, &subSais);
-        return rSais;
+        subSais = Sais_(subStr, lmsIds.size() - 1 - countShared);
     }
+    return Induce_(maxValue, str, slTypes, lmsIds, &subSais);
 }
 
 inline typename SuffixArray::InducedRV SuffixArray::InducedSort_(size_t maxValue, const vector<size_t> &str, const vector<bool> &slTypes, const vector<size_t> &lmsIds) const {
-- 
2.43.0


From fa4f699367749764d608b18774c287aff6d74994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:46 +0000
Subject: [PATCH 42/54] fix: assigning a list of fields to a block ended
 without a return value

---
 include/sim_ds/MultipleVector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sim_ds/MultipleVector.hpp b/include/sim_ds/MultipleVector.hpp
index dfc3326..4aa36fd 100644
--- a/include/sim_ds/MultipleVector.hpp
+++ b/include/sim_ds/MultipleVector.hpp
@@ -65,6 +65,7 @@ public:
         size_t i = 0;
         for (auto v : x)
             set_at(i++, v);
+        return *this;
     }
     
 private:
-- 
2.43.0


From 619d1ed29419c81893f25db31ed2322f1d74bdfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:25 +0000
Subject: [PATCH 43/54] fix: updating a Trie item that ran out of memory left
 half of the new item

---
 include/sim_ds/string_util/graph_util.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/string_util/graph_util.hpp b/include/sim_ds/string_util/graph_util.hpp
index 227f3aa..cd3b8c1 100644
--- a/include/sim_ds/string_util/graph_util.hpp
+++ b/include/sim_ds/string_util/graph_util.hpp
@@ -104,7 +104,7 @@ public:
                 terminal.set_item_index(storage_.size()-1);
             } else {
                 // Update item.
-                storage_[terminal.item_index()] = item;
+                storage_[terminal.item_index()] = std::move(item);
             }
             return &storage_[terminal.item_index()];
         }
-- 
2.43.0


From b28923b0095489138e44496fd02b1c5d408eab8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:07 +0000
Subject: [PATCH 44/54] fix: InitializableArray of floating-point elements
 misread chained blocks

---
 include/sim_ds/InitializableArray.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/InitializableArray.hpp b/include/sim_ds/InitializableArray.hpp
index 94b48ae..0e87146 100644
--- a/include/sim_ds/InitializableArray.hpp
+++ b/include/sim_ds/InitializableArray.hpp
@@ -97,7 +97,7 @@ public:
             return k != kNoneBlock ? init_v_ : a_[i];
         } else { // Written Chained Area
             if (k != kNoneBlock) {
-                return i%2==0 ? a_[a_[i]+1] : a_[i];
+                return i%2==0 ? a_[2*k+1] : a_[i];
             } else {
                 return init_v_;
             }
-- 
2.43.0


From 0bd0663c01cf7a7e0609201b5417f39d1bebc677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:08 +0000
Subject: [PATCH 45/54] fix: HeapSort of an empty range of null pointers
 swapped through them

---
 include/sim_ds/sort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/sort.hpp b/include/sim_ds/sort.hpp
index 9f7f8d3..dffb8d5 100644
--- a/include/sim_ds/sort.hpp
+++ b/include/sim_ds/sort.hpp
@@ -23,7 +23,7 @@ public:
     HeapSorter(Iterator begin, Iterator end, Compare compare) : begin_(begin), end_(end), compare_(compare) {
         for (auto id = size() / 2; id > 0; --id)
             Heapify(id);
-        while (begin_ < end_ - 1) {
+        while (size() > 1) {
             std::swap(*begin_, *(end_ - 1));
             --end_;
             Heapify(1);
-- 
2.43.0


From 76370442f92382c11eed80b4bc9bd170773d210a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:17 +0000
Subject: [PATCH 46/54] fix: reserving in an integer vector of width 0 asked
 for all memory

---
 include/sim_ds/FitVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sim_ds/FitVector.hpp b/include/sim_ds/FitVector.hpp
index 50d271a..1ad272e 100644
--- a/include/sim_ds/FitVector.hpp
+++ b/include/sim_ds/FitVector.hpp
@@ -143,7 +143,7 @@ public:
     }
     
     void reserve(size_t size) {
-        storage_.reserve(size == 0 ? 0 : ((size * bits_per_element_ - 1) / kBitsPerWord) + 1);
+        storage_.reserve(size == 0 or bits_per_element_ == 0 ? 0 : ((size * bits_per_element_ - 1) / kBitsPerWord) + 1);
     }
     
     void push_back(value_type value) {
-- 
2.43.0


From 2d6b9e3c28074c48893e582c77c6b6d15a50d8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:17 +0000
Subject: [PATCH 47/54] fix: a DacVector layer of 64 bits shifted by the word
 width

---
 include/sim_ds/DacVector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/DacVector.hpp b/include/sim_ds/DacVector.hpp
index b198de1..5d7ba68 100644
--- a/include/sim_ds/DacVector.hpp
+++ b/include/sim_ds/DacVector.hpp
@@ -279,7 +279,7 @@ DacVector::DacVector(const std::vector<T>& vector, const std::vector<S>& unit_bi
     for (auto v : vector) {
         value_type x = v;
         layers_[0].push_back(x & bit_util::WidthMask(layers_unit_bits_[0]));
-        x >>= layers_unit_bits_[0];
+        x = layers_unit_bits_[0] < 64 ? x >> layers_unit_bits_[0] : 0;
         for (size_t depth = 1; depth < num_layers; depth++) {
             bool exist = x > 0;
             paths_src_[depth - 1].push_back(exist);
@@ -287,7 +287,7 @@ DacVector::DacVector(const std::vector<T>& vector, const std::vector<S>& unit_bi
                 break;
             auto unit_bits = layers_unit_bits_[depth];
             layers_[depth].push_back(x & bit_util::WidthMask(unit_bits));
-            x >>= unit_bits;
+            x = unit_bits < 64 ? x >> unit_bits : 0;
         }
     }
     
-- 
2.43.0


From 2a94f6da8a7b276384694c3ee9f218aee5e37193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:23 +0000
Subject: [PATCH 48/54] fix: InitializableArrayFolklore::set chains an element
 only once its value is stored, so a failed assignment does not revive a stale
 one

---
 include/sim_ds/InitializableArray.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/InitializableArray.hpp b/include/sim_ds/InitializableArray.hpp
index 0e87146..3c7e8ea 100644
--- a/include/sim_ds/InitializableArray.hpp
+++ b/include/sim_ds/InitializableArray.hpp
@@ -34,11 +34,12 @@ public:
     }
     
     void set(size_t index, T val) {
-        if (not _is_chained(index)) {
+        const bool chained = _is_chained(index);
+        fv_[index].second = val; // may throw: not chained yet
+        if (not chained) {
             fv_[index].first = t_.size();
             t_.push_back(index);
         }
-        fv_[index].second = val;
     }
     
     // Initialize all values in O(1) time operation
-- 
2.43.0


From 5c56a38b863a32c3dbe315a4daf5f09a91efd347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:02 +0000
Subject: [PATCH 49/54] fix: postfix ++ and -- of BitVector iterators did not
 compile

---
 include/sim_ds/BitReference.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sim_ds/BitReference.hpp b/include/sim_ds/BitReference.hpp
index 82f78bb..43bb1ec 100644
--- a/include/sim_ds/BitReference.hpp
+++ b/include/sim_ds/BitReference.hpp
@@ -129,7 +129,7 @@ public:
     
     BitIterator operator++(int) {
         BitIterator itr = *this;
-        ++this;
+        ++(*this);
         return itr;
     }
     
@@ -145,7 +145,7 @@ public:
     
     BitIterator operator--(int) {
         BitIterator itr = *this;
-        --this;
+        --(*this);
         return itr;
     }
     
-- 
2.43.0


From 11d355896804489d7fba9b250fc979afe7209302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:02 +0000
Subject: [PATCH 50/54] fix: iterators of FitVector did not compile, and
 stepped by a bit instead of an element

---
 include/sim_ds/BitsReference.hpp | 57 ++++++++++++++++----------------
 1 file changed, 28 insertions(+), 29 deletions(-)

diff --git a/include/sim_ds/BitsReference.hpp b/include/sim_ds/BitsReference.hpp
index 0ce649c..892b7e4 100644
--- a/include/sim_ds/BitsReference.hpp
+++ b/include/sim_ds/BitsReference.hpp
@@ -31,6 +31,7 @@ class BitsReference {
     
     friend typename Sequence::Self;
     friend class BitsConstReference<Sequence>;
+    friend class BitsIterator<Sequence, false>;
     
     static constexpr size_t kBitsPerWord = Sequence::kBitsPerWord;
     
@@ -84,6 +85,7 @@ class BitsConstReference {
     const word_type mask_;
     
     friend typename Sequence::Self;
+    friend class BitsIterator<Sequence, true>;
     
     static constexpr size_t kBitsPerWord = Sequence::kBitsPerWord;
     
@@ -128,24 +130,21 @@ private:
     word_pointer seg_;
     size_t start_;
     
-    const size_t bits_per_entity_;
+    size_t bits_per_entity_;
+    
+    friend class BitsIterator<Sequence, true>;
     
 public:
     BitsIterator() : seg_(nullptr), start_(0), bits_per_entity_(64) {}
     
-    BitsIterator(const BitsIterator<Sequence, false>& x) : seg_(x.seg_), start_(x.offset_), bits_per_entity_(x.bits_per_entity_) {}
+    BitsIterator(const BitsIterator<Sequence, false>& x) : seg_(x.seg_), start_(x.start_), bits_per_entity_(x.bits_per_entity_) {}
     
-    value_type operator*() const {
+    reference operator*() const {
         return reference(seg_, start_, bits_per_entity_, bit_util::WidthMask(bits_per_entity_));
     }
     
     BitsIterator& operator++() {
-        if (start_ == kBitsPerWord - 1) {
-            ++seg_;
-            start_ = 0;
-        } else {
-            ++start_;
-        }
+        return *this += 1;
     }
     
     BitsIterator operator++(int) {
@@ -155,12 +154,7 @@ public:
     }
     
     BitsIterator& operator--() {
-        if (start_ == 0) {
-            --seg_;
-            start_ = kBitsPerWord - 1;
-        } else {
-            --start_;
-        }
+        return *this -= 1;
     }
     
     BitsIterator operator--(int) {
@@ -170,13 +164,11 @@ public:
     }
     
     BitsIterator& operator+=(difference_type difference) {
-        if (difference >= 0) {
-            seg_ += (start_ + difference) / kBitsPerWord;
-        } else {
-            seg_ += static_cast<difference_type>(-difference - kBitsPerWord + start_ + 1) / static_cast<difference_type>(kBitsPerWord);
-        }
-        difference &= kBitsPerWord - 1;
-        start_ = static_cast<size_t>((difference + start_) % kBitsPerWord);
+        constexpr auto kWidth = static_cast<difference_type>(kBitsPerWord);
+        auto bits = difference * static_cast<difference_type>(bits_per_entity_) + static_cast<difference_type>(start_);
+        auto words = bits >= 0 ? bits / kWidth : -((kWidth - 1 - bits) / kWidth);
+        seg_ += words;
+        start_ = static_cast<size_t>(bits - words * kWidth);
         return *this;
     }
     
@@ -184,29 +176,34 @@ public:
         return *this += -difference;
     }
     
-    BitsIterator& operator+(difference_type difference) {
+    BitsIterator operator+(difference_type difference) const {
         BitsIterator itr = *this;
         itr += difference;
         return itr;
     }
     
-    BitsIterator& operator-(difference_type difference) {
+    BitsIterator operator-(difference_type difference) const {
         BitsIterator itr = *this;
         itr -= difference;
         return itr;
     }
     
-    friend BitsIterator& operator+(difference_type difference, const BitsIterator& x) {return x + difference;}
+    friend BitsIterator operator+(difference_type difference, const BitsIterator& x) {return x + difference;}
     
-    friend difference_type operator-(const BitsIterator& x, const BitsIterator& y) {return static_cast<difference_type>(x.seg_ - y.seg_) * kBitsPerWord + static_cast<difference_type>(x.offset_ - y.offset_);}
+    friend difference_type operator-(const BitsIterator& x, const BitsIterator& y) {
+        if (x.bits_per_entity_ == 0)
+            return 0;
+        auto bits = (x.seg_ - y.seg_) * static_cast<difference_type>(kBitsPerWord) + static_cast<difference_type>(x.start_) - static_cast<difference_type>(y.start_);
+        return bits / static_cast<difference_type>(x.bits_per_entity_);
+    }
     
-    value_type operator[](difference_type pos) const {return *(*this + pos);}
+    reference operator[](difference_type pos) const {return *(*this + pos);}
     
-    friend bool operator==(const BitsIterator& x, const BitsIterator& y) {return x.seg_ == y.seg_ and x.offset_ == y.offset_;}
+    friend bool operator==(const BitsIterator& x, const BitsIterator& y) {return x.seg_ == y.seg_ and x.start_ == y.start_;}
     
     friend bool operator!=(const BitsIterator& x, const BitsIterator& y) {return !(x == y);}
     
-    friend bool operator<(const BitsIterator& x, const BitsIterator& y) {return x.seg_ < y.seg_ or (x.seg_ == y.seg_ and x.offset_ < y.offset_);}
+    friend bool operator<(const BitsIterator& x, const BitsIterator& y) {return x.seg_ < y.seg_ or (x.seg_ == y.seg_ and x.start_ < y.start_);}
     
     friend bool operator>(const BitsIterator& x, const BitsIterator& y) {return y < x;}
     
@@ -218,6 +215,8 @@ private:
     BitsIterator(word_pointer seg, size_t start, size_t bits_per_entity) : seg_(seg), start_(start), bits_per_entity_(bits_per_entity) {}
     
     friend typename Sequence::Self;
+    friend class BitsReference<Sequence>;
+    friend class BitsConstReference<Sequence>;
     
 };
 
-- 
2.43.0


From 69ba654f7e1fe504df2769b142fa18f209139998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:57:02 +0000
Subject: [PATCH 51/54] fix: InitializableArray of 64-bit unsigned elements,
 and its iterators, did not compile

---
 include/sim_ds/InitializableArray.hpp | 29 ++++++++++++++++-----------
 1 file changed, 17 insertions(+), 12 deletions(-)

diff --git a/include/sim_ds/InitializableArray.hpp b/include/sim_ds/InitializableArray.hpp
index 3c7e8ea..124c88e 100644
--- a/include/sim_ds/InitializableArray.hpp
+++ b/include/sim_ds/InitializableArray.hpp
@@ -72,7 +72,8 @@ class _InitializableArray;
 
 template <typename T, size_t Size>
 using InitializableArray = _InitializableArray<T, Size,
-    (1ull<<(std::numeric_limits<T>::digits)) >= (Size+(Size%2))>;
+    (std::numeric_limits<T>::digits >= std::numeric_limits<size_t>::digits or
+     (1ull<<(std::numeric_limits<T>::digits % std::numeric_limits<size_t>::digits)) >= (Size+(Size%2)))>;
 
 
 // In-Place Initializable Arrays for a Special Case
@@ -269,34 +270,38 @@ private:
     class _iterator : public std::iterator<std::random_access_iterator_tag, T> {
         using _base = std::iterator<std::random_access_iterator_tag, T>;
     public:
-        using ptrdiff_t = typename _base::ptrdiff_t;
+        using ptrdiff_t = typename _base::difference_type;
         using reference_type = std::conditional_t<IsConst, const_reference, reference>;
     private:
-        const _InitializableArray &arr_;
+        using array_type = std::conditional_t<IsConst, const _InitializableArray, _InitializableArray>;
+        array_type *arr_;
         size_t i_;
         friend class _InitializableArray;
-        _iterator(const _InitializableArray &arr, size_t i) : arr_(arr), i_(i) {}
+        _iterator(array_type &arr, size_t i) : arr_(&arr), i_(i) {}
     public:
-        reference_type operator*() const { return reference_type(arr_, i_); }
+        reference_type operator*() const { return reference_type(*arr_, i_); }
         _iterator& operator++() { ++i_; return *this; }
         _iterator operator++(int) { auto c = *this; ++(*this); return c; }
         _iterator& operator--() { --i_; return *this; }
         _iterator operator--(int) { auto c = *this; --(*this); return c; }
-        _iterator operator+(ptrdiff_t x) const { return _iterator(arr_, i_ + x); }
+        _iterator operator+(ptrdiff_t x) const { return _iterator(*arr_, i_ + x); }
         _iterator& operator+=(ptrdiff_t x) { return *this = *this + x; }
         _iterator operator-(ptrdiff_t x) const { return *this + -x; }
         _iterator& operator-=(ptrdiff_t x) { return *this = *this - x; }
+        friend ptrdiff_t operator-(const _iterator& x, const _iterator& y) { return ptrdiff_t(x.i_ - y.i_); }
+        friend bool operator==(const _iterator& x, const _iterator& y) { return x.i_ == y.i_; }
+        friend bool operator!=(const _iterator& x, const _iterator& y) { return !(x == y); }
     };
 public:
     using const_iterator = _iterator<true>;
     using iterator = _iterator<false>;
     
-    const_iterator begin() const { return _iterator(*this, 0); }
-    const_iterator end() const { return _iterator(*this, Size); }
-    iterator begin() { return _iterator(*this, 0); }
-    iterator end() { return _iterator(*this, Size); }
-    const_iterator cbegin() const { return _iterator(*this, 0); }
-    const_iterator cend() const { return _iterator(*this, Size); }
+    const_iterator begin() const { return const_iterator(*this, 0); }
+    const_iterator end() const { return const_iterator(*this, Size); }
+    iterator begin() { return iterator(*this, 0); }
+    iterator end() { return iterator(*this, Size); }
+    const_iterator cbegin() const { return const_iterator(*this, 0); }
+    const_iterator cend() const { return const_iterator(*this, Size); }
     
 };
 
-- 
2.43.0


From 2feee6caea5cad7cc334fd6b3cdba93a1f3ef53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:00:10 +0000
Subject: [PATCH 52/54] fix: a constant iterator of BitVector could not be made
 from a mutable one

---
 include/sim_ds/BitReference.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sim_ds/BitReference.hpp b/include/sim_ds/BitReference.hpp
index 43bb1ec..8f7fac6 100644
--- a/include/sim_ds/BitReference.hpp
+++ b/include/sim_ds/BitReference.hpp
@@ -103,6 +103,8 @@ private:
     _word_pointer seg_;
     size_t ctz_;
     
+    friend class BitIterator<_Bv, true>;
+    
 public:
     BitIterator() : seg_(nullptr), ctz_(0) {}
     
-- 
2.43.0


From 8aac5b7e6db2cbb3389ca54a3ca76d0b5e71ca5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:47 +0000
Subject: [PATCH 53/54] fix: Trie::insert read its key after moving the items
 it may view

---
 include/sim_ds/string_util/graph_util.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/sim_ds/string_util/graph_util.hpp b/include/sim_ds/string_util/graph_util.hpp
index cd3b8c1..0c6c0ac 100644
--- a/include/sim_ds/string_util/graph_util.hpp
+++ b/include/sim_ds/string_util/graph_util.hpp
@@ -112,15 +112,16 @@ public:
         // Append the nodes of the rest of the key, and link them to the trie at last.
         const auto num_nodes = container_.size();
         const auto num_items = storage_.size();
+        const auto link = label(depth);
         try {
-            storage_.push_back(item);
             for (size_t d = depth; d <= key.size(); d++) {
                 container_.emplace_back();
                 if (d > depth)
                     container_[container_.size()-2].add(label(d), container_.size()-1);
             }
-            container_.back().set_item_index(storage_.size()-1);
-            container_[node].add(label(depth), num_nodes);
+            container_.back().set_item_index(num_items);
+            storage_.push_back(item); // the key may be a view of a stored item
+            container_[node].add(link, num_nodes);
         } catch (...) {
             while (container_.size() > num_nodes)
                 container_.pop_back();
-- 
2.43.0


From c133f045fe1446fc8b0ce64c570cb8e600c7eaab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:52:01 +0000
Subject: [PATCH 54/54] fix: the address of a bit of a BitVector did not
 compile

---
 include/sim_ds/BitReference.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sim_ds/BitReference.hpp b/include/sim_ds/BitReference.hpp
index 8f7fac6..a627320 100644
--- a/include/sim_ds/BitReference.hpp
+++ b/include/sim_ds/BitReference.hpp
@@ -76,7 +76,7 @@ public:
     }
     
     BitIterator<_Bv, true> operator&() const {
-        return BitIterator<_Bv, true>(seg_, static_cast<size_t>(__ctz(mask_)));
+        return BitIterator<_Bv, true>(seg_, static_cast<size_t>(bit_util::ctz(mask_)));
     }
     
 private:
@@ -201,6 +201,8 @@ private:
     BitIterator(_word_pointer pointer, size_t ctz) : seg_(pointer), ctz_(ctz) {}
     
     friend typename _Bv::_self;
+    friend class BitReference<_Bv>;
+    friend class BitConstReference<_Bv>;
     
 };
 
-- 
2.43.0

