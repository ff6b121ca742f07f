From 25f29b04fd4884a83489bd9df75c2cc60c06c6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:12 +0000
Subject: [PATCH 01/62] fix: bits::cnt32 overflowed for words with 16 set bits
 in one half of the nibbles

---
 include/sdsl/bits.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/bits.hpp b/include/sdsl/bits.hpp
index 1c45774..63c46d2 100644
--- a/include/sdsl/bits.hpp
+++ b/include/sdsl/bits.hpp
@@ -268,7 +268,8 @@ inline uint32_t bits::cnt32(uint32_t x)
 {
     x = x-((x>>1) & 0x55555555);
     x = (x & 0x33333333) + ((x>>2) & 0x33333333);
-    return (0x10101010*x >>28)+(0x01010101*x >>28);
+    x = (x + (x>>4)) & 0x0F0F0F0F;
+    return (0x01010101*x >> 24);
 }
 
 
-- 
2.43.0


From ab4f7165100f1018cc83a9f7cac9153f97eb328a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:08 +0000
Subject: [PATCH 02/62] fix: util::next_bit returned a position beyond bit_size
 when unused bits of the last word are set

---
 include/sdsl/util.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/util.hpp b/include/sdsl/util.hpp
index d33b6b0..b74d9e0 100644
--- a/include/sdsl/util.hpp
+++ b/include/sdsl/util.hpp
@@ -576,12 +576,13 @@ typename t_int_vec::size_type util::next_bit(const t_int_vec& v, uint64_t idx)
     uint64_t node = v.data()[pos];
     node >>= (idx&0x3F);
     if (node) {
-        return idx+bits::lo(node);
+        // the unused bits of the last word might be set
+        return std::min<uint64_t>(idx+bits::lo(node), v.bit_size());
     } else {
         ++pos;
         while ((pos<<6) < v.bit_size()) {
             if (v.data()[pos]) {
-                return (pos<<6)|bits::lo(v.data()[pos]);
+                return std::min<uint64_t>((pos<<6)|bits::lo(v.data()[pos]), v.bit_size());
             }
             ++pos;
         }
-- 
2.43.0


From 7c7e0fcdcb8805d2d8fd6d0f59308c5aec9098a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:45 +0000
Subject: [PATCH 03/62] fix: int_vector::operator== ignored the width of the
 elements

---
 include/sdsl/int_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sdsl/int_vector.hpp b/include/sdsl/int_vector.hpp
index 2b2a3a3..9d8de37 100644
--- a/include/sdsl/int_vector.hpp
+++ b/include/sdsl/int_vector.hpp
@@ -1452,6 +1452,8 @@ bool int_vector<t_width>::operator==(const int_vector& v)const
         return false;
     if (bit_size() != v.bit_size())
         return false;
+    if (width() != v.width())
+        return false;
     if (empty())
         return true;
     const uint64_t* data1 = v.data();
-- 
2.43.0


From 9672d909ac56e9f8bd55f952202773f0aef42aa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:31 +0000
Subject: [PATCH 04/62] fix: resizing a vector within its last word left out
 the padding word that rank supports read

---
 include/sdsl/memory_management.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/memory_management.hpp b/include/sdsl/memory_management.hpp
index 75f83d2..7d5dc72 100644
--- a/include/sdsl/memory_management.hpp
+++ b/include/sdsl/memory_management.hpp
@@ -345,7 +345,9 @@ class memory_manager
         {
             uint64_t old_size_in_bytes = ((v.m_size + 63) >> 6) << 3;
             uint64_t new_size_in_bytes = ((size + 63) >> 6) << 3;
-            bool do_realloc = old_size_in_bytes != new_size_in_bytes;
+            // also reallocate if the padding word (see below) appears or disappears
+            bool do_realloc = old_size_in_bytes != new_size_in_bytes
+                              or ((v.m_size + 64) >> 6) != ((size + 64) >> 6);
             v.m_size = size;
             if (do_realloc || v.m_data == nullptr) {
                 // Note that we allocate 8 additional bytes if m_size % 64 == 0.
-- 
2.43.0


From 2343a11b8efd720f32dbc87ee65458948859ff41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:50 +0000
Subject: [PATCH 05/62] fix: sd_vector built from an empty position sequence
 answers queries

---
 include/sdsl/sd_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sdsl/sd_vector.hpp b/include/sdsl/sd_vector.hpp
index 627d70d..b0baf22 100644
--- a/include/sdsl/sd_vector.hpp
+++ b/include/sdsl/sd_vector.hpp
@@ -231,6 +231,7 @@ class sd_vector
         sd_vector(const t_itr begin,const t_itr end)
         {
             if (begin == end) {
+                *this = sd_vector(bit_vector());
                 return;
             }
             if (! std::is_sorted(begin,end)) {
-- 
2.43.0


From 5f67c62cde0607412e5faf256576a20220f4855d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:37 +0000
Subject: [PATCH 06/62] fix: Fibonacci coder shifted by a negative amount for
 codes whose low 64 bits are zero

---
 include/sdsl/coder_fibonacci.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/coder_fibonacci.hpp b/include/sdsl/coder_fibonacci.hpp
index 1b4256f..9c0845a 100644
--- a/include/sdsl/coder_fibonacci.hpp
+++ b/include/sdsl/coder_fibonacci.hpp
@@ -211,7 +211,7 @@ inline bool fibonacci::encode(const int_vector1& v, int_vector2& z)
                         fibword_high <<= 1;
                         --j;
                     } else {
-                        fibword_high <<= (64-j);
+                        fibword_high <<= (j-64);
                         break;
                     }
                 }
@@ -272,7 +272,7 @@ inline void fibonacci::encode(uint64_t x, uint64_t*& z, uint8_t& offset)
                     fibword_high <<= 1;
                     --j;
                 } else {
-                    fibword_high <<= (64-j);
+                    fibword_high <<= (j-64);
                     break;
                 }
             }
-- 
2.43.0


From df4fba12dfce882b61b5257ca43b62630f0e2bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 07/62] fix: Elias-gamma prefix sum shifted a word by 64 bits
 for values of 2^63 and more

---
 lib/coder_elias_gamma.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/coder_elias_gamma.cpp b/lib/coder_elias_gamma.cpp
index 3e668a9..479de50 100644
--- a/lib/coder_elias_gamma.cpp
+++ b/lib/coder_elias_gamma.cpp
@@ -97,7 +97,7 @@ begin_decode:
 //				assert(w>0);
                 uint16_t len_1 = bits::lo(w); // read length of length
                 buffered -= (len_1+1);
-                w >>= (len_1+1);
+                w = len_1 < 63 ? w >> (len_1+1) : 0;
                 if (len_1 > buffered) {// buffer is not full
                     w |= (((*d)>>read)<<buffered);
                     if (read >= buffered) {
-- 
2.43.0


From 30d8c398d3ec9ca9b2bcdcab875c08713542ac3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:27 +0000
Subject: [PATCH 08/62] fix: Elias-delta/gamma prefix sums read one word beyond
 the encoded sequence

---
 lib/coder_elias_delta.cpp | 7 +++----
 lib/coder_elias_gamma.cpp | 6 +++---
 2 files changed, 6 insertions(+), 7 deletions(-)

diff --git a/lib/coder_elias_delta.cpp b/lib/coder_elias_delta.cpp
index cef7556..f7a62e7 100644
--- a/lib/coder_elias_delta.cpp
+++ b/lib/coder_elias_delta.cpp
@@ -43,7 +43,6 @@ uint64_t elias_delta::decode_prefix_sum(const uint64_t* d, const size_type start
 start_decoding:
     while (i<n) {
         while (buffered < 64 and d < lastdata) {
-fill_buffer:
             w |= (((*d)>>read)<<buffered);
             if (read >= buffered) {
                 ++d;
@@ -77,8 +76,7 @@ fill_buffer:
             buffered -= rbp;
             w >>= rbp;
             if (buffered<16)
-//				continue;
-                goto fill_buffer;
+                continue;
         }
 //		assert(w!=0xFFFFFFFFFFFFFFFFULL);
 //		else
@@ -253,7 +251,8 @@ start_decoding:
                 continue;
         }
         while (i < n) {
-            uint32_t psum = elias_delta::data.prefixsum[bits::read_int(d, offset, 16)];
+            // the next word is only known to belong to the codes if 16 values are left
+            uint32_t psum = (offset+16 <= 64 or n-i >= 16) ? elias_delta::data.prefixsum[bits::read_int(d, offset, 16)] : 0;
 //			if( psum == 0 or i+((psum>>16)&0x00FF) > n ){ // value does not fit in 16 bits
             if (psum == 0) { // value does not fit in 16 bits
                 goto decode_single;
diff --git a/lib/coder_elias_gamma.cpp b/lib/coder_elias_gamma.cpp
index 479de50..6cc5b77 100644
--- a/lib/coder_elias_gamma.cpp
+++ b/lib/coder_elias_gamma.cpp
@@ -43,7 +43,6 @@ uint64_t elias_gamma::decode_prefix_sum(const uint64_t* d, const size_type start
 start_decoding:
     while (i<n) {
         while (buffered < 64 and d < lastdata) {
-fill_buffer:
             w |= (((*d)>>read)<<buffered);
             if (read >= buffered) {
                 ++d;
@@ -65,7 +64,7 @@ fill_buffer:
             buffered -= rbp;
             w >>= rbp;
             if (buffered<16)
-                goto fill_buffer;
+                continue;
         }
         {
             // i < n
@@ -207,7 +206,8 @@ start_decoding:
         }
 
         while (i < n) {
-            uint32_t psum = elias_gamma::data.prefixsum[bits::read_int(d, offset, 16)];
+            // the next word is only known to belong to the codes if 16 values are left
+            uint32_t psum = (offset+16 <= 64 or n-i >= 16) ? elias_gamma::data.prefixsum[bits::read_int(d, offset, 16)] : 0;
             if (psum == 0) { // value does not fit in 16 bits
                 goto decode_single;
             } else if (i+((psum>>16)&0x00FF) > n) { // decoded too much
-- 
2.43.0


From 4b53580db0c855f6b5451d47d7ec9e7e1251ce88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:30 +0000
Subject: [PATCH 09/62] verification hook: optional bound on
 int_vector_buffer's block size (SDSL_VERIF_MAX_BUFFERSIZE)

---
 include/sdsl/int_vector_buffer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/sdsl/int_vector_buffer.hpp b/include/sdsl/int_vector_buffer.hpp
index 6017015..367133f 100644
--- a/include/sdsl/int_vector_buffer.hpp
+++ b/include/sdsl/int_vector_buffer.hpp
@@ -264,6 +264,10 @@ class int_vector_buffer
         {
             if (0ULL == buffersize)
                 buffersize = 8;
+#ifdef SDSL_VERIF_MAX_BUFFERSIZE // verification hook: small blocks for symbolic execution
+            if (buffersize > SDSL_VERIF_MAX_BUFFERSIZE)
+                buffersize = SDSL_VERIF_MAX_BUFFERSIZE;
+#endif
             write_block();
             if (0==(buffersize*8)%width()) {
                 m_buffersize = buffersize*8/width(); // m_buffersize might not be multiple of 8, but m_buffersize*width() is.
-- 
2.43.0


From 0b5bb9f83daeaa14f4fb8e68ca030962375b1388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:13 +0000
Subject: [PATCH 10/62] fix: wt_int and wm_int with values that use all 64 bits
 (shift by max_level=64)

---
 include/sdsl/wm_int.hpp |  7 +++----
 include/sdsl/wt_int.hpp | 13 ++++++-------
 2 files changed, 9 insertions(+), 11 deletions(-)

diff --git a/include/sdsl/wm_int.hpp b/include/sdsl/wm_int.hpp
index cab4632..38571c8 100644
--- a/include/sdsl/wm_int.hpp
+++ b/include/sdsl/wm_int.hpp
@@ -325,7 +325,7 @@ class wm_int
         size_type rank(size_type i, value_type c)const
         {
             assert(i <= size());
-            if (((1ULL)<<(m_max_level))<=c) { // c is greater than any symbol in wt
+            if (m_max_level < 64 and ((1ULL)<<(m_max_level))<=c) { // c is greater than any symbol in wt
                 return 0;
             }
             size_type b = 0; // start position of the interval
@@ -439,7 +439,7 @@ class wm_int
                         bool report=true) const
         {
 
-            if (vrb > (1ULL << m_max_level))
+            if (m_max_level < 64 and vrb > (1ULL << m_max_level))
                 vrb = (1ULL << m_max_level);
             if (vlb > vrb)
                 return make_pair(0, point_vec_type());
@@ -487,8 +487,7 @@ class wm_int
             } else {
                 rank_off[v.level] = m_tree_rank(is[v.level]);
             }
-            size_type irb = ilb + (1ULL << (m_max_level-v.level));
-            size_type mid = (irb + ilb)>>1;
+            size_type mid = ilb + (1ULL << (m_max_level-v.level-1));
 
             auto c_v = expand(v);
             auto c_r = expand(v, r);
diff --git a/include/sdsl/wt_int.hpp b/include/sdsl/wt_int.hpp
index 500dc42..aa6a33a 100644
--- a/include/sdsl/wt_int.hpp
+++ b/include/sdsl/wt_int.hpp
@@ -205,7 +205,7 @@ class wt_int
             size_type tree_pos = 0;
             uint64_t tree_word = 0;
 
-            uint64_t mask_old = 1ULL<<(m_max_level);
+            uint64_t mask_old = m_max_level < 64 ? 1ULL<<(m_max_level) : 0;
             for (uint32_t k=0; k<m_max_level; ++k) {
                 size_type          start     = 0;
                 const uint64_t    mask_new = 1ULL<<(m_max_level-k-1);
@@ -355,7 +355,7 @@ class wt_int
          */
         size_type rank(size_type i, value_type c)const {
             assert(i <= size());
-            if (((1ULL)<<(m_max_level))<=c) { // c is greater than any symbol in wt
+            if (m_max_level < 64 and ((1ULL)<<(m_max_level))<=c) { // c is greater than any symbol in wt
                 return 0;
             }
             size_type offset = 0;
@@ -524,7 +524,7 @@ class wt_int
         template<class t_ret_type = std::tuple<size_type, size_type, size_type>>
         t_ret_type lex_count(size_type i, size_type j, value_type c)const {
             assert(i <= j and j <= size());
-            if (((1ULL)<<(m_max_level))<=c) { // c is greater than any symbol in wt
+            if (m_max_level < 64 and ((1ULL)<<(m_max_level))<=c) { // c is greater than any symbol in wt
                 return t_ret_type {0, j-i, 0};
             }
             size_type offset  = 0;
@@ -568,7 +568,7 @@ class wt_int
         template<class t_ret_type = std::tuple<size_type, size_type>>
         t_ret_type lex_smaller_count(size_type i, value_type c) const {
             assert(i <= size());
-            if (((1ULL)<<(m_max_level))<=c) { // c is greater than any symbol in wt
+            if (m_max_level < 64 and ((1ULL)<<(m_max_level))<=c) { // c is greater than any symbol in wt
                 return t_ret_type {0, i};
             }
             size_type offset = 0;
@@ -609,7 +609,7 @@ class wt_int
             std::vector<size_type> offsets(m_max_level+1);
             std::vector<size_type> ones_before_os(m_max_level+1);
             offsets[0] = 0;
-            if (vrb > (1ULL << m_max_level))
+            if (m_max_level < 64 and vrb > (1ULL << m_max_level))
                 vrb = (1ULL << m_max_level);
             if (vlb > vrb)
                 return make_pair(0, point_vec_type());
@@ -648,8 +648,7 @@ class wt_int
                 cnt_answers += rb-lb+1;
                 return;
             }
-            size_type irb = ilb + (1ULL << (m_max_level-level));
-            size_type mid = (irb + ilb)>>1;
+            size_type mid = ilb + (1ULL << (m_max_level-level-1));
 
             size_type offset = offsets[level];
 
-- 
2.43.0


From 31c31aa4b2742662b3a9c382404859bf5bcaeaa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:51 +0000
Subject: [PATCH 11/62] fix: range_search_2d of wt_int and wm_int clamped the
 upper value bound to 2^max_level, matching the largest symbol for
 vlb=2^max_level

---
 include/sdsl/wm_int.hpp | 4 ++--
 include/sdsl/wt_int.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sdsl/wm_int.hpp b/include/sdsl/wm_int.hpp
index 38571c8..03c46be 100644
--- a/include/sdsl/wm_int.hpp
+++ b/include/sdsl/wm_int.hpp
@@ -439,8 +439,8 @@ class wm_int
                         bool report=true) const
         {
 
-            if (m_max_level < 64 and vrb > (1ULL << m_max_level))
-                vrb = (1ULL << m_max_level);
+            if (m_max_level < 64 and vrb >= (1ULL << m_max_level))
+                vrb = (1ULL << m_max_level) - 1;
             if (vlb > vrb)
                 return make_pair(0, point_vec_type());
             size_type cnt_answers = 0;
diff --git a/include/sdsl/wt_int.hpp b/include/sdsl/wt_int.hpp
index aa6a33a..d2646df 100644
--- a/include/sdsl/wt_int.hpp
+++ b/include/sdsl/wt_int.hpp
@@ -609,8 +609,8 @@ class wt_int
             std::vector<size_type> offsets(m_max_level+1);
             std::vector<size_type> ones_before_os(m_max_level+1);
             offsets[0] = 0;
-            if (m_max_level < 64 and vrb > (1ULL << m_max_level))
-                vrb = (1ULL << m_max_level);
+            if (m_max_level < 64 and vrb >= (1ULL << m_max_level))
+                vrb = (1ULL << m_max_level) - 1;
             if (vlb > vrb)
                 return make_pair(0, point_vec_type());
             size_type cnt_answers = 0;
-- 
2.43.0


From 48e919878d91881b85405c983f3d1c2bb2a47700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:51 +0000
Subject: [PATCH 12/62] fix: symbol_lte/symbol_gte on wavelet trees with
 max_level=64 (shift by 64)

---
 include/sdsl/wt_algorithm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/wt_algorithm.hpp b/include/sdsl/wt_algorithm.hpp
index 2151169..0ecd8b5 100644
--- a/include/sdsl/wt_algorithm.hpp
+++ b/include/sdsl/wt_algorithm.hpp
@@ -325,7 +325,7 @@ template<class t_wt>
 std::pair<bool,typename t_wt::value_type>
 _symbol_lte(const t_wt& wt,typename t_wt::value_type c)
 {
-    if (((1ULL) << (wt.max_level)) <= c) {
+    if (wt.max_level < 64 and ((1ULL) << (wt.max_level)) <= c) {
         // c is greater than any symbol in wt. return the largest symbol!
         c = sdsl::bits::lo_set[wt.max_level];
     }
@@ -375,7 +375,7 @@ template<class t_wt>
 std::pair<bool,typename t_wt::value_type>
 _symbol_gte(const t_wt& wt,typename t_wt::value_type c)
 {
-    if (((1ULL) << (wt.max_level)) <= c) {
+    if (wt.max_level < 64 and ((1ULL) << (wt.max_level)) <= c) {
         // c is greater than any symbol in wt
         return {false, 0};
     }
-- 
2.43.0


From d4d66e6e9200810c0e4aacae118c5df58b75a567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:24 +0000
Subject: [PATCH 13/62] fix: bp_support_sada::level_anc(0,0) returned size()
 instead of the root itself

---
 include/sdsl/bp_support_sada.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/bp_support_sada.hpp b/include/sdsl/bp_support_sada.hpp
index 655679c..315354f 100644
--- a/include/sdsl/bp_support_sada.hpp
+++ b/include/sdsl/bp_support_sada.hpp
@@ -270,7 +270,7 @@ class bp_support_sada
         {
             size_type j;
             if (i == 0) {
-                return rel == 0 ? -1 : size();
+                return excess(0)+rel == 0 ? -1 : size();
             }
             // (1) search the small block for the answer
             if ((j = near_bwd_excess(*m_bp, i-1, rel, t_sml_blk)) < i or j == (size_type)-1) {
-- 
2.43.0


From 3afb4f5b55825c267d7a2b33f9477c327169c58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:07 +0000
Subject: [PATCH 14/62] fix: bp_support_g::rmq_open/rmq gave wrong positions
 (closing parenthesis at r, no open parenthesis in the range)

---
 include/sdsl/bp_support_g.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/sdsl/bp_support_g.hpp b/include/sdsl/bp_support_g.hpp
index 567a371..26602f2 100644
--- a/include/sdsl/bp_support_g.hpp
+++ b/include/sdsl/bp_support_g.hpp
@@ -441,7 +441,7 @@ class bp_support_g
 //                assert( l>1 ); // mi is at greater or equal than 1
                 // note: mi and r are not in the same block
                 size_type        k, ex;    // helper variables
-                size_type         min_ex = excess(r);// + 2*((*m_bp[r])==0); // minimal excess
+                size_type         min_ex = excess(r)+2*((*m_bp)[r]==0); // minimal excess
                 const size_type bl = (l/t_bs+1)*t_bs;  // leftmost position of the leftmost block between the blocks of l and r
                 const size_type br = (r/t_bs)*t_bs;       // leftmost position of the block of r
 
@@ -543,16 +543,13 @@ class bp_support_g
         size_type rmq(size_type l, size_type r)const {
             assert(l<=r);
             size_type m = rmq_open(l, r+1);
-            if (m==l)
+            if (m==size()) // each parenthesis opened in [l..r] is closed in [l..r]
+                return r;
+            else if (m==l)
                 return l;
             else { // m>l and m<=r
                 assert(0 == (*m_bp)[m-1]);
-                size_type prev_open = m_rank_bp(m);
-                if (prev_open == 0 or m_select_bp(prev_open) < l) { // if there exists no opening parenthesis to the left of m which is greater or equal than l
-                    return l;
-                } else {
-                    return m-1;
-                }
+                return m-1;
             }
         }
 
-- 
2.43.0


From 2f75c14de40206a2d5e0939cf7a56ec70ae1e58a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:07 +0000
Subject: [PATCH 15/62] fix: rmq_support_sparse_table wrote to a missing table
 for arrays of two decreasing elements

---
 include/sdsl/rmq_support_sparse_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/rmq_support_sparse_table.hpp b/include/sdsl/rmq_support_sparse_table.hpp
index e09be17..8c8bf1f 100644
--- a/include/sdsl/rmq_support_sparse_table.hpp
+++ b/include/sdsl/rmq_support_sparse_table.hpp
@@ -79,7 +79,7 @@ class rmq_support_sparse_table
             if (m_v == nullptr)
                 return;
             const size_type n = m_v->size();
-            if (n < 2)  // for n<2 the queries could be answerd without any table
+            if (n < 3)  // for n<3 the queries could be answerd without any table
                 return;
             size_type k=0;
             while (2*(1ULL<<k) < n) ++k;  // calculate maximal
-- 
2.43.0


From 208f84fb549e6d59801a838d70507dba89f5c757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:12 +0000
Subject: [PATCH 16/62] fix: copies of louds_node referred to the members of
 the copied node

---
 include/sdsl/louds_tree.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/sdsl/louds_tree.hpp b/include/sdsl/louds_tree.hpp
index 6d6d6e9..62d69de 100644
--- a/include/sdsl/louds_tree.hpp
+++ b/include/sdsl/louds_tree.hpp
@@ -30,6 +30,14 @@ class louds_node
 
         louds_node(size_type f_nr=0, size_type f_pos=0):m_nr(f_nr), m_pos(f_pos),nr(m_nr),pos(m_pos) {}
 
+        louds_node(const louds_node& v):m_nr(v.m_nr), m_pos(v.m_pos),nr(m_nr),pos(m_pos) {}
+
+        louds_node& operator=(const louds_node& v) {
+            m_nr = v.m_nr;
+            m_pos = v.m_pos;
+            return *this;
+        }
+
         bool operator==(const louds_node& v)const {
             return m_nr == v.m_nr and m_pos ==v.m_pos;
         }
-- 
2.43.0


From 2bf701b5809440aaef77d6f06fc00446b2372c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:12 +0000
Subject: [PATCH 17/62] fix: swap and serialize of louds_tree did not compile

---
 include/sdsl/louds_tree.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/sdsl/louds_tree.hpp b/include/sdsl/louds_tree.hpp
index 62d69de..b06475e 100644
--- a/include/sdsl/louds_tree.hpp
+++ b/include/sdsl/louds_tree.hpp
@@ -187,16 +187,16 @@ class louds_tree
 
         void swap(louds_tree& tree) {
             m_bv.swap(tree.m_bv);
-            util::swap_support(m_bv_select1, tree.m_select1, &m_bv, &(tree.m_bv));
-            util::swap_support(m_bv_select0, tree.m_select0, &m_bv, &(tree.m_bv));
+            util::swap_support(m_bv_select1, tree.m_bv_select1, &m_bv, &(tree.m_bv));
+            util::swap_support(m_bv_select0, tree.m_bv_select0, &m_bv, &(tree.m_bv));
         }
 
         size_type serialize(std::ostream& out, structure_tree_node* v=nullptr, std::string name="")const {
             structure_tree_node* child = structure_tree::add_child(v, name, util::class_name(*this));
             size_type written_bytes = 0;
-            m_bv.serialize(out, child, "bitvector");
-            m_bv_select1(out, child, "select1");
-            m_bv_select0(out, child, "select0");
+            written_bytes += m_bv.serialize(out, child, "bitvector");
+            written_bytes += m_bv_select1.serialize(out, child, "select1");
+            written_bytes += m_bv_select0.serialize(out, child, "select0");
             structure_tree::add_size(child, written_bytes);
             return written_bytes;
         }
-- 
2.43.0


From 6f6dadfa5036cc5e603b933d5a724dae40935f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:34 +0000
Subject: [PATCH 18/62] fix: k2_treap containing only the point (0,0) read
 outside of the coordinate table

---
 include/sdsl/k2_treap.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/k2_treap.hpp b/include/sdsl/k2_treap.hpp
index 111cefc..715f4ba 100644
--- a/include/sdsl/k2_treap.hpp
+++ b/include/sdsl/k2_treap.hpp
@@ -396,7 +396,7 @@ class k2_treap
         root() const
         {
             return node_type(t, t_p(0,0), 0, m_maxval[0],
-                             t_p(m_coord[t-1][0], m_coord[t-1][1]));
+                             t > 0 ? t_p(m_coord[t-1][0], m_coord[t-1][1]) : t_p(0,0));
         }
 
         bool
-- 
2.43.0


From 557989c89289d8b0eee0c475870d1af98020bfdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:20 +0000
Subject: [PATCH 19/62] fix: a seek on a closed ram_filebuf dereferenced a null
 pointer

---
 lib/ram_filebuf.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/ram_filebuf.cpp b/lib/ram_filebuf.cpp
index eacb8a0..6c7a7e5 100644
--- a/lib/ram_filebuf.cpp
+++ b/lib/ram_filebuf.cpp
@@ -80,6 +80,9 @@ ram_filebuf::close()
 ram_filebuf::pos_type
 ram_filebuf::seekpos(pos_type sp, std::ios_base::openmode mode)
 {
+    if (!is_open()) {
+        return pos_type(off_type(-1));
+    }
     if (sp >= (pos_type)0 and sp <= (pos_type)m_ram_file->size()) {
         setg(m_ram_file->data(), m_ram_file->data()+sp, m_ram_file->data()+m_ram_file->size());
         setp(m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
-- 
2.43.0


From 390bc5b6234bdf2de1cc86d23671202b5e7dc702 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:20 +0000
Subject: [PATCH 20/62] fix: util::dirname of a RAM file in a directory gave
 the name of a directory on disk

---
 lib/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/util.cpp b/lib/util.cpp
index 4847a65..babdd23 100644
--- a/lib/util.cpp
+++ b/lib/util.cpp
@@ -71,7 +71,7 @@ std::string dirname(std::string file)
     if (ram_file) {
         if ("." == res) {
             res = ram_file_name("");
-        } else if ("/" ==res) {
+        } else {
             res = ram_file_name(res);
         }
     }
-- 
2.43.0


From 39664d6ce181c13a7a3c3268ee75691949304364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:16 +0000
Subject: [PATCH 21/62] fix: qsufsort gave a wrong suffix array for symbols of
 2^63 and more

---
 include/sdsl/qsufsort.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/sdsl/qsufsort.hpp b/include/sdsl/qsufsort.hpp
index e49def9..45e7800 100644
--- a/include/sdsl/qsufsort.hpp
+++ b/include/sdsl/qsufsort.hpp
@@ -39,6 +39,8 @@
 #define DBG_OUT if(0)std::cout
 
 #include <sdsl/int_vector.hpp>
+#include <algorithm>
+#include <vector>
 
 namespace sdsl
 {
@@ -444,6 +446,18 @@ class sorter
                 return;
             }
 
+            if (x.width() == 64 and (*std::max_element(x.begin(), x.end()) >> 63)) {
+                // symbols using all 64 bits leave no space for the sign bit => replace each symbol by its rank
+                std::vector<uint64_t> alphabet(x.begin(), x.end());
+                std::sort(alphabet.begin(), alphabet.end());
+                alphabet.erase(std::unique(alphabet.begin(), alphabet.end()), alphabet.end());
+                for (size_type i=0; i < x.size(); ++i) {
+                    if (x[i] > 0) {
+                        x[i] = std::lower_bound(alphabet.begin(), alphabet.end(), (uint64_t)x[i]) - alphabet.begin() + 1;
+                    }
+                }
+            }
+
             int64_t max_symbol = 0, min_symbol = x.width() < 64 ? bits::lo_set[x.width()] : 0x7FFFFFFFFFFFFFFFLL;
 
             for (size_type i=0; i < x.size()-1; ++i) {
-- 
2.43.0


From 077d013b07aa125c169ad03536d6190574287f71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:37 +0000
Subject: [PATCH 22/62] fix: insert_lcp_values truncated the LCP array if its
 last values were not known yet

---
 lib/construct_lcp_helper.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/construct_lcp_helper.cpp b/lib/construct_lcp_helper.cpp
index 0c83878..e1c9e5b 100644
--- a/lib/construct_lcp_helper.cpp
+++ b/lib/construct_lcp_helper.cpp
@@ -35,12 +35,15 @@ void insert_lcp_values(int_vector<>& partial_lcp, bit_vector& index_done, std::s
                 // Insert value
                 out_buf[i] = partial_lcp[calc_idx]+lcp_value_offset;
                 index_done[i] = true;
+            } else {
+                out_buf[i] = 0; // value is not known yet
             }
             ++calc_idx;
         }
     }
     // Close file and replace old file with new one
     out_buf.close();
+    lcp_buffer.close(); // has to be closed before it is replaced, otherwise its header is written to a renamed RAM file
     sdsl::rename(tmp_lcp_file, lcp_file);
 }
 
-- 
2.43.0


From b7e00c0733983ca70d1719cadffb129579dc53fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:37 +0000
Subject: [PATCH 23/62] fix: construct_lcp_bwt_based lost values if less than
 two bits per LCP value were available

---
 lib/construct_lcp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/construct_lcp.cpp b/lib/construct_lcp.cpp
index 9a8cb21..1790683 100644
--- a/lib/construct_lcp.cpp
+++ b/lib/construct_lcp.cpp
@@ -652,7 +652,7 @@ void construct_lcp_bwt_based(cache_config& config)
     if (n*20 < size_in_bytes(wt_bwt)*8*1.25+5*n) {
         bb = 6;
     }
-    bb = std::min(bb, (size_type)8);
+    bb = std::max(std::min(bb, (size_type)8), (size_type)2); // the first iterations write the values 0 and 1
 
     size_type lcp_value_max = (1ULL<<bb)-1;       // Largest LCP value that can be stored into the LCP array
     size_type space_in_bit_for_lcp = n*bb;        // Space for the LCP array in main memory
-- 
2.43.0


From 397472a3b50330bda0584f5b6169c0fa865eecd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:37 +0000
Subject: [PATCH 24/62] fix: construct_lcp_bwt_based divided by zero if all
 values were known when the array was written

---
 lib/construct_lcp.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/construct_lcp.cpp b/lib/construct_lcp.cpp
index 1790683..7a9220f 100644
--- a/lib/construct_lcp.cpp
+++ b/lib/construct_lcp.cpp
@@ -819,6 +819,10 @@ void construct_lcp_bwt_based(cache_config& config)
             lcp_value_offset = lcp_value_max-1;
             size_type remaining_lcp_values = index_done.size()-ds_rank_support.rank(index_done.size());
 
+            if (remaining_lcp_values == 0) { // all values are already in the file
+                register_cache_file(conf::KEY_LCP, config);
+                return;
+            }
             uint8_t int_width_new = std::min(space_in_bit_for_lcp / remaining_lcp_values , (size_type)bits::hi(n-1)+1);
             lcp_value_max = lcp_value_offset + (1ULL<<int_width_new);
 #ifdef STUDY_INFORMATIONS
-- 
2.43.0


From df2350d38df5fd19c4a822c2a3a2ad9e8575331b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:05 +0000
Subject: [PATCH 25/62] fix: bwt.select of wavelet tree based CSAs called a
 non-existing method

---
 include/sdsl/suffix_array_helper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_array_helper.hpp b/include/sdsl/suffix_array_helper.hpp
index 97c6bf5..8c20766 100644
--- a/include/sdsl/suffix_array_helper.hpp
+++ b/include/sdsl/suffix_array_helper.hpp
@@ -456,7 +456,7 @@ class bwt_of_csa_wt
          */
         size_type select(size_type i, const char_type c)const
         {
-            return m_csa.select(i, c);
+            return m_csa.select_bwt(i, c);
         }
 
 
-- 
2.43.0


From f9d69990745ec43b5eaa2104352b0d30404f3ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:05 +0000
Subject: [PATCH 26/62] fix: psi.empty() and lf.empty() of csa_bitcompressed
 recursed forever

---
 include/sdsl/suffix_array_helper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_array_helper.hpp b/include/sdsl/suffix_array_helper.hpp
index 8c20766..c44765c 100644
--- a/include/sdsl/suffix_array_helper.hpp
+++ b/include/sdsl/suffix_array_helper.hpp
@@ -209,7 +209,7 @@ class traverse_csa_saisa
         //! Returns if the \f$\Psi\f$ function is empty.
         size_type empty()const
         {
-            return m_csa,empty();
+            return m_csa.empty();
         }
 
         //! Returns a const_iterator to the first element.
-- 
2.43.0


From c1277a5e7ef1fab1a21f0d2a79a7396b2decd1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:06 +0000
Subject: [PATCH 27/62] fix: sa_bwt_sampling multiplied the sampled SA values
 by the sampling density

---
 include/sdsl/csa_sampling_strategy.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/csa_sampling_strategy.hpp b/include/sdsl/csa_sampling_strategy.hpp
index 8209fcc..e8e057b 100644
--- a/include/sdsl/csa_sampling_strategy.hpp
+++ b/include/sdsl/csa_sampling_strategy.hpp
@@ -550,7 +550,7 @@ class _bwt_sampling : public int_vector<t_width>
         //! Return the suffix array value for the sampled index i
         inline value_type operator[](size_type i) const
         {
-            return base_type::operator[](m_rank_marked(i)) * sample_dens;
+            return base_type::operator[](m_rank_marked(i));
         }
 
         //! Assignment operation
-- 
2.43.0


From cf97e3eea5866e732dbc8de072ef11e6a5bfa907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:06 +0000
Subject: [PATCH 28/62] fix: moved csa_wt and csa_sada kept ISA supports
 referring to the source's SA samples

---
 include/sdsl/csa_sada.hpp | 1 +
 include/sdsl/csa_wt.hpp   | 1 +
 2 files changed, 2 insertions(+)

diff --git a/include/sdsl/csa_sada.hpp b/include/sdsl/csa_sada.hpp
index 7ccf724..d576922 100644
--- a/include/sdsl/csa_sada.hpp
+++ b/include/sdsl/csa_sada.hpp
@@ -263,6 +263,7 @@ class csa_sada
                 m_psi        = std::move(csa.m_psi);
                 m_sa_sample  = std::move(csa.m_sa_sample);
                 m_isa_sample = std::move(csa.m_isa_sample);
+                m_isa_sample.set_vector(&m_sa_sample);
                 m_alphabet   = std::move(csa.m_alphabet);
                 m_psi_buf    = std::move(csa.m_psi_buf);
             }
diff --git a/include/sdsl/csa_wt.hpp b/include/sdsl/csa_wt.hpp
index dd49365..2b0534f 100644
--- a/include/sdsl/csa_wt.hpp
+++ b/include/sdsl/csa_wt.hpp
@@ -364,6 +364,7 @@ auto csa_wt<t_wt, t_dens, t_inv_dens, t_sa_sample_strat, t_isa, t_alphabet_strat
         m_wavelet_tree = std::move(csa.m_wavelet_tree);
         m_sa_sample    = std::move(csa.m_sa_sample);
         m_isa_sample   = std::move(csa.m_isa_sample);
+        m_isa_sample.set_vector(&m_sa_sample);
         m_alphabet     = std::move(csa.m_alphabet);
     }
     return *this;
-- 
2.43.0


From 97f52778ecd710588a6c8dc634049316091bf7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:54 +0000
Subject: [PATCH 29/62] fix: ISA access of psi based CSAs did not handle
 samples which wrap around

---
 include/sdsl/suffix_array_helper.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_array_helper.hpp b/include/sdsl/suffix_array_helper.hpp
index c44765c..08b15b7 100644
--- a/include/sdsl/suffix_array_helper.hpp
+++ b/include/sdsl/suffix_array_helper.hpp
@@ -561,7 +561,11 @@ class isa_of_csa_psi
             // get the rightmost sampled isa value to the left of i
             auto sample = m_csa.isa_sample.sample_leq(i);
             value_type result = std::get<0>(sample);
-            i = i - std::get<1>(sample);
+            if (std::get<1>(sample) > i) {
+                i = i + m_csa.size() - std::get<1>(sample);
+            } else {
+                i = i - std::get<1>(sample);
+            }
             while (i--) {
                 result = m_csa.psi[result];
             }
-- 
2.43.0


From ea591dda76719455dce8a1e5503aa493ccb4e776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:14 +0000
Subject: [PATCH 30/62] fix: forward_search indexed char2comp with negative
 values for symbols above 127

---
 include/sdsl/suffix_array_algorithm.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_array_algorithm.hpp b/include/sdsl/suffix_array_algorithm.hpp
index 02b4be4..2455383 100644
--- a/include/sdsl/suffix_array_algorithm.hpp
+++ b/include/sdsl/suffix_array_algorithm.hpp
@@ -73,7 +73,8 @@ forward_search(
     auto compare = [&](typename t_csa::size_type i) -> int {
         for (auto current = begin; current != end; current++)
         {
-            auto index = csa.char2comp[*current];
+            auto c = (typename t_csa::char_type)*current;
+            typename t_csa::size_type index = csa.char2comp[c];
             if (index == 0) return -1;
             if (csa.C[index + 1] - 1 < i) return -1;
             if (csa.C[index] > i) return 1;
-- 
2.43.0


From 3289a3a8b34fa23aa49f7ed550d8e169cc2e1134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:14 +0000
Subject: [PATCH 31/62] fix: forward_search missed patterns which end with the
 terminating zero symbol

---
 include/sdsl/suffix_array_algorithm.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/suffix_array_algorithm.hpp b/include/sdsl/suffix_array_algorithm.hpp
index 2455383..5352501 100644
--- a/include/sdsl/suffix_array_algorithm.hpp
+++ b/include/sdsl/suffix_array_algorithm.hpp
@@ -66,7 +66,7 @@ forward_search(
     auto r_res_upper = r + 1;
 
     // shortcut for too long patterns
-    if ((typename t_csa::size_type)(end - begin) >= size)
+    if ((typename t_csa::size_type)(end - begin) > size)
         return 0;
 
     // compares the pattern with CSA-prefix i (truncated to length $|pattern|$).
@@ -75,7 +75,7 @@ forward_search(
         {
             auto c = (typename t_csa::char_type)*current;
             typename t_csa::size_type index = csa.char2comp[c];
-            if (index == 0) return -1;
+            if (index == 0 and c > 0) return -1;
             if (csa.C[index + 1] - 1 < i) return -1;
             if (csa.C[index] > i) return 1;
             i = csa.psi[i];
-- 
2.43.0


From e40bbf2f9ebed935c6cb5f282c4ce2e6cf7528e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:39 +0000
Subject: [PATCH 32/62] fix: extract of an edge label into an iterator returned
 no value

---
 include/sdsl/suffix_tree_algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/suffix_tree_algorithm.hpp b/include/sdsl/suffix_tree_algorithm.hpp
index d4f23f1..5c4bca8 100644
--- a/include/sdsl/suffix_tree_algorithm.hpp
+++ b/include/sdsl/suffix_tree_algorithm.hpp
@@ -181,7 +181,7 @@ typename t_cst::size_type extract(
     // first get the suffix array entry of the leftmost leaf in the subtree rooted at v
     typename t_cst::size_type begin = cst.csa[cst.lb(v)];
     // then call the extract method on the compressed suffix array
-    extract(cst.csa, begin, begin + cst.depth(v) - 1, text);
+    return extract(cst.csa, begin, begin + cst.depth(v) - 1, text);
 }
 
 //! Calculate the concatenation of edge labels from the root to the node v of of c CST.
-- 
2.43.0


From 25a45f5025834ec09a4530030ccda86ba97511e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:39 +0000
Subject: [PATCH 33/62] fix: copies of the depth first suffix tree iterator
 deleted its stack twice

---
 include/sdsl/cst_iterators.hpp | 25 ++++++++-----------------
 1 file changed, 8 insertions(+), 17 deletions(-)

diff --git a/include/sdsl/cst_iterators.hpp b/include/sdsl/cst_iterators.hpp
index e531a44..7bb512e 100644
--- a/include/sdsl/cst_iterators.hpp
+++ b/include/sdsl/cst_iterators.hpp
@@ -21,6 +21,8 @@
 #ifndef INCLUDED_SDSL_CST_ITERATORS
 #define INCLUDED_SDSL_CST_ITERATORS
 
+#include <vector>
+
 namespace sdsl
 {
 
@@ -57,54 +59,43 @@ class cst_dfs_const_forward_iterator: public std::iterator<std::forward_iterator
         node_type m_v;
         bool	 m_visited;
         bool 	 m_valid;
-        node_type* m_stack_cache;
+        std::vector<node_type> m_stack_cache;
         uint32_t m_stack_size;
 
 
         inline node_type parent() {
             --m_stack_size; // decrease stack size
-            if (m_stack_cache != nullptr and m_stack_size < cache_size) {
+            if (!m_stack_cache.empty() and m_stack_size < cache_size) {
                 return m_stack_cache[m_stack_size];
             } else
                 return m_cst->parent(m_v);
         }
 
         inline node_type first_child() {
-            if (m_stack_cache != nullptr and m_stack_size < cache_size)   // push node to the stack
+            if (!m_stack_cache.empty() and m_stack_size < cache_size)   // push node to the stack
                 m_stack_cache[ m_stack_size ] = m_v;
             m_stack_size++;
             return m_cst->select_child(m_v, 1);
         }
 
         //! Default constructor
-        cst_dfs_const_forward_iterator():m_cst(nullptr),m_visited(false),m_valid(false), m_stack_cache(nullptr)
+        cst_dfs_const_forward_iterator():m_cst(nullptr),m_visited(false),m_valid(false), m_stack_size(0)
         {}
     public:
 
         //! Constructor
-        cst_dfs_const_forward_iterator(const Cst* cst, const value_type node, bool visited=false, bool valid=true):m_visited(visited), m_valid(valid), m_stack_cache(nullptr) {
+        cst_dfs_const_forward_iterator(const Cst* cst, const value_type node, bool visited=false, bool valid=true):m_visited(visited), m_valid(valid), m_stack_size(0) {
             m_cst = cst;
             m_v = node;
             if (m_cst == nullptr) {
                 m_valid = false;
             } else if (m_v == m_cst->root() and !m_visited and m_valid) { // if the iterator equal cst.begin()
-                m_stack_cache = new node_type[cache_size];
+                m_stack_cache.resize(cache_size);
                 m_stack_size  = 0;
 //			std::cerr<<"#creating stack "<<m_cst->lb(m_v)<<" "<<m_cst->rb(m_v)<<std::endl;
             }
         }
 
-        //! Copy Constructor
-//	cst_dfs_const_forward_iterator(const cst_dfs_const_forward_iterator &it):m_cst(it.cst),m_v(it.m_v),m_valid(m_valid), m_stack_cache(nullptr),m_stack_size(0){
-//	}
-
-        ~cst_dfs_const_forward_iterator() {
-            if (m_stack_cache != nullptr) {
-//			std::cerr<<"#deleting stack "<<m_cst->lb(m_v)<<" "<<m_cst->rb(m_v)<<std::endl;
-                delete [] m_stack_cache;
-            }
-        }
-
         //! Returns how often the current node was already visited.
         uint8_t visit()const {
             return 1+(uint8_t)m_visited;
-- 
2.43.0


From 34bd4a63f496ecdcf370f0722405a622c2023984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:59 +0000
Subject: [PATCH 34/62] fix: depth first traversal of a suffix tree visited the
 root twice if it is the only node

---
 include/sdsl/cst_iterators.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/cst_iterators.hpp b/include/sdsl/cst_iterators.hpp
index 7bb512e..51a89f6 100644
--- a/include/sdsl/cst_iterators.hpp
+++ b/include/sdsl/cst_iterators.hpp
@@ -118,7 +118,8 @@ class cst_dfs_const_forward_iterator: public std::iterator<std::forward_iterator
         iterator& operator++() {
             if (!m_valid)
                 return *this;
-            if (m_v == m_cst->root() and m_visited) {
+            if (m_v == m_cst->root() and (m_visited or m_cst->is_leaf(m_v))) {
+                m_visited = true; // if the root is a leaf, it is visited only once
                 m_valid = false;
                 return *this;
             }
-- 
2.43.0


From 57b0ef34b1007fd7fbe3365211b9cb6412dfa908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:20 +0000
Subject: [PATCH 35/62] fix: absent Weiner links of cst_fully were not mapped
 to the root

---
 include/sdsl/cst_fully.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/cst_fully.hpp b/include/sdsl/cst_fully.hpp
index ef73457..9533b47 100644
--- a/include/sdsl/cst_fully.hpp
+++ b/include/sdsl/cst_fully.hpp
@@ -634,7 +634,9 @@ class cst_fully
         {
             size_type l, r;
             std::tie(l, r) = v;
-            backward_search(m_csa, l, r, c, l, r);
+            if (backward_search(m_csa, l, r, c, l, r) == 0) { // there exists no Weiner link
+                return root();
+            }
             return node_type(l, r);
         }
 
-- 
2.43.0


From 31b7e785567c0a58d54a8e96fe98e0c2b66f97e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:21 +0000
Subject: [PATCH 36/62] fix: suffix link of the leaf of the empty suffix was
 not the root in cst_sada and cst_fully

---
 include/sdsl/cst_fully.hpp | 3 +++
 include/sdsl/cst_sada.hpp  | 4 ++++
 2 files changed, 7 insertions(+)

diff --git a/include/sdsl/cst_fully.hpp b/include/sdsl/cst_fully.hpp
index 9533b47..9a243a9 100644
--- a/include/sdsl/cst_fully.hpp
+++ b/include/sdsl/cst_fully.hpp
@@ -615,6 +615,9 @@ class cst_fully
             if (v == root()) {
                 return root();
             } else if (is_leaf(v)) {
+                if (v.first == 0) { // the label of v consists only of the terminating zero
+                    return root();
+                }
                 size_t leaf = m_csa.psi[v.first];
                 return node_type(leaf, leaf);
             }
diff --git a/include/sdsl/cst_sada.hpp b/include/sdsl/cst_sada.hpp
index 49185da..3e36d26 100644
--- a/include/sdsl/cst_sada.hpp
+++ b/include/sdsl/cst_sada.hpp
@@ -736,6 +736,8 @@ class cst_sada
             // get leftmost leaf in the tree rooted at v
             size_type left        = m_bp_rank10(v);
             if (is_leaf(v)) {
+                if (left == 0) // the label of v consists only of the terminating zero
+                    return root();
                 return select_leaf(m_csa.psi[left]+1);
             }
             // get the rightmost leaf in the tree rooted at v
@@ -761,6 +763,8 @@ class cst_sada
             // get leftmost leaf in the tree rooted at v
             size_type left        = m_bp_rank10(v);
             if (is_leaf(v)) {
+                if (m_csa[left] + i >= size()) // the label of v consists of at most i characters
+                    return root();
                 return select_leaf(get_char_pos(left, i, m_csa)+1);
             }
             // get the rightmost leaf in the tree rooted at v
-- 
2.43.0


From 12dc8fea7e7a617b14cab4070664d8dcbe20211e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:44 +0000
Subject: [PATCH 37/62] fix: cst_sada::lca was wrong if one node is an ancestor
 of the other

---
 include/sdsl/cst_sada.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/sdsl/cst_sada.hpp b/include/sdsl/cst_sada.hpp
index 3e36d26..d1b0bb0 100644
--- a/include/sdsl/cst_sada.hpp
+++ b/include/sdsl/cst_sada.hpp
@@ -719,6 +719,8 @@ class cst_sada
             }
             if (v == root())
                 return root();
+            if (m_bp_support.find_close(v) > w) // v is an ancestor of w
+                return v;
             return m_bp_support.double_enclose(v, w);
         }
 
-- 
2.43.0


From 516ba40cf942841678fcb170e294949d13a60132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:21:44 +0000
Subject: [PATCH 38/62] fix: forward_search passed the text position as depth
 to the child method of cst_fully

---
 include/sdsl/cst_fully.hpp | 36 +++++++++++++++++++++++++++++-------
 1 file changed, 29 insertions(+), 7 deletions(-)

diff --git a/include/sdsl/cst_fully.hpp b/include/sdsl/cst_fully.hpp
index 9a243a9..004d8b8 100644
--- a/include/sdsl/cst_fully.hpp
+++ b/include/sdsl/cst_fully.hpp
@@ -694,10 +694,32 @@ class cst_fully
                 return root();
             }
             size_type d = depth(v);
-            return child(v, c, d);
+            return child_at_depth(v, c, d);
         }
 
-        node_type child(node_type v, char_type c, size_type d) const
+//! Get the child w of node v which edge label (v,w) starts with character c.
+        /*!
+         * \param v        A node v.
+         * \param c        First character of the edge label from v to the desired child.
+         * \param char_pos Reference which will hold the position (0-based) of
+         *                 the matching char c in the sorted text/suffix array.
+         * \return The child node w which edge label (v,w) starts with c or root() if it does not exist.
+         */
+        node_type child(node_type v, char_type c, size_type& char_pos) const
+        {
+            if (is_leaf(v)) {
+                return root();
+            }
+            size_type d = depth(v);
+            node_type w = child_at_depth(v, c, d);
+            if (w != root()) {
+                char_pos = get_char_pos(w.first, d, m_csa);
+            }
+            return w;
+        }
+
+//! Get the child w of node v with depth d which edge label (v,w) starts with character c.
+        node_type child_at_depth(node_type v, char_type c, size_type d) const
         {
             leaf_type lower;
             leaf_type upper;
@@ -760,14 +782,14 @@ class cst_fully
             size_type d = depth(v);
             size_type char_pos = get_char_pos(v.first, d, m_csa);
             char_type c = m_csa.F[char_pos];
-            node_type res = child(v, c, d);
+            node_type res = child_at_depth(v, c, d);
             while (i > 1) {
                 if (res.second >= v.second) {
                     return root();
                 }
                 char_pos = get_char_pos(res.second + 1, d, m_csa);
                 c = m_csa.F[char_pos];
-                res = child(v, c, d);
+                res = child_at_depth(v, c, d);
                 i--;
             }
 
@@ -788,12 +810,12 @@ class cst_fully
                 size_type d = depth(v);
                 size_type char_pos = get_char_pos(v.first, d, m_csa);
                 char_type c = m_csa.F[char_pos];
-                node_type v_i = child(v, c, d);
+                node_type v_i = child_at_depth(v, c, d);
                 while (v_i.second < v.second) {
                     ++res;
                     char_pos = get_char_pos(v_i.second + 1, d, m_csa);
                     c = m_csa.F[char_pos];
-                    v_i = child(v, c, d);
+                    v_i = child_at_depth(v, c, d);
                 }
                 return res;
             }
@@ -824,7 +846,7 @@ class cst_fully
             size_type d = depth(p);
             size_type char_pos = get_char_pos(v.second + 1, d, m_csa);
             char_type c = m_csa.F[char_pos];
-            return child(p, c, d);
+            return child_at_depth(p, c, d);
         }
 
         char_type edge(node_type v, size_type d) const
-- 
2.43.0


From 0a16f6ea14d58c04769ef65427dd554784d017a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:39 +0000
Subject: [PATCH 39/62] fix: buffered Super-Cartesian tree construction with
 minimum=false violated the stack order

---
 include/sdsl/suffix_tree_helper.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/sdsl/suffix_tree_helper.hpp b/include/sdsl/suffix_tree_helper.hpp
index ab23e2b..d5b5756 100644
--- a/include/sdsl/suffix_tree_helper.hpp
+++ b/include/sdsl/suffix_tree_helper.hpp
@@ -204,8 +204,8 @@ construct_supercartesian_tree_bp_succinct(int_vector_buffer<t_width>& lcp_buf, c
         } else {
             // no "lazy stack" trick use here
             for (size_type i=0, x; i < lcp_buf.size(); ++i) {
-                x = lcp_buf[i];
-                while (!vec_stack.empty() and x > vec_stack.top()) {
+                x = lcp_buf.size()-1-lcp_buf[i]; // complement, as the values on the stack have to be sorted
+                while (!vec_stack.empty() and x < vec_stack.top()) {
                     vec_stack.pop(); ++k; // writing a closing parenthesis, bp is already initialized to zeros
                 }
                 vec_stack.push(x);
@@ -263,8 +263,8 @@ construct_supercartesian_tree_bp_succinct_and_first_child(int_vector_buffer<t_wi
     } else {
         // no "lazy stack" trick used here
         for (size_type i=0, x; i < n; ++i) {
-            x = lcp_buf[i];
-            while (!vec_stack.empty() and x > vec_stack.top()) {
+            x = n-1-lcp_buf[i]; // complement, as the values on the stack have to be sorted
+            while (!vec_stack.empty() and x < vec_stack.top()) {
                 if (vec_stack.pop()) {
                     bp_fc[k_fc] = 1;
                     ++fc_cnt;
-- 
2.43.0


From 03c78a825b2c161e855afc1d0c0d0bd207a46211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:38 +0000
Subject: [PATCH 40/62] fix: uint256_t shifts by 0 and 256 shifted the 128 bit
 halves by their width

---
 include/sdsl/uint256_t.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/sdsl/uint256_t.hpp b/include/sdsl/uint256_t.hpp
index e1fd69b..410d116 100644
--- a/include/sdsl/uint256_t.hpp
+++ b/include/sdsl/uint256_t.hpp
@@ -157,11 +157,11 @@ class uint256_t
             if (x < 128) {
                 uint128_t high = m_high << x;
                 uint128_t low  = (((uint128_t)m_mid<<64) | m_lo);
-                high |= (low >> (128-x));
+                high |= ((low >> (127-x))>>1);
                 low = low << x;
                 return uint256_t(low, low>>64, high);
             } else { // x >= 128
-                uint128_t high = (((uint128_t)m_mid<<64) | m_lo) << (x-128);
+                uint128_t high = 256==x ? (uint128_t)0ULL : (((uint128_t)m_mid<<64) | m_lo) << (x-128);
                 return uint256_t(0, 0, high);
             }
         }
@@ -172,7 +172,7 @@ class uint256_t
                 low |= ((m_high << (127-x))<<1);
                 return uint256_t(low, low>>64, m_high>>x);
             } else { // x >= 128
-                uint128_t low = (m_high >> (x-128)); 
+                uint128_t low = 256==x ? (uint128_t)0ULL : (m_high >> (x-128));
                 return uint256_t(low, low>>64, 0);
             }
         }
-- 
2.43.0


From 6df4acbd5338fbb9eb3b697123ec1c9ef28c68d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:48:18 +0000
Subject: [PATCH 41/62] fix: int_vector_buffer iterator minus distance returned
 a reference to a local object

---
 include/sdsl/int_vector_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/int_vector_buffer.hpp b/include/sdsl/int_vector_buffer.hpp
index 367133f..e17546e 100644
--- a/include/sdsl/int_vector_buffer.hpp
+++ b/include/sdsl/int_vector_buffer.hpp
@@ -553,7 +553,7 @@ class int_vector_buffer
                     return it += i;
                 }
 
-                iterator& operator-(difference_type i) const
+                iterator operator-(difference_type i) const
                 {
                     iterator it = *this;
                     return it -= i;
-- 
2.43.0


From b9204ad480eeeec6874ab5568bf0ff0d1621b85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:31 +0000
Subject: [PATCH 42/62] fix: osfstream::tellp was declared but not defined

---
 lib/sfstream.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/lib/sfstream.cpp b/lib/sfstream.cpp
index 848e5d8..277def7 100644
--- a/lib/sfstream.cpp
+++ b/lib/sfstream.cpp
@@ -135,6 +135,20 @@ osfstream::seekp(off_type off, std::ios_base::seekdir way)
 
 
 
+std::streampos
+osfstream::tellp()
+{
+    pos_type p = pos_type(off_type(-1));
+    if (!this->fail()) {
+        if (is_ram_file(m_file)) {
+            p = ((ram_filebuf*)m_streambuf)->pubseekoff(0, std::ios_base::cur, std::ios_base::out);
+        } else {
+            p = ((std::filebuf*)m_streambuf)->pubseekoff(0, std::ios_base::cur, std::ios_base::out);
+        }
+    }
+    return p;
+}
+
 //  IMPLEMENTATION OF ISFSTREAM
 
 isfstream::isfstream() : std::istream(nullptr)
-- 
2.43.0


From 508525849a6d68e5e0eee3ae36904c1526aaa7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:31 +0000
Subject: [PATCH 43/62] fix: isfstream::seekg did not report failed seeks and
 did not clear eofbit

---
 lib/sfstream.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/sfstream.cpp b/lib/sfstream.cpp
index 277def7..48b4317 100644
--- a/lib/sfstream.cpp
+++ b/lib/sfstream.cpp
@@ -219,6 +219,7 @@ isfstream&
 isfstream::seekg(pos_type pos)
 {
     ios_base::iostate err = std::ios_base::iostate(std::ios_base::goodbit);
+    this->clear(this->rdstate() & ~std::ios_base::eofbit); // as std::istream::seekg
     try {
         if (!this->fail()) {
             pos_type p = 0;
@@ -230,6 +231,7 @@ isfstream::seekg(pos_type pos)
             }
             if (p == pos_type(off_type(-1))) {
                 err |= ios_base::failbit;
+                this->setstate(err);
             }
         }
     } catch (...) {
@@ -245,6 +247,7 @@ isfstream&
 isfstream::seekg(off_type off, std::ios_base::seekdir way)
 {
     ios_base::iostate err = std::ios_base::iostate(ios_base::goodbit);
+    this->clear(this->rdstate() & ~std::ios_base::eofbit); // as std::istream::seekg
     try {
         if (!this->fail()) {
             pos_type p = 0;
@@ -256,6 +259,7 @@ isfstream::seekg(off_type off, std::ios_base::seekdir way)
             }
             if (p == pos_type(off_type(-1))) {
                 err |= ios_base::failbit;
+                this->setstate(err);
             }
         }
     } catch (...) {
@@ -281,6 +285,7 @@ isfstream::tellg()
             }
             if (p == pos_type(off_type(-1))) {
                 err |= ios_base::failbit;
+                this->setstate(err);
             }
         }
     } catch (...) {
-- 
2.43.0


From a695ca5fc559d5df84f3bf0d890f0ffde4fcd46d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:31 +0000
Subject: [PATCH 44/62] fix: relative seeks in RAM files ignored the put
 position, negative ones resized the file

---
 include/sdsl/ram_filebuf.hpp |  4 ++++
 lib/ram_filebuf.cpp          | 37 ++++++++++++++++++++++--------------
 2 files changed, 27 insertions(+), 14 deletions(-)

diff --git a/include/sdsl/ram_filebuf.hpp b/include/sdsl/ram_filebuf.hpp
index 04ccfe1..c30596e 100644
--- a/include/sdsl/ram_filebuf.hpp
+++ b/include/sdsl/ram_filebuf.hpp
@@ -32,6 +32,10 @@ class ram_filebuf : public std::streambuf
         seekpos(pos_type sp,
                 std::ios_base::openmode which = std::ios_base::in | std::ios_base::out) override;
 
+        pos_type
+        seekoff(off_type off, std::ios_base::seekdir way,
+                std::ios_base::openmode which = std::ios_base::in | std::ios_base::out) override;
+
         pos_type
         pubseekoff(off_type off, std::ios_base::seekdir way,
                    std::ios_base::openmode which = std::ios_base::in | std::ios_base::out);
diff --git a/lib/ram_filebuf.cpp b/lib/ram_filebuf.cpp
index 6c7a7e5..2bece05 100644
--- a/lib/ram_filebuf.cpp
+++ b/lib/ram_filebuf.cpp
@@ -83,7 +83,10 @@ ram_filebuf::seekpos(pos_type sp, std::ios_base::openmode mode)
     if (!is_open()) {
         return pos_type(off_type(-1));
     }
-    if (sp >= (pos_type)0 and sp <= (pos_type)m_ram_file->size()) {
+    if (sp < (pos_type)0) {
+        return pos_type(off_type(-1));
+    }
+    if (sp <= (pos_type)m_ram_file->size()) {
         setg(m_ram_file->data(), m_ram_file->data()+sp, m_ram_file->data()+m_ram_file->size());
         setp(m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
         pbump64(sp);
@@ -102,23 +105,29 @@ ram_filebuf::seekpos(pos_type sp, std::ios_base::openmode mode)
 }
 
 ram_filebuf::pos_type
-ram_filebuf::pubseekoff(off_type off, std::ios_base::seekdir way,
-                        std::ios_base::openmode which)
+ram_filebuf::seekoff(off_type off, std::ios_base::seekdir way,
+                     std::ios_base::openmode which)
 {
-    if (std::ios_base::beg == way) {
-        if (seekpos(off, which) == pos_type(-1)) {
-            return pos_type(-1);
-        }
-    } else if (std::ios_base::cur == way) {
-        if (seekpos(gptr()-eback()+off, which) == pos_type(-1)) {
-            return pos_type(-1);
+    if (!is_open()) {
+        return pos_type(off_type(-1));
+    }
+    if (std::ios_base::cur == way) {
+        if ((which & std::ios_base::out) and !(which & std::ios_base::in)) {
+            off += pptr()-pbase();
+        } else {
+            off += gptr()-eback();
         }
     } else if (std::ios_base::end == way) {
-        if (seekpos(egptr()-eback()+off, which) == pos_type(-1)) {
-            return pos_type(-1);
-        }
+        off += m_ram_file->size();
     }
-    return gptr()-eback();
+    return seekpos(off, which);
+}
+
+ram_filebuf::pos_type
+ram_filebuf::pubseekoff(off_type off, std::ios_base::seekdir way,
+                        std::ios_base::openmode which)
+{
+    return seekoff(off, way, which);
 }
 
 
-- 
2.43.0


From f0f9bfd4a427c45bcd14efdf774db468fbad9bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:31 +0000
Subject: [PATCH 45/62] fix: ram_filebuf::overflow reported success for a
 closed file and kept a dangling get pointer

---
 lib/ram_filebuf.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/ram_filebuf.cpp b/lib/ram_filebuf.cpp
index 2bece05..fd813db 100644
--- a/lib/ram_filebuf.cpp
+++ b/lib/ram_filebuf.cpp
@@ -150,14 +150,18 @@ ram_filebuf::sync()
 ram_filebuf::int_type
 ram_filebuf::overflow(int_type c)
 {
-    if (m_ram_file) {
+    if (!m_ram_file) {
+        return traits_type::eof();
+    }
+    if (!traits_type::eq_int_type(c, traits_type::eof())) {
+        std::ptrdiff_t get_pos = gptr()-eback();
         m_ram_file->push_back(c);
         setp(m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
         std::ptrdiff_t add = epptr()-pbase();
         pbump64(add);
-        setg(m_ram_file->data(), gptr(), m_ram_file->data()+m_ram_file->size());
+        setg(m_ram_file->data(), m_ram_file->data()+get_pos, m_ram_file->data()+m_ram_file->size());
     }
-    return traits_type::to_int_type(c);
+    return traits_type::not_eof(c);
 }
 
 void ram_filebuf::pbump64(std::ptrdiff_t x)
-- 
2.43.0


From db14094e3a9f012335732ce3304c0a7ea876bc4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:31 +0000
Subject: [PATCH 46/62] fix: RAM files opened with app or ate were overwritten
 from the begin

---
 lib/ram_filebuf.cpp | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/lib/ram_filebuf.cpp b/lib/ram_filebuf.cpp
index fd813db..93fbd64 100644
--- a/lib/ram_filebuf.cpp
+++ b/lib/ram_filebuf.cpp
@@ -48,13 +48,10 @@ ram_filebuf::open(const std::string name, std::ios_base::openmode mode)
         m_ram_file->clear();
     }
     if (m_ram_file) {
-        if (mode & std::ios_base::ate) {
-            // TODO: move put pointer to the end of the file
-        } else {
-
-        }
-        setg(m_ram_file->data(), m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
+        std::ptrdiff_t pos = (mode & (std::ios_base::ate|std::ios_base::app)) ? m_ram_file->size() : 0;
+        setg(m_ram_file->data(), m_ram_file->data()+pos, m_ram_file->data()+m_ram_file->size());
         setp(m_ram_file->data(), m_ram_file->data()+m_ram_file->size());
+        pbump64(pos);
     }
 // ATTENTION: if m_ram_file->size() == 0, then data might be nullptr !!!
     return m_ram_file ? this : nullptr;
-- 
2.43.0


From b14f83b82e7d0170bcf93757041a90e3c289e547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:31 +0000
Subject: [PATCH 47/62] fix: ram_fs::rename removed a file renamed to itself
 and created one for a missing file

---
 lib/ram_fs.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/ram_fs.cpp b/lib/ram_fs.cpp
index 532f808..694e989 100644
--- a/lib/ram_fs.cpp
+++ b/lib/ram_fs.cpp
@@ -80,6 +80,12 @@ int
 ram_fs::rename(const std::string old_filename, const std::string new_filename)
 {
     std::lock_guard<std::recursive_mutex> lock(m_rlock);
+    if (!exists(old_filename)) {
+        return -1;
+    }
+    if (old_filename == new_filename) {
+        return 0;
+    }
     m_map[new_filename] = std::move(m_map[old_filename]);
     remove(old_filename);
     return 0;
-- 
2.43.0


From ff81f29f70919d0e6c88845a840d1fc2ede2ae21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:31 +0000
Subject: [PATCH 48/62] fix: store_to_file for strings reported success if the
 file could not be opened

---
 lib/io.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/io.cpp b/lib/io.cpp
index 695f780..bdb0d87 100644
--- a/lib/io.cpp
+++ b/lib/io.cpp
@@ -13,8 +13,8 @@ bool store_to_file(const char* v, const std::string& file)
     if (!out) {
         if (util::verbose) {
             std::cerr<<"ERROR: store_to_file(const char *v, const std::string&)"<<std::endl;
-            return false;
         }
+        return false;
     }
     uint64_t n = strlen((const char*)v);
     out.write(v, n);
@@ -28,8 +28,8 @@ bool store_to_file(const std::string& v, const std::string& file)
     if (!out) {
         if (util::verbose) {
             std::cerr<<"ERROR: store_to_file(const std::string& v, const std::string&)"<<std::endl;
-            return false;
         }
+        return false;
     }
     out.write(v.data(),v.size());
     out.close();
@@ -44,8 +44,8 @@ bool store_to_checked_file(const char* v, const std::string& file)
     if (!out) {
         if (util::verbose) {
             std::cerr<<"ERROR: store_to_checked_file(const char *v, const std::string&)"<<std::endl;
-            return false;
         }
+        return false;
     }
     add_hash(v, out);
     out.close();
-- 
2.43.0


From c805b0e908280d4a0bc16591587bad1d2e56926c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:32 +0000
Subject: [PATCH 49/62] fix: load_vector_from_file used the undefined size of
 missing files

---
 include/sdsl/io.hpp | 3 +++
 lib/util.cpp        | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/sdsl/io.hpp b/include/sdsl/io.hpp
index 53a618e..ba087cc 100644
--- a/include/sdsl/io.hpp
+++ b/include/sdsl/io.hpp
@@ -198,6 +198,9 @@ bool load_vector_from_file(t_int_vec& v, const std::string& file, uint8_t num_by
     } else {
         off_t file_size = util::file_size(file);
         if (file_size == 0) {
+            if (!isfstream(file, std::ios::in | std::ios::binary)) {
+                return false;
+            }
             v.resize(0);
             return true;
         }
diff --git a/lib/util.cpp b/lib/util.cpp
index babdd23..a524dd4 100644
--- a/lib/util.cpp
+++ b/lib/util.cpp
@@ -171,7 +171,9 @@ size_t file_size(const std::string& file)
         return ram_fs::file_size(file);
     } else {
         struct stat fs;
-        stat(file.c_str(), &fs);
+        if (stat(file.c_str(), &fs) != 0) {
+            return 0;
+        }
         return fs.st_size;
     }
 }
-- 
2.43.0


From 3e8bcf5d3c5cbd1a9ac78123d7f63ffc3ae030be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:58:54 +0000
Subject: [PATCH 50/62] fix: store_to_cache with type hash registered the file
 under the key without type

---
 include/sdsl/io.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/io.hpp b/include/sdsl/io.hpp
index ba087cc..cae6ba7 100644
--- a/include/sdsl/io.hpp
+++ b/include/sdsl/io.hpp
@@ -618,14 +618,15 @@ bool load_from_cache(T& v, const std::string& key, const cache_config& config, b
 template<class T>
 bool store_to_cache(const T& v, const std::string& key, cache_config& config, bool add_type_hash=false)
 {
-    std::string file;
+    std::string file, file_key = key;
     if (add_type_hash) {
         file = cache_file_name<T>(key, config);
+        file_key += "_"+util::class_to_hash(T());
     } else {
         file = cache_file_name(key, config);
     }
     if (store_to_file(v, file)) {
-        config.file_map[std::string(key)] = file;
+        config.file_map[file_key] = file;
         return true;
     } else {
         std::cerr<<"WARNING: store_to_cache: could not store file `"<< file <<"`" << std::endl;
-- 
2.43.0


From 5e4d207c0ea4a80182366052c7208b212440e626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:41 +0000
Subject: [PATCH 51/62] fix: moved int_vector_mappers lost the mapping and
 never wrote size and width back

---
 include/sdsl/int_vector_mapper.hpp | 31 ++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/include/sdsl/int_vector_mapper.hpp b/include/sdsl/int_vector_mapper.hpp
index 296cfd6..8085cf4 100644
--- a/include/sdsl/int_vector_mapper.hpp
+++ b/include/sdsl/int_vector_mapper.hpp
@@ -36,6 +36,12 @@ class int_vector_mapper
         int_vector_mapper& operator=(const int_vector_mapper&) = delete;
     public:
         ~int_vector_mapper()
+        {
+            close_mapping();
+        }
+    private:
+        //! Write back size and width, unmap, truncate and close the file.
+        void close_mapping()
         {
             if (m_mapped_data) {
                 if (t_mode&std::ios_base::out) { // write was possible
@@ -95,8 +101,13 @@ class int_vector_mapper
             m_wrapper.m_data = nullptr;
             m_wrapper.m_size = 0;
         }
-        int_vector_mapper(int_vector_mapper&& ivm)
+        //! Take over the mapping of ivm.
+        void move_mapping(int_vector_mapper& ivm)
         {
+            m_mapped_data = ivm.m_mapped_data;
+            m_file_size_bytes = ivm.m_file_size_bytes;
+            m_data_offset = ivm.m_data_offset;
+            m_fd = ivm.m_fd;
             m_wrapper.m_data = ivm.m_wrapper.m_data;
             m_wrapper.m_size = ivm.m_wrapper.m_size;
             m_wrapper.width(ivm.m_wrapper.width());
@@ -107,17 +118,17 @@ class int_vector_mapper
             ivm.m_mapped_data = nullptr;
             ivm.m_fd = -1;
         }
+    public:
+        int_vector_mapper(int_vector_mapper&& ivm)
+        {
+            move_mapping(ivm);
+        }
         int_vector_mapper& operator=(int_vector_mapper&& ivm)
         {
-            m_wrapper.m_data = ivm.m_wrapper.m_data;
-            m_wrapper.m_size = ivm.m_wrapper.m_size;
-            m_wrapper.width(ivm.m_wrapper.width());
-            m_file_name = ivm.m_file_name;
-            m_delete_on_close = ivm.m_delete_on_close;
-            ivm.m_wrapper.m_data = nullptr;
-            ivm.m_wrapper.m_size = 0;
-            ivm.m_mapped_data = nullptr;
-            ivm.m_fd = -1;
+            if (this != &ivm) {
+                close_mapping();
+                move_mapping(ivm);
+            }
             return (*this);
         }
         int_vector_mapper(const std::string& key,const cache_config& config)
-- 
2.43.0


From 0f5fce88f209ea079f0f523e3705f092bdd2a397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:41 +0000
Subject: [PATCH 52/62] fix: int_vector_mapper compared equal with longer
 containers and read past shorter ones

---
 include/sdsl/int_vector_mapper.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/int_vector_mapper.hpp b/include/sdsl/int_vector_mapper.hpp
index 8085cf4..051adb0 100644
--- a/include/sdsl/int_vector_mapper.hpp
+++ b/include/sdsl/int_vector_mapper.hpp
@@ -321,7 +321,7 @@ class int_vector_mapper
         template<class container>
         bool operator==(const container& v) const
         {
-            return std::equal(begin(), end(), v.begin());
+            return size() == (size_type)v.size() and std::equal(begin(), end(), v.begin());
         }
         bool operator==(const int_vector<t_width>& v) const
         {
-- 
2.43.0


From 9a56832c39bdae6b558bc6aff21b6b5738530fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:37 +0000
Subject: [PATCH 53/62] fix: int_vector_mapper padded plain files to a multiple
 of eight bytes

Opening a plain file for writing enlarged it, the vector grew when the file
was opened the next time.
---
 include/sdsl/int_vector_mapper.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/int_vector_mapper.hpp b/include/sdsl/int_vector_mapper.hpp
index 051adb0..d95aab6 100644
--- a/include/sdsl/int_vector_mapper.hpp
+++ b/include/sdsl/int_vector_mapper.hpp
@@ -40,6 +40,14 @@ class int_vector_mapper
             close_mapping();
         }
     private:
+        //! Number of bytes which bit_size bits occupy in the file.
+        size_type data_size(size_type bit_size) const
+        {
+            if (m_data_offset == 0) { // plain files are not padded to words
+                return (bit_size + 7) >> 3;
+            }
+            return ((bit_size + 63) >> 6) << 3;
+        }
         //! Write back size and width, unmap, truncate and close the file.
         void close_mapping()
         {
@@ -72,7 +80,7 @@ class int_vector_mapper
                 if (t_mode&std::ios_base::out) {
                     // do we have to truncate?
                     size_type current_bit_size = m_wrapper.m_size;
-                    size_type data_size_in_bytes = ((current_bit_size + 63) >> 6) << 3;
+                    size_type data_size_in_bytes = data_size(current_bit_size);
                     if (m_file_size_bytes != data_size_in_bytes + m_data_offset) {
                         int tret = memory_manager::truncate_file_mmap(m_fd, data_size_in_bytes + m_data_offset);
                         if (tret == -1) {
@@ -211,7 +219,7 @@ class int_vector_mapper
         void bit_resize(const size_type bit_size)
         {
             static_assert(t_mode & std::ios_base::out,"int_vector_mapper: must be opened in in+out mode for 'bit_resize'");
-            size_type new_size_in_bytes = ((bit_size + 63) >> 6) << 3;
+            size_type new_size_in_bytes = data_size(bit_size);
             if (m_file_size_bytes != new_size_in_bytes + m_data_offset) {
                 if (m_mapped_data) {
                     auto ret = memory_manager::mem_unmap(m_mapped_data,m_file_size_bytes);
-- 
2.43.0


From 4664846ada5a9af1066e7e626c389747d63849cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:01 +0000
Subject: [PATCH 54/62] fix: hugepage realloc copied more bytes than the old
 block holds

The new size was copied, which read behind the old block and, for blocks at the
end, behind the pool.
---
 lib/memory_management.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/memory_management.cpp b/lib/memory_management.cpp
index 6c8401b..4eacdc6 100644
--- a/lib/memory_management.cpp
+++ b/lib/memory_management.cpp
@@ -574,7 +574,7 @@ hugepage_allocator::mm_realloc(void* ptr, size_t size)
     if (need_malloc) {
         //std::cout << "need_alloc in REALLOC!" << std::endl;
         void* newptr = mm_alloc(size);
-        memcpy(newptr,ptr,size);
+        memcpy(newptr,ptr,blockdatasize);
         mm_free(ptr);
         ptr = newptr;
     }
-- 
2.43.0


From a747a461bc3fc8b726eba5f60e43dcf76e833c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:01 +0000
Subject: [PATCH 55/62] fix: hugepage allocator reused too small free blocks
 for sizes not divisible by eight

The keys of the free blocks have the free bit set, a block one byte too small
was considered large enough.
---
 lib/memory_management.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/memory_management.cpp b/lib/memory_management.cpp
index 4eacdc6..fb1c8f6 100644
--- a/lib/memory_management.cpp
+++ b/lib/memory_management.cpp
@@ -451,7 +451,7 @@ hugepage_allocator::mm_alloc(size_t size_in_bytes)
 {
     //std::cout << "ALLOC(" << size_in_bytes << ")" << std::endl;
     mm_block_t* bptr = nullptr;
-    if ((bptr=find_free_block(size_in_bytes + MM_BLOCK_OVERHEAD)) != nullptr) {
+    if ((bptr=find_free_block(ALIGN(size_in_bytes + MM_BLOCK_OVERHEAD))) != nullptr) {
         //std::cout << "found free block = " << (void*)bptr << std::endl;
         block_markused(bptr);
         /* split if we have a block too large for us? */
-- 
2.43.0


From 8ad9afe89a66846d2f0d48d19495e0628e4f7dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:54 +0000
Subject: [PATCH 56/62] fix: k2_tree and k2_treap copy constructors did not
 compile

The copy assignment took a non-const reference.
---
 include/sdsl/k2_treap.hpp | 2 +-
 include/sdsl/k2_tree.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/k2_treap.hpp b/include/sdsl/k2_treap.hpp
index 715f4ba..b78a5e6 100644
--- a/include/sdsl/k2_treap.hpp
+++ b/include/sdsl/k2_treap.hpp
@@ -131,7 +131,7 @@ class k2_treap
         }
 
         //! Assignment operator
-        k2_treap& operator=(k2_treap& tr)
+        k2_treap& operator=(const k2_treap& tr)
         {
             if (this != &tr) {
                 m_t = tr.m_t;
diff --git a/include/sdsl/k2_tree.hpp b/include/sdsl/k2_tree.hpp
index f8b8f6e..371990f 100644
--- a/include/sdsl/k2_tree.hpp
+++ b/include/sdsl/k2_tree.hpp
@@ -381,7 +381,7 @@ class k2_tree
         }
 
         //! Assignment operator
-        k2_tree& operator=(k2_tree& tr)
+        k2_tree& operator=(const k2_tree& tr)
         {
             if (this != &tr) {
                 k_t = tr.k_t;
-- 
2.43.0


From 6740f6f13ed26251c4c6f7418c40699e909bab4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:51 +0000
Subject: [PATCH 57/62] fix: move constructors of succinct_byte_alphabet and
 int_alphabet did not compile

The reference members were not initialised.
---
 include/sdsl/csa_alphabet_strategy.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/csa_alphabet_strategy.hpp b/include/sdsl/csa_alphabet_strategy.hpp
index 7b49954..30b595e 100644
--- a/include/sdsl/csa_alphabet_strategy.hpp
+++ b/include/sdsl/csa_alphabet_strategy.hpp
@@ -315,7 +315,7 @@ class succinct_byte_alphabet
         }
 
         //! Move constructor
-        succinct_byte_alphabet(succinct_byte_alphabet&& strat)
+        succinct_byte_alphabet(succinct_byte_alphabet&& strat): char2comp(this), comp2char(this), C(m_C), sigma(m_sigma)
         {
             *this = std::move(strat);
         }
@@ -541,7 +541,7 @@ class int_alphabet
         }
 
         //! Copy constructor
-        int_alphabet(int_alphabet&& strat)
+        int_alphabet(int_alphabet&& strat): char2comp(this), comp2char(this), C(m_C), sigma(m_sigma)
         {
             *this = std::move(strat);
         }
-- 
2.43.0


From 9f2dc8bb6556583b7a03538d7476a9c82dd1ec5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:23:34 +0000
Subject: [PATCH 58/62] fix: copies of wt_gmr used the permutation of the
 original

Queries on a copy read the freed vector once the original was gone.
---
 include/sdsl/wt_gmr.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/sdsl/wt_gmr.hpp b/include/sdsl/wt_gmr.hpp
index d4aabcc..a4d96f1 100644
--- a/include/sdsl/wt_gmr.hpp
+++ b/include/sdsl/wt_gmr.hpp
@@ -773,6 +773,7 @@ class wt_gmr
             m_bv_chunks         = wt.m_bv_chunks;
             m_perm              = wt.m_perm;
             m_ips               = wt.m_ips;
+            m_ips.set_vector(&m_perm);
             m_bv_blocks_select1 = wt.m_bv_blocks_select1;
             m_bv_blocks_select1.set_vector(&m_bv_blocks);
             m_bv_chunks_select1 = wt.m_bv_chunks_select1;
-- 
2.43.0


From 1d003686f0966eafb8748af5b9ee559e4644ccaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:57 +0000
Subject: [PATCH 59/62] fix: dac_vectors had uninitialised members, copies of
 non-const dac_vector_dps were rebuilt as containers

---
 include/sdsl/dac_vector.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/dac_vector.hpp b/include/sdsl/dac_vector.hpp
index 1079a8c..3f2fdcd 100644
--- a/include/sdsl/dac_vector.hpp
+++ b/include/sdsl/dac_vector.hpp
@@ -61,7 +61,7 @@ class dac_vector_dp
         typedef int_vector<>::size_type                  size_type;
         typedef ptrdiff_t                                difference_type;
     private:
-        size_t m_size;
+        size_t m_size = 0;
         bit_vector m_overflow_tmp;
         overflow_bv m_overflow;
         overflow_bv_rank1 m_overflow_rank;
@@ -139,6 +139,10 @@ class dac_vector_dp
             m_overflow_rank.set_vector(&m_overflow);
         }
 
+        // otherwise the Container&& constructor is used for non-const objects
+        dac_vector_dp(dac_vector_dp& other)
+            : dac_vector_dp(static_cast<const dac_vector_dp&>(other)) {}
+
         void swap(dac_vector_dp& other) {
             std::swap(m_size, other.m_size);
             m_overflow.swap(other.m_overflow);
@@ -354,7 +358,7 @@ class dac_vector
         bit_vector        m_overflow;       // mark non-end bytes
         rank_support_type m_overflow_rank;  // rank for m_overflow
         int_vector<64>    m_level_pointer_and_rank = int_vector<64>(4,0);
-        uint8_t           m_max_level;      // maximum level < (log n)/b+1
+        uint8_t           m_max_level = 0;  // maximum level < (log n)/b+1
 
         void copy(const dac_vector& v)
         {
-- 
2.43.0


From b2234067b6e1799235928e4e390bee0b0d415521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:46 +0000
Subject: [PATCH 60/62] fix: gaps of an int_vector_buffer showed the unused
 bits of the file

---
 include/sdsl/int_vector_buffer.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/sdsl/int_vector_buffer.hpp b/include/sdsl/int_vector_buffer.hpp
index e17546e..167e46f 100644
--- a/include/sdsl/int_vector_buffer.hpp
+++ b/include/sdsl/int_vector_buffer.hpp
@@ -108,6 +108,10 @@ class int_vector_buffer
         void write(const uint64_t idx, const uint64_t value)
         {
             assert(is_open());
+            // the file may contain any bits between the last element and the end of its 64-bit word
+            while (m_size < idx and 0 != (m_size*width())%64) {
+                write(m_size, 0);
+            }
             // If idx is not in current block, write current block and load needed block
             if (idx < m_begin or m_begin+m_buffersize <= idx) {
                 write_block();
-- 
2.43.0


From 8f75f93ee8789f01b251bb66b3d3711babedcdd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:07 +0000
Subject: [PATCH 61/62] fix: util::id() hands out the same number to two
 threads

The counter behind util::id() was a plain integer. Threads that construct
independent objects at the same time could get the same id and so use the
same temporary file.
---
 include/sdsl/util.hpp | 2 +-
 lib/util.cpp          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/sdsl/util.hpp b/include/sdsl/util.hpp
index b74d9e0..4376b31 100644
--- a/include/sdsl/util.hpp
+++ b/include/sdsl/util.hpp
@@ -237,7 +237,7 @@ char* str_from_errno();
 class _id_helper
 {
     private:
-        static uint64_t id;
+        static std::atomic<uint64_t> id;
     public:
         static uint64_t getId()
         {
diff --git a/lib/util.cpp b/lib/util.cpp
index a524dd4..5df9976 100644
--- a/lib/util.cpp
+++ b/lib/util.cpp
@@ -35,7 +35,7 @@ namespace sdsl
 namespace util
 {
 
-uint64_t _id_helper::id = 0;
+std::atomic<uint64_t> _id_helper::id(0);
 
 std::string basename(std::string file)
 {
-- 
2.43.0


From f7d1d9ee0eea9d37e4be5be526856ed90e50f7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:42 +0000
Subject: [PATCH 62/62] fix: csXprintf printed more than size() characters of a
 suffix for %wT with w > size()

---
 include/sdsl/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/sdsl/io.hpp b/include/sdsl/io.hpp
index cae6ba7..2bae735 100644
--- a/include/sdsl/io.hpp
+++ b/include/sdsl/io.hpp
@@ -513,7 +513,7 @@ csXprintf(std::ostream& out, const std::string& format,
                         res[i] += util::to_string(csa.bwt[i],w);
                     }
                     break;
-                case 'T': for (uint64_t k=0; (w>0 and k < w) or(0==w and k < csa.size()); ++k) {
+                case 'T': for (uint64_t k=0; k < csa.size() and (0==w or k < w); ++k) {
                         if (0 == csa.text[(csa[i]+k)%csa.size()]) {
                             res[i] += util::to_string(sentinel, W);
                         } else {
-- 
2.43.0

