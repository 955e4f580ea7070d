From f648d66501bfd9ca0db49f8dd6e53c203d10dfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:24 +0000
Subject: [PATCH 01/11] fix: RationalConstant with a negative denominator lost
 its sign

fix_den flips the sign of a negative denominator, but fix_num did not flip
the numerator, so RationalConstant(1,-2) (and 1/RationalConstant(-2)) was 1/2.
---
 src/core/ekat_rational_constant.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ekat_rational_constant.hpp b/src/core/ekat_rational_constant.hpp
index 345ac95..d8134bd 100644
--- a/src/core/ekat_rational_constant.hpp
+++ b/src/core/ekat_rational_constant.hpp
@@ -155,7 +155,7 @@ private:
   static constexpr iType fix_num(const iType n, const iType d) {
     if (d==0)
       throw std::invalid_argument("[RationalConstant] Cannot divide by 0");
-    return n==0 ? n : n / gcd(abs(n),abs(d));
+    return n==0 ? n : (d<0 ? -n : n) / gcd(abs(n),abs(d));
   }
 
   static constexpr iType fix_den(const iType n, const iType d) {
-- 
2.43.0


From eaebcdd037cd67ef6415f3bdef71deb36158835b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:24 +0000
Subject: [PATCH 02/11] fix: pow(RationalConstant,p) threw on 0^p for p>0, and
 squared once too often

The recursion stopped at p==0 only, so a zero base reached the 0^0 check for
every positive power, and the last (unused) squaring could overflow.
---
 src/core/ekat_rational_constant.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/core/ekat_rational_constant.hpp b/src/core/ekat_rational_constant.hpp
index d8134bd..f631d9f 100644
--- a/src/core/ekat_rational_constant.hpp
+++ b/src/core/ekat_rational_constant.hpp
@@ -213,6 +213,9 @@ pow (const RationalConstant& x, const IntType p) {
       throw std::invalid_argument("[RationalConstant] Cannot compute 0^0.");
 
     return RationalConstant::one();
+  } else if (p==1) {
+    // Do not recurse: x*x is not needed (it may overflow), and 0^1 must not get to 0^0
+    return x;
   } else {
     return (p&1)!=0 ? x*pow(x*x,p>>1) : pow(x*x,p>>1);
   }
-- 
2.43.0


From 41da80bdb34ab0c6b20048063bf31180cd9b32ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:11 +0000
Subject: [PATCH 03/11] fix: Pack updates from a scalar that is one of the
 pack's own slots

p /= p[0] and p.set(m,p[0],p[1]) take the scalar by reference, so once the
slot it refers to has been overwritten the remaining slots used the new value.
---
 src/pack/ekat_pack.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pack/ekat_pack.hpp b/src/pack/ekat_pack.hpp
index 0217263..f6caf7b 100644
--- a/src/pack/ekat_pack.hpp
+++ b/src/pack/ekat_pack.hpp
@@ -208,7 +208,8 @@ bool operator == (const Mask<n>& m1, const Mask<n>& m2) {
     Pack&                                                   \
   >                                                         \
   operator op (const S& a) {                                \
-    vector_simd for (int i = 0; i < n; ++i) d[i] op a;      \
+    const S s(a); /* a may be one of the slots of *this */  \
+    vector_simd for (int i = 0; i < n; ++i) d[i] op s;      \
     return *this;                                           \
   }
 #define ekat_pack_gen_assign_op_all(op)       \
@@ -319,7 +320,9 @@ struct Pack {
   }
 
   KOKKOS_FORCEINLINE_FUNCTION
-  Pack& set (const Mask<n>& mask, const scalar& v_true, const scalar& v_false) {
+  Pack& set (const Mask<n>& mask, const scalar& v_true_, const scalar& v_false_) {
+    // The inputs may be slots of *this
+    const scalar v_true(v_true_), v_false(v_false_);
     vector_simd
     for (int i = 0; i < n; ++i) {
       if (mask[i])
-- 
2.43.0


From a61eced5ceeb514df50cae8e8b2fe4e627587081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:59 +0000
Subject: [PATCH 04/11] fix: index_and_shift left lanes of 'index' unset in
 debug builds

When i0+Shift is out of bounds the debug-only check skipped the assignment
of index[i] = a(i0) too, although i0 itself is in bounds.
---
 src/pack/ekat_pack_kokkos.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pack/ekat_pack_kokkos.hpp b/src/pack/ekat_pack_kokkos.hpp
index dc57138..d6f2bca 100644
--- a/src/pack/ekat_pack_kokkos.hpp
+++ b/src/pack/ekat_pack_kokkos.hpp
@@ -88,11 +88,11 @@ index_and_shift (const Array1& a, const IdxPack& i0, Pack<typename Array1::non_c
 #endif
   vector_simd for (int i = 0; i < IdxPack::n; ++i) {
     const auto i0i = i0[i];
+    index[i]       = a(i0i);
 #ifndef NDEBUG
     // We don't want to trigger kokkos OOB errors if they are on
     if ((i0i+Shift) < 0 || (i0i+Shift)>=static_cast<int>(a.size())) continue;
 #endif
-    index[i]       = a(i0i);
     index_shift[i] = a(i0i + Shift);
   }
 }
-- 
2.43.0


From 489dd8bb234344638f4909d5c24bd8c925ee78e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:27 +0000
Subject: [PATCH 05/11] fix: taking contiguous workspace blocks could move the
 free list onto blocks in use

---
 src/kokkos/ekat_workspace_impl.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 0fac550..43f2e1e 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -321,7 +321,8 @@ void WorkspaceManager<T, D>::Workspace::take_many_contiguous_unsafe(
   // w/in the team.
   m_team.team_barrier();
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
-    m_next_slot += N;
+    // The blocks after the taken ones may be in use: follow the link
+    m_next_slot = m_parent.get_next<S>(*ptrs[N-1]);
 #ifndef NDEBUG
     for (int n = 0; n < static_cast<int>(N); ++n) {
       change_indv_meta<S>(*ptrs[n], names[n]);
@@ -356,7 +357,9 @@ WorkspaceManager<T, D>::Workspace::take_macro_block(
   m_team.team_barrier();
 
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
-    m_next_slot += n_sub_blocks;
+    // The blocks after the taken ones may be in use: follow the link
+    const auto last = m_parent.get_space_in_slot<T>(m_ws_idx, m_next_slot + n_sub_blocks - 1);
+    m_next_slot = m_parent.template get_next<T>(last);
 #ifndef NDEBUG
    change_indv_meta<S>(space, name);
 #endif
-- 
2.43.0


From 87a35c8e1771da3b7499ef665b3977f77b41f892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:27 +0000
Subject: [PATCH 06/11] fix: releasing contiguous workspace blocks lost the
 rest of the free list

---
 src/kokkos/ekat_workspace_impl.hpp | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 43f2e1e..1920120 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -629,6 +629,8 @@ void WorkspaceManager<T, D>::Workspace::release_many_contiguous(
 #endif
 
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
+    // The current list of free blocks follows the last of the released ones
+    m_parent.set_next_and_get_index<S>(*ptrs[N-1], m_next_slot);
     m_next_slot = m_parent.get_index<S>(*ptrs[0]);
 #ifndef NDEBUG
     for (int n = 0; n < static_cast<int>(N); ++n) {
@@ -651,19 +653,25 @@ void WorkspaceManager<T, D>::Workspace::release_macro_block(
   change_num_used(-n_sub_blocks);
 #endif
 
-  Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
-    m_next_slot = m_parent.get_index<S>(space);
-
-#ifndef NDEBUG
-    change_indv_meta<S>(space, "", true);
-#endif
-  });
+  const int slot = m_parent.get_index<S>(space);
 
   // Reset metadata
   m_team.team_barrier();
   Kokkos::parallel_for(
     Kokkos::TeamVectorRange(m_team, n_sub_blocks), [&] (int i) {
-      m_parent.init_slot_metadata(m_ws_idx, i+m_next_slot);
+      m_parent.init_slot_metadata(m_ws_idx, i+slot);
+  });
+  m_team.team_barrier();
+
+  Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
+    // The current list of free blocks follows the last of the released ones
+    const auto last = m_parent.get_space_in_slot<T>(m_ws_idx, slot + n_sub_blocks - 1);
+    m_parent.set_next_and_get_index<T>(last, m_next_slot);
+    m_next_slot = slot;
+
+#ifndef NDEBUG
+    change_indv_meta<S>(space, "", true);
+#endif
   });
 
   // We need a barrier here so that a subsequent call to take or release
-- 
2.43.0


From a7eb06d7262fb531af5d2b025d943366927dc73b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:27 +0000
Subject: [PATCH 07/11] fix: take_many_and_reset left stale links in the taken
 blocks

---
 src/kokkos/ekat_workspace_impl.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 1920120..7ea80ae 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -446,10 +446,11 @@ void WorkspaceManager<T, D>::Workspace::take_many_and_reset(
     *ptrs[n] = space;
   }
 
-  // We only need to reset the metadata for spaces that are being left free
+  // Reset the metadata of the spaces being taken as well: their links may be
+  // out of order, and are needed when they are released together
   Kokkos::parallel_for(
-    Kokkos::TeamVectorRange(m_team, m_parent.m_max_used - N), [&] (int i) {
-      m_parent.init_slot_metadata(m_ws_idx, i+N);
+    Kokkos::TeamVectorRange(m_team, m_parent.m_max_used), [&] (int i) {
+      m_parent.init_slot_metadata(m_ws_idx, i);
     });
 
   Kokkos::single(Kokkos::PerTeam(m_team), [&] () {
-- 
2.43.0


From 4de4e249eebc8eeb146f2953ed6feffb2516aa52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:44 +0000
Subject: [PATCH 08/11] fix: reset_internals did not reset the head of the free
 blocks in release builds

---
 src/kokkos/ekat_workspace_impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 7ea80ae..88f0b52 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -161,8 +161,8 @@ void WorkspaceManager<T, D>::reset_internals()
   Kokkos::deep_copy(m_active, false);
   Kokkos::deep_copy(m_counts, 0);
   Kokkos::deep_copy(m_high_water, 0);
-  Kokkos::deep_copy(m_next_slot, 0);
 #endif
+  Kokkos::deep_copy(m_next_slot, 0);
 
   auto policy = TeamPolicyFactory<ExeSpace>::get_default_team_policy(m_max_ws_idx, m_max_used);
   Kokkos::parallel_for(
-- 
2.43.0


From d3fbf0e0c2775605fcb0243d2d01c7b3a6b52438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:15 +0000
Subject: [PATCH 09/11] fix: reset_internals did not reset the number of used
 blocks in debug builds

---
 src/kokkos/ekat_workspace_impl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/kokkos/ekat_workspace_impl.hpp b/src/kokkos/ekat_workspace_impl.hpp
index 88f0b52..fd03e7b 100644
--- a/src/kokkos/ekat_workspace_impl.hpp
+++ b/src/kokkos/ekat_workspace_impl.hpp
@@ -158,6 +158,7 @@ template <typename T, typename D>
 void WorkspaceManager<T, D>::reset_internals()
 {
 #ifndef NDEBUG
+  Kokkos::deep_copy(m_num_used, 0);
   Kokkos::deep_copy(m_active, false);
   Kokkos::deep_copy(m_counts, 0);
   Kokkos::deep_copy(m_high_water, 0);
-- 
2.43.0


From fd58ab2c93e6ecbe13637dcaa2fdd0e037f8490e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:18 +0000
Subject: [PATCH 10/11] fix: packed reductions over a range within one pack
 summed entries outside of it

---
 src/algorithm/ekat_reduction_utils.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/algorithm/ekat_reduction_utils.hpp b/src/algorithm/ekat_reduction_utils.hpp
index 8ed6bc1..43e0ac3 100644
--- a/src/algorithm/ekat_reduction_utils.hpp
+++ b/src/algorithm/ekat_reduction_utils.hpp
@@ -113,14 +113,16 @@ auto view_reduction (const TeamMember& team,
     if (has_garbage_begin) {
       const auto temp_input = input(pack_loop_begin-1);
       const int first_indx = begin % N;
-      for (int j=first_indx; j<N; ++j) {
+      // The range may end in this same pack
+      const int past_indx  = (pack_loop_begin > pack_loop_end ? end % N : N);
+      for (int j=first_indx; j<past_indx; ++j) {
         result += temp_input[j];
       }
     }
 
     // Complete packs to be reduced. If Serialize, reduce each pack first, then
     // sum into result. Else, sum up packs, then reduce the packed sum into result.
-    if (pack_loop_begin != pack_loop_end) {
+    if (pack_loop_begin < pack_loop_end) {
       auto temp = impl::parallel_reduce<false,PackType>(
           team, pack_loop_begin, pack_loop_end,
           [&](const int k, PackType& local_packed_sum) {
@@ -131,8 +133,9 @@ auto view_reduction (const TeamMember& team,
     }
 
     // If last pack has garbage, we did not include it in the main reduction,
-    // so manually add the last pack (only the non-garbage part)
-    if (has_garbage_end) {
+    // so manually add the last pack (only the non-garbage part),
+    // unless it is the first pack, which was added above
+    if (has_garbage_end && pack_loop_begin <= pack_loop_end) {
       const PackType temp_input = input(pack_loop_end);
       const int last_indx = end % N;
       for (int j=0; j<last_indx; ++j) {
-- 
2.43.0


From aad57a2ccc6c7af29c3d6394b25e2726deb2e833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:39 +0000
Subject: [PATCH 11/11] fix: map_key_iterator gives access to const keys

The keys of a map are const, so that * and -> of the non-const iterator did
not compile.
---
 src/core/ekat_std_map_key_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/core/ekat_std_map_key_iterator.hpp b/src/core/ekat_std_map_key_iterator.hpp
index 979acbf..a16f248 100644
--- a/src/core/ekat_std_map_key_iterator.hpp
+++ b/src/core/ekat_std_map_key_iterator.hpp
@@ -32,8 +32,8 @@ public:
   using iterator_category = std::bidirectional_iterator_tag;
   using difference_type   = std::ptrdiff_t;
   using value_type        = Key;
-  using pointer           = value_type*;
-  using reference         = value_type&;
+  using pointer           = const value_type*;
+  using reference         = const value_type&;
 
   using map_iterator = typename std::map<Key,Value>::iterator;
 
-- 
2.43.0

