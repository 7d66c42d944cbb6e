From c553972088a4222d3e88a0a374a251033816d875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:15 +0000
Subject: [PATCH 01/67] fix: report an out-of-memory condition when a large
 host allocation fails

mmap() returns MAP_FAILED rather than a null pointer. jit_malloc() therefore
returned an invalid pointer instead of flushing the allocation cache, trying
again, and finally raising an exception.
---
 src/malloc.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/malloc.cpp b/src/malloc.cpp
index 2d7b380..2bb01df 100644
--- a/src/malloc.cpp
+++ b/src/malloc.cpp
@@ -80,7 +80,7 @@ static void *aligned_malloc(size_t size) {
             madvise(ptr, size, MADV_HUGEPAGE);
 #endif
 
-        return ptr;
+        return ptr != MAP_FAILED ? ptr : nullptr;
     }
 #else
     return _aligned_malloc(size, 64);
-- 
2.43.0


From 0dd8d01b4a0f3735244f4f0d5ada55865d2fa40c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:15 +0000
Subject: [PATCH 02/67] fix: copysign() of integer literals aborted the process

The generic path expands an integer copysign() into a selection, but constant
folding dispatched to an evaluation routine that is only implemented for
floating point operands and otherwise calls jit_fail().
---
 src/op.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/op.cpp b/src/op.cpp
index 5d59f0d..e835607 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -980,7 +980,7 @@ uint32_t jitc_var_copysign(uint32_t a0, uint32_t a1) {
 
     uint32_t result = 0;
     if (info.simplify) {
-        if (info.literal)
+        if (info.literal && jitc_is_float(info.type))
             result = jitc_eval_literal(
                 info, [](auto l0, auto l1) { return eval_copysign(l0, l1); }, v0, v1);
         else if (a0 == a1)
-- 
2.43.0


From 0cd5780b7a87a9c2f9e282179f0eba0d22fe0f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:15 +0000
Subject: [PATCH 03/67] fix: integer division and remainder could trap on the
 LLVM backend

x86 raises SIGFPE when the divisor is zero or the signed quotient overflows.
Because kernels process whole packets, this also affected the padding of arrays
whose size is not a multiple of the vector width and masked lanes: e.g.
dividing two evaluated UInt32 arrays with 3 nonzero entries killed the process.
Replace such divisors and return the values used by constant folding.
---
 src/llvm_eval.cpp | 52 +++++++++++++++++++++++++++++++++++++++--------
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/src/llvm_eval.cpp b/src/llvm_eval.cpp
index ba6e8aa..d661ddb 100644
--- a/src/llvm_eval.cpp
+++ b/src/llvm_eval.cpp
@@ -510,6 +510,47 @@ static void jitc_llvm_render_round2int(const Variable *v, const Variable *a0,
         v, jitc_is_uint(v) ? "fptoui" : "fptosi", a0, v->reg_index, v);
 }
 
+/// Render an integer division or remainder. The machine instructions trap when
+/// the divisor is zero or when the (signed) quotient overflows. This would also
+/// concern masked lanes and the padding of a partially filled packet, hence
+/// such divisors must be replaced. Results match eval_div() and eval_mod().
+static void jitc_llvm_render_int_div(const Variable *v, const Variable *a0,
+                                     const Variable *a1, bool mod) {
+    const char *one = jitc_llvm_ones_str[v->type],
+               *neg_one = jitc_llvm_ones_bit_str[v->type];
+
+    fmt("    $v_0 = icmp eq $V, $z\n", v, a1);
+
+    if (jitc_is_uint(v)) {
+        fmt("    $v_1 = select <$w x i1> $v_0, $T $s, $V\n"
+            "    $v_2 = $s $V, $v_1\n"
+            "    $v = select <$w x i1> $v_0, $T $s, $V_2\n",
+            v, v, v, one, a1,
+            v, mod ? "urem" : "udiv", a0, v,
+            v, v, v, neg_one, v);
+    } else {
+        fmt("    $v_1 = icmp eq $V, $s\n"
+            "    $v_2 = or <$w x i1> $v_0, $v_1\n"
+            "    $v_3 = select <$w x i1> $v_2, $T $s, $V\n"
+            "    $v_4 = $s $V, $v_3\n",
+            v, a1, neg_one,
+            v, v, v,
+            v, v, v, one, a1,
+            v, mod ? "srem" : "sdiv", a0, v);
+
+        if (mod)
+            fmt("    $v = select <$w x i1> $v_0, $T $s, $V_4\n",
+                v, v, v, neg_one, v);
+        else
+            fmt("    $v_5 = sub $T $z, $v\n"
+                "    $v_6 = select <$w x i1> $v_1, $V_5, $V_4\n"
+                "    $v = select <$w x i1> $v_0, $T $s, $V_6\n",
+                v, a0, a0,
+                v, v, v, v,
+                v, v, v, neg_one, v);
+    }
+}
+
 static void jitc_llvm_render(Variable *v) {
     const char *stmt = nullptr;
     Variable *a0 = v->dep[0] ? jitc_var(v->dep[0]) : nullptr,
@@ -679,18 +720,13 @@ static void jitc_llvm_render(Variable *v) {
 
         case VarKind::Div:
             if (jitc_is_float(v))
-                stmt = "    $v = fdiv $V, $v\n";
-            else if (jitc_is_uint(v))
-                stmt = "    $v = udiv $V, $v\n";
+                fmt("    $v = fdiv $V, $v\n", v, a0, a1);
             else
-                stmt = "    $v = sdiv $V, $v\n";
-            fmt(stmt, v, a0, a1);
+                jitc_llvm_render_int_div(v, a0, a1, false);
             break;
 
         case VarKind::Mod:
-            fmt(jitc_is_uint(v) ? "    $v = urem $V, $v\n"
-                                : "    $v = srem $V, $v\n",
-                v, a0, a1);
+            jitc_llvm_render_int_div(v, a0, a1, true);
             break;
 
         case VarKind::MulHi:
-- 
2.43.0


From d9b3df7210d95f6ed301a6bff686e74db400fb65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:15 +0000
Subject: [PATCH 04/67] fix: comparison of NaNs via '!=' and conversion of NaN
 to bool

Constant folding (and Metal) treated these as unordered comparisons, while the
LLVM and CUDA kernels used ordered ones ('x != y' was false when an operand was
a NaN), so that results depended on whether operands were literals. Moreover,
'x != x' was simplified to 'false' for floating point operands.
---
 src/cuda_eval.cpp | 4 +++-
 src/llvm_eval.cpp | 4 ++--
 src/op.cpp        | 2 +-
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/cuda_eval.cpp b/src/cuda_eval.cpp
index 85431ae..2418fe0 100644
--- a/src/cuda_eval.cpp
+++ b/src/cuda_eval.cpp
@@ -850,7 +850,9 @@ static void jitc_cuda_render(Variable *v) {
 
         case VarKind::Neq:
             if (!jitc_is_bool(a0))
-                fmt("    setp.ne.$t $v, $v, $v;\n", a0, v, a0, a1);
+                fmt(jitc_is_float(a0) ? "    setp.neu.$t $v, $v, $v;\n"
+                                      : "    setp.ne.$t $v, $v, $v;\n",
+                    a0, v, a0, a1);
             else
                 fmt("    xor.$t $v, $v, $v;\n", v, v, a0, a1);
             break;
diff --git a/src/llvm_eval.cpp b/src/llvm_eval.cpp
index d661ddb..0ed7474 100644
--- a/src/llvm_eval.cpp
+++ b/src/llvm_eval.cpp
@@ -870,7 +870,7 @@ static void jitc_llvm_render(Variable *v) {
             break;
 
         case VarKind::Neq:
-            fmt(jitc_is_float(a0) ? "    $v = fcmp one $V, $v\n"
+            fmt(jitc_is_float(a0) ? "    $v = fcmp une $V, $v\n"
                                   : "    $v = icmp ne $V, $v\n", v, a0, a1);
             break;
 
@@ -992,7 +992,7 @@ static void jitc_llvm_render(Variable *v) {
 
         case VarKind::Cast:
             if (jitc_is_bool(v)) {
-                fmt(jitc_is_float(a0) ? "    $v = fcmp one $V, $z\n"
+                fmt(jitc_is_float(a0) ? "    $v = fcmp une $V, $z\n"
                                       : "    $v = icmp ne $V, $z\n",
                     v, a0);
             } else if (jitc_is_bool(a0)) {
diff --git a/src/op.cpp b/src/op.cpp
index e835607..c21c8b8 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -1145,7 +1145,7 @@ uint32_t jitc_var_neq(uint32_t a0, uint32_t a1) {
         if (info.literal)
             result = jitc_eval_literal(
                 info, [](auto l0, auto l1) { return l0 != l1; }, v0, v1);
-        else if (a0 == a1)
+        else if (a0 == a1 && !jitc_is_float(v0))
             result = jitc_make_zero(info);
     }
 
-- 
2.43.0


From 5de468796f3ac005568442bdc0108459c4568ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:04 +0000
Subject: [PATCH 05/67] fix: packet gathers/scatters failed for index types
 other than uint32

---
 src/op.cpp | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/op.cpp b/src/op.cpp
index c21c8b8..652a17f 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -1916,6 +1916,14 @@ static uint32_t jitc_scatter_gather_index(uint32_t source, uint32_t index) {
     return jitc_var_cast(index, target_type, 0);
 }
 
+/// Create an integer literal whose type matches that of an index variable
+static uint32_t jitc_packet_constant(uint32_t index, uint32_t value) {
+    const Variable *v = jitc_var(index);
+    uint64_t value_64 = value;
+    return jitc_var_literal((JitBackend) v->backend, (VarType) v->type,
+                            &value_64, 1, 0);
+}
+
 /// Change all indices/counters in an expression tree to 'new_index'
 static uint32_t jitc_var_reindex(uint32_t var_index, uint32_t new_index,
                                  uint32_t mask, uint32_t size,
@@ -2266,7 +2274,11 @@ void jitc_var_gather_packet(size_t n, uint32_t src_, uint32_t index, uint32_t ma
     else if (mask == 0)
         jitc_raise("jit_var_gather_packet(): mask is uninitialized!");
 
-    Ref scale = steal(jitc_var_u32((JitBackend) jitc_var(src_)->backend, (uint32_t) n));
+    // Normalize the index type, it is used in arithmetic expressions below
+    Ref index_n = steal(jitc_scatter_gather_index(src_, index));
+    index = index_n;
+
+    Ref scale = steal(jitc_packet_constant(index, (uint32_t) n));
 
     Ref src = borrow(src_);
 
@@ -2297,7 +2309,7 @@ void jitc_var_gather_packet(size_t n, uint32_t src_, uint32_t index, uint32_t ma
         src_v->is_literal() ||                              // Literal values
         src_v->is_undefined()) {                            // Uninitialized memory
         for (size_t i = 0; i < n; ++i) {
-            Ref index2 = steal(jitc_var_u32(var_info.backend, (uint32_t) i));
+            Ref index2 = steal(jitc_packet_constant(index, (uint32_t) i));
             Ref index3 = steal(jitc_var_fma(index, scale, index2));
             out[i] = jitc_var_gather(src_, index3, mask);
         }
@@ -2325,8 +2337,8 @@ void jitc_var_gather_packet(size_t n, uint32_t src_, uint32_t index, uint32_t ma
         while ((n & (packet_size - 1)) != 0)
             packet_size /= 2;
 
-        Ref step = steal(jitc_var_u32(var_info.backend, 1)),
-            scale_ = steal(jitc_var_u32(var_info.backend, (uint32_t) n/packet_size)),
+        Ref step = steal(jitc_packet_constant(index, 1)),
+            scale_ = steal(jitc_packet_constant(index, (uint32_t) n/packet_size)),
             index2 = steal(jitc_var_mul(index, scale_));
 
         for (size_t i = 0; i < n; i += packet_size) {
@@ -3121,6 +3133,10 @@ uint32_t jitc_var_scatter_packet(size_t n, uint32_t target_,
         jitc_raise("jit_var_scatter_packet(): index, value(s), and mask must "
                    "have a compatible size!");
 
+    // Normalize the index type, it is used in arithmetic expressions below
+    index = steal(jitc_scatter_gather_index(target, index));
+    index_ = index;
+
     auto [target_info, target_v] =
         jitc_var_check("jit_var_scatter_packet", (uint32_t) target);
     auto [var_info, index_v, mask_v] =
@@ -3239,7 +3255,7 @@ uint32_t jitc_var_scatter_packet(size_t n, uint32_t target_,
     // generating the assembly.
     use_packet_op = use_packet_op && n > 1 && n % 2 == 0;
 
-    Ref scale = steal(jitc_var_u32(backend, (uint32_t) n));
+    Ref scale = steal(jitc_packet_constant(index, (uint32_t) n));
 
     // Potentially reduce to a sequence of scatters
     if (!use_packet_op) {
@@ -3250,7 +3266,7 @@ uint32_t jitc_var_scatter_packet(size_t n, uint32_t target_,
             op == ReduceOp::Identity ? ReduceMode::NoConflicts : mode;
 
         for (size_t i = 0; i < n; ++i) {
-            Ref index2 = steal(jitc_var_u32(backend, (uint32_t) i));
+            Ref index2 = steal(jitc_packet_constant(index, (uint32_t) i));
             Ref index3 = steal(jitc_var_fma(index, scale, index2));
 
             uint32_t index_t = target;
-- 
2.43.0


From af8c16e391da0ca36ffcbc30aad131f44d8304bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:04 +0000
Subject: [PATCH 06/67] fix: bounds checks of operations with a non-32 bit
 index generated invalid IR

---
 src/op.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/op.cpp b/src/op.cpp
index 652a17f..d1169cd 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -2011,6 +2011,13 @@ static uint32_t jitc_var_reindex(uint32_t var_index, uint32_t new_index,
 
 uint32_t jitc_var_check_bounds(BoundsCheckType bct, uint32_t index,
                                uint32_t mask, uint32_t array_size) {
+    // The generated code compares 32-bit integers
+    Ref index_32;
+    if (type_size[jitc_var(index)->type] != 4) {
+        index_32 = steal(jitc_var_cast(index, VarType::UInt32, 0));
+        index = index_32;
+    }
+
     auto [info, v_index, v_mask] =
         jitc_var_check("jit_var_check_bounds", index, mask);
 
-- 
2.43.0


From 7961cf3643c6fb0de95317220c02c55a4808ba43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:04 +0000
Subject: [PATCH 07/67] fix: packet scatters into unaligned memory could crash

---
 src/op.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/op.cpp b/src/op.cpp
index d1169cd..dc68378 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -3262,6 +3262,10 @@ uint32_t jitc_var_scatter_packet(size_t n, uint32_t target_,
     // generating the assembly.
     use_packet_op = use_packet_op && n > 1 && n % 2 == 0;
 
+    // The generated code requires an aligned target (e.g. not the case for
+    // some memory regions provided by the user via jit_var_mem_map())
+    use_packet_op = use_packet_op && !target_v->unaligned;
+
     Ref scale = steal(jitc_packet_constant(index, (uint32_t) n));
 
     // Potentially reduce to a sequence of scatters
-- 
2.43.0


From ed6da915cc6eda94849a788c9b70d8b6d8239574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:04 +0000
Subject: [PATCH 08/67] fix: outputs of scatter_exch()/scatter_cas() when the
 operation is elided

---
 src/op.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/src/op.cpp b/src/op.cpp
index dc68378..d17d0b3 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -2542,14 +2542,13 @@ uint32_t jitc_var_scatter_exch(uint32_t *target_p, uint32_t value,
         target_v->literal == value_v->literal) {
         print_log("skipped, target/source are value variables with the "
                   "same value");
-        target.release();
-        return *target_p;
+        return jitc_var_resize(target, var_info.size);
     }
 
     if (mask_v->is_literal() && mask_v->literal == 0) {
         print_log("skipped, always masked");
-        target.release();
-        return *target_p;
+        var_info.type = target_info.type;
+        return jitc_make_zero(var_info);
     }
 
     // Copy-on-Write logic. See the same line in jitc_var_scatter() for details
@@ -2653,13 +2652,19 @@ void jitc_var_scatter_cas(uint32_t *target_p, uint32_t compare, uint32_t value,
         target_v->literal == value_v->literal) {
         print_log("skipped, target/source are value variables with the "
                   "same value");
-        target.release();
+        Ref old_v   = steal(jitc_var_resize(target, var_info.size)),
+            equal   = steal(jitc_var_eq(old_v, compare));
+        *success = jitc_var_and(equal, mask);
+        *old = old_v.release();
         return;
     }
 
     if (mask_v->is_literal() && mask_v->literal == 0) {
         print_log("skipped, always masked");
-        target.release();
+        var_info.type = target_info.type;
+        *old = jitc_make_zero(var_info);
+        var_info.type = VarType::Bool;
+        *success = jitc_make_zero(var_info);
         return;
     }
 
-- 
2.43.0


From bb10c0221de2432193576a6831a581ed2456da66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:04 +0000
Subject: [PATCH 09/67] fix: evaluated masks on the mask stack enabled padding
 lanes

---
 src/var.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index 7ff9e74..b1c5bce 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2250,8 +2250,9 @@ uint32_t jitc_var_mask_apply(uint32_t index, uint32_t size) {
         Ref default_mask = steal(jitc_var_mask_default(backend, size));
         if (!mask) {
             mask = borrow(default_mask);
-        } else if (jitc_var(mask)->is_evaluated() && size == 1) {
-            // Scalar evaluated parameters get broadcasted, we need to re-apply the default mask
+        } else if (jitc_var(mask)->is_evaluated()) {
+            // Scalar evaluated parameters get broadcasted, and the padding of
+            // evaluated arrays is undefined. Re-apply the default mask
             mask = steal(jitc_var_and(mask, default_mask));
         }
     }
-- 
2.43.0


From e68e77008415a2cdd2e74de4740aa6c45813736f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:04 +0000
Subject: [PATCH 10/67] fix: internal uses of jitc_var_resize() could modify a
 variable in place

---
 src/api.cpp | 2 +-
 src/var.cpp | 4 ++--
 src/var.h   | 3 ++-
 3 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/api.cpp b/src/api.cpp
index 5847f0f..546a5a9 100644
--- a/src/api.cpp
+++ b/src/api.cpp
@@ -1035,7 +1035,7 @@ int jit_var_is_unaligned(uint32_t index) {
 
 uint32_t jit_var_resize(uint32_t index, size_t size) {
     lock_guard guard(state.lock);
-    return jitc_var_resize(index, size);
+    return jitc_var_resize(index, size, true);
 }
 
 VarType jit_var_type(uint32_t index) {
diff --git a/src/var.cpp b/src/var.cpp
index b1c5bce..ed13adb 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -1996,7 +1996,7 @@ uint32_t jitc_var_shrink(uint32_t index, size_t size) {
     return result;
 }
 
-uint32_t jitc_var_resize(uint32_t index, size_t size) {
+uint32_t jitc_var_resize(uint32_t index, size_t size, bool in_place) {
     if (index == 0 && size == 0)
         return 0;
 
@@ -2022,7 +2022,7 @@ uint32_t jitc_var_resize(uint32_t index, size_t size) {
     }
 
     uint32_t result;
-    if (!v->is_evaluated() && v->ref_count == 1) {
+    if (in_place && !v->is_evaluated() && v->ref_count == 1) {
         // Nobody else holds a reference -- we can directly resize this variable
         jitc_var_inc_ref(index, v);
         jitc_lvn_drop(index, v);
diff --git a/src/var.h b/src/var.h
index e68d12f..088f9d0 100644
--- a/src/var.h
+++ b/src/var.h
@@ -102,7 +102,8 @@ extern uint32_t jitc_var_copy(uint32_t index);
 extern uint32_t jitc_var_copy_opaque(uint32_t index);
 
 /// Create a resized copy of a variable
-extern uint32_t jitc_var_resize(uint32_t index, size_t size);
+extern uint32_t jitc_var_resize(uint32_t index, size_t size,
+                                bool in_place = false);
 
 /// Increase the external reference count of a given variable
 extern void jitc_var_inc_ref(uint32_t index, Variable *v) noexcept;
-- 
2.43.0


From aa6b48b5c712b025f95cd6666862f82d8a712bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:05 +0000
Subject: [PATCH 11/67] fix: block_prefix_reduce() of literals

---
 src/var.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index ed13adb..5060cf5 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2819,10 +2819,14 @@ uint32_t jitc_var_block_prefix_reduce(ReduceOp op,
     uint32_t size = v->size;
 
     if (v->is_literal()) {
-        if (op == ReduceOp::Max || op == ReduceOp::Min) {
+        // The first entry of an exclusive min/max scan is the identity element
+        if ((op == ReduceOp::Max || op == ReduceOp::Min) && !exclusive) {
             jitc_var_inc_ref(index);
             return index;
-        } else if (op == ReduceOp::Add) {
+        }
+
+        // Reverse scans must count from the end of the (potentially partial) block
+        if (op == ReduceOp::Add && (!reverse || size % block_size == 0)) {
             Ref ctr = steal(jitc_var_counter(backend, size, true));
             if (block_size != size) {
                 Ref bsize = steal(jitc_var_u32(backend, block_size));
@@ -2846,12 +2850,9 @@ uint32_t jitc_var_block_prefix_reduce(ReduceOp op,
         }
     }
 
-    if (!v->is_evaluated() || v->is_dirty()) {
-        jitc_var_eval(index);
-        v = jitc_var(index);
-    }
-
-    const void *data_in = v->data;
+    // Evaluate (this also materializes literals)
+    void *data_in = nullptr;
+    Ref in = steal(jitc_var_data(index, true, &data_in));
 
     void *data_out =
         jitc_malloc(backend, (size_t) type_size[(int) vt] * size);
-- 
2.43.0


From f9c94daed8dff71a3cc942ae2643bd5231d08786 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:05 +0000
Subject: [PATCH 12/67] fix: reduce_dot() crashed when an operand was a literal
 or undefined

---
 src/var.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/var.cpp b/src/var.cpp
index 5060cf5..cd0f265 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2730,8 +2730,13 @@ uint32_t jitc_var_reduce_dot(uint32_t index_1, uint32_t index_2) {
     if (v1->type != v2->type)
         jitc_raise("jitc_var_reduce_dot(): incompatible types!");
 
+    auto no_storage = [](const Variable *v) {
+        return v->is_literal() || v->is_undefined();
+    };
+
     if (jitc_is_float(v1) && v1->size == v2->size &&
-        (v1->is_evaluated() || v2->is_evaluated())) {
+        (v1->is_evaluated() || v2->is_evaluated()) &&
+        !no_storage(v1) && !no_storage(v2)) {
         uint32_t size = v1->size;
 
         // Fast path
-- 
2.43.0


From 5c9945b76cfac4e0123efab483f006106966e06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:05 +0000
Subject: [PATCH 13/67] fix: scatter-reduction of 16 bit integers in expand
 mode

---
 src/llvm_ts.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/llvm_ts.cpp b/src/llvm_ts.cpp
index 816d6f5..1ec49dc 100644
--- a/src/llvm_ts.cpp
+++ b/src/llvm_ts.cpp
@@ -1069,6 +1069,8 @@ static ReduceExpanded reduce_expanded_create(ReduceOp op) {
 static ReduceExpanded reduce_expanded_create(VarType type, ReduceOp op) {
     using half = drjit::half;
     switch (type) {
+        case VarType::Int16:   return reduce_expanded_create<int16_t >(op);
+        case VarType::UInt16:  return reduce_expanded_create<uint16_t>(op);
         case VarType::Int32:   return reduce_expanded_create<int32_t >(op);
         case VarType::UInt32:  return reduce_expanded_create<uint32_t>(op);
         case VarType::Int64:   return reduce_expanded_create<int64_t >(op);
-- 
2.43.0


From d21cd820298459c77d1069c79594669eab70dd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:05 +0000
Subject: [PATCH 14/67] fix: block_mkperm() accessed memory out of bounds for
 partial blocks

---
 src/llvm_ts.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/llvm_ts.cpp b/src/llvm_ts.cpp
index 1ec49dc..1602999 100644
--- a/src/llvm_ts.cpp
+++ b/src/llvm_ts.cpp
@@ -845,7 +845,7 @@ uint32_t LLVMThreadState::block_mkperm(const uint32_t *ptr, uint32_t size,
             uint32_t *buckets_local = (uint32_t *) malloc_check(bsize);
             memset(buckets_local, 0, bsize);
 
-            for (uint32_t i = start; i != end; ++i)
+            for (uint32_t i = start; i < end; ++i)
                 buckets_local[ptr[i]]++;
 
             buckets[index] = buckets_local;
@@ -913,7 +913,7 @@ uint32_t LLVMThreadState::block_mkperm(const uint32_t *ptr, uint32_t size,
 
             uint32_t *buckets_local = buckets[index];
 
-            for (uint32_t i = start; i != end; ++i) {
+            for (uint32_t i = start; i < end; ++i) {
                 uint32_t idx = buckets_local[ptr[i]]++;
                 perm[idx] = i;
             }
-- 
2.43.0


From 37786debf02b26a15fa43bcafd66c277a5749c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:05 +0000
Subject: [PATCH 15/67] fix: jitc_var_new_node_3/4() checked the wrong operands
 for pending writes

---
 src/var.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index cd0f265..1724d10 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -1270,7 +1270,7 @@ uint32_t jitc_var_new_node_3(JitBackend backend, VarKind kind, VarType vt,
             jitc_raise_dirty_error(a1);
 
         v2 = jitc_var(a2);
-        if (v1->is_dirty())
+        if (v2->is_dirty())
             jitc_raise_dirty_error(a2);
     }
 
@@ -1309,11 +1309,11 @@ uint32_t jitc_var_new_node_4(JitBackend backend, VarKind kind, VarType vt,
             jitc_raise_dirty_error(a1);
 
         v2 = jitc_var(a2);
-        if (v1->is_dirty())
+        if (v2->is_dirty())
             jitc_raise_dirty_error(a2);
 
         v3 = jitc_var(a3);
-        if (v1->is_dirty())
+        if (v3->is_dirty())
             jitc_raise_dirty_error(a3);
     }
 
-- 
2.43.0


From bbe2673829de5da285d899337b3c7c71c4041c76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:05 +0000
Subject: [PATCH 16/67] fix: packet scatters and coop_vec_pack() did not flush
 pending side effects of operands

---
 src/coop_vec.cpp | 15 +++++++++++++++
 src/op.cpp       | 16 ++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/src/coop_vec.cpp b/src/coop_vec.cpp
index 20200ea..9e16c3e 100644
--- a/src/coop_vec.cpp
+++ b/src/coop_vec.cpp
@@ -11,6 +11,7 @@
 #include "coop_vec.h"
 #include "internal.h"
 #include "log.h"
+#include "eval.h"
 #include "op.h"
 #include "optix_api.h"
 #include "optix.h"
@@ -62,6 +63,20 @@ uint32_t jitc_coop_vec_pack(uint32_t n, const uint32_t *in) {
             jitc_raise("jit_coop_vec_pack(): argument %u is uninitialized!", i);
     }
 
+    // The inputs are not direct dependencies of the node created below, hence
+    // pending side effects targeting them must be flushed here.
+    bool dirty = false;
+    for (uint32_t i = 0; i < n; ++i)
+        dirty |= jitc_var(in[i])->is_dirty();
+
+    if (unlikely(dirty)) {
+        jitc_eval(thread_state(jitc_var(in[0])->backend));
+        for (uint32_t i = 0; i < n; ++i) {
+            if (jitc_var(in[i])->is_dirty())
+                jitc_raise_dirty_error(in[i]);
+        }
+    }
+
     const Variable *arg_v = jitc_var(in[0]);
     if (!jitc_coop_vec_supported((JitBackend) arg_v->backend))
         jitc_raise("jit_coop_vec_pack(): The use of cooperative vectors on "
diff --git a/src/op.cpp b/src/op.cpp
index d17d0b3..63ddefb 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -3192,6 +3192,22 @@ uint32_t jitc_var_scatter_packet(size_t n, uint32_t target_,
         jitc_raise("jitc_var_scatter_packet(): target r%u has size %u, which is not "
                    "divisible by %zu!", index_, target_info.size, n);
 
+    // The values are not direct dependencies of the node created below, hence
+    // pending side effects targeting them must be flushed here.
+    bool dirty = false;
+    for (size_t i = 0; i < n; ++i)
+        dirty |= jitc_var(values[i])->is_dirty();
+
+    if (unlikely(dirty)) {
+        jitc_eval(thread_state(backend));
+        for (size_t i = 0; i < n; ++i) {
+            if (jitc_var(values[i])->is_dirty())
+                jitc_raise_dirty_error(values[i]);
+        }
+        target_v = jitc_var(target);
+        mask_v = jitc_var(mask);
+    }
+
     drjit::unique_ptr<PacketScatterData> psd(new PacketScatterData());
 
     bool all_zero = true, same_value = true;
-- 
2.43.0


From 15691a740f39f8cc094b125ac29a47c4838c3cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:05 +0000
Subject: [PATCH 17/67] fix: writes through a shrunk view modified the original
 variable

---
 src/coop_vec.cpp |  6 ++++--
 src/op.cpp       | 15 ++++++++++-----
 src/var.cpp      | 18 ++++++++++++++----
 src/var.h        |  3 +++
 4 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/src/coop_vec.cpp b/src/coop_vec.cpp
index 9e16c3e..afedf8e 100644
--- a/src/coop_vec.cpp
+++ b/src/coop_vec.cpp
@@ -620,7 +620,8 @@ uint32_t jitc_coop_vec_accum(uint32_t target_, uint32_t target_size,
     } else {
         const Variable *target_v = jitc_var(target);
         // Copy-on-Write logic. See the same line in jitc_var_scatter() for details
-        if (target_v->ref_count != 2 && target_v->ref_count_stashed != 1) {
+        if ((target_v->ref_count != 2 && target_v->ref_count_stashed != 1) ||
+            jitc_var_is_shared_view(target_v)) {
             target = steal(jitc_var_copy(target));
             target_v = jitc_var(target);
         }
@@ -713,7 +714,8 @@ uint32_t jitc_coop_vec_outer_product_accum(uint32_t target_,
     } else {
         const Variable *target_v = jitc_var(target);
         // Copy-on-Write logic. See the same line in jitc_var_scatter() for details
-        if (target_v->ref_count != 2 && target_v->ref_count_stashed != 1) {
+        if ((target_v->ref_count != 2 && target_v->ref_count_stashed != 1) ||
+            jitc_var_is_shared_view(target_v)) {
             target = steal(jitc_var_copy(target));
             target_v = jitc_var(target);
         }
diff --git a/src/op.cpp b/src/op.cpp
index 63ddefb..283558c 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -2435,7 +2435,8 @@ uint32_t jitc_var_scatter_inc(uint32_t *target_p, uint32_t index, uint32_t mask)
     var_info.symbolic |= (flags & (uint32_t) JitFlag::SymbolicScope) != 0;
 
     // Copy-on-Write logic. See the same line in jitc_var_scatter() for details
-    if (target_v->ref_count != 2 && target_v->ref_count_stashed != 1)
+    if ((target_v->ref_count != 2 && target_v->ref_count_stashed != 1) ||
+        jitc_var_is_shared_view(target_v))
         target = steal(jitc_var_copy(target));
 
     void *target_addr = nullptr;
@@ -2552,7 +2553,8 @@ uint32_t jitc_var_scatter_exch(uint32_t *target_p, uint32_t value,
     }
 
     // Copy-on-Write logic. See the same line in jitc_var_scatter() for details
-    if (target_v->ref_count != 2 && target_v->ref_count_stashed != 1) {
+    if ((target_v->ref_count != 2 && target_v->ref_count_stashed != 1) ||
+        jitc_var_is_shared_view(target_v)) {
         target = steal(jitc_var_copy(target));
         target_v = jitc_var(target);
     }
@@ -2669,7 +2671,8 @@ void jitc_var_scatter_cas(uint32_t *target_p, uint32_t compare, uint32_t value,
     }
 
     // Copy-on-Write logic. See the same line in jitc_var_scatter() for details
-    if (target_v->ref_count != 2 && target_v->ref_count_stashed != 1) {
+    if ((target_v->ref_count != 2 && target_v->ref_count_stashed != 1) ||
+        jitc_var_is_shared_view(target_v)) {
         target = steal(jitc_var_copy(target));
         target_v = jitc_var(target);
     }
@@ -3019,7 +3022,8 @@ uint32_t jitc_var_scatter(uint32_t target_, uint32_t value, uint32_t index_,
         target_v = jitc_var(target);
     }
 
-    if (target_v->ref_count > 2 && target_v->ref_count_stashed != 1)
+    if ((target_v->ref_count > 2 && target_v->ref_count_stashed != 1) ||
+        jitc_var_is_shared_view(target_v))
         target = steal(jitc_var_copy(target));
 
     // The backends may employ various strategies to reduce the number of
@@ -3316,7 +3320,8 @@ uint32_t jitc_var_scatter_packet(size_t n, uint32_t target_,
     // Check if it is safe to directly write to ``target``.
     // See the original scatter operation for details.
     target_v = jitc_var(target);
-    if (target_v->ref_count > 2 && target_v->ref_count_stashed != 1)
+    if ((target_v->ref_count > 2 && target_v->ref_count_stashed != 1) ||
+        jitc_var_is_shared_view(target_v))
         target = steal(jitc_var_copy(target));
 
     // Infer the ReduceOp parameter (if it is set to ReduceOp::Auto)
diff --git a/src/var.cpp b/src/var.cpp
index 1724d10..2bf1c8c 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -1763,7 +1763,8 @@ uint32_t jitc_var_write(uint32_t index_, size_t offset, const void *src) {
     Variable *v = jitc_var(index);
 
     // Check if it is safe to write directly
-    if (v->ref_count > 2) { // 1 from original array, 1 from jitc_var_data() above
+    // (1 reference from original array, 1 from jitc_var_data() above)
+    if (v->ref_count > 2 || jitc_var_is_shared_view(v)) {
         index = steal(jitc_var_copy(index));
 
         // The above operation may have invalidated 'v'
@@ -1963,6 +1964,16 @@ uint32_t jitc_var_copy_opaque(uint32_t index) {
     return result;
 }
 
+bool jitc_var_is_shared_view(const Variable *v) {
+    // 'dep[3]' references the variable owning the memory of a view
+    while (v->is_evaluated() && v->dep[3]) {
+        v = jitc_var(v->dep[3]);
+        if (v->ref_count > 1)
+            return true;
+    }
+    return false;
+}
+
 uint32_t jitc_var_shrink(uint32_t index, size_t size) {
     if (index == 0 || size == 0)
         return 0;
@@ -1983,11 +1994,10 @@ uint32_t jitc_var_shrink(uint32_t index, size_t size) {
         result = jitc_var_literal(backend, vt, &v->literal, size, 0);
     } else {
         void *dst_addr = nullptr;
-        Ref dst = steal(jitc_var_data(index, false, &dst_addr));
+        Ref dst = steal(jitc_var_data(index, true, &dst_addr));
 
         result = jitc_var_mem_map(backend, vt, dst_addr, size, false);
-        jitc_var(result)->dep[3] = index;
-        jitc_var_inc_ref(index);
+        jitc_var(result)->dep[3] = dst.release();
     }
 
     jitc_log(Debug, "jit_var_shrink(): %s r%u[%zu] = shrink(r%u)",
diff --git a/src/var.h b/src/var.h
index 088f9d0..f381875 100644
--- a/src/var.h
+++ b/src/var.h
@@ -292,6 +292,9 @@ extern void jitc_var_self(JitBackend backend, uint32_t *value, uint32_t *index);
 /// Return the 'VariableExtra' record associated with a variable (or create it)
 extern VariableExtra *jitc_var_extra(Variable *v);
 
+/// Is 'v' a view (see jitc_var_shrink()) into memory used by other variables?
+extern bool jitc_var_is_shared_view(const Variable *v);
+
 /// Create a view of an existing variable that has a smaller size
 extern uint32_t jitc_var_shrink(uint32_t index, size_t size);
 
-- 
2.43.0


From 0c135f22dcef2fc67cb977e8bb6800859e785e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:05 +0000
Subject: [PATCH 18/67] fix: bounds checks of expanded packet scatters dropped
 contributions

---
 src/op.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/op.cpp b/src/op.cpp
index 283558c..050c471 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -3316,6 +3316,7 @@ uint32_t jitc_var_scatter_packet(size_t n, uint32_t target_,
 
     // Must compute final index before potentially expanding below
     index = steal(jitc_var_mul(index, scale));
+    Ref index_orig = borrow(index);
 
     // Check if it is safe to directly write to ``target``.
     // See the original scatter operation for details.
@@ -3344,7 +3345,7 @@ uint32_t jitc_var_scatter_packet(size_t n, uint32_t target_,
         mask_2 = steal(jitc_var_check_bounds(
             op == ReduceOp::Identity ? BoundsCheckType::PacketScatter
                                      : BoundsCheckType::PacketScatterReduce,
-            /* original index */ index, mask_2, target_size));
+            /* original index */ index_orig, mask_2, target_size));
     }
 
     uint32_t op_size = std::max(var_info.size, jitc_var(mask_2)->size);
-- 
2.43.0


From 66da089fff4c12bef764f77445db9a60c8d207c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:05 +0000
Subject: [PATCH 19/67] fix: packet scatter fallback counted scalar components
 only once

---
 src/op.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/op.cpp b/src/op.cpp
index 050c471..c12062a 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -3305,6 +3305,10 @@ uint32_t jitc_var_scatter_packet(size_t n, uint32_t target_,
             Ref index2 = steal(jitc_packet_constant(index, (uint32_t) i));
             Ref index3 = steal(jitc_var_fma(index, scale, index2));
 
+            // Each component participates with the same number of lanes
+            if (op != ReduceOp::Identity && jitc_var(index3)->size == 1)
+                index3 = steal(jitc_var_resize(index3, var_info.size));
+
             uint32_t index_t = target;
             if (index_t == target_)
                 target.reset();
-- 
2.43.0


From d970ab6147fb5672713ac851298a938671921b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:05 +0000
Subject: [PATCH 20/67] fix: name clash of signed/unsigned min/max
 scatter-reductions in LLVM kernels

---
 src/llvm_scatter.cpp | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/llvm_scatter.cpp b/src/llvm_scatter.cpp
index 2301d72..5cc204c 100644
--- a/src/llvm_scatter.cpp
+++ b/src/llvm_scatter.cpp
@@ -174,6 +174,17 @@ static const char *reduce_op_name[(int) ReduceOp::Count] = {
     "", "add", "mul", "min", "max", "and", "or"
 };
 
+/// Name used to identify the reduction in generated helper functions. Signed and
+/// unsigned LLVM integers share the same type name, hence this information must
+/// be encoded in the name of the operation where it is relevant
+static const char *jitc_llvm_reduce_op_name(VarType vt, ReduceOp op) {
+    if (jitc_is_uint(vt) && op == ReduceOp::Min)
+        return "umin";
+    if (jitc_is_uint(vt) && op == ReduceOp::Max)
+        return "umax";
+    return reduce_op_name[(int) op];
+}
+
 static const char *jitc_llvm_append_reduce_op_direct(VarType vt, ReduceOp op, const Variable *v) {
     if (jitc_llvm_vector_width > 32)
         jitc_fail("jitc_llvm_append_reduce_op_direct(): internal error -- code generation "
@@ -184,7 +195,7 @@ static const char *jitc_llvm_append_reduce_op_direct(VarType vt, ReduceOp op, co
              val_align = type_size[(int) vt],
              val_align_vec = val_align * jitc_llvm_vector_width;
 
-    const char *op_name = reduce_op_name[(int) op];
+    const char *op_name = jitc_llvm_reduce_op_name(vt, op);
     std::string atomic = jitc_llvm_render_atomic(vt, op, "%val_i", "loop_suffix");
 
     fmt_intrinsic(
@@ -234,7 +245,7 @@ const char *jitc_llvm_append_reduce_op_local(VarType vt, ReduceOp op, const Vari
              ptr_align_vec = std::min(ptr_align * jitc_llvm_vector_width, jitc_llvm_max_align),
              shiftamt = log2i_ceil(type_size[(int) vt]);
 
-    const char *op_name = reduce_op_name[(int) op],
+    const char *op_name = jitc_llvm_reduce_op_name(vt, op),
                *cmp_op = jitc_is_float(v) ? "fcmp one" : "icmp ne";
 
     std::string atomic = jitc_llvm_render_atomic(vt, op, "%red_out", "do_scatter_end");
@@ -330,7 +341,7 @@ static const char *jitc_llvm_append_reduce_op_noconflict(VarType vt, ReduceOp op
              val_align = type_size[(int) vt],
              shiftamt = log2i_ceil(type_size[(int) vt]);
 
-    const char *op_name = reduce_op_name[(int) op],
+    const char *op_name = jitc_llvm_reduce_op_name(vt, op),
                *cmp_op = jitc_is_float(v) ? "fcmp one" : "icmp ne";
 
 
@@ -518,7 +529,7 @@ void jitc_llvm_render_scatter_reduce(const Variable *v,
         "    call fastcc void @reduce_$s_$h_$s(<$w x ptr> $v_1, $V, i$w $v_2)\n",
         v, value, ptr, index,
         v, mask,
-        reduce_op_name[(int) op], value, variant, v, value, v);
+        jitc_llvm_reduce_op_name(vt, op), value, variant, v, value, v);
 }
 
 void jitc_llvm_render_scatter_inc(Variable *v, const Variable *ptr,
-- 
2.43.0


From fef4e913e17a8390d730b821855688fab4d94e0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:05 +0000
Subject: [PATCH 21/67] fix: scatter-add dropped NaN contributions on the LLVM
 backend

---
 src/llvm_scatter.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/llvm_scatter.cpp b/src/llvm_scatter.cpp
index 5cc204c..ba38b48 100644
--- a/src/llvm_scatter.cpp
+++ b/src/llvm_scatter.cpp
@@ -246,7 +246,9 @@ const char *jitc_llvm_append_reduce_op_local(VarType vt, ReduceOp op, const Vari
              shiftamt = log2i_ceil(type_size[(int) vt]);
 
     const char *op_name = jitc_llvm_reduce_op_name(vt, op),
-               *cmp_op = jitc_is_float(v) ? "fcmp one" : "icmp ne";
+               *cmp_op = jitc_is_float(v)
+                             ? (op == ReduceOp::Add ? "fcmp une" : "fcmp one")
+                             : "icmp ne";
 
     std::string atomic = jitc_llvm_render_atomic(vt, op, "%red_out", "do_scatter_end");
 
@@ -342,7 +344,9 @@ static const char *jitc_llvm_append_reduce_op_noconflict(VarType vt, ReduceOp op
              shiftamt = log2i_ceil(type_size[(int) vt]);
 
     const char *op_name = jitc_llvm_reduce_op_name(vt, op),
-               *cmp_op = jitc_is_float(v) ? "fcmp one" : "icmp ne";
+               *cmp_op = jitc_is_float(v)
+                             ? (op == ReduceOp::Add ? "fcmp une" : "fcmp one")
+                             : "icmp ne";
 
 
     auto [vector_reduce_name, vector_reduce_modifier, vector_reduce_identity,
-- 
2.43.0


From 5d180a09b18f0a9da2d3f80d99e255ed8c7acbb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:05 +0000
Subject: [PATCH 22/67] fix: reductions of literals truncated the array size to
 the value type

---
 src/var.cpp | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index 2bf1c8c..6129fae 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2427,14 +2427,28 @@ uint32_t jitc_var_compress(uint32_t index) {
 template <typename T> static void jitc_var_reduce_scalar_add(uint32_t size, void *ptr) {
     T value;
     memcpy(&value, ptr, sizeof(T));
-    value = T(value * T(size));
+    // (The type 'T' cannot necessarily represent the value 'size')
+    if constexpr (std::is_integral_v<T>)
+        value = T((uint64_t) value * (uint64_t) size);
+    else
+        value = T((double) value * (double) size);
     memcpy(ptr, &value, sizeof(T));
 }
 
 template <typename T> static void jitc_var_reduce_scalar_mul(uint32_t size, void *ptr) {
     T value;
     memcpy(&value, ptr, sizeof(T));
-    value = T(std::pow((double) value, (double) T(size)));
+    if constexpr (std::is_integral_v<T>) {
+        uint64_t base = (uint64_t) value, result = 1;
+        for (uint32_t i = size; i != 0; i >>= 1) {
+            if (i & 1)
+                result *= base;
+            base *= base;
+        }
+        value = T(result);
+    } else {
+        value = T(std::pow((double) value, (double) size));
+    }
     memcpy(ptr, &value, sizeof(T));
 }
 
-- 
2.43.0


From 7418729714169a5cb2047f7a0de0a2ce92bd8e46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:05 +0000
Subject: [PATCH 23/67] fix: scatter_exch()/scatter_cas() with a mask stack of
 larger size

---
 src/op.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/op.cpp b/src/op.cpp
index c12062a..c202d6f 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -2595,7 +2595,7 @@ uint32_t jitc_var_scatter_exch(uint32_t *target_p, uint32_t value,
     // Dummy node that represents the side-effect
     uint32_t write_ptr = jitc_var_pointer(var_info.backend, target_addr, target, 1);
     uint32_t se = jitc_var_new_node_1(var_info.backend, VarKind::Nop,
-                                      VarType::Void, var_info.size, symbolic,
+                                      VarType::Void, op_size, symbolic,
                                       scatter_xchg_op, jitc_var(scatter_xchg_op));
     jitc_var(se)->dep[3] = write_ptr;
     jitc_var_mark_side_effect(se);
@@ -2749,7 +2749,7 @@ void jitc_var_scatter_cas(uint32_t *target_p, uint32_t compare, uint32_t value,
     // Dummy node that represents the side-effect
     uint32_t write_ptr = jitc_var_pointer(var_info.backend, target_addr, target, 1);
     uint32_t se = jitc_var_new_node_1(var_info.backend, VarKind::Nop,
-                                      VarType::Void, var_info.size, symbolic,
+                                      VarType::Void, op_size, symbolic,
                                       scatter_cas_op, jitc_var(scatter_cas_op));
     jitc_var(se)->dep[3] = write_ptr;
     jitc_var_mark_side_effect(se);
-- 
2.43.0


From d71ee1ed9078d850518f2826948d318bad0514a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:51 +0000
Subject: [PATCH 24/67] fix: gathers re-indexed masked packet gathers, atomics,
 and variable arrays

---
 src/op.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/op.cpp b/src/op.cpp
index c202d6f..9f2439d 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -1946,6 +1946,17 @@ static uint32_t jitc_var_reindex(uint32_t var_index, uint32_t new_index,
             return 0; // "complicated" variable, give up
     }
 
+    switch ((VarKind) v->kind) {
+        case VarKind::ScatterInc:
+        case VarKind::ScatterCAS:
+        case VarKind::ScatterExch:
+            return 0; // atomic side effect, must not be replicated
+
+        default:
+            if (v->is_array())
+                return 0; // variable array, give up
+    }
+
     Ref dep[4];
     bool rebuild = v->size != size && v->size != 1;
 
@@ -1968,7 +1979,8 @@ static uint32_t jitc_var_reindex(uint32_t var_index, uint32_t new_index,
                 continue;
 
             dep[i] = steal(jitc_var_reindex(index_2, new_index, mask, size, map));
-            if (dep[i] && v_kind == VarKind::Gather && i == 2) {
+            if (dep[i] && i == 2 &&
+                (v_kind == VarKind::Gather || v_kind == VarKind::PacketGather)) {
                 // Gather nodes must also apply the new mask (which should
                 // already contain the default mask)
                 dep[i] = steal(jitc_var_and(dep[i], mask));
-- 
2.43.0


From 42fa73946adddc32759e2702589fdaf315a8766b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:35:51 +0000
Subject: [PATCH 25/67] fix: atomic operations of size 1 were repeated when
 broadcasting their output

---
 src/op.cpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/src/op.cpp b/src/op.cpp
index 9f2439d..1dd125c 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -2414,6 +2414,14 @@ static const char *reduce_op_symbol[(int) ReduceOp::Count] = {
     "=", "+=", "*=", "= min", "= max", "&=", "|="
 };
 
+/// Scalar variables can be broadcast to any size, but the side effect of an
+/// atomic operation must take place once. Evaluate the operation right away.
+static void jitc_eval_scalar_atomic(uint32_t r0, uint32_t r1 = 0) {
+    jitc_var_schedule(r0);
+    jitc_var_schedule(r1);
+    jitc_eval(thread_state(jitc_var(r0)->backend));
+}
+
 uint32_t jitc_var_scatter_inc(uint32_t *target_p, uint32_t index, uint32_t mask) {
     auto [var_info, index_v, mask_v] =
         jitc_var_check("jit_var_scatter_inc", index, mask);
@@ -2503,6 +2511,9 @@ uint32_t jitc_var_scatter_inc(uint32_t *target_p, uint32_t index, uint32_t mask)
     jitc_var(se)->dep[3] = write_ptr.release();
     jitc_var_mark_side_effect(se.release());
 
+    if (var_info.size == 1 && !symbolic)
+        jitc_eval_scalar_atomic(result);
+
     return result;
 }
 
@@ -2612,6 +2623,9 @@ uint32_t jitc_var_scatter_exch(uint32_t *target_p, uint32_t value,
     jitc_var(se)->dep[3] = write_ptr;
     jitc_var_mark_side_effect(se);
 
+    if (op_size == 1 && !symbolic)
+        jitc_eval_scalar_atomic(scatter_xchg_op);
+
     return scatter_xchg_op;
 }
 
@@ -2765,6 +2779,9 @@ void jitc_var_scatter_cas(uint32_t *target_p, uint32_t compare, uint32_t value,
                                       scatter_cas_op, jitc_var(scatter_cas_op));
     jitc_var(se)->dep[3] = write_ptr;
     jitc_var_mark_side_effect(se);
+
+    if (op_size == 1 && !symbolic)
+        jitc_eval_scalar_atomic(*old, *success);
 }
 
 extern size_t llvm_expand_threshold;
-- 
2.43.0


From 55a3fb59ee7d372c979392a06519dfecd66995c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:10 +0000
Subject: [PATCH 26/67] fix: jit_var_mod() crashed when called with empty
 operands

---
 src/op.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/op.cpp b/src/op.cpp
index 1dd125c..743f643 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -672,11 +672,11 @@ uint32_t jitc_var_mod(uint32_t a0, uint32_t a1) {
     if (info.simplify && info.literal) {
         result = jitc_eval_literal(
             info, [](auto l0, auto l1) { return eval_mod(l0, l1); }, v0, v1);
-    } else if (jitc_is_uint(info.type) && v1->is_literal() && jitc_is_pow2(v1->literal)) {
+    } else if (info.size && jitc_is_uint(info.type) && v1->is_literal() && jitc_is_pow2(v1->literal)) {
         uint64_t value = v1->literal - 1;
         Ref tmp = steal(jitc_var_literal(info.backend, info.type, &value, info.size, 0));
         return jitc_var_and(a0, tmp);
-    } else if (v1->is_literal() && jitc_is_one(v1)) {
+    } else if (info.size && v1->is_literal() && jitc_is_one(v1)) {
         uint64_t value = 0;
         result = jitc_var_literal(info.backend, info.type, &value, info.size, 0);
     }
-- 
2.43.0


From 8f48ce2476fbeda13f342cdd2b7d26e60b21b5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:10 +0000
Subject: [PATCH 27/67] fix: block_prefix_reduce() of literals did not validate
 the block size

---
 src/var.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/var.cpp b/src/var.cpp
index 6129fae..622dbe7 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2847,6 +2847,11 @@ uint32_t jitc_var_block_prefix_reduce(ReduceOp op,
     JitBackend backend = (JitBackend) v->backend;
     uint32_t size = v->size;
 
+    if (block_size == 0 || block_size > size)
+        jitc_raise(
+            "jit_block_prefix_reduce(): invalid block size (size=%u, block_size=%u)!",
+            size, block_size);
+
     if (v->is_literal()) {
         // The first entry of an exclusive min/max scan is the identity element
         if ((op == ReduceOp::Max || op == ReduceOp::Min) && !exclusive) {
-- 
2.43.0


From 55adc3771831df0a286252bb08476cb0b9f967d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:39 +0000
Subject: [PATCH 28/67] fix: packet gathers with a larger mask stack produced
 outputs of mismatched size

---
 src/op.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/op.cpp b/src/op.cpp
index 743f643..ca90306 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -2400,8 +2400,8 @@ void jitc_var_gather_packet(size_t n, uint32_t src_, uint32_t index, uint32_t ma
 
     for (size_t i = 0; i < n; ++i)
         out[i] = jitc_var_new_node_1(
-            src_info.backend, VarKind::Extract, src_info.type, var_info.size,
-            var_info.symbolic, gather_op, jitc_var(gather_op), i);
+            src_info.backend, VarKind::Extract, src_info.type,
+            (uint32_t) op_size, var_info.symbolic, gather_op, jitc_var(gather_op), i);
 
     jitc_log(Debug,
              "jit_var_gather_packet(): %s <base r%u>[%u] = r%u[r%u] "
-- 
2.43.0


From b87ad66acde4642f77da8fff38b77b7b10917783 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:39 +0000
Subject: [PATCH 29/67] fix: bounds check callback crashed when the mask was
 itself evaluated

---
 src/op.cpp | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/src/op.cpp b/src/op.cpp
index ca90306..76b1ce8 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -2021,6 +2021,12 @@ static uint32_t jitc_var_reindex(uint32_t var_index, uint32_t new_index,
     return result;
 }
 
+struct BoundsCheckData {
+    BoundsCheckType bct;
+    uint32_t size;
+    uint32_t buf;
+};
+
 uint32_t jitc_var_check_bounds(BoundsCheckType bct, uint32_t index,
                                uint32_t mask, uint32_t array_size) {
     // The generated code compares 32-bit integers
@@ -2043,24 +2049,32 @@ uint32_t jitc_var_check_bounds(BoundsCheckType bct, uint32_t index,
         info.symbolic, index, jitc_var(index), mask, jitc_var(mask), buffer_ptr,
         jitc_var(buffer_ptr), array_size | (((uint64_t) bct) << 32)));
 
+    // The node's operands and literal aren't accessible anymore if the mask
+    // itself was evaluated, hence the callback needs its own copy
+    BoundsCheckData *data =
+        new BoundsCheckData{ bct, array_size, buf.release() };
+
     jitc_var_set_callback(result,
-         [](uint32_t index, int free, void *) {
-             if (free)
-                 return;
+         [](uint32_t index, int free, void *p) {
+            BoundsCheckData *d = (BoundsCheckData *) p;
+            if (free) {
+                uint32_t buf = d->buf;
+                delete d;
+                jitc_var_dec_ref(buf);
+                return;
+            }
 
-            Variable *v = jitc_var(index);
             uint32_t captured = 0;
-            jitc_memcpy((JitBackend) v->backend, &captured,
-                        jitc_var(v->dep[2])->data, sizeof(uint32_t));
-            v = jitc_var(index);
+            jitc_memcpy((JitBackend) jitc_var(index)->backend, &captured,
+                        jitc_var(d->buf)->data, sizeof(uint32_t));
 
             const char *label = jitc_var_label(index);
             if (captured) {
                 const char *msg = nullptr;
                 const char *msg2 = " in an array of size";
-                uint32_t size = (uint32_t) v->literal;
+                uint32_t size = d->size;
 
-                switch ((BoundsCheckType) (v->literal >> 32)) {
+                switch (d->bct) {
                     case BoundsCheckType::Gather:
                         msg = "drjit.gather(): out-of-bounds read from position";
                         break;
@@ -2121,7 +2135,7 @@ uint32_t jitc_var_check_bounds(BoundsCheckType bct, uint32_t index,
                          label ? ")" : "");
             }
         },
-        nullptr, true);
+        data, true);
 
     return result.release();
 }
-- 
2.43.0


From e4912c9f54935e63924d29c19ded525f9f825595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:39 +0000
Subject: [PATCH 30/67] fix: functions with a single instance collided when
 merging is disabled

---
 src/eval.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eval.cpp b/src/eval.cpp
index ea25e80..4f0660e 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -1310,7 +1310,7 @@ XXH128_hash_t jitc_assemble_func(const CallData *call, uint32_t inst,
     if (jit_flag(JitFlag::MergeFunctions)) {
         kernel_hash = XXH128(buffer.get() + kernel_offset, kernel_length, 0);
     } else {
-        kernel_hash.low64 = indirect_callable_count;
+        kernel_hash.low64 = (uint64_t) globals_map.size();
         kernel_hash.high64 = 0;
     }
 
-- 
2.43.0


From 63d834214733b98297edd36803b4ee9e80ea75a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:39 +0000
Subject: [PATCH 31/67] fix: stale register indices leaked into subsequently
 assembled kernels

---
 src/eval.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/eval.cpp b/src/eval.cpp
index 4f0660e..9499cc7 100644
--- a/src/eval.cpp
+++ b/src/eval.cpp
@@ -1144,6 +1144,11 @@ void jitc_eval_impl(ThreadState *ts) {
     for (ScheduledGroup &group : schedule_groups) {
         jitc_assemble(ts, group);
         jitc_run(ts, group);
+
+        // A nonzero register index marks variables that are part of the kernel
+        // being assembled. Reset it so that it doesn't leak into the next one
+        for (uint32_t i = group.start; i != group.end; ++i)
+            jitc_var(schedule[i].index)->reg_index = 0;
     }
 
     // Subsequent kernel launches must be serialized wrt. the launches above.
-- 
2.43.0


From ce8d04f7944ae1323c6b7e15903ccddcb8a69e64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:40 +0000
Subject: [PATCH 32/67] fix: conditionals returning equal literals referenced
 branch-local variables

---
 src/cond.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/cond.cpp b/src/cond.cpp
index d23e516..7a66863 100644
--- a/src/cond.cpp
+++ b/src/cond.cpp
@@ -148,14 +148,23 @@ void jitc_var_cond_end(uint32_t index, uint32_t *rv_out) {
             continue;
         }
 
-        if (i_t == i_f || v_f->is_dirty() ||
-            (v_f->is_literal() && v_t->is_literal() && v_f->literal == v_t->literal)) {
+        if (i_t == i_f || v_f->is_dirty()) {
             jitc_var_inc_ref(i_f, v_f);
             rv_out[i] = i_f;
             cd->indices_out.emplace_back(0, 0);
             continue;
         }
 
+        if (v_f->is_literal() && v_t->is_literal() && v_f->literal == v_t->literal) {
+            // The literals may have been created within the branches, whose
+            // definitions aren't visible here. Create one in the current scope
+            uint64_t value = v_f->literal;
+            uint32_t size_l = std::max(v_t->size, v_f->size);
+            rv_out[i] = jitc_var_literal(backend, vt, &value, size_l, 0);
+            cd->indices_out.emplace_back(0, 0);
+            continue;
+        }
+
         uint32_t l1 = size, l2 = v_t->size, l3 = v_f->size,
                  lm = std::max(std::max(l1, l2), l3);
 
-- 
2.43.0


From 27d9335ea44c2f6d514fc67b2524c8737ac4829b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:40 +0000
Subject: [PATCH 33/67] fix: outputs of conditionals had the wrong size and
 symbolic flag

---
 src/cond.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/cond.cpp b/src/cond.cpp
index 7a66863..9539034 100644
--- a/src/cond.cpp
+++ b/src/cond.cpp
@@ -108,6 +108,7 @@ void jitc_var_cond_end(uint32_t index, uint32_t *rv_out) {
     v2.kind = (uint32_t) VarKind::CondOutput;
     v2.size = size;
     v2.backend = (uint32_t) backend;
+    v2.symbolic = symbolic;
     cd->indices_out.reserve(cd->indices_f.size());
 
     size_t variable_count_actual = 0,
@@ -133,7 +134,7 @@ void jitc_var_cond_end(uint32_t index, uint32_t *rv_out) {
             v3.backend = (uint32_t) backend;
             v3.type = (uint32_t) vt;
             v3.symbolic = symbolic;
-            v3.size = std::max(size, size);
+            v3.size = std::max(size, std::max(v_t->size, v_f->size));
             v3.array_state = (uint32_t) ArrayState::Clean;
             v3.array_length = v_f->array_length;
             v3.dep[0] = i_f;
@@ -181,6 +182,7 @@ void jitc_var_cond_end(uint32_t index, uint32_t *rv_out) {
         v2.dep[1] = i_f;
         v2.dep[2] = pred;
         v2.type = (uint32_t) vt;
+        v2.size = lm;
         jitc_var_inc_ref(i_t, v_t);
         jitc_var_inc_ref(i_f, v_f);
         jitc_var_inc_ref(pred);
-- 
2.43.0


From fa208ed4e96676f108858ac605d16a222211732b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:48 +0000
Subject: [PATCH 34/67] fix: conditionals ignored the outcome of a branch when
 the other one returned a variable with pending side effects

---
 src/cond.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/cond.cpp b/src/cond.cpp
index 9539034..2ba2242 100644
--- a/src/cond.cpp
+++ b/src/cond.cpp
@@ -100,6 +100,21 @@ void jitc_var_cond_end(uint32_t index, uint32_t *rv_out) {
     CondData *cd = (CondData *) v->data;
     uint32_t pred = cd->labels[1];
     JitBackend backend = (JitBackend) v->backend;
+
+    // Ensure that side effects preceding the conditional are fully processed.
+    // Variables that remain dirty were modified within one of the branches
+    bool dirty = false;
+    for (size_t i = 0; i < cd->indices_f.size(); ++i) {
+        uint32_t i_t = cd->indices_t[i], i_f = cd->indices_f[i];
+        dirty |= i_t != i_f && (jitc_var(i_t)->is_dirty() ||
+                                jitc_var(i_f)->is_dirty());
+    }
+
+    if (dirty && !thread_state(backend)->side_effects.empty()) {
+        jitc_eval(thread_state(backend));
+        v = jitc_var(index);
+    }
+
     uint32_t size = v->size;
     uint32_t i_cond = v->dep[0];
     bool symbolic = v->symbolic;
-- 
2.43.0


From 87cb76396d9a89f6a6607ba60dae0fd0daac9637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:48 +0000
Subject: [PATCH 35/67] fix: reads from variable arrays ignored the size and
 symbolic flag of the mask

---
 src/array.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/array.cpp b/src/array.cpp
index 4ab7c6e..6052eb9 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -118,8 +118,8 @@ uint32_t jitc_array_read(uint32_t source, uint32_t offset, uint32_t mask_) {
     if (vm->is_literal() && vm->literal == 0) {
         // Elide the read (it is fully masked)
         uint64_t zero = 0;
-        return jitc_var_literal(backend, (VarType) jitc_var(source)->type,
-                                &zero, 1, 0);
+        size_t size = std::max(std::max(vs->size, vo->size), vm->size);
+        return jitc_var_literal(backend, (VarType) vs->type, &zero, size, 0);
     } else if ((vo->is_literal() || vo->size == 1) &&
                (vm->kind == (uint32_t) VarKind::DefaultMask ||
                 vm->kind == (uint32_t) VarKind::CallMask)) {
@@ -159,7 +159,11 @@ uint32_t jitc_array_read(uint32_t source, uint32_t offset, uint32_t mask_) {
     #undef fail_if
 
     if ((flags & (uint32_t) JitFlag::SymbolicScope) == 0) {
-        if (vs->kind == (uint32_t) VarKind::ArrayInit) {
+        bool unmasked = vm->is_literal() ||
+                        vm->kind == (uint32_t) VarKind::DefaultMask;
+
+        if (vs->kind == (uint32_t) VarKind::ArrayInit && unmasked &&
+            jitc_var(vs->dep[1])->size == size) {
             jitc_var_inc_ref(vs->dep[1]);
             return vs->dep[1];
         } else if (vs->kind == (uint32_t) VarKind::Array) {
@@ -168,22 +172,25 @@ uint32_t jitc_array_read(uint32_t source, uint32_t offset, uint32_t mask_) {
         }
     }
 
-    if (vo->is_dirty()) {
+    if (vo->is_dirty() || vm->is_dirty()) {
         jitc_eval(thread_state((JitBackend) vs->backend));
 
         vs = jitc_var(source);
         vo = jitc_var(offset);
+        vm = jitc_var(mask);
 
         if (vo->is_dirty())
             jitc_raise_dirty_error(offset);
+        if (vm->is_dirty())
+            jitc_raise_dirty_error(mask);
     }
 
     Variable v;
     v.kind = (uint32_t) VarKind::ArrayRead;
     v.backend = vs->backend;
     v.type = vs->type;
-    v.size = std::max(vs->size, vo->size);
-    v.symbolic = vs->symbolic || vo->symbolic;
+    v.size = (uint32_t) size;
+    v.symbolic = vs->symbolic || vo->symbolic || vm->symbolic;
 
     v.dep[0] = source;
     jitc_var_inc_ref(source, vs);
-- 
2.43.0


From d1c17060c6633801d9b133fc848ce6b48c9bf54d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:54 +0000
Subject: [PATCH 36/67] fix: pending scatters to an expanded array were lost
 when it was reduced by another evaluation

---
 src/llvm_ts.cpp | 36 ++++++++++++++++++++++++++----------
 src/op.cpp      |  6 ++++++
 src/var.cpp     |  6 +++++-
 3 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/llvm_ts.cpp b/src/llvm_ts.cpp
index 1602999..3b0f46e 100644
--- a/src/llvm_ts.cpp
+++ b/src/llvm_ts.cpp
@@ -1006,25 +1006,39 @@ void LLVMThreadState::enqueue_host_func(void (*callback)(void *),
     }
 }
 
-using ReduceExpanded = void (*) (void *ptr, uint32_t start, uint32_t end, uint32_t exp, uint32_t size);
+using ReduceExpanded = void (*) (void *ptr, uint32_t start, uint32_t end, uint32_t exp, uint32_t size, uint64_t identity);
+
+// Accumulate the copies of an expanded array into the first one. This also
+// resets the other copies in case there are further scatters that were recorded
+// to the expanded array but not executed yet.
 
 template <typename Value, typename Op>
 static void reduce_expanded_impl(void *ptr_, uint32_t start, uint32_t end,
-                                 uint32_t exp, uint32_t size) {
-    Value *ptr = (Value *) ptr_;
+                                 uint32_t exp, uint32_t size,
+                                 uint64_t identity_) {
+    Value *ptr = (Value *) ptr_, identity;
     Op op;
 
+    memcpy((void *) &identity, &identity_, sizeof(Value));
+
     const uint32_t block = 128;
 
     uint32_t i = start;
     for (; i + block <= end; i += block)
         for (uint32_t j = 1; j < exp; ++j)
-            for (uint32_t k = 0; k < block; ++k)
-                ptr[i + k] = op(ptr[i + k], ptr[i + k + j * size]);
+            for (uint32_t k = 0; k < block; ++k) {
+                Value &src = ptr[i + k + j * size];
+                ptr[i + k] = op(ptr[i + k], src);
+                src = identity;
+            }
 
-    for (; i < end; i += 1)
-        for (uint32_t j = 1; j < exp; ++j)
-            ptr[i] = op(ptr[i], ptr[i + j * size]);
+    for (; i < end; i += 1) {
+        for (uint32_t j = 1; j < exp; ++j) {
+            Value &src = ptr[i + j * size];
+            ptr[i] = op(ptr[i], src);
+            src = identity;
+        }
+    }
 }
 
 template <typename Value>
@@ -1089,6 +1103,7 @@ void LLVMThreadState::reduce_expanded(VarType vt, ReduceOp op, void *ptr,
             red_name[(int) op], exp, size);
 
     ReduceExpanded kernel = reduce_expanded_create(vt, op);
+    uint64_t identity = jitc_reduce_identity(vt, op);
 
     uint32_t block_size = size, blocks = 1;
     if (pool_size() > 1) {
@@ -1099,9 +1114,10 @@ void LLVMThreadState::reduce_expanded(VarType vt, ReduceOp op, void *ptr,
     submit_cpu(
         KernelType::BlockReduce,
         this->recording_mode,
-        [ptr, block_size, exp, size, kernel](uint32_t index) {
+        [ptr, block_size, exp, size, kernel, identity](uint32_t index) {
             kernel(ptr, index * block_size,
-                   std::min((index + 1) * block_size, size), exp, size);
+                   std::min((index + 1) * block_size, size), exp, size,
+                   identity);
         },
 
         size, std::max(1u, blocks));
diff --git a/src/op.cpp b/src/op.cpp
index 76b1ce8..b3fce6e 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -2901,6 +2901,12 @@ jitc_var_infer_reduce_mode(const char *name, JitBackend backend, Ref &target,
     // Raise an error if the target array is currently stored in an expanded
     // form that isn't compatible with the operation to be performed.
     ReduceOp op_cur = jitc_var(target)->reduce_op();
+    if (op_cur != ReduceOp::Identity && !jitc_var(target)->is_dirty()) {
+        // There are no pending scatters, hence this form isn't needed anymore
+        jitc_var_reduce_expanded(target);
+        op_cur = jitc_var(target)->reduce_op();
+    }
+
     if (op_cur != ReduceOp::Identity && op_cur != op)
         jitc_raise(
             "%s(): it is not legal to mix different types of "
diff --git a/src/var.cpp b/src/var.cpp
index 622dbe7..09f51ed 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2995,7 +2995,11 @@ void jitc_var_reduce_expanded(uint32_t index) {
         size
     );
 
-    jitc_var(index)->set_reduce_op(ReduceOp::Identity);
+    // Keep the expanded representation while further scatters to it are pending.
+    // (e.g., recorded symbolically and not part of this evaluation)
+    v = jitc_var(index);
+    if (!v->is_dirty())
+        v->set_reduce_op(ReduceOp::Identity);
 }
 
 #if defined(DRJIT_ENABLE_METAL)
-- 
2.43.0


From c2c4ebdb82ed3b0d3825d5a95cceafd99ab0e5f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:47 +0000
Subject: [PATCH 37/67] fix: initializing or modifying an initialized variable
 array changed its older versions

---
 src/array.cpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/array.cpp b/src/array.cpp
index 6052eb9..b281152 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -67,6 +67,18 @@ uint32_t jitc_array_init(uint32_t target, uint32_t value) {
 
     #undef fail_if
 
+    // Initialization overwrites the storage of 'target', which is therefore
+    // only possible when nothing else refers to it.
+    Ref storage;
+    if (vt->kind != (uint32_t) VarKind::Array || vt->ref_count != 1) {
+        storage = steal(jitc_array_create(
+            (JitBackend) vt->backend, (VarType) vt->type,
+            std::max(vv->size, vt->size), vt->array_length));
+        target = storage;
+        vt = jitc_var(target);
+        vv = jitc_var(value);
+    }
+
     Variable v2;
     v2.size = (uint32_t) std::max(vv->size, vt->size);
     v2.kind = (uint32_t) VarKind::ArrayInit;
@@ -441,7 +453,8 @@ void jitc_process_array_op(VarKind kind, Variable *v) {
         jitc_raise("jit_process_array_op(): internal error! (2)");
 
     parent->array_state = (uint32_t) array_state;
-    if (parent->kind == (uint32_t) VarKind::ArrayWrite) {
+    if (parent->kind == (uint32_t) VarKind::ArrayWrite ||
+        parent->kind == (uint32_t) VarKind::ArrayInit) {
         Variable *buf = jitc_var(jitc_array_buffer(parent_id));
         buf->array_state = (uint32_t) array_state;
     }
-- 
2.43.0


From 71fba6a3a30b775c8e796edcf183817e574fee6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 38/67] fix: uniform accesses to variable arrays used the
 offset of inactive lanes

---
 src/array.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/array.cpp b/src/array.cpp
index b281152..a465db4 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -132,11 +132,14 @@ uint32_t jitc_array_read(uint32_t source, uint32_t offset, uint32_t mask_) {
         uint64_t zero = 0;
         size_t size = std::max(std::max(vs->size, vo->size), vm->size);
         return jitc_var_literal(backend, (VarType) vs->type, &zero, size, 0);
-    } else if ((vo->is_literal() || vo->size == 1) &&
+    } else if (vo->is_literal() &&
                (vm->kind == (uint32_t) VarKind::DefaultMask ||
                 vm->kind == (uint32_t) VarKind::CallMask)) {
         // When we know that the read is always from a uniform location, we
-        // can remove any default masking, which slightly improves code generation
+        // can remove any default masking, which slightly improves code
+        // generation. Besides literals, this is never the case: inactive lanes
+        // of a size-1 array may hold a different value (e.g. following a
+        // symbolic loop or conditional).
         uint64_t one = 1;
         mask = steal(jitc_var_literal(backend, VarType::Bool, &one, 1, 0));
     }
@@ -277,11 +280,14 @@ uint32_t jitc_array_write(uint32_t target, uint32_t offset, uint32_t value,
         // Elide the write (it is fully masked)
         jitc_var_inc_ref(target);
         return target;
-    } else if ((vo->is_literal() || vo->size == 1) &&
+    } else if (vo->is_literal() &&
                (vm->kind == (uint32_t) VarKind::DefaultMask ||
                 vm->kind == (uint32_t) VarKind::CallMask)) {
         // When we know that the write is always to a uniform location, we
-        // can remove any default masking, which slightly improves code generation
+        // can remove any default masking, which slightly improves code
+        // generation. Besides literals, this is never the case: inactive lanes
+        // of a size-1 array may hold a different value (e.g. following a
+        // symbolic loop or conditional).
         uint64_t one = 1;
         mask = steal(jitc_var_literal(backend, VarType::Bool, &one, 1, 0));
     }
-- 
2.43.0


From 3102b79b0c43f64875288333294cfbfe3483f0c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 39/67] fix: loop outputs that aren't part of a kernel obtained
 a register index

---
 src/llvm_eval.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/llvm_eval.cpp b/src/llvm_eval.cpp
index 0ed7474..0e895f2 100644
--- a/src/llvm_eval.cpp
+++ b/src/llvm_eval.cpp
@@ -1230,7 +1230,9 @@ static void jitc_llvm_render(Variable *v) {
                              *outer_out = jitc_var(ld->outer_out[l]);
                     fmt("    $v = phi $T [ $v, %l_$u_before ], [ $v, %l_$u_end ]\n",
                         v, v, outer_in, a0->reg_index, inner_out, a0->reg_index);
-                    if (outer_out && (VarKind) outer_out->kind == VarKind::LoopOutput)
+                    // Skip outputs that aren't part of this kernel
+                    if (outer_out && outer_out->reg_index &&
+                        (VarKind) outer_out->kind == VarKind::LoopOutput)
                         outer_out->reg_index = inner_in->reg_index;
                 }
             }
-- 
2.43.0


From 6e8e39da4cba0b82eeb0a5de5fd20860290b6a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:14 +0000
Subject: [PATCH 40/67] fix: modifying the array returned by a loop changed its
 older versions

---
 src/array.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/array.cpp b/src/array.cpp
index a465db4..839d874 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -460,8 +460,10 @@ void jitc_process_array_op(VarKind kind, Variable *v) {
 
     parent->array_state = (uint32_t) array_state;
     if (parent->kind == (uint32_t) VarKind::ArrayWrite ||
-        parent->kind == (uint32_t) VarKind::ArrayInit) {
+        parent->kind == (uint32_t) VarKind::ArrayInit ||
+        parent->kind == (uint32_t) VarKind::ArrayPhi) {
         Variable *buf = jitc_var(jitc_array_buffer(parent_id));
-        buf->array_state = (uint32_t) array_state;
+        if (buf->array_state != (uint32_t) ArrayState::Conflicted)
+            buf->array_state = (uint32_t) array_state;
     }
 }
-- 
2.43.0


From e9be5cf340bbe398548c52ed5f1c5c30c85ab5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:50 +0000
Subject: [PATCH 41/67] fix: replaying a recording with duplicate outputs
 created two owners of the same memory

---
 src/record_ts.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index 9a553b2..6b4b08c 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -166,6 +166,8 @@ struct ReplayVariable {
     size_t data_size = 0;
     uint32_t index;
     RecordedVarInit init;
+    // Index of the output variable that took ownership of this allocation
+    uint32_t output = 0;
 
     ReplayVariable(RecordedVariable &rv) : index(rv.index), init(rv.init) { }
 
@@ -454,8 +456,14 @@ int Recording::replay(const uint32_t *replay_inputs, uint32_t *replay_outputs) {
                          slot);
             if (!rv.data)
                 jitc_fail("replay(): freed slot %u used for output.", slot);
-            replay_outputs[i] = jitc_var_mem_map(backend, info.vtype, rv.data,
-                                          rv.size(info.vtype), true);
+
+            // The slot may occur several times, but its memory has one owner
+            if (rv.output)
+                jitc_var_inc_ref(rv.output);
+            else
+                rv.output = jitc_var_mem_map(backend, info.vtype, rv.data,
+                                             rv.size(info.vtype), true);
+            replay_outputs[i] = rv.output;
         }
     }
 
-- 
2.43.0


From 490e26349cb9d606427e54a93f1d4f1c4dd9d816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 42/67] fix: replaying a recording that returns an empty array
 failed

---
 src/record_ts.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index 6b4b08c..a44b11e 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -450,6 +450,9 @@ int Recording::replay(const uint32_t *replay_inputs, uint32_t *replay_outputs) {
             uint32_t var_index = replay_inputs[rv.index];
             jitc_var_inc_ref(var_index);
             replay_outputs[i] = var_index;
+        } else if (rv.data && rv.data_size == 0) {
+            // Empty array (e.g. produced by a compress operation)
+            replay_outputs[i] = 0;
         } else {
             if (log_debug)
                 jitc_log(LogLevel::Debug, "    output %u: from slot s%u", i,
@@ -473,7 +476,8 @@ int Recording::replay(const uint32_t *replay_inputs, uint32_t *replay_outputs) {
         uint32_t slot      = outputs[i].slot;
         ReplayVariable &rv = replay_variables[slot];
 
-        rv.data = nullptr;
+        if (rv.data_size)
+            rv.data = nullptr;
     }
 
     for (ReplayVariable &rv : replay_variables) {
-- 
2.43.0


From 0d2e17c92e6195bdf1f5914836baa809c9461a3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 43/67] fix: an error while recording the width of a variable
 leaked a variable

---
 src/record_ts.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index a44b11e..0844d8e 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -505,17 +505,21 @@ void RecordThreadState::barrier() {
 void RecordThreadState::notify_opaque_width(uint32_t index,
                                             uint32_t width_index) {
     if (!paused()) {
-        uint32_t start = (uint32_t) m_recording.dependencies.size();
-        Variable *v1   = jitc_var(index);
-        Variable *v2   = jitc_var(width_index);
-        add_in_param(v1->data, (VarType) v1->type);
-        add_out_param(v2->data, VarType::UInt32);
-        uint32_t end = (uint32_t) m_recording.dependencies.size();
+        try {
+            uint32_t start = (uint32_t) m_recording.dependencies.size();
+            Variable *v1   = jitc_var(index);
+            Variable *v2   = jitc_var(width_index);
+            add_in_param(v1->data, (VarType) v1->type);
+            add_out_param(v2->data, VarType::UInt32);
+            uint32_t end = (uint32_t) m_recording.dependencies.size();
 
-        Operation op;
-        op.type             = OpType::OpaqueWidth;
-        op.dependency_range = std::pair(start, end);
-        m_recording.operations.push_back(op);
+            Operation op;
+            op.type             = OpType::OpaqueWidth;
+            op.dependency_range = std::pair(start, end);
+            m_recording.operations.push_back(op);
+        } catch (...) {
+            record_exception();
+        }
     }
 }
 
-- 
2.43.0


From 709b5f64f39aa25870463da06bede11546fd1207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 44/67] fix: replay of any/all reductions ignored most of the
 partial results

---
 src/record_ts.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index 0844d8e..2c97037 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -1367,7 +1367,8 @@ int Recording::replay_block_reduce_bool(Operation &op) {
     ReplayVariable &in_var = replay_variables[in_info.slot];
     ReplayVariable &out_var = replay_variables[out_info.slot];
 
-    out_var.alloc(backend, 1, VarType::Bool);
+    // The operation produces four partial results
+    out_var.alloc(backend, 4, VarType::Bool);
 
     uint32_t size = in_var.size(VarType::Bool);
 
-- 
2.43.0


From e29f8ecbbb3fc83653302852b2c7f344b5e33a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 45/67] fix: replay aborted when a block reduction had an
 incomplete last block

---
 src/record_ts.cpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index 2c97037..fe40024 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -1743,15 +1743,8 @@ int Recording::replay_block_reduce(Operation &op) {
     if (op.input_size == op.size)
         block_size = size;
 
-    if ((size % block_size) != 0) {
-        if (dry_run)
-            return false;
-        jitc_fail("replay(): The size (%u) of the argument to a "
-                  "block_sum has to be divisible by the block_size (%u)!",
-                  size, block_size);
-    }
-
-    uint32_t output_size = size / block_size;
+    // The last block may be incomplete
+    uint32_t output_size = ceil_div(size, block_size);
 
     out_var.alloc(backend, output_size, out_info.vtype);
 
-- 
2.43.0


From da4d7a793ac86d3c398651d03bf689a97de72ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 46/67] fix: pending side effects were lost when a recording
 was stopped or aborted

---
 src/record_ts.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index fe40024..d7cc51b 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -2704,6 +2704,14 @@ static void jitc_record_ts_forget(ThreadState *rts) {
 struct RecordThreadStateGuard {
     RecordThreadState *rts;
     ~RecordThreadStateGuard() {
+        // Hand pending work over to the thread state that becomes active again
+        ThreadState *internal = rts->m_internal;
+        internal->scheduled.insert(internal->scheduled.end(),
+                                   rts->scheduled.begin(),
+                                   rts->scheduled.end());
+        internal->side_effects.insert(internal->side_effects.end(),
+                                      rts->side_effects.begin(),
+                                      rts->side_effects.end());
         jitc_record_ts_forget(rts);
         delete rts;
     }
-- 
2.43.0


From 2d260e0e1147c791d99bc55ffd6b50cc2ccc9021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 47/67] fix: errors about the outputs of a recording were
 ignored

---
 src/record_ts.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index d7cc51b..0f9bce3 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -2820,6 +2820,10 @@ Recording *jitc_freeze_stop(JitBackend backend, const uint32_t *outputs,
         for (uint32_t i = 0; i < n_outputs; ++i)
             rts->add_output(outputs[i]);
 
+        // Adding an output can fail as well
+        if (rts->m_exception)
+            std::rethrow_exception(rts->m_exception);
+
         Recording *recording = new Recording(std::move(rts->m_recording));
         try {
             recording->validate(scope);
-- 
2.43.0


From 8f259f5466e88278db5ee6782f1ef517ce7667a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:11 +0000
Subject: [PATCH 48/67] fix: a failing replay leaked memory

---
 src/record_ts.cpp | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/record_ts.cpp b/src/record_ts.cpp
index 0f9bce3..e9bc5ca 100644
--- a/src/record_ts.cpp
+++ b/src/record_ts.cpp
@@ -2935,6 +2935,17 @@ void jitc_freeze_replay(Recording *recording, const uint32_t *inputs,
     try {
         recording->replay(inputs, outputs);
     } catch (const std::exception &) {
+        // Release memory that was allocated by the incomplete replay
+        for (ReplayVariable &rv : replay_variables) {
+            if (rv.init != RecordedVarInit::None || !rv.data)
+                continue;
+            if (rv.output)
+                jitc_var_dec_ref(rv.output);
+            else
+                rv.free();
+        }
+        replay_variables.clear();
+
         if (record_kernel_history)
             tsr->recording_mode = KernelRecordingMode::Inactive;
         record_kernel_history = false;
-- 
2.43.0


From 4cec66344cad2397acf250c12054fd11252eac5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:56 +0000
Subject: [PATCH 49/67] fix: errors of jit_registry_put() and
 jit_registry_remove()

Registering a null pointer was silently accepted, and the removal of a
pointer that isn't registered aborted the process. Both are documented to
raise an exception.
---
 src/registry.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/registry.cpp b/src/registry.cpp
index 0aaaa26..adf3ff0 100644
--- a/src/registry.cpp
+++ b/src/registry.cpp
@@ -66,6 +66,10 @@ static Registry registry;
 uint32_t jitc_registry_put(const char *variant, const char *domain_name, void *ptr) {
     Registry &r = registry;
 
+    if (unlikely(!ptr))
+        jitc_raise("jit_registry_put(domain=\"%s\"): cannot register a null "
+                   "pointer!", domain_name);
+
     auto [it1, result1] =
         r.rev_map.try_emplace(ptr, ReverseKey{});
     if (unlikely(!result1))
@@ -113,10 +117,8 @@ void jitc_registry_remove(const void *ptr) {
     size_t ptr_hash = PointerHasher()(ptr);
 
     auto it = r.rev_map.find((void *) ptr, ptr_hash);
-    if (it == r.rev_map.end()) {
-        jitc_fail("jit_registry_remove(ptr=%p): pointer is not registered!", ptr);
-        return;
-    }
+    if (unlikely(it == r.rev_map.end()))
+        jitc_raise("jit_registry_remove(ptr=%p): pointer is not registered!", ptr);
 
     ReverseKey rk = it->second;
     r.rev_map.erase_fast(it);
-- 
2.43.0


From c3ff1f43bf516620d320c341f5e09821cc40eb38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:25 +0000
Subject: [PATCH 50/67] fix: removing registered pointers after jit_shutdown()

Instances that outlive jit_shutdown() kept referring to a registry domain
that no longer exists (or to an unrelated one created later on), and a
subsequent removal accessed memory out of bounds.
---
 src/registry.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/registry.cpp b/src/registry.cpp
index adf3ff0..0509ef7 100644
--- a/src/registry.cpp
+++ b/src/registry.cpp
@@ -252,8 +252,11 @@ void jitc_registry_shutdown() {
         if (!r.rev_map.empty()) {
             std::vector<size_t> leak_counts(r.domains.size(), 0);
 
-            for (const auto &entry : r.rev_map)
-                leak_counts.at(entry.second.domain_id)++;
+            for (const auto &entry : r.rev_map) {
+                // Skip instances that outlived a previous call to jit_shutdown()
+                if (entry.second.domain_id != UINT32_MAX)
+                    leak_counts.at(entry.second.domain_id)++;
+            }
 
             for (size_t i = 0; i < r.domains.size(); i++) {
                 if (leak_counts[i] > 0)
@@ -264,6 +267,10 @@ void jitc_registry_shutdown() {
         }
     }
 
+    // The remaining instances may still be removed following shutdown
+    for (auto it = r.rev_map.begin(); it != r.rev_map.end(); ++it)
+        it.value() = ReverseKey { UINT32_MAX, UINT32_MAX };
+
     r.domain_ids.clear();
     r.domains.clear();
 }
-- 
2.43.0


From 6a3627eca398080a7275249d94ec5ebbca21ab84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:32 +0000
Subject: [PATCH 51/67] fix: jit_event_destroy() crashed when called with a
 null pointer

---
 src/api.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/api.cpp b/src/api.cpp
index 546a5a9..4b2130f 100644
--- a/src/api.cpp
+++ b/src/api.cpp
@@ -2357,6 +2357,9 @@ JitEvent jit_event_create(JitBackend backend, int enable_timing) {
 }
 
 void jit_event_destroy(JitEvent event) {
+    if (!event)
+        return;
+
     lock_guard guard(state.lock);
 
     if (jit_flag(JitFlag::FreezingScope))
-- 
2.43.0


From c851ad85ae2523c5e000fdc7f595bb8664f2a448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 52/67] fix: a failed memory allocation affected the memory
 usage statistics

---
 src/malloc.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/malloc.cpp b/src/malloc.cpp
index 2bb01df..c5c3d5b 100644
--- a/src/malloc.cpp
+++ b/src/malloc.cpp
@@ -197,6 +197,11 @@ void* jitc_malloc(JitBackend backend, size_t size, bool shared) {
                 jitc_flush_malloc_cache(true);
         }
 
+        if (unlikely(!ptr))
+            jitc_raise("jit_malloc(): out of memory! Could not allocate %zu bytes "
+                       "(backend=%s, shared=%i).", size,
+                       jitc_backend_name(backend), (int) shared);
+
 #if defined(DRJIT_ENABLE_METAL)
         // Register metal buffer given that we're holding the JIT lock again
         if (metal_buf)
@@ -211,11 +216,6 @@ void* jitc_malloc(JitBackend backend, size_t size, bool shared) {
                      state.alloc_watermark[(int) backend]);
     }
 
-    if (unlikely(!ptr))
-        jitc_raise("jit_malloc(): out of memory! Could not allocate %zu bytes "
-                   "(backend=%s, shared=%i).", size,
-                   jitc_backend_name(backend), (int) shared);
-
     state.alloc_used.emplace((uintptr_t) ptr, ai);
     state.alloc_usage[(int) backend] += size;
 
-- 
2.43.0


From 4fceb786394466219d07c5e20a90f5b20a1c0fc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:55 +0000
Subject: [PATCH 53/67] fix: jit_malloc_migrate() did not update the peak
 memory usage

---
 src/malloc.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/malloc.cpp b/src/malloc.cpp
index c5c3d5b..60c7eb1 100644
--- a/src/malloc.cpp
+++ b/src/malloc.cpp
@@ -337,6 +337,9 @@ void* jitc_malloc_migrate(void *ptr, JitBackend dst_backend, int move) {
             state.alloc_usage[(int) dst_backend] += size;
             state.alloc_allocated[(int) src_backend] -= size;
             state.alloc_allocated[(int) dst_backend] += size;
+            state.alloc_watermark[(int) dst_backend] =
+                std::max(state.alloc_allocated[(int) dst_backend],
+                         state.alloc_watermark[(int) dst_backend]);
             it.value() = alloc_info_encode(size, dst_backend, 0, 0);
             return ptr;
         }
-- 
2.43.0


From 39c64c50e2631317c1a2e484dafb038e679dc43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:25 +0000
Subject: [PATCH 54/67] fix: shared memory released by a thread without LLVM
 state was leaked

---
 src/malloc.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/malloc.cpp b/src/malloc.cpp
index 60c7eb1..c442fa5 100644
--- a/src/malloc.cpp
+++ b/src/malloc.cpp
@@ -276,7 +276,12 @@ void jitc_free(void *ptr) {
 #if defined(DRJIT_ENABLE_METAL)
         case JitBackend::Metal: ts = tl.ts_metal; break;
 #endif
-        case JitBackend::LLVM: ts = tl.ts_llvm; break;
+        case JitBackend::LLVM:
+            ts = tl.ts_llvm;
+            // The calling thread might not have used this backend before
+            if (!ts && shared && (state.backends & (1u << (uint32_t) backend)))
+                ts = thread_state(backend);
+            break;
         default: break;
     }
 
-- 
2.43.0


From dbe670701f85b09ee9018d684a65807b4ae32dda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 55/67] fix: jit_array_init() did not wait for pending writes
 to its value

---
 src/array.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/array.cpp b/src/array.cpp
index 839d874..871747b 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -67,6 +67,16 @@ uint32_t jitc_array_init(uint32_t target, uint32_t value) {
 
     #undef fail_if
 
+    if (vv->is_dirty()) {
+        jitc_eval(thread_state(vv->backend));
+
+        vt = jitc_var(target);
+        vv = jitc_var(value);
+
+        if (vv->is_dirty())
+            jitc_raise_dirty_error(value);
+    }
+
     // Initialization overwrites the storage of 'target', which is therefore
     // only possible when nothing else refers to it.
     Ref storage;
-- 
2.43.0


From ad19484950b77b72d1f0f824e93297f4eff35b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:23 +0000
Subject: [PATCH 56/67] fix: arrays holding symbolic values or written at
 symbolic offsets were not marked as symbolic

---
 src/array.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/array.cpp b/src/array.cpp
index 871747b..d666ca6 100644
--- a/src/array.cpp
+++ b/src/array.cpp
@@ -96,6 +96,7 @@ uint32_t jitc_array_init(uint32_t target, uint32_t value) {
     v2.type = (uint32_t) vv->type;
     v2.array_state = (uint32_t) ArrayState::Clean;
     v2.array_length = (uint16_t) vt->array_length;
+    v2.symbolic = vt->symbolic || vv->symbolic;
     v2.dep[0] = target;
     v2.dep[1] = value;
     jitc_var_inc_ref(target, vt);
@@ -370,7 +371,7 @@ uint32_t jitc_array_write(uint32_t target, uint32_t offset, uint32_t value,
     v.size = size;
     v.array_state = (uint32_t) ArrayState::Clean;
     v.array_length = array_length;
-    v.symbolic = vt->symbolic || vv->symbolic || vm->symbolic;
+    v.symbolic = vt->symbolic || vv->symbolic || vm->symbolic || vo->symbolic;
     v.dep[0] = target;
     jitc_var_inc_ref(target, vt);
     v.dep[1] = value;
-- 
2.43.0


From 2f892e7351aa3636cfc6481528e110028732a88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 57/67] fix: synchronizing with other threads temporarily
 swapped out their state

---
 src/init.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/init.cpp b/src/init.cpp
index fdd3aef..1ce4613 100644
--- a/src/init.cpp
+++ b/src/init.cpp
@@ -23,6 +23,7 @@
 #include "var.h"
 #include "profile.h"
 #include "strbuf.h"
+#include <optional>
 #include <sys/stat.h>
 
 #include "nvtx_api.h"
@@ -538,9 +539,13 @@ void jitc_sync_thread(ThreadState *ts) {
          *
          * However we don't want the ThreadState dynamic internal
          * variables (e.g. scheduled, side_effects, mask_stack) to
-         * be shared across these tasks
+         * be shared across these tasks. Note that 'ts' could belong to
+         * another thread, whose state must remain untouched.
          */
-        scoped_reset_thread_state ts_guard(ts);
+        ThreadState *ts_self = jitc_thread_local().ts_llvm;
+        std::optional<scoped_reset_thread_state> ts_guard;
+        if (ts_self)
+            ts_guard.emplace(ts_self);
         {
             unlock_guard guard(state.lock);
             task_wait(task);
-- 
2.43.0


From c56629274175920d9ef5c425d0ca2c36037c46b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:19 +0000
Subject: [PATCH 58/67] fix: memory released while a thread waited was leaked
 or freed twice

---
 src/internal.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/internal.h b/src/internal.h
index 2564814..01252a2 100644
--- a/src/internal.h
+++ b/src/internal.h
@@ -1033,6 +1033,9 @@ public:
     }
 
     ~scoped_reset_thread_state() {
+        // Keep memory that was released in the meantime
+        cached_ts.free_later = std::move(ts->free_later);
+        cached_ts.free_next = std::move(ts->free_next);
         *ts = std::move(cached_ts);
     }
     scoped_reset_thread_state(const scoped_reset_thread_state &) = delete;
-- 
2.43.0


From c89918c02b8771efe13dfd8d0611a74c12e44423 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:37 +0000
Subject: [PATCH 59/67] fix: jit_flush_kernel_cache() hung on threads that had
 not used the LLVM backend

---
 src/io.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/io.cpp b/src/io.cpp
index 56a7f82..bf916fe 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -684,9 +684,10 @@ void jitc_kernel_free(int device_id, const Kernel &kernel) {
 }
 
 void jitc_flush_kernel_cache() {
-    // Drain in-flight work first
+    // Drain in-flight work first. It may have been submitted by other threads,
+    // and the calling thread does not necessarily have a thread state.
     do {
-        jitc_sync_thread();
+        jitc_sync_all_devices();
     } while (jitc_task);
 
     jitc_log(Info, "jit_flush_kernel_cache(): releasing %zu kernel%s ..",
-- 
2.43.0


From 1b88f7096366a1b344df205df290dc970ab065fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:47 +0000
Subject: [PATCH 60/67] fix: arguments of a call that are also captured by a
 callable caused invalid IR

---
 src/call.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/call.cpp b/src/call.cpp
index 7ca8b53..f6f594c 100644
--- a/src/call.cpp
+++ b/src/call.cpp
@@ -942,6 +942,11 @@ void jitc_var_call_assemble(CallData *call, uint32_t call_reg,
     alloca_size = alloca_size_backup;
     alloca_align = alloca_align_backup;
 
+    // Variables that are both captured and passed as an argument (or part of
+    // several callables) lost their register index, which is needed below
+    for (const JitBackupRecord &b : backup)
+        jitc_var(b.sv.index)->reg_index = b.reg_index;
+
     if (jitc_is_llvm(call->backend))
         jitc_var_call_assemble_llvm(call, call_reg, self_reg, mask_reg,
                                     out_size, out_align);
-- 
2.43.0


From fedadd80a42b6e7d007bf32c7e4817f0f99b0404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:35:10 +0000
Subject: [PATCH 61/67] fix: jit_flush_kernel_cache() could release kernels
 that another thread is about to run

---
 src/io.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/io.cpp b/src/io.cpp
index bf916fe..b433c40 100644
--- a/src/io.cpp
+++ b/src/io.cpp
@@ -14,6 +14,7 @@
 #include "cuda.h"
 #include "optix.h"
 #include "resources/kernels.h"
+#include <optional>
 #include <stdio.h>
 #include <stdlib.h>
 #include <errno.h>
@@ -685,9 +686,16 @@ void jitc_kernel_free(int device_id, const Kernel &kernel) {
 
 void jitc_flush_kernel_cache() {
     // Drain in-flight work first. It may have been submitted by other threads,
-    // and the calling thread does not necessarily have a thread state.
+    // and the calling thread does not necessarily have a thread state. Another
+    // thread could also be in the middle of jitc_eval(), having launched kernels
+    // that are not part of 'jitc_task' yet. The 'eval_lock' excludes this.
+    std::optional<lock_guard> guard;
     do {
+        guard.reset();
         jitc_sync_all_devices();
+        lock_release(state.lock);
+        guard.emplace(state.eval_lock);
+        lock_acquire(state.lock);
     } while (jitc_task);
 
     jitc_log(Info, "jit_flush_kernel_cache(): releasing %zu kernel%s ..",
-- 
2.43.0


From cde14f171c8c5f84faeb5a0f516c5668bde62a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:21 +0000
Subject: [PATCH 62/67] fix: work submitted by other threads could be lost
 while waiting for a blocking launch

---
 src/llvm_ts.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/llvm_ts.cpp b/src/llvm_ts.cpp
index 3b0f46e..687cfbf 100644
--- a/src/llvm_ts.cpp
+++ b/src/llvm_ts.cpp
@@ -24,11 +24,6 @@ static void submit_cpu(KernelType type, KernelRecordingMode recording_mode,
         [](uint32_t index, void *payload) { ((Payload *) payload)->f(index); },
         &payload, sizeof(Payload), nullptr, 0);
 
-    if (unlikely(jit_flag(JitFlag::LaunchBlocking))) {
-        unlock_guard guard(state.lock);
-        task_wait(new_task);
-    }
-
     if (unlikely(jit_flag(JitFlag::KernelHistory))) {
         KernelHistoryEntry entry = {};
         entry.backend = JitBackend::LLVM;
@@ -44,6 +39,13 @@ static void submit_cpu(KernelType type, KernelRecordingMode recording_mode,
 
     task_release(jitc_task);
     jitc_task = new_task;
+
+    // Other threads may submit work while waiting: do this at the very end
+    if (unlikely(jit_flag(JitFlag::LaunchBlocking))) {
+        task_retain(new_task);
+        unlock_guard guard(state.lock);
+        task_wait_and_release(new_task);
+    }
 }
 
 /// Temporary scratch space for scheduled tasks
-- 
2.43.0


From 27acd3733013c1064a52911cc7aebec297dbc9f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:37 +0000
Subject: [PATCH 63/67] fix: jit_var_whos() failed while another thread
 compiled a kernel with calls

---
 src/var.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/var.cpp b/src/var.cpp
index 09f51ed..2b8d531 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -3117,7 +3117,10 @@ const char *jitc_var_whos() {
             var_buffer.put("const.     ");
         } else if (v.is_evaluated()) {
             auto it = state.alloc_used.find((uintptr_t) v.data);
-            if (unlikely(it == state.alloc_used.end())) {
+            if (!v.data) {
+                // Call data of a kernel that another thread is compiling
+                var_buffer.put("pending    ");
+            } else if (unlikely(it == state.alloc_used.end())) {
                 if (!v.retain_data)
                     jitc_raise("jit_var_whos(): Cannot resolve pointer to actual allocation!");
                 else
-- 
2.43.0


From 98a24946a1abc195facc30436133ecfc31ea3a53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:39 +0000
Subject: [PATCH 64/67] fix: atomic scatters whose operand is the target itself
 aborted the process

---
 src/op.cpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/op.cpp b/src/op.cpp
index b3fce6e..10a375b 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -2468,10 +2468,15 @@ uint32_t jitc_var_scatter_inc(uint32_t *target_p, uint32_t index, uint32_t mask)
     uint32_t flags = jitc_flags();
     var_info.symbolic |= (flags & (uint32_t) JitFlag::SymbolicScope) != 0;
 
-    // Copy-on-Write logic. See the same line in jitc_var_scatter() for details
+    // Copy-on-Write logic. See the same line in jitc_var_scatter() for details.
+    // The previous target may itself be an operand and is kept until the end
+    Ref prev;
     if ((target_v->ref_count != 2 && target_v->ref_count_stashed != 1) ||
-        jitc_var_is_shared_view(target_v))
+        index == target || mask == target ||
+        jitc_var_is_shared_view(target_v)) {
+        prev = borrow(target);
         target = steal(jitc_var_copy(target));
+    }
 
     void *target_addr = nullptr;
     target = steal(jitc_var_data(target, false, &target_addr));
@@ -2589,9 +2594,13 @@ uint32_t jitc_var_scatter_exch(uint32_t *target_p, uint32_t value,
         return jitc_make_zero(var_info);
     }
 
-    // Copy-on-Write logic. See the same line in jitc_var_scatter() for details
+    // Copy-on-Write logic. See the same line in jitc_var_scatter() for details.
+    // The previous target may itself be an operand and is kept until the end
+    Ref prev;
     if ((target_v->ref_count != 2 && target_v->ref_count_stashed != 1) ||
+        value == target || index == target || mask == target ||
         jitc_var_is_shared_view(target_v)) {
+        prev = borrow(target);
         target = steal(jitc_var_copy(target));
         target_v = jitc_var(target);
     }
@@ -2710,9 +2719,13 @@ void jitc_var_scatter_cas(uint32_t *target_p, uint32_t compare, uint32_t value,
         return;
     }
 
-    // Copy-on-Write logic. See the same line in jitc_var_scatter() for details
+    // Copy-on-Write logic. See the same line in jitc_var_scatter() for details.
+    // The previous target may itself be an operand and is kept until the end
+    Ref prev;
     if ((target_v->ref_count != 2 && target_v->ref_count_stashed != 1) ||
-        jitc_var_is_shared_view(target_v)) {
+        compare == target || value == target || index == target ||
+        mask == target || jitc_var_is_shared_view(target_v)) {
+        prev = borrow(target);
         target = steal(jitc_var_copy(target));
         target_v = jitc_var(target);
     }
@@ -3071,7 +3084,9 @@ uint32_t jitc_var_scatter(uint32_t target_, uint32_t value, uint32_t index_,
         target_v = jitc_var(target);
     }
 
+    // The operation must also not overwrite one of its own operands.
     if ((target_v->ref_count > 2 && target_v->ref_count_stashed != 1) ||
+        value == target || mask == target ||
         jitc_var_is_shared_view(target_v))
         target = steal(jitc_var_copy(target));
 
-- 
2.43.0


From 20ea0596df4d1d4b35d268f6daab32b339a848da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:35 +0000
Subject: [PATCH 65/67] fix: refused requests leaked variables and memory

jit_var_any_async()/all_async() allocated before the evaluation that may be
refused, jit_var_cond_append() created a node before checking its arguments,
jit_var_cond_end() kept the outputs created before an uninitialized one (and
failed to inspect it), and jit_var_set_label() lost the copy of a shared
variable when the label was invalid.
---
 src/api.cpp  |  4 ++--
 src/cond.cpp | 14 +++++++++-----
 src/var.cpp  |  8 ++++----
 3 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/src/api.cpp b/src/api.cpp
index 4b2130f..da958ca 100644
--- a/src/api.cpp
+++ b/src/api.cpp
@@ -1102,9 +1102,9 @@ uint32_t jit_var_set_label(uint32_t index, size_t argc, ...) {
         jitc_var_inc_ref(index, v);
         return index;
     } else {
-        uint32_t result = jitc_var_copy(index);
+        Ref result = steal(jitc_var_copy(index));
         jitc_var_set_label(result, label);
-        return result;
+        return result.release();
     }
 }
 
diff --git a/src/cond.cpp b/src/cond.cpp
index 2ba2242..15f4a80 100644
--- a/src/cond.cpp
+++ b/src/cond.cpp
@@ -57,6 +57,9 @@ uint32_t jitc_var_cond_append(uint32_t index, const uint32_t *rv, size_t count)
     CondData *cd = (CondData *) v->data;
     JitBackend backend = (JitBackend) v->backend;
 
+    if (cd->labels[0] && !cd->labels[1] && count != cd->indices_t.size())
+        jitc_raise("jitc_var_cond_append(): inconsistent number of return values!");
+
     Variable v2;
     v2.kind = (uint32_t) (cd->labels[0] ? VarKind::CondEnd : VarKind::CondMid);
     v2.type = (uint32_t) VarType::Void;
@@ -82,8 +85,6 @@ uint32_t jitc_var_cond_append(uint32_t index, const uint32_t *rv, size_t count)
         se.resize(se.size() - se_count);
     } else if (!cd->labels[1]) {
         cd->labels[1] = index_2;
-        if (count != cd->indices_t.size())
-            jitc_raise("jitc_var_cond_append(): inconsistent number of return values!");
         cd->indices_f = std::vector<uint32_t>(rv, rv + count);
         for (uint32_t index_f: cd->indices_f)
             jitc_var_inc_ref(index_f);
@@ -106,8 +107,8 @@ void jitc_var_cond_end(uint32_t index, uint32_t *rv_out) {
     bool dirty = false;
     for (size_t i = 0; i < cd->indices_f.size(); ++i) {
         uint32_t i_t = cd->indices_t[i], i_f = cd->indices_f[i];
-        dirty |= i_t != i_f && (jitc_var(i_t)->is_dirty() ||
-                                jitc_var(i_f)->is_dirty());
+        dirty |= i_t && i_f && i_t != i_f && (jitc_var(i_t)->is_dirty() ||
+                                              jitc_var(i_f)->is_dirty());
     }
 
     if (dirty && !thread_state(backend)->side_effects.empty()) {
@@ -132,10 +133,13 @@ void jitc_var_cond_end(uint32_t index, uint32_t *rv_out) {
 
     for (size_t i = 0; i < cd->indices_t.size(); ++i) {
         uint32_t i_t = cd->indices_t[i], i_f = cd->indices_f[i];
-        if (i_t == 0 || i_f == 0)
+        if (i_t == 0 || i_f == 0) {
+            for (size_t j = 0; j < i; ++j)
+                jitc_var_dec_ref(rv_out[j]);
             jitc_raise("jit_var_cond(): return variable %zu is "
                        "uninitialized/partially initialized (r%u, r%u).",
                        i, i_t, i_f);
+        }
 
         Variable *v_t = jitc_var(i_t),
                  *v_f = jitc_var(i_f);
diff --git a/src/var.cpp b/src/var.cpp
index 2b8d531..3fa4433 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2339,11 +2339,11 @@ uint32_t jitc_var_any_async(JitBackend backend, uint32_t index) {
     if (v->kind == (uint32_t) VarKind::DefaultMask)
         return jitc_var_bool(backend, true);
 
-    uint8_t *mem = (uint8_t *) jitc_malloc(backend, 4);
-
     jitc_var_eval(index);
     v = jitc_var(index);
 
+    uint8_t *mem = (uint8_t *) jitc_malloc(backend, 4);
+
     jitc_any_async(backend, (uint8_t *) v->data, v->size, mem);
 
     return jitc_var_mem_map(backend, VarType::Bool, mem, 1, 1);
@@ -2380,11 +2380,11 @@ uint32_t jitc_var_all_async(JitBackend backend, uint32_t index) {
     if (v->is_literal())
         return jitc_var_bool(backend, (bool) v->literal);
 
-    uint8_t *mem = (uint8_t *) jitc_malloc(backend, 4);
-
     jitc_var_eval(index);
     v = jitc_var(index);
 
+    uint8_t *mem = (uint8_t *) jitc_malloc(backend, 4);
+
     jitc_all_async(backend, (uint8_t *) v->data, v->size, mem);
 
     return jitc_var_mem_map(backend, VarType::Bool, mem, 1, 1);
-- 
2.43.0


From e9593ab442e309ebc19437850bd785fb45aaa922 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:37 +0000
Subject: [PATCH 66/67] fix: symbolic loops gathered from outdated contents of
 modified state variables

A gather from a loop state variable accesses the array that was passed into the
loop. This is correct as long as the loop does not change it, but was also done
for state variables that are changed by the loop, producing wrong results.
Scalars and identity gathers now use the state variable itself, and other
combinations are refused when the recording of the loop ends.
---
 src/loop.cpp | 12 ++++++++++++
 src/loop.h   |  4 ++++
 src/op.cpp   | 39 ++++++++++++++++++++++++++-------------
 3 files changed, 42 insertions(+), 13 deletions(-)

diff --git a/src/loop.cpp b/src/loop.cpp
index 3f27f1d..28d7e6f 100644
--- a/src/loop.cpp
+++ b/src/loop.cpp
@@ -246,6 +246,8 @@ bool jitc_var_loop_end(uint32_t loop, uint32_t cond, uint32_t *indices, uint32_t
                 jitc_var_dec_ref(index);
             }
 
+            for (size_t i = 0; i < ld->size; ++i)
+                ld->gathered[i] = false;
             ld->retry = true;
             return false;
         }
@@ -270,6 +272,16 @@ bool jitc_var_loop_end(uint32_t loop, uint32_t cond, uint32_t *indices, uint32_t
                 jitc_var_inc_ref(index);
                 new_index = index;
             } else if (ld->inner_in[i] != ld->outer_in[i]) {
+                // The gather accessed the contents preceding the loop
+                const Variable *v0 = jitc_var(ld->outer_in[i]);
+                if (ld->gathered[i] && index != ld->inner_in[i] &&
+                    !(v2->is_literal() && v0->is_literal() && v2->literal == v0->literal))
+                    jitc_raise(
+                        "jit_var_loop_end(): loop state variable %zu (r%u) is "
+                        "the source of a gather operation, but it is modified "
+                        "by the loop. This is not supported by symbolic loops",
+                        i, index);
+
                 if (v2->size != size && size != 1 && v2->size != 1)
                     jitc_raise(
                         "jit_var_loop_end(): loop state variable %zu (r%u) has "
diff --git a/src/loop.h b/src/loop.h
index b494998..97babcd 100644
--- a/src/loop.h
+++ b/src/loop.h
@@ -9,6 +9,8 @@ struct LoopData {
     drjit::vector<uint32_t> inner_in;
     drjit::vector<uint32_t> inner_out;
     drjit::vector<WeakRef> outer_out;
+    /// State variables that were the source of a gather within the loop
+    drjit::vector<bool> gathered;
     bool symbolic;
     bool retry;
 
@@ -19,6 +21,8 @@ struct LoopData {
         inner_in.reserve(size);
         inner_out.reserve(size);
         outer_out.reserve(size);
+        for (size_t i = 0; i < size; ++i)
+            gathered.push_back(false);
     }
 
     ~LoopData() {
diff --git a/src/op.cpp b/src/op.cpp
index 10a375b..ce2bc9e 100644
--- a/src/op.cpp
+++ b/src/op.cpp
@@ -9,6 +9,7 @@
 #include "util.h"
 #include "op.h"
 #include "array.h"
+#include "loop.h"
 #if defined(DRJIT_ENABLE_METAL)
 #  include "metal.h"
 #endif
@@ -2140,15 +2141,20 @@ uint32_t jitc_var_check_bounds(BoundsCheckType bct, uint32_t index,
     return result.release();
 }
 
-static void unwrap(Ref &index, Variable *&v) {
-    while (true) {
-        if (v->kind == (uint32_t) VarKind::LoopPhi) {
-            index = borrow(v->dep[3]);
-            v = jitc_var(index);
-        } else {
-            break;
+// Go to the original if a variable is wrapped into loop state variable(s)
+static uint32_t unwrap(uint32_t index, bool gathered) {
+    Variable *v = jitc_var(index);
+    while (v->kind == (uint32_t) VarKind::LoopPhi) {
+        if (gathered) {
+            // The loop may not change the variable in this case
+            LoopData *ld = (LoopData *) jitc_var(v->dep[0])->data;
+            if (ld)
+                ld->gathered[(size_t) v->literal] = true;
         }
+        index = v->dep[3];
+        v = jitc_var(index);
     }
+    return index;
 }
 
 uint32_t jitc_var_gather(uint32_t src_, uint32_t index, uint32_t mask) {
@@ -2167,7 +2173,8 @@ uint32_t jitc_var_gather(uint32_t src_, uint32_t index, uint32_t mask) {
         jitc_var_check("jit_var_gather", index, mask);
 
     // Go to the original if 'src' is wrapped into a loop state variable
-    unwrap(src, src_v);
+    src = borrow(unwrap(src_, false));
+    src_v = jitc_var(src);
 
     uint32_t result = 0, ptr = 0;
     const char *msg = "";
@@ -2206,9 +2213,9 @@ uint32_t jitc_var_gather(uint32_t src_, uint32_t index, uint32_t mask) {
 
     // If the source is scalar we can just resize it
     if (!result && src_v->size == 1) {
-        // Temporarily hold an extra reference to prevent 'jitc_var_resize' from changing 'src'
-        Ref unused = borrow(src);
-        Ref tmp = steal(jitc_var_resize(src, var_info.size));
+        // Temporarily hold an extra reference to prevent 'jitc_var_resize' from changing 'src_'
+        Ref unused = borrow(src_);
+        Ref tmp = steal(jitc_var_resize(src_, var_info.size));
         result = jitc_var_and(tmp, mask);
         msg = " [elided, scalar source]";
     }
@@ -2218,11 +2225,14 @@ uint32_t jitc_var_gather(uint32_t src_, uint32_t index, uint32_t mask) {
         src_v = jitc_var(src);
         if ((VarKind) index_v->kind == VarKind::Counter &&
             index_v->size == src_v->size) {
-            result = jitc_var_and(src, mask);
+            result = jitc_var_and(src_, mask);
             msg = " [elided, identity gather]";
         }
     }
 
+    if (!result)
+        unwrap(src_, true);
+
     // Don't perform the gather operation if the inputs are trivial / can be re-indexed
     if (!result) {
         Ref index_2 = steal(jitc_var_cast(index, VarType::UInt32, 0));
@@ -2328,7 +2338,8 @@ void jitc_var_gather_packet(size_t n, uint32_t src_, uint32_t index, uint32_t ma
                    "divisible by %zu!", (uint32_t) src, src_info.size, n);
 
     // Go to the original if 'src' is wrapped into a loop state variable
-    unwrap(src, src_v);
+    src = borrow(unwrap(src_, false));
+    src_v = jitc_var(src);
 
     uint32_t flags = jitc_flags();
 
@@ -2349,6 +2360,8 @@ void jitc_var_gather_packet(size_t n, uint32_t src_, uint32_t index, uint32_t ma
         return;
     }
 
+    unwrap(src_, true);
+
     // Compute the maximum supported packet size. We assume, that the backends
     // support any packet size equal to a power of two smaller than
     // this size.
-- 
2.43.0


From 79f19e06b03737d7f34550ce32241144097f3d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:37 +0000
Subject: [PATCH 67/67] fix: literal masks on the mask stack enabled padding
 lanes

---
 src/var.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/var.cpp b/src/var.cpp
index 3fa4433..5c99591 100644
--- a/src/var.cpp
+++ b/src/var.cpp
@@ -2260,9 +2260,9 @@ uint32_t jitc_var_mask_apply(uint32_t index, uint32_t size) {
         Ref default_mask = steal(jitc_var_mask_default(backend, size));
         if (!mask) {
             mask = borrow(default_mask);
-        } else if (jitc_var(mask)->is_evaluated()) {
-            // Scalar evaluated parameters get broadcasted, and the padding of
-            // evaluated arrays is undefined. Re-apply the default mask
+        } else if (jitc_var(mask)->is_evaluated() || jitc_var(mask)->is_literal()) {
+            // Literals and scalar evaluated parameters get broadcasted, and the
+            // padding of evaluated arrays is undefined. Re-apply the default mask
             mask = steal(jitc_var_and(mask, default_mask));
         }
     }
-- 
2.43.0

