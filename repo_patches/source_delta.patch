From 5f9e98ffe1db06fcd8109280df59fab50dbd672f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:11 +0000
Subject: [PATCH 01/37] fix: do not trap on INT_MIN divided by -1

---
 source/lib_compiler/optimize.cpp | 5 +++--
 source/lib_compiler/sema.cpp     | 5 +++--
 source/lib_vm/thread.cpp         | 6 ++++--
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/source/lib_compiler/optimize.cpp b/source/lib_compiler/optimize.cpp
index 957198a..37d618f 100644
--- a/source/lib_compiler/optimize.cpp
+++ b/source/lib_compiler/optimize.cpp
@@ -291,8 +291,9 @@ protected:
       case TOK_LT:  v = a <  b; break;
       case TOK_GT:  v = a >  b; break;
       case TOK_EQ:  v = a == b; break;
-      case TOK_DIV: v = a /  b; break;
-      case TOK_MOD: v = a %  b; break;
+      // note: INT_MIN / -1 would trap, so match the runtime and wrap
+      case TOK_DIV: v = (b == -1) ? int32_t(0u - uint32_t(a)) : (a / b); break;
+      case TOK_MOD: v = (b == -1) ? 0 : (a % b); break;
       default: assert(!"unknown operator");
       }
       val_[o] = v;
diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 32a0d6f..6bb36b6 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -137,8 +137,9 @@ protected:
     case TOK_LT:      return a <  b;
     case TOK_GT:      return a >  b;
     case TOK_EQ:      return a == b;
-    case TOK_DIV:     return a /  b;
-    case TOK_MOD:     return a %  b;
+    // note: INT_MIN / -1 would trap, so match the runtime and wrap
+    case TOK_DIV:     return (b == -1) ? int32_t(0u - uint32_t(a)) : (a / b);
+    case TOK_MOD:     return (b == -1) ? 0 : (a % b);
     default:
       assert(!"unknown operator");
     }
diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 6208816..1678256 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -196,7 +196,8 @@ void thread_t::do_INS_DIV_() {
     if (r->v == 0) {
       set_error_(thread_error_t::e_bad_divide_by_zero);
     } else {
-      const int32_t o = l->v / r->v;
+      // note: INT_MIN / -1 would trap, so wrap like the other operators
+      const int32_t o = (r->v == -1) ? int32_t(0u - uint32_t(l->v)) : (l->v / r->v);
       stack_.push_int(o);
     }
     return;
@@ -223,7 +224,8 @@ void thread_t::do_INS_MOD_() {
     if (r->v == 0) {
       set_error_(thread_error_t::e_bad_divide_by_zero);
     } else {
-      const int32_t o = l->v % r->v;
+      // note: INT_MIN % -1 would trap, the remainder is always zero
+      const int32_t o = (r->v == -1) ? 0 : (l->v % r->v);
       stack_.push_int(o);
     }
     return;
-- 
2.43.0


From 67031a8c9faf1517f38692afbed25c9c8f760cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:11 +0000
Subject: [PATCH 02/37] fix: string concatenation must not truncate its
 operands Operands were formatted into a 16 byte buffer and values without a
 textual form aborted the host.

---
 source/lib_vm/thread.cpp | 37 ++++++++++++++++++++-----------------
 1 file changed, 20 insertions(+), 17 deletions(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 1678256..d4996df 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -1,5 +1,6 @@
 #include <climits>
 #include <cstring>
+#include <string>
 
 #include "thread.h"
 #include "program.h"
@@ -32,25 +33,30 @@ namespace nano {
 
 namespace {
 
-bool to_string(char *buf, size_t size, const value_t *val) {
+bool to_string(std::string &out, const value_t *val) {
+  // note: must be large enough for any float formatted with %f
+  char buf[64] = {0};
   switch (val->type()) {
   case val_type_float:
-    snprintf(buf, size, "%f", val->f);
+    snprintf(buf, sizeof(buf), "%f", val->f);
+    out = buf;
     return true;
   case val_type_int:
-    snprintf(buf, size, "%i", val->integer());
+    snprintf(buf, sizeof(buf), "%i", val->integer());
+    out = buf;
     return true;
   case val_type_string:
-    snprintf(buf, size, "%s", val->string());
+    out.assign(val->string(), val->strlen());
     return true;
   case val_type_none:
-    snprintf(buf, size, "none");
+    out = "none";
     return true;
   case val_type_func:
-    snprintf(buf, size, "function@%d", val->v);
+    snprintf(buf, sizeof(buf), "function@%d", val->v);
+    out = buf;
     return true;
   default:
-    assert(false);
+    // this type has no textual form
     return false;
   }
 }
@@ -108,27 +114,24 @@ void thread_t::do_INS_ADD_() {
     stack_.push_float(l->as_float() + r->as_float());
     return;
   }
-  if (l->is_a<val_type_string>()) {
-    char rbuf[16] = {0};
-    to_string(rbuf, sizeof(rbuf), r);
-    int32_t rsize = int32_t(strlen(rbuf));
+  std::string text;
+  if (l->is_a<val_type_string>() && to_string(text, r)) {
+    const int32_t rsize = int32_t(text.size());
     const int32_t len = l->strlen() + rsize;
     value_t *s = gc_.new_string(len);
     char *dst = s->string();
     memcpy(dst, l->string(), l->strlen());
-    memcpy(dst + l->strlen(), rbuf, rsize);
+    memcpy(dst + l->strlen(), text.data(), rsize);
     dst[len] = '\0';
     stack_.push(s);
     return;
   }
-  if (r->is_a<val_type_string>()) {
-    char lbuf[16] = {0};
-    to_string(lbuf, sizeof(lbuf), l);
-    int32_t lsize = int32_t(strlen(lbuf));
+  if (r->is_a<val_type_string>() && to_string(text, l)) {
+    const int32_t lsize = int32_t(text.size());
     const int32_t len = lsize + r->strlen();
     value_t *s = gc_.new_string(len);
     char *dst = s->string();
-    memcpy(dst, lbuf, lsize);
+    memcpy(dst, text.data(), lsize);
     memcpy(dst + lsize, r->string(), r->strlen());
     dst[len] = '\0';
     stack_.push(s);
-- 
2.43.0


From a9a060a2fd3d2ecc10660d696f4e0283fafb6bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:23:11 +0000
Subject: [PATCH 03/37] fix: indirect calls of none or with a bad argument
 count raise an error Calling none aborted the host and a bad argument count
 still entered the callee.

---
 source/lib_vm/thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index d4996df..f560f3c 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -433,7 +433,6 @@ void thread_t::do_INS_SCALL_() {
 void thread_t::do_INS_ICALL_() {
   const int32_t num_args = read_operand_();
   value_t *callee = stack_.pop();
-  assert(callee);
   if (callee->is_a<val_type_syscall>()) {
     const int32_t operand = callee->v;
     do_syscall_(operand, num_args);
@@ -446,6 +445,7 @@ void thread_t::do_INS_ICALL_() {
     assert(func);
     if (int32_t(func->num_args()) != num_args) {
       set_error_(thread_error_t::e_bad_num_args);
+      return;
     }
     // new frame
     enter_(stack_.head(), pc_, addr);
-- 
2.43.0


From e5d4e8bee563c20f974d106cfe2d6da2ea78ebb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:31 +0000
Subject: [PATCH 04/37] fix: array arguments of a new thread are passed by
 reference Copying an array argument aborted the host.

---
 source/lib_vm/thread.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index f560f3c..bd3d00b 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -718,7 +718,13 @@ bool thread_t::prepare(const function_t &func, int32_t argc,
   // push any arguments
   for (int i = 0; i < argc; ++i) {
     const value_t *v = argv[i];
-    stack_.push(gc_.copy(*v));
+    if (v->is_a<val_type_array>()) {
+      // arrays are 'reference' type objects so they are shared, not copied
+      stack_.push(const_cast<value_t *>(v));
+    }
+    else {
+      stack_.push(gc_.copy(*v));
+    }
   }
 
   // push the initial frame
-- 
2.43.0


From f7c215d70cc4b791038e7bc8be45d09bc99ae26d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:31 +0000
Subject: [PATCH 05/37] fix: step_line must collect garbage like resume does
 Stepping line by line never collected and exhausted the heap.

---
 source/lib_vm/thread.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index bd3d00b..3576e16 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -852,6 +852,7 @@ bool thread_t::step_line() {
   const line_t line = get_source_line();
   // step until the source line changes
   do {
+    tick_gc_(1);
     step_imp_();
     if (finished_) {
       break;
-- 
2.43.0


From 020f482c9f2ec146179ab4c460562dcd19f5169c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:31 +0000
Subject: [PATCH 06/37] fix: call_once with a bad argument count reports an
 error It dereferenced the null thread.

---
 source/lib_vm/vm.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index cc70142..eff7f8f 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -62,6 +62,11 @@ bool vm_t::call_once(const function_t &func,
   return_code = nullptr;
 
   thread_t *thread = new_thread(func, argc, argv);
+  if (!thread) {
+    // preparing a thread can only fail when the arguments do not match
+    error = nano::thread_error_t::e_bad_num_args;
+    return false;
+  }
   gc_collect();
   while (!thread->finished() && !thread->has_error()) {
     if (!thread->resume(128 * 1024)) {
-- 
2.43.0


From 5323302ad0c99797f0a6df8f0ada00503565c6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:52:31 +0000
Subject: [PATCH 07/37] fix: wait with a negative count must not starve the
 thread

---
 source/lib_builtins/builtin.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/lib_builtins/builtin.cpp b/source/lib_builtins/builtin.cpp
index edb7a83..0547960 100644
--- a/source/lib_builtins/builtin.cpp
+++ b/source/lib_builtins/builtin.cpp
@@ -216,7 +216,8 @@ static void builtin_wait(struct nano::thread_t &t, int32_t nargs) {
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const int32_t w = v->as_int();
-    t.waits = w;
+    // a negative wait would never count down to zero
+    t.waits = w > 0 ? w : 0;
     t.get_stack().push_int(0);
     if (t.waits > 0) {
       t.halt();
-- 
2.43.0


From 442da5d9a56a871b9faca671d090abe577700d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:03 +0000
Subject: [PATCH 08/37] fix: garbage collection of cyclic arrays An array
 reachable from itself made trace recurse forever.

---
 source/lib_vm/vm_gc.cpp | 52 ++++++++++++++++++++---------------------
 1 file changed, 25 insertions(+), 27 deletions(-)

diff --git a/source/lib_vm/vm_gc.cpp b/source/lib_vm/vm_gc.cpp
index f40f2e4..313334d 100644
--- a/source/lib_vm/vm_gc.cpp
+++ b/source/lib_vm/vm_gc.cpp
@@ -124,15 +124,34 @@ void value_gc_t::trace(value_t **list, size_t num) {
     value_t *&v = list[i];
 
     // a value may be new yet contain referenced to old data therefore we must
-    // visit these nodes regardless
-    switch (v->type()) {
-    case val_type_array:
-      // collect child elements
+    // visit arrays regardless
+    if (v->is_a<val_type_array>()) {
+      // if we have global variables, they might have been relocated at which
+      // point our pointers will point to the wrong half space
+      if (value_t *x = forward_find(v)) {
+        list[i] = x;
+        continue;
+      }
       const int32_t size = v->array_size();
-      trace(v->array(), size);
+      value_t *n = v;
+      if (!to.owns(v)) {
+        assert(space_from().owns(v));
+        // move into to space
+        n = to.alloc<value_t>(size * sizeof(value_t *));
+        n->type_ = v->type();
+        n->v = size;
+        memcpy(n->array(), v->array(), size * sizeof(value_t *));
+      }
+      // keep track of visited arrays prior to visiting the child elements since
+      // an array may be reachable from itself
+      forward_add(v, n);
+      list[i] = n;
+      // collect child elements
+      trace(n->array(), size);
+      continue;
     }
 
-    // already collected so skip to avoid cyclic trace loops
+    // already collected
     if (to.owns(v)) {
       continue;
     }
@@ -169,27 +188,6 @@ void value_gc_t::trace(value_t **list, size_t num) {
       list[i] = n;
       break;
     }
-    case val_type_array: {
-      // if we have global variables, they might have been relocated at which
-      // point our pointers will point to the wrong half space
-      if (value_t *x = forward_find(v)) {
-        list[i] = x;
-        break;
-      }
-
-      // may want to swap in the new pointer prior to trace to break cycles
-
-      const int32_t size = v->array_size();
-      // move into to space
-      value_t *n = to.alloc<value_t>(size * sizeof(value_t *));
-      n->type_ = v->type();
-      n->v = size;
-      memcpy(n->array(), v->array(), size * sizeof(value_t *));
-      // keep track of forwarded global arrays that may have to move
-      forward_add(v, n);
-      list[i] = n;
-      break;
-    }
     default:
       assert(!"unknown type");
     }
-- 
2.43.0


From ea513f584fac0467f471c6bf09290884182612f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:03 +0000
Subject: [PATCH 09/37] fix: vm reset drops globals that refer to released
 values

---
 source/lib_vm/vm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index eff7f8f..360a5f3 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -33,6 +33,8 @@ void vm_t::gc_collect() {
 void vm_t::reset() {
   // reset the garbage collector
   gc_->reset();
+  // all globals refer to values that are now gone
+  g_.clear();
   // delete all threads
   for (thread_t *t : threads_) {
     delete t;
-- 
2.43.0


From 6a4b45630b17114ea989cc78df83f2ede8c5e0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:40:04 +0000
Subject: [PATCH 10/37] fix: builtins called through a value check their
 argument count They popped values that were not their arguments, or an empty
 stack.

---
 source/lib_builtins/builtin.cpp | 69 ++++++++++++++++++++++++++-------
 1 file changed, 54 insertions(+), 15 deletions(-)

diff --git a/source/lib_builtins/builtin.cpp b/source/lib_builtins/builtin.cpp
index 0547960..7bbdd62 100644
--- a/source/lib_builtins/builtin.cpp
+++ b/source/lib_builtins/builtin.cpp
@@ -11,8 +11,19 @@
 
 namespace nano {
 
+// a builtin called through a value can receive any number of arguments
+static bool check_nargs(struct nano::thread_t &t, int32_t nargs, int32_t expected) {
+  if (nargs != expected) {
+    t.raise_error(thread_error_t::e_bad_num_args);
+    return false;
+  }
+  return true;
+}
+
 static void builtin_abs(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_nargs(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   switch (v->type()) {
   case val_type_int: {
@@ -29,7 +40,9 @@ static void builtin_abs(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_max(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_nargs(t, nargs, 2)) {
+    return;
+  }
   const nano::value_t *a = t.get_stack().pop();
   const nano::value_t *b = t.get_stack().pop();
   if (a->is_number() && b->is_number()) {
@@ -42,7 +55,9 @@ static void builtin_max(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_min(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_nargs(t, nargs, 2)) {
+    return;
+  }
   const nano::value_t *a = t.get_stack().pop();
   const nano::value_t *b = t.get_stack().pop();
   if (a->is_number() && b->is_number()) {
@@ -55,7 +70,9 @@ static void builtin_min(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_bitand(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_nargs(t, nargs, 2)) {
+    return;
+  }
   const nano::value_t *a = t.get_stack().pop();
   const nano::value_t *b = t.get_stack().pop();
   if (a->is_a<val_type_int>() &&
@@ -68,7 +85,9 @@ static void builtin_bitand(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_len(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_nargs(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *a = t.get_stack().pop();
   switch (a->type()) {
   case val_type_array: {
@@ -86,7 +105,9 @@ static void builtin_len(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_chr(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_nargs(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && v->is_a<val_type_int>()) {
     char x[2] = {char(v->v), 0};
@@ -97,7 +118,9 @@ static void builtin_chr(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_sin(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_nargs(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -108,7 +131,9 @@ static void builtin_sin(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_cos(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_nargs(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -119,7 +144,9 @@ static void builtin_cos(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_tan(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_nargs(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -130,7 +157,9 @@ static void builtin_tan(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_round(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_nargs(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -141,7 +170,9 @@ static void builtin_round(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_floor(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_nargs(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -152,7 +183,9 @@ static void builtin_floor(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_ceil(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_nargs(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -163,7 +196,9 @@ static void builtin_ceil(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_sqrt(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_nargs(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const float x = v->as_float();
@@ -212,7 +247,9 @@ static void builtin_new_thread(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_wait(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_nargs(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const int32_t w = v->as_int();
@@ -228,7 +265,9 @@ static void builtin_wait(struct nano::thread_t &t, int32_t nargs) {
 }
 
 static void builtin_new_array(struct nano::thread_t &t, int32_t nargs) {
-  (void)nargs;
+  if (!check_nargs(t, nargs, 1)) {
+    return;
+  }
   const nano::value_t *v = t.get_stack().pop();
   if (v && (v->is_number())) {
     const int32_t w = v->as_int();
-- 
2.43.0


From fb5dffba3374772c0394bfc3b16dfc86a36c4d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:19 +0000
Subject: [PATCH 11/37] fix: unary minus and not bind to their own operand

'-a + b' was parsed as 'a + (-b)' with the minus applied to the last operand
parsed, and 'not a and b' as 'a and (not b)'; 'a not b' was accepted with the
first operand dropped.
---
 source/lib_compiler/parser.cpp | 60 ++++++++++++++++++++++------------
 source/lib_compiler/parser.h   |  2 ++
 2 files changed, 42 insertions(+), 20 deletions(-)

diff --git a/source/lib_compiler/parser.cpp b/source/lib_compiler/parser.cpp
index c4c9957..d5226eb 100644
--- a/source/lib_compiler/parser.cpp
+++ b/source/lib_compiler/parser.cpp
@@ -110,7 +110,7 @@ int32_t parser_t::op_type_(token_e type) const {
 
 bool parser_t::is_operator_() const {
   token_stream_t &stream_ = nano_.lexer().stream();
-  return op_type_(stream_.type()) > 0;
+  return stream_.peek()->is_binary_op();
 }
 
 ast_node_t *parser_t::parse_array_init_(const token_t &t) {
@@ -217,29 +217,23 @@ void parser_t::parse_lhs_() {
   } while (false);
 }
 
-void parser_t::parse_expr_ex_(uint32_t tide) {
+void parser_t::parse_operand_() {
   token_stream_t &stream_ = nano_.lexer().stream();
   auto &ast = nano_.ast();
 
   // format:
-  //    ['not'] [-] <lhs> [ '(' <expr> ')' ]
-  //    ['not'] [-] <lhs> [ '(' <expr> ')' ] <op> <expr_ex>
-
-  // not
-  if (const token_t *n = stream_.found(TOK_NOT)) {
-    parse_expr_ex_(tide);
-    op_push_(n, tide);
-    return;
-  }
-
-  // unary minus
-  if (const token_t *n = stream_.found(TOK_SUB)) {
-    parse_expr_ex_(tide);
-    ast_node_t *back = exp_stack_.back();
-    exp_stack_.pop_back();
-    auto *op = nano_.ast().alloc<ast_exp_unary_op_t>(n);
-    op->child = back;
-    exp_stack_.push_back(op);
+  //    [-] <lhs> [ '(' <expr> ')' | '[' <expr> ']' ]*
+
+  // unary minus binds tighter than any binary operator
+  const token_t *n = stream_.found(TOK_SUB);
+  if (n) {
+    // note: 'not' following a minus only applies to its operand
+    const token_t *l = stream_.found(TOK_NOT);
+    parse_operand_();
+    if (l) {
+      push_unary_(l);
+    }
+    push_unary_(n);
     return;
   }
 
@@ -276,6 +270,32 @@ void parser_t::parse_expr_ex_(uint32_t tide) {
 
     break;
   }
+}
+
+void parser_t::push_unary_(const token_t *op) {
+  assert(!exp_stack_.empty());
+  auto *expr = nano_.ast().alloc<ast_exp_unary_op_t>(op);
+  expr->child = exp_stack_.back();
+  exp_stack_.back() = expr;
+}
+
+void parser_t::parse_expr_ex_(uint32_t tide) {
+  token_stream_t &stream_ = nano_.lexer().stream();
+
+  // format:
+  //    ['not'] <operand>
+  //    ['not'] <operand> <op> <expr_ex>
+
+  // not
+  if (const token_t *n = stream_.found(TOK_NOT)) {
+    // a prefix operator has no left operand so it must not reduce the operators
+    // before it, those after it decide when it is reduced
+    op_stack_.push_back(n);
+    parse_expr_ex_(tide);
+    return;
+  }
+
+  parse_operand_();
 
   if (is_operator_()) {
     const token_t *op = stream_.pop();
diff --git a/source/lib_compiler/parser.h b/source/lib_compiler/parser.h
index b3c3afa..85926ef 100644
--- a/source/lib_compiler/parser.h
+++ b/source/lib_compiler/parser.h
@@ -49,6 +49,8 @@ protected:
 
   // expressions parsing helpers
   void parse_expr_ex_(uint32_t tide);
+  void parse_operand_();
+  void push_unary_(const token_t *op);
   void parse_lhs_();
 
   // return true if next token is an operator
-- 
2.43.0


From 0e84b51af52568fa9c644eba7bb171076cab743f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:19 +0000
Subject: [PATCH 12/37] fix: constant evaluation of globals handles not,
 functions and non constants

'var g = not 0' and 'var g = f + 1' hit an assert, 'var g = -h' read from an
empty stack.
---
 source/lib_compiler/sema.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 6bb36b6..af830bc 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -21,6 +21,9 @@ struct eval_t: public ast_visitor_t {
     }
 
     decend_(n);
+    if (!valid_) {
+      return;
+    }
     const int32_t v = value_.back();
     int32_t r = 0;
     value_.pop_back();
@@ -28,6 +31,9 @@ struct eval_t: public ast_visitor_t {
     case TOK_SUB:
       r = -v;
       break;
+    case TOK_NOT:
+      r = !v;
+      break;
     default:
       assert(!"unknown operator");
     }
@@ -53,8 +59,8 @@ struct eval_t: public ast_visitor_t {
   void visit(ast_exp_ident_t *n) override {
     assert(n->decl);
     ast_decl_var_t *decl = n->decl->cast<ast_decl_var_t>();
-    assert(decl);
-    if (decl->is_const) {
+    // note: this could also name a function which is not a constant
+    if (decl && decl->is_const) {
       if (auto *v = decl->expr->cast<ast_exp_lit_var_t>()) {
         value_.push_back(v->val);
         return;
-- 
2.43.0


From 454a51ce09e85731c8c0550ca6fee1e0c6944fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:19 +0000
Subject: [PATCH 13/37] fix: removing a dead branch does not change the
 constant it tests

the literal of a const is shared by all of its uses, so 'if (C)' with C being
zero turned every other use of C into one.
---
 source/lib_compiler/optimize.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/optimize.cpp b/source/lib_compiler/optimize.cpp
index 37d618f..45336a7 100644
--- a/source/lib_compiler/optimize.cpp
+++ b/source/lib_compiler/optimize.cpp
@@ -347,6 +347,7 @@ struct opt_if_remove_t: public ast_visitor_t {
 
   opt_if_remove_t(nano_t &nano)
     : errs_(nano.errors())
+    , ast_(nano.ast())
   {}
 
   void visit(ast_stmt_if_t *s) override {
@@ -359,7 +360,8 @@ struct opt_if_remove_t: public ast_visitor_t {
       else {
         s->then_block = s->else_block;
         s->else_block = nullptr;
-        c->val = 1;
+        // note: the literal could be shared with other uses of a constant
+        s->expr = ast_.alloc<ast_exp_lit_var_t>(1);
       }
     }
   }
@@ -379,6 +381,7 @@ struct opt_if_remove_t: public ast_visitor_t {
 
 protected:
   error_manager_t &errs_;
+  ast_t &ast_;
 };
 
 // ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ----
-- 
2.43.0


From 0717f26d06f83fee4249150c2184efd6c91b83ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:44 +0000
Subject: [PATCH 14/37] fix: variables of an if branch are not visible in its
 else branch

both branches shared a scope, so a name declared in both resolved to either
declaration depending on allocation addresses.
---
 source/lib_compiler/sema.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index af830bc..058e654 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -411,9 +411,18 @@ struct sema_decl_annotate_t : public ast_visitor_t {
   }
 
   void visit(ast_stmt_if_t *n) override {
-    scope_.emplace_back();
-    ast_visitor_t::visit(n);
-    scope_.pop_back();
+    dispatch(n->expr);
+    // note: each branch has its own scope
+    if (n->then_block) {
+      scope_.emplace_back();
+      dispatch(n->then_block);
+      scope_.pop_back();
+    }
+    if (n->else_block) {
+      scope_.emplace_back();
+      dispatch(n->else_block);
+      scope_.pop_back();
+    }
   }
 
   void visit(ast_stmt_while_t *n) override {
-- 
2.43.0


From ff499675edab72ae2c4acf3ac52f5314f5219713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:05:44 +0000
Subject: [PATCH 15/37] fix: a variable declared without a value starts as none

its stack slot is shared with variables of other blocks, so it could start with
their value or the one from the previous loop iteration.
---
 source/lib_compiler/codegen.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/codegen.cpp b/source/lib_compiler/codegen.cpp
index d0a0230..5bd4c7d 100644
--- a/source/lib_compiler/codegen.cpp
+++ b/source/lib_compiler/codegen.cpp
@@ -469,8 +469,11 @@ struct codegen_pass_t: ast_visitor_t {
     assert(n->is_local());
     if (n->expr) {
       dispatch(n->expr);
-      emit(INS_SETV, n->offset, n->name);
+    } else {
+      // the slot could hold a value from another block or loop iteration
+      emit(INS_NEW_NONE, n->name);
     }
+    emit(INS_SETV, n->offset, n->name);
   }
 
   const std::vector<function_t> &functions() const {
-- 
2.43.0


From e778f4daef713a5d4f6d81d28c880874a02fcd19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:15 +0000
Subject: [PATCH 16/37] fix: a block may be empty apart from blank lines and
 comments

'function f()' followed by a comment and 'end', as in the language reference,
was rejected.
---
 source/lib_compiler/parser.cpp | 19 ++++++++++++-------
 source/lib_compiler/parser.h   |  1 +
 2 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/source/lib_compiler/parser.cpp b/source/lib_compiler/parser.cpp
index d5226eb..3dfaae4 100644
--- a/source/lib_compiler/parser.cpp
+++ b/source/lib_compiler/parser.cpp
@@ -396,14 +396,14 @@ ast_node_t* parser_t::parse_if_(const token_t &t) {
   stream_.pop(TOK_LPAREN);
   stmt->expr = parse_expr_();
   stream_.pop(TOK_RPAREN);
-  stream_.pop(TOK_EOL);
+  pop_eol_();
 
   // IF body
   stmt->then_block = ast.alloc<ast_block_t>();
   bool has_else = false;
   while (!stream_.found(TOK_END)) {
     if (stream_.found(TOK_ELSE)) {
-      stream_.pop(TOK_EOL);
+      pop_eol_();
       has_else = true;
       break;
     }
@@ -439,7 +439,7 @@ ast_node_t* parser_t::parse_while_(const token_t &t) {
   stream_.pop(TOK_LPAREN);
   stmt->expr = parse_expr_();
   stream_.pop(TOK_RPAREN);
-  stream_.pop(TOK_EOL);
+  pop_eol_();
 
   // WHILE body
   stmt->body = ast.alloc<ast_block_t>();
@@ -473,7 +473,7 @@ ast_node_t* parser_t::parse_for_(const token_t &t) {
   stream_.pop(TOK_TO);
   stmt->end = parse_expr_();
   stream_.pop(TOK_RPAREN);
-  stream_.pop(TOK_EOL);
+  pop_eol_();
 
   // FOR body
   stmt->body = ast.alloc<ast_block_t>();
@@ -612,11 +612,16 @@ ast_node_t* parser_t::parse_stmt_() {
   }
 
   // all statements should be on their own line so must have one or more EOLs
+  pop_eol_();
+
+  return stmt;
+}
+
+void parser_t::pop_eol_() {
+  token_stream_t &stream_ = nano_.lexer().stream();
   stream_.pop(TOK_EOL);
   // pop any extra EOLS now so we can sync with TOK_END correctly
   while (stream_.found(TOK_EOL));
-
-  return stmt;
 }
 
 ast_node_t* parser_t::parse_member_assign_(const token_t &t) {
@@ -671,7 +676,7 @@ ast_node_t* parser_t::parse_function_(const token_t &t) {
     } while (stream_.found(TOK_COMMA));
     stream_.pop(TOK_RPAREN);
   }
-  stream_.pop(TOK_EOL);
+  pop_eol_();
 
   // function body
   func->body = ast.alloc<ast_block_t>();
diff --git a/source/lib_compiler/parser.h b/source/lib_compiler/parser.h
index 85926ef..f2ae23c 100644
--- a/source/lib_compiler/parser.h
+++ b/source/lib_compiler/parser.h
@@ -50,6 +50,7 @@ protected:
   // expressions parsing helpers
   void parse_expr_ex_(uint32_t tide);
   void parse_operand_();
+  void pop_eol_();
   void push_unary_(const token_t *op);
   void parse_lhs_();
 
-- 
2.43.0


From c232df7ed134af0f103d7edafc7d7d98da2515bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:50 +0000
Subject: [PATCH 17/37] fix: a comment at the end of a file does not read past
 it

---
 source/lib_compiler/lexer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/lib_compiler/lexer.cpp b/source/lib_compiler/lexer.cpp
index df9c690..04fc716 100644
--- a/source/lib_compiler/lexer.cpp
+++ b/source/lib_compiler/lexer.cpp
@@ -86,6 +86,10 @@ bool lexer_t::lex(const char *s, int32_t file_no) {
         ++line_.line;
       }
       push_(TOK_EOL);
+      // dont step over the terminator when a comment ends the file
+      if (*s == '\0') {
+        break;
+      }
       continue;
     }
 
-- 
2.43.0


From 04ada20266337e1d09be4797251b4648b389c837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:07:53 +0000
Subject: [PATCH 18/37] fix: float literals with many digits keep their value

the digits were collected in a 32 bit integer which overflowed.
---
 source/lib_compiler/lexer.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/source/lib_compiler/lexer.cpp b/source/lib_compiler/lexer.cpp
index 04fc716..91708d6 100644
--- a/source/lib_compiler/lexer.cpp
+++ b/source/lib_compiler/lexer.cpp
@@ -295,8 +295,10 @@ void lexer_t::push_string_(const char *start, const char *end) {
 }
 
 void lexer_t::push_val_(const char *s, const char *e) {
-  int32_t v = 0;
-  int32_t f = 0;
+  // note: an integer wraps like the runtime would, a float must not
+  uint32_t v = 0;
+  double d = 0;
+  double f = 0;
   for (; s != e; ++s) {
     if (*s == '.') {
       assert(f == 0);
@@ -305,14 +307,15 @@ void lexer_t::push_val_(const char *s, const char *e) {
     else {
       assert(is_numeric(*s));
       v = v * 10 + (*s - '0');
+      d = d * 10 + (*s - '0');
       f *= 10;
     }
   }
   if (f == 0) {
-    stream_.push(token_t(v, line_));
+    stream_.push(token_t(int32_t(v), line_));
   }
   else {
-    const float x = float(v) / float(f);
+    const float x = float(d / f);
     stream_.push(token_t(x, line_));
   }
 }
-- 
2.43.0


From e5b1643a81c6e3b68df90132bd3aa045e2f14dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:08:30 +0000
Subject: [PATCH 19/37] fix: misuse of a const is reported instead of hitting
 an assert

assigning an element or a member of a const, looping over one, calling one and
reading a member of one or of a function.
---
 source/lib_compiler/ast.h    |  1 +
 source/lib_compiler/sema.cpp | 35 ++++++++++++++++++++++++++++++++++-
 2 files changed, 35 insertions(+), 1 deletion(-)

diff --git a/source/lib_compiler/ast.h b/source/lib_compiler/ast.h
index 631728d..3c3bc0c 100644
--- a/source/lib_compiler/ast.h
+++ b/source/lib_compiler/ast.h
@@ -271,6 +271,7 @@ struct ast_exp_call_t : public ast_node_t {
   {}
 
   void replace_child(const ast_node_t *which, ast_node_t *with) override {
+    callee = (callee == which) ? with : callee;
     for (size_t i = 0; i < args.size(); ++i) {
       if (args[i] == which) {
         args[i] = with;
diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 058e654..ff542f5 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -192,6 +192,14 @@ struct sema_const_t: public ast_visitor_t {
     }
   }
 
+  void visit(ast_exp_member_t *n) override {
+    ast_decl_var_t *decl = n->decl->cast<ast_decl_var_t>();
+    if (decl && decl->is_const) {
+      // a constant has no members
+      errs_.cant_evaluate_constant(*n->name);
+    }
+  }
+
   void visit(ast_stmt_assign_var_t *n) override {
     assert(n->decl);
     if (n->decl->is_const) {
@@ -200,6 +208,30 @@ struct sema_const_t: public ast_visitor_t {
     ast_visitor_t::visit(n);
   }
 
+  void visit(ast_stmt_assign_array_t *n) override {
+    assert(n->decl);
+    if (n->decl->is_const) {
+      errs_.cant_assign_const(*n->name);
+    }
+    ast_visitor_t::visit(n);
+  }
+
+  void visit(ast_stmt_assign_member_t *n) override {
+    assert(n->decl);
+    if (n->decl->is_const) {
+      errs_.cant_assign_const(*n->name);
+    }
+    ast_visitor_t::visit(n);
+  }
+
+  void visit(ast_stmt_for_t *n) override {
+    assert(n->decl);
+    if (n->decl->is_const) {
+      errs_.cant_assign_const(*n->name);
+    }
+    ast_visitor_t::visit(n);
+  }
+
   void visit(ast_decl_var_t *n) override {
     ast_visitor_t::visit(n);
     if (n->is_const) {
@@ -375,7 +407,8 @@ struct sema_decl_annotate_t : public ast_visitor_t {
     n->decl = find_decl(n->name->str_);
     if (n->decl) {
       if (!n->decl->cast<ast_decl_var_t>()) {
-        assert(!"TODO: Revise this later please");
+        // a function has no members
+        errs_.unknown_identifier(*n->name);
       }
       return;
     }
-- 
2.43.0


From 60105b174b3eed20ae772d3bf6ae495ba990bd06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:25 +0000
Subject: [PATCH 20/37] fix: the string and import tokens have a name Reporting
 an unexpected string or import hit an assert.

---
 source/lib_compiler/token.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/source/lib_compiler/token.cpp b/source/lib_compiler/token.cpp
index 89c0bab..e8cc3c5 100644
--- a/source/lib_compiler/token.cpp
+++ b/source/lib_compiler/token.cpp
@@ -98,6 +98,8 @@ const char *token_t::token_name(token_e e) {
   case TOK_LBRACKET: return "[";
   case TOK_RBRACKET: return "]";
   case TOK_NONE:     return "none";
+  case TOK_STRING:   return "string";
+  case TOK_IMPORT:   return "import";
   case TOK_DOT:      return ".";
   default:
     assert(!"unhandled token type");
-- 
2.43.0


From cd6cd7aed476e31715938628f4fc49cf6cde0f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:24:48 +0000
Subject: [PATCH 21/37] fix: a source that failed to load is not compiled Its
 missing text was handed to the lexer.

---
 source/lib_common/source.cpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index 9fe9b63..7c7dc92 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -47,13 +47,22 @@ bool source_manager_t::load(const char *path) {
       return true;
     }
   }
-  sources_.emplace_back(new source_t);
-  return sources_.back()->load_from_file(path);
+  // note: only keep sources that have something to compile
+  std::unique_ptr<source_t> source(new source_t);
+  if (!source->load_from_file(path)) {
+    return false;
+  }
+  sources_.push_back(std::move(source));
+  return true;
 }
 
 bool source_manager_t::load_from_string(const char *str) {
-  sources_.emplace_back(new source_t);
-  return sources_.back()->load_from_string(str);
+  std::unique_ptr<source_t> source(new source_t);
+  if (!source->load_from_string(str)) {
+    return false;
+  }
+  sources_.push_back(std::move(source));
+  return true;
 }
 
 } // namespace nano
-- 
2.43.0


From 9ff16f4a28df88e90db695b92a1b1ed6a67833a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:43 +0000
Subject: [PATCH 22/37] fix: loading a program handles long strings and damaged
 sizes A string of 256 characters or more hit an assert, text after a zero
 character was lost and a damaged size aborted the host.

---
 source/lib_common/program.cpp | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/source/lib_common/program.cpp b/source/lib_common/program.cpp
index 73afec5..956e5f7 100644
--- a/source/lib_common/program.cpp
+++ b/source/lib_common/program.cpp
@@ -72,20 +72,22 @@ bool consume(FILE *fd, nano::program_t::linetable_t &s) {
   return true;
 }
 
+// return the number of bytes which are left to read
+int32_t remaining(FILE *fd) {
+  const long pos = ftell(fd);
+  fseek(fd, 0, SEEK_END);
+  const long end = ftell(fd);
+  fseek(fd, pos, SEEK_SET);
+  return int32_t(end - pos);
+}
+
 bool consume(FILE *fd, std::string &string) {
   int32_t size = 0;
-  if (1 != fread(&size, 4, 1, fd)) {
-    return false;
-  }
-  assert(size < 256);
+  TRY(consume(fd, size));
+  // the size comes from the file so it can not be trusted
+  TRY(size >= 0 && size <= remaining(fd));
   string.resize(size);
-  auto data = std::make_unique<char[]>(size + 1);
-  if (fread(data.get(), 1, size, fd) != size) {
-    return false;
-  }
-  data[size] = '\0';
-  string.assign(data.get());
-  return true;
+  return fread(&string[0], 1, size, fd) == size_t(size);
 }
 
 bool consume(FILE *fd, nano::function_t &f) {
@@ -184,7 +186,7 @@ bool program_t::serial_load(const char *path) {
   for (int32_t i = 0; i < num_syscalls; ++i) {
     syscalls_.emplace_back();
     syscalls_.back().call_ = nullptr;
-    consume(fd, syscalls_.back().name_);
+    TRY(consume(fd, syscalls_.back().name_));
   }
   // read functions
   int32_t num_functions = 0;
@@ -196,8 +198,9 @@ bool program_t::serial_load(const char *path) {
   // read bytecode
   int32_t code_size = 0;
   TRY(consume(fd, code_size));
+  TRY(code_size >= 0 && code_size <= remaining(fd));
   code_.resize(code_size);
-  if (fread(code_.data(), 1, code_size, fd) != code_size) {
+  if (fread(code_.data(), 1, code_size, fd) != size_t(code_size)) {
     return false;
   }
   // emit the line table
-- 
2.43.0


From e6cf926542c155e69d7ba8971449b4e43ecd7c97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:26:45 +0000
Subject: [PATCH 23/37] fix: a program that fails to load does not leave its
 file open

---
 source/lib_common/program.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/lib_common/program.cpp b/source/lib_common/program.cpp
index 956e5f7..f08c286 100644
--- a/source/lib_common/program.cpp
+++ b/source/lib_common/program.cpp
@@ -163,7 +163,8 @@ bool program_t::serial_save(const char *path) {
 
 bool program_t::serial_load(const char *path) {
   // open the output file
-  FILE *fd = fopen(path, "rb");
+  std::unique_ptr<FILE, int (*)(FILE *)> file(fopen(path, "rb"), fclose);
+  FILE *fd = file.get();
   if (!fd) {
     return false;
   }
@@ -213,7 +214,6 @@ bool program_t::serial_load(const char *path) {
     TRY(consume(fd, strings_.back()));
   }
   // done
-  fclose(fd);
   return true;
 }
 
-- 
2.43.0


From 89705c655021e4710f887de2968f49758dbc2f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:12 +0000
Subject: [PATCH 24/37] fix: saving a program reports when it could not be
 written

---
 source/lib_common/program.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/lib_common/program.cpp b/source/lib_common/program.cpp
index f08c286..52ec89a 100644
--- a/source/lib_common/program.cpp
+++ b/source/lib_common/program.cpp
@@ -157,8 +157,8 @@ bool program_t::serial_save(const char *path) {
     emit(fd, s);
   }
   // done
-  fclose(fd);
-  return true;
+  const bool failed = ferror(fd) != 0;
+  return fclose(fd) == 0 && !failed;
 }
 
 bool program_t::serial_load(const char *path) {
-- 
2.43.0


From 6bdd76c573505d1ca99653eea7b1278750125f6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:43 +0000
Subject: [PATCH 25/37] fix: an import of a file named without a directory is
 looked up beside it It was looked up in the root directory.

---
 source/lib_common/source.cpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index 7c7dc92..b944139 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -5,11 +5,9 @@
 namespace {
 
 std::string base_path(std::string in) {
-  const size_t last1 = in.rfind('/');
-  const size_t last2 = in.rfind('\\');
-  const size_t last = std::max(last1 == std::string::npos ? 0 : last1,
-                               last2 == std::string::npos ? 0 : last2);
-  in.resize(last);
+  // keep the last slash, a path without any is relative to the working directory
+  const size_t last = in.find_last_of("/\\");
+  in.resize(last == std::string::npos ? 0 : last + 1);
   return in;
 }
 
@@ -37,7 +35,7 @@ namespace nano {
 
 void source_manager_t::imported_path(const source_t &s, std::string &in_out) {
   std::string base = base_path(s.file_path());
-  in_out = base + "/" + in_out;
+  in_out = base + in_out;
 }
 
 bool source_manager_t::load(const char *path) {
-- 
2.43.0


From bd4b430573ad1d3dfe1315517ccb9e68278cd051 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:27:45 +0000
Subject: [PATCH 26/37] fix: a path is not the same file as a longer path it
 starts with Importing the longer one was silently skipped.

---
 source/lib_common/source.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/source/lib_common/source.cpp b/source/lib_common/source.cpp
index b944139..1f44640 100644
--- a/source/lib_common/source.cpp
+++ b/source/lib_common/source.cpp
@@ -26,7 +26,8 @@ bool path_cmp(const char *x, const char *y) {
     }
     return false;
   }
-  return true;
+  // both have to end here
+  return *y == '\0';
 }
 
 } // namespace {}
-- 
2.43.0


From 169fe478dc55e5409444997e84c35997ba41cfef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:00 +0000
Subject: [PATCH 27/37] fix: a runtime error is reported on the line that
 failed The program counter had already moved on to the next instruction or
 into the middle of this one.

---
 source/lib_vm/thread.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 3576e16..4616c8d 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -742,6 +742,7 @@ bool thread_t::prepare(const function_t &func, int32_t argc,
 }
 
 void thread_t::step_imp_() {
+  const int32_t pc = pc_;
   // fetch opcode
   const uint8_t opcode = read_opcode_();
   // dispatch
@@ -789,6 +790,10 @@ void thread_t::step_imp_() {
   default:
     set_error_(thread_error_t::e_bad_opcode);
   }
+  // stay at an instruction that failed so its source line is known
+  if (has_error()) {
+    pc_ = pc;
+  }
   // check for any breakpoints
   if (!breakpoints_.empty()) {
     // check if the source line is in our list
-- 
2.43.0


From 48ed1447172f0921adfd689b3c2d36dc2b9e4348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:02 +0000
Subject: [PATCH 28/37] fix: folded constants keep their source line

---
 source/lib_compiler/optimize.cpp | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/source/lib_compiler/optimize.cpp b/source/lib_compiler/optimize.cpp
index 45336a7..9f39324 100644
--- a/source/lib_compiler/optimize.cpp
+++ b/source/lib_compiler/optimize.cpp
@@ -178,7 +178,7 @@ struct opt_const_expr_t: public ast_visitor_t {
     int32_t v = 0;
     if (auto *e = s->expr->cast<ast_exp_bin_op_t>()) {
       if (eval_(e, v)) {
-        s->expr = ast_.alloc<ast_exp_lit_var_t>(v);
+        s->expr = literal_(v, e->token);
       }
     }
   }
@@ -188,7 +188,7 @@ struct opt_const_expr_t: public ast_visitor_t {
     int32_t v = 0;
     if (auto *e = s->expr->cast<ast_exp_bin_op_t>()) {
       if (eval_(e, v)) {
-        s->expr = ast_.alloc<ast_exp_lit_var_t>(v);
+        s->expr = literal_(v, e->token);
       }
     }
   }
@@ -198,7 +198,7 @@ struct opt_const_expr_t: public ast_visitor_t {
     int32_t v = 0;
     if (auto *e = s->expr->cast<ast_exp_bin_op_t>()) {
       if (eval_(e, v)) {
-        s->expr = ast_.alloc<ast_exp_lit_var_t>(v);
+        s->expr = literal_(v, e->token);
       }
     }
   }
@@ -208,7 +208,7 @@ struct opt_const_expr_t: public ast_visitor_t {
     int32_t v = 0;
     if (auto *e = s->expr->cast<ast_exp_bin_op_t>()) {
       if (eval_(e, v)) {
-        s->expr = ast_.alloc<ast_exp_lit_var_t>(v);
+        s->expr = literal_(v, e->token);
       }
     }
   }
@@ -221,6 +221,13 @@ protected:
 
   std::map<const ast_node_t *, int32_t> val_;
 
+  // a literal that keeps the source line of the expression it replaces
+  ast_node_t *literal_(int32_t v, const token_t *token) {
+    auto *lit = ast_.alloc<ast_exp_lit_var_t>(v);
+    lit->token = token;
+    return lit;
+  }
+
   bool value_(const ast_node_t *n, int32_t &v) const {
     if (const auto *e = n->cast<ast_exp_lit_var_t>()) {
       v = e->val;
@@ -361,7 +368,9 @@ struct opt_if_remove_t: public ast_visitor_t {
         s->then_block = s->else_block;
         s->else_block = nullptr;
         // note: the literal could be shared with other uses of a constant
-        s->expr = ast_.alloc<ast_exp_lit_var_t>(1);
+        auto *lit = ast_.alloc<ast_exp_lit_var_t>(1);
+        lit->token = c->token;
+        s->expr = lit;
       }
     }
   }
-- 
2.43.0


From b647e025dfbd501d9f9e148853c5675d0eec4196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:30:56 +0000
Subject: [PATCH 29/37] fix: calling an unresolved system call raises an error
 It aborted the host, or called a null pointer in a release build.

---
 source/lib_vm/thread.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/source/lib_vm/thread.cpp b/source/lib_vm/thread.cpp
index 4616c8d..9242653 100644
--- a/source/lib_vm/thread.cpp
+++ b/source/lib_vm/thread.cpp
@@ -420,7 +420,11 @@ void thread_t::do_syscall_(int32_t operand, int32_t num_args) {
   const auto &calls = vm_.program_.syscalls();
   assert(operand >= 0 && operand < int32_t(calls.size()));
   nano_syscall_t sys = calls[operand].call_;
-  assert(sys);
+  // the host might not have resolved this system call
+  if (!sys) {
+    set_error_(thread_error_t::e_bad_syscall);
+    return;
+  }
   sys(*this, num_args);
 }
 
-- 
2.43.0


From 0f651a6701e778794d6c30947cef3b7a44989ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:33:53 +0000
Subject: [PATCH 30/37] fix: a constant is attributed to the line that uses it

---
 source/lib_compiler/sema.cpp | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index ff542f5..9bceefe 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -165,6 +165,7 @@ struct sema_const_t: public ast_visitor_t {
 
   sema_const_t(nano_t &nano)
     : errs_(nano.errors())
+    , ast_(nano.ast())
   {
   }
 
@@ -181,10 +182,16 @@ struct sema_const_t: public ast_visitor_t {
       ast_node_t *e = decl->expr;
       switch (e->type) {
       case ast_exp_lit_var_e:
+        parent->replace_child(n, copy_(e->cast<ast_exp_lit_var_t>(), n));
+        break;
       case ast_exp_lit_str_e:
+        parent->replace_child(n, copy_(e->cast<ast_exp_lit_str_t>(), n));
+        break;
       case ast_exp_lit_float_e:
+        parent->replace_child(n, copy_(e->cast<ast_exp_lit_float_t>(), n));
+        break;
       case ast_exp_none_e:
-        parent->replace_child(n, e);
+        parent->replace_child(n, copy_(e->cast<ast_exp_none_t>(), n));
         break;
       default:
         errs_.cant_evaluate_constant(*n->name);
@@ -245,7 +252,16 @@ struct sema_const_t: public ast_visitor_t {
     ast_visitor_t::visit(p);
   }
 
+  // copy a literal so that it belongs to the source line which uses it
+  template <typename type_t>
+  type_t *copy_(const type_t *literal, const ast_exp_ident_t *use) {
+    auto *lit = ast_.alloc<type_t>(*literal);
+    lit->token = use->name;
+    return lit;
+  }
+
   error_manager_t &errs_;
+  ast_t &ast_;
 };
 
 // ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ----
@@ -275,7 +291,9 @@ struct sema_global_var_t : public ast_visitor_t {
       int32_t val = 0;
       if (eval.eval(n->expr, val)) {
         change_ = true;
-        n->expr = ast_.alloc<ast_exp_lit_var_t>(val);
+        auto *lit = ast_.alloc<ast_exp_lit_var_t>(val);
+        lit->token = n->name;
+        n->expr = lit;
       }
       else {
         if (strict_) {
-- 
2.43.0


From b2a39d874e5b7d6b316544a2ba746382e415f0f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:01 +0000
Subject: [PATCH 31/37] fix: a constant may be given by the name of another one

---
 source/lib_compiler/sema.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/source/lib_compiler/sema.cpp b/source/lib_compiler/sema.cpp
index 9bceefe..c1cb7b0 100644
--- a/source/lib_compiler/sema.cpp
+++ b/source/lib_compiler/sema.cpp
@@ -286,6 +286,7 @@ struct sema_global_var_t : public ast_visitor_t {
     case ast_exp_none_e:
       n->expr = nullptr;
       break;
+    case ast_exp_ident_e:
     case ast_exp_bin_op_e:
     case ast_exp_unary_op_e: {
       int32_t val = 0;
-- 
2.43.0


From d6572ed8dea8af4453f19d64bc17ecccce9d927d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:14:30 +0000
Subject: [PATCH 32/37] fix: loading a directory as source fails instead of
 ending the process

---
 source/lib_common/file.h | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/source/lib_common/file.h b/source/lib_common/file.h
index e51203a..1bc9735 100644
--- a/source/lib_common/file.h
+++ b/source/lib_common/file.h
@@ -1,4 +1,5 @@
 #include <memory>
+#include <new>
 #include <stdio.h>
 #include <stdlib.h>
 
@@ -23,7 +24,14 @@ struct file_t {
       fclose(fd);
       return false;
     }
-    _data.reset(new uint8_t[_size]);
+    // note: the size is not sensible for everything that can be opened, like a
+    //       directory
+    _data.reset(new (std::nothrow) uint8_t[_size]);
+    if (!_data) {
+      fclose(fd);
+      unload();
+      return false;
+    }
 
     const size_t read = fread(_data.get(), 1, _size, fd);
 
-- 
2.43.0


From 44e03465e4a668a539264cc8d519318a97f2daba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:50:58 +0000
Subject: [PATCH 33/37] fix: only letters, digits and underscore make a name

The range check accepted a backquote, braces, bar and tilde as parts of names.
---
 source/lib_compiler/lexer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/source/lib_compiler/lexer.cpp b/source/lib_compiler/lexer.cpp
index 91708d6..088bbaf 100644
--- a/source/lib_compiler/lexer.cpp
+++ b/source/lib_compiler/lexer.cpp
@@ -8,7 +8,7 @@ namespace {
 
 // ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ---- ----
 bool is_alpha(const char t) {
-  return (t >= 'a' && t <= 'z') || (t >= 'A' && t <= 'Z') || (t >= '_');
+  return (t >= 'a' && t <= 'z') || (t >= 'A' && t <= 'Z') || (t == '_');
 }
 
 bool is_numeric(const char t) {
-- 
2.43.0


From 65e473bc2d47a56d2da18b82b4bdf638ba1fe2d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:22:39 +0000
Subject: [PATCH 34/37] fix: a long fraction does not turn a literal into nan
 or infinity

---
 source/lib_compiler/lexer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/source/lib_compiler/lexer.cpp b/source/lib_compiler/lexer.cpp
index 088bbaf..c1d3f2e 100644
--- a/source/lib_compiler/lexer.cpp
+++ b/source/lib_compiler/lexer.cpp
@@ -307,6 +307,10 @@ void lexer_t::push_val_(const char *s, const char *e) {
     else {
       assert(is_numeric(*s));
       v = v * 10 + (*s - '0');
+      // note: digits this far behind the point can not change a float
+      if (f > 1e60) {
+        continue;
+      }
       d = d * 10 + (*s - '0');
       f *= 10;
     }
-- 
2.43.0


From d2d8e4fcf269f4f20d1eb56257c4d404e4fa4571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:30 +0000
Subject: [PATCH 35/37] fix: report the unexpected token itself at top level,
 not the one after it

---
 source/lib_compiler/parser.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/source/lib_compiler/parser.cpp b/source/lib_compiler/parser.cpp
index 3dfaae4..8f11ae2 100644
--- a/source/lib_compiler/parser.cpp
+++ b/source/lib_compiler/parser.cpp
@@ -53,9 +53,7 @@ bool parser_t::parse(error_t &error) {
       default:
         break;
       }
-      const token_t *tok = stream_.pop();
-      assert(tok);
-      nano_.errors().unexpected_token(*tok);
+      nano_.errors().unexpected_token(*t);
     }
   } catch (const error_t &e) {
     error = e;
-- 
2.43.0


From f6d78913fb23e568712d96987bb6aded4635a813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:40:53 +0000
Subject: [PATCH 36/37] fix: a line end carries the number of the line it ends,
 not of the next one

---
 source/lib_compiler/lexer.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/source/lib_compiler/lexer.cpp b/source/lib_compiler/lexer.cpp
index c1d3f2e..01d47b1 100644
--- a/source/lib_compiler/lexer.cpp
+++ b/source/lib_compiler/lexer.cpp
@@ -80,12 +80,12 @@ bool lexer_t::lex(const char *s, int32_t file_no) {
       for (; *s && *s != '\n'; ++s) {
         // empty
       }
+      push_(TOK_EOL);
       {
         assert(s >= new_line_);
         new_line_ = s + 1;
         ++line_.line;
       }
-      push_(TOK_EOL);
       // dont step over the terminator when a comment ends the file
       if (*s == '\0') {
         break;
@@ -208,10 +208,10 @@ bool lexer_t::lex(const char *s, int32_t file_no) {
       push_(TOK_MOD);
       continue;
     case '\n':
+      push_(TOK_EOL);
       assert(s >= new_line_);
       new_line_ = s + 1;
       ++line_.line;
-      push_(TOK_EOL);
       continue;
     case '=':
       if (s[1] == '=') {
-- 
2.43.0


From 7a086728f7e13c4ef5054789e8b9218e8561f139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:25:13 +0000
Subject: [PATCH 37/37] fix: global initialisers run to completion before
 call_init reports success

---
 source/lib_vm/vm.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/source/lib_vm/vm.cpp b/source/lib_vm/vm.cpp
index 360a5f3..458771f 100644
--- a/source/lib_vm/vm.cpp
+++ b/source/lib_vm/vm.cpp
@@ -51,7 +51,13 @@ bool vm_t::call_init() {
   if (!t) {
     return false;
   }
-  return resume(1024 * 8);
+  // globals have to be ready before anything else can run
+  while (!t->finished() && !t->has_error()) {
+    if (!t->resume(1024 * 8)) {
+      break;
+    }
+  }
+  return !t->has_error();
 }
 
 bool vm_t::call_once(const function_t &func,
-- 
2.43.0

