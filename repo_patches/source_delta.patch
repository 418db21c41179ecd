From a41568d74277f12a1971bccb0a2d6445389113e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 01/46] fix: ucontext: consume the function of resume_with()
 before executing it

The function stayed stored in the record of the target while it was running
and, if it threw, also afterwards: the next plain resume of that context
executed it again, and a resume inside of the function re-entered or
overwrote it.
---
 include/boost/context/continuation_ucontext.hpp | 8 ++++++--
 include/boost/context/fiber_ucontext.hpp        | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 09fd311..5966430 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -436,8 +436,10 @@ public:
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
-            ptr = detail::activation_record::current()->ontop( ptr);
+            // consume the function before it is executed: it might throw or switch the context
+            auto ontop = std::move( detail::activation_record::current()->ontop);
             detail::activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
@@ -459,8 +461,10 @@ public:
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
-            ptr = detail::activation_record::current()->ontop( ptr);
+            // consume the function before it is executed: it might throw or switch the context
+            auto ontop = std::move( detail::activation_record::current()->ontop);
             detail::activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 927a139..442266b 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -490,8 +490,10 @@ public:
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-            ptr = detail::fiber_activation_record::current()->ontop( ptr);
+            // consume the function before it is executed: it might throw or switch the context
+            auto ontop = std::move( detail::fiber_activation_record::current()->ontop);
             detail::fiber_activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
@@ -509,8 +511,10 @@ public:
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-            ptr = detail::fiber_activation_record::current()->ontop( ptr);
+            // consume the function before it is executed: it might throw or switch the context
+            auto ontop = std::move( detail::fiber_activation_record::current()->ontop);
             detail::fiber_activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
-- 
2.43.0


From e2b6b473a1502fa9d835084d32ef9aacbaf571a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:49 +0000
Subject: [PATCH 02/46] fix: ucontext: throw forced_unwind only once while a
 context is unwound

The flag stayed set during stack unwinding, a destructor that resumed
another context got forced_unwind thrown out of resume() and the program
was terminated.
---
 include/boost/context/continuation_ucontext.hpp | 4 ++++
 include/boost/context/fiber_ucontext.hpp        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 5966430..381960f 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -434,6 +434,8 @@ public:
         detail::activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
+            // unwind only once: destructors might resume other contexts
+            detail::activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
             // consume the function before it is executed: it might throw or switch the context
@@ -459,6 +461,8 @@ public:
             std::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
+            // unwind only once: destructors might resume other contexts
+            detail::activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
             // consume the function before it is executed: it might throw or switch the context
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 442266b..945bab2 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -488,6 +488,8 @@ public:
         detail::fiber_activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
+            // unwind only once: destructors might resume other contexts
+            detail::fiber_activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
             // consume the function before it is executed: it might throw or switch the context
@@ -509,6 +511,8 @@ public:
             std::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
+            // unwind only once: destructors might resume other contexts
+            detail::fiber_activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
             // consume the function before it is executed: it might throw or switch the context
-- 
2.43.0


From f1a0b98d32cb58eb9fcdc7608db5d98e9a0017c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 03/46] fix: ucontext: do not execute the function of a fiber
 destroyed before its first resume

Destroying a fiber that was never resumed entered its function (and ran it
up to its first suspension point); with fcontext the function is not run.
---
 include/boost/context/fiber_ucontext.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 945bab2..7599a9e 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -284,12 +284,15 @@ public:
 #endif
         Ctx c{ from };
         try {
+            // not executed if the fiber is destroyed before it was resumed
+            if ( BOOST_LIKELY( ! force_unwind) ) {
             // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
             c = boost::context::detail::invoke( fn_, std::move( c) );
 #else
             c = std::invoke( fn_, std::move( c) );
 #endif  
+            }
         } catch ( forced_unwind const& ex) {
             c = Ctx{ ex.from };
         }
-- 
2.43.0


From bedd565cd01f798ca06f2b265a46f05c7ccdc094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 04/46] fix: ucontext: execute the function of resume_with() on
 a fiber resumed the first time

The function was stored but not executed before the context-function was
entered; it ran later, when the fiber was resumed the second time.
---
 include/boost/context/fiber_ucontext.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 7599a9e..65c517f 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -286,6 +286,14 @@ public:
         try {
             // not executed if the fiber is destroyed before it was resumed
             if ( BOOST_LIKELY( ! force_unwind) ) {
+            if ( BOOST_UNLIKELY( nullptr != ontop) ) {
+                // first resume was resume_with(): function is executed before the context-function
+                auto fn = std::move( ontop);
+                ontop = nullptr;
+                fiber_activation_record * ptr = from;
+                c.ptr_ = nullptr;
+                c.ptr_ = fn( ptr);
+            }
             // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
             c = boost::context::detail::invoke( fn_, std::move( c) );
-- 
2.43.0


From ed5908c830b10e99e4c2e0efe8e73e9e2a07ba7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:25 +0000
Subject: [PATCH 05/46] fix: continuation: resume_with() crashed if it was
 given a named function object

resume_with() stored a decayed copy in a tuple but context_ontop() read it
through a tuple of references if Fn was deduced as lvalue reference.
---
 include/boost/context/continuation_fcontext.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index 0977e0f..896d68c 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -106,9 +106,9 @@ void context_entry( transfer_t t) noexcept {
 
 template< typename Ctx, typename Fn >
 transfer_t context_ontop( transfer_t t) {
-    auto p = static_cast< std::tuple< Fn > * >( t.data);
+    auto p = static_cast< Fn * >( t.data);
     BOOST_ASSERT( nullptr != p);
-    typename std::decay< Fn >::type fn = std::get< 0 >( * p);
+    Fn fn = * p;
     t.data = nullptr;
     Ctx c{ t.fctx };
     // execute function, pass continuation via reference
@@ -330,7 +330,7 @@ public:
     template< typename Fn >
     continuation resume_with( Fn && fn) && {
         BOOST_ASSERT( nullptr != fctx_);
-        auto p = std::make_tuple( std::forward< Fn >( fn) );
+        auto p = std::forward< Fn >( fn);
         return { detail::ontop_fcontext(
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
                     detail::exchange( fctx_, nullptr),
@@ -338,7 +338,7 @@ public:
                     std::exchange( fctx_, nullptr),
 #endif
                     & p,
-                    detail::context_ontop< continuation, Fn >).fctx };
+                    detail::context_ontop< continuation, decltype(p) >).fctx };
     }
 
     explicit operator bool() const noexcept {
-- 
2.43.0


From dff83b48a5c7a88b69d97331ef8c7505212670b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 06/46] fix: ucontext: release the fake stack of a terminated
 context (BOOST_USE_ASAN)

resume() tested whether the context to be resumed is terminated, not the one
that is left for the last time: AddressSanitizer's fake stack of each
finished context leaked.
---
 include/boost/context/continuation_ucontext.hpp | 2 +-
 include/boost/context/fiber_ucontext.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 381960f..045ba4e 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -128,7 +128,7 @@ struct BOOST_CONTEXT_DECL activation_record {
         __splitstack_setcontext( sctx.segments_ctx);
 #endif
 #if defined(BOOST_USE_ASAN)
-        if ( terminated) {
+        if ( from->terminated) {
             __sanitizer_start_switch_fiber( nullptr, stack_bottom, stack_size);
         } else {
             __sanitizer_start_switch_fiber( & from->fake_stack, stack_bottom, stack_size);
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 65c517f..2ea7ca7 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -147,7 +147,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
         __splitstack_setcontext( sctx.segments_ctx);
 #endif
 #if defined(BOOST_USE_ASAN)
-        if ( terminated) {
+        if ( from->terminated) {
             __sanitizer_start_switch_fiber( nullptr, stack_bottom, stack_size);
         } else {
             __sanitizer_start_switch_fiber( & from->fake_stack, stack_bottom, stack_size);
-- 
2.43.0


From 70662f99dea610069e643e84141ff57b5c1a3738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 07/46] fix: ucontext: accept non-const function objects in
 resume_with()

In C++14 and later the function object was stored in a non-mutable lambda
and therefore needed a const call operator, in contrast to fcontext and to
ucontext with C++11.
---
 include/boost/context/continuation_ucontext.hpp | 2 +-
 include/boost/context/fiber_ucontext.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 045ba4e..5dd020d 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -172,7 +172,7 @@ struct BOOST_CONTEXT_DECL activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr){
+        current()->ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr) mutable {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 2ea7ca7..808a4f3 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -194,7 +194,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr){
+        current()->ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr) mutable {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
-- 
2.43.0


From 4c10cde2f834898b1427ffd7291d2f814e84495d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 08/46] fix: ucontext: release the stack with the stored
 allocator if getcontext() fails

The allocator passed as rvalue was already moved into the record, its
moved-from remains were used to release the stack (null dereference with
pooled_fixedsize_stack); errno could be clobbered too.
---
 include/boost/context/continuation_ucontext.hpp | 16 ++++++++++------
 include/boost/context/fiber_ucontext.hpp        | 16 ++++++++++------
 2 files changed, 20 insertions(+), 12 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 5dd020d..708da82 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -295,10 +295,12 @@ static activation_record * create_context1( StackAlloc && salloc, Fn && fn) {
             reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sctx.size) );
     // create user-context
     if ( BOOST_UNLIKELY( 0 != ::getcontext( & record->uctx) ) ) {
-        record->~capture_t();
-        salloc.deallocate( sctx);
+        const std::error_code ec( errno, std::system_category() );
+        // `salloc` might have been moved into the record
+        record->terminated = true;
+        record->deallocate();
         throw std::system_error(
-                std::error_code( errno, std::system_category() ),
+                ec,
                 "getcontext() failed");
     }
     record->uctx.uc_stack.ss_sp = stack_bottom;
@@ -338,10 +340,12 @@ static activation_record * create_context2( preallocated palloc, StackAlloc && s
             reinterpret_cast< uintptr_t >( palloc.sctx.sp) - static_cast< uintptr_t >( palloc.sctx.size) );
     // create user-context
     if ( BOOST_UNLIKELY( 0 != ::getcontext( & record->uctx) ) ) {
-        record->~capture_t();
-        salloc.deallocate( palloc.sctx);
+        const std::error_code ec( errno, std::system_category() );
+        // `salloc` might have been moved into the record
+        record->terminated = true;
+        record->deallocate();
         throw std::system_error(
-                std::error_code( errno, std::system_category() ),
+                ec,
                 "getcontext() failed");
     }
     record->uctx.uc_stack.ss_sp = stack_bottom;
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 808a4f3..068ca92 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -331,10 +331,12 @@ static fiber_activation_record * create_fiber1( StackAlloc && salloc, Fn && fn)
             reinterpret_cast< uintptr_t >( sctx.sp) - static_cast< uintptr_t >( sctx.size) );
     // create user-context
     if ( BOOST_UNLIKELY( 0 != ::getcontext( & record->uctx) ) ) {
-        record->~capture_t();
-        salloc.deallocate( sctx);
+        const std::error_code ec( errno, std::system_category() );
+        // `salloc` might have been moved into the record
+        record->terminated = true;
+        record->deallocate();
         throw std::system_error(
-                std::error_code( errno, std::system_category() ),
+                ec,
                 "getcontext() failed");
     }
 #if BOOST_OS_BSD_FREE
@@ -382,10 +384,12 @@ static fiber_activation_record * create_fiber2( preallocated palloc, StackAlloc
             reinterpret_cast< uintptr_t >( palloc.sctx.sp) - static_cast< uintptr_t >( palloc.sctx.size) );
     // create user-context
     if ( BOOST_UNLIKELY( 0 != ::getcontext( & record->uctx) ) ) {
-        record->~capture_t();
-        salloc.deallocate( palloc.sctx);
+        const std::error_code ec( errno, std::system_category() );
+        // `salloc` might have been moved into the record
+        record->terminated = true;
+        record->deallocate();
         throw std::system_error(
-                std::error_code( errno, std::system_category() ),
+                ec,
                 "getcontext() failed");
     }
 #if BOOST_OS_BSD_FREE
-- 
2.43.0


From 77a8dd9d2daeebd45770e2e2a18e474010a0d1f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:34 +0000
Subject: [PATCH 09/46] fix: protected_fixedsize_stack: report a failing
 mprotect()

Without assertions a stack without guard page was handed out.
---
 include/boost/context/posix/protected_fixedsize_stack.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/posix/protected_fixedsize_stack.hpp b/include/boost/context/posix/protected_fixedsize_stack.hpp
index cc77d7d..502595b 100644
--- a/include/boost/context/posix/protected_fixedsize_stack.hpp
+++ b/include/boost/context/posix/protected_fixedsize_stack.hpp
@@ -66,8 +66,10 @@ public:
 
         // conforming to POSIX.1-2001
         const int result( ::mprotect( vp, traits_type::page_size(), PROT_NONE) );
-        boost::ignore_unused(result);
-        BOOST_ASSERT( 0 == result);
+        if ( 0 != result) {
+            ::munmap( vp, size__);
+            throw std::bad_alloc();
+        }
 
         stack_context sctx;
         sctx.size = size__;
-- 
2.43.0


From 6b58646cb0153ae16fd0bacda9e5da8346fdc94b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:12 +0000
Subject: [PATCH 10/46] fix: x86_64: store the stack guard in the new context
 (BOOST_CONTEXT_TLS_STACK_PROTECTOR)

make_fcontext() stored the guard relative to the stack pointer of its caller:
the frame of the caller was overwritten and the new context started with an
undefined guard value.
---
 src/asm/make_x86_64_sysv_elf_gas.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/make_x86_64_sysv_elf_gas.S b/src/asm/make_x86_64_sysv_elf_gas.S
index 7561c08..9336210 100644
--- a/src/asm/make_x86_64_sysv_elf_gas.S
+++ b/src/asm/make_x86_64_sysv_elf_gas.S
@@ -77,7 +77,7 @@ make_fcontext:
 #if defined(BOOST_CONTEXT_TLS_STACK_PROTECTOR)
     /* save stack guard */
     movq  %fs:0x28, %rcx    /* read stack guard from TLS record */
-    movq  %rcx, 0x8(%rsp)   /* save stack guard */
+    movq  %rcx, 0x8(%rax)   /* save stack guard */
 #endif
 
     /* compute abs address of label trampoline */
-- 
2.43.0


From bda4eadece02ce1d12dadbc368614f857d866eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:27 +0000
Subject: [PATCH 11/46] fix: ucontext: fiber.hpp and continuation.hpp can be
 used together

Both headers defined a different detail::forced_unwind: they could not be
included by the same translation unit and a program using both violated
the one definition rule.
---
 .../boost/context/continuation_ucontext.hpp   | 11 +-----
 .../context/detail/exception_ucontext.hpp     | 38 +++++++++++++++++++
 include/boost/context/fiber_ucontext.hpp      | 11 +-----
 3 files changed, 42 insertions(+), 18 deletions(-)
 create mode 100644 include/boost/context/detail/exception_ucontext.hpp

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 708da82..045e503 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -38,6 +38,7 @@ extern "C" {
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
 #include <boost/context/detail/exchange.hpp>
 #endif
+#include <boost/context/detail/exception_ucontext.hpp>
 #include <boost/context/detail/externc.hpp>
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
 #include <boost/context/detail/invoke.hpp>
@@ -216,14 +217,6 @@ struct BOOST_CONTEXT_DECL activation_record_initializer {
     ~activation_record_initializer();
 };
 
-struct forced_unwind {
-    activation_record   *   from{ nullptr };
-
-    forced_unwind( activation_record * from_) noexcept :
-        from{ from_ } {
-    }
-};
-
 template< typename Ctx, typename StackAlloc, typename Fn >
 class capture_record : public activation_record {
 private:
@@ -266,7 +259,7 @@ public:
             c = std::invoke( fn_, std::move( c) );
 #endif  
         } catch ( forced_unwind const& ex) {
-            c = Ctx{ ex.from };
+            c = Ctx{ static_cast< activation_record * >( ex.from) };
         }
         // this context has finished its task
 		from = nullptr;
diff --git a/include/boost/context/detail/exception_ucontext.hpp b/include/boost/context/detail/exception_ucontext.hpp
new file mode 100644
index 0000000..02f0890
--- /dev/null
+++ b/include/boost/context/detail/exception_ucontext.hpp
@@ -0,0 +1,38 @@
+
+//          Copyright Oliver Kowalke 2017.
+// Distributed under the Boost Software License, Version 1.0.
+//    (See accompanying file LICENSE_1_0.txt or copy at
+//          http://www.boost.org/LICENSE_1_0.txt)
+
+#ifndef BOOST_CONTEXT_DETAIL_EXCEPTION_UCONTEXT_H
+#define BOOST_CONTEXT_DETAIL_EXCEPTION_UCONTEXT_H
+
+#include <boost/config.hpp>
+
+#include <boost/context/detail/config.hpp>
+
+#ifdef BOOST_HAS_ABI_HEADERS
+# include BOOST_ABI_PREFIX
+#endif
+
+namespace boost {
+namespace context {
+namespace detail {
+
+// common to fiber and continuation
+struct forced_unwind {
+    // activation record of the context to be resumed after unwinding
+    void    *   from{ nullptr };
+
+    forced_unwind( void * from_) noexcept :
+        from{ from_ } {
+    }
+};
+
+}}}
+
+#ifdef BOOST_HAS_ABI_HEADERS
+#include BOOST_ABI_SUFFIX
+#endif
+
+#endif // BOOST_CONTEXT_DETAIL_EXCEPTION_UCONTEXT_H
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 068ca92..78a5a00 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -39,6 +39,7 @@ extern "C" {
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
 #include <boost/context/detail/exchange.hpp>
 #endif
+#include <boost/context/detail/exception_ucontext.hpp>
 #include <boost/context/detail/externc.hpp>
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
 #include <boost/context/detail/invoke.hpp>
@@ -241,14 +242,6 @@ struct BOOST_CONTEXT_DECL fiber_activation_record_initializer {
     ~fiber_activation_record_initializer();
 };
 
-struct forced_unwind {
-    fiber_activation_record  *  from{ nullptr };
-
-    forced_unwind( fiber_activation_record * from_) noexcept :
-        from{ from_ } {
-    }
-};
-
 template< typename Ctx, typename StackAlloc, typename Fn >
 class fiber_capture_record : public fiber_activation_record {
 private:
@@ -302,7 +295,7 @@ public:
 #endif  
             }
         } catch ( forced_unwind const& ex) {
-            c = Ctx{ ex.from };
+            c = Ctx{ static_cast< fiber_activation_record * >( ex.from) };
         }
         // this context has finished its task
 		from = nullptr;
-- 
2.43.0


From 45dd46a4a5d96bd07df6d8d9ae70bb4bb907b9e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:12 +0000
Subject: [PATCH 12/46] fix: preallocated.hpp: include stack_context.hpp, which
 it uses

---
 include/boost/context/preallocated.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/boost/context/preallocated.hpp b/include/boost/context/preallocated.hpp
index 862a6a5..fd641c0 100644
--- a/include/boost/context/preallocated.hpp
+++ b/include/boost/context/preallocated.hpp
@@ -12,6 +12,7 @@
 #include <boost/config.hpp>
 
 #include <boost/context/detail/config.hpp>
+#include <boost/context/stack_context.hpp>
 
 #ifdef BOOST_HAS_ABI_HEADERS
 # include BOOST_ABI_PREFIX
-- 
2.43.0


From 3c57fb76fec2c2829ea60385c371d829df10878f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:38 +0000
Subject: [PATCH 13/46] fix: pooled_fixedsize_stack: do not replace memory
 behind the pool's block (BOOST_CONTEXT_USE_MAP_STACK)

mmap(MAP_FIXED) maps entire pages, but the blocks requested by the pool
are not multiples of the page size: heap memory behind the block was
replaced by zeros.
---
 include/boost/context/pooled_fixedsize_stack.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/pooled_fixedsize_stack.hpp b/include/boost/context/pooled_fixedsize_stack.hpp
index c115c86..53bb9e6 100644
--- a/include/boost/context/pooled_fixedsize_stack.hpp
+++ b/include/boost/context/pooled_fixedsize_stack.hpp
@@ -47,11 +47,14 @@ struct map_stack_allocator {
     typedef std::ptrdiff_t difference_type;
 
     static char * malloc( const size_type bytes) {
+        // mmap() replaces entire pages
+        const size_type page_size = traitsT::page_size();
+        const size_type size = ( bytes + page_size - 1) / page_size * page_size;
         void * block;
-        if ( ::posix_memalign( &block, traitsT::page_size(), bytes) != 0) {
+        if ( ::posix_memalign( &block, page_size, size) != 0) {
             return 0;
         }
-        if ( mmap( block, bytes, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANON | MAP_FIXED | MAP_STACK, -1, 0) == MAP_FAILED) {
+        if ( mmap( block, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANON | MAP_FIXED | MAP_STACK, -1, 0) == MAP_FAILED) {
             std::free( block);
             return 0;
         }
-- 
2.43.0


From e47175916dec70c988ffad80c1a9f8f196ea1a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:38 +0000
Subject: [PATCH 14/46] fix: pooled_fixedsize_stack: the constructor allocates
 memory, it is not noexcept

A failing allocation of the pool terminated the process instead of
being reported as std::bad_alloc.
---
 include/boost/context/pooled_fixedsize_stack.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/boost/context/pooled_fixedsize_stack.hpp b/include/boost/context/pooled_fixedsize_stack.hpp
index 53bb9e6..19b5276 100644
--- a/include/boost/context/pooled_fixedsize_stack.hpp
+++ b/include/boost/context/pooled_fixedsize_stack.hpp
@@ -131,7 +131,7 @@ public:
 
     basic_pooled_fixedsize_stack( std::size_t stack_size = traits_type::default_size(),
                            std::size_t next_size = 32,
-                           std::size_t max_size = 0) BOOST_NOEXCEPT_OR_NOTHROW :
+                           std::size_t max_size = 0) :
         storage_( new storage( stack_size, next_size, max_size) ) {
     }
 
-- 
2.43.0


From 7d9cd815ee60a0ad0fa4ef547c8422c1d1441400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:04 +0000
Subject: [PATCH 15/46] fix: protected_fixedsize_stack: report a size that can
 not be represented

The computation of the number of bytes to map overflowed for sizes near
the maximum of std::size_t: a stack without usable memory was returned.
---
 include/boost/context/posix/protected_fixedsize_stack.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/context/posix/protected_fixedsize_stack.hpp b/include/boost/context/posix/protected_fixedsize_stack.hpp
index 502595b..f7a6cb2 100644
--- a/include/boost/context/posix/protected_fixedsize_stack.hpp
+++ b/include/boost/context/posix/protected_fixedsize_stack.hpp
@@ -54,6 +54,8 @@ public:
         const std::size_t pages = (size_ + traits_type::page_size() - 1) / traits_type::page_size();
         // add one page at bottom that will be used as guard-page
         const std::size_t size__ = ( pages + 1) * traits_type::page_size();
+        // size not representable
+        if ( size__ <= size_) throw std::bad_alloc();
 
 #if defined(BOOST_CONTEXT_USE_MAP_STACK)
         void * vp = ::mmap( 0, size__, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANON | MAP_STACK, -1, 0);
-- 
2.43.0


From 6144a368614399eec3399c2076430eb9c79f9310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:35 +0000
Subject: [PATCH 16/46] fix: ucontext: a function which can not be copied must
 not break resume_with()

resume_with() had already marked the target as the active context and
had dropped the handle when the function was copied: an exception thrown
by the copy (for instance std::bad_alloc) left the target unreachable
and the bookkeeping of the active context wrong. The function is stored
before anything else is modified.
---
 .../boost/context/continuation_ucontext.hpp   | 40 ++++-------------
 include/boost/context/fiber_ucontext.hpp      | 43 ++++---------------
 2 files changed, 16 insertions(+), 67 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 045e503..6bebc9e 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -149,15 +149,11 @@ struct BOOST_CONTEXT_DECL activation_record {
 #endif
     }
 
+    // stores the function executed on top of `this`-context the next time it is resumed
     template< typename Ctx, typename Fn >
-    activation_record * resume_with( Fn && fn) {
-		from = current();
-        // store `this` in static, thread local pointer
-        // `this` will become the active (running) context
-        // returned by continuation::current()
-        current() = this;
+    void set_ontop( Fn && fn) {
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        current()->ontop = std::bind(
+        ontop = std::bind(
                 [](typename std::decay< Fn >::type & fn, activation_record *& ptr){
                     Ctx c{ ptr };
                     c = fn( std::move( c) );
@@ -173,7 +169,7 @@ struct BOOST_CONTEXT_DECL activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr) mutable {
+        ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr) mutable {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
@@ -185,26 +181,6 @@ struct BOOST_CONTEXT_DECL activation_record {
             return std::exchange( c.ptr_, nullptr);
 #endif
         };
-#endif
-#if defined(BOOST_USE_SEGMENTED_STACKS)
-        // adjust segmented stack properties
-        __splitstack_getcontext( from->sctx.segments_ctx);
-        __splitstack_setcontext( sctx.segments_ctx);
-#endif
-#if defined(BOOST_USE_ASAN)
-        __sanitizer_start_switch_fiber( & from->fake_stack, stack_bottom, stack_size);
-#endif
-        // context switch from parent context to `this`-context
-        ::swapcontext( & from->uctx, & uctx);
-#if defined(BOOST_USE_ASAN)
-        __sanitizer_finish_switch_fiber( current()->fake_stack,
-                                         (const void **) & current()->from->stack_bottom,
-                                         & current()->from->stack_size);
-#endif
-#if defined(BOOST_NO_CXX14_STD_EXCHANGE)
-        return exchange( current()->from, nullptr);
-#else
-        return std::exchange( current()->from, nullptr);
 #endif
     }
 
@@ -450,12 +426,12 @@ public:
 
     template< typename Fn >
     continuation resume_with( Fn && fn) && {
+        // might throw: the context remains suspended and is still referenced by `*this`
+        ptr_->set_ontop< continuation >( std::forward< Fn >( fn) );
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
-        detail::activation_record * ptr =
-            detail::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
+        detail::activation_record * ptr = detail::exchange( ptr_, nullptr)->resume();
 #else
-        detail::activation_record * ptr =
-            std::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
+        detail::activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             // unwind only once: destructors might resume other contexts
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 78a5a00..83eb430 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -171,15 +171,11 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 #endif
     }
 
+    // stores the function executed on top of `this`-context the next time it is resumed
     template< typename Ctx, typename Fn >
-    fiber_activation_record * resume_with( Fn && fn) {
-		from = current();
-        // store `this` in static, thread local pointer
-        // `this` will become the active (running) context
-        // returned by fiber::current()
-        current() = this;
+    void set_ontop( Fn && fn) {
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        current()->ontop = std::bind(
+        ontop = std::bind(
                 [](typename std::decay< Fn >::type & fn, fiber_activation_record *& ptr){
                     Ctx c{ ptr };
                     c = fn( std::move( c) );
@@ -195,7 +191,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
                 std::forward< Fn >( fn),
                 std::placeholders::_1);
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr) mutable {
+        ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr) mutable {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
@@ -207,29 +203,6 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
             return std::exchange( c.ptr_, nullptr);
 #endif
         };
-#endif
-#if defined(BOOST_USE_SEGMENTED_STACKS)
-        // adjust segmented stack properties
-        __splitstack_getcontext( from->sctx.segments_ctx);
-        __splitstack_setcontext( sctx.segments_ctx);
-#endif
-#if defined(BOOST_USE_ASAN)
-        __sanitizer_start_switch_fiber( & from->fake_stack, stack_bottom, stack_size);
-#endif
-#if defined (BOOST_USE_TSAN)
-        __tsan_switch_to_fiber(tsan_fiber, 0);
-#endif
-        // context switch from parent context to `this`-context
-        ::swapcontext( & from->uctx, & uctx);
-#if defined(BOOST_USE_ASAN)
-        __sanitizer_finish_switch_fiber( current()->fake_stack,
-                                         (const void **) & current()->from->stack_bottom,
-                                         & current()->from->stack_size);
-#endif
-#if defined(BOOST_NO_CXX14_STD_EXCHANGE)
-        return exchange( current()->from, nullptr);
-#else
-        return std::exchange( current()->from, nullptr);
 #endif
     }
 
@@ -511,12 +484,12 @@ public:
     template< typename Fn >
     fiber resume_with( Fn && fn) && {
         BOOST_ASSERT( nullptr != ptr_);
+        // might throw: the context remains suspended and is still referenced by `*this`
+        ptr_->set_ontop< fiber >( std::forward< Fn >( fn) );
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
-        detail::fiber_activation_record * ptr =
-            detail::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
+        detail::fiber_activation_record * ptr = detail::exchange( ptr_, nullptr)->resume();
 #else
-        detail::fiber_activation_record * ptr =
-            std::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
+        detail::fiber_activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             // unwind only once: destructors might resume other contexts
-- 
2.43.0


From 8d6c5d0cc7ffd06e3792a5c04242242b5eecd67e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:11 +0000
Subject: [PATCH 17/46] fix: fcontext: move the function of resume_with() to
 the target's stack

It was copied a second time after the switch: an exception thrown by
that copy left the target's pending resume and the resumer could never
be resumed again.
---
 include/boost/context/continuation_fcontext.hpp | 2 +-
 include/boost/context/fiber_fcontext.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index 896d68c..a26fe64 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -108,7 +108,7 @@ template< typename Ctx, typename Fn >
 transfer_t context_ontop( transfer_t t) {
     auto p = static_cast< Fn * >( t.data);
     BOOST_ASSERT( nullptr != p);
-    Fn fn = * p;
+    Fn fn = std::move( * p);
     t.data = nullptr;
     Ctx c{ t.fctx };
     // execute function, pass continuation via reference
diff --git a/include/boost/context/fiber_fcontext.hpp b/include/boost/context/fiber_fcontext.hpp
index a2760cb..2a57838 100644
--- a/include/boost/context/fiber_fcontext.hpp
+++ b/include/boost/context/fiber_fcontext.hpp
@@ -107,7 +107,7 @@ void fiber_entry( transfer_t t) noexcept {
 template< typename Ctx, typename Fn >
 transfer_t fiber_ontop( transfer_t t) {
     BOOST_ASSERT( nullptr != t.data);
-    auto p = *static_cast< Fn * >( t.data);
+    auto p = std::move( *static_cast< Fn * >( t.data) );
     t.data = nullptr;
     // execute function, pass fiber via reference
     Ctx c = p( Ctx{ t.fctx } );
-- 
2.43.0


From e25b67652799a872abfd135b8054b3fa96507221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:09 +0000
Subject: [PATCH 18/46] fix: ucontext: accept bind expressions in resume_with()
 (C++11)

---
 .../boost/context/continuation_ucontext.hpp   | 27 ++++++++++---------
 include/boost/context/fiber_ucontext.hpp      | 27 ++++++++++---------
 2 files changed, 30 insertions(+), 24 deletions(-)

diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 6bebc9e..5242d65 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -153,21 +153,24 @@ struct BOOST_CONTEXT_DECL activation_record {
     template< typename Ctx, typename Fn >
     void set_ontop( Fn && fn) {
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        ontop = std::bind(
-                [](typename std::decay< Fn >::type & fn, activation_record *& ptr){
-                    Ctx c{ ptr };
-                    c = fn( std::move( c) );
-                    if ( ! c) {
-                        ptr = nullptr;
-                    }
+        // not std::bind(): `fn` might be a bind expression itself
+        struct ontop_t {
+            typename std::decay< Fn >::type     fn;
+
+            activation_record * operator()( activation_record *& ptr) {
+                Ctx c{ ptr };
+                c = fn( std::move( c) );
+                if ( ! c) {
+                    ptr = nullptr;
+                }
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
-                    return exchange( c.ptr_, nullptr);
+                return exchange( c.ptr_, nullptr);
 #else
-                    return std::exchange( c.ptr_, nullptr);
+                return std::exchange( c.ptr_, nullptr);
 #endif
-                },
-                std::forward< Fn >( fn),
-                std::placeholders::_1);
+            }
+        };
+        ontop = ontop_t{ std::forward< Fn >( fn) };
 #else
         ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr) mutable {
             Ctx c{ ptr };
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index 83eb430..bc992b9 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -175,21 +175,24 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
     template< typename Ctx, typename Fn >
     void set_ontop( Fn && fn) {
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        ontop = std::bind(
-                [](typename std::decay< Fn >::type & fn, fiber_activation_record *& ptr){
-                    Ctx c{ ptr };
-                    c = fn( std::move( c) );
-                    if ( ! c) {
-                        ptr = nullptr;
-                    }
+        // not std::bind(): `fn` might be a bind expression itself
+        struct ontop_t {
+            typename std::decay< Fn >::type     fn;
+
+            fiber_activation_record * operator()( fiber_activation_record *& ptr) {
+                Ctx c{ ptr };
+                c = fn( std::move( c) );
+                if ( ! c) {
+                    ptr = nullptr;
+                }
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
-                    return exchange( c.ptr_, nullptr);
+                return exchange( c.ptr_, nullptr);
 #else
-                    return std::exchange( c.ptr_, nullptr);
+                return std::exchange( c.ptr_, nullptr);
 #endif
-                },
-                std::forward< Fn >( fn),
-                std::placeholders::_1);
+            }
+        };
+        ontop = ontop_t{ std::forward< Fn >( fn) };
 #else
         ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr) mutable {
             Ctx c{ ptr };
-- 
2.43.0


From 1b4db78bc4dfda5fc25338eef53fe8f5dcab65f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:05:02 +0000
Subject: [PATCH 19/46] fix: fcontext: function objects with an overloaded
 operator& in resume_with()

---
 include/boost/context/continuation_fcontext.hpp | 2 +-
 include/boost/context/fiber_fcontext.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index a26fe64..d4a5c5b 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -337,7 +337,7 @@ public:
 #else
                     std::exchange( fctx_, nullptr),
 #endif
-                    & p,
+                    std::addressof( p),
                     detail::context_ontop< continuation, decltype(p) >).fctx };
     }
 
diff --git a/include/boost/context/fiber_fcontext.hpp b/include/boost/context/fiber_fcontext.hpp
index 2a57838..f08065f 100644
--- a/include/boost/context/fiber_fcontext.hpp
+++ b/include/boost/context/fiber_fcontext.hpp
@@ -342,7 +342,7 @@ public:
 #else
                     std::exchange( fctx_, nullptr),
 #endif
-                    & p,
+                    std::addressof( p),
                     detail::fiber_ontop< fiber, decltype(p) >).fctx };
     }
 
-- 
2.43.0


From aac451c6c1e9534538b56a0fce6aa2bea930f6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:12 +0000
Subject: [PATCH 20/46] fix: mips64 n64: preserve the global pointer across
 switches

$gp is callee-saved in the n64 ABI and slot 136 of the frame is reserved for it,
but jump_fcontext()/ontop_fcontext() did not save or restore it; finish reloaded it
from memory below the stack pointer.
---
 src/asm/jump_mips64_n64_elf_gas.S  | 2 ++
 src/asm/make_mips64_n64_elf_gas.S  | 5 ++---
 src/asm/ontop_mips64_n64_elf_gas.S | 2 ++
 3 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/asm/jump_mips64_n64_elf_gas.S b/src/asm/jump_mips64_n64_elf_gas.S
index 60027fe..aa87680 100644
--- a/src/asm/jump_mips64_n64_elf_gas.S
+++ b/src/asm/jump_mips64_n64_elf_gas.S
@@ -65,6 +65,7 @@ jump_fcontext:
     sd  $s6, 112($sp) # save S6
     sd  $s7, 120($sp) # save S7
     sd  $fp, 128($sp) # save FP
+    sd  $gp, 136($sp) # save GP
     sd  $ra, 144($sp) # save RA
     sd  $ra, 152($sp) # save RA as PC
 
@@ -105,6 +106,7 @@ jump_fcontext:
     ld  $s6, 112($sp) # restore S6
     ld  $s7, 120($sp) # restore S7
     ld  $fp, 128($sp) # restore FP
+    ld  $gp, 136($sp) # restore GP
     ld  $ra, 144($sp) # restore RAa
 
     # load PC
diff --git a/src/asm/make_mips64_n64_elf_gas.S b/src/asm/make_mips64_n64_elf_gas.S
index 40f29a5..7245924 100644
--- a/src/asm/make_mips64_n64_elf_gas.S
+++ b/src/asm/make_mips64_n64_elf_gas.S
@@ -80,9 +80,8 @@ make_fcontext:
     jr  $ra # return pointer to context-data
 
 finish:
-    # reload our gp register (needed for la)
-    daddiu $t0, $sp, -160
-    ld $gp, 136($t0)
+    # gp (needed for dla) was restored from context-data when the context
+    # was entered and has been preserved by the context-function
 
     # call _exit(0)
     #  the previous function should have left the 16 bytes incoming argument
diff --git a/src/asm/ontop_mips64_n64_elf_gas.S b/src/asm/ontop_mips64_n64_elf_gas.S
index e73e039..b00aeb9 100644
--- a/src/asm/ontop_mips64_n64_elf_gas.S
+++ b/src/asm/ontop_mips64_n64_elf_gas.S
@@ -65,6 +65,7 @@ ontop_fcontext:
     sd  $s6, 112($sp) # save S6
     sd  $s7, 120($sp) # save S7
     sd  $fp, 128($sp) # save FP
+    sd  $gp, 136($sp) # save GP
     sd  $ra, 144($sp) # save RA
     sd  $ra, 152($sp) # save RA as PC
 
@@ -105,6 +106,7 @@ ontop_fcontext:
     ld  $s6, 112($sp) # restore S6
     ld  $s7, 120($sp) # restore S7
     ld  $fp, 128($sp) # restore FP
+    ld  $gp, 136($sp) # restore GP
     ld  $ra, 144($sp) # restore RA
 
     # load PC
-- 
2.43.0


From 5f2c1633f2a403c83e09317e9a5966fb398e1182 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:12 +0000
Subject: [PATCH 21/46] fix: sparc64: align the stack top of a new context
 correctly

'and -0xf' does not round down to a multiple of 16 for every stack top.
---
 src/asm/make_sparc64_sysv_elf_gas.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/make_sparc64_sysv_elf_gas.S b/src/asm/make_sparc64_sysv_elf_gas.S
index 3e7ee80..8049779 100644
--- a/src/asm/make_sparc64_sysv_elf_gas.S
+++ b/src/asm/make_sparc64_sysv_elf_gas.S
@@ -23,7 +23,7 @@ make_fcontext:
 	save	%sp, -CC64FSZ, %sp
 
 	# shift address in %i0 (allocated stack) to lower 16 byte boundary
-	and	%i0, -0xf, %i0
+	and	%i0, -0x10, %i0
 
 	# reserve space for two frames on the stack
 	# the first frame is for the call the second one holds the data
-- 
2.43.0


From 5807b3766dcb7069071d696f3a0cbd550cdcf4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:12 +0000
Subject: [PATCH 22/46] fix: ppc64: preserve the non-volatile floating-point
 registers

f14-f31 are non-volatile in the ELFv1 and ELFv2 ABIs, but were lost when other
contexts used them.
---
 src/asm/jump_ppc64_sysv_elf_gas.S  | 83 ++++++++++++++++++++++++++++--
 src/asm/make_ppc64_sysv_elf_gas.S  | 45 ++++++++++++++--
 src/asm/ontop_ppc64_sysv_elf_gas.S | 83 ++++++++++++++++++++++++++++--
 3 files changed, 196 insertions(+), 15 deletions(-)

diff --git a/src/asm/jump_ppc64_sysv_elf_gas.S b/src/asm/jump_ppc64_sysv_elf_gas.S
index fc3c6d6..1ef98c5 100644
--- a/src/asm/jump_ppc64_sysv_elf_gas.S
+++ b/src/asm/jump_ppc64_sysv_elf_gas.S
@@ -47,21 +47,56 @@
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |     CR    |     LR    |     PC    |    F14    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
  *  -------------------------------------------------  *
  *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
  *  -------------------------------------------------  *
- *  |  cr saved |  lr saved |  compiler |   linker  |  *
+ *  |    F15    |    F16    |    F17    |    F18    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
  *  -------------------------------------------------  *
  *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
  *  -------------------------------------------------  *
- *  | TOC saved |    FCTX   |    DATA   |           |  *
+ *  |    F19    |    F20    |    F21    |    F22    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  64 |  65 |  66 |  67 |  68 |  69 |  70 |  71 |  *
+ *  -------------------------------------------------  *
+ *  | 256 | 260 | 264 | 268 | 272 | 276 | 280 | 284 |  *
+ *  -------------------------------------------------  *
+ *  |    F23    |    F24    |    F25    |    F26    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  72 |  73 |  74 |  75 |  76 |  77 |  78 |  79 |  *
+ *  -------------------------------------------------  *
+ *  | 288 | 292 | 296 | 300 | 304 | 308 | 312 | 316 |  *
+ *  -------------------------------------------------  *
+ *  |    F27    |    F28    |    F29    |    F30    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  80 |  81 |  82 |  83 |  84 |  85 |  86 |  87 |  *
+ *  -------------------------------------------------  *
+ *  | 320 | 324 | 328 | 332 | 336 | 340 | 344 | 348 |  *
+ *  -------------------------------------------------  *
+ *  |    F31    | back-chain|  cr saved |  lr saved |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  88 |  89 |  90 |  91 |  92 |  93 |  94 |  95 |  *
+ *  -------------------------------------------------  *
+ *  | 352 | 356 | 360 | 364 | 368 | 372 | 376 | 380 |  *
+ *  -------------------------------------------------  *
+ *  |  compiler |   linker  | TOC saved |    FCTX   |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  96 |  97 |  98 |  99 | 100 | 101 | 102 | 103 |  *
+ *  -------------------------------------------------  *
+ *  | 384 | 388 | 392 | 396 | 400 | 404 | 408 | 412 |  *
+ *  -------------------------------------------------  *
+ *  |    DATA   |           |           |           |  *
  *  -------------------------------------------------  *
  *                                                     *
  *******************************************************/
@@ -98,7 +133,7 @@ jump_fcontext:
 # endif
 #endif
     # reserve space on stack
-    subi  %r1, %r1, 184
+    subi  %r1, %r1, 328
 
 #if _CALL_ELF != 2
     std  %r2,  0(%r1)  # save TOC
@@ -125,6 +160,25 @@ jump_fcontext:
     std  %r3,  152(%r1)  # save hidden
 #endif
 
+    stfd  %f14, 184(%r1)  # save F14
+    stfd  %f15, 192(%r1)  # save F15
+    stfd  %f16, 200(%r1)  # save F16
+    stfd  %f17, 208(%r1)  # save F17
+    stfd  %f18, 216(%r1)  # save F18
+    stfd  %f19, 224(%r1)  # save F19
+    stfd  %f20, 232(%r1)  # save F20
+    stfd  %f21, 240(%r1)  # save F21
+    stfd  %f22, 248(%r1)  # save F22
+    stfd  %f23, 256(%r1)  # save F23
+    stfd  %f24, 264(%r1)  # save F24
+    stfd  %f25, 272(%r1)  # save F25
+    stfd  %f26, 280(%r1)  # save F26
+    stfd  %f27, 288(%r1)  # save F27
+    stfd  %f28, 296(%r1)  # save F28
+    stfd  %f29, 304(%r1)  # save F29
+    stfd  %f30, 312(%r1)  # save F30
+    stfd  %f31, 320(%r1)  # save F31
+
     # save CR
     mfcr  %r0
     std   %r0, 160(%r1)
@@ -168,6 +222,25 @@ jump_fcontext:
     ld  %r3,  152(%r1)  # restore hidden
 #endif
 
+    lfd  %f14, 184(%r1)  # restore F14
+    lfd  %f15, 192(%r1)  # restore F15
+    lfd  %f16, 200(%r1)  # restore F16
+    lfd  %f17, 208(%r1)  # restore F17
+    lfd  %f18, 216(%r1)  # restore F18
+    lfd  %f19, 224(%r1)  # restore F19
+    lfd  %f20, 232(%r1)  # restore F20
+    lfd  %f21, 240(%r1)  # restore F21
+    lfd  %f22, 248(%r1)  # restore F22
+    lfd  %f23, 256(%r1)  # restore F23
+    lfd  %f24, 264(%r1)  # restore F24
+    lfd  %f25, 272(%r1)  # restore F25
+    lfd  %f26, 280(%r1)  # restore F26
+    lfd  %f27, 288(%r1)  # restore F27
+    lfd  %f28, 296(%r1)  # restore F28
+    lfd  %f29, 304(%r1)  # restore F29
+    lfd  %f30, 312(%r1)  # restore F30
+    lfd  %f31, 320(%r1)  # restore F31
+
     # restore CR
     ld  %r0, 160(%r1)
     mtcr  %r0
@@ -181,7 +254,7 @@ jump_fcontext:
     mtctr  %r12
 
     # adjust stack
-    addi  %r1, %r1, 184
+    addi  %r1, %r1, 328
 
 #if _CALL_ELF == 2
     # copy transfer_t into transfer_fn arg registers
diff --git a/src/asm/make_ppc64_sysv_elf_gas.S b/src/asm/make_ppc64_sysv_elf_gas.S
index f513d36..20777d5 100644
--- a/src/asm/make_ppc64_sysv_elf_gas.S
+++ b/src/asm/make_ppc64_sysv_elf_gas.S
@@ -47,21 +47,56 @@
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |     CR    |     LR    |     PC    |    F14    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
  *  -------------------------------------------------  *
  *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
  *  -------------------------------------------------  *
- *  |  cr saved |  lr saved |  compiler |   linker  |  *
+ *  |    F15    |    F16    |    F17    |    F18    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
  *  -------------------------------------------------  *
  *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
  *  -------------------------------------------------  *
- *  | TOC saved |    FCTX   |    DATA   |           |  *
+ *  |    F19    |    F20    |    F21    |    F22    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  64 |  65 |  66 |  67 |  68 |  69 |  70 |  71 |  *
+ *  -------------------------------------------------  *
+ *  | 256 | 260 | 264 | 268 | 272 | 276 | 280 | 284 |  *
+ *  -------------------------------------------------  *
+ *  |    F23    |    F24    |    F25    |    F26    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  72 |  73 |  74 |  75 |  76 |  77 |  78 |  79 |  *
+ *  -------------------------------------------------  *
+ *  | 288 | 292 | 296 | 300 | 304 | 308 | 312 | 316 |  *
+ *  -------------------------------------------------  *
+ *  |    F27    |    F28    |    F29    |    F30    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  80 |  81 |  82 |  83 |  84 |  85 |  86 |  87 |  *
+ *  -------------------------------------------------  *
+ *  | 320 | 324 | 328 | 332 | 336 | 340 | 344 | 348 |  *
+ *  -------------------------------------------------  *
+ *  |    F31    | back-chain|  cr saved |  lr saved |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  88 |  89 |  90 |  91 |  92 |  93 |  94 |  95 |  *
+ *  -------------------------------------------------  *
+ *  | 352 | 356 | 360 | 364 | 368 | 372 | 376 | 380 |  *
+ *  -------------------------------------------------  *
+ *  |  compiler |   linker  | TOC saved |    FCTX   |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  96 |  97 |  98 |  99 | 100 | 101 | 102 | 103 |  *
+ *  -------------------------------------------------  *
+ *  | 384 | 388 | 392 | 396 | 400 | 404 | 408 | 412 |  *
+ *  -------------------------------------------------  *
+ *  |    DATA   |           |           |           |  *
  *  -------------------------------------------------  *
  *                                                     *
  *******************************************************/
@@ -106,7 +141,7 @@ make_fcontext:
 
     # reserve space for context-data on context-stack
     # including 64 byte of linkage + parameter area (R1 % 16 == 0)
-    subi  %r3, %r3, 248
+    subi  %r3, %r3, 392
 
     # third arg of make_fcontext() == address of context-function
     # entry point (ELFv2) or descriptor (ELFv1)
@@ -124,7 +159,7 @@ make_fcontext:
 
     # set back-chain to zero
     li   %r0, 0
-    std  %r0, 184(%r3)
+    std  %r0, 328(%r3)
 
 #if _CALL_ELF != 2
     # zero in r3 indicates first jump to context-function
diff --git a/src/asm/ontop_ppc64_sysv_elf_gas.S b/src/asm/ontop_ppc64_sysv_elf_gas.S
index 46cf30d..c1530ce 100644
--- a/src/asm/ontop_ppc64_sysv_elf_gas.S
+++ b/src/asm/ontop_ppc64_sysv_elf_gas.S
@@ -47,21 +47,56 @@
  *  -------------------------------------------------  *
  *  | 160 | 164 | 168 | 172 | 176 | 180 | 184 | 188 |  *
  *  -------------------------------------------------  *
- *  |     CR    |     LR    |     PC    | back-chain|  *
+ *  |     CR    |     LR    |     PC    |    F14    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  48 |  49 |  50 |  51 |  52 |  53 |  54 |  55 |  *
  *  -------------------------------------------------  *
  *  | 192 | 196 | 200 | 204 | 208 | 212 | 216 | 220 |  *
  *  -------------------------------------------------  *
- *  |  cr saved |  lr saved |  compiler |   linker  |  *
+ *  |    F15    |    F16    |    F17    |    F18    |  *
  *  -------------------------------------------------  *
  *  -------------------------------------------------  *
  *  |  56 |  57 |  58 |  59 |  60 |  61 |  62 |  63 |  *
  *  -------------------------------------------------  *
  *  | 224 | 228 | 232 | 236 | 240 | 244 | 248 | 252 |  *
  *  -------------------------------------------------  *
- *  | TOC saved |    FCTX   |    DATA   |           |  *
+ *  |    F19    |    F20    |    F21    |    F22    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  64 |  65 |  66 |  67 |  68 |  69 |  70 |  71 |  *
+ *  -------------------------------------------------  *
+ *  | 256 | 260 | 264 | 268 | 272 | 276 | 280 | 284 |  *
+ *  -------------------------------------------------  *
+ *  |    F23    |    F24    |    F25    |    F26    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  72 |  73 |  74 |  75 |  76 |  77 |  78 |  79 |  *
+ *  -------------------------------------------------  *
+ *  | 288 | 292 | 296 | 300 | 304 | 308 | 312 | 316 |  *
+ *  -------------------------------------------------  *
+ *  |    F27    |    F28    |    F29    |    F30    |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  80 |  81 |  82 |  83 |  84 |  85 |  86 |  87 |  *
+ *  -------------------------------------------------  *
+ *  | 320 | 324 | 328 | 332 | 336 | 340 | 344 | 348 |  *
+ *  -------------------------------------------------  *
+ *  |    F31    | back-chain|  cr saved |  lr saved |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  88 |  89 |  90 |  91 |  92 |  93 |  94 |  95 |  *
+ *  -------------------------------------------------  *
+ *  | 352 | 356 | 360 | 364 | 368 | 372 | 376 | 380 |  *
+ *  -------------------------------------------------  *
+ *  |  compiler |   linker  | TOC saved |    FCTX   |  *
+ *  -------------------------------------------------  *
+ *  -------------------------------------------------  *
+ *  |  96 |  97 |  98 |  99 | 100 | 101 | 102 | 103 |  *
+ *  -------------------------------------------------  *
+ *  | 384 | 388 | 392 | 396 | 400 | 404 | 408 | 412 |  *
+ *  -------------------------------------------------  *
+ *  |    DATA   |           |           |           |  *
  *  -------------------------------------------------  *
  *                                                     *
  *******************************************************/
@@ -98,7 +133,7 @@ ontop_fcontext:
 # endif
 #endif
     # reserve space on stack
-    subi  %r1, %r1, 184
+    subi  %r1, %r1, 328
 
 #if _CALL_ELF != 2
     std  %r2,  0(%r1)  # save TOC
@@ -125,6 +160,25 @@ ontop_fcontext:
     std  %r3,  152(%r1)  # save hidden
 #endif
 
+    stfd  %f14, 184(%r1)  # save F14
+    stfd  %f15, 192(%r1)  # save F15
+    stfd  %f16, 200(%r1)  # save F16
+    stfd  %f17, 208(%r1)  # save F17
+    stfd  %f18, 216(%r1)  # save F18
+    stfd  %f19, 224(%r1)  # save F19
+    stfd  %f20, 232(%r1)  # save F20
+    stfd  %f21, 240(%r1)  # save F21
+    stfd  %f22, 248(%r1)  # save F22
+    stfd  %f23, 256(%r1)  # save F23
+    stfd  %f24, 264(%r1)  # save F24
+    stfd  %f25, 272(%r1)  # save F25
+    stfd  %f26, 280(%r1)  # save F26
+    stfd  %f27, 288(%r1)  # save F27
+    stfd  %f28, 296(%r1)  # save F28
+    stfd  %f29, 304(%r1)  # save F29
+    stfd  %f30, 312(%r1)  # save F30
+    stfd  %f31, 320(%r1)  # save F31
+
     # save CR
     mfcr  %r0
     std   %r0, 160(%r1)
@@ -167,6 +221,25 @@ ontop_fcontext:
     ld  %r3,  152(%r1)  # restore hidden
 #endif
 
+    lfd  %f14, 184(%r1)  # restore F14
+    lfd  %f15, 192(%r1)  # restore F15
+    lfd  %f16, 200(%r1)  # restore F16
+    lfd  %f17, 208(%r1)  # restore F17
+    lfd  %f18, 216(%r1)  # restore F18
+    lfd  %f19, 224(%r1)  # restore F19
+    lfd  %f20, 232(%r1)  # restore F20
+    lfd  %f21, 240(%r1)  # restore F21
+    lfd  %f22, 248(%r1)  # restore F22
+    lfd  %f23, 256(%r1)  # restore F23
+    lfd  %f24, 264(%r1)  # restore F24
+    lfd  %f25, 272(%r1)  # restore F25
+    lfd  %f26, 280(%r1)  # restore F26
+    lfd  %f27, 288(%r1)  # restore F27
+    lfd  %f28, 296(%r1)  # restore F28
+    lfd  %f29, 304(%r1)  # restore F29
+    lfd  %f30, 312(%r1)  # restore F30
+    lfd  %f31, 320(%r1)  # restore F31
+
     # restore CR
     ld  %r0, 160(%r1)
     mtcr  %r0
@@ -204,7 +277,7 @@ return_to_ctx:
     mtlr  %r0
 
     # adjust stack
-    addi  %r1, %r1, 184
+    addi  %r1, %r1, 328
 
     # jump to context
     bctr
-- 
2.43.0


From 317b220b8e7ad5319b68706030341824f6d917b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:55 +0000
Subject: [PATCH 23/46] fix: winfib: consume the function of resume_with()
 before executing it

---
 include/boost/context/continuation_winfib.hpp | 8 ++++++--
 include/boost/context/fiber_winfib.hpp        | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 856c868..e3dc60b 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -347,8 +347,10 @@ public:
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
-            ptr = detail::activation_record::current()->ontop( ptr);
+            // consume the function before it is executed: it might throw or switch the context
+            auto ontop = std::move( detail::activation_record::current()->ontop);
             detail::activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
@@ -370,8 +372,10 @@ public:
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
-            ptr = detail::activation_record::current()->ontop( ptr);
+            // consume the function before it is executed: it might throw or switch the context
+            auto ontop = std::move( detail::activation_record::current()->ontop);
             detail::activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index cd496d1..314d63a 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -354,8 +354,10 @@ public:
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-            ptr = detail::fiber_activation_record::current()->ontop( ptr);
+            // consume the function before it is executed: it might throw or switch the context
+            auto ontop = std::move( detail::fiber_activation_record::current()->ontop);
             detail::fiber_activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
@@ -373,8 +375,10 @@ public:
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
-            ptr = detail::fiber_activation_record::current()->ontop( ptr);
+            // consume the function before it is executed: it might throw or switch the context
+            auto ontop = std::move( detail::fiber_activation_record::current()->ontop);
             detail::fiber_activation_record::current()->ontop = nullptr;
+            ptr = ontop( ptr);
         }
         return { ptr };
     }
-- 
2.43.0


From b4aa40981cc29ce80b9cb536b884215e0603967f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:55 +0000
Subject: [PATCH 24/46] fix: winfib: throw forced_unwind only once while a
 context is unwound

---
 include/boost/context/continuation_winfib.hpp | 4 ++++
 include/boost/context/fiber_winfib.hpp        | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index e3dc60b..f57b99f 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -345,6 +345,8 @@ public:
         detail::activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
+            // unwind only once: destructors might resume other contexts
+            detail::activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
             // consume the function before it is executed: it might throw or switch the context
@@ -370,6 +372,8 @@ public:
             std::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
+            // unwind only once: destructors might resume other contexts
+            detail::activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::activation_record::current()->ontop) ) {
             // consume the function before it is executed: it might throw or switch the context
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 314d63a..fcf5a18 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -352,6 +352,8 @@ public:
         detail::fiber_activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
+            // unwind only once: destructors might resume other contexts
+            detail::fiber_activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
             // consume the function before it is executed: it might throw or switch the context
@@ -373,6 +375,8 @@ public:
             std::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
+            // unwind only once: destructors might resume other contexts
+            detail::fiber_activation_record::current()->force_unwind = false;
             throw detail::forced_unwind{ ptr};
         } else if ( BOOST_UNLIKELY( nullptr != detail::fiber_activation_record::current()->ontop) ) {
             // consume the function before it is executed: it might throw or switch the context
-- 
2.43.0


From 63d942be404cdee5cd7876007ea8c4956673c7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:55 +0000
Subject: [PATCH 25/46] fix: winfib: do not execute the function of a context
 destroyed before its first resume

---
 include/boost/context/continuation_winfib.hpp | 3 +++
 include/boost/context/fiber_winfib.hpp        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index f57b99f..218a8e8 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -222,12 +222,15 @@ public:
     void run() {
         Ctx c{ from };
         try {
+            // not executed if the continuation is destroyed before it was resumed
+            if ( BOOST_LIKELY( ! force_unwind) ) {
             // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
             c = boost::context::detail::invoke( fn_, std::move( c) );
 #else
             c = std::invoke( fn_, std::move( c) );
 #endif  
+            }
         } catch ( forced_unwind const& ex) {
             c = Ctx{ ex.from };
         }
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index fcf5a18..2509b1c 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -221,12 +221,15 @@ public:
     void run() {
         Ctx c{ from };
         try {
+            // not executed if the fiber is destroyed before it was resumed
+            if ( BOOST_LIKELY( ! force_unwind) ) {
             // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
             c = boost::context::detail::invoke( fn_, std::move( c) );
 #else
             c = std::invoke( fn_, std::move( c) );
 #endif  
+            }
         } catch ( forced_unwind const& ex) {
             c = Ctx{ ex.from };
         }
-- 
2.43.0


From 7994317b1e68742e9c0490fa58606fda426dd6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:55 +0000
Subject: [PATCH 26/46] fix: winfib: execute the function of resume_with() on a
 context resumed the first time

---
 include/boost/context/continuation_winfib.hpp | 8 ++++++++
 include/boost/context/fiber_winfib.hpp        | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 218a8e8..961a144 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -224,6 +224,14 @@ public:
         try {
             // not executed if the continuation is destroyed before it was resumed
             if ( BOOST_LIKELY( ! force_unwind) ) {
+            if ( BOOST_UNLIKELY( nullptr != ontop) ) {
+                // first resume was resume_with(): function is executed before the context-function
+                auto fn = std::move( ontop);
+                ontop = nullptr;
+                activation_record * ptr = from;
+                c.ptr_ = nullptr;
+                c.ptr_ = fn( ptr);
+            }
             // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
             c = boost::context::detail::invoke( fn_, std::move( c) );
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 2509b1c..21d2824 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -223,6 +223,14 @@ public:
         try {
             // not executed if the fiber is destroyed before it was resumed
             if ( BOOST_LIKELY( ! force_unwind) ) {
+            if ( BOOST_UNLIKELY( nullptr != ontop) ) {
+                // first resume was resume_with(): function is executed before the context-function
+                auto fn = std::move( ontop);
+                ontop = nullptr;
+                fiber_activation_record * ptr = from;
+                c.ptr_ = nullptr;
+                c.ptr_ = fn( ptr);
+            }
             // invoke context-function
 #if defined(BOOST_NO_CXX17_STD_INVOKE)
             c = boost::context::detail::invoke( fn_, std::move( c) );
-- 
2.43.0


From 6c16a8b61b29087a7a00675bd9f0b0ad30ba60e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:22 +0000
Subject: [PATCH 27/46] fix: winfib: resume_with() of non-const, bound or
 throwing-copy functions

Function objects with a non-const operator() and bind expressions did not compile,
and a function whose copy throws left the object denoting the context empty.
---
 include/boost/context/continuation_winfib.hpp | 52 ++++++++-----------
 include/boost/context/fiber_winfib.hpp        | 52 ++++++++-----------
 2 files changed, 44 insertions(+), 60 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 961a144..39dcf16 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -129,31 +129,30 @@ struct BOOST_CONTEXT_DECL activation_record {
 #endif
     }
 
+    // stores the function executed on top of `this`-context the next time it is resumed
     template< typename Ctx, typename Fn >
-    activation_record * resume_with( Fn && fn) {
-        from = current();
-        // store `this` in static, thread local pointer
-        // `this` will become the active (running) context
-        // returned by continuation::current()
-        current() = this;
+    void set_ontop( Fn && fn) {
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        current()->ontop = std::bind(
-                [](typename std::decay< Fn >::type & fn, activation_record *& ptr){
-                    Ctx c{ ptr };
-                    c = fn( std::move( c) );
-                    if ( ! c) {
-                        ptr = nullptr;
-                    }
+        // not std::bind(): `fn` might be a bind expression itself
+        struct ontop_t {
+            typename std::decay< Fn >::type     fn;
+
+            activation_record * operator()( activation_record *& ptr) {
+                Ctx c{ ptr };
+                c = fn( std::move( c) );
+                if ( ! c) {
+                    ptr = nullptr;
+                }
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
-                    return exchange( c.ptr_, nullptr);
+                return exchange( c.ptr_, nullptr);
 #else
-                    return std::exchange( c.ptr_, nullptr);
+                return std::exchange( c.ptr_, nullptr);
 #endif
-                },
-                std::forward< Fn >( fn),
-                std::placeholders::_1);
+            }
+        };
+        ontop = ontop_t{ std::forward< Fn >( fn) };
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr){
+        ontop = [fn=std::forward<Fn>(fn)](activation_record *& ptr) mutable {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
@@ -165,13 +164,6 @@ struct BOOST_CONTEXT_DECL activation_record {
             return std::exchange( c.ptr_, nullptr);
 #endif
         };
-#endif
-        // context switch
-        ::SwitchToFiber( fiber);
-#if defined(BOOST_NO_CXX14_STD_EXCHANGE)
-        return detail::exchange( current()->from, nullptr);
-#else
-        return std::exchange( current()->from, nullptr);
 #endif
     }
 
@@ -375,12 +367,12 @@ public:
 
     template< typename Fn >
     continuation resume_with( Fn && fn) && {
+        // might throw: the context remains suspended and is still referenced by `*this`
+        ptr_->set_ontop< continuation >( std::forward< Fn >( fn) );
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
-        detail::activation_record * ptr =
-            detail::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
+        detail::activation_record * ptr = detail::exchange( ptr_, nullptr)->resume();
 #else
-        detail::activation_record * ptr =
-            std::exchange( ptr_, nullptr)->resume_with< continuation >( std::forward< Fn >( fn) );
+        detail::activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::activation_record::current()->force_unwind) ) {
             // unwind only once: destructors might resume other contexts
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 21d2824..ee74f27 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -128,31 +128,30 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
 #endif
     }
 
+    // stores the function executed on top of `this`-context the next time it is resumed
     template< typename Ctx, typename Fn >
-    fiber_activation_record * resume_with( Fn && fn) {
-        from = current();
-        // store `this` in static, thread local pointer
-        // `this` will become the active (running) context
-        // returned by fiber::current()
-        current() = this;
+    void set_ontop( Fn && fn) {
 #if defined(BOOST_NO_CXX14_GENERIC_LAMBDAS)
-        current()->ontop = std::bind(
-                [](typename std::decay< Fn >::type & fn, fiber_activation_record *& ptr){
-                    Ctx c{ ptr };
-                    c = fn( std::move( c) );
-                    if ( ! c) {
-                        ptr = nullptr;
-                    }
+        // not std::bind(): `fn` might be a bind expression itself
+        struct ontop_t {
+            typename std::decay< Fn >::type     fn;
+
+            fiber_activation_record * operator()( fiber_activation_record *& ptr) {
+                Ctx c{ ptr };
+                c = fn( std::move( c) );
+                if ( ! c) {
+                    ptr = nullptr;
+                }
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
-                    return exchange( c.ptr_, nullptr);
+                return exchange( c.ptr_, nullptr);
 #else
-                    return std::exchange( c.ptr_, nullptr);
+                return std::exchange( c.ptr_, nullptr);
 #endif
-                },
-                std::forward< Fn >( fn),
-                std::placeholders::_1);
+            }
+        };
+        ontop = ontop_t{ std::forward< Fn >( fn) };
 #else
-        current()->ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr){
+        ontop = [fn=std::forward<Fn>(fn)](fiber_activation_record *& ptr) mutable {
             Ctx c{ ptr };
             c = fn( std::move( c) );
             if ( ! c) {
@@ -164,13 +163,6 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
             return std::exchange( c.ptr_, nullptr);
 #endif
         };
-#endif
-        // context switch
-        ::SwitchToFiber( fiber);
-#if defined(BOOST_NO_CXX14_STD_EXCHANGE)
-        return detail::exchange( current()->from, nullptr);
-#else
-        return std::exchange( current()->from, nullptr);
 #endif
     }
 
@@ -378,12 +370,12 @@ public:
     template< typename Fn >
     fiber resume_with( Fn && fn) && {
         BOOST_ASSERT( nullptr != ptr_);
+        // might throw: the context remains suspended and is still referenced by `*this`
+        ptr_->set_ontop< fiber >( std::forward< Fn >( fn) );
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
-        detail::fiber_activation_record * ptr =
-            detail::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
+        detail::fiber_activation_record * ptr = detail::exchange( ptr_, nullptr)->resume();
 #else
-        detail::fiber_activation_record * ptr =
-            std::exchange( ptr_, nullptr)->resume_with< fiber >( std::forward< Fn >( fn) );
+        detail::fiber_activation_record * ptr = std::exchange( ptr_, nullptr)->resume();
 #endif
         if ( BOOST_UNLIKELY( detail::fiber_activation_record::current()->force_unwind) ) {
             // unwind only once: destructors might resume other contexts
-- 
2.43.0


From 39b9bbd746b36ce464474a8febfe9c956f21de4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:22 +0000
Subject: [PATCH 28/46] fix: winfib: report a failing CreateFiber()

---
 include/boost/context/continuation_winfib.hpp | 16 +++++++++++++++-
 include/boost/context/fiber_winfib.hpp        | 16 +++++++++++++++-
 2 files changed, 30 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 39dcf16..659e947 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -102,7 +102,7 @@ struct BOOST_CONTEXT_DECL activation_record {
     virtual ~activation_record() {
         if ( BOOST_UNLIKELY( main_ctx) ) {
             ::ConvertFiberToThread();
-        } else {
+        } else if ( BOOST_LIKELY( nullptr != fiber) ) {
             ::DeleteFiber( fiber);
         }
     }
@@ -259,6 +259,13 @@ static activation_record * create_context1( StackAlloc && salloc, Fn && fn) {
             sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
     // create user-context
     record->fiber = ::CreateFiber( sctx.size, & detail::entry_func< capture_t >, record);
+    if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
+        const std::error_code ec( static_cast< int >( ::GetLastError() ), std::system_category() );
+        // `salloc` might have been moved into the record
+        record->terminated = true;
+        record->deallocate();
+        throw std::system_error( ec, "CreateFiber() failed");
+    }
     return record;
 }
 
@@ -276,6 +283,13 @@ static activation_record * create_context2( preallocated palloc, StackAlloc && s
             palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
     // create user-context
     record->fiber = ::CreateFiber( palloc.sctx.size, & detail::entry_func< capture_t >, record);
+    if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
+        const std::error_code ec( static_cast< int >( ::GetLastError() ), std::system_category() );
+        // `salloc` might have been moved into the record
+        record->terminated = true;
+        record->deallocate();
+        throw std::system_error( ec, "CreateFiber() failed");
+    }
     return record;
 }
 
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index ee74f27..2fdbeda 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -101,7 +101,7 @@ struct BOOST_CONTEXT_DECL fiber_activation_record {
     virtual ~fiber_activation_record() {
         if ( BOOST_UNLIKELY( main_ctx) ) {
             ::ConvertFiberToThread();
-        } else {
+        } else if ( BOOST_LIKELY( nullptr != fiber) ) {
             ::DeleteFiber( fiber);
         }
     }
@@ -258,6 +258,13 @@ static fiber_activation_record * create_fiber1( StackAlloc && salloc, Fn && fn)
             sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
     // create user-context
     record->fiber = ::CreateFiber( sctx.size, & detail::fiber_entry_func< capture_t >, record);
+    if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
+        const std::error_code ec( static_cast< int >( ::GetLastError() ), std::system_category() );
+        // `salloc` might have been moved into the record
+        record->terminated = true;
+        record->deallocate();
+        throw std::system_error( ec, "CreateFiber() failed");
+    }
     return record;
 }
 
@@ -275,6 +282,13 @@ static fiber_activation_record * create_fiber2( preallocated palloc, StackAlloc
             palloc.sctx, std::forward< StackAlloc >( salloc), std::forward< Fn >( fn) };
     // create user-context
     record->fiber = ::CreateFiber( palloc.sctx.size, & detail::fiber_entry_func< capture_t >, record);
+    if ( BOOST_UNLIKELY( nullptr == record->fiber) ) {
+        const std::error_code ec( static_cast< int >( ::GetLastError() ), std::system_category() );
+        // `salloc` might have been moved into the record
+        record->terminated = true;
+        record->deallocate();
+        throw std::system_error( ec, "CreateFiber() failed");
+    }
     return record;
 }
 
-- 
2.43.0


From 7f01eb8462beed0585a163e4b3992c5da5b17f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:03 +0000
Subject: [PATCH 29/46] fix: winfib: fiber.hpp and continuation.hpp can be used
 together

detail::forced_unwind was defined differently in both headers.
---
 include/boost/context/continuation_winfib.hpp | 11 ++---------
 include/boost/context/fiber_winfib.hpp        | 11 ++---------
 2 files changed, 4 insertions(+), 18 deletions(-)

diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index 659e947..b823d93 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -27,6 +27,7 @@
 #include <boost/config.hpp>
 
 #include <boost/context/detail/disable_overload.hpp>
+#include <boost/context/detail/exception_ucontext.hpp>
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
 #include <boost/context/detail/exchange.hpp>
 #endif
@@ -176,14 +177,6 @@ struct BOOST_CONTEXT_DECL activation_record_initializer {
     ~activation_record_initializer();
 };
 
-struct forced_unwind {
-    activation_record   *   from{ nullptr };
-
-    explicit forced_unwind( activation_record * from_) :
-        from{ from_ } {
-    }
-};
-
 template< typename Ctx, typename StackAlloc, typename Fn >
 class capture_record : public activation_record {
 private:
@@ -232,7 +225,7 @@ public:
 #endif  
             }
         } catch ( forced_unwind const& ex) {
-            c = Ctx{ ex.from };
+            c = Ctx{ static_cast< activation_record * >( ex.from) };
         }
         // this context has finished its task
         from = nullptr;
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index 2fdbeda..ea4d896 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -27,6 +27,7 @@
 #include <boost/config.hpp>
 
 #include <boost/context/detail/disable_overload.hpp>
+#include <boost/context/detail/exception_ucontext.hpp>
 #if defined(BOOST_NO_CXX14_STD_EXCHANGE)
 #include <boost/context/detail/exchange.hpp>
 #endif
@@ -175,14 +176,6 @@ struct BOOST_CONTEXT_DECL fiber_activation_record_initializer {
     ~fiber_activation_record_initializer();
 };
 
-struct forced_unwind {
-    fiber_activation_record  *  from{ nullptr };
-
-    explicit forced_unwind( fiber_activation_record * from_) :
-        from{ from_ } {
-    }
-};
-
 template< typename Ctx, typename StackAlloc, typename Fn >
 class fiber_capture_record : public fiber_activation_record {
 private:
@@ -231,7 +224,7 @@ public:
 #endif  
             }
         } catch ( forced_unwind const& ex) {
-            c = Ctx{ ex.from };
+            c = Ctx{ static_cast< fiber_activation_record * >( ex.from) };
         }
         // this context has finished its task
         from = nullptr;
-- 
2.43.0


From 96d55a5859547130c34e5484ee17f387ba69b0a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:39 +0000
Subject: [PATCH 30/46] fix: windows protected_fixedsize_stack: sizes near
 SIZE_MAX overflowed

---
 include/boost/context/windows/protected_fixedsize_stack.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/boost/context/windows/protected_fixedsize_stack.hpp b/include/boost/context/windows/protected_fixedsize_stack.hpp
index 30f74c2..7edefd0 100644
--- a/include/boost/context/windows/protected_fixedsize_stack.hpp
+++ b/include/boost/context/windows/protected_fixedsize_stack.hpp
@@ -47,6 +47,8 @@ public:
         const std::size_t pages = (size_ + traits_type::page_size() - 1) / traits_type::page_size();
         // add one page at bottom that will be used as guard-page
         const std::size_t size__ = ( pages + 1) * traits_type::page_size();
+        // size not representable
+        if ( size__ <= size_) throw std::bad_alloc();
 
         void * vp = ::VirtualAlloc( 0, size__, MEM_COMMIT, PAGE_READWRITE);
         if ( ! vp) throw std::bad_alloc();
-- 
2.43.0


From 6a38b47bf25a631d385e43eef665dd59fbd695bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:40 +0000
Subject: [PATCH 31/46] fix: windows protected_fixedsize_stack: report a
 failing VirtualProtect()

---
 .../boost/context/windows/protected_fixedsize_stack.hpp    | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/boost/context/windows/protected_fixedsize_stack.hpp b/include/boost/context/windows/protected_fixedsize_stack.hpp
index 7edefd0..5b2c66b 100644
--- a/include/boost/context/windows/protected_fixedsize_stack.hpp
+++ b/include/boost/context/windows/protected_fixedsize_stack.hpp
@@ -17,7 +17,6 @@ extern "C" {
 
 #include <boost/assert.hpp>
 #include <boost/config.hpp>
-#include <boost/core/ignore_unused.hpp>
 
 #include <boost/context/detail/config.hpp>
 #include <boost/context/stack_context.hpp>
@@ -56,8 +55,10 @@ public:
         DWORD old_options;
         const BOOL result = ::VirtualProtect(
             vp, traits_type::page_size(), PAGE_READWRITE | PAGE_GUARD /*PAGE_NOACCESS*/, & old_options);
-        boost::ignore_unused(result);
-        BOOST_ASSERT( FALSE != result);
+        if ( FALSE == result) {
+            ::VirtualFree( vp, 0, MEM_RELEASE);
+            throw std::bad_alloc();
+        }
 
         stack_context sctx;
         sctx.size = size__;
-- 
2.43.0


From 715dc342cd18dd7f35837c703e94b6fd6e129cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:18 +0000
Subject: [PATCH 32/46] fix: i386 Darwin: align the stack of a new context to
 16 bytes

The entry function was called with a stack pointer that is off by 8: the
frame of this port is 8 bytes smaller than the one of the ELF port the
constant was taken from.
---
 src/asm/make_i386_sysv_macho_gas.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/make_i386_sysv_macho_gas.S b/src/asm/make_i386_sysv_macho_gas.S
index a5890d7..0457abc 100644
--- a/src/asm/make_i386_sysv_macho_gas.S
+++ b/src/asm/make_i386_sysv_macho_gas.S
@@ -40,7 +40,7 @@ _make_fcontext:
     andl  $-16, %eax
 
     /* reserve space for context-data on context-stack, and align the stack */
-    leal  -0x34(%eax), %eax
+    leal  -0x2c(%eax), %eax
 
     /* third arg of make_fcontext() == address of context-function */
     /* stored in EBX */
-- 
2.43.0


From 6ebac27bbfc2994ba3dee4e1ae42ddc030f297f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:18 +0000
Subject: [PATCH 33/46] fix: arm64 Windows: ontop_fcontext() has to remove the
 whole frame

The frame has 0xd0 bytes, only 0xc0 were removed: the resumed function
continued with a stack pointer that was 16 bytes too low.
---
 src/asm/ontop_arm64_aapcs_pe_armasm.asm | 2 +-
 src/asm/ontop_arm64_aapcs_pe_armclang.S | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/asm/ontop_arm64_aapcs_pe_armasm.asm b/src/asm/ontop_arm64_aapcs_pe_armasm.asm
index dc522c0..78885a7 100644
--- a/src/asm/ontop_arm64_aapcs_pe_armasm.asm
+++ b/src/asm/ontop_arm64_aapcs_pe_armasm.asm
@@ -124,7 +124,7 @@ ontop_fcontext proc BOOST_CONTEXT_EXPORT
 
     ; skip pc
     ; restore stack from GP + FPU
-    add  sp, sp, #0xc0
+    add  sp, sp, #0xd0
 
     ; jump to ontop-function
     ret x2
diff --git a/src/asm/ontop_arm64_aapcs_pe_armclang.S b/src/asm/ontop_arm64_aapcs_pe_armclang.S
index bdf097b..427b458 100644
--- a/src/asm/ontop_arm64_aapcs_pe_armclang.S
+++ b/src/asm/ontop_arm64_aapcs_pe_armclang.S
@@ -130,7 +130,7 @@ ontop_fcontext:
 
     // skip pc
     // restore stack from GP + FPU
-    add  sp, sp, #0xc0
+    add  sp, sp, #0xd0
 
     // jump to ontop-function
     ret x2
-- 
2.43.0


From e054b314b7ab00581bbca7ef0ae97bfc5392999d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:35 +0000
Subject: [PATCH 34/46] fix: x86_64 Windows: ontop_fcontext() passes transfer_t
 in memory of its own

The argument and the result of the function executed on top were the same
memory. A function that writes (a part of) its result before it has read
its argument lost the argument.
---
 src/asm/ontop_x86_64_ms_pe_clang_gas.S | 16 ++++++++--------
 src/asm/ontop_x86_64_ms_pe_gas.asm     | 16 ++++++++--------
 src/asm/ontop_x86_64_ms_pe_masm.asm    | 18 +++++++++---------
 3 files changed, 25 insertions(+), 25 deletions(-)

diff --git a/src/asm/ontop_x86_64_ms_pe_clang_gas.S b/src/asm/ontop_x86_64_ms_pe_clang_gas.S
index 162c1f4..d2e8052 100644
--- a/src/asm/ontop_x86_64_ms_pe_clang_gas.S
+++ b/src/asm/ontop_x86_64_ms_pe_clang_gas.S
@@ -191,17 +191,17 @@ ontop_fcontext:
 
     /* keep return-address on stack */
 
-    /* transport_t returned in RAX */
-    /* return parent fcontext_t */
-    movq  %rcx, 0x0(%rax)
-    /* return data */
-    movq  %r8, 0x8(%rax)
+    /* the passed transfer_t must not share memory with the returned one, */
+    /* it is stored in the shadow-space of the suspended context */
+    /* pass parent fcontext_t */
+    movq  %rcx, 0x120(%rcx)
+    /* pass data */
+    movq  %r8, 0x128(%rcx)
 
-    /* transport_t as 1.arg of context-function */
+    /* RDX contains address of passed transfer_t */
+    leaq  0x120(%rcx), %rdx
     /* RCX contains address of returned (hidden) transfer_t */
     movq  %rax, %rcx
-    /* RDX contains address of passed transfer_t */
-    movq  %rax, %rdx
 
     /* indirect jump to context */
     jmp  *%r9
diff --git a/src/asm/ontop_x86_64_ms_pe_gas.asm b/src/asm/ontop_x86_64_ms_pe_gas.asm
index 02e040c..58fb3e3 100644
--- a/src/asm/ontop_x86_64_ms_pe_gas.asm
+++ b/src/asm/ontop_x86_64_ms_pe_gas.asm
@@ -191,17 +191,17 @@ ontop_fcontext:
 
     /* keep return-address on stack */
 
-    /* transport_t returned in RAX */
-    /* return parent fcontext_t */
-    movq  %rcx, 0x0(%rax)
-    /* return data */
-    movq  %r8, 0x8(%rax)
+    /* the passed transfer_t must not share memory with the returned one, */
+    /* it is stored in the shadow-space of the suspended context */
+    /* pass parent fcontext_t */
+    movq  %rcx, 0x120(%rcx)
+    /* pass data */
+    movq  %r8, 0x128(%rcx)
 
-    /* transport_t as 1.arg of context-function */
+    /* RDX contains address of passed transfer_t */
+    leaq  0x120(%rcx), %rdx
     /* RCX contains address of returned (hidden) transfer_t */
     movq  %rax, %rcx
-    /* RDX contains address of passed transfer_t */
-    movq  %rax, %rdx
 
     /* indirect jump to context */
     jmp  *%r9
diff --git a/src/asm/ontop_x86_64_ms_pe_masm.asm b/src/asm/ontop_x86_64_ms_pe_masm.asm
index b57dd15..bc9923a 100644
--- a/src/asm/ontop_x86_64_ms_pe_masm.asm
+++ b/src/asm/ontop_x86_64_ms_pe_masm.asm
@@ -189,17 +189,17 @@ ENDIF
 
     ; keep return-address on stack
 
-    ; transport_t returned in RAX
-    ; return parent fcontext_t
-    mov  [rax], rcx
-    ; return data
-    mov  [rax+08h], r8
+    ; the passed transfer_t must not share memory with the returned one,
+    ; it is stored in the shadow-space of the suspended context
+    ; pass parent fcontext_t
+    mov  [rcx+0120h], rcx
+    ; pass data
+    mov  [rcx+0128h], r8
 
-    ; transport_t as 1.arg of context-function
-    ; RCX contains address of returned (hidden) transfer_t
-    mov rcx,  rax  
     ; RDX contains address of passed transfer_t
-    mov rdx,  rax
+    lea  rdx, [rcx+0120h]
+    ; RCX contains address of returned (hidden) transfer_t
+    mov  rcx, rax
 
     ; indirect jump to context
     jmp  r9
-- 
2.43.0


From 8b27c2583e697e6c49a5cee0f6f7a360cbd12b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:35 +0000
Subject: [PATCH 35/46] fix: arm Darwin: initialize the SjLj handler chain of a
 new context

jump_fcontext() installs the word at offset 64 as chain of SjLj handlers,
but make_fcontext() did not set it: the new context started with whatever
was in its stack before.
---
 src/asm/make_arm_aapcs_macho_gas.S | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/asm/make_arm_aapcs_macho_gas.S b/src/asm/make_arm_aapcs_macho_gas.S
index de93407..cbb1f16 100644
--- a/src/asm/make_arm_aapcs_macho_gas.S
+++ b/src/asm/make_arm_aapcs_macho_gas.S
@@ -52,6 +52,10 @@ _make_fcontext:
     @ third arg of make_fcontext() == address of context-function
     str  a3, [a1, #108]
 
+    @ the chain of SjLj handlers is empty in the new context
+    mov  a2, #0
+    str  a2, [a1, #64]
+
     @ compute address of returned transfer_t
     add  a2, a1, #112
     mov  a3, a2
-- 
2.43.0


From 76edbcc5dd258217cdb4ed7d90d22197336e3c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:46 +0000
Subject: [PATCH 36/46] fix: arm Windows: jump_fcontext() used a register that
 does not exist

There is no A5 (the argument registers are A1 - A4). A4 is free here.
---
 src/asm/jump_arm_aapcs_pe_armasm.asm | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/asm/jump_arm_aapcs_pe_armasm.asm b/src/asm/jump_arm_aapcs_pe_armasm.asm
index bca923c..2beb4a1 100644
--- a/src/asm/jump_arm_aapcs_pe_armasm.asm
+++ b/src/asm/jump_arm_aapcs_pe_armasm.asm
@@ -39,14 +39,14 @@ jump_fcontext PROC
     mrc     p15, #0, v1, c13, c0, #2
 
     ; save current stack base
-    ldr  a5, [v1, #0x04]
-    push {a5}
+    ldr  a4, [v1, #0x04]
+    push {a4}
     ; save current stack limit
-    ldr  a5, [v1, #0x08]
-    push {a5}
+    ldr  a4, [v1, #0x08]
+    push {a4}
     ; save current deallocation stack
-    ldr  a5, [v1, #0xe0c]
-    push {a5}
+    ldr  a4, [v1, #0xe0c]
+    push {a4}
 
     ; store RSP (pointing to context-data) in A1
     mov  a1, sp
@@ -55,14 +55,14 @@ jump_fcontext PROC
     mov  sp, a2
 
     ; restore deallocation stack
-    pop  {a5}
-    str  a5, [v1, #0xe0c]
+    pop  {a4}
+    str  a4, [v1, #0xe0c]
     ; restore stack limit
-    pop  {a5}
-    str  a5, [v1, #0x08]
+    pop  {a4}
+    str  a4, [v1, #0x08]
     ; restore stack base
-    pop  {a5}
-    str  a5, [v1, #0x04]
+    pop  {a4}
+    str  a4, [v1, #0x04]
 
     ; restore hidden,V1-V8,LR
     pop {a4,v1-v8,lr}
-- 
2.43.0


From ed238a4da23f50ad3b2bdc8d5b7c21af76aaee58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:46 +0000
Subject: [PATCH 37/46] fix: arm Windows: ontop_fcontext() restored the stack
 information in the wrong order

The words were stored as base, limit, deallocation stack and have to be
popped in the opposite order. A1, which holds the suspended context, must
not be used for it.
---
 src/asm/ontop_arm_aapcs_pe_armasm.asm | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/asm/ontop_arm_aapcs_pe_armasm.asm b/src/asm/ontop_arm_aapcs_pe_armasm.asm
index f360a8f..135f518 100644
--- a/src/asm/ontop_arm_aapcs_pe_armasm.asm
+++ b/src/asm/ontop_arm_aapcs_pe_armasm.asm
@@ -54,15 +54,15 @@ ontop_fcontext PROC
     ; restore RSP (pointing to context-data) from A2
     mov  sp, a2
 
-    ; restore stack base
-    pop  {a1}
-    str  a1, [v1, #0x04]
-    ; restore stack limit
-    pop  {a1}
-    str  a1, [v1, #0x08]
     ; restore deallocation stack
-    pop  {a1}
-    str  a1, [v1, #0xe0c]
+    pop  {a2}
+    str  a2, [v1, #0xe0c]
+    ; restore stack limit
+    pop  {a2}
+    str  a2, [v1, #0x08]
+    ; restore stack base
+    pop  {a2}
+    str  a2, [v1, #0x04]
 
     ; store parent context in A2
     mov  a2, a1
-- 
2.43.0


From 161c7be8ad821255ae7496a1014ca88c26a86da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:14 +0000
Subject: [PATCH 38/46] fix: arm Windows: preserve D8 - D15

The calling convention of Windows on ARM requires that a called function
preserves D8 - D15, as on the other ARM ports.
---
 src/asm/jump_arm_aapcs_pe_armasm.asm  | 22 +++++++++++++++++-
 src/asm/make_arm_aapcs_pe_armasm.asm  | 32 +++++++++++++++++++--------
 src/asm/ontop_arm_aapcs_pe_armasm.asm | 22 +++++++++++++++++-
 3 files changed, 65 insertions(+), 11 deletions(-)

diff --git a/src/asm/jump_arm_aapcs_pe_armasm.asm b/src/asm/jump_arm_aapcs_pe_armasm.asm
index 2beb4a1..9eff92d 100644
--- a/src/asm/jump_arm_aapcs_pe_armasm.asm
+++ b/src/asm/jump_arm_aapcs_pe_armasm.asm
@@ -12,13 +12,27 @@
 ; *  -------------------------------------------------  *
 ; *  | 0x0 | 0x4 | 0x8 | 0xc | 0x10| 0x14| 0x18| 0x1c|  *
 ; *  -------------------------------------------------  *
-; *  |deall|limit| base|hiddn|  v1 |  v2 |  v3 |  v4 |  *
+; *  |    d8     |    d9     |    d10    |    d11    |  *
 ; *  -------------------------------------------------  *
 ; *  -------------------------------------------------  *
 ; *  |  8  |  9  |  10 |  11 |  12 |  13 |  14 |  15 |  *
 ; *  -------------------------------------------------  *
 ; *  | 0x20| 0x24| 0x28| 0x2c| 0x30| 0x34| 0x38| 0x3c|  *
 ; *  -------------------------------------------------  *
+; *  |    d12    |    d13    |    d14    |    d15    |  *
+; *  -------------------------------------------------  *
+; *  -------------------------------------------------  *
+; *  |  16 |  17 |  18 |  19 |  20 |  21 |  22 |  23 |  *
+; *  -------------------------------------------------  *
+; *  | 0x40| 0x44| 0x48| 0x4c| 0x50| 0x54| 0x58| 0x5c|  *
+; *  -------------------------------------------------  *
+; *  |deall|limit| base|hiddn|  v1 |  v2 |  v3 |  v4 |  *
+; *  -------------------------------------------------  *
+; *  -------------------------------------------------  *
+; *  |  24 |  25 |  26 |  27 |  28 |  29 |  30 |  31 |  *
+; *  -------------------------------------------------  *
+; *  | 0x60| 0x64| 0x68| 0x6c| 0x70| 0x74| 0x78| 0x7c|  *
+; *  -------------------------------------------------  *
 ; *  |  v5 |  v6 |  v7 |  v8 |  lr |  pc | FCTX| DATA|  *
 ; *  -------------------------------------------------  *
 ; *                                                     *
@@ -48,12 +62,18 @@ jump_fcontext PROC
     ldr  a4, [v1, #0xe0c]
     push {a4}
 
+    ; save D8-D15
+    vpush {d8-d15}
+
     ; store RSP (pointing to context-data) in A1
     mov  a1, sp
 
     ; restore RSP (pointing to context-data) from A2
     mov  sp, a2
 
+    ; restore D8-D15
+    vpop {d8-d15}
+
     ; restore deallocation stack
     pop  {a4}
     str  a4, [v1, #0xe0c]
diff --git a/src/asm/make_arm_aapcs_pe_armasm.asm b/src/asm/make_arm_aapcs_pe_armasm.asm
index 27cbfb0..2860b94 100644
--- a/src/asm/make_arm_aapcs_pe_armasm.asm
+++ b/src/asm/make_arm_aapcs_pe_armasm.asm
@@ -12,13 +12,27 @@
 ; *  -------------------------------------------------  *
 ; *  | 0x0 | 0x4 | 0x8 | 0xc | 0x10| 0x14| 0x18| 0x1c|  *
 ; *  -------------------------------------------------  *
-; *  |deall|limit| base|hiddn|  v1 |  v2 |  v3 |  v4 |  *
+; *  |    d8     |    d9     |    d10    |    d11    |  *
 ; *  -------------------------------------------------  *
 ; *  -------------------------------------------------  *
 ; *  |  8  |  9  |  10 |  11 |  12 |  13 |  14 |  15 |  *
 ; *  -------------------------------------------------  *
 ; *  | 0x20| 0x24| 0x28| 0x2c| 0x30| 0x34| 0x38| 0x3c|  *
 ; *  -------------------------------------------------  *
+; *  |    d12    |    d13    |    d14    |    d15    |  *
+; *  -------------------------------------------------  *
+; *  -------------------------------------------------  *
+; *  |  16 |  17 |  18 |  19 |  20 |  21 |  22 |  23 |  *
+; *  -------------------------------------------------  *
+; *  | 0x40| 0x44| 0x48| 0x4c| 0x50| 0x54| 0x58| 0x5c|  *
+; *  -------------------------------------------------  *
+; *  |deall|limit| base|hiddn|  v1 |  v2 |  v3 |  v4 |  *
+; *  -------------------------------------------------  *
+; *  -------------------------------------------------  *
+; *  |  24 |  25 |  26 |  27 |  28 |  29 |  30 |  31 |  *
+; *  -------------------------------------------------  *
+; *  | 0x60| 0x64| 0x68| 0x6c| 0x70| 0x74| 0x78| 0x7c|  *
+; *  -------------------------------------------------  *
 ; *  |  v5 |  v6 |  v7 |  v8 |  lr |  pc | FCTX| DATA|  *
 ; *  -------------------------------------------------  *
 ; *                                                     *
@@ -39,31 +53,31 @@ make_fcontext PROC
     bic  a1, a1, #0x0f
 
     ; reserve space for context-data on context-stack
-    sub  a1, a1, #0x48
+    sub  a1, a1, #0x88
 
     ; save top address of context_stack as 'base'
-    str  a4, [a1, #0x8]
+    str  a4, [a1, #0x48]
     ; second arg of make_fcontext() == size of context-stack
     ; compute bottom address of context-stack (limit)
     sub  a4, a4, a2
     ; save bottom address of context-stack as 'limit'
-    str  a4, [a1, #0x4]
+    str  a4, [a1, #0x44]
     ; save bottom address of context-stack as 'dealloction stack'
-    str  a4, [a1, #0x0]
+    str  a4, [a1, #0x40]
 
     ; third arg of make_fcontext() == address of context-function
-    str  a3, [a1, #0x34]
+    str  a3, [a1, #0x74]
 
     ; compute address of returned transfer_t
-    add  a2, a1, #0x38
+    add  a2, a1, #0x78
     mov  a3, a2
-    str  a3, [a1, #0xc]
+    str  a3, [a1, #0x4c]
 
     ; compute abs address of label finish
     adr  a2, finish
     ; save address of finish as return-address for context-function
     ; will be entered after context-function returns
-    str  a2, [a1, #0x30]
+    str  a2, [a1, #0x70]
 
     bx  lr ; return pointer to context-data
 
diff --git a/src/asm/ontop_arm_aapcs_pe_armasm.asm b/src/asm/ontop_arm_aapcs_pe_armasm.asm
index 135f518..72f8492 100644
--- a/src/asm/ontop_arm_aapcs_pe_armasm.asm
+++ b/src/asm/ontop_arm_aapcs_pe_armasm.asm
@@ -12,13 +12,27 @@
 ; *  -------------------------------------------------  *
 ; *  | 0x0 | 0x4 | 0x8 | 0xc | 0x10| 0x14| 0x18| 0x1c|  *
 ; *  -------------------------------------------------  *
-; *  |deall|limit| base|hiddn|  v1 |  v2 |  v3 |  v4 |  *
+; *  |    d8     |    d9     |    d10    |    d11    |  *
 ; *  -------------------------------------------------  *
 ; *  -------------------------------------------------  *
 ; *  |  8  |  9  |  10 |  11 |  12 |  13 |  14 |  15 |  *
 ; *  -------------------------------------------------  *
 ; *  | 0x20| 0x24| 0x28| 0x2c| 0x30| 0x34| 0x38| 0x3c|  *
 ; *  -------------------------------------------------  *
+; *  |    d12    |    d13    |    d14    |    d15    |  *
+; *  -------------------------------------------------  *
+; *  -------------------------------------------------  *
+; *  |  16 |  17 |  18 |  19 |  20 |  21 |  22 |  23 |  *
+; *  -------------------------------------------------  *
+; *  | 0x40| 0x44| 0x48| 0x4c| 0x50| 0x54| 0x58| 0x5c|  *
+; *  -------------------------------------------------  *
+; *  |deall|limit| base|hiddn|  v1 |  v2 |  v3 |  v4 |  *
+; *  -------------------------------------------------  *
+; *  -------------------------------------------------  *
+; *  |  24 |  25 |  26 |  27 |  28 |  29 |  30 |  31 |  *
+; *  -------------------------------------------------  *
+; *  | 0x60| 0x64| 0x68| 0x6c| 0x70| 0x74| 0x78| 0x7c|  *
+; *  -------------------------------------------------  *
 ; *  |  v5 |  v6 |  v7 |  v8 |  lr |  pc | FCTX| DATA|  *
 ; *  -------------------------------------------------  *
 ; *                                                     *
@@ -48,12 +62,18 @@ ontop_fcontext PROC
     ldr  a1, [v1, #0xe0c]
     push {a1}
 
+    ; save D8-D15
+    vpush {d8-d15}
+
     ; store RSP (pointing to context-data) in A1
     mov  a1, sp
 
     ; restore RSP (pointing to context-data) from A2
     mov  sp, a2
 
+    ; restore D8-D15
+    vpop {d8-d15}
+
     ; restore deallocation stack
     pop  {a2}
     str  a2, [v1, #0xe0c]
-- 
2.43.0


From 0b03aabe6f41e9bd5120ae998ccfe1b8a615ab0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:38 +0000
Subject: [PATCH 39/46] fix: arm Windows: the entry function returns to Thumb
 code

ADR does not set bit 0 of the address, so that returning from the
entry function would have switched the processor to ARM state.
---
 src/asm/make_arm_aapcs_pe_armasm.asm | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/asm/make_arm_aapcs_pe_armasm.asm b/src/asm/make_arm_aapcs_pe_armasm.asm
index 2860b94..606f6f5 100644
--- a/src/asm/make_arm_aapcs_pe_armasm.asm
+++ b/src/asm/make_arm_aapcs_pe_armasm.asm
@@ -75,6 +75,8 @@ make_fcontext PROC
 
     ; compute abs address of label finish
     adr  a2, finish
+    ; the code is Thumb code: ADR leaves bit 0 of the address clear
+    orr  a2, a2, #0x01
     ; save address of finish as return-address for context-function
     ; will be entered after context-function returns
     str  a2, [a1, #0x70]
-- 
2.43.0


From 5ac8b84d86b1725d66367e942e7ba5f29ed6d232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:19 +0000
Subject: [PATCH 40/46] fix: x86_64 shadow stacks: returning from the entry
 function has to end the process

The slot of RBP, which holds the address of finish, was overwritten
with the address of the trampoline, so that the context-function was
entered again after it returned. The address belongs to the slot of
the return address.
---
 src/asm/make_x86_64_sysv_elf_gas.S | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/asm/make_x86_64_sysv_elf_gas.S b/src/asm/make_x86_64_sysv_elf_gas.S
index 9336210..b364035 100644
--- a/src/asm/make_x86_64_sysv_elf_gas.S
+++ b/src/asm/make_x86_64_sysv_elf_gas.S
@@ -108,7 +108,7 @@ make_fcontext:
 1:
     /* save address of "jmp trampoline" as return-address */
     /* for context-function */
-    pop 0x38(%rax)
+    pop 0x40(%rax)
     /* Get the new SSP.  */
     rdsspq  %r9
     /* restore original shadow stack */
-- 
2.43.0


From fc8b6d91486963a30d6be5dde13ec0b342ac0667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:38 +0000
Subject: [PATCH 41/46] fix: shadow stacks: use the number of
 map_shadow_stack()

451 is cachestat(), so that no context could be created.
---
 include/boost/context/continuation_fcontext.hpp | 6 +++++-
 include/boost/context/fiber_fcontext.hpp        | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index d4a5c5b..e9f637b 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -47,9 +47,13 @@
 #if defined(__CET__) && defined(__unix__)
 #  include <cet.h>
 #  include <sys/mman.h>
+#  include <sys/syscall.h>
+#  include <unistd.h>
 #  define SHSTK_ENABLED (__CET__ & 0x2)
 #  define BOOST_CONTEXT_SHADOW_STACK (SHSTK_ENABLED && SHADOW_STACK_SYSCALL)
-#  define __NR_map_shadow_stack 451
+#ifndef __NR_map_shadow_stack
+#  define __NR_map_shadow_stack 453
+#endif
 #ifndef SHADOW_STACK_SET_TOKEN
 #  define SHADOW_STACK_SET_TOKEN 0x1
 #endif
diff --git a/include/boost/context/fiber_fcontext.hpp b/include/boost/context/fiber_fcontext.hpp
index f08065f..a7b919c 100644
--- a/include/boost/context/fiber_fcontext.hpp
+++ b/include/boost/context/fiber_fcontext.hpp
@@ -47,9 +47,13 @@
 #if defined(__CET__) && defined(__unix__)
 #  include <cet.h>
 #  include <sys/mman.h>
+#  include <sys/syscall.h>
+#  include <unistd.h>
 #  define SHSTK_ENABLED (__CET__ & 0x2)
 #  define BOOST_CONTEXT_SHADOW_STACK (SHSTK_ENABLED && SHADOW_STACK_SYSCALL)
-#  define __NR_map_shadow_stack 451
+#ifndef __NR_map_shadow_stack
+#  define __NR_map_shadow_stack 453
+#endif
 #ifndef SHADOW_STACK_SET_TOKEN
 #  define SHADOW_STACK_SET_TOKEN 0x1
 #endif
-- 
2.43.0


From 58136e404ac8e63fe23790df11822b21718da68d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:38 +0000
Subject: [PATCH 42/46] fix: shadow stacks: the size has to be a multiple of 8

map_shadow_stack() rejects other sizes (large stacks whose bottom is not aligned).
---
 include/boost/context/continuation_fcontext.hpp | 6 ++++--
 include/boost/context/fiber_fcontext.hpp        | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index e9f637b..43de59e 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -195,7 +195,8 @@ fcontext_t create_context1( StackAlloc && salloc, Fn && fn) {
     // align shadow stack to 8 bytes.
 	ss_size = (ss_size + 7) & ~7;
     // Todo: shadow stack occupies at least 4KB
-    ss_size = (ss_size > 4096) ? size : 4096;
+    // the restore token has to be aligned to 8 bytes too
+    ss_size = (ss_size > 4096) ? ((size + 7) & ~static_cast< std::size_t >( 7) ) : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
     BOOST_ASSERT(ss_base != -1);
@@ -236,7 +237,8 @@ fcontext_t create_context2( preallocated palloc, StackAlloc && salloc, Fn && fn)
     // align shadow stack to 8 bytes.
 	ss_size = (ss_size + 7) & ~7;
     // Todo: shadow stack occupies at least 4KB
-    ss_size = (ss_size > 4096) ? size : 4096;
+    // the restore token has to be aligned to 8 bytes too
+    ss_size = (ss_size > 4096) ? ((size + 7) & ~static_cast< std::size_t >( 7) ) : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
     BOOST_ASSERT(ss_base != -1);
diff --git a/include/boost/context/fiber_fcontext.hpp b/include/boost/context/fiber_fcontext.hpp
index a7b919c..dc82048 100644
--- a/include/boost/context/fiber_fcontext.hpp
+++ b/include/boost/context/fiber_fcontext.hpp
@@ -192,7 +192,8 @@ fcontext_t create_fiber1( StackAlloc && salloc, Fn && fn) {
     // align shadow stack to 8 bytes.
 	ss_size = (ss_size + 7) & ~7;
     // Todo: shadow stack occupies at least 4KB
-    ss_size = (ss_size > 4096) ? size : 4096;
+    // the restore token has to be aligned to 8 bytes too
+    ss_size = (ss_size > 4096) ? ((size + 7) & ~static_cast< std::size_t >( 7) ) : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
     BOOST_ASSERT(ss_base != -1);
@@ -233,7 +234,8 @@ fcontext_t create_fiber2( preallocated palloc, StackAlloc && salloc, Fn && fn) {
     // align shadow stack to 8 bytes.
 	ss_size = (ss_size + 7) & ~7;
     // Todo: shadow stack occupies at least 4KB
-    ss_size = (ss_size > 4096) ? size : 4096;
+    // the restore token has to be aligned to 8 bytes too
+    ss_size = (ss_size > 4096) ? ((size + 7) & ~static_cast< std::size_t >( 7) ) : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
     BOOST_ASSERT(ss_base != -1);
-- 
2.43.0


From 4d87167d7a941099e80654b3afeae95c1ce5a59f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:38 +0000
Subject: [PATCH 43/46] fix: shadow stacks: report a failing map_shadow_stack()

The assertion compared a pointer with an integer, which does not compile.
---
 include/boost/context/continuation_fcontext.hpp | 16 ++++++++++++++--
 include/boost/context/fiber_fcontext.hpp        | 16 ++++++++++++++--
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index 43de59e..7edf813 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -45,6 +45,8 @@
 #endif
 
 #if defined(__CET__) && defined(__unix__)
+#  include <cerrno>
+#  include <system_error>
 #  include <cet.h>
 #  include <sys/mman.h>
 #  include <sys/syscall.h>
@@ -199,7 +201,12 @@ fcontext_t create_context1( StackAlloc && salloc, Fn && fn) {
     ss_size = (ss_size > 4096) ? ((size + 7) & ~static_cast< std::size_t >( 7) ) : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
-    BOOST_ASSERT(ss_base != -1);
+    if ( BOOST_UNLIKELY( MAP_FAILED == ss_base) ) {
+        const std::error_code ec( errno, std::system_category() );
+        // `salloc` might have been moved into the record
+        record->deallocate();
+        throw std::system_error( ec, "map_shadow_stack() failed");
+    }
     unsigned long ss_sp = (unsigned long)ss_base + ss_size;
     /* pass the shadow stack pointer to make_fcontext
 	 i.e., link the new shadow stack with the new fcontext
@@ -241,7 +248,12 @@ fcontext_t create_context2( preallocated palloc, StackAlloc && salloc, Fn && fn)
     ss_size = (ss_size > 4096) ? ((size + 7) & ~static_cast< std::size_t >( 7) ) : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
-    BOOST_ASSERT(ss_base != -1);
+    if ( BOOST_UNLIKELY( MAP_FAILED == ss_base) ) {
+        const std::error_code ec( errno, std::system_category() );
+        // `salloc` might have been moved into the record
+        record->deallocate();
+        throw std::system_error( ec, "map_shadow_stack() failed");
+    }
     unsigned long ss_sp = (unsigned long)ss_base + ss_size;
     /* pass the shadow stack pointer to make_fcontext
 	 i.e., link the new shadow stack with the new fcontext
diff --git a/include/boost/context/fiber_fcontext.hpp b/include/boost/context/fiber_fcontext.hpp
index dc82048..0888b06 100644
--- a/include/boost/context/fiber_fcontext.hpp
+++ b/include/boost/context/fiber_fcontext.hpp
@@ -45,6 +45,8 @@
 #endif
 
 #if defined(__CET__) && defined(__unix__)
+#  include <cerrno>
+#  include <system_error>
 #  include <cet.h>
 #  include <sys/mman.h>
 #  include <sys/syscall.h>
@@ -196,7 +198,12 @@ fcontext_t create_fiber1( StackAlloc && salloc, Fn && fn) {
     ss_size = (ss_size > 4096) ? ((size + 7) & ~static_cast< std::size_t >( 7) ) : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
-    BOOST_ASSERT(ss_base != -1);
+    if ( BOOST_UNLIKELY( MAP_FAILED == ss_base) ) {
+        const std::error_code ec( errno, std::system_category() );
+        // `salloc` might have been moved into the record
+        record->deallocate();
+        throw std::system_error( ec, "map_shadow_stack() failed");
+    }
     unsigned long ss_sp = (unsigned long)ss_base + ss_size;
     /* pass the shadow stack pointer to make_fcontext
 	 i.e., link the new shadow stack with the new fcontext
@@ -238,7 +245,12 @@ fcontext_t create_fiber2( preallocated palloc, StackAlloc && salloc, Fn && fn) {
     ss_size = (ss_size > 4096) ? ((size + 7) & ~static_cast< std::size_t >( 7) ) : 4096;
     // create shadow stack
     void *ss_base = (void *)syscall(__NR_map_shadow_stack, 0, ss_size, SHADOW_STACK_SET_TOKEN);
-    BOOST_ASSERT(ss_base != -1);
+    if ( BOOST_UNLIKELY( MAP_FAILED == ss_base) ) {
+        const std::error_code ec( errno, std::system_category() );
+        // `salloc` might have been moved into the record
+        record->deallocate();
+        throw std::system_error( ec, "map_shadow_stack() failed");
+    }
     unsigned long ss_sp = (unsigned long)ss_base + ss_size;
     /* pass the shadow stack pointer to make_fcontext
 	 i.e., link the new shadow stack with the new fcontext
-- 
2.43.0


From ff21073a9593ea4dea488c8e15b75f26ba8fd09e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:25 +0000
Subject: [PATCH 44/46] fix: static destructors and std::exit() use the record
 of a thread

The thread-local initializer deletes the record of the main context, so a
context resumed by the destructor of an object with static or thread storage
duration reads freed memory; and std::exit() called by a context deletes the
record of the running context.
---
 src/continuation.cpp | 15 +++++++++++++--
 src/fiber.cpp        | 15 +++++++++++++--
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/continuation.cpp b/src/continuation.cpp
index 2d77696..186bf7e 100644
--- a/src/continuation.cpp
+++ b/src/continuation.cpp
@@ -10,6 +10,9 @@
 #include "boost/context/continuation_winfib.hpp"
 #endif
 
+#include <cstddef>
+#include <new>
+
 #include <boost/config.hpp>
 
 #ifdef BOOST_HAS_ABI_HEADERS
@@ -32,9 +35,11 @@ activation_record_initializer::activation_record_initializer() noexcept {
 }
 
 activation_record_initializer::~activation_record_initializer() {
-    if ( 0 == --counter) {
-        BOOST_ASSERT( current_rec->is_main_context() );
+    // not the main context: a context called std::exit() and is still running
+    if ( 0 == --counter && current_rec->is_main_context() ) {
         delete current_rec;
+        // might be required by destructors that are executed later
+        current_rec = nullptr;
     }
 }
 
@@ -46,6 +51,12 @@ activation_record *&
 activation_record::current() noexcept {
     // initialized the first time control passes; per thread
     thread_local static activation_record_initializer initializer;
+    if ( BOOST_UNLIKELY( nullptr == current_rec) ) {
+        // `initializer` was already destroyed: the destructor of an object with
+        // static or thread storage duration uses a context
+        alignas( activation_record) thread_local static unsigned char storage[sizeof( activation_record)];
+        current_rec = ::new ( static_cast< void * >( storage) ) activation_record();
+    }
     return current_rec;
 }
 
diff --git a/src/fiber.cpp b/src/fiber.cpp
index b6b790d..7039b36 100644
--- a/src/fiber.cpp
+++ b/src/fiber.cpp
@@ -10,6 +10,9 @@
 #include "boost/context/fiber_winfib.hpp"
 #endif
 
+#include <cstddef>
+#include <new>
+
 #include <boost/config.hpp>
 
 #ifdef BOOST_HAS_ABI_HEADERS
@@ -32,9 +35,11 @@ fiber_activation_record_initializer::fiber_activation_record_initializer() noexc
 }
 
 fiber_activation_record_initializer::~fiber_activation_record_initializer() {
-    if ( 0 == --counter) {
-        BOOST_ASSERT( fib_current_rec->is_main_context() );
+    // not the main context: a context called std::exit() and is still running
+    if ( 0 == --counter && fib_current_rec->is_main_context() ) {
         delete fib_current_rec;
+        // might be required by destructors that are executed later
+        fib_current_rec = nullptr;
     }
 }
 
@@ -46,6 +51,12 @@ fiber_activation_record *&
 fiber_activation_record::current() noexcept {
     // initialized the first time control passes; per thread
     thread_local static fiber_activation_record_initializer initializer;
+    if ( BOOST_UNLIKELY( nullptr == fib_current_rec) ) {
+        // `initializer` was already destroyed: the destructor of an object with
+        // static or thread storage duration uses a context
+        alignas( fiber_activation_record) thread_local static unsigned char storage[sizeof( fiber_activation_record)];
+        fib_current_rec = ::new ( static_cast< void * >( storage) ) fiber_activation_record();
+    }
     return fib_current_rec;
 }
 
-- 
2.43.0


From f41511f67fc75e9b42d89b354c081e0366a63da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:04 +0000
Subject: [PATCH 45/46] fix: provide the documented comparison operators

---
 .../boost/context/continuation_fcontext.hpp   | 20 +++++++++++++++++++
 .../boost/context/continuation_ucontext.hpp   | 20 +++++++++++++++++++
 include/boost/context/continuation_winfib.hpp | 20 +++++++++++++++++++
 include/boost/context/fiber_fcontext.hpp      | 20 +++++++++++++++++++
 include/boost/context/fiber_ucontext.hpp      | 20 +++++++++++++++++++
 include/boost/context/fiber_winfib.hpp        | 20 +++++++++++++++++++
 6 files changed, 120 insertions(+)

diff --git a/include/boost/context/continuation_fcontext.hpp b/include/boost/context/continuation_fcontext.hpp
index 7edf813..9b61bd3 100644
--- a/include/boost/context/continuation_fcontext.hpp
+++ b/include/boost/context/continuation_fcontext.hpp
@@ -367,10 +367,30 @@ public:
         return nullptr == fctx_;
     }
 
+    bool operator==( continuation const& other) const noexcept {
+        return fctx_ == other.fctx_;
+    }
+
+    bool operator!=( continuation const& other) const noexcept {
+        return ! ( other == * this);
+    }
+
     bool operator<( continuation const& other) const noexcept {
         return fctx_ < other.fctx_;
     }
 
+    bool operator>( continuation const& other) const noexcept {
+        return other < * this;
+    }
+
+    bool operator<=( continuation const& other) const noexcept {
+        return ! ( other < * this);
+    }
+
+    bool operator>=( continuation const& other) const noexcept {
+        return ! ( * this < other);
+    }
+
     template< typename charT, class traitsT >
     friend std::basic_ostream< charT, traitsT > &
     operator<<( std::basic_ostream< charT, traitsT > & os, continuation const& other) {
diff --git a/include/boost/context/continuation_ucontext.hpp b/include/boost/context/continuation_ucontext.hpp
index 5242d65..00db2d8 100644
--- a/include/boost/context/continuation_ucontext.hpp
+++ b/include/boost/context/continuation_ucontext.hpp
@@ -457,10 +457,30 @@ public:
         return nullptr == ptr_ || ptr_->terminated;
     }
 
+    bool operator==( continuation const& other) const noexcept {
+        return ptr_ == other.ptr_;
+    }
+
+    bool operator!=( continuation const& other) const noexcept {
+        return ! ( other == * this);
+    }
+
     bool operator<( continuation const& other) const noexcept {
         return ptr_ < other.ptr_;
     }
 
+    bool operator>( continuation const& other) const noexcept {
+        return other < * this;
+    }
+
+    bool operator<=( continuation const& other) const noexcept {
+        return ! ( other < * this);
+    }
+
+    bool operator>=( continuation const& other) const noexcept {
+        return ! ( * this < other);
+    }
+
     #if !defined(BOOST_EMBTC)
     
     template< typename charT, class traitsT >
diff --git a/include/boost/context/continuation_winfib.hpp b/include/boost/context/continuation_winfib.hpp
index b823d93..c224588 100644
--- a/include/boost/context/continuation_winfib.hpp
+++ b/include/boost/context/continuation_winfib.hpp
@@ -402,9 +402,29 @@ public:
         return nullptr == ptr_ || ptr_->terminated;
     }
 
+    bool operator==( continuation const& other) const noexcept {
+        return ptr_ == other.ptr_;
+    }
+
+    bool operator!=( continuation const& other) const noexcept {
+        return ! ( other == * this);
+    }
+
     bool operator<( continuation const& other) const noexcept {
         return ptr_ < other.ptr_;
     }
+
+    bool operator>( continuation const& other) const noexcept {
+        return other < * this;
+    }
+
+    bool operator<=( continuation const& other) const noexcept {
+        return ! ( other < * this);
+    }
+
+    bool operator>=( continuation const& other) const noexcept {
+        return ! ( * this < other);
+    }
     
     #if !defined(BOOST_EMBTC)
     
diff --git a/include/boost/context/fiber_fcontext.hpp b/include/boost/context/fiber_fcontext.hpp
index 0888b06..45ad6e5 100644
--- a/include/boost/context/fiber_fcontext.hpp
+++ b/include/boost/context/fiber_fcontext.hpp
@@ -372,10 +372,30 @@ public:
         return nullptr == fctx_;
     }
 
+    bool operator==( fiber const& other) const noexcept {
+        return fctx_ == other.fctx_;
+    }
+
+    bool operator!=( fiber const& other) const noexcept {
+        return ! ( other == * this);
+    }
+
     bool operator<( fiber const& other) const noexcept {
         return fctx_ < other.fctx_;
     }
 
+    bool operator>( fiber const& other) const noexcept {
+        return other < * this;
+    }
+
+    bool operator<=( fiber const& other) const noexcept {
+        return ! ( other < * this);
+    }
+
+    bool operator>=( fiber const& other) const noexcept {
+        return ! ( * this < other);
+    }
+
     #if !defined(BOOST_EMBTC)
     
     template< typename charT, class traitsT >
diff --git a/include/boost/context/fiber_ucontext.hpp b/include/boost/context/fiber_ucontext.hpp
index bc992b9..955d6e8 100644
--- a/include/boost/context/fiber_ucontext.hpp
+++ b/include/boost/context/fiber_ucontext.hpp
@@ -515,10 +515,30 @@ public:
         return nullptr == ptr_ || ptr_->terminated;
     }
 
+    bool operator==( fiber const& other) const noexcept {
+        return ptr_ == other.ptr_;
+    }
+
+    bool operator!=( fiber const& other) const noexcept {
+        return ! ( other == * this);
+    }
+
     bool operator<( fiber const& other) const noexcept {
         return ptr_ < other.ptr_;
     }
 
+    bool operator>( fiber const& other) const noexcept {
+        return other < * this;
+    }
+
+    bool operator<=( fiber const& other) const noexcept {
+        return ! ( other < * this);
+    }
+
+    bool operator>=( fiber const& other) const noexcept {
+        return ! ( * this < other);
+    }
+
     #if !defined(BOOST_EMBTC)
 
     template< typename charT, class traitsT >
diff --git a/include/boost/context/fiber_winfib.hpp b/include/boost/context/fiber_winfib.hpp
index ea4d896..15cff98 100644
--- a/include/boost/context/fiber_winfib.hpp
+++ b/include/boost/context/fiber_winfib.hpp
@@ -405,9 +405,29 @@ public:
         return nullptr == ptr_ || ptr_->terminated;
     }
 
+    bool operator==( fiber const& other) const noexcept {
+        return ptr_ == other.ptr_;
+    }
+
+    bool operator!=( fiber const& other) const noexcept {
+        return ! ( other == * this);
+    }
+
     bool operator<( fiber const& other) const noexcept {
         return ptr_ < other.ptr_;
     }
+
+    bool operator>( fiber const& other) const noexcept {
+        return other < * this;
+    }
+
+    bool operator<=( fiber const& other) const noexcept {
+        return ! ( other < * this);
+    }
+
+    bool operator>=( fiber const& other) const noexcept {
+        return ! ( * this < other);
+    }
     
     #if !defined(BOOST_EMBTC)
     
-- 
2.43.0


From bfb4a9827680a1d685e08695ed2eac6ec7fb754c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:09:04 +0000
Subject: [PATCH 46/46] fix: link-time optimization must not reuse the address
 of another thread's record

---
 src/continuation.cpp | 3 +++
 src/fiber.cpp        | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/src/continuation.cpp b/src/continuation.cpp
index 186bf7e..2a6a06b 100644
--- a/src/continuation.cpp
+++ b/src/continuation.cpp
@@ -47,6 +47,9 @@ activation_record_initializer::~activation_record_initializer() {
 
 namespace detail {
 
+// not inlined by link-time optimization: the calling function might be
+// resumed by another thread and must not reuse the address of the record
+BOOST_NOINLINE
 activation_record *&
 activation_record::current() noexcept {
     // initialized the first time control passes; per thread
diff --git a/src/fiber.cpp b/src/fiber.cpp
index 7039b36..9c733f2 100644
--- a/src/fiber.cpp
+++ b/src/fiber.cpp
@@ -47,6 +47,9 @@ fiber_activation_record_initializer::~fiber_activation_record_initializer() {
 
 namespace detail {
 
+// not inlined by link-time optimization: the calling function might be
+// resumed by another thread and must not reuse the address of the record
+BOOST_NOINLINE
 fiber_activation_record *&
 fiber_activation_record::current() noexcept {
     // initialized the first time control passes; per thread
-- 
2.43.0

