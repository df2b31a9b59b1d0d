From ec41eae75ae34ed9178cc6db76afac7885311347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:20 +0000
Subject: [PATCH 01/32] fix: AwaitSticky of several futures used an undeclared
 name, the header did not compile

---
 include/yaclib/coro/await_sticky.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/coro/await_sticky.hpp b/include/yaclib/coro/await_sticky.hpp
index dce18ad..96560e7 100644
--- a/include/yaclib/coro/await_sticky.hpp
+++ b/include/yaclib/coro/await_sticky.hpp
@@ -16,7 +16,7 @@ YACLIB_INLINE auto AwaitSticky(Waited& waited) noexcept {
 template <typename... Waited, typename = std::enable_if_t<(... && is_waitable_v<Waited>)>>
 YACLIB_INLINE auto AwaitSticky(Waited&... waited) noexcept {
   using namespace detail;
-  static constexpr auto kSharedCount = Count<SharedHandle, typename Waited::Handle...>;
+  static constexpr auto kSharedCount = kCount<SharedHandle, typename Waited::Handle...>;
   using Awaiter = std::conditional_t<kSharedCount == 0, MultiAwaitAwaiter<AwaitEvent<true>>,
                                      MultiAwaitAwaiter<StaticSharedEvent<AwaitEvent<true>, kSharedCount>>>;
   YACLIB_ASSERT(... && waited.Valid());
-- 
2.43.0


From a5ed341039a0afe86ac0289fcd36628881bfdb18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:23 +0000
Subject: [PATCH 02/32] fix: Ready() and co_await treated a registered callback
 as a ready result

---
 include/yaclib/algo/detail/base_core.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/yaclib/algo/detail/base_core.hpp b/include/yaclib/algo/detail/base_core.hpp
index a3aac33..6a43d7e 100644
--- a/include/yaclib/algo/detail/base_core.hpp
+++ b/include/yaclib/algo/detail/base_core.hpp
@@ -26,7 +26,8 @@ class BaseCore : public InlineCore {
 
   bool Empty() const noexcept {
     auto callback = _callback.load(std::memory_order_acquire);
-    return callback == kEmpty;
+    // A registered callback (waiter, SharedFuture's callbacks list) doesn't mean that result is ready
+    return callback != kResult;
   }
 
   template <bool Shared>
-- 
2.43.0


From 8f6425522dd638e3635b5cd4e4d7f5cdd9a70de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:44 +0000
Subject: [PATCH 03/32] fix: the value of a shared state was moved out without
 acquire of other owners' accesses

---
 include/yaclib/coro/detail/promise_type.hpp   | 4 +++-
 include/yaclib/util/detail/unique_counter.hpp | 6 +++++-
 include/yaclib/util/helper.hpp                | 4 +++-
 3 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/yaclib/coro/detail/promise_type.hpp b/include/yaclib/coro/detail/promise_type.hpp
index f4655bc..eec70d8 100644
--- a/include/yaclib/coro/detail/promise_type.hpp
+++ b/include/yaclib/coro/detail/promise_type.hpp
@@ -101,7 +101,9 @@ class PromiseType final : public PromiseTypeBase<V, E, Lazy, Shared> {
     return this->Add(1);
   }
   std::size_t GetRef() noexcept final {
-    return this->Get();
+    // Callers use the count to decide that they are the only owner and can move the value out,
+    // so accesses of the previous owners should happen before it
+    return this->Get(std::memory_order_acquire);
   }
   void DecRef() noexcept final {
     this->Sub(1);
diff --git a/include/yaclib/util/detail/unique_counter.hpp b/include/yaclib/util/detail/unique_counter.hpp
index 3395d0d..5fc81f1 100644
--- a/include/yaclib/util/detail/unique_counter.hpp
+++ b/include/yaclib/util/detail/unique_counter.hpp
@@ -2,6 +2,10 @@
 
 #include <yaclib/util/detail/default_deleter.hpp>
 
+#include <cstddef>
+#include <utility>
+#include <yaclib_std/atomic>
+
 namespace yaclib::detail {
 
 template <typename CounterBase, typename Deleter = DefaultDeleter>
@@ -23,7 +27,7 @@ struct OneCounter : CounterBase {
     Deleter::Delete(*this);
   }
 
-  std::size_t Get() noexcept {
+  std::size_t Get(std::memory_order = std::memory_order_relaxed) const noexcept {
     return 1;
   }
 };
diff --git a/include/yaclib/util/helper.hpp b/include/yaclib/util/helper.hpp
index dd2241d..f95dbdf 100644
--- a/include/yaclib/util/helper.hpp
+++ b/include/yaclib/util/helper.hpp
@@ -23,7 +23,9 @@ class Helper final : public Counter<ObjectT, DefaultDeleter> {
   }
 
   std::size_t GetRef() noexcept final {
-    return this->Get();
+    // Callers use the count to decide that they are the only owner and can move the value out,
+    // so accesses of the previous owners should happen before it
+    return this->Get(std::memory_order_acquire);
   }
 };
 
-- 
2.43.0


From af834ff819de58591bc916c1787f0fef1cc4a34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:05 +0000
Subject: [PATCH 04/32] fix: a coroutine stole the executor of the core it
 awaited

---
 include/yaclib/coro/detail/promise_type.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/yaclib/coro/detail/promise_type.hpp b/include/yaclib/coro/detail/promise_type.hpp
index eec70d8..7abbcea 100644
--- a/include/yaclib/coro/detail/promise_type.hpp
+++ b/include/yaclib/coro/detail/promise_type.hpp
@@ -124,7 +124,8 @@ class PromiseType final : public PromiseTypeBase<V, E, Lazy, Shared> {
   }
 
   YACLIB_INLINE void Impl(InlineCore& caller) noexcept {
-    this->_executor = std::move(DownCast<BaseCore>(caller)._executor);
+    // Copy: caller can be shared with other callbacks, and after Await it is still a valid future with its executor
+    this->_executor = DownCast<BaseCore>(caller)._executor;
     YACLIB_ASSERT(this->_executor != nullptr);
   }
   [[nodiscard]] InlineCore* Here(InlineCore& caller) noexcept final {
-- 
2.43.0


From eaf189cfa109044a4412ed0d779b3ea306699e2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:58 +0000
Subject: [PATCH 05/32] fix: a Task built by Schedule or LazyContract crashed
 when it was returned from a callback or awaited

Its head was resumed as a continuation instead of being submitted to its executor.
---
 include/yaclib/algo/detail/core.hpp         |  9 ++++++++-
 include/yaclib/algo/detail/promise_core.hpp | 12 ++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/yaclib/algo/detail/core.hpp b/include/yaclib/algo/detail/core.hpp
index e87eda5..23fa00b 100644
--- a/include/yaclib/algo/detail/core.hpp
+++ b/include/yaclib/algo/detail/core.hpp
@@ -153,7 +153,14 @@ class Core : public ResultCoreT<Type, Ret, E>, public FuncCore<Func> {
       return Done<SymmetricTransfer, true>(core.template MoveOrConst<!AsyncShared>());
     };
     if constexpr (IsRun(Type)) {
-      return async_done();
+      if constexpr (kAsync != AsyncType::None) {
+        if (this->_self.caller != nullptr) {
+          return async_done();
+        }
+      }
+      // We are head of a Task, which was started by another core: it was returned from a callback or awaited
+      this->_executor->Submit(*this);
+      return Noop<SymmetricTransfer>();
     } else {
       if constexpr (kAsync != AsyncType::None) {
         if (this->_self.unwrapping != 0) {
diff --git a/include/yaclib/algo/detail/promise_core.hpp b/include/yaclib/algo/detail/promise_core.hpp
index c77cd2d..0e4a50e 100644
--- a/include/yaclib/algo/detail/promise_core.hpp
+++ b/include/yaclib/algo/detail/promise_core.hpp
@@ -51,6 +51,18 @@ class PromiseCore : public std::conditional_t<Shared, SharedCore<V, E>, UniqueCo
     this->Store(StopTag{});
     Loop(this, this->template SetResult<false>());
   }
+
+  // We are head of a Task, which was started by another core: it was returned from a callback or awaited
+  [[nodiscard]] InlineCore* Here(InlineCore& /*caller*/) noexcept final {
+    this->_executor->Submit(*this);
+    return nullptr;
+  }
+#if YACLIB_SYMMETRIC_TRANSFER != 0
+  [[nodiscard]] yaclib_std::coroutine_handle<> Next(InlineCore& /*caller*/) noexcept final {
+    this->_executor->Submit(*this);
+    return Noop<true>();
+  }
+#endif
 };
 
 }  // namespace yaclib::detail
-- 
2.43.0


From 137adfc9b68a27fd10e41b3900054bd0d7968980 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:19 +0000
Subject: [PATCH 06/32] fix: WhenAll of different types terminated on the
 second failure

AllTuple<FirstFail> took the value of a failed result, which throws in a noexcept function.
---
 include/yaclib/async/when/all_tuple.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/yaclib/async/when/all_tuple.hpp b/include/yaclib/async/when/all_tuple.hpp
index fbe322c..b88c32d 100644
--- a/include/yaclib/async/when/all_tuple.hpp
+++ b/include/yaclib/async/when/all_tuple.hpp
@@ -51,14 +51,14 @@ struct AllTuple<FailPolicy::FirstFail, OutputValue, OutputError, InputCore> {
 
   template <std::size_t Index, typename Result>
   void Consume(Result&& result) {
-    if (!result && !_done.load(std::memory_order_relaxed) && !_done.exchange(true, std::memory_order_acq_rel)) {
+    if (result) {
+      std::get<Index>(_tuple) = std::forward<Result>(result).Value();
+    } else if (!_done.load(std::memory_order_relaxed) && !_done.exchange(true, std::memory_order_acq_rel)) {
       if (result.State() == ResultState::Error) {
         std::move(_p).Set(std::forward<Result>(result).Error());
       } else {
         std::move(_p).Set(std::forward<Result>(result).Exception());
       }
-    } else {
-      std::get<Index>(_tuple) = std::forward<Result>(result).Value();
     }
   }
 
-- 
2.43.0


From 9b85ad1037d579225682d9490133ed271ff2c799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:16 +0000
Subject: [PATCH 07/32] fix: MakeSharedContractOn returned a pair of the wrong
 type and could not be instantiated

---
 include/yaclib/async/shared_contract.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/async/shared_contract.hpp b/include/yaclib/async/shared_contract.hpp
index 7bc01d8..d723e11 100644
--- a/include/yaclib/async/shared_contract.hpp
+++ b/include/yaclib/async/shared_contract.hpp
@@ -23,7 +23,7 @@ template <typename V = void, typename E = StopError>
 }
 
 template <typename V = void, typename E = StopError>
-[[nodiscard]] SharedContract<V, E> MakeSharedContractOn(IExecutor& e) {
+[[nodiscard]] SharedContractOn<V, E> MakeSharedContractOn(IExecutor& e) {
   auto core = MakeShared<detail::SharedCore<V, E>>(detail::kSharedRefWithFuture);
   e.IncRef();
   core->_executor.Reset(NoRefTag{}, &e);
-- 
2.43.0


From 1f3369fcdf97a13a15bb0d63f2a08e6a23925ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:11 +0000
Subject: [PATCH 08/32] fix: destruction of an already completed Task cancelled
 it again

---
 include/yaclib/lazy/task.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/lazy/task.hpp b/include/yaclib/lazy/task.hpp
index 84891e7..6e0a70e 100644
--- a/include/yaclib/lazy/task.hpp
+++ b/include/yaclib/lazy/task.hpp
@@ -38,7 +38,7 @@ class Task final {
 
   Task() noexcept = default;
   ~Task() noexcept {
-    if (Valid()) {
+    if (Valid() && !Ready()) {
       std::move(*this).Cancel();
     }
   }
-- 
2.43.0


From 2cebeb415f728896b6a5ade2fa35e92981f3dd26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:43 +0000
Subject: [PATCH 09/32] fix: Mutex UnlockOn resumed the coroutine before it
 released the mutex

---
 include/yaclib/coro/mutex.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/yaclib/coro/mutex.hpp b/include/yaclib/coro/mutex.hpp
index ea9f842..ce05107 100644
--- a/include/yaclib/coro/mutex.hpp
+++ b/include/yaclib/coro/mutex.hpp
@@ -75,8 +75,9 @@ struct MutexImpl {
     // executor for current coroutine resume
     auto curr_executor = std::exchange(curr._executor, &executor);
     YACLIB_ASSERT(curr_executor != nullptr);
-    executor.Submit(curr);
+    // curr should be submitted after the last access to the mutex, because curr can destroy it
     if (TryUnlockAwait()) {
+      executor.Submit(curr);
       YACLIB_SUSPEND();
     }
     auto& next = GetHead();
@@ -85,10 +86,12 @@ struct MutexImpl {
         _receiver = static_cast<BaseCore*>(next.next);
         // curr_executor for next critical section
         next._executor = std::move(curr_executor);
+        executor.Submit(curr);
         YACLIB_TRANSFER(next.Curr());
       }
     }
     _receiver = static_cast<BaseCore*>(next.next);
+    executor.Submit(curr);
     // next._executor for next critical section
     next._executor->Submit(next);
     YACLIB_SUSPEND();
-- 
2.43.0


From d5addd2c19bacca9f9c00dfcf18cc3b2b5db2daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:50 +0000
Subject: [PATCH 10/32] fix: SharedMutex Lock touched the mutex after the
 coroutine could already be resumed and destroy it

---
 include/yaclib/coro/shared_mutex.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/yaclib/coro/shared_mutex.hpp b/include/yaclib/coro/shared_mutex.hpp
index b1e6253..f38079b 100644
--- a/include/yaclib/coro/shared_mutex.hpp
+++ b/include/yaclib/coro/shared_mutex.hpp
@@ -39,11 +39,13 @@ struct SharedMutexImpl {
 
   [[nodiscard]] bool AwaitLock(BaseCore& curr) noexcept {
     curr.next = nullptr;
-    std::lock_guard lock{_lock};
+    std::unique_lock lock{_lock};
     auto s = _state.fetch_add(kWriter, std::memory_order_acq_rel);
     if (s / kWriter == 0) {
       std::uint32_t r = s % kWriter;
       _writers_first = &curr;
+      // The last active reader runs curr without _lock, so after fetch_add curr can be done and the mutex destroyed
+      lock.unlock();
       return r != 0 && _readers_wait.fetch_add(r, std::memory_order_acq_rel) != -r;
     }
     _writers_tail->next = &curr;
-- 
2.43.0


From 4d150a5625366b89462c240d5094c9ebb6f5a978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:01 +0000
Subject: [PATCH 11/32] fix: fiber atomic fetch_and, increments and decrements
 compute what std::atomic computes

fetch_and added its argument; the prefix operators returned the old value and the postfix ones the new value.
---
 include/yaclib/fault/detail/fiber/atomic.hpp | 36 ++++++++++----------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/atomic.hpp b/include/yaclib/fault/detail/fiber/atomic.hpp
index 96d16a8..c6e0a8d 100644
--- a/include/yaclib/fault/detail/fiber/atomic.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic.hpp
@@ -153,12 +153,12 @@ class AtomicIntegralBase<T, true> : public AtomicFloatingBase<T, true> {
 
   T fetch_and(T arg, std::memory_order) noexcept {
     auto val = _value;
-    _value += arg;
+    _value &= arg;
     return val;
   }
   T fetch_and(T arg, std::memory_order) volatile noexcept {
     auto val = _value;
-    _value += arg;
+    _value &= arg;
     return val;
   }
 
@@ -185,31 +185,31 @@ class AtomicIntegralBase<T, true> : public AtomicFloatingBase<T, true> {
   }
 
   T operator++() noexcept {
-    return _value++;
+    return ++_value;
   }
   T operator++() volatile noexcept {
-    return _value++;
+    return ++_value;
   }
 
   T operator++(int) noexcept {
-    return ++_value;
+    return _value++;
   }
   T operator++(int) volatile noexcept {
-    return ++_value;
+    return _value++;
   }
 
   T operator--() noexcept {
-    return _value--;
+    return --_value;
   }
   T operator--() volatile noexcept {
-    return _value--;
+    return --_value;
   }
 
   T operator--(int) noexcept {
-    return --_value;
+    return _value--;
   }
   T operator--(int) volatile noexcept {
-    return --_value;
+    return _value--;
   }
 
   T operator&=(T arg) noexcept {
@@ -275,31 +275,31 @@ class Atomic<U*> : public AtomicBase<U*> {
   }
 
   U* operator++() noexcept {
-    return _value++;
+    return ++_value;
   }
   U* operator++() volatile noexcept {
-    return _value++;
+    return ++_value;
   }
 
   U* operator++(int) noexcept {
-    return ++_value;
+    return _value++;
   }
   U* operator++(int) volatile noexcept {
-    return ++_value;
+    return _value++;
   }
 
   U* operator--() noexcept {
-    return _value--;
+    return --_value;
   }
   U* operator--() volatile noexcept {
-    return _value--;
+    return --_value;
   }
 
   U* operator--(int) noexcept {
-    return --_value;
+    return _value--;
   }
   U* operator--(int) volatile noexcept {
-    return --_value;
+    return _value--;
   }
 
   U* operator+=(std::ptrdiff_t arg) noexcept {
-- 
2.43.0


From 71c9ca977b0121d3d83c0a50cf03ea9930f38983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:21 +0000
Subject: [PATCH 12/32] fix: fiber atomic arithmetic of signed integers wraps
 around

A compiler folds 'a.fetch_add(1); a.load() > old' to true because the plain addition must not overflow; std::atomic wraps.
---
 include/yaclib/fault/detail/fiber/atomic.hpp | 86 +++++++++++++++-----
 1 file changed, 66 insertions(+), 20 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/atomic.hpp b/include/yaclib/fault/detail/fiber/atomic.hpp
index c6e0a8d..32f84cc 100644
--- a/include/yaclib/fault/detail/fiber/atomic.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic.hpp
@@ -2,10 +2,32 @@
 
 #include <yaclib/fault/detail/fiber/atomic_wait.hpp>
 
+#include <type_traits>
 #include <utility>
 
 namespace yaclib::detail::fiber {
 
+// Atomic arithmetic of signed integers wraps around, it never overflows
+template <typename T>
+constexpr T WrapAdd(T lhs, T rhs) noexcept {
+  if constexpr (std::is_integral_v<T>) {
+    using U = std::make_unsigned_t<T>;
+    return static_cast<T>(static_cast<U>(lhs) + static_cast<U>(rhs));
+  } else {
+    return lhs + rhs;
+  }
+}
+
+template <typename T>
+constexpr T WrapSub(T lhs, T rhs) noexcept {
+  if constexpr (std::is_integral_v<T>) {
+    using U = std::make_unsigned_t<T>;
+    return static_cast<T>(static_cast<U>(lhs) - static_cast<U>(rhs));
+  } else {
+    return lhs - rhs;
+  }
+}
+
 template <typename T>
 class AtomicBase : public AtomicWait<T> {
   using Base = AtomicWait<T>;
@@ -97,39 +119,47 @@ class AtomicFloatingBase<T, true> : public AtomicBase<T> {
   using Base::Base;
 
   T fetch_add(T arg, std::memory_order) noexcept {
-    auto val = _value;
-    _value += arg;
+    T val = _value;
+    _value = WrapAdd<T>(val, arg);
     return val;
   }
   T fetch_add(T arg, std::memory_order) volatile noexcept {
-    auto val = _value;
-    _value += arg;
+    T val = _value;
+    _value = WrapAdd<T>(val, arg);
     return val;
   }
 
   T fetch_sub(T arg, std::memory_order) noexcept {
-    auto val = _value;
-    _value -= arg;
+    T val = _value;
+    _value = WrapSub<T>(val, arg);
     return val;
   }
   T fetch_sub(T arg, std::memory_order) volatile noexcept {
-    auto val = _value;
-    _value -= arg;
+    T val = _value;
+    _value = WrapSub<T>(val, arg);
     return val;
   }
 
   T operator+=(T arg) noexcept {
-    return _value += arg;
+    T val = WrapAdd<T>(_value, arg);
+    _value = val;
+    return val;
   }
   T operator+=(T arg) volatile noexcept {
-    return _value += arg;
+    T val = WrapAdd<T>(_value, arg);
+    _value = val;
+    return val;
   }
 
   T operator-=(T arg) noexcept {
-    return _value -= arg;
+    T val = WrapSub<T>(_value, arg);
+    _value = val;
+    return val;
   }
   T operator-=(T arg) volatile noexcept {
-    return _value -= arg;
+    T val = WrapSub<T>(_value, arg);
+    _value = val;
+    return val;
   }
 
  protected:
@@ -185,31 +215,47 @@ class AtomicIntegralBase<T, true> : public AtomicFloatingBase<T, true> {
   }
 
   T operator++() noexcept {
-    return ++_value;
+    T val = WrapAdd<T>(_value, 1);
+    _value = val;
+    return val;
   }
   T operator++() volatile noexcept {
-    return ++_value;
+    T val = WrapAdd<T>(_value, 1);
+    _value = val;
+    return val;
   }
 
   T operator++(int) noexcept {
-    return _value++;
+    T val = _value;
+    _value = WrapAdd<T>(val, 1);
+    return val;
   }
   T operator++(int) volatile noexcept {
-    return _value++;
+    T val = _value;
+    _value = WrapAdd<T>(val, 1);
+    return val;
   }
 
   T operator--() noexcept {
-    return --_value;
+    T val = WrapSub<T>(_value, 1);
+    _value = val;
+    return val;
   }
   T operator--() volatile noexcept {
-    return --_value;
+    T val = WrapSub<T>(_value, 1);
+    _value = val;
+    return val;
   }
 
   T operator--(int) noexcept {
-    return _value--;
+    T val = _value;
+    _value = WrapSub<T>(val, 1);
+    return val;
   }
   T operator--(int) volatile noexcept {
-    return _value--;
+    T val = _value;
+    _value = WrapSub<T>(val, 1);
+    return val;
   }
 
   T operator&=(T arg) noexcept {
-- 
2.43.0


From 1942289823d28c912630cd918c6d90dce54e221c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:37 +0000
Subject: [PATCH 13/32] fix: fiber atomic compare_exchange compares the
 representation of floating values and works on volatile objects

---
 include/yaclib/fault/detail/fiber/atomic.hpp | 30 ++++++++++++++++----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/atomic.hpp b/include/yaclib/fault/detail/fiber/atomic.hpp
index 32f84cc..b1be1be 100644
--- a/include/yaclib/fault/detail/fiber/atomic.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic.hpp
@@ -2,6 +2,7 @@
 
 #include <yaclib/fault/detail/fiber/atomic_wait.hpp>
 
+#include <cstring>
 #include <type_traits>
 #include <utility>
 
@@ -91,16 +92,35 @@ class AtomicBase : public AtomicWait<T> {
   }
 
  protected:
-  bool CompareExchangeHelper(T& expected, T desired) {
-    if (this->_value == expected) {
-      this->_value = desired;
+  bool CompareExchangeHelper(T& expected, T desired) noexcept {
+    return CompareExchangeHelper(*this, expected, desired);
+  }
+  bool CompareExchangeHelper(T& expected, T desired) volatile noexcept {
+    return CompareExchangeHelper(*this, expected, desired);
+  }
+  using Base::_value;
+
+ private:
+  // compare_exchange compares the representation: -0.0 isn't 0.0, but NaN is the same NaN
+  static bool Same(const T& lhs, const T& rhs) noexcept {
+    if constexpr (std::is_same_v<T, float> || std::is_same_v<T, double>) {
+      return std::memcmp(&lhs, &rhs, sizeof(T)) == 0;
+    } else {
+      return lhs == rhs;
+    }
+  }
+
+  template <typename Self>
+  static bool CompareExchangeHelper(Self& self, T& expected, T desired) noexcept {
+    const T value = self._value;
+    if (Same(value, expected)) {
+      self._value = desired;
       return true;
     } else {
-      expected = this->_value;
+      expected = value;
       return false;
     }
   }
-  using Base::_value;
 };
 
 template <typename T, bool IsFloating = std::is_floating_point_v<T>>
-- 
2.43.0


From 2b78d8b188e2100e32d5e765bb54adacf166244c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:05 +0000
Subject: [PATCH 14/32] fix: assignment and volatile increments of
 yaclib_std::atomic compile in the fault backends

---
 include/yaclib/fault/detail/atomic.hpp       | 22 +++++++++++++-------
 include/yaclib/fault/detail/fiber/atomic.hpp |  7 +++++++
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/include/yaclib/fault/detail/atomic.hpp b/include/yaclib/fault/detail/atomic.hpp
index 4f1cf99..52682b0 100644
--- a/include/yaclib/fault/detail/atomic.hpp
+++ b/include/yaclib/fault/detail/atomic.hpp
@@ -122,6 +122,7 @@ class AtomicFloatingBase : public AtomicBase<Impl, T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 };
 
 template <typename Impl, typename T>
@@ -130,6 +131,7 @@ class AtomicFloatingBase<Impl, T, true> : public AtomicBase<Impl, T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 
   T fetch_add(T arg, std::memory_order order = std::memory_order_seq_cst) noexcept {
     YACLIB_INJECT_FAULT(auto r = Impl::fetch_add(arg, order));
@@ -174,6 +176,7 @@ class AtomicIntegralBase : public AtomicFloatingBase<Impl, T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 };
 
 template <typename Impl, typename T>
@@ -182,6 +185,7 @@ class AtomicIntegralBase<Impl, T, true> : public AtomicFloatingBase<Impl, T, tru
 
  public:
   using Base::Base;
+  using Base::operator=;
 
   T fetch_and(T arg, std::memory_order order = std::memory_order_seq_cst) noexcept {
     YACLIB_INJECT_FAULT(auto r = Impl::fetch_and(arg, order));
@@ -215,7 +219,7 @@ class AtomicIntegralBase<Impl, T, true> : public AtomicFloatingBase<Impl, T, tru
     return r;
   }
   T operator++() volatile noexcept {
-    YACLIB_INJECT_FAULT(auto r = ++static_cast<Impl&>(*this));
+    YACLIB_INJECT_FAULT(auto r = ++static_cast<volatile Impl&>(*this));
     return r;
   }
 
@@ -224,7 +228,7 @@ class AtomicIntegralBase<Impl, T, true> : public AtomicFloatingBase<Impl, T, tru
     return r;
   }
   T operator++(int) volatile noexcept {
-    YACLIB_INJECT_FAULT(auto r = static_cast<Impl&>(*this)++);
+    YACLIB_INJECT_FAULT(auto r = static_cast<volatile Impl&>(*this)++);
     return r;
   }
 
@@ -233,7 +237,7 @@ class AtomicIntegralBase<Impl, T, true> : public AtomicFloatingBase<Impl, T, tru
     return r;
   }
   T operator--() volatile noexcept {
-    YACLIB_INJECT_FAULT(auto r = --static_cast<Impl&>(*this));
+    YACLIB_INJECT_FAULT(auto r = --static_cast<volatile Impl&>(*this));
     return r;
   }
 
@@ -242,7 +246,7 @@ class AtomicIntegralBase<Impl, T, true> : public AtomicFloatingBase<Impl, T, tru
     return r;
   }
   T operator--(int) volatile noexcept {
-    YACLIB_INJECT_FAULT(auto r = static_cast<Impl&>(*this)--);
+    YACLIB_INJECT_FAULT(auto r = static_cast<volatile Impl&>(*this)--);
     return r;
   }
 
@@ -280,6 +284,7 @@ class Atomic : public AtomicIntegralBase<Impl, T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 };
 
 template <typename Impl, typename U>
@@ -288,6 +293,7 @@ class Atomic<Impl, U*> : public AtomicBase<Impl, U*> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 
   U* fetch_add(std::ptrdiff_t arg, std::memory_order order = std::memory_order_seq_cst) noexcept {
     YACLIB_INJECT_FAULT(auto* r = Impl::fetch_add(arg, order));
@@ -312,7 +318,7 @@ class Atomic<Impl, U*> : public AtomicBase<Impl, U*> {
     return r;
   }
   U* operator++() volatile noexcept {
-    YACLIB_INJECT_FAULT(auto* r = ++static_cast<Impl&>(*this));
+    YACLIB_INJECT_FAULT(auto* r = ++static_cast<volatile Impl&>(*this));
     return r;
   }
 
@@ -321,7 +327,7 @@ class Atomic<Impl, U*> : public AtomicBase<Impl, U*> {
     return r;
   }
   U* operator++(int) volatile noexcept {
-    YACLIB_INJECT_FAULT(auto* r = static_cast<Impl&>(*this)++);
+    YACLIB_INJECT_FAULT(auto* r = static_cast<volatile Impl&>(*this)++);
     return r;
   }
 
@@ -330,7 +336,7 @@ class Atomic<Impl, U*> : public AtomicBase<Impl, U*> {
     return r;
   }
   U* operator--() volatile noexcept {
-    YACLIB_INJECT_FAULT(auto* r = --static_cast<Impl&>(*this));
+    YACLIB_INJECT_FAULT(auto* r = --static_cast<volatile Impl&>(*this));
     return r;
   }
 
@@ -339,7 +345,7 @@ class Atomic<Impl, U*> : public AtomicBase<Impl, U*> {
     return r;
   }
   U* operator--(int) volatile noexcept {
-    YACLIB_INJECT_FAULT(auto* r = static_cast<Impl&>(*this)--);
+    YACLIB_INJECT_FAULT(auto* r = static_cast<volatile Impl&>(*this)--);
     return r;
   }
 
diff --git a/include/yaclib/fault/detail/fiber/atomic.hpp b/include/yaclib/fault/detail/fiber/atomic.hpp
index b1be1be..7f536da 100644
--- a/include/yaclib/fault/detail/fiber/atomic.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic.hpp
@@ -35,6 +35,7 @@ class AtomicBase : public AtomicWait<T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
   using Base::is_always_lock_free;
   using Base::is_lock_free;
 
@@ -129,6 +130,7 @@ class AtomicFloatingBase : public AtomicBase<T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 };
 
 template <typename T>
@@ -137,6 +139,7 @@ class AtomicFloatingBase<T, true> : public AtomicBase<T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 
   T fetch_add(T arg, std::memory_order) noexcept {
     T val = _value;
@@ -192,6 +195,7 @@ class AtomicIntegralBase : public AtomicFloatingBase<T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 };
 
 template <typename T>
@@ -200,6 +204,7 @@ class AtomicIntegralBase<T, true> : public AtomicFloatingBase<T, true> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 
   T fetch_and(T arg, std::memory_order) noexcept {
     auto val = _value;
@@ -309,6 +314,7 @@ class Atomic : public AtomicIntegralBase<T> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 };
 
 template <typename U>
@@ -317,6 +323,7 @@ class Atomic<U*> : public AtomicBase<U*> {
 
  public:
   using Base::Base;
+  using Base::operator=;
 
   U* fetch_add(std::ptrdiff_t arg, std::memory_order) noexcept {
     auto val = _value;
-- 
2.43.0


From 9255efca21619c5b358364325199faf668fa1fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:49 +0000
Subject: [PATCH 15/32] fix: injected failure of compare_exchange_weak loaded
 with a release order

---
 include/yaclib/fault/detail/atomic.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/yaclib/fault/detail/atomic.hpp b/include/yaclib/fault/detail/atomic.hpp
index 52682b0..c04f178 100644
--- a/include/yaclib/fault/detail/atomic.hpp
+++ b/include/yaclib/fault/detail/atomic.hpp
@@ -81,7 +81,7 @@ class AtomicBase : public AtomicWait<Impl, T> {
   }
   bool compare_exchange_weak(T& expected, T desired, std::memory_order order = std::memory_order_seq_cst) noexcept {
     if (ShouldFailAtomicWeak()) {
-      expected = load(order);
+      expected = load(FailureOrder(order));
       return false;
     }
     YACLIB_INJECT_FAULT(auto r = Impl::compare_exchange_weak(expected, desired, order));
@@ -90,7 +90,7 @@ class AtomicBase : public AtomicWait<Impl, T> {
   bool compare_exchange_weak(T& expected, T desired,
                              std::memory_order order = std::memory_order_seq_cst) volatile noexcept {
     if (ShouldFailAtomicWeak()) {
-      expected = load(order);
+      expected = load(FailureOrder(order));
       return false;
     }
     YACLIB_INJECT_FAULT(auto r = Impl::compare_exchange_weak(expected, desired, order));
@@ -114,6 +114,19 @@ class AtomicBase : public AtomicWait<Impl, T> {
     YACLIB_INJECT_FAULT(auto r = Impl::compare_exchange_strong(expected, desired, order));
     return r;
   }
+
+ private:
+  // a load can't have a release order
+  static constexpr std::memory_order FailureOrder(std::memory_order order) noexcept {
+    switch (order) {
+      case std::memory_order_acq_rel:
+        return std::memory_order_acquire;
+      case std::memory_order_release:
+        return std::memory_order_relaxed;
+      default:
+        return order;
+    }
+  }
 };
 
 template <typename Impl, typename T, bool IsFloating = std::is_floating_point_v<T>>
-- 
2.43.0


From 12434d4759747c90c5c1486c96b897e05d46925d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:49 +0000
Subject: [PATCH 16/32] fix: default constructed fiber atomic holds a
 value-initialized value

---
 include/yaclib/fault/detail/fiber/atomic_wait.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/fault/detail/fiber/atomic_wait.hpp b/include/yaclib/fault/detail/fiber/atomic_wait.hpp
index 1c0341a..d6beaa2 100644
--- a/include/yaclib/fault/detail/fiber/atomic_wait.hpp
+++ b/include/yaclib/fault/detail/fiber/atomic_wait.hpp
@@ -60,7 +60,7 @@ class AtomicWait {
 #endif
 
  protected:
-  T _value;
+  T _value{};
 #if YACLIB_FUTEX != 0
   FiberQueue _queue;
 #endif
-- 
2.43.0


From d4823a79fb37b1fc0f6d20105b8948b231a59ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:52 +0000
Subject: [PATCH 17/32] fix: condition_variable wait_for and wait_until without
 predicate did not link in the fault backends

---
 .../yaclib/fault/detail/condition_variable.hpp    | 12 ++++++++++--
 src/fault/condition_variable.cpp                  | 15 ---------------
 2 files changed, 10 insertions(+), 17 deletions(-)

diff --git a/include/yaclib/fault/detail/condition_variable.hpp b/include/yaclib/fault/detail/condition_variable.hpp
index 8816de9..57bb799 100644
--- a/include/yaclib/fault/detail/condition_variable.hpp
+++ b/include/yaclib/fault/detail/condition_variable.hpp
@@ -11,8 +11,16 @@
 
 namespace yaclib::detail {
 
-constexpr std::cv_status CVStatusFrom(WaitStatus);
-constexpr std::cv_status CVStatusFrom(std::cv_status);
+constexpr std::cv_status CVStatusFrom(WaitStatus status) {
+  if (status == WaitStatus::Ready) {
+    return std::cv_status::no_timeout;
+  }
+  return std::cv_status::timeout;
+}
+
+constexpr std::cv_status CVStatusFrom(std::cv_status status) {
+  return status;
+}
 
 // TODO(myannyax) unite with ConditionVariableAny
 
diff --git a/src/fault/condition_variable.cpp b/src/fault/condition_variable.cpp
index c5f1d5d..acb7088 100644
--- a/src/fault/condition_variable.cpp
+++ b/src/fault/condition_variable.cpp
@@ -1,16 +1 @@
 #include <yaclib/fault/detail/condition_variable.hpp>
-
-namespace yaclib::detail {
-
-constexpr std::cv_status CVStatusFrom(WaitStatus status) {
-  if (status == WaitStatus::Ready) {
-    return std::cv_status::no_timeout;
-  }
-  return std::cv_status::timeout;
-}
-
-constexpr std::cv_status CVStatusFrom(std::cv_status status) {
-  return status;
-}
-
-}  // namespace yaclib::detail
-- 
2.43.0


From bb8320495e4ce20c02655e65efe8ec383701e743 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:25 +0000
Subject: [PATCH 18/32] fix: fiber RecursiveMutex unlock woke nobody and lock
 did not check the mutex again after a wakeup

---
 src/fault/fiber/recursive_mutex.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fault/fiber/recursive_mutex.cpp b/src/fault/fiber/recursive_mutex.cpp
index 8598ff1..5d746ae 100644
--- a/src/fault/fiber/recursive_mutex.cpp
+++ b/src/fault/fiber/recursive_mutex.cpp
@@ -4,7 +4,7 @@
 namespace yaclib::detail::fiber {
 
 void RecursiveMutex::lock() {
-  if (_occupied_count != 0 && _owner_id != fault::Scheduler::GetId()) {
+  while (_occupied_count != 0 && _owner_id != fault::Scheduler::GetId()) {
     _queue.Wait(NoTimeoutTag{});
   }
   LockHelper();
@@ -23,6 +23,7 @@ void RecursiveMutex::unlock() noexcept {
   _occupied_count--;
   if (_occupied_count == 0) {
     _owner_id = 0;
+    _queue.NotifyOne();
   }
 }
 void RecursiveMutex::LockHelper() {
-- 
2.43.0


From ad805bbf9f73bbf615aef452c92c89a97feb58fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:45 +0000
Subject: [PATCH 19/32] fix: fiber Thread joinable was true for a thread
 without a fiber and false inside of the thread itself

---
 src/fault/fiber/thread.cpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/fault/fiber/thread.cpp b/src/fault/fiber/thread.cpp
index 4269861..dd463b0 100644
--- a/src/fault/fiber/thread.cpp
+++ b/src/fault/fiber/thread.cpp
@@ -16,14 +16,14 @@ void Thread::swap(Thread& t) noexcept {
 }
 
 bool Thread::joinable() const noexcept {
-  return get_id() != fault::Scheduler::GetId();
+  return _impl != nullptr;
 }
 
 void Thread::join() {
   if (_impl == nullptr) {
     throw std::system_error{std::make_error_code(std::errc::no_such_process)};
   }
-  if (!joinable()) {
+  if (get_id() == fault::Scheduler::GetId()) {
     throw std::system_error{std::make_error_code(std::errc::resource_deadlock_would_occur)};
   }
 
@@ -39,9 +39,6 @@ void Thread::detach() {
   if (_impl == nullptr) {
     throw std::system_error{std::make_error_code(std::errc::no_such_process)};
   }
-  if (!joinable()) {
-    throw std::system_error{std::make_error_code(std::errc::resource_deadlock_would_occur)};
-  }
   AfterJoinOrDetach();
 }
 
-- 
2.43.0


From 00ac3e5a7767b150ed87764d55f4be7e499cec02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:59 +0000
Subject: [PATCH 20/32] fix: fiber SharedMutex let incompatible owners in after
 a wakeup and could leave waiters blocked for ever

---
 src/fault/fiber/shared_mutex.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/fault/fiber/shared_mutex.cpp b/src/fault/fiber/shared_mutex.cpp
index 8e9b7f3..836c5f3 100644
--- a/src/fault/fiber/shared_mutex.cpp
+++ b/src/fault/fiber/shared_mutex.cpp
@@ -5,7 +5,7 @@
 namespace yaclib::detail::fiber {
 
 void fiber::SharedMutex::lock() {
-  if (_occupied) {
+  while (_occupied) {
     _exclusive_queue.Wait(NoTimeoutTag{});
   }
   LockHelper();
@@ -30,8 +30,8 @@ void SharedMutex::unlock() noexcept {
 }
 
 void SharedMutex::lock_shared() {
-  if (_occupied && _exclusive_mode) {
-    _exclusive_queue.Wait(NoTimeoutTag{});
+  while (_occupied && _exclusive_mode) {
+    _shared_queue.Wait(NoTimeoutTag{});
   }
   SharedLockHelper();
 }
@@ -48,7 +48,11 @@ void SharedMutex::unlock_shared() {
   _shared_owners_count--;
   if (_shared_owners_count == 0) {
     _occupied = false;
-    _exclusive_queue.NotifyOne();
+    if (_exclusive_queue.Empty()) {
+      _shared_queue.NotifyAll();
+    } else {
+      _exclusive_queue.NotifyOne();
+    }
   }
 }
 
@@ -61,6 +65,8 @@ void SharedMutex::SharedLockHelper() {
   _occupied = true;
   _exclusive_mode = false;
   _shared_owners_count++;
+  // other shared owners don't need to wait for the end of this shared ownership
+  _shared_queue.NotifyAll();
 }
 
 SharedMutex::native_handle_type SharedMutex::native_handle() {
-- 
2.43.0


From 42a3efeb1a952974c33623d0d85c161c3284fd30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:23 +0000
Subject: [PATCH 21/32] fix: timed acquisitions of the fiber mutexes did not
 check the mutex after a wakeup, exclusive one took a shared ownership

---
 .../detail/fiber/recursive_timed_mutex.hpp    | 17 +++++++--------
 .../fault/detail/fiber/shared_timed_mutex.hpp | 21 +++++++++----------
 .../yaclib/fault/detail/fiber/timed_mutex.hpp | 16 +++++++-------
 3 files changed, 24 insertions(+), 30 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/recursive_timed_mutex.hpp b/include/yaclib/fault/detail/fiber/recursive_timed_mutex.hpp
index 629f7bf..2dffa74 100644
--- a/include/yaclib/fault/detail/fiber/recursive_timed_mutex.hpp
+++ b/include/yaclib/fault/detail/fiber/recursive_timed_mutex.hpp
@@ -13,7 +13,7 @@ class RecursiveTimedMutex : public RecursiveMutex {
 
   template <typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& timeout_duration) {
-    return TimedWaitHelper(timeout_duration);
+    return TimedWaitHelper(timeout_duration + SystemClock::now());
   }
 
   template <typename Clock, typename Duration>
@@ -24,16 +24,13 @@ class RecursiveTimedMutex : public RecursiveMutex {
  private:
   template <typename Timeout>
   bool TimedWaitHelper(const Timeout& timeout) {
-    bool r = true;
-    if (_occupied_count != 0 && _owner_id != fault::Scheduler::GetId()) {
-      r = _queue.Wait(timeout) == WaitStatus::Ready;
+    while (_occupied_count != 0 && _owner_id != fault::Scheduler::GetId()) {
+      if (_queue.Wait(timeout) == WaitStatus::Timeout) {
+        return false;
+      }
     }
-    YACLIB_DEBUG(r && (_occupied_count != 0 && _owner_id != fault::Scheduler::GetId()),
-                 "about to be locked twice and not in a good way");
-    if (r) {
-      LockHelper();
-    }
-    return r;
+    LockHelper();
+    return true;
   }
 };
 
diff --git a/include/yaclib/fault/detail/fiber/shared_timed_mutex.hpp b/include/yaclib/fault/detail/fiber/shared_timed_mutex.hpp
index 333e13c..25bd0bc 100644
--- a/include/yaclib/fault/detail/fiber/shared_timed_mutex.hpp
+++ b/include/yaclib/fault/detail/fiber/shared_timed_mutex.hpp
@@ -14,7 +14,7 @@ class SharedTimedMutex : public SharedMutex {
 
   template <typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& timeout_duration) {
-    return TimedWaitHelper(timeout_duration, true);
+    return TimedWaitHelper(timeout_duration + SystemClock::now(), true);
   }
 
   template <typename Clock, typename Duration>
@@ -24,7 +24,7 @@ class SharedTimedMutex : public SharedMutex {
 
   template <typename Rep, typename Period>
   bool try_lock_shared_for(const std::chrono::duration<Rep, Period>& timeout_duration) {
-    return TimedWaitHelper(timeout_duration, false);
+    return TimedWaitHelper(timeout_duration + SystemClock::now(), false);
   }
 
   template <typename Clock, typename Duration>
@@ -35,19 +35,18 @@ class SharedTimedMutex : public SharedMutex {
  private:
   template <typename Timeout>
   bool TimedWaitHelper(const Timeout& timeout, bool exclusive) {
-    bool r = true;
-    if (_occupied && (exclusive || _exclusive_mode)) {
-      if (exclusive) {
-        r = _exclusive_queue.Wait(timeout) == WaitStatus::Ready;
-      } else {
-        r = _shared_queue.Wait(timeout) == WaitStatus::Ready;
+    while (_occupied && (exclusive || _exclusive_mode)) {
+      auto& queue = exclusive ? _exclusive_queue : _shared_queue;
+      if (queue.Wait(timeout) == WaitStatus::Timeout) {
+        return false;
       }
     }
-    YACLIB_DEBUG(r && _occupied && (exclusive || _exclusive_mode), "about to be locked twice and not in a good way");
-    if (r) {
+    if (exclusive) {
+      LockHelper();
+    } else {
       SharedLockHelper();
     }
-    return r;
+    return true;
   }
 };
 
diff --git a/include/yaclib/fault/detail/fiber/timed_mutex.hpp b/include/yaclib/fault/detail/fiber/timed_mutex.hpp
index c712e47..8c31c62 100644
--- a/include/yaclib/fault/detail/fiber/timed_mutex.hpp
+++ b/include/yaclib/fault/detail/fiber/timed_mutex.hpp
@@ -13,7 +13,7 @@ class TimedMutex : public Mutex {
 
   template <typename Rep, typename Period>
   bool try_lock_for(const std::chrono::duration<Rep, Period>& timeout_duration) {
-    return TimedWaitHelper(timeout_duration);
+    return TimedWaitHelper(timeout_duration + SystemClock::now());
   }
 
   template <typename Clock, typename Duration>
@@ -24,15 +24,13 @@ class TimedMutex : public Mutex {
  private:
   template <typename Timeout>
   bool TimedWaitHelper(const Timeout& timeout) {
-    bool r = true;
-    if (_occupied) {
-      r = _queue.Wait(timeout) == WaitStatus::Ready;
+    while (_occupied) {
+      if (_queue.Wait(timeout) == WaitStatus::Timeout) {
+        return false;
+      }
     }
-    YACLIB_DEBUG(r && _occupied, "about to be locked twice");
-    if (r) {
-      _occupied = true;
-    }
-    return r;
+    _occupied = true;
+    return true;
   }
 };
 
-- 
2.43.0


From 69dd1a032aa0c4a7707854e09d79f08c4915adfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:42 +0000
Subject: [PATCH 22/32] fix: fiber sleeps and timed waits until a time before
 the epoch slept for centuries

---
 include/yaclib/fault/detail/fiber/queue.hpp | 4 ++--
 include/yaclib_std/detail/this_thread.hpp   | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/queue.hpp b/include/yaclib/fault/detail/fiber/queue.hpp
index 069db0c..3463f77 100644
--- a/include/yaclib/fault/detail/fiber/queue.hpp
+++ b/include/yaclib/fault/detail/fiber/queue.hpp
@@ -30,8 +30,8 @@ class FiberQueue final {
     auto* queue_node = static_cast<BiNodeWaitQueue*>(fiber);
     _queue.PushBack(queue_node);
     auto* scheduler = fault::Scheduler::GetScheduler();
-    scheduler->SleepPreemptive(
-      std::chrono::duration_cast<std::chrono::nanoseconds>(time_point.time_since_epoch()).count());
+    const auto timeout = std::chrono::duration_cast<std::chrono::nanoseconds>(time_point.time_since_epoch()).count();
+    scheduler->SleepPreemptive(timeout > 0 ? static_cast<std::uint64_t>(timeout) : 0);
     bool res = queue_node->Erase();
     return res ? WaitStatus::Timeout : WaitStatus::Ready;
   }
diff --git a/include/yaclib_std/detail/this_thread.hpp b/include/yaclib_std/detail/this_thread.hpp
index 7c45eed..a118c66 100644
--- a/include/yaclib_std/detail/this_thread.hpp
+++ b/include/yaclib_std/detail/this_thread.hpp
@@ -9,8 +9,10 @@ namespace yaclib_std::this_thread {
 
 template <typename Clock, typename Duration>
 inline void sleep_until(const std::chrono::time_point<Clock, Duration>& sleep_time) {
-  std::uint64_t timeout = std::chrono::duration_cast<std::chrono::nanoseconds>(sleep_time.time_since_epoch()).count();
-  yaclib::fault::Scheduler::GetScheduler()->Sleep(timeout);
+  auto timeout = std::chrono::duration_cast<std::chrono::nanoseconds>(sleep_time.time_since_epoch()).count();
+  if (timeout > 0) {
+    yaclib::fault::Scheduler::GetScheduler()->Sleep(static_cast<std::uint64_t>(timeout));
+  }
 }
 
 template <typename Rep, typename Period>
-- 
2.43.0


From 4172ba5ffc8ebfeec4e374e82ad9d1aacaa6b365 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:46 +0000
Subject: [PATCH 23/32] fix: fiber condition_variable wait_for with predicate
 started its timeout again after every wakeup

---
 include/yaclib/fault/detail/fiber/condition_variable.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/yaclib/fault/detail/fiber/condition_variable.hpp b/include/yaclib/fault/detail/fiber/condition_variable.hpp
index fb7cabe..20f28ce 100644
--- a/include/yaclib/fault/detail/fiber/condition_variable.hpp
+++ b/include/yaclib/fault/detail/fiber/condition_variable.hpp
@@ -46,7 +46,7 @@ class ConditionVariable {
   template <typename Rep, typename Period, typename Predicate>
   bool wait_for(std::unique_lock<yaclib::detail::fiber::Mutex>& lock,
                 const std::chrono::duration<Rep, Period>& duration, Predicate predicate) {
-    return WaitImplWithPredicate(lock, duration, predicate);
+    return WaitImplWithPredicate(lock, duration + SystemClock::now(), predicate);
   }
 
   using native_handle_type = std::condition_variable::native_handle_type;
-- 
2.43.0


From c4b30c8dbc38449f2a5d8c8e84ade2e8e7da6429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:15 +0000
Subject: [PATCH 24/32] fix: a fiber woken before the end of its timed wait
 crashed the Scheduler

---
 src/fault/fiber/scheduler.cpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/fault/fiber/scheduler.cpp b/src/fault/fiber/scheduler.cpp
index 05b175b..6148725 100644
--- a/src/fault/fiber/scheduler.cpp
+++ b/src/fault/fiber/scheduler.cpp
@@ -125,13 +125,10 @@ void Scheduler::Sleep(std::uint64_t ns) {
 void Scheduler::SleepPreemptive(std::uint64_t ns) {
   ns += detail::GetRandNumber(GetFaultSleepTime());
   Sleep(ns);
-  // <= because wakeup called before time adjustment
-  if (_time <= ns) {
-    auto it = _sleep_list.find(ns);
-    YACLIB_DEBUG(it == _sleep_list.end(), "sleep_list for time that is not passed yet isn't found");
-    if (it->second.Empty()) {
-      _sleep_list.erase(ns);
-    }
+  // this fiber could be woken before its time, then it may leave an empty list
+  auto it = _sleep_list.find(ns);
+  if (it != _sleep_list.end() && it->second.Empty()) {
+    _sleep_list.erase(it);
   }
 }
 
-- 
2.43.0


From 975fd6b276c57a675472cf06b0730294821fa350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:34 +0000
Subject: [PATCH 25/32] fix: fiber thread local pointers of different types
 shared their values

---
 include/yaclib/fault/detail/fiber/thread_local_proxy.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp b/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp
index c3944a7..bedd866 100644
--- a/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp
+++ b/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp
@@ -8,10 +8,11 @@ void Set(void* new_value, std::uint64_t i);
 
 void SetDefault(void* new_value, std::uint64_t i);
 
+// common for all types, because the values of all of them are stored together
+inline std::uint64_t sNextFreeIndex = 0;
+
 template <typename Type>
 class ThreadLocalPtrProxy final {
-  inline static std::uint64_t sNextFreeIndex = 0;
-
  public:
   ThreadLocalPtrProxy() noexcept : _i(sNextFreeIndex++) {
   }
-- 
2.43.0


From 143a7681623446c3ee3101f3cb8b06955ed98c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:53 +0000
Subject: [PATCH 26/32] fix: assignment of a fiber thread local pointer changed
 its value in other fibers

---
 .../fault/detail/fiber/thread_local_proxy.hpp       | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp b/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp
index bedd866..ef45dc9 100644
--- a/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp
+++ b/include/yaclib/fault/detail/fiber/thread_local_proxy.hpp
@@ -33,14 +33,11 @@ class ThreadLocalPtrProxy final {
     return *this;
   }
   ThreadLocalPtrProxy& operator=(ThreadLocalPtrProxy&& other) noexcept {
-    _i = other._i;
+    Set(GetImpl(other._i), _i);
     return *this;
   }
   ThreadLocalPtrProxy& operator=(const ThreadLocalPtrProxy& other) noexcept {
-    if (this->Get() == other.Get()) {
-      return *this;
-    }
-    SetDefault(GetImpl(other._i), _i);
+    Set(GetImpl(other._i), _i);
     return *this;
   }
 
@@ -54,13 +51,11 @@ class ThreadLocalPtrProxy final {
 
   template <typename U>
   ThreadLocalPtrProxy& operator=(ThreadLocalPtrProxy<U>&& other) noexcept {
-    _i = other._i;
-    return *this;
+    return *this = static_cast<Type*>(other.Get());
   }
   template <typename U>
   ThreadLocalPtrProxy& operator=(const ThreadLocalPtrProxy<U>& other) noexcept {
-    SetDefault(GetImpl(other._i), _i);
-    return *this;
+    return *this = static_cast<Type*>(other.Get());
   }
 
   Type& operator*() const noexcept {
-- 
2.43.0


From c06c671424b2f16a7c85601c49e6b516b11a144e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:08 +0000
Subject: [PATCH 27/32] fix: the random count did not start again with SetSeed
 and was added to instead of forwarded to

---
 src/fault/util.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fault/util.cpp b/src/fault/util.cpp
index 4f2dd0e..57d8fcf 100644
--- a/src/fault/util.cpp
+++ b/src/fault/util.cpp
@@ -13,6 +13,9 @@ static thread_local std::mt19937_64 eng{sSeed};
 void SetSeed(std::uint32_t new_seed) {
   sSeed = new_seed;
   eng.seed(new_seed);
+#if YACLIB_FAULT == 2
+  sRandCount = 0;
+#endif
 }
 
 std::uint32_t GetSeed() {
@@ -36,7 +39,7 @@ std::uint64_t GetRandCount() {
 
 void ForwardToRandCount([[maybe_unused]] std::uint64_t random_count) {
 #if YACLIB_FAULT == 2
-  for (std::uint64_t i = 0; i != random_count; ++i) {
+  while (sRandCount < random_count) {
     GetRandNumber(1);
   }
 #endif
-- 
2.43.0


From 1559842014bbd8e40c382ee93fe05af4c487d110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:36 +0000
Subject: [PATCH 28/32] fix: a functor whose copy constructor throws destroyed
 a result that was never constructed

Core and PromiseCore constructed the functor after ResultCore, whose destructor
destroys the not yet stored result.
---
 include/yaclib/algo/detail/core.hpp         | 2 +-
 include/yaclib/algo/detail/promise_core.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/yaclib/algo/detail/core.hpp b/include/yaclib/algo/detail/core.hpp
index 23fa00b..906eae3 100644
--- a/include/yaclib/algo/detail/core.hpp
+++ b/include/yaclib/algo/detail/core.hpp
@@ -108,7 +108,7 @@ enum class AsyncType {
 };
 
 template <typename Ret, typename Arg, typename E, typename Func, CoreType Type, AsyncType kAsync>
-class Core : public ResultCoreT<Type, Ret, E>, public FuncCore<Func> {
+class Core : public FuncCore<Func>, public ResultCoreT<Type, Ret, E> {
   using F = FuncCore<Func>;
   using Storage = typename F::Storage;
   using Invoke = typename F::Invoke;
diff --git a/include/yaclib/algo/detail/promise_core.hpp b/include/yaclib/algo/detail/promise_core.hpp
index 0e4a50e..bb0cc8d 100644
--- a/include/yaclib/algo/detail/promise_core.hpp
+++ b/include/yaclib/algo/detail/promise_core.hpp
@@ -13,7 +13,7 @@
 namespace yaclib::detail {
 
 template <typename V, typename E, typename Func, bool Shared>
-class PromiseCore : public std::conditional_t<Shared, SharedCore<V, E>, UniqueCore<V, E>>, public FuncCore<Func> {
+class PromiseCore : public FuncCore<Func>, public std::conditional_t<Shared, SharedCore<V, E>, UniqueCore<V, E>> {
   using F = FuncCore<Func>;
   using Invoke = typename F::Invoke;
   using Storage = typename F::Storage;
-- 
2.43.0


From ed137e4938ee350a4040443d0b817b0dea1602a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:54 +0000
Subject: [PATCH 29/32] fix: MakeTask destroyed a result that was never
 constructed when its construction threw

---
 include/yaclib/lazy/make.hpp | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/include/yaclib/lazy/make.hpp b/include/yaclib/lazy/make.hpp
index 1740ef0..961dc8e 100644
--- a/include/yaclib/lazy/make.hpp
+++ b/include/yaclib/lazy/make.hpp
@@ -3,6 +3,8 @@
 #include <yaclib/lazy/schedule.hpp>
 #include <yaclib/lazy/task.hpp>
 
+#include <tuple>
+
 namespace yaclib {
 namespace detail {
 
@@ -11,7 +13,18 @@ class ReadyCore : public UniqueCore<V, E> {
  public:
   template <typename... Args>
   ReadyCore(Args&&... args) noexcept(std::is_nothrow_constructible_v<Result<V, E>, Args&&...>) {
-    this->Store(std::forward<Args>(args)...);
+    if constexpr (std::is_nothrow_constructible_v<Result<V, E>, Args&&...>) {
+      this->Store(std::forward<Args>(args)...);
+    } else {
+      try {
+        this->Store(std::forward<Args>(args)...);
+      } catch (...) {
+        // ~ResultCore will be called and it destroys the result
+        this->Store(StopTag{});
+        std::ignore = this->template SetResult<false>();
+        throw;
+      }
+    }
   }
 
   void Call() noexcept final {
-- 
2.43.0


From ff7eba96d35a9447131a6834b7eedc06b57bba00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:36 +0000
Subject: [PATCH 30/32] fix: WhenAll crashed when its callbacks could not be
 allocated

---
 include/yaclib/async/when/when.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/yaclib/async/when/when.hpp b/include/yaclib/async/when/when.hpp
index 5225da2..fd977e2 100644
--- a/include/yaclib/async/when/when.hpp
+++ b/include/yaclib/async/when/when.hpp
@@ -288,7 +288,7 @@ struct StaticCombinator : IRef {
 template <typename Strategy, typename Core>
 struct DynamicCombinator : IRef {
   DynamicCombinator(std::size_t count, typename Strategy::PromiseType p)
-    : st{count, std::move(p)}, callbacks{count, {this}} {
+    : callbacks{count, {this}}, st{count, std::move(p)} {
   }
 
   template <typename Iterator>
@@ -309,8 +309,9 @@ struct DynamicCombinator : IRef {
     }
   }
 
-  Strategy st;
+  // It's important that callbacks are allocated before st is created: st cannot be destroyed without inputs
   std::vector<CombinatorCallback<DynamicCombinator, Core, kDynamicTag>> callbacks;
+  Strategy st;
 };
 
 template <template <FailPolicy, typename...> typename Strategy, FailPolicy F, typename OutputValue,
-- 
2.43.0


From a9617694a3483b7b7f75f6d0e54deb0c6df4c527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:12 +0000
Subject: [PATCH 31/32] fix: a sticky guard did not own the executor it brings
 the coroutine back to

---
 include/yaclib/coro/guard_sticky.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/yaclib/coro/guard_sticky.hpp b/include/yaclib/coro/guard_sticky.hpp
index 0b46c2d..0cce28a 100644
--- a/include/yaclib/coro/guard_sticky.hpp
+++ b/include/yaclib/coro/guard_sticky.hpp
@@ -11,7 +11,7 @@ namespace detail {
 template <typename M>
 class [[nodiscard]] LockStickyAwaiter {
  public:
-  explicit LockStickyAwaiter(M& m, IExecutor*& e) noexcept : _mutex{m}, _executor{e} {
+  explicit LockStickyAwaiter(M& m, IExecutorPtr& e) noexcept : _mutex{m}, _executor{e} {
   }
 
   YACLIB_INLINE bool await_ready() noexcept {
@@ -22,7 +22,7 @@ class [[nodiscard]] LockStickyAwaiter {
   template <typename Promise>
   YACLIB_INLINE bool await_suspend(yaclib_std::coroutine_handle<Promise> handle) noexcept {
     auto& promise = handle.promise();
-    _executor = promise._executor.Get();
+    _executor = promise._executor;
     if (_mutex.AwaitLock(promise)) {
       return true;
     }
@@ -35,13 +35,13 @@ class [[nodiscard]] LockStickyAwaiter {
 
  protected:
   M& _mutex;
-  IExecutor*& _executor;
+  IExecutorPtr& _executor;
 };
 
 template <typename M>
 class [[nodiscard]] UnlockStickyAwaiter {
  public:
-  explicit UnlockStickyAwaiter(M& m, IExecutor* e) noexcept : _mutex{m}, _executor{e} {
+  explicit UnlockStickyAwaiter(M& m, IExecutorPtr e) noexcept : _mutex{m}, _executor{std::move(e)} {
   }
 
   YACLIB_INLINE bool await_ready() noexcept {
@@ -63,7 +63,7 @@ class [[nodiscard]] UnlockStickyAwaiter {
 
  private:
   M& _mutex;
-  IExecutor* _executor;
+  IExecutorPtr _executor;
 };
 
 template <typename>
@@ -79,7 +79,7 @@ class [[nodiscard]] StickyGuard : public detail::Guard<M, false> {
   using MutexType = M;
   using Base::Base;
 
-  StickyGuard(StickyGuard&& other) noexcept : Base{std::move(other)}, _executor{other._executor} {
+  StickyGuard(StickyGuard&& other) noexcept : Base{std::move(other)}, _executor{std::move(other._executor)} {
   }
 
   StickyGuard& operator=(StickyGuard&& other) noexcept {
@@ -96,16 +96,16 @@ class [[nodiscard]] StickyGuard : public detail::Guard<M, false> {
   auto Unlock() noexcept {
     auto* m = static_cast<M*>(Base::UnlockState());
     auto& base = M::template Cast<typename M::Base>(*m);
-    return detail::UnlockStickyAwaiter{base, _executor};
+    return detail::UnlockStickyAwaiter{base, std::move(_executor)};
   }
 
   void Swap(StickyGuard& other) noexcept {
     Base::Swap(other);
-    std::swap(_executor, other._executor);
+    _executor.Swap(other._executor);
   }
 
  private:
-  IExecutor* _executor = nullptr;
+  IExecutorPtr _executor;
 
   template <typename>
   friend class detail::GuardStickyAwaiter;
-- 
2.43.0


From d1fb554f92e888d8af4056c1e9131783c45b98ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:12 +0000
Subject: [PATCH 32/32] fix: TryLock of a sticky guard kept the executor of its
 previous Lock

---
 include/yaclib/coro/guard_sticky.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/yaclib/coro/guard_sticky.hpp b/include/yaclib/coro/guard_sticky.hpp
index 0cce28a..5e071eb 100644
--- a/include/yaclib/coro/guard_sticky.hpp
+++ b/include/yaclib/coro/guard_sticky.hpp
@@ -93,6 +93,11 @@ class [[nodiscard]] StickyGuard : public detail::Guard<M, false> {
     return detail::LockStickyAwaiter{base, _executor};
   }
 
+  bool TryLock() noexcept {
+    _executor = nullptr;
+    return Base::TryLock();
+  }
+
   auto Unlock() noexcept {
     auto* m = static_cast<M*>(Base::UnlockState());
     auto& base = M::template Cast<typename M::Base>(*m);
-- 
2.43.0

