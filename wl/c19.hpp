// C19: every operation of yaclib_std::atomic against std::atomic on the same sequence.
#pragma once
#include "wl/fib_kit.hpp"

#include <atomic>
#include <cmath>
#include <cstring>
#include <limits>
#include <string>
#include <type_traits>

#include <yaclib_std/atomic>

namespace c19 {

using sim::gen;
using sim::genp;
using sim::u32;
using sim::u64;
using sim::u8;

template <typename T>
constexpr bool kFloat = std::is_floating_point_v<T>;
template <typename T>
constexpr bool kArith = std::is_integral_v<T> && !std::is_same_v<T, bool>;
template <typename T>
struct IsObjPtr : std::false_type {};
template <typename U>
struct IsObjPtr<U*> : std::bool_constant<std::is_object_v<U>> {};

template <typename T>
struct Bits {
  u64 w = 0;
  explicit Bits(T v) { std::memcpy(&w, &v, sizeof v); }
};
template <typename T>
u64 bits(T v) {
  return Bits<T>{v}.w;
}
// the same value for the purpose of the comparison: representation, NaNs produced by arithmetic are all alike
template <typename T>
bool same(T a, T b) {
  if constexpr (kFloat<T>) {
    if (std::isnan(a) && std::isnan(b)) return true;
  }
  return bits(a) == bits(b);
}

constexpr std::size_t kArr = 64;
template <typename U>
U* arr() {
  static std::remove_cv_t<U> a[kArr];
  return a;
}
inline void fn0() {}
inline void fn1() {}
enum class Color : short { kRed = -3, kGreen = 0, kBlue = 32767 };

// operand values: boundaries and a few ordinary ones; 0 in the stream is the plainest
template <typename T>
T value() {
  if constexpr (std::is_same_v<T, bool>) {
    return gen(2) != 0;
  } else if constexpr (std::is_enum_v<T>) {
    static const T v[] = {Color::kGreen, Color::kRed, Color::kBlue};
    return v[gen(3)];
  } else if constexpr (kArith<T>) {
    using L = std::numeric_limits<T>;
    switch (gen(9)) {
      case 0: return T(gen(4));
      case 1: return L::max();
      case 2: return L::min();
      case 3: return T(L::max() - T(1));
      case 4: return T(L::min() + T(1));
      case 5: return T(-1);
      case 6: return T(L::max() / 2 + 1);
      case 7: return T(0x5555555555555555ull);
      default: return T(u64(gen(1u << 31)) * 0x9E3779B97F4A7C15ull >> 7);
    }
  } else if constexpr (kFloat<T>) {
    using L = std::numeric_limits<T>;
    switch (gen(11)) {
      case 0: return T(gen(4));
      case 1: return T(-0.0);
      case 2: return L::max();
      case 3: return L::lowest();
      case 4: return L::min();
      case 5: return L::denorm_min();
      case 6: return L::infinity();
      case 7: return -L::infinity();
      case 8: return L::quiet_NaN();
      case 9: return T(0.1);
      default: return T(int(gen(1000000))) / T(7);
    }
  } else if constexpr (IsObjPtr<T>::value) {
    const u32 i = gen(kArr + 1);
    if (i == kArr) return arr<std::remove_pointer_t<T>>() + (kArr - 1);
    return arr<std::remove_pointer_t<T>>() + i;
  } else if constexpr (std::is_same_v<T, void*>) {
    const u32 i = gen(kArr);
    return i == 0 ? nullptr : static_cast<void*>(arr<char>() + i);
  } else {
    static const T v[] = {nullptr, &fn0, &fn1};
    return v[gen(3)];
  }
}

inline std::memory_order load_order() {
  static const std::memory_order o[] = {std::memory_order_seq_cst, std::memory_order_acquire, std::memory_order_relaxed, std::memory_order_consume};
  return o[gen(4)];
}
inline std::memory_order store_order() {
  static const std::memory_order o[] = {std::memory_order_seq_cst, std::memory_order_release, std::memory_order_relaxed};
  return o[gen(3)];
}
inline std::memory_order rmw_order() {
  static const std::memory_order o[] = {std::memory_order_seq_cst, std::memory_order_acq_rel, std::memory_order_release, std::memory_order_acquire, std::memory_order_relaxed, std::memory_order_consume};
  return o[gen(6)];
}

[[noreturn]] void wrong(const char* type, const char* op, const char* what, u64 got, u64 want, u64 before, u64 arg);
void op_done(const char* op, u64 r, bool spurious);
u64 injected();  // what the injector did so far (yields, sleeps, weak failures)

constexpr int kShortOps = 36;

// "did it wrap": an atomic that nobody else knows, compared before and after; the compiler sees everything
template <typename T, int K>
[[gnu::noinline]] void wrap(const char* type, T v) {
  yaclib_std::atomic<T> y{v};
  std::atomic<T> s{v};
  const T a0 = y.load();
  T a1{}, b1{};
  if constexpr (K == 0) {
    y.fetch_add(1), s.fetch_add(1);
    a1 = y.load(), b1 = s.load();
  } else if constexpr (K == 1) {
    a1 = ++y, b1 = ++s;
  } else if constexpr (K == 2) {
    y++, s++;
    a1 = T(y), b1 = T(s);
  } else if constexpr (K == 3) {
    a1 = (y += 1), b1 = (s += 1);
  } else if constexpr (K == 4) {
    y.fetch_sub(T(-1)), s.fetch_sub(T(-1));
    a1 = y.load(), b1 = s.load();
  } else if constexpr (K == 5) {
    y.fetch_sub(1), s.fetch_sub(1);
    a1 = y.load(), b1 = s.load();
  } else if constexpr (K == 6) {
    a1 = --y, b1 = --s;
  } else if constexpr (K == 7) {
    y--, s--;
    a1 = T(y), b1 = T(s);
  } else {
    a1 = (y -= 1), b1 = (s -= 1);
  }
  const bool ga = a1 > a0;
  const bool gb = b1 > v;
  if (ga != gb) wrong(type, K < 5 ? "increment, then compare" : "decrement, then compare", "greater", ga, gb, bits(a0), 1);
  if (a1 != b1) wrong(type, K < 5 ? "increment, then compare" : "decrement, then compare", "left", bits(a1), bits(b1), bits(a0), 1);
  op_done("wrap", bits(a1), false);
}
template <typename T>
void wrap_any(const char* type, T v) {
  switch (gen(9)) {
    case 0: wrap<T, 0>(type, v); return;
    case 1: wrap<T, 1>(type, v); return;
    case 2: wrap<T, 2>(type, v); return;
    case 3: wrap<T, 3>(type, v); return;
    case 4: wrap<T, 4>(type, v); return;
    case 5: wrap<T, 5>(type, v); return;
    case 6: wrap<T, 6>(type, v); return;
    case 7: wrap<T, 7>(type, v); return;
    default: wrap<T, 8>(type, v); return;
  }
}

// Y: (volatile) yaclib_std::atomic<T>&, S: (volatile) std::atomic<T>&
template <typename T, typename Y, typename S>
struct Pair {
  Y& y;
  S& s;
  const char* type;

  void check(const char* op, T got, T want, T before, T arg) {
    if (!same(got, want)) wrong(type, op, "returned", bits(got), bits(want), bits(before), bits(arg));
    state(op, before, arg);
    op_done(op, bits(got), false);
  }
  void state(const char* op, T before, T arg) {
    const T a = y.load(std::memory_order_relaxed);
    const T b = s.load(std::memory_order_relaxed);
    if (!same(a, b)) wrong(type, op, "left", bits(a), bits(b), bits(before), bits(arg));
    if constexpr (kFloat<T>) {
      if (bits(a) != bits(b)) {  // NaNs with different payloads: continue with one of them
        y.store(b);
        s.store(b);
      }
    }
  }

  void cas(const char* op, bool weak, u32 form) {
    const T before = s.load();
    const T want = genp(1, 2) ? value<T>() : before;
    const T desired = value<T>();
    T ey = want, es = want;
    const bool fits = bits(before) == bits(want);
    const std::memory_order o = rmw_order();
    const std::memory_order f = load_order();
    bool r;
    if (weak) {
      r = form == 0 ? y.compare_exchange_weak(ey, desired) : form == 1 ? y.compare_exchange_weak(ey, desired, o) : y.compare_exchange_weak(ey, desired, o, f);
    } else {
      r = form == 0 ? y.compare_exchange_strong(ey, desired) : form == 1 ? y.compare_exchange_strong(ey, desired, o) : y.compare_exchange_strong(ey, desired, o, f);
    }
    if (weak && fits && !r) {
      // spurious: the current value is in expected, nothing changed
      if (bits(ey) != bits(before)) wrong(type, op, "spurious failure put into expected", bits(ey), bits(before), bits(before), bits(desired));
      if (bits(T(y.load())) != bits(before)) wrong(type, op, "spurious failure changed the value to", bits(T(y.load())), bits(before), bits(before), bits(desired));
      op_done(op, bits(ey), true);
      return;
    }
    const bool q = s.compare_exchange_strong(es, desired);
    if (r != q) wrong(type, op, "returned (bool)", r, q, bits(before), bits(want));
    if (bits(ey) != bits(es)) wrong(type, op, "expected became", bits(ey), bits(es), bits(before), bits(want));
    state(op, before, desired);
    op_done(op, r, false);
  }
  void retry() {  // the loop a user writes: has to come to an end and to do the exchange once
    const T desired = value<T>();
    T e = y.load();
    const T before = e;
    int n = 0;
    while (!y.compare_exchange_weak(e, desired)) {
      if (bits(e) != bits(before)) wrong(type, "compare_exchange_weak loop", "spurious failure put into expected", bits(e), bits(before), bits(before), bits(desired));
      if (++n > 300) wrong(type, "compare_exchange_weak loop", "never succeeds, tries", u64(n), 1, bits(before), bits(desired));
    }
    s.store(desired);
    check("compare_exchange_weak loop", e, before, before, desired);
  }

#define C19_BOTH(name, arg, expr)       \
  {                                     \
    const T before_ = s.load();         \
    T ry, rs;                           \
    {                                   \
      Y& x = y;                         \
      ry = T(expr);                     \
    }                                   \
    {                                   \
      S& x = s;                         \
      rs = T(expr);                     \
    }                                   \
    check(name, ry, rs, before_, arg);  \
  }

  void step() {
    switch (gen(kShortOps)) {
      case 0: {
        const auto o = load_order();
        C19_BOTH("load", T{}, x.load(o));
        return;
      }
      case 1: C19_BOTH("load()", T{}, x.load()); return;
      case 2: C19_BOTH("operator T", T{}, static_cast<T>(x)); return;
      case 3: {
        const T v = value<T>();
        const auto o = store_order();
        C19_BOTH("store", v, (x.store(v, o), v));
        return;
      }
      case 4: {
        const T v = value<T>();
        C19_BOTH("store()", v, (x.store(v), v));
        return;
      }
      case 5: {
        const T v = value<T>();
        C19_BOTH("operator=", v, (x = v));
        return;
      }
      case 6: {
        const T v = value<T>();
        const auto o = rmw_order();
        C19_BOTH("exchange", v, x.exchange(v, o));
        return;
      }
      case 7: {
        const T v = value<T>();
        C19_BOTH("exchange()", v, x.exchange(v));
        return;
      }
      case 8: cas("compare_exchange_weak", true, 0); return;
      case 9: cas("compare_exchange_weak(order)", true, 1); return;
      case 10: cas("compare_exchange_weak(success, failure)", true, 2); return;
      case 11: cas("compare_exchange_strong", false, 0); return;
      case 12: cas("compare_exchange_strong(order)", false, 1); return;
      case 13: cas("compare_exchange_strong(success, failure)", false, 2); return;
      case 14: retry(); return;
      case 15:
        if (y.is_lock_free() != s.is_lock_free()) wrong(type, "is_lock_free", "returned", y.is_lock_free(), s.is_lock_free(), 0, 0);
        return;
      case 16: {
        const auto o = rmw_order();
        yaclib_std::atomic_thread_fence(o);
        state("atomic_thread_fence", T{}, T{});
        return;
      }
      case 17: {
        const auto o = rmw_order();
        yaclib_std::atomic_signal_fence(o);
        state("atomic_signal_fence", T{}, T{});
        return;
      }
      default: break;
    }
    if constexpr (kArith<T> || kFloat<T>) {
      const T v = value<T>();
      const auto o = rmw_order();
      switch (gen(kArith<T> ? 24 : 6)) {
        case 0: C19_BOTH("fetch_add", v, x.fetch_add(v, o)); return;
        case 1: C19_BOTH("fetch_sub", v, x.fetch_sub(v, o)); return;
        case 2: C19_BOTH("operator+=", v, x += v); return;
        case 3: C19_BOTH("operator-=", v, x -= v); return;
        case 4: C19_BOTH("fetch_add()", v, x.fetch_add(v)); return;
        case 5: C19_BOTH("fetch_sub()", v, x.fetch_sub(v)); return;
        default: break;
      }
      if constexpr (kArith<T>) {
        switch (gen(18)) {
          case 0: C19_BOTH("fetch_and", v, x.fetch_and(v, o)); return;
          case 1: C19_BOTH("fetch_or", v, x.fetch_or(v, o)); return;
          case 2: C19_BOTH("fetch_xor", v, x.fetch_xor(v, o)); return;
          case 3: C19_BOTH("fetch_and()", v, x.fetch_and(v)); return;
          case 4: C19_BOTH("fetch_or()", v, x.fetch_or(v)); return;
          case 5: C19_BOTH("fetch_xor()", v, x.fetch_xor(v)); return;
          case 6: C19_BOTH("operator&=", v, x &= v); return;
          case 7: C19_BOTH("operator|=", v, x |= v); return;
          case 8: C19_BOTH("operator^=", v, x ^= v); return;
          case 9: C19_BOTH("operator++", T(1), ++x); return;
          case 10: C19_BOTH("operator++(int)", T(1), x++); return;
          case 11: C19_BOTH("operator--", T(1), --x); return;
          case 12: C19_BOTH("operator--(int)", T(1), x--); return;
          default: wrap_any<T>(type, v); return;
        }
      }
    } else if constexpr (IsObjPtr<T>::value) {
      // stay inside of the array
      auto* const base = arr<std::remove_pointer_t<T>>();
      const std::ptrdiff_t at = s.load() - base;
      const std::ptrdiff_t to = std::ptrdiff_t(gen(kArr));
      const std::ptrdiff_t d = to - at;
      const auto o = rmw_order();
      switch (gen(10)) {
        case 0: C19_BOTH("fetch_add", T{}, x.fetch_add(d, o)); return;
        case 1: C19_BOTH("fetch_sub", T{}, x.fetch_sub(-d, o)); return;
        case 2: C19_BOTH("operator+=", T{}, x += d); return;
        case 3: C19_BOTH("operator-=", T{}, x -= -d); return;
        case 4: C19_BOTH("fetch_add()", T{}, x.fetch_add(d)); return;
        case 5: C19_BOTH("fetch_sub()", T{}, x.fetch_sub(-d)); return;
        case 6:
          if (at + 1 < std::ptrdiff_t(kArr)) C19_BOTH("operator++", T{}, ++x);
          return;
        case 7:
          if (at + 1 < std::ptrdiff_t(kArr)) C19_BOTH("operator++(int)", T{}, x++);
          return;
        case 8:
          if (at > 0) C19_BOTH("operator--", T{}, --x);
          return;
        default:
          if (at > 0) C19_BOTH("operator--(int)", T{}, x--);
          return;
      }
    }
  }
#undef C19_BOTH
};

template <typename T>
void scribble(void* p, std::size_t n) {
  std::memset(p, 0x5A, n);
  asm volatile("" : : "r"(p) : "memory");
}

// one atomic and its twin, a sequence of operations
template <typename T>
void sequence(const char* type) {
  const u32 how = gen(5);
  const bool vol = genp(1, 3);
  const u32 n = 1 + gen(40);
  alignas(64) unsigned char mem[sizeof(yaclib_std::atomic<T>)];
  scribble<T>(mem, sizeof mem);
  using Y = yaclib_std::atomic<T>;
  using S = std::atomic<T>;
  const T v0 = value<T>();
  Y* y;
  S s{};
  if (how == 0) {  // value-initialised since C++20
    y = ::new (static_cast<void*>(mem)) Y;
    if constexpr (IsObjPtr<T>::value) {
      if (y->load() != nullptr) wrong(type, "default constructor", "left", bits(y->load()), 0, 0, 0);
      y->store(v0);
      s.store(v0);
    }
  } else {
    y = ::new (static_cast<void*>(mem)) Y{v0};
    s.store(v0);
  }
  {
    Pair<T, const Y, const S> c{*y, s, type};
    const T a = c.y.load(), b = c.s.load();
    if (bits(a) != bits(b)) wrong(type, "constructor", "left", bits(a), bits(b), 0, bits(v0));
    const T d = static_cast<T>(c.y);
    if (bits(d) != bits(b)) wrong(type, "operator T const", "returned", bits(d), bits(b), 0, bits(v0));
  }
  if (vol) {
    volatile Y& vy = *y;
    volatile S& vs = s;
    Pair<T, volatile Y, volatile S> p{vy, vs, type};
    for (u32 i = 0; i < n; ++i) p.step();
  } else {
    Pair<T, Y, S> p{*y, s, type};
    for (u32 i = 0; i < n; ++i) p.step();
  }
  static_assert(Y::is_always_lock_free == S::is_always_lock_free);
  y->~Y();
}

using SeqFn = void (*)();
struct Type {
  const char* name;
  SeqFn fn;
};
Type type_int(u32 i);    // 14
Type type_other(u32 i);  // 8
constexpr u32 kInts = 15;
constexpr u32 kOthers = 11;

}  // namespace c19
