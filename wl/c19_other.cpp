#include "wl/c19.hpp"
namespace c19 {

// atomic_flag against std::atomic_flag
template <typename Y, typename S>
void flag_ops(Y& y, S& s, u32 n) {
  for (u32 i = 0; i < n; ++i) {
    const auto o = rmw_order();
    switch (gen(4)) {
      case 0: {
        const bool a = y.test_and_set(), b = s.test_and_set();
        if (a != b) wrong("atomic_flag", "test_and_set()", "returned", a, b, b, 0);
        op_done("test_and_set()", a, false);
        break;
      }
      case 1: {
        const bool a = y.test_and_set(o), b = s.test_and_set(o);
        if (a != b) wrong("atomic_flag", "test_and_set", "returned", a, b, b, 0);
        op_done("test_and_set", a, false);
        break;
      }
      case 2: {
        const auto so = store_order();
        y.clear(so), s.clear(so);
        op_done("clear", 0, false);
        break;
      }
      default:
        y.clear(), s.clear();
        op_done("clear()", 0, false);
        break;
    }
  }
}
void flags() {
  using Y = yaclib_std::atomic_flag;
  alignas(64) unsigned char mem[sizeof(Y)];
  scribble<bool>(mem, sizeof mem);
  Y* y = ::new (static_cast<void*>(mem)) Y;
  std::atomic_flag s;
  const u32 n = 1 + gen(30);
  if (genp(1, 3)) {
    volatile Y& vy = *y;
    volatile std::atomic_flag& vs = s;
    flag_ops(vy, vs, n);
  } else {
    flag_ops(*y, s, n);
  }
  y->~Y();
}

struct Big {
  long a, b, c;
};
using CharP = char*;
using LongP = long*;
using BigP = Big*;
using CIntP = const int*;
using VoidP = void*;
using FnP = void (*)();

#define T_(t) {#t, [] { sequence<t>(#t); }}
Type type_other(u32 i) {
  static const Type t[kOthers] = {T_(bool), T_(float), T_(double), T_(CharP), T_(LongP), T_(BigP), T_(CIntP), T_(VoidP), T_(FnP), T_(Color), {"atomic_flag", flags}};
  return t[i % kOthers];
}
}  // namespace c19
