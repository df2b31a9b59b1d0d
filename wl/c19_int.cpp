#include "wl/c19.hpp"
namespace c19 {
#define T_(t) {#t, [] { sequence<t>(#t); }}
Type type_int(u32 i) {
  static const Type t[kInts] = {T_(int), T_(unsigned), T_(signed char), T_(unsigned char), T_(char), T_(short), T_(unsigned short), T_(long), T_(unsigned long), T_(long long), T_(unsigned long long), T_(wchar_t), T_(char16_t), T_(char32_t), T_(char8_t)};
  return t[i % kInts];
}
}  // namespace c19
