// Stand-in for Elements::isEqual: comparison within a number of ULPs (10 for double, 4 for float).
#ifndef VP_SHIM_ELEMENTS_REAL_H
#define VP_SHIM_ELEMENTS_REAL_H
#include <cmath>
#include <cstdint>
#include <cstring>
#include "ElementsKernel/Unused.h"
namespace Elements {
constexpr std::size_t FLT_DEFAULT_MAX_ULPS = 4;
constexpr std::size_t DBL_DEFAULT_MAX_ULPS = 10;
namespace shim_detail {
inline std::uint64_t biased(double d) {
  std::uint64_t u;
  std::memcpy(&u, &d, sizeof u);
  return (u >> 63) ? ~u + 1 : (u | (std::uint64_t(1) << 63));
}
inline std::uint64_t biased(float d) {
  std::uint32_t u;
  std::memcpy(&u, &d, sizeof u);
  return (u >> 31) ? std::uint32_t(~u + 1) : (u | (std::uint32_t(1) << 31));
}
template <typename T> bool eq(T a, T b, std::uint64_t ulps) {
  if (std::isnan(a) || std::isnan(b)) return false;
  auto x = biased(a), y = biased(b);
  return (x >= y ? x - y : y - x) <= ulps;
}
}  // namespace shim_detail
inline bool isEqual(double a, double b) { return shim_detail::eq(a, b, DBL_DEFAULT_MAX_ULPS); }
inline bool isEqual(float a, float b) { return shim_detail::eq(a, b, FLT_DEFAULT_MAX_ULPS); }
inline bool isEqual(double a, float b) { return shim_detail::eq(float(a), b, FLT_DEFAULT_MAX_ULPS); }
inline bool isEqual(float a, double b) { return isEqual(b, a); }
template <typename A, typename B> bool isNotEqual(A a, B b) { return !isEqual(a, b); }
}  // namespace Elements
#endif
