// What the drivers need of <cmath>, usable in constant expressions too.
#pragma once
#include <bit>
#include <cstdint>
#include <limits>
namespace km {
constexpr double fabs(double x) { return x < 0 ? -x : x; }
constexpr bool isnan(double x) { return x != x; }
constexpr bool isinf(double x) { return fabs(x) > std::numeric_limits<double>::max(); }
constexpr bool isfinite(double x) { return fabs(x) <= std::numeric_limits<double>::max(); }
constexpr double fmax(double x, double y) { return x < y ? y : x; }
constexpr double two_to(int e) {     // -1022 <= e <= 1023
  return std::bit_cast<double>(std::uint64_t(e + 1023) << 52);
}
constexpr double ldexp(double x, int e) {
  while (e > 1000) { x *= two_to(1000); e -= 1000; if (!(fabs(x) <= std::numeric_limits<double>::max()) || x == 0) return x; }
  while (e < -1000) { x *= two_to(-1000); e += 1000; if (x == 0) return x; }
  return x * two_to(e);
}
// of any floating type, |e| in the hundreds
template <class T> constexpr T scale(T x, int e) {
  T f = e < 0 ? T(0.5) : T(2);
  for (int n = e < 0 ? -e : e; n > 0; --n) x *= f;
  return x;
}
constexpr double frexp(double x, int* e) {
  *e = 0;
  if (x == 0 || !isfinite(x)) return x;
  if (fabs(x) < two_to(-1000)) { x *= two_to(200); *e = -200; }
  std::uint64_t b = std::bit_cast<std::uint64_t>(x);
  *e += int(b >> 52 & 0x7ff) - 1022;
  return std::bit_cast<double>((b & ~(0x7ffull << 52)) | 1022ull << 52);
}
constexpr double floor(double x) {
  if (!(fabs(x) < 4503599627370496.0)) return x;
  double t = double((long long)x);
  return t > x ? t - 1 : t;
}
constexpr double next(double x, int dir) {      // of a whole number
  if (dir == 0) return x;
  if (x == 0) return dir < 0 ? -std::numeric_limits<double>::denorm_min() : std::numeric_limits<double>::denorm_min();
  std::uint64_t b = std::bit_cast<std::uint64_t>(x);
  return std::bit_cast<double>((dir > 0) == (x > 0) ? b + 1 : b - 1);
}
}  // namespace km
