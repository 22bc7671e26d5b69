// Generators and numeric helpers shared by the properties. Includes no code under test.
#pragma once
#include "pbt.h"

#include <algorithm>
#include <array>
#include <cfloat>
#include <cmath>
#include <vector>

using pbt::G;

template <typename T> constexpr const char* tname() {
  return std::is_same<T, float>::value ? "float" : std::is_same<T, double>::value ? "double" : "other";
}

template <typename T> bool same(const T a, const T b) { // equal, or both NaN
  return a == b || (a != a && b != b);
}
template <typename T> bool same_bits(const T a, const T b) { // same value, including the sign of zero
  return (a == b && std::signbit(a) == std::signbit(b)) || (a != a && b != b);
}
// |a - b| <= tol, false if either is NaN
inline bool near(const long double a, const long double b, const long double tol) {
  return a == b || std::fabs(a - b) <= tol;
}
template <typename T> constexpr long double eps() { return static_cast<long double>(std::numeric_limits<T>::epsilon()); }

// a small dyadic number n / 2^s: sums of a few products of such numbers are exact in float
template <typename T> T grid(G& g) {
  const long k = g.pick<long>({1, 3, 10, 100, 1000});
  const long s = g.pick<long>({0, 0, 1, 3});
  return static_cast<T>(g.zint(k)) / static_cast<T>(1l << s);
}
// the size of a list: mostly less than n, sometimes hundreds
inline std::size_t count(G& g, const std::size_t n, const std::size_t many = 400) { return g.one_in(500) ? n + g.below(many) : g.below(n); }
template <typename T> T intval(G& g, long k) { return static_cast<T>(g.zint(k)); }

// a finite number of moderate magnitude, of any precision
template <typename T> T num(G& g, double mag = 1000.0) {
  switch (g.choice(6)) {
    case 0: return static_cast<T>(g.zint(8));
    case 4: return static_cast<T>((g.flip() ? 1 : -1) * std::ldexp(1.0 + g.unit(), -static_cast<int>(g.range(1, 30)))); // small
    case 5: return static_cast<T>(static_cast<double>(g.zint(8)) + (g.flip() ? 1 : -1) * std::ldexp(1.0 + g.unit(), -static_cast<int>(g.range(4, 30)))); // almost an integer
    case 1: return static_cast<T>(g.zint(static_cast<long>(mag) * 8)) / T(8);
    case 2: return static_cast<T>(g.real(-1.0, 1.0));
    default: return static_cast<T>(g.real(-mag, mag));
  }
}
// any finite number with magnitude in [2^lo, 2^hi], or zero
template <typename T> T logscale(G& g, int lo, int hi) {
  const int e = static_cast<int>(g.range(lo, hi - 1));
  const double m = 1.0 + g.unit();
  const T v = static_cast<T>(std::ldexp(m, e));
  return g.flip() ? -v : v;
}
// special values
template <typename T> T special(G& g, bool with_nan = true) {
  using L = std::numeric_limits<T>;
  const T v[] = {T(0), T(1), L::denorm_min(), L::min(), L::epsilon(), T(1) + L::epsilon(), T(1) - L::epsilon() / 2,
                 L::max(), T(0.5), T(2), T(4503599627370496.0), T(8388608.0), L::infinity(), L::quiet_NaN()};
  const T r = v[g.below(with_nan ? 14 : 13)];
  return g.flip() ? -r : r;
}
// any bit pattern or special value
template <typename T> T anyfloat(G& g, bool with_nan = true) {
  T r;
  switch (g.choice(5)) {
    case 0: r = grid<T>(g); break;
    case 1: r = special<T>(g, with_nan); break;
    case 2: r = num<T>(g); break;
    case 3: {
      const std::uint64_t b = g.choice(0);
      std::memcpy(&r, &b, sizeof r);
      break;
    }
    default: r = logscale<T>(g, sizeof(T) == 4 ? -60 : -300, sizeof(T) == 4 ? 60 : 300); break;
  }
  if (!with_nan && r != r) r = T(0);
  return r;
}

template <typename T> T ulps(T v, long n) { // v moved by n ulps
  for (long i = 0; i < std::labs(n); ++i) v = std::nextafter(v, n > 0 ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity());
  return v;
}
