// Generators of vectors and a small exact / extended precision vector type of our own
#pragma once
#include "common.h"
#include <vecmath/vec.h>
#include <vecmath/vec_io.h>

template <typename T, std::size_t S, typename F> vm::vec<T, S> gvec(const F& f) {
  vm::vec<T, S> r;
  for (std::size_t i = 0; i < S; ++i) r[i] = f();
  return r;
}
template <typename T, std::size_t S> vm::vec<T, S> ivec(G& g, long k) {
  return gvec<T, S>([&] { return static_cast<T>(g.zint(k)); });
}
template <typename T, std::size_t S> vm::vec<T, S> gridvec(G& g) {
  const auto d = static_cast<T>(1l << g.pick<long>({0, 0, 1, 3}));
  return gvec<T, S>([&] { return static_cast<T>(g.zint(g.pick<long>({1, 3, 10, 100, 1000}))) / d; });
}
template <typename T, std::size_t S> vm::vec<T, S> numvec(G& g, double mag = 1000.0) {
  return gvec<T, S>([&] { return num<T>(g, mag); });
}
// an integer vector other than zero; axis-aligned now and then
template <typename T, std::size_t S> vm::vec<T, S> nonzero_ivec(G& g, long k) {
  auto v = ivec<T, S>(g, k);
  if (g.one_in(5)) {
    const auto a = g.below(S);
    for (std::size_t i = 0; i < S; ++i) if (i != a) v[i] = T(0);
  }
  bool zero = true;
  for (std::size_t i = 0; i < S; ++i) zero = zero && v[i] == T(0);
  if (zero) v[g.below(S)] = g.flip() ? T(-1) : T(1);
  return v;
}
// a unit vector of any direction (unit up to rounding); axis-aligned, or almost so, now and then
template <typename T, std::size_t S> vm::vec<T, S> unitvec(G& g) {
  vm::vec<T, S> r;
  if (g.one_in(4)) {
    r[g.below(S)] = g.flip() ? T(-1) : T(1);
    return r;
  }
  long double c[S], l = 0;
  const auto kind = g.choice(5); // small integers, reals, or some of the components tiny
  const auto main = g.below(S);
  for (std::size_t i = 0; i < S; ++i) {
    c[i] = kind < 2 ? static_cast<long double>(g.zint(5)) : static_cast<long double>(g.real(-1, 1));
    if (kind == 4 && i == main) c[i] = g.flip() ? 1.0L : -1.0L;
    else if (kind == 4 && !g.one_in(4)) c[i] = g.one_in(4) ? 0.0L : std::ldexp(c[i], -static_cast<int>(g.range(4, 30)));
    l += c[i] * c[i];
  }
  if (l < 1e-4L) { c[0] = 1; for (std::size_t i = 1; i < S; ++i) c[i] = 0; l = 1; }
  l = std::sqrt(l);
  for (std::size_t i = 0; i < S; ++i) r[i] = static_cast<T>(c[i] / l);
  return r;
}

// reference vectors: long double (exact for small dyadic numbers)
using R = long double;
template <std::size_t S> struct rv {
  std::array<R, S> c{};
  R& operator[](std::size_t i) { return c[i]; }
  R operator[](std::size_t i) const { return c[i]; }
};
template <typename T, std::size_t S> rv<S> ref(const vm::vec<T, S>& v) {
  rv<S> r;
  for (std::size_t i = 0; i < S; ++i) r[i] = static_cast<R>(v.v[i]);
  return r;
}
template <std::size_t S> rv<S> operator+(rv<S> a, const rv<S>& b) { for (std::size_t i = 0; i < S; ++i) a[i] += b[i]; return a; }
template <std::size_t S> rv<S> operator-(rv<S> a, const rv<S>& b) { for (std::size_t i = 0; i < S; ++i) a[i] -= b[i]; return a; }
template <std::size_t S> rv<S> operator*(rv<S> a, const R f) { for (std::size_t i = 0; i < S; ++i) a[i] *= f; return a; }
template <std::size_t S> R rdot(const rv<S>& a, const rv<S>& b) { R s = 0; for (std::size_t i = 0; i < S; ++i) s += a[i] * b[i]; return s; }
template <std::size_t S> R rlen(const rv<S>& a) { return std::sqrt(rdot(a, a)); }
inline rv<3> rcross(const rv<3>& a, const rv<3>& b) {
  rv<3> r;
  r[0] = a[1] * b[2] - a[2] * b[1];
  r[1] = a[2] * b[0] - a[0] * b[2];
  r[2] = a[0] * b[1] - a[1] * b[0];
  return r;
}
template <std::size_t S> rv<S> runit(const rv<S>& a) { return a * (1 / rlen(a)); }
template <std::size_t S> R rmax(const rv<S>& a) { R m = 0; for (std::size_t i = 0; i < S; ++i) m = std::max(m, std::fabs(a[i])); return m; }
template <std::size_t S> bool rnear(const rv<S>& a, const rv<S>& b, const R tol) {
  for (std::size_t i = 0; i < S; ++i) if (!near(a[i], b[i], tol)) return false;
  return true;
}
template <typename T, std::size_t S> bool vnear(const vm::vec<T, S>& a, const rv<S>& b, const R tol) { return rnear(ref(a), b, tol); }
template <std::size_t S> std::ostream& operator<<(std::ostream& s, const rv<S>& a) {
  s << "(";
  for (std::size_t i = 0; i < S; ++i) s << (i ? " " : "") << static_cast<double>(a[i]);
  return s << ")";
}
template <typename T, std::size_t S> bool vsame(const vm::vec<T, S>& a, const vm::vec<T, S>& b) { // exactly, NaN == NaN
  for (std::size_t i = 0; i < S; ++i) if (!same(a.v[i], b.v[i])) return false;
  return true;
}
template <typename T, std::size_t S> bool vexact(const vm::vec<T, S>& a, const rv<S>& b) {
  for (std::size_t i = 0; i < S; ++i) if (static_cast<R>(a.v[i]) != b[i]) return false;
  return true;
}
