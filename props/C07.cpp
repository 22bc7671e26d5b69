// Polynomial solvers: the polynomials are built from their roots
#include "common.h"
#include <complex>
#include <tuple>
#include <vecmath/scalar.h>

using L = long double;
using C = std::complex<L>;

template <typename T> static bool matches(std::vector<L> want, const std::vector<T>& got, const L tol) {
  if (want.size() != got.size()) return false;
  std::vector<L> s(got.begin(), got.end());
  for (const auto v : s) if (v != v) return false;
  std::sort(want.begin(), want.end());
  std::sort(s.begin(), s.end());
  for (std::size_t i = 0; i < s.size(); ++i) if (!near(s[i], want[i], tol)) return false;
  return true;
}

template <typename Tp, std::size_t... I> static auto to_vec(const Tp& t, std::index_sequence<I...>) {
  using T = std::tuple_element_t<1, Tp>;
  std::vector<T> r{std::get<I + 1>(t)...};
  const auto n = std::get<0>(t);
  if (n <= r.size()) r.resize(n);
  else r.assign(9, std::numeric_limits<T>::quiet_NaN());
  return r;
}
template <typename Tp> static auto solutions(const Tp& t) {
  return to_vec(t, std::make_index_sequence<std::tuple_size<Tp>::value - 1>());
}

// a multiset of roots closed under conjugation: `reals` real ones, the rest in pairs
struct Roots {
  std::vector<C> all;
  std::vector<L> reals; // distinct
  L scale = 1;
};

template <typename T> static Roots gen_roots(G& g, const std::size_t n, const bool allow_double) {
  Roots r;
  const std::size_t pairs = g.below(n / 2 + 1);
  const bool real_valued = sizeof(T) == 8 && g.one_in(3);
  const long span = sizeof(T) == 8 ? 24 : 8;
  const auto val = [&]() -> L { return real_valued ? static_cast<L>(g.real(-6, 6)) : static_cast<L>(g.zint(span)) / 2; };
  for (std::size_t i = 0; i < pairs; ++i) {
    const L m = val(), s = std::fabs(val()) + L(0.5);
    r.all.emplace_back(m, s);
    r.all.emplace_back(m, -s);
    r.scale = std::max({r.scale, std::fabs(m), s});
  }
  std::size_t rest = n - 2 * pairs;
  while (rest > 0) {
    const L v = val();
    bool dup = false;
    for (const auto w : r.reals) dup = dup || std::fabs(w - v) < L(0.5);
    if (dup) { r.all.clear(); r.reals.clear(); return r; }
    std::size_t mult = 1;
    if (allow_double && rest >= 2 && g.one_in(3)) mult = rest >= 3 && n == 3 && g.one_in(3) ? 3 : 2;
    for (std::size_t k = 0; k < mult; ++k) r.all.emplace_back(v, 0);
    r.reals.push_back(v);
    r.scale = std::max(r.scale, std::fabs(v));
    rest -= mult;
  }
  return r;
}

// coefficients of lead * prod (x - r), highest degree first
static std::vector<L> expand(const std::vector<C>& roots, const L lead) {
  std::vector<C> c{C(1)};
  for (const auto& r : roots) {
    c.push_back(C(0));
    for (std::size_t i = c.size() - 1; i > 0; --i) c[i] -= r * c[i - 1];
  }
  std::vector<L> res;
  for (const auto& v : c) res.push_back(v.real() * lead);
  return res;
}

template <typename T> static L lead_coefficient(G& g) {
  L v = g.flip() ? static_cast<L>(1l << g.range(0, 4)) : static_cast<L>(g.range(1, 9));
  if (g.flip()) v = std::ldexp(v, static_cast<int>(g.range(-24, 24))); // the solutions do not depend on it
  return g.flip() ? -v : v;
}
template <typename T> static T gen_epsilon(G& g) {
  return sizeof(T) == 8 ? g.pick<T>({T(0.001), T(0.0001), T(0.00001)}) : T(0.001);
}

template <typename T> static void quadratic(G& g) {
  auto r = gen_roots<T>(g, 2, true);
  if (r.all.empty()) return;
  const L lead = lead_coefficient<T>(g);
  const T e = gen_epsilon<T>(g);
  const auto c = expand(r.all, lead);
  g.note("coefficients", c); g.note("epsilon", e);
  g.label(r.reals.size() == 2 ? "two roots" : r.reals.size() == 1 ? "double root" : "no root");
  g.nontrivial();
  const auto s = solutions(vm::solve_quadratic(T(c[0]), T(c[1]), T(c[2]), e));
  g.note("roots", r.reals);
  const L tol = (r.reals.size() == 1 ? L(1) : L(8)) * 64 * eps<T>() * r.scale * r.scale;
  REQUIRE(matches(r.reals, s, tol), "solve_quadratic gives " << s.size() << " solutions: " << (s.empty() ? T(0) : s[0]) << " " << (s.size() > 1 ? s[1] : T(0)));
}
TEST(quadratic, 1500000) { if (g.flip()) quadratic<double>(g); else quadratic<float>(g); }

// the discriminant is compared with epsilon; everything is exact here
template <typename T> static void quadratic_epsilon(G& g) {
  const T m = static_cast<T>(g.zint(16)) / T(4), h = static_cast<T>(std::ldexp(1.0, -static_cast<int>(g.below(8))));
  const T D = h * h;
  const T e = D * g.pick<T>({T(0.5), T(1), T(2), T(0.25), T(64)});
  const bool complex = g.one_in(3);
  const T lead = static_cast<T>(std::ldexp(g.flip() ? 1.0 : -1.0, static_cast<int>(g.range(-12, 12))));
  g.note("center", m); g.note("half distance", h); g.note("complex", complex); g.note("epsilon", e); g.note("lead", lead);
  g.nontrivial();
  const auto s = vm::solve_quadratic(lead, lead * T(-2) * m, lead * (complex ? m * m + D : m * m - D), e);
  const std::size_t n = D <= e ? 1u : complex ? 0u : 2u;
  REQUIRE(std::get<0>(s) == n, "solve_quadratic gives " << std::get<0>(s) << " instead of " << n << " solutions");
  const auto v = solutions(s);
  if (n == 1) REQUIRE(v[0] == m, "the double root is " << v[0]);
  if (n == 2) REQUIRE(std::max(v[0], v[1]) == m + h && std::min(v[0], v[1]) == m - h, "the roots are " << v[0] << " and " << v[1]);
  REQUIRE((n > 0 || std::get<1>(s) != std::get<1>(s)) && (n > 1 || std::get<2>(s) != std::get<2>(s)), "an unused solution is not NaN");
}
TEST(quadratic_epsilon, 300000) { if (g.flip()) quadratic_epsilon<double>(g); else quadratic_epsilon<float>(g); }

template <typename T> static void cubic(G& g) {
  auto r = gen_roots<T>(g, 3, true);
  if (r.all.empty()) return;
  const L lead = lead_coefficient<T>(g);
  const T e = gen_epsilon<T>(g);
  const auto c = expand(r.all, lead);
  g.note("coefficients", c); g.note("epsilon", e);
  // the quantities that are compared with epsilon
  const L A = c[1] / c[0], B = c[2] / c[0], CC = c[3] / c[0];
  const L p = (B - A * A / 3) / 3, q = (2 * A * A * A / 27 - A * B / 3 + CC) / 2, D = q * q + p * p * p;
  const bool multiple = r.all.size() != r.reals.size() && r.all[0].imag() == 0 && r.all[1].imag() == 0;
  const L noise = 64 * eps<T>() * std::pow(r.scale, 6);
  if (multiple ? noise > e : std::fabs(D) < 4 * e + noise) return; // too close to call at this epsilon
  if (multiple && r.reals.size() == 2 && std::fabs(q) < 4 * e) return;
  g.label(multiple ? (r.reals.size() == 1 ? "triple root" : "double root") : r.reals.size() == 3 ? "three roots" : "one root");
  g.nontrivial();
  const auto s = solutions(vm::solve_cubic(T(c[0]), T(c[1]), T(c[2]), T(c[3]), e));
  g.note("roots", r.reals);
  // Cardano's formula subtracts nearly equal numbers if the roots are nearly symmetric
  L tol = (sizeof(T) == 8 ? L(2e-6) : L(2e-2)) * r.scale;
  if (!multiple) { // simple roots: the closer the discriminant is to 0, the worse
    const L cond = 1 + std::pow(r.scale, 6) / std::fabs(D);
    tol = std::min(tol, 256 * eps<T>() * r.scale * cond);
  }
  REQUIRE(matches(r.reals, s, tol), "solve_cubic gives " << s.size() << " solutions: " << (s.empty() ? T(0) : s[0]) << " " << (s.size() > 1 ? s[1] : T(0)) << " " << (s.size() > 2 ? s[2] : T(0)));
}
TEST(cubic, 1500000) { if (g.one_in(3)) cubic<float>(g); else cubic<double>(g); }

template <typename T> static void quartic(G& g) {
  auto r = gen_roots<T>(g, 4, true);
  if (r.all.empty()) return;
  if (r.scale > 8) { for (auto& x : r.all) x *= L(0.25); for (auto& x : r.reals) x *= L(0.25); r.scale *= L(0.25); }
  if (g.one_in(3)) { // no cubic and, half of the time, no linear term
    const L shift = (r.all[0].real() + r.all[1].real() + r.all[2].real() + r.all[3].real()) / 4;
    for (auto& x : r.all) x -= shift;
    for (auto& x : r.reals) x -= shift;
  }
  const L lead = lead_coefficient<T>(g);
  const T e = gen_epsilon<T>(g);
  const auto c = expand(r.all, lead);
  g.note("coefficients", c); g.note("epsilon", e);
  const bool multiple = [&] {
    for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) if (r.all[i] == r.all[j]) return true;
    return false;
  }();
  // the quantities the method compares with epsilon, from the roots
  const L sub = c[1] / c[0] / 4;
  std::array<C, 4> y;
  for (int i = 0; i < 4; ++i) y[i] = r.all[i] + sub;
  const L rr = (y[0] * y[1] * y[2] * y[3]).real();
  const L noise = (sizeof(T) == 8 ? L(1e-13) : L(4e-6)) * std::pow(2 * r.scale, 4);
  const auto unclear = [&](const L v, const L n) { return std::fabs(v) > n && std::fabs(v) < 4 * e + n; };
  if (noise > e || unclear(rr, noise)) return;
  for (int i = 0; i < 4; ++i) for (int j = 0; j < i; ++j) {
    const L d = std::abs(y[i] - y[j]);
    if (d * d / 4 < 4 * e && d > 0) return;
  }
  L cond = 0; // for simple roots: the error in relation to the machine epsilon
  if (std::fabs(rr) <= noise) {
    // one of the shifted roots is 0, the others solve a cubic
    std::vector<C> o;
    bool zero = false;
    for (const auto& v : y) { if (!zero && std::abs(v) < L(1e-6)) zero = true; else o.push_back(v); }
    if (!zero || o.size() != 3) return;
    for (const auto& v : o) if (std::abs(v) < L(1e-6)) return; // 0 is a multiple root
    const auto cc = expand(o, 1);
    const L p = cc[2] / 3, q = cc[3] / 2, D = q * q + p * p * p;
    if (multiple ? std::fabs(q) < 4 * e || noise * 64 > e : std::fabs(D) < 4 * e + noise) return;
    g.label("zero root");
  } else {
    const C zz[3] = {(y[0] * y[1] + y[2] * y[3]) / L(2), (y[0] * y[2] + y[1] * y[3]) / L(2), (y[0] * y[3] + y[1] * y[2]) / L(2)};
    L z = -1e30L;
    for (const auto& v : zz) if (std::fabs(v.imag()) < L(1e-9)) z = std::max(z, v.real());
    const L p = -(y[0] * y[0] + y[1] * y[1] + y[2] * y[2] + y[3] * y[3]).real() / 2;
    const L u = z * z - rr, v = 2 * z - p;
    // distance of the resolvent's discriminant from 0
    C D(1);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) D *= (zz[i] - zz[j]) * (zz[i] - zz[j]);
    const L d = D.real() / 108;
    const L n6 = noise * std::pow(2 * r.scale, 2) * 16;
    if (multiple) {
      if (n6 > e) return;
      const L m = (zz[0] + zz[1] + zz[2]).real() / 3;
      const L q = ((zz[0] - m) * (zz[1] - m) * (zz[2] - m)).real() / 2;
      if (std::fabs(q) < 8 * e) return; // resolvent's roots too close to each other
    } else if (std::fabs(d) < 4 * e + n6) return;
    if (unclear(u, noise) || unclear(v, noise)) return;
    if (multiple) { // the resolvent has two different roots, and either may be used
      for (const auto& w : zz) if (unclear(w.real() * w.real() - rr, noise) || unclear(2 * w.real() - p, noise)) return;
    }
    if (u < -noise || v < -noise) return; // numerically impossible
    if (!multiple && u > noise && v > noise) cond = std::sqrt((1 + std::pow(r.scale, 12) / std::fabs(d)) * (1 + std::pow(r.scale, 4) / u) * (1 + r.scale * r.scale / v));
  }
  g.label(multiple ? "multiple root" : r.reals.size() == 4 ? "four roots" : r.reals.size() == 2 ? "two roots" : "no root");
  g.nontrivial();
  const auto s = solutions(vm::solve_quartic(T(c[0]), T(c[1]), T(c[2]), T(c[3]), T(c[4]), e));
  g.note("roots", r.reals);
  L tol = (sizeof(T) == 8 ? L(2e-5) : L(5e-2)) * r.scale;
  if (cond > 0) {
    tol = std::min(tol, 256 * eps<T>() * r.scale * cond);
  }
  std::ostringstream o;
  for (const auto v : s) o << v << " ";
  REQUIRE(matches(r.reals, s, tol), "solve_quartic gives " << s.size() << " solutions: " << o.str());
}
TEST(quartic, 2000000) { if (g.one_in(4)) quartic<float>(g); else quartic<double>(g); }
