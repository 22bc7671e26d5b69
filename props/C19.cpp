// Intersections of rays with spheres and tori
#include "geo.h"
#include <complex>
#include <vecmath/intersection.h>
#include <vecmath/ray.h>
#include <vecmath/ray_io.h>

using C = std::complex<R>;

template <typename T, std::size_t S> static vm::vec<T, S> down(const rv<S>& r) {
  vm::vec<T, S> v;
  for (std::size_t i = 0; i < S; ++i) v.v[i] = static_cast<T>(r[i]);
  return v;
}

// roots of |o + s d - c|^2 = radius^2, the direction taken to be normalized
template <typename T, std::size_t S> static void sphere(G& g) {
  const T unit = static_cast<T>(std::ldexp(1.0, g.flip() ? 0 : static_cast<int>(g.range(-20, 15))));
  auto c = numvec<T, S>(g, 100);
  for (auto& x : c.v) x *= unit;
  const T radius = unit * T(g.pick<double>({0.25, 1.0, 2.0, 16.0, 100.0})) * T(g.one_in(3) ? 1.0 : g.real(0.5, 2.0));
  const auto d = unitvec<T, S>(g);
  // aim at a point in or near the sphere
  const auto aim = ref(c) + ref(unitvec<T, S>(g)) * (R(radius) * R(g.one_in(6) ? 0.0 : g.real(0, 1.5)));
  const R back = R(radius) * (g.one_in(4) ? R(g.real(-1, 1)) : R(g.real(-5, 5)));
  const auto o = down<T, S>(aim - ref(d) * back);
  g.note("origin", o); g.note("direction", d); g.note("center", c); g.note("radius", radius);
  const vm::ray<T, S> r(o, d);
  const T is = vm::intersect_ray_sphere(r, c, radius);
  const auto diff = ref(o) - ref(c);
  const R dd = rdot(diff, ref(d)), q = rdot(diff, diff) - R(radius) * R(radius), D = dd * dd - q;
  const R size = rlen(diff) + R(radius);
  const R dtol = 64 * eps<T>() * (size * size + 100 * R(unit) * size);
  g.nontrivial();
  if (D < -dtol) { g.label("miss"); REQUIRE(is != is, "the ray misses the sphere, but is reported to hit it at " << is); return; }
  if (D < dtol) { g.label("tangent, skipped"); return; }
  const R near_s = -dd - std::sqrt(D), far_s = -dd + std::sqrt(D);
  const R tol = 16 * eps<T>() * (size + 200 * R(unit)) + dtol / std::sqrt(D);
  if (far_s < -tol) { g.label("behind"); REQUIRE(is != is, "the sphere is behind the ray, but hit at " << is); }
  else if (near_s > tol) { g.label("outside"); REQUIRE(near(is, near_s, tol), "the ray hits at " << is << " instead of " << near_s); }
  else if (near_s < -tol && far_s > tol) { g.label("inside"); REQUIRE(near(is, far_s, tol), "the ray that starts inside hits at " << is << " instead of " << far_s); }
  else { g.label("on the sphere"); REQUIRE(is != is || near(is, near_s, tol) || near(is, far_s, tol), "the ray hits at " << is << " instead of " << near_s << " or " << far_s); }
}
TEST(sphere, 3000000) {
  switch (g.choice(4)) {
    case 0: sphere<double, 3>(g); break;
    case 1: sphere<float, 3>(g); break;
    case 2: sphere<double, 2>(g); break;
    default: sphere<double, 4>(g); break;
  }
}
// every quantity is a small integer: Pythagorean hits, exact tangents and starts on the sphere
template <typename T> static void exact_sphere(G& g) {
  const T unit = static_cast<T>(std::ldexp(1.0, g.flip() ? 0 : static_cast<int>(g.range(-20, 20))));
  auto c = ivec<T, 3>(g, 20);
  for (auto& x : c.v) x *= unit;
  const std::size_t a = g.below(3), b = (a + 1) % 3;
  static const long trip[][3] = {{3, 4, 5}, {5, 12, 13}, {8, 15, 17}, {0, 7, 7}, {6, 8, 10}, {7, 0, 7}, {12, 5, 13}, {4, 3, 5}};
  const auto& t = trip[g.below(8)];
  const long s = g.zint(24);
  vm::vec<T, 3> d, o = c;
  d[a] = g.flip() ? T(1) : T(-1);
  o[b] += T(g.flip() ? t[1] : -t[1]) * unit;
  o[a] += d[a] * T(s) * unit; // passes the center after -s
  const long n = -s - t[0], f = -s + t[0];
  const T is = vm::intersect_ray_sphere(vm::ray<T, 3>(o, d), c, T(t[2]) * unit);
  g.note("center", c); g.note("radius", T(t[2]) * unit); g.note("origin", o); g.note("direction", d);
  g.nontrivial();
  if (f < 0) { g.label("behind"); REQUIRE(is != is, "the sphere is behind the ray, but hit at " << is); }
  else if (n > 0) { g.label(n == f ? "tangent" : "outside"); REQUIRE(is == T(n) * unit, "the ray hits at " << is << " instead of " << T(n) * unit); }
  else if (n < 0 && f > 0) { g.label("inside"); REQUIRE(is == T(f) * unit, "the ray hits at " << is << " instead of " << T(f) * unit); }
  else { g.label("on the sphere"); REQUIRE(is == T(n) * unit || is == T(f) * unit, "the ray hits at " << is << " instead of " << T(n) * unit << " or " << T(f) * unit); }
}
TEST(exact_sphere, 400000) { if (g.flip()) exact_sphere<double>(g); else exact_sphere<float>(g); }

// all complex roots of a monic quartic (Durand-Kerner)
static bool roots4(const std::array<R, 5>& c, std::array<C, 4>& z) {
  R m = 1;
  for (int i = 1; i < 5; ++i) m = std::max(m, 1 + std::pow(std::fabs(c[i]), R(1) / i));
  for (int i = 0; i < 4; ++i) z[i] = std::pow(C(0.4L, 0.9L), i) * m;
  for (int it = 0; it < 300; ++it) {
    R change = 0;
    for (int i = 0; i < 4; ++i) {
      C p = 1, q = 1;
      for (int k = 1; k < 5; ++k) p = p * z[i] + c[k];
      for (int k = 0; k < 4; ++k) if (k != i) q *= z[i] - z[k];
      if (q == C(0)) return false;
      const C step = p / q;
      z[i] -= step;
      change = std::max(change, std::abs(step));
    }
    if (change < 1e-16L * m) return true;
  }
  return false;
}

template <typename T> static void torus(G& g) {
  const bool dbl = sizeof(T) == 8;
  const T M = dbl ? T(g.real(1.5, 8.0)) : T(g.range(2, 8)) / 2, m = M * T(g.real(0.15, 0.8));
  const auto pos = g.flip() ? vm::vec<T, 3>::zero() : numvec<T, 3>(g, dbl ? 50 : 4);
  // aim at a point near the tube
  const R phi = R(g.one_in(6) ? double(g.zint(4)) * 0.785398163397448 : g.real(0, 6.283185307179586)), psi = R(g.real(0, 6.283185307179586));
  const R rho = R(m) * R(g.real(0, 1.2));
  rv<3> aim;
  aim[0] = (R(M) + rho * std::cos(psi)) * std::cos(phi);
  aim[1] = (R(M) + rho * std::cos(psi)) * std::sin(phi);
  aim[2] = rho * std::sin(psi);
  if (g.one_in(8)) aim = rv<3>();
  const auto d = unitvec<T, 3>(g);
  const R back = R(g.real(-2.5, 2.5)) * R(M);
  const auto o = down<T, 3>(ref(pos) + aim - ref(d) * back);
  g.note("origin", o); g.note("direction", d); g.note("position", pos); g.note("major radius", M); g.note("minor radius", m);
  // the quartic in the ray parameter, of long double precision
  const auto w = ref(o) - ref(pos), rd = ref(d);
  const R dd = rdot(rd, rd), od = rdot(w, rd), oo = rdot(w, w), MM = R(M) * M, k = oo - R(m) * m - MM;
  // (|p|^2 + M^2 - m^2)^2 = 4 M^2 (x^2 + y^2), and |p|^2 + M^2 - m^2 = |p|^2 - m^2 - M^2 + 2 M^2
  const R h0 = k + 2 * MM, h1 = 2 * od, h2 = dd; // |p|^2 + M^2 - m^2 as a polynomial
  const R x0 = w[0] * w[0] + w[1] * w[1], x1 = 2 * (w[0] * rd[0] + w[1] * rd[1]), x2 = rd[0] * rd[0] + rd[1] * rd[1];
  std::array<R, 5> c{1, 2 * h2 * h1, h1 * h1 + 2 * h2 * h0 - 4 * MM * x2, 2 * h1 * h0 - 4 * MM * x1, h0 * h0 - 4 * MM * x0};
  for (int i = 1; i < 5; ++i) c[i] /= h2 * h2;
  std::array<C, 4> z;
  if (!roots4(c, z)) { g.label("multiple root, skipped"); return; }
  const C mean = (z[0] + z[1] + z[2] + z[3]) / R(4);
  R scale = 1, sep = 1e9L;
  for (int i = 0; i < 4; ++i) {
    scale = std::max(scale, std::abs(z[i]));
    for (int j = 0; j < i; ++j) sep = std::min(sep, std::abs(z[i] - z[j]));
  }
  const R e = vm::constants<T>::almost_zero();
  // noise in the coefficients of the reduced polynomial
  const R noise = (dbl ? R(1e-14) : R(1e-6)) * std::pow(scale, 4) * 4;
  if (noise > e || sep < (dbl ? R(0.2) : R(0.6))) { g.label("unseparated, skipped"); return; }
  std::array<C, 4> y;
  for (int i = 0; i < 4; ++i) y[i] = z[i] - mean;
  const R rr = (y[0] * y[1] * y[2] * y[3]).real();
  const auto unclear = [&](const R v) { return std::fabs(v) > noise && std::fabs(v) < 4 * e + noise; };
  if (unclear(rr)) { g.label("undecidable, skipped"); return; }
  if (std::fabs(rr) > noise) {
    const C zz[3] = {(y[0] * y[1] + y[2] * y[3]) / R(2), (y[0] * y[2] + y[1] * y[3]) / R(2), (y[0] * y[3] + y[1] * y[2]) / R(2)};
    C D(1);
    for (int i = 0; i < 3; ++i) for (int j = 0; j < i; ++j) D *= (zz[i] - zz[j]) * (zz[i] - zz[j]);
    const R p = -(y[0] * y[0] + y[1] * y[1] + y[2] * y[2] + y[3] * y[3]).real() / 2;
    if (std::fabs(D.real()) / 108 < 4 * e + noise * scale * scale * scale * scale) { g.label("undecidable, skipped"); return; }
    for (const auto& v : zz) if (unclear((v * v).real() - rr) || unclear(2 * v.real() - p)) { g.label("undecidable, skipped"); return; }
  } else {
    g.label("zero root, skipped"); return;
  }
  R first = std::numeric_limits<R>::quiet_NaN();
  // a linear coefficient of the reduced polynomial that counts as 0 moves the roots
  const R odd = std::fabs((y[0] * y[1] * y[2] + y[0] * y[1] * y[3] + y[0] * y[2] * y[3] + y[1] * y[2] * y[3]).real());
  if (odd < 0.05L) g.label("almost biquadratic");
  const R tol = (dbl ? odd < 0.05L ? R(1e-4) : R(1e-9) : R(5e-2)) * scale / std::min(sep, R(1));
  for (const auto& v : z) {
    if (std::fabs(v.imag()) > R(0.05)) continue;
    if (std::fabs(v.imag()) > R(1e-6)) { g.label("almost tangent, skipped"); return; }
    if (std::fabs(v.real()) < 2 * tol) { g.label("on the torus, skipped"); return; }
    if (v.real() > 0 && !(first <= v.real())) first = v.real();
  }
  const T is = vm::intersect_ray_torus(vm::ray<T, 3>(o, d), pos, M, m);
  g.nontrivial();
  g.label(first == first ? "hit" : "miss");
  if (first != first) REQUIRE(is != is, "the ray misses the torus but is reported to hit it at " << is);
  else REQUIRE(near(is, first, tol), "the ray hits the torus at " << is << " instead of " << first);
}
TEST(torus, 1500000) { if (g.one_in(4)) torus<float>(g); else torus<double>(g); }

// hits along rays whose distance is known: parallel to the axis or in the plane of the torus
template <typename T> static void exact_torus(G& g) {
  const T m = T(g.range(1, 3)), M = m + T(g.range(1, 4));
  const auto pos = ivec<T, 3>(g, 5);
  const std::size_t a = g.below(2);
  vm::vec<T, 3> o = pos, d;
  T want;
  g.nontrivial();
  if (g.flip()) { // in the plane through the center
    g.label("radial");
    const T s = g.flip() ? T(1) : T(-1);
    const long at = g.range(-9, 9); // position along the direction, the center being 0
    o[a] += s * T(at); d[a] = s;
    T hits[4] = {-(M + m), -(M - m), M - m, M + m};
    want = std::numeric_limits<T>::quiet_NaN();
    for (int i = 3; i >= 0; --i) {
      if (hits[i] == T(at)) return;
      if (hits[i] > T(at)) want = hits[i] - T(at);
    }
  } else { // through the middle of the tube, upwards or downwards
    g.label("axial");
    o[a] += g.flip() ? M : -M;
    const T s = g.flip() ? T(1) : T(-1);
    const long at = g.range(-9, 9);
    o[2] += s * T(at); d[2] = s;
    if (T(at) == m || T(at) == -m) return;
    want = T(at) < -m ? -m - T(at) : T(at) < m ? m - T(at) : std::numeric_limits<T>::quiet_NaN();
  }
  g.note("origin", o); g.note("direction", d); g.note("position", pos); g.note("major radius", M); g.note("minor radius", m);
  const T is = vm::intersect_ray_torus(vm::ray<T, 3>(o, d), pos, M, m);
  REQUIRE(want != want ? is != is : near(is, want, R(0.01)), "the ray hits the torus at " << is << " instead of " << want);
}
TEST(exact_torus, 200000) { if (g.flip()) exact_torus<double>(g); else exact_torus<float>(g); }
