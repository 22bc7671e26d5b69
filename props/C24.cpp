// Bezier surfaces
#include "geo.h"
#include <vecmath/bezier_surface.h>

template <typename T, std::size_t C> using Grid = std::array<std::array<vm::vec<T, C>, 3>, 3>;
template <typename T, std::size_t C, typename F> static Grid<T, C> make(const F& f) {
  Grid<T, C> p;
  for (auto& row : p) for (auto& x : row) x = f();
  return p;
}
// de Casteljau's algorithm: repeated linear interpolation, rows by u, columns by v
template <std::size_t C> static rv<C> casteljau(const std::array<rv<C>, 3>& p, const R t) {
  const auto a = p[0] * (1 - t) + p[1] * t, b = p[1] * (1 - t) + p[2] * t;
  return a * (1 - t) + b * t;
}
template <typename T, std::size_t C> static rv<C> reference(const Grid<T, C>& p, const R u, const R v) {
  std::array<rv<C>, 3> q;
  for (std::size_t i = 0; i < 3; ++i) q[i] = casteljau<C>({ref(p[i][0]), ref(p[i][1]), ref(p[i][2])}, u);
  return casteljau<C>(q, v);
}
template <typename T, std::size_t C> static R size(const Grid<T, C>& p) {
  R m = 0;
  for (const auto& row : p) for (const auto& x : row) m = std::max(m, rmax(ref(x)));
  return m;
}
template <typename T> static T param(G& g) {
  switch (g.choice(5)) {
    case 4: { const T t = std::fabs(logscale<T>(g, -20, -5)); return g.flip() ? t : T(1) - t; } // close to an end
    case 0: return static_cast<T>(g.range(0, 16)) / T(16);
    case 1: return static_cast<T>(g.pick<double>({0.0, 1.0, 0.5}));
    default: return static_cast<T>(g.unit());
  }
}

template <typename T, std::size_t C> static void value(G& g) {
  const T unit = static_cast<T>(std::ldexp(1.0, g.flip() ? 0 : static_cast<int>(g.range(-20, 15))));
  const bool flat = g.one_in(4); // almost the same point everywhere
  const auto base = numvec<T, C>(g, 500);
  const auto p = make<T, C>([&] {
    auto x = numvec<T, C>(g, 500);
    for (std::size_t i = 0; i < C; ++i) x.v[i] = flat ? (base.v[i] + (g.flip() ? T(0) : x.v[i] * T(0x1p-12))) * unit : x.v[i] * unit;
    return x;
  });
  if (flat) g.label("almost the same control points");
  const T u = param<T>(g), v = g.one_in(8) ? ulps(u, g.zint(3)) : param<T>(g);
  for (const auto& row : p) g.note("row", row);
  g.note("u", u); g.note("v", v);
  g.nontrivial(u != v && u != 0 && v != 0);
  const auto got = vm::evaluate_quadratic_bezier_surface(p, u, v);
  const auto want = reference(p, R(u), R(v));
  REQUIRE(vnear(got, want, 64 * eps<T>() * size(p)), "the point is " << got << " instead of " << want);
  // within the bounds of the control points
  for (std::size_t i = 0; i < C; ++i) {
    T lo = p[0][0].v[i], hi = lo;
    for (const auto& row : p) for (const auto& x : row) { lo = std::min(lo, x.v[i]); hi = std::max(hi, x.v[i]); }
    REQUIRE(R(got.v[i]) >= R(lo) - 16 * eps<T>() * size(p) && R(got.v[i]) <= R(hi) + 16 * eps<T>() * size(p), "component " << i << " of " << got << " is out of the bounds of the control points");
  }
}
TEST(value, 1500000) {
  switch (g.choice(6)) {
    case 0: value<double, 3>(g); break;
    case 1: value<float, 3>(g); break;
    case 2: value<double, 5>(g); break;
    case 3: value<float, 4>(g); break;
    case 4: value<double, 1>(g); break;
    default: value<double, 2>(g); break;
  }
}

// small integers and parameters in sixteenths: the result is exact
template <typename T, std::size_t C> static void exact(G& g) {
  const T unit = static_cast<T>(std::ldexp(1.0, g.flip() ? 0 : static_cast<int>(g.range(-20, 20))));
  const auto times = [&](vm::vec<T, C> x) { for (auto& c : x.v) c *= unit; return x; };
  const auto p = make<T, C>([&] { return times(ivec<T, C>(g, 12)); });
  const T u = static_cast<T>(g.range(0, 8)) / T(8), v = static_cast<T>(g.range(0, 8)) / T(8);
  for (const auto& row : p) g.note("row", row);
  g.note("u", u); g.note("v", v);
  g.nontrivial(u != v);
  const auto got = vm::evaluate_quadratic_bezier_surface(p, u, v);
  const auto want = reference(p, R(u), R(v));
  REQUIRE(vexact(got, want), "the point is " << got << " instead of " << want);
  // corners are control points
  const std::size_t i = g.below(2), j = g.below(2);
  const auto corner = vm::evaluate_quadratic_bezier_surface(p, T(i), T(j));
  REQUIRE(vsame(corner, p[2 * j][2 * i]), "the corner at " << i << ", " << j << " is " << corner << " instead of " << p[2 * j][2 * i]);
  // translation of the control points translates the surface; mirroring them mirrors the parameters
  const auto d = times(ivec<T, C>(g, 8));
  auto t = p, m = p;
  for (std::size_t r = 0; r < 3; ++r) for (std::size_t c = 0; c < 3; ++c) { for (std::size_t k = 0; k < C; ++k) t[r][c].v[k] += d.v[k]; m[r][c] = p[c][r]; }
  REQUIRE(vexact(vm::evaluate_quadratic_bezier_surface(t, u, v), want + ref(d)), "the surface of translated control points is not translated");
  REQUIRE(vexact(vm::evaluate_quadratic_bezier_surface(m, v, u), want), "the surface of transposed control points is not the same with exchanged parameters");
}
TEST(exact, 1500000) {
  switch (g.choice(4)) {
    case 0: exact<double, 3>(g); break;
    case 1: exact<float, 3>(g); break;
    case 2: exact<double, 4>(g); break;
    default: exact<double, 1>(g); break;
  }
}
