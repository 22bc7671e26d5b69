// Products, lengths, distances, angles and colinearity of vectors
#include "geo.h"

// exact on small dyadic numbers: the reference computes in long double without rounding
template <typename T, std::size_t S> static void products(G& g) {
  const auto a = gridvec<T, S>(g), b = gridvec<T, S>(g);
  g.note("a", a); g.note("b", b);
  g.nontrivial();
  REQUIRE(static_cast<R>(vm::dot(a, b)) == rdot(ref(a), ref(b)), "dot gives " << vm::dot(a, b));
  REQUIRE(static_cast<R>(vm::squared_length(a)) == rdot(ref(a), ref(a)), "squared_length gives " << vm::squared_length(a));
  const auto d = ref(a) - ref(b);
  if (rmax(d) <= 1000) REQUIRE(near(vm::squared_distance(a, b), rdot(d, d), 4 * eps<T>() * rdot(d, d)), "squared_distance gives " << vm::squared_distance(a, b));
  if constexpr (S == 3) {
    const auto c = vm::cross(a, b);
    REQUIRE(vexact(c, rcross(ref(a), ref(b))), "cross gives " << c);
  }
}
TEST(products, 1500000) {
  switch (g.choice(7)) {
    case 0: products<double, 3>(g); break;
    case 1: products<float, 3>(g); break;
    case 2: products<double, 2>(g); break;
    case 3: products<float, 4>(g); break;
    case 4: products<double, 1>(g); break;
    case 5: products<double, 5>(g); break;
    default: products<double, 6>(g); break;
  }
}

template <typename T, std::size_t S> static void lengths(G& g) {
  const int sc = static_cast<int>(g.zint(sizeof(T) == 4 ? 20 : 200)) * static_cast<int>(g.choice(2));
  const auto scale = static_cast<T>(std::ldexp(1.0, sc));
  const auto a = numvec<T, S>(g) * scale, b = numvec<T, S>(g) * scale;
  g.note("a", a); g.note("b", b);
  const R la = rlen(ref(a));
  g.nontrivial(la > 0);
  if (rmax(ref(a)) > 0 && rmax(ref(a)) < R(scale) / (1 << 20)) return;
  REQUIRE(near(vm::length(a), la, 16 * eps<T>() * la), "length gives " << vm::length(a));
  REQUIRE(near(vm::length_c(a), la, 32 * eps<T>() * la), "length_c gives " << vm::length_c(a));
  const R ld = rlen(ref(a) - ref(b)), mag = rmax(ref(a)) + rmax(ref(b));
  REQUIRE(near(vm::distance(a, b), ld, 32 * eps<T>() * mag), "distance gives " << vm::distance(a, b));
  REQUIRE(near(vm::distance_c(a, b), ld, 64 * eps<T>() * mag), "distance_c gives " << vm::distance_c(a, b));
  REQUIRE(vm::distance(a, b) == vm::distance(b, a) && vm::distance(a, a) == 0, "distance is no metric");
  const R tol = 4 * eps<T>() * mag * mag * S;
  REQUIRE(near(vm::squared_distance(a, b), ld * ld, 4 * tol), "squared_distance gives " << vm::squared_distance(a, b));
  REQUIRE(near(vm::dot(a, b), rdot(ref(a), ref(b)), tol), "dot gives " << vm::dot(a, b));
  if constexpr (S == 3) REQUIRE(vnear(vm::cross(a, b), rcross(ref(a), ref(b)), tol), "cross gives " << vm::cross(a, b));
  if (la > 0) {
    const auto n = vm::normalize(a);
    REQUIRE(vnear(n, runit(ref(a)), 16 * eps<T>()), "normalize gives " << n);
    REQUIRE(vnear(vm::normalize_c(a), runit(ref(a)), 32 * eps<T>()), "normalize_c gives " << vm::normalize_c(a));
    REQUIRE(vm::is_unit(n, static_cast<T>(32 * eps<T>())), "a normalized vector is no unit vector");
    const bool tiny = g.flip();
    const T e = tiny ? std::fabs(logscale<T>(g, sizeof(T) == 4 ? -16 : -40, -4)) : static_cast<T>(g.range(1, 100)) / T(1024);
    const R f = tiny ? R(T(1) + e * static_cast<T>(g.real(-2, 2))) : 1 + R(g.zint(200)) / 1024;
    const auto m = n * static_cast<T>(f);
    g.note("factor", f);
    if (std::fabs(std::fabs(f - 1) - e) > 64 * eps<T>()) REQUIRE(vm::is_unit(m, e) == (std::fabs(f - 1) <= e), "is_unit of length " << f << " with epsilon " << e);
  }
}
TEST(lengths, 1500000) {
  switch (g.choice(6)) {
    case 0: lengths<double, 3>(g); break;
    case 1: lengths<float, 3>(g); break;
    case 2: lengths<double, 2>(g); break;
    case 3: lengths<float, 4>(g); break;
    case 4: lengths<double, 6>(g); break;
    default: lengths<double, 1>(g); break;
  }
}

// integer points, so that colinearity is exact
template <typename T, std::size_t S> static void colinear(G& g) {
  const long k = sizeof(T) == 4 ? 7 : g.pick<long>({3, 7, 100});
  const auto a = ivec<T, S>(g, k);
  const auto d = nonzero_ivec<T, S>(g, g.pick<long>({1, 3}));
  auto b = g.flip() ? a + d * static_cast<T>(g.zint(3)) : ivec<T, S>(g, k);
  auto c = g.flip() ? a + d * static_cast<T>(g.zint(3)) : ivec<T, S>(g, k);
  if (g.one_in(4)) c = a + (b - a) * static_cast<T>(g.zint(2)) ;
  g.note("a", a); g.note("b", b); g.note("c", c);
  const auto u = ref(b) - ref(a), v = ref(c) - ref(a);
  const bool col = rdot(u, v) * rdot(u, v) == rdot(u, u) * rdot(v, v); // equality in Cauchy-Schwarz
  g.label(col ? "colinear" : "not colinear");
  g.nontrivial(rdot(u, u) > 0 && rdot(v, v) > 0);
  REQUIRE(vm::is_colinear(a, b, c) == col, "is_colinear(a, b, c) gives " << !col);
  REQUIRE(vm::is_colinear(a, b, c, T(1e30)), "is_colinear with a huge epsilon");
  REQUIRE(vm::is_colinear(a, b, c, T(0.001)) == col, "is_colinear with a small epsilon");
  REQUIRE(vm::is_colinear(c, b, a) == col && vm::is_colinear(b, c, a) == col && vm::is_colinear(a, c, b) == col, "is_colinear depends on the order");
}
TEST(colinear, 1500000) {
  switch (g.choice(7)) {
    case 0: colinear<double, 3>(g); break;
    case 1: colinear<float, 3>(g); break;
    case 2: colinear<double, 2>(g); break;
    case 3: colinear<double, 4>(g); break;
    case 4: colinear<double, 5>(g); break;
    case 5: colinear<double, 1>(g); break;
    default: colinear<float, 2>(g); break;
  }
}

template <typename T, std::size_t S> static void parallel(G& g) {
  const auto a = nonzero_ivec<T, S>(g, 5);
  auto b = nonzero_ivec<T, S>(g, 5);
  const bool par = [&] {
    if (g.flip()) b = a * static_cast<T>(g.flip() ? g.range(1, 4) : -g.range(1, 4));
    const R d = rdot(ref(a), ref(b));
    return d * d == rdot(ref(a), ref(a)) * rdot(ref(b), ref(b));
  }();
  const T f = std::ldexp(T(1), static_cast<int>(g.range(-25, 25))), h = std::ldexp(T(1), static_cast<int>(g.range(-25, 25)));
  const vm::vec<T, S> x = a * f, y = b / h;
  g.note("x", x); g.note("y", y);
  g.label(par ? "parallel" : "not parallel");
  g.nontrivial();
  REQUIRE(vm::is_parallel(x, y) == par, "is_parallel gives " << !par);
  REQUIRE(vm::is_parallel_c(x, y) == par, "is_parallel_c gives " << !par);
  // with an epsilon: the cosine differs from 1 or -1 by at most epsilon
  const R cosine = std::fabs(rdot(ref(a), ref(b))) / (rlen(ref(a)) * rlen(ref(b)));
  const T e = static_cast<T>(g.range(1, 1023)) / T(1024);
  if (std::fabs(1 - cosine - R(e)) > 64 * eps<T>()) REQUIRE(vm::is_parallel(x, y, e) == (1 - cosine <= R(e)), "is_parallel with epsilon " << e << " where the cosine is " << cosine);
  REQUIRE(vm::is_parallel(y, x) == par && vm::is_parallel(-x, y) == par, "is_parallel is not symmetric");
  // at a small angle
  const auto z = y + nonzero_ivec<T, S>(g, 5) * (logscale<T>(g, -14, -2) / h);
  const R cz = std::fabs(rdot(ref(a), ref(z))) / (rlen(ref(a)) * rlen(ref(z)));
  g.note("z", z);
  const T ez = g.flip() ? vm::constants<T>::colinear_epsilon() : std::fabs(logscale<T>(g, sizeof(T) == 4 ? -15 : -30, -3));
  if (std::fabs(1 - cz - R(ez)) > 64 * eps<T>()) REQUIRE(vm::is_parallel(x, z, ez) == (1 - cz <= R(ez)), "is_parallel with epsilon " << ez << " where the cosine differs from 1 by " << 1 - cz);
}
TEST(parallel, 1000000) {
  switch (g.choice(6)) {
    case 0: parallel<double, 3>(g); break;
    case 1: parallel<float, 3>(g); break;
    case 2: parallel<double, 2>(g); break;
    case 3: parallel<double, 5>(g); break;
    case 4: parallel<float, 2>(g); break;
    default: parallel<double, 4>(g); break;
  }
}

template <typename T, std::size_t S> static void between(G& g) {
  const auto a = ivec<T, S>(g, 20);
  const auto d = nonzero_ivec<T, S>(g, 4);
  const long n = g.zint(8), m = g.zint(10);
  const vm::vec<T, S> b = a + d * static_cast<T>(n), p = a + d * static_cast<T>(m);
  const auto s = static_cast<T>(std::ldexp(1.0, static_cast<int>(g.flip() ? -g.range(0, 3) : g.zint(20))));
  g.note("p", p); g.note("start", a); g.note("end", b); g.note("scale", s);
  const bool in = n >= 0 ? m >= 0 && m <= n : m <= 0 && m >= n;
  g.label(in ? "between" : "outside");
  g.nontrivial(n != 0);
  REQUIRE(vm::is_between(p * s, a * s, b * s) == in, "is_between gives " << !in);
  REQUIRE(vm::is_between_c(p * s, a * s, b * s) == in, "is_between_c gives " << !in);
  REQUIRE(vm::is_between(p * s, b * s, a * s) == in, "is_between with swapped ends gives " << !in);
}
TEST(between, 1000000) {
  switch (g.choice(6)) {
    case 0: between<double, 3>(g); break;
    case 1: between<float, 3>(g); break;
    case 2: between<double, 2>(g); break;
    case 3: between<float, 5>(g); break;
    case 4: between<double, 4>(g); break;
    default: between<double, 1>(g); break;
  }
}

template <typename T, std::size_t S> static void averages(G& g) {
  struct item { int tag; vm::vec<T, S> pos; };
  std::vector<item> items;
  std::vector<vm::vec<T, S>> pts;
  const auto n = 1 + count(g, 9);
  rv<S> sum;
  for (std::size_t i = 0; i < n; ++i) {
    const auto p = gridvec<T, S>(g);
    pts.push_back(p);
    items.push_back({static_cast<int>(i), p});
    sum = sum + ref(p);
  }
  g.note("points", pts);
  g.nontrivial(n > 1);
  const auto want = sum * (1 / static_cast<R>(n));
  const auto r = vm::average(pts.begin(), pts.end());
  REQUIRE(vnear(r, want, 16 * eps<T>() * 1000 * n), "average gives " << r << " instead of " << want);
  const auto q = vm::average(items.begin(), items.end(), [](const item& it) { return it.pos; });
  REQUIRE(vnear(q, want, 16 * eps<T>() * 1000 * n), "average of items gives " << q << " instead of " << want);
}
TEST(averages, 500000) {
  switch (g.choice(5)) {
    case 0: averages<double, 3>(g); break;
    case 1: averages<float, 3>(g); break;
    case 2: averages<double, 1>(g); break;
    case 3: averages<double, 5>(g); break;
    default: averages<double, 2>(g); break;
  }
}

// the axis, turned counter clockwise about up by the measured angle, is the vector
template <typename T> static void angle(G& g) {
  const auto axis0 = unitvec<T, 3>(g);
  const auto a = runit(ref(axis0));
  auto h = ref(unitvec<T, 3>(g));
  h = h - a * rdot(a, h);
  if (rlen(h) < R(0.1)) return;
  const auto up = runit(h), side = rcross(up, a);
  const R pi = 3.14159265358979323846264338327950288L;
  R t = g.flip() ? pi / 12 * R(g.range(0, 23)) : R(g.real(0, 6.2831853));
  if (g.one_in(4)) { // almost a multiple of a quarter turn
    t = pi / 2 * R(g.range(0, 3)) + R(logscale<double>(g, -20, -5));
    if (t < 0) t += 2 * pi;
    g.label("close to a quarter turn");
  }
  const auto v = a * std::cos(t) + side * std::sin(t);
  const auto to = [](const rv<3>& x) { return vm::vec<T, 3>(static_cast<T>(x[0]), static_cast<T>(x[1]), static_cast<T>(x[2])); };
  g.note("axis", axis0); g.note("up", up); g.note("angle", t);
  g.nontrivial();
  g.label(t < pi ? "first half" : "second half");
  const R m = vm::measure_angle(to(v), to(a), to(up));
  REQUIRE(m >= 0 && m <= 2 * pi + 1e-5L, "measure_angle gives " << m);
  R d = std::fabs(m - t);
  d = std::min(d, 2 * pi - d);
  REQUIRE(d <= (sizeof(T) == 4 ? 2e-3L : 1e-6L), "measure_angle gives " << m << " instead of " << t);
}
TEST(angle, 800000) { if (g.flip()) angle<double>(g); else angle<float>(g); }

// quarter turns between axes are measured exactly from 0 up to less than a whole turn
template <typename T> static void quarter(G& g) {
  const auto a = g.below(3), u = (a + 1 + g.below(2)) % 3;
  rv<3> ra, ru;
  ra[a] = g.flip() ? 1 : -1;
  ru[u] = g.flip() ? 1 : -1;
  const auto side = rcross(ru, ra);
  const auto k = g.range(0, 3);
  const auto v = k == 0 ? ra : k == 1 ? side : k == 2 ? ra * -1 : side * -1;
  const auto to = [](const rv<3>& x) { return vm::vec<T, 3>(static_cast<T>(x[0]), static_cast<T>(x[1]), static_cast<T>(x[2])); };
  g.note("axis", ra); g.note("up", ru); g.note("quarters", k);
  g.nontrivial();
  const R m = vm::measure_angle(to(v), to(ra), to(ru));
  REQUIRE(near(m, R(k) * 1.57079632679489661923132169163975144L, sizeof(T) == 4 ? 1e-5L : 1e-12L), "measure_angle gives " << m << " for " << k << " quarter turns");
}
TEST(quarter, 20000) { if (g.flip()) quarter<double>(g); else quarter<float>(g); }
