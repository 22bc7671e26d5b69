// Planes: construction, point classification, projections, transformation
#include "matgeo.h"
#include <vecmath/plane.h>
#include <vecmath/plane_io.h>
#include <vecmath/mat_ext.h>
#include <list>

template <typename T, std::size_t S> static vm::vec<T, S> down(const rv<S>& r) {
  vm::vec<T, S> v;
  for (std::size_t i = 0; i < S; ++i) v.v[i] = static_cast<T>(r[i]);
  return v;
}
template <std::size_t S> static rv<S> gref(G& g, double k) { rv<S> r; for (std::size_t i = 0; i < S; ++i) r[i] = g.flip() ? R(g.zint(static_cast<long>(k))) : R(g.real(-k, k)); return r; }
template <std::size_t S> static rv<S> flat(const rv<S>& n, const rv<S>& d) { return d - n * (rdot(n, d) / rdot(n, n)); } // part of d in the plane

template <typename T, std::size_t S> static void points(G& g) {
  const auto n = unitvec<T, S>(g);
  const auto a = numvec<T, S>(g, 100);
  const auto rn = ref(n);
  g.note("normal", n); g.note("anchor", a);
  const R tol = 64 * eps<T>() * 200;
  const vm::plane<T, S> pl(a, n);
  g.nontrivial(rmax(rn) < 1);
  REQUIRE(near(pl.distance, rdot(ref(a), rn), tol) && vsame(pl.normal, n), "distance is " << pl.distance << ", normal is " << pl.normal);
  REQUIRE(near(rdot(ref(pl.anchor()), rn), pl.distance, tol) && vnear(pl.anchor(), rn * R(pl.distance), tol), "anchor is " << pl.anchor());
  // a point h above the plane
  const auto d = flat(rn, gref<S>(g, 50));
  const R h = g.flip() ? R(g.zint(20)) : R(g.real(-1, 1)) * std::pow(10.0L, -static_cast<R>(g.range(0, 6)));
  const auto p = down<T, S>(ref(a) + d + rn * h);
  g.note("p", p); g.note("height", static_cast<double>(h));
  REQUIRE(near(pl.point_distance(p), h, tol), "point_distance is " << pl.point_distance(p) << " instead of " << h);
  const T e = g.flip() ? std::fabs(logscale<T>(g, -20, 0)) : static_cast<T>(g.flip() ? 0 : 0.5);
  const auto status = [&](vm::plane_status s, R eps_, const char* what) {
    if (h > eps_ + 2 * tol) REQUIRE(s == vm::plane_status::above, what << ": the point is not above the plane");
    else if (h < -eps_ - 2 * tol) REQUIRE(s == vm::plane_status::below, what << ": the point is not below the plane");
    else if (std::fabs(h) < eps_ - 2 * tol) REQUIRE(s == vm::plane_status::inside, what << ": the point is not on the plane");
  };
  status(pl.point_status(p, e), R(e), "point_status(point, epsilon)");
  status(pl.point_status(p), R(vm::constants<T>::point_status_epsilon()), "point_status(point)");
  const auto f = pl.flip();
  REQUIRE(near(f.point_distance(p), -h, tol), "a point " << h << " above the plane is " << f.point_distance(p) << " above the flipped plane");
  REQUIRE(vexact(f.normal, rn * -1) && f.distance == -pl.distance, "flipped plane " << f);
  REQUIRE(f.flip() == pl, "flipping twice gives another plane");
  // projections
  const auto q = pl.project_point(p);
  REQUIRE(vnear(q, ref(a) + d, tol), "project_point gives " << q << " instead of " << (ref(a) + d));
  const auto v = down<T, S>(gref<S>(g, 50));
  g.note("v", v);
  REQUIRE(vnear(pl.project_vector(v), flat(rn, ref(v)), tol), "project_vector gives " << pl.project_vector(v) << " instead of " << flat(rn, ref(v)));
  const auto dir = g.flip() ? unitvec<T, S>(g) : nonzero_ivec<T, S>(g, 5);
  g.note("direction", dir);
  const R cos = rdot(ref(dir), rn);
  if (std::fabs(cos) > 0.0015L) {
    g.label("projected along a direction");
    const R t2 = tol * 8 * (1 + rlen(ref(dir)) / std::fabs(cos)) * (1 + rlen(ref(dir)) * 0.05L / std::fabs(cos));
    const auto w = pl.project_point(p, dir);
    const auto want = ref(p) - ref(dir) * (h / cos);
    REQUIRE(vnear(w, want, t2), "projecting along the direction gives " << w << " instead of " << want);
    const auto u = pl.project_vector(v, dir);
    const auto wantu = ref(v) - ref(dir) * (rdot(ref(v), rn) / cos);
    REQUIRE(vnear(u, wantu, t2), "projecting the vector along the direction gives " << u << " instead of " << wantu);
  } else if (cos == 0) {
    g.label("projected along a parallel direction");
    for (std::size_t i = 0; i < S; ++i) REQUIRE(pl.project_point(p, dir).v[i] != pl.project_point(p, dir).v[i], "projecting along a parallel direction gives " << pl.project_point(p, dir));
  }
}
TEST(points, 2500000) {
  switch (g.choice(4)) {
    case 0: points<double, 3>(g); break;
    case 1: points<float, 3>(g); break;
    case 2: points<double, 2>(g); break;
    default: points<double, 4>(g); break;
  }
}

// the missing coordinate of a point of the plane; any normal
template <typename T, std::size_t S> static void missing(G& g) {
  auto n = nonzero_ivec<T, S>(g, 6);
  if (g.one_in(3)) n.v[g.below(S)] *= static_cast<T>(std::ldexp(1.0, -static_cast<int>(g.range(1, 40)))); // almost parallel to an axis
  const auto d = static_cast<T>(g.zint(50));
  const auto p = gridvec<T, S - 1>(g);
  g.note("normal", n); g.note("distance", d); g.note("p", p);
  const vm::plane<T, S> pl(d, n);
  REQUIRE(pl.distance == d && vsame(pl.normal, n), "constructor");
  for (std::size_t ax = 0; ax < S; ++ax) {
    const T c = pl.at(p, static_cast<vm::axis::type>(ax));
    if (n.v[ax] == 0) { REQUIRE(c == 0, "at() gives " << c << " for a parallel plane"); continue; }
    g.nontrivial();
    R s = 0, mag = std::fabs(R(d));
    for (std::size_t i = 0, k = 0; i < S; ++i) if (i != ax) { s += R(n.v[i]) * p.v[k]; mag += std::fabs(R(n.v[i]) * p.v[k]); ++k; }
    const R want = (R(d) - s) / n.v[ax];
    REQUIRE(near(c, want, 16 * eps<T>() * (1 + mag / std::min(R(1), std::fabs(R(n.v[ax]))))), "at() gives " << c << " instead of " << want << " for axis " << ax);
    if (ax == 0) REQUIRE(pl.xAt(p) == c, "xAt");
    if (ax == 1) REQUIRE(pl.yAt(p) == c, "yAt");
    if constexpr (S > 2) if (ax == 2) REQUIRE(pl.zAt(p) == c, "zAt");
  }
}
TEST(missing_coordinate, 1500000) {
  switch (g.choice(4)) {
    case 0: missing<double, 3>(g); break;
    case 1: missing<float, 3>(g); break;
    case 2: missing<double, 2>(g); break;
    default: missing<double, 4>(g); break;
  }
}

template <typename T> static void three(G& g) {
  using V = vm::vec<T, 3>;
  const long k = g.pick<long>({1, 3, 20, 200});
  std::vector<V> v;
  for (auto n = g.below(6); n > 0; --n) v.push_back(ivec<T, 3>(g, k));
  if (v.size() > 2 && g.one_in(5)) v[2] = v[0] + (v[1] - v[0]) * static_cast<T>(g.zint(3)); // colinear
  // the sine of the angle does not depend on the scale; squares must neither underflow nor overflow
  const int me = std::is_same<T, float>::value ? 20 : 200;
  const R scale = g.flip() ? 1 : std::ldexp(R(1), static_cast<int>(g.flip() ? g.range(-12, 0) : g.range(-me, me)));
  for (auto& p : v) p = p * static_cast<T>(scale); // exact
  g.note("points", v);
  const auto [ok, pl] = vm::from_points(v.begin(), v.end());
  const std::list<V> l(v.begin(), v.end());
  const auto [lok, lpl] = vm::from_points(l.begin(), l.end());
  std::vector<std::pair<int, V>> m;
  for (const auto& p : v) m.emplace_back(1, V(p.v[2], p.v[0], p.v[1]));
  const auto [mok, mpl] = vm::from_points(m.begin(), m.end(), [](const std::pair<int, V>& p) -> V { return V(p.second.v[1], p.second.v[2], p.second.v[0]); });
  const auto [sok, spl] = vm::from_points(v.begin(), v.end(), [](const V& p) -> V { return p * T(2); });
  REQUIRE(lok == ok && lpl == pl, "another container gives another plane");
  REQUIRE(mok == ok && mpl == pl, "a mapping function gives " << mpl << " instead of " << pl);
  REQUIRE(sok == ok, "scaled points");
  if (v.size() < 3) { g.label("too few points"); REQUIRE(!ok, "a plane from " << v.size() << " points"); return; }
  const auto c = rcross(ref(v[2]) - ref(v[0]), ref(v[1]) - ref(v[0]));
  const auto [tok, tpl] = vm::from_points(v[0], v[1], v[2]);
  const auto [nok, n] = vm::plane_normal(v[0], v[1], v[2]);
  REQUIRE(tok == ok && tpl == pl, "from_points with three points gives " << tpl << " instead of " << pl);
  if (rlen(c) == 0) {
    g.label("colinear");
    REQUIRE(!ok && !nok, "a plane from colinear points");
    return;
  }
  const R sine = rlen(c) / (rlen(ref(v[2]) - ref(v[0])) * rlen(ref(v[1]) - ref(v[0])));
  const R se = R(g.below(10)) / 10;
  if (std::fabs(sine - se) > 1e-4L) {
    g.note("epsilon", static_cast<double>(se));
    const auto [eok, en] = vm::plane_normal(v[0], v[1], v[2], static_cast<T>(se));
    REQUIRE(eok == (sine > se), "plane_normal with epsilon " << se << " where the sine is " << sine);
  }
  if (sine < 1e-4L) { g.label("almost colinear"); return; }
  g.label("plane");
  g.nontrivial();
  const R tol = 64 * eps<T>() * (1 + k) * scale;
  REQUIRE(ok && nok, "no plane from points that are not colinear");
  REQUIRE(vnear(pl.normal, runit(c), 16 * eps<T>() / std::min(R(1), sine)), "normal is " << pl.normal << " instead of " << runit(c));
  REQUIRE(vnear(n, runit(c), 16 * eps<T>() / std::min(R(1), sine)), "plane_normal is " << n << " instead of " << runit(c));
  for (int i = 0; i < 3; ++i) REQUIRE(near(pl.point_distance(v[i]), 0, tol / std::min(R(1), sine)), "point " << v[i] << " is " << pl.point_distance(v[i]) << " off the plane");
  REQUIRE(near(spl.distance, 2 * R(pl.distance), 4 * tol / std::min(R(1), sine)), "the plane of the scaled points has distance " << spl.distance);
}
TEST(three_points, 1500000) { if (g.flip()) three<double>(g); else three<float>(g); }

template <typename T> static void simple(G& g) {
  using V = vm::vec<T, 3>;
  const T unit = std::ldexp(T(1), g.flip() ? 0 : static_cast<int>(g.range(-30, 20)));
  const auto pos = unit * ivec<T, 3>(g, 50);
  const auto dir = g.flip() ? nonzero_ivec<T, 3>(g, 9) : g.flip() ? unitvec<T, 3>(g) * (T(1) + logscale<T>(g, -20, -3)) : nonzero_ivec<T, 3>(g, 9) * std::ldexp(T(1), static_cast<int>(g.range(-25, 10)));
  g.note("position", pos); g.note("direction", dir);
  g.nontrivial();
  const auto h = vm::horizontal_plane(pos);
  REQUIRE(vsame(h.normal, V(0, 0, 1)) && h.distance == pos.v[2], "horizontal_plane is " << h);
  const auto o = vm::orthogonal_plane(pos, dir);
  REQUIRE(vnear(o.normal, runit(ref(dir)), 8 * eps<T>()) && near(o.distance, rdot(ref(pos), runit(ref(dir))), 1000 * eps<T>() * unit), "orthogonal_plane is " << o);
  int ax = 0;
  bool tie = false;
  for (int i = 1; i < 3; ++i) {
    if (std::fabs(dir.v[i]) > std::fabs(dir.v[ax])) { ax = i; tie = false; }
    else if (std::fabs(dir.v[i]) == std::fabs(dir.v[ax])) tie = true;
  }
  const auto al = vm::aligned_orthogonal_plane(pos, dir);
  if (!tie) {
    V n(0, 0, 0);
    n.v[ax] = dir.v[ax] > 0 ? T(1) : T(-1);
    REQUIRE(vsame(al.normal, n) && al.distance == pos.v[ax] * n.v[ax], "aligned_orthogonal_plane is " << al);
  }
  // points exactly at the given distance are still inside
  {
    const auto k = g.below(3);
    const auto h = vm::plane<T, 3>(static_cast<T>(g.zint(20)), vm::vec<T, 3>::axis(k) * static_cast<T>(g.flip() ? 1 : -1));
    const T unit = static_cast<T>(std::ldexp(1.0, -static_cast<int>(g.flip() ? 2 : g.below(14))));
    const T e = static_cast<T>(g.below(5)) * unit;
    auto pos = ivec<T, 3>(g, 20);
    if (g.flip()) pos.v[k] = h.distance * h.normal.v[k];
    pos.v[k] += static_cast<T>(g.zint(6)) * unit;
    const auto d = h.point_distance(pos);
    const auto st = h.point_status(pos, e);
    g.note("pos", pos);
    g.note("plane", h); g.note("epsilon", e);
    REQUIRE(d == pos.v[k] * h.normal.v[k] - h.distance, "point_distance is " << d);
    REQUIRE(st == (d > e ? vm::plane_status::above : d < -e ? vm::plane_status::below : vm::plane_status::inside), "point_status is " << static_cast<int>(st) << " at distance " << d);
  }
  // equality
  const vm::plane<T, 3> a(static_cast<T>(g.zint(2)), ivec<T, 3>(g, 1));
  auto b = a;
  if (g.flip()) b.distance = static_cast<T>(g.zint(2));
  if (g.flip()) b.normal.v[g.below(3)] = static_cast<T>(g.zint(1));
  {
    auto c = a; // a tiny bit aside
    auto& x = g.flip() ? c.distance : c.normal.v[g.below(3)];
    x = std::nextafter(x, static_cast<T>(g.flip() ? 9 : -9));
    REQUIRE(!(a == c) && !(c == a) && a != c && vm::is_equal(a, c, T(0.001)) && !vm::is_equal(a, c, T(0)), "a slightly different plane is equal");
  }
  const bool eq = a.distance == b.distance && vsame(a.normal, b.normal);
  g.note("a", a); g.note("b", b);
  REQUIRE((a == b) == eq && (b == a) == eq && (a != b) == !eq, "equality");
  REQUIRE(vm::is_equal(a, b, T(0.5)) == eq && vm::is_equal(a, b, T(0)) == eq, "is_equal");
  REQUIRE(vm::is_equal(a, b, T(8)), "is_equal with a large epsilon");
  const vm::plane<double, 3> d(a);
  const vm::plane<float, 3> f(d);
  REQUIRE(d.distance == a.distance && f.distance == a.distance && vexact(d.normal, ref(a.normal)) && vexact(f.normal, ref(a.normal)), "conversion");
}
TEST(simple_planes, 800000) { if (g.flip()) simple<double>(g); else simple<float>(g); }

// transformed points of the plane are on the transformed plane, and points above it stay above it
template <typename T> static void transformed(G& g) {
  const auto n = unitvec<T, 3>(g);
  const auto d = g.flip() ? static_cast<T>(g.zint(20)) : num<T>(g, 20);
  vm::mat<T, 4, 4> m = vm::translation_matrix(g.flip() ? ivec<T, 3>(g, 20) : numvec<T, 3>(g, 20));
  const auto steps = g.below(4);
  for (std::size_t i = 0; i < steps; ++i) {
    switch (g.choice(5)) {
      case 4: m = m * vm::scaling_matrix(vm::vec<T, 3>(T(1) + logscale<T>(g, -30, -2), T(1) + logscale<T>(g, -30, -2), T(1) + logscale<T>(g, -30, -2))); break; // almost or nearly the identity
      case 0: m = m * vm::rotation_matrix(unitvec<T, 3>(g), g.one_in(3) ? logscale<T>(g, -30, 0) : static_cast<T>(g.real(-4, 4))); break;
      case 1: m = m * vm::scaling_matrix(vm::vec<T, 3>(static_cast<T>(g.range(1, 3)), static_cast<T>(g.range(1, 3)), static_cast<T>(g.flip() ? -1 : 2))); break;
      case 2: m = m * vm::translation_matrix(ivec<T, 3>(g, 20)); break;
      default: m = m * vm::shear_matrix(static_cast<T>(g.zint(1)), T(0), T(0), static_cast<T>(g.zint(1)), T(0), T(0)); break;
    }
  }
  g.note("normal", n); g.note("distance", d); g.note("m", m);
  g.nontrivial(steps > 0);
  const vm::plane<T, 3> pl(d, n);
  const auto wm = weighted(g, m);
  const auto t = pl.transform(wm);
  const auto rn = ref(n);
  const auto base = rn * (R(d) / rdot(rn, rn));
  const auto M = mref(m);
  const auto img = [&](const rv<3>& p) { rv<4> h; for (int i = 0; i < 3; ++i) h[i] = p[i]; h[3] = 1; const auto q = M * h; rv<3> r; for (int i = 0; i < 3; ++i) r[i] = q[i]; return r; };
  const auto b = flat(rn, gref<3>(g, 20));
  const R tol = 4096 * eps<T>() * 64;
  REQUIRE(near(rlen(ref(t.normal)), 1, 16 * eps<T>()), "the normal has length " << rlen(ref(t.normal)));
  const auto dist = [&](const rv<3>& p) { return rdot(p, ref(t.normal)) - R(t.distance); };
  REQUIRE(near(dist(img(base)), 0, tol), "the anchor is mapped " << dist(img(base)) << " off the transformed plane");
  REQUIRE(near(dist(img(base + b)), 0, tol), "a point of the plane is mapped " << dist(img(base + b)) << " off the transformed plane");
  REQUIRE(dist(img(base + b + rn * 5)) > tol, "a point above the plane is mapped below the transformed plane: " << t);
  const auto tc = pl.transform_c(wm);
  REQUIRE(vnear(tc.normal, ref(t.normal), 64 * eps<T>()) && near(tc.distance, t.distance, tol), "transform_c gives " << tc << " instead of " << t);
}
TEST(transformed, 600000) { if (g.flip()) transformed<double>(g); else transformed<float>(g); }

// lines in the plane and hyperplanes
template <typename T, std::size_t S> static void transformed_others(G& g) {
  const auto n = unitvec<T, S>(g);
  const auto d = g.flip() ? static_cast<T>(g.zint(20)) : num<T>(g, 20);
  auto m = imat<T, S + 1, S + 1>(g, 4);
  for (std::size_t j = 0; j < S; ++j) m.v[j].v[S] = 0;
  m.v[S].v[S] = 1;
  g.note("normal", n); g.note("distance", d); g.note("m", m);
  const auto M = mref(m);
  const R det = rdet(M);
  if (std::fabs(det) < 1) { g.label("singular"); return; }
  g.nontrivial();
  const auto t = vm::plane<T, S>(d, n).transform(weighted(g, m));
  const auto rn = ref(n);
  const auto base = rn * (R(d) / rdot(rn, rn));
  const auto img = [&](const rv<S>& p) { rv<S + 1> h; for (std::size_t i = 0; i < S; ++i) h[i] = p[i]; h[S] = 1; const auto q = M * h; rv<S> r; for (std::size_t i = 0; i < S; ++i) r[i] = q[i]; return r; };
  auto b = gref<S>(g, 20);
  b = b - rn * (rdot(rn, b) / rdot(rn, rn));
  const R tol = 1e-9L;
  REQUIRE(near(rlen(ref(t.normal)), 1, 16 * eps<T>()), "the normal has length " << rlen(ref(t.normal)));
  const auto dist = [&](const rv<S>& p) { return rdot(p, ref(t.normal)) - R(t.distance); };
  REQUIRE(near(dist(img(base)), 0, tol), "the anchor is mapped " << dist(img(base)) << " off the transformed plane");
  REQUIRE(near(dist(img(base + b)), 0, tol), "a point of the plane is mapped " << dist(img(base + b)) << " off the transformed plane");
  REQUIRE(dist(img(base + b + rn * 5)) > tol, "a point above the plane is mapped below the transformed plane: " << t);
}
TEST(transformed_others, 300000) {
  switch (g.choice(3)) {
    case 0: transformed_others<double, 2>(g); break;
    case 1: transformed_others<double, 4>(g); break;
    default: transformed_others<double, 3>(g); break;
  }
}
