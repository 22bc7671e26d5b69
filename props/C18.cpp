// Intersections of rays, lines and planes with planes, triangles, polygons and bounding boxes
#include "geo.h"
#include <vecmath/bbox.h>
#include <vecmath/bbox_io.h>
#include <vecmath/intersection.h>
#include <vecmath/line.h>
#include <vecmath/plane.h>
#include <vecmath/plane_io.h>
#include <vecmath/ray.h>
#include <vecmath/ray_io.h>
#include <list>

template <typename T, std::size_t S> static vm::vec<T, S> down(const rv<S>& r) {
  vm::vec<T, S> v;
  for (std::size_t i = 0; i < S; ++i) v.v[i] = static_cast<T>(r[i]);
  return v;
}

template <typename T, std::size_t S> static void ray_plane(G& g) {
  const auto n = unitvec<T, S>(g), d = g.one_in(8) ? (g.flip() ? n : -n) : unitvec<T, S>(g);
  const auto a = numvec<T, S>(g, 100);
  // the ray starts s before (or behind) the plane
  const auto hit = numvec<T, S>(g, 50);
  g.note("anchor", a); g.note("normal", n); g.note("direction", d);
  const auto rn = ref(n), rd = ref(d);
  const auto target = ref(a) + ref(hit) - rn * (rdot(ref(hit), rn) / rdot(rn, rn)); // on the plane
  const R s0 = g.one_in(8) ? 0 : g.one_in(6) ? R(logscale<double>(g, -16, 0)) : R(num<double>(g, 100));
  const auto o = down<T, S>(target - rd * s0);
  g.note("origin", o);
  const R cos = rdot(rn, rd), az = R(vm::constants<T>::almost_zero());
  const vm::plane<T, S> pl(a, n);
  const vm::ray<T, S> r(o, d);
  const R tol = 32 * eps<T>() * 400;
  const R s = (rdot(ref(a), rn) - rdot(ref(o), rn)) / cos;
  const T is = vm::intersect_ray_plane(r, pl);
  if (std::fabs(cos) < az / 2) {
    g.label("parallel"); g.nontrivial();
    REQUIRE(is != is, "a parallel ray hits the plane at " << is);
  } else if (std::fabs(cos) > 2 * az) {
    const R t = tol / std::fabs(cos);
    if (s > t) { g.nontrivial(); g.label("hit"); REQUIRE(near(is, s, t), "the ray hits the plane at " << is << " instead of " << s); }
    else if (s < -2 * az - t) { g.nontrivial(); g.label("behind"); REQUIRE(is != is, "the ray hits the plane behind it at " << is); }
    else REQUIRE(is != is || near(is, s, t), "the ray hits the plane at " << is << " instead of " << s);
  }
  if constexpr (S == 3) {
    const vm::line<T, 3> l(o, d);
    const T ls = vm::intersect_line_plane(l, pl);
    if (std::fabs(cos) < az / 2) REQUIRE(ls != ls, "a parallel line hits the plane at " << ls);
    else if (std::fabs(cos) > 2 * az) REQUIRE(near(ls, s, tol / std::fabs(cos)), "the line hits the plane at " << ls << " instead of " << s);
  }
}
TEST(ray_plane, 2000000) {
  switch (g.choice(4)) {
    case 0: ray_plane<double, 3>(g); break;
    case 1: ray_plane<float, 3>(g); break;
    case 2: ray_plane<double, 4>(g); break;
    default: ray_plane<double, 2>(g); break;
  }
}

template <typename T> static void plane_plane(G& g) {
  const auto n1 = unitvec<T, 3>(g);
  const bool parallel = g.one_in(5);
  auto n2 = parallel ? (g.flip() ? n1 : -n1) : unitvec<T, 3>(g);
  if (!parallel && g.one_in(4)) n2 = down<T, 3>(runit(ref(n1) * (g.flip() ? 1 : -1) + ref(n2) * R(logscale<double>(g, -9, -3)))); // at a small angle
  const T d1 = num<T>(g, 100), d2 = g.one_in(4) ? d1 : num<T>(g, 100);
  g.note("normal1", n1); g.note("distance1", d1); g.note("normal2", n2); g.note("distance2", d2);
  const vm::plane<T, 3> p1(d1, n1), p2(d2, n2);
  const auto l = vm::intersect_plane_plane(p1, p2);
  const R sin = rlen(rcross(ref(n1), ref(n2)));
  if (parallel) {
    g.nontrivial(); g.label("parallel");
    REQUIRE(vsame(l.point, vm::vec<T, 3>::zero()) && vsame(l.direction, vm::vec<T, 3>::zero()), "parallel planes intersect at " << l.point << ", " << l.direction);
    return;
  }
  const R size = 1 + std::fabs(R(d1)) + std::fabs(R(d2));
  if (sin < 2 * R(vm::constants<T>::almost_zero()) || sin * sin < 256 * eps<T>() * size) { g.label("almost parallel, skipped"); return; }
  g.nontrivial();
  const R tol = 64 * eps<T>() * size * size / sin / sin;
  const auto dir = runit(rcross(ref(n1), ref(n2)));
  REQUIRE(vnear(l.direction, dir, 64 * eps<T>() / sin) || vnear(l.direction, dir * -1, 64 * eps<T>() / sin), "the direction of the line is " << l.direction << " instead of " << dir);
  REQUIRE(near(rdot(ref(l.point), ref(n1)), d1, tol) && near(rdot(ref(l.point), ref(n2)), d2, tol), "the point " << l.point << " is not on both planes, " << rdot(ref(l.point), ref(n1)) << " " << rdot(ref(l.point), ref(n2)));
}
TEST(plane_plane, 1000000) { if (g.flip()) plane_plane<double>(g); else plane_plane<float>(g); }

// the hit point is chosen in the plane of the triangle by its barycentric coordinates
template <typename T> static void triangle(G& g) {
  auto p1 = ivec<T, 3>(g, 12);
  auto p2 = ivec<T, 3>(g, 12), p3 = ivec<T, 3>(g, 12);
  if (g.one_in(3)) { // with all their digits
    for (std::size_t i = 0; i < 3; ++i) { p1.v[i] = static_cast<T>(24 * g.unit() - 12); p2.v[i] = static_cast<T>(24 * g.unit() - 12); p3.v[i] = static_cast<T>(24 * g.unit() - 12); }
  } else if (g.one_in(4)) {
    // small triangles
    const T f = static_cast<T>(std::ldexp(1.0, -static_cast<int>(g.below(std::is_same<T, float>::value ? 6 : 12))));
    for (std::size_t i = 0; i < 3; ++i) {
      p2.v[i] = p1.v[i] + p2.v[i] * f; // exact
      p3.v[i] = p1.v[i] + p3.v[i] * f;
    }
  }
  g.note("p1", p1); g.note("p2", p2); g.note("p3", p3);
  const auto e1 = ref(p2) - ref(p1), e2 = ref(p3) - ref(p1);
  const auto n = rcross(e1, e2);
  if (rlen(n) == 0) {
    const vm::ray<T, 3> r(ivec<T, 3>(g, 12), unitvec<T, 3>(g));
    g.label("degenerate");
    const T is = vm::intersect_ray_triangle(r, p1, p2, p3);
    REQUIRE(is != is, "a ray hits a degenerate triangle at " << is);
    return;
  }
  const R v = R(g.real(-0.6, 1.6)), w = g.flip() ? R(g.real(-0.6, 1.6)) : R(g.real(0, 1)) * (1 - v);
  const R s = g.one_in(4) ? R(logscale<double>(g, -20, 0)) : g.one_in(3) ? R(g.real(-30, -0.1)) : R(g.real(0.1, 30));
  const auto d = g.one_in(3) ? down<T, 3>(runit(n) * (g.flip() ? 1 : -1)) : unitvec<T, 3>(g);
  const R a = rdot(ref(d), n); // = - det
  const auto o = down<T, 3>(ref(p1) + e1 * v + e2 * w - ref(d) * s);
  const vm::ray<T, 3> r(o, d);
  g.note("origin", o); g.note("direction", d);
  const R cos = std::fabs(a) / rlen(n);
  const T is = vm::intersect_ray_triangle(r, p1, p2, p3);
  const R size = std::min<R>(1, rlen(e1) * rlen(e2));
  if (std::fabs(a) < R(vm::constants<T>::almost_zero()) * size / 4) {
    g.label("parallel");
    REQUIRE(is != is, "a ray parallel to the triangle hits it at " << is);
    return;
  }
  if (cos < 0.05L || std::fabs(a) < 0.1L * size) { g.label("almost parallel, skipped"); return; }
  // rounding moves the hit point in its barycentric coordinates
  const R slim = (rlen(e1) + rlen(e2)) * (rlen(e1) + rlen(e2)) / rlen(n);
  const R tol = 64 * eps<T>() * 100 * slim / cos / std::min<R>(1, std::min(rlen(e1), rlen(e2)));
  const R m = std::min(std::min(v, w), 1 - v - w); // inside if > 0
  if (std::fabs(m) < tol || std::fabs(s) < tol) return;
  if (std::fabs(s) < 0.01L) g.label("close");
  g.nontrivial();
  if (s < 0) { g.label("behind"); REQUIRE(is != is, "the ray hits a triangle behind it at " << is); }
  else if (m < 0) { g.label("beside"); REQUIRE(is != is, "the ray hits at " << is << " but should miss, barycentric coordinates " << v << " " << w); }
  else { g.label("hit"); REQUIRE(near(is, s, tol), "the ray hits at " << is << " instead of " << s << ", barycentric coordinates " << v << " " << w); }
}
TEST(ray_triangle, 2000000) { if (g.flip()) triangle<double>(g); else triangle<float>(g); }

// right triangles with legs of 2^k along the axes and rays along the third axis: every quantity
// is exact, so the border of the triangle belongs to it, and so does a ray starting on it
template <typename T> static void triangle_border(G& g) {
  const std::size_t ax = g.below(3), b = (ax + 1) % 3, c = (ax + 2) % 3;
  const auto p1 = ivec<T, 3>(g, 8);
  auto p2 = p1, p3 = p1;
  const long l2 = 1l << g.range(0, 4), l3 = 1l << g.range(0, 4);
  p2.v[b] += static_cast<T>(g.flip() ? l2 : -l2);
  p3.v[c] += static_cast<T>(g.flip() ? l3 : -l3);
  // the point at v, w in steps of 1/8
  const long v = g.range(-2, 10), w = g.range(-2, 10);
  vm::vec<T, 3> d;
  d.v[ax] = g.flip() ? T(1) : T(-1);
  T s = static_cast<T>(std::ldexp(static_cast<double>(g.zint(6)), g.flip() ? 0 : -static_cast<int>(g.below(13))));
  vm::vec<T, 3> o;
  for (std::size_t i = 0; i < 3; ++i) o.v[i] = p1.v[i] + (p2.v[i] - p1.v[i]) * static_cast<T>(v) / 8 + (p3.v[i] - p1.v[i]) * static_cast<T>(w) / 8 - d.v[i] * s;
  std::array<vm::vec<T, 3>, 3> p{p1, p2, p3};
  const T unit = std::ldexp(T(1), g.flip() ? 0 : static_cast<int>(g.range(0, 20))); // also large ones
  for (auto& x : p) x = x * unit;
  o = o * unit; s *= unit;
  std::rotate(p.begin(), p.begin() + static_cast<long>(g.below(3)), p.end());
  if (g.flip()) std::swap(p[0], p[1]);
  g.note("p1", p[0]); g.note("p2", p[1]); g.note("p3", p[2]); g.note("origin", o); g.note("direction", d);
  const bool hit = v >= 0 && w >= 0 && v + w <= 8 && s >= 0;
  g.nontrivial(v == 0 || w == 0 || v + w == 8 || s == 0);
  if (hit) g.label("hit");
  const T is = vm::intersect_ray_triangle(vm::ray<T, 3>(o, d), p[0], p[1], p[2]);
  REQUIRE(hit ? is == s : is != is, "the ray hits at " << is << ", should " << (hit ? "hit" : "miss") << " at " << s);
}
TEST(ray_triangle_border, 500000) { if (g.flip()) triangle_border<double>(g); else triangle_border<float>(g); }

// star shaped polygons around a center, in any plane
template <typename T> static void polygon(G& g) {
  rv<3> n = ref(unitvec<double, 3>(g));
  rv<3> u = rcross(n, ref(unitvec<double, 3>(g)));
  if (rlen(u) < 0.1L) { n = {{0, 0, 1}}; u = {{1, 0, 0}}; }
  n = runit(n); u = runit(u);
  const auto v = rcross(n, u);
  const auto c = ref(ivec<double, 3>(g, 20));
  const std::size_t k = static_cast<std::size_t>(g.range(3, g.one_in(4) ? 20 : 8));
  const bool convex = g.flip();
  std::vector<std::array<R, 2>> flat;
  const R phase = R(g.real(0, 6.3)), ra = g.one_in(3) ? std::ldexp(R(1), -static_cast<int>(g.below(4))) : R(g.range(1, 20));
  for (std::size_t i = 0; i < k; ++i) {
    const R ang = phase + 6.283185307179586L * (R(i) + R(g.real(-0.3, 0.3))) / R(k);
    const R rad = convex ? ra : ra * R(g.real(0.3, 1.5));
    flat.push_back({rad * std::cos(ang), rad * std::sin(ang)});
  }
  if (g.flip()) std::reverse(flat.begin(), flat.end());
  std::vector<vm::vec<T, 3>> poly;
  for (const auto& f : flat) poly.push_back(down<T, 3>(c + u * f[0] + v * f[1]));
  const R px = R(g.real(-1.6, 1.6)) * ra, py = R(g.real(-1.6, 1.6)) * ra;
  const auto target = c + u * px + v * py;
  const R s = g.one_in(4) ? R(g.real(-30, -0.1)) : R(g.real(0.1, 30));
  const auto d = unitvec<T, 3>(g);
  const auto o = down<T, 3>(target - ref(d) * s);
  g.note("polygon", poly); g.note("origin", o); g.note("direction", d);
  const R cos = std::fabs(rdot(ref(d), n));
  // containment in the plane: crossing number, and distance to the border
  bool in = false;
  R border = 1e9L;
  for (std::size_t i = 0; i < k; ++i) {
    const auto &a = flat[i], &b = flat[(i + 1) % k];
    if ((a[1] > py) != (b[1] > py) && px < a[0] + (py - a[1]) * (b[0] - a[0]) / (b[1] - a[1])) in = !in;
    const R dx = b[0] - a[0], dy = b[1] - a[1];
    const R t = std::min<R>(1, std::max<R>(0, ((px - a[0]) * dx + (py - a[1]) * dy) / (dx * dx + dy * dy)));
    border = std::min(border, std::hypot(a[0] + t * dx - px, a[1] + t * dy - py));
  }
  // the normal of the first three points
  const R bend = rlen(rcross(ref(poly[1]) - ref(poly[0]), ref(poly[2]) - ref(poly[0]))) / (ra * ra);
  if (cos < 0.1L) { g.label("almost parallel, skipped"); return; }
  if (border < 0.01L) { g.label("close to the border, skipped"); return; }
  const R tol = 64 * eps<T>() * 100 / cos;
  const vm::ray<T, 3> r(o, d);
  const auto check = [&](const char* what, T is, R tol_) {
    if (s < 0) REQUIRE(is != is, what << ": the ray hits a polygon behind it at " << is);
    else if (in) REQUIRE(near(is, s, tol_), what << ": the ray hits at " << is << " instead of " << s);
    else REQUIRE(is != is, what << ": the ray hits at " << is << " but should miss by " << border);
  };
  g.nontrivial();
  g.label(s < 0 ? "behind" : in ? "hit" : "beside");
  const vm::vec<T, 3> tn = down<T, 3>(n);
  const auto id = [](const vm::vec<T, 3>& x) { return x; };
  check("with a plane", vm::intersect_ray_polygon(r, vm::plane<T, 3>(poly[0], tn), poly.begin(), poly.end()), tol);
  check("with a flipped plane", vm::intersect_ray_polygon(r, vm::plane<T, 3>(poly[0], -tn), poly.begin(), poly.end(), id), tol);
  if (bend > 0.05L) {
    g.label("plane from points");
    check("without a plane", vm::intersect_ray_polygon(r, poly.begin(), poly.end()), 64 * tol / bend);
    struct V { int tag; vm::vec<T, 3> at; };
    std::list<V> l;
    for (const auto& x : poly) l.push_back({1, x});
    check("with a mapping function", vm::intersect_ray_polygon(r, l.begin(), l.end(), [](const V& x) { return x.at; }), 64 * tol / bend);
  }
}
TEST(ray_polygon, 600000) { if (g.flip()) polygon<double>(g); else polygon<float>(g); }

template <typename T, std::size_t S> static void box(G& g) {
  vm::vec<T, S> lo, hi;
  for (std::size_t i = 0; i < S; ++i) { lo.v[i] = static_cast<T>(g.zint(10)); hi.v[i] = lo.v[i] + static_cast<T>(g.one_in(8) ? 0 : g.range(1, 12)); }
  const bool exact = g.one_in(3); // along an axis: no rounding
  const auto id = exact ? [&] { vm::vec<T, S> x; x.v[g.below(S)] = g.flip() ? T(1) : T(-1); return x; }() : nonzero_ivec<T, S>(g, 5);
  vm::vec<T, S> o;
  switch (g.choice(3)) {
    case 0: o = ivec<T, S>(g, 24); break;
    case 1: for (std::size_t i = 0; i < S; ++i) o.v[i] = lo.v[i] + static_cast<T>(g.range(0, static_cast<long>(hi.v[i] - lo.v[i]))); break; // in the box
    default: { // aims at a point of the box
      const T s = static_cast<T>(g.range(-4, 6));
      for (std::size_t i = 0; i < S; ++i) o.v[i] = lo.v[i] + static_cast<T>(g.range(0, static_cast<long>(hi.v[i] - lo.v[i]))) - id.v[i] * s;
    }
  }
  const auto d = down<T, S>(runit(ref(id)));
  const T unit = std::ldexp(T(1), g.flip() ? 0 : static_cast<int>(g.range(-30, 20))); // everything is exact in any unit
  lo = lo * unit; hi = hi * unit; o = o * unit;
  const vm::bbox<T, S> b(lo, hi);
  const vm::ray<T, S> r(o, d);
  g.note("box", b); g.note("origin", o); g.note("direction", d);
  const T is = vm::intersect_ray_bbox(r, b);
  // the part of the line in the box is [enter, leave], exactly up to long double
  R enter = -std::numeric_limits<R>::infinity(), leave = -enter;
  bool miss = false, surface = false, inside = true;
  const auto u = runit(ref(id));
  R graze = 0; // how much the box would have to shrink or grow to change the answer, 0: touches
  for (std::size_t i = 0; i < S; ++i) {
    const R l = R(lo.v[i]), h = R(hi.v[i]), x = R(o.v[i]);
    if (x < l || x > h) inside = false;
    if (x == l || x == h) surface = true;
    if (id.v[i] == 0) { if (x < l || x > h) miss = true; continue; }
    R t0 = (l - x) / u[i], t1 = (h - x) / u[i];
    if (t0 > t1) std::swap(t0, t1);
    enter = std::max(enter, t0);
    leave = std::min(leave, t1);
  }
  graze = (leave - enter) / unit;
  const R tol = 64 * eps<T>() * 50 * unit;
  if (inside && !surface) {
    g.nontrivial(); g.label("starts inside");
    REQUIRE(near(is, leave, tol), "the ray leaves the box at " << is << " instead of " << leave);
  } else if (inside) {
    // starts on the surface: it hits the box at once, or leaves it later
    g.nontrivial(); g.label("starts on the surface");
    REQUIRE(is == 0 || near(is, leave, tol), "the ray leaves the box at " << is << " instead of 0 or " << leave);
  } else if (miss || graze < -1e-3L || leave < -tol) {
    g.label("miss"); g.nontrivial(leave < -tol);
    REQUIRE(is != is, "the ray misses the box, but the result is " << is);
  } else if (graze > 1e-3L || exact) {
    g.nontrivial(); g.label(graze > 1e-3L ? "hit" : "flat box");
    REQUIRE(near(is, enter, tol), "the ray hits the box at " << is << " instead of " << enter);
    REQUIRE(is >= 0, "the distance is negative");
  } else {
    REQUIRE(is != is || near(is, enter, tol), "the ray touches the box at " << enter << ", but the result is " << is);
  }
}
// any direction, also at a very shallow angle, and boxes of any proportions
template <typename T, std::size_t S> static void shallow(G& g) {
  vm::vec<T, S> lo, hi, target;
  R size = 1;
  for (std::size_t i = 0; i < S; ++i) {
    lo.v[i] = num<T>(g, 100);
    const T l = std::fabs(logscale<T>(g, -4, 8));
    hi.v[i] = lo.v[i] + l;
    target.v[i] = g.one_in(8) ? lo.v[i] + l * static_cast<T>(g.real(-1, 2)) : lo.v[i] + l * static_cast<T>(g.unit());
    size = std::max({size, std::fabs(R(lo.v[i])), std::fabs(R(hi.v[i]))});
  }
  const auto d = unitvec<T, S>(g);
  const R s0 = g.one_in(4) ? R(num<double>(g, 100)) : R(g.real(0, 200));
  const auto o = down<T, S>(ref(target) - ref(d) * s0);
  const vm::bbox<T, S> b(lo, hi);
  g.note("box", b); g.note("origin", o); g.note("direction", d);
  const T is = vm::intersect_ray_bbox(vm::ray<T, S>(o, d), b);
  for (std::size_t i = 0; i < S; ++i) size = std::max(size, std::fabs(R(o.v[i])));
  // the answers for a slightly smaller and a slightly larger box
  R enter[2], leave[2];
  bool miss[2] = {false, false}, inside[2] = {true, true};
  for (int k = 0; k < 2; ++k) {
    const R grow = (k ? 1 : -1) * 64 * eps<T>() * size;
    enter[k] = -std::numeric_limits<R>::infinity();
    leave[k] = -enter[k];
    for (std::size_t i = 0; i < S; ++i) {
      const R l = R(lo.v[i]) - grow, h = R(hi.v[i]) + grow, x = R(o.v[i]), u = R(d.v[i]);
      if (x < l || x > h) inside[k] = false;
      if (u == 0) { if (x < l || x > h) miss[k] = true; continue; }
      R t0 = (l - x) / u, t1 = (h - x) / u;
      if (t0 > t1) std::swap(t0, t1);
      enter[k] = std::max(enter[k], t0);
      leave[k] = std::min(leave[k], t1);
    }
    miss[k] = miss[k] || enter[k] > leave[k] || leave[k] < 0;
  }
  if (inside[0] != inside[1] || miss[0] != miss[1]) { g.label("touches, skipped"); return; }
  g.nontrivial();
  if (inside[0]) { g.label("starts inside"); REQUIRE(R(is) >= leave[0] && R(is) <= leave[1], "the ray leaves the box at " << is << " instead of " << leave[0]); }
  else if (miss[0]) { g.label("miss"); REQUIRE(is != is, "the ray misses the box, but the result is " << is); }
  else { g.label("hit"); REQUIRE(R(is) >= enter[1] && R(is) <= enter[0], "the ray hits the box at " << is << " instead of " << enter[0]); }
}
TEST(ray_box_any, 1000000) {
  switch (g.choice(4)) {
    case 0: shallow<float, 3>(g); break;
    case 1: shallow<double, 2>(g); break;
    case 2: shallow<double, 4>(g); break;
    default: shallow<double, 3>(g); break;
  }
}
TEST(ray_box, 2000000) {
  switch (g.choice(6)) {
    case 0: box<double, 3>(g); break;
    case 1: box<float, 3>(g); break;
    case 2: box<double, 2>(g); break;
    case 3: box<double, 4>(g); break;
    case 4: box<double, 1>(g); break;
    default: box<float, 2>(g); break;
  }
}
