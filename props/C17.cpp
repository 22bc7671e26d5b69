// Distances between points, rays, segments and lines
#include "geo.h"
#include <vecmath/distance.h>
#include <vecmath/line.h>
#include <vecmath/line_io.h>
#include <vecmath/ray.h>
#include <vecmath/ray_io.h>
#include <vecmath/segment.h>

static const R inf = std::numeric_limits<R>::infinity();

// a set of points o + t d with t in [lo, hi]; d is not necessarily a unit vector
template <std::size_t S> struct set_of {
  rv<S> o, d;
  R lo, hi;
  rv<S> at(R t) const { return o + d * t; }
  R nearest(const rv<S>& p) const {
    const R l = rdot(d, d);
    return l == 0 ? lo : std::min(std::max(rdot(p - o, d) / l, lo), hi);
  }
};
template <std::size_t S> static R rdist2(const rv<S>& a, const rv<S>& b) { return rdot(a - b, a - b); }

// the minimal squared distance by enumerating the faces of the parameter box
template <std::size_t S> static R mindist2(const set_of<S>& a, const set_of<S>& b) {
  R best = inf;
  const auto take = [&](R s, R t) {
    if (std::isinf(s) || std::isinf(t)) return;
    best = std::min(best, rdist2(a.at(s), b.at(t)));
  };
  for (const R s : {a.lo, a.hi, R(0)}) if (!std::isinf(s) && s >= a.lo && s <= a.hi) take(s, b.nearest(a.at(s)));
  for (const R t : {b.lo, b.hi, R(0)}) if (!std::isinf(t) && t >= b.lo && t <= b.hi) take(a.nearest(b.at(t)), t);
  const R aa = rdot(a.d, a.d), bb = rdot(b.d, b.d), ab = rdot(a.d, b.d), D = aa * bb - ab * ab;
  if (D > 1e-9L * aa * bb) {
    const auto w = a.o - b.o;
    const R s = (ab * rdot(b.d, w) - bb * rdot(a.d, w)) / D, t = (aa * rdot(b.d, w) - ab * rdot(a.d, w)) / D;
    if (s >= a.lo && s <= a.hi && t >= b.lo && t <= b.hi) take(s, t);
  }
  return best;
}

template <typename T, std::size_t S> static vm::vec<T, S> dir(const vm::vec<T, S>& i) {
  vm::vec<T, S> r;
  const auto u = runit(ref(i));
  for (std::size_t k = 0; k < S; ++k) r.v[k] = static_cast<T>(u[k]);
  return r;
}
template <typename T, std::size_t S> static set_of<S> ray_set(const vm::vec<T, S>& o, const vm::vec<T, S>& i) { return {ref(o), runit(ref(i)), 0, inf}; }
template <typename T, std::size_t S> static set_of<S> line_set(const vm::vec<T, S>& o, const vm::vec<T, S>& i) { return {ref(o), runit(ref(i)), -inf, inf}; }
// start and end in the order of the segment
template <typename T, std::size_t S> static set_of<S> segment_set(vm::vec<T, S> p, vm::vec<T, S> q) {
  for (std::size_t k = 0; k < S; ++k) if (p.v[k] != q.v[k]) { if (p.v[k] > q.v[k]) std::swap(p, q); break; }
  const R l = rlen(ref(q) - ref(p));
  return {ref(p), l > 0 ? (ref(q) - ref(p)) * (1 / l) : rv<S>{}, 0, l};
}

template <typename T, std::size_t S> static void point_check(const char* what, const set_of<S>& s, const vm::vec<T, S>& p, const vm::point_distance<T>& d2, const vm::point_distance<T>& d1, const R unit) {
  const R size = unit + rlen(ref(p)) + rlen(s.o), tol = 64 * eps<T>() * size;
  const R pos = s.nearest(ref(p)), d = std::sqrt(rdist2(s.at(pos), ref(p)));
  REQUIRE(near(d2.position, pos, tol), what << ": position " << d2.position << " instead of " << pos);
  REQUIRE(d2.position >= 0 && d2.position <= s.hi + tol, what << ": position " << d2.position << " is off the " << what);
  REQUIRE(near(d2.distance, d * d, 2 * tol * (d + tol) + tol * tol), what << ": squared distance " << d2.distance << " instead of " << d * d);
  REQUIRE(same(d1.position, d2.position), what << ": distance and squared_distance give different positions " << d1.position << " " << d2.position);
  REQUIRE(near(d1.distance, std::sqrt(R(d2.distance)), 8 * eps<T>() * (unit + d)), what << ": distance " << d1.distance << ", squared distance " << d2.distance);
}
template <typename T, std::size_t S> static void points(G& g) {
  const long k = g.pick<long>({2, 5, 30});
  // lengths are multiples of a unit, a power of two
  const T unit = std::ldexp(T(1), g.flip() ? 0 : static_cast<int>(g.range(-20, 10)));
  const auto o = unit * ivec<T, S>(g, k);
  auto p = unit * (g.flip() ? ivec<T, S>(g, k) : numvec<T, S>(g, double(k)));
  const auto i = nonzero_ivec<T, S>(g, 5);
  const auto q = g.one_in(8) ? o : g.one_in(4) ? o + (unit * std::ldexp(T(1), -static_cast<int>(g.range(1, sizeof(T) == 4 ? 12 : 30)))) * ivec<T, S>(g, 3) : unit * ivec<T, S>(g, k);
  if (g.one_in(8)) p = (g.flip() ? o : q) + (unit * std::ldexp(T(1), -static_cast<int>(g.range(1, sizeof(T) == 4 ? 12 : 30)))) * ivec<T, S>(g, 3); // close to an end
  g.note("o", o); g.note("i", i); g.note("p", p); g.note("q", q);
  const vm::ray<T, S> r(o, dir(i));
  const vm::segment<T, S> s(o, q);
  const auto rs = ray_set(o, i);
  const auto ss = segment_set(o, q);
  g.nontrivial(rs.nearest(ref(p)) > 0 || ss.hi == 0);
  if (rs.nearest(ref(p)) == 0) g.label("behind the ray");
  if (ss.hi == 0) g.label("segment of length 0"); else if (ss.nearest(ref(p)) == ss.hi || ss.nearest(ref(p)) == 0) g.label("beyond the segment");
  point_check("ray", rs, p, vm::squared_distance(r, p), vm::distance(r, p), unit);
  point_check("segment", ss, p, vm::squared_distance(s, p), vm::distance(s, p), unit);
  // points and points
  const R d2 = rdist2(ref(p), ref(q));
  REQUIRE(near(vm::squared_distance(p, q), d2, 16 * eps<T>() * d2), "squared distance of points");
  REQUIRE(near(vm::distance(p, q), std::sqrt(d2), 16 * eps<T>() * std::sqrt(d2)), "distance of points");
}
TEST(point_to_ray_and_segment, 2000000) {
  switch (g.choice(5)) {
    case 0: points<double, 3>(g); break;
    case 1: points<float, 3>(g); break;
    case 2: points<double, 2>(g); break;
    case 3: points<double, 4>(g); break;
    default: points<float, 2>(g); break;
  }
}

template <typename T, std::size_t S> static void seg_contains(G& g) {
  const long k = g.pick<long>({2, 5, 30});
  const T unit = std::ldexp(T(1), g.flip() ? 0 : static_cast<int>(g.range(-20, 10)));
  const bool digits = g.one_in(3); // all of them
  const auto end = [&] { return unit * (digits ? numvec<T, S>(g, double(k)) : ivec<T, S>(g, k)); };
  const auto a = end(), b = g.one_in(8) ? a : end();
  vm::vec<T, S> p;
  if (g.flip()) p = unit * (g.flip() ? ivec<T, S>(g, k + 1) : numvec<T, S>(g, double(k)));
  else { // on the line of the segment, also beyond its ends
    const R t = R(g.range(-8, 16)) / 8;
    for (std::size_t i = 0; i < S; ++i) p.v[i] = static_cast<T>(R(a.v[i]) + (R(b.v[i]) - R(a.v[i])) * t);
  }
  R e = R(static_cast<T>(R(unit) * R(g.pick<double>({0.001, 0.01, 0.5, 1.0, 3.0}))));
  g.note("a", a); g.note("b", b); g.note("p", p);
  const auto s = segment_set(a, b);
  const R d = std::sqrt(rdist2(s.at(s.nearest(ref(p))), ref(p)));
  if (d > 0 && g.one_in(3)) e = R(static_cast<T>(d * (1 + R(logscale<double>(g, -45, -5))))); // almost the distance
  g.note("epsilon", e);
  const R tol = 128 * eps<T>() * (R(unit) + rlen(ref(p)) + rlen(ref(a)) + rlen(ref(b)));
  const vm::segment<T, S> seg(a, b);
  const bool c = seg.contains(p, static_cast<T>(e));
  if (d <= e - tol) { g.nontrivial(); g.label("contained"); REQUIRE(c, "a point at distance " << d << " of the segment is not contained"); }
  else if (d > e + tol) { g.nontrivial(d < 3 * e || s.nearest(ref(p)) == 0 || s.nearest(ref(p)) == s.hi); REQUIRE(!c, "a point at distance " << d << " of the segment is contained"); }
}
TEST(segment_contains, 800000) {
  switch (g.choice(4)) {
    case 0: seg_contains<double, 3>(g); break;
    case 1: seg_contains<float, 3>(g); break;
    case 2: seg_contains<double, 4>(g); break;
    default: seg_contains<double, 2>(g); break;
  }
}

// points at exactly the given distance, and one unit in the last place beyond or before it
template <typename T, std::size_t S> static void contains_exact(G& g) {
  auto a = ivec<T, S>(g, 20);
  const std::size_t ax = g.below(S), other = (ax + 1 + g.below(S - 1)) % S;
  const long len = g.pick<long>({0, 1, 2, 4, 8}), at = g.range(-4, 12), off = g.zint(4);
  auto b = a, p = a;
  b.v[ax] += static_cast<T>(len);
  p.v[ax] += static_cast<T>(at);
  p.v[other] += static_cast<T>(off);
  const T unit = std::ldexp(T(1), g.flip() ? 0 : static_cast<int>(g.range(-20, 20)));
  a = a * unit; b = b * unit; p = p * unit;
  const long along = at < 0 ? -at : at > len ? at - len : 0;
  const long d2 = along * along + off * off;
  const long d = std::lround(std::sqrt(static_cast<double>(d2)));
  g.note("a", a); g.note("b", b); g.note("p", p); g.note("distance", d); g.note("unit", unit);
  if (d * d != d2) return;
  g.nontrivial(d > 0);
  g.label(along > 0 ? "beyond" : "beside");
  const vm::segment<T, S> s = g.flip() ? vm::segment<T, S>(a, b) : vm::segment<T, S>(b, a);
  REQUIRE(s.contains(p, unit * static_cast<T>(d)), "a point at distance " << d << " is not contained within this distance");
  REQUIRE(s.contains(p, unit * (static_cast<T>(d) + T(0.125))), "a point at distance " << d << " is not contained within a larger distance");
  if (d > 0) REQUIRE(!s.contains(p, unit * (static_cast<T>(d) - T(0.125))), "a point at distance " << d << " is contained within a smaller distance");
}
TEST(segment_contains_exact, 300000) {
  switch (g.choice(3)) {
    case 0: contains_exact<double, 3>(g); break;
    case 1: contains_exact<float, 3>(g); break;
    default: contains_exact<double, 2>(g); break;
  }
}

template <typename T, std::size_t S>
static void line_check(const char* what, const set_of<S>& a, const set_of<S>& b, const bool parallel, const vm::line_distance<T>& d2, const vm::line_distance<T>& d1, const R unit) {
  const R m2 = mindist2(a, b), m = std::sqrt(m2);
  const R size = unit + rlen(a.o) + rlen(b.o) + (std::isinf(b.hi) ? 0 : b.hi);
  const R sin2 = parallel ? 1 : std::max<R>(1e-3L, 1 - rdot(a.d, b.d) * rdot(a.d, b.d));
  const R tol = 64 * eps<T>() * size;             // of coordinates
  const R ptol = 8 * tol / sin2 * (parallel ? 1 : size / unit); // of positions
  REQUIRE(d2.parallel == parallel, what << ": parallel is " << d2.parallel);
  REQUIRE(R(d2.position1) >= a.lo && R(d2.position1) <= a.hi + tol, what << ": position1 " << d2.position1 << " is out of range");
  REQUIRE(R(d2.position2) >= b.lo - tol && R(d2.position2) <= b.hi + tol, what << ": position2 " << d2.position2 << " is out of range");
  const R mtol = 4 * tol / sin2;
  REQUIRE(near(std::sqrt(std::max<R>(0, R(d2.distance))), m, mtol), what << ": squared distance " << d2.distance << " instead of " << m2);
  const auto pa = a.at(d2.position1), pb = b.at(d2.position2);
  // The positions of a parallel ray and line are any pair of closest points
  REQUIRE(near(std::sqrt(rdist2(pa, pb)), m, ptol), what << ": the points at positions " << d2.position1 << ", " << d2.position2 << " have distance " << std::sqrt(rdist2(pa, pb)) << ", the minimal distance is " << m);
  REQUIRE(d1.parallel == d2.parallel && same(d1.position1, d2.position1) && same(d1.position2, d2.position2), what << ": distance and squared_distance disagree");
  REQUIRE(near(d1.distance, std::sqrt(R(d2.distance)), 8 * eps<T>() * (unit + m)), what << ": distance " << d1.distance << ", squared distance " << d2.distance);
  for (const R lim : {R(0.01L), R(1), R(5)}) {
    if (near(m, lim, 2 * mtol)) continue;
    REQUIRE(d1.is_colinear(static_cast<T>(lim)) == (parallel && m < lim), what << ": is_colinear(" << lim << ") at distance " << m);
  }
  if (!near(m, vm::constants<T>::almost_zero(), 2 * mtol)) REQUIRE(d1.is_colinear() == (parallel && m < R(vm::constants<T>::almost_zero())), what << ": is_colinear() at distance " << m);
}

template <typename T, std::size_t S> static void lines(G& g) {
  const long k = g.pick<long>({2, 5, 20});
  const auto i1 = nonzero_ivec<T, S>(g, 4);
  auto i2 = nonzero_ivec<T, S>(g, 4);
  if (g.one_in(4)) { const T f = static_cast<T>(g.pick<long>({1, -1, 2, -3})); for (std::size_t i = 0; i < S; ++i) i2.v[i] = i1.v[i] * f; }
  const T unit = std::ldexp(T(1), g.flip() ? 0 : static_cast<int>(g.range(-20, sizeof(T) == 4 ? 0 : 8))); // of lengths
  const auto o1 = unit * ivec<T, S>(g, k);
  auto o2 = unit * ivec<T, S>(g, k);
  if (g.one_in(4)) { const T f = unit * static_cast<T>(g.zint(3)); for (std::size_t i = 0; i < S; ++i) o2.v[i] = o1.v[i] + i1.v[i] * f; } // starts on the first
  T len = unit * static_cast<T>(g.one_in(10) ? 0 : g.range(1, 4));
  if (g.one_in(4)) len = len * static_cast<T>(std::ldexp(1.0, -static_cast<int>(g.below(std::is_same<T, float>::value ? 8 : 20)))); // short segments
  vm::vec<T, S> q;
  for (std::size_t i = 0; i < S; ++i) q.v[i] = o2.v[i] + i2.v[i] * len; // exact
  g.note("o1", o1); g.note("i1", i1); g.note("o2", o2); g.note("i2", i2); g.note("q", q);
  const R x2 = rdot(ref(i1), ref(i1)) * rdot(ref(i2), ref(i2)) - rdot(ref(i1), ref(i2)) * rdot(ref(i1), ref(i2)); // exact
  const bool parallel = x2 == 0;
  const R D = x2 / rdot(ref(i1), ref(i1)) / rdot(ref(i2), ref(i2));
  if (!parallel && D < 0.002L) { g.label("almost parallel, skipped"); return; }
  const vm::ray<T, S> r1(o1, dir(i1)), r2(o2, dir(i2));
  const vm::line<T, S> l2(o2, dir(i2));
  const vm::segment<T, S> s2(o2, q);
  const auto a = ray_set(o1, i1), b = ray_set(o2, i2);
  const auto c = line_set(o2, i2);
  const auto s = segment_set(o2, q);
  g.nontrivial();
  if (parallel) g.label(rdot(ref(i1), ref(i2)) > 0 ? "parallel" : "antiparallel");
  else if (mindist2(a, b) > mindist2(set_of<S>{a.o, a.d, -inf, inf}, c) + 1e-9L) g.label("clamped");
  if (s.hi == 0) g.label("segment of length 0");
  line_check("ray and ray", a, b, parallel, vm::squared_distance(r1, r2), vm::distance(r1, r2), unit);
  line_check("ray and line", a, c, parallel, vm::squared_distance(r1, l2), vm::distance(r1, l2), unit);
  line_check("ray and segment", a, s, parallel || s.hi == 0, vm::squared_distance(r1, s2), vm::distance(r1, s2), unit);
}
TEST(rays_lines_segments, 2000000) {
  switch (g.choice(5)) {
    case 0: lines<double, 3>(g); break;
    case 1: lines<float, 3>(g); break;
    case 2: lines<double, 2>(g); break;
    case 3: lines<double, 4>(g); break;
    default: lines<float, 2>(g); break;
  }
}

// origins and directions with all their digits: none of them, and no product of them, is exact in a narrower type
template <typename T, std::size_t S> static void lines_digits(G& g) {
  vm::vec<T, S> o1, o2, i1, i2, q;
  for (std::size_t i = 0; i < S; ++i) {
    o1.v[i] = static_cast<T>(20 * g.unit() - 10);
    o2.v[i] = static_cast<T>(20 * g.unit() - 10);
    i1.v[i] = static_cast<T>(2 * g.unit() - 1);
    i2.v[i] = static_cast<T>(2 * g.unit() - 1);
  }
  const R f = 10 * g.unit() + 0.1L;
  for (std::size_t i = 0; i < S; ++i) q.v[i] = static_cast<T>(R(o2.v[i]) + R(i2.v[i]) * f);
  for (std::size_t i = 0; i < S; ++i) i2.v[i] = q.v[i] - o2.v[i];
  g.note("o1", o1); g.note("i1", i1); g.note("o2", o2); g.note("q", q);
  const auto i2r = ref(q) - ref(o2);
  const R l1 = rdot(ref(i1), ref(i1)), l2 = rdot(i2r, i2r);
  if (l1 < 0.01L || l2 < 0.001L) { g.label("too short, skipped"); return; }
  const R D = 1 - rdot(ref(i1), i2r) * rdot(ref(i1), i2r) / l1 / l2;
  if (D < 0.05L) { g.label("almost parallel, skipped"); return; }
  const vm::ray<T, S> r1(o1, dir(i1)), r2(o2, dir(i2));
  const vm::line<T, S> l(o2, dir(i2));
  const vm::segment<T, S> s2(o2, q);
  const auto a = ray_set(o1, i1), b = ray_set(o2, i2), c = line_set(o2, i2), s = segment_set(o2, q);
  g.nontrivial();
  line_check("ray and ray", a, b, false, vm::squared_distance(r1, r2), vm::distance(r1, r2), R(1));
  line_check("ray and line", a, c, false, vm::squared_distance(r1, l), vm::distance(r1, l), R(1));
  line_check("ray and segment", a, s, false, vm::squared_distance(r1, s2), vm::distance(r1, s2), R(1));
}
TEST(rays_lines_segments_digits, 400000) {
  switch (g.choice(4)) {
    case 0: lines_digits<double, 3>(g); break;
    case 1: lines_digits<float, 3>(g); break;
    case 2: lines_digits<double, 2>(g); break;
    default: lines_digits<double, 4>(g); break;
  }
}

// what a result of a distance computation says: the fields as given, colinear up to and including the maximal distance
template <typename T> static void result(G& g) {
  const bool parallel = g.flip();
  const T p1 = static_cast<T>(g.zint(20)), d = static_cast<T>(g.below(6)) / T(4), p2 = static_cast<T>(g.zint(20)), max = static_cast<T>(g.below(6)) / T(4);
  g.note("parallel", parallel); g.note("position1", p1); g.note("distance", d); g.note("position2", p2); g.note("maximal distance", max);
  const auto r = parallel ? vm::line_distance<T>::Parallel(p1, d, p2) : vm::line_distance<T>::NonParallel(p1, d, p2);
  g.nontrivial();
  REQUIRE(r.parallel == parallel && r.position1 == p1 && r.distance == d && r.position2 == p2, "a field is not as given");
  REQUIRE(r.is_colinear(max) == (parallel && d <= max), "is_colinear gives " << r.is_colinear(max));
  REQUIRE(r.is_colinear() == (parallel && d == T(0)), "is_colinear() gives " << r.is_colinear());
}
TEST(line_distance_result, 20000) { if (g.flip()) result<double>(g); else result<float>(g); }
