// Lines, rays and segments as parametrized sets of points
#include "matgeo.h"
#include <vecmath/line.h>
#include <vecmath/line_io.h>
#include <vecmath/ray.h>
#include <vecmath/ray_io.h>
#include <vecmath/segment.h>
#include <vecmath/mat_ext.h>

template <typename T, std::size_t S> static vm::vec<T, S> down(const rv<S>& r) {
  vm::vec<T, S> v;
  for (std::size_t i = 0; i < S; ++i) v.v[i] = static_cast<T>(r[i]);
  return v;
}
template <typename T, typename L, std::size_t S>
static void param(const char* what, const L& l, const vm::vec<T, S>& o, const rv<S>& d, const vm::vec<T, S>& p, T t, T unit) {
  const R tol = 32 * eps<T>() * (R(unit) + rlen(ref(p)) + rlen(ref(o)) + std::fabs(R(t)));
  REQUIRE(vsame(l.get_origin(), o), what << ": origin is " << l.get_origin());
  REQUIRE(vnear(l.get_direction(), d, 8 * eps<T>()), what << ": direction is " << l.get_direction());
  const R f = rdot(ref(p) - ref(o), d);
  REQUIRE(near(vm::distance_to_projected_point(l, p), f, tol), what << ": distance_to_projected_point is " << vm::distance_to_projected_point(l, p) << " instead of " << f);
  REQUIRE(vnear(vm::point_at_distance(l, t), ref(o) + d * R(t), tol), what << ": point_at_distance is " << vm::point_at_distance(l, t));
  REQUIRE(vnear(vm::project_point(l, p), ref(o) + d * f, 2 * tol), what << ": project_point is " << vm::project_point(l, p) << " instead of " << (ref(o) + d * f));
}
template <typename T, std::size_t S> static void parametrized(G& g) {
  const T unit = static_cast<T>(std::ldexp(1.0, g.flip() ? 0 : static_cast<int>(g.range(-20, 10))));
  const auto times = [&](vm::vec<T, S> v) { for (auto& c : v.v) c *= unit; return v; };
  const auto o = times(numvec<T, S>(g, 100)), p = times(numvec<T, S>(g, 100));
  const auto d = unitvec<T, S>(g);
  const auto t = num<T>(g, 100) * unit;
  const auto e = times(nonzero_ivec<T, S>(g, 9)), io = times(ivec<T, S>(g, 9));
  g.note("origin", o); g.note("direction", d); g.note("p", p); g.note("t", t); g.note("e", e); g.note("io", io);
  g.nontrivial(t != 0 && rlen(ref(p) - ref(o)) > 0);
  param("line", vm::line<T, S>(o, d), o, ref(d), p, t, unit);
  param("ray", vm::ray<T, S>(o, d), o, ref(d), p, t, unit);
  const vm::segment<T, S> s(io, io + e);
  const bool swap = [&] { for (std::size_t i = 0; i < S; ++i) if (e.v[i] != 0) return e.v[i] < 0; return false; }();
  param("segment", s, swap ? io + e : io, runit(ref(e)) * (swap ? -1 : 1), p, t, unit);
  // which side of its origin a point is on
  const vm::ray<T, S> r(o, d);
  const R f = rdot(ref(p) - ref(o), ref(d)), pe = R(vm::constants<T>::point_status_epsilon()), tol = 32 * eps<T>() * (R(unit) + rlen(ref(p)) + rlen(ref(o)));
  const auto st = r.point_status(p);
  if (f > pe + tol) REQUIRE(st == vm::plane_status::above, "a point ahead of the ray is not above");
  if (f < -pe - tol) REQUIRE(st == vm::plane_status::below, "a point behind the ray is not below");
  const auto q = down<T, S>(ref(p) - ref(d) * (f / rdot(ref(d), ref(d))));
  if (4 * tol < pe) REQUIRE(r.point_status(q) == vm::plane_status::inside, "a point beside the origin of the ray is not inside");
}
TEST(parametrized, 2000000) {
  switch (g.choice(4)) {
    case 0: parametrized<double, 3>(g); break;
    case 1: parametrized<float, 3>(g); break;
    case 2: parametrized<double, 2>(g); break;
    default: parametrized<double, 4>(g); break;
  }
}

// a line does not depend on the point and the orientation it is given with
template <typename T, std::size_t S> static void canonical(G& g) {
  const bool exact = g.flip(); // axis-aligned, on the grid: no rounding
  const T unit = static_cast<T>(std::ldexp(1.0, g.flip() ? 0 : static_cast<int>(g.range(-20, 10))));
  auto p = exact ? ivec<T, S>(g, 20) : numvec<T, S>(g, 100);
  for (auto& c : p.v) c *= unit;
  vm::vec<T, S> d;
  if (exact) d.v[g.below(S)] = g.flip() ? T(1) : T(-1);
  else d = unitvec<T, S>(g);
  const T t = (exact ? static_cast<T>(g.zint(50)) : num<T>(g, 100)) * unit;
  const bool neg = g.flip();
  const auto p2 = p + d * t;
  const auto d2 = neg ? -d : d;
  g.note("p", p); g.note("d", d); g.note("p2", p2); g.note("d2", d2);
  g.nontrivial(t != 0 || neg);
  const vm::line<T, S> a(p, d), b(p2, d2);
  const auto c = a.make_canonical(), e = b.make_canonical();
  const R tol = exact ? 0 : 64 * eps<T>() * (R(unit) + rlen(ref(p)) + std::fabs(R(t)));
  for (const auto* x : {&c, &e}) {
    REQUIRE(near(rdot(ref(x->point), ref(x->direction)), 0, tol), "the point " << x->point << " of the canonical line is not the closest one to the origin");
    REQUIRE(near(rdot(ref(x->direction), ref(d)) * rdot(ref(x->direction), ref(d)), rdot(ref(d), ref(d)) * rdot(ref(d), ref(d)), 16 * eps<T>()), "the direction of the canonical line is " << x->direction);
    const R along = rdot(ref(x->point) - ref(p), ref(d));
    REQUIRE(vnear(x->point, ref(p) + ref(d) * along, 2 * tol), "the point " << x->point << " of the canonical line is not on the line");
    for (std::size_t i = 0; i < S; ++i) if (x->direction.v[i] != 0) { REQUIRE(x->direction.v[i] > 0, "the first component of the canonical direction " << x->direction << " is negative"); break; }
  }
  REQUIRE(vnear(c.point, ref(e.point), 2 * tol), "canonical points " << c.point << " and " << e.point << " of the same line");
  REQUIRE(vnear(c.direction, ref(e.direction), 0), "canonical directions " << c.direction << " and " << e.direction << " of the same line");
  if (exact) {
    REQUIRE(a == b && b == a && !(a != b), "two representations of a line are different");
    auto off = ivec<T, S>(g, 2); // another line, maybe very close
    const T part = static_cast<T>(std::ldexp(1.0, g.flip() ? 0 : -static_cast<int>(g.below(16))));
    for (auto& c : off.v) c *= unit * part;
    if (S > 1) {
      bool parallel = true;
      for (std::size_t i = 0; i < S; ++i) if (d.v[i] == 0 && off.v[i] != 0) parallel = false;
      g.note("off", off);
      const vm::line<T, S> z(p + off, d2);
      REQUIRE((a == z) == parallel && (a != z) == !parallel, "line through " << p + off << ": == gives " << (a == z));
      vm::vec<T, S> o;
      for (std::size_t i = 0; i < S; ++i) if (d.v[i] != 0) { o.v[(i + 1) % S] = T(1); break; }
      REQUIRE(a != (vm::line<T, S>(p, o)) && !(a == vm::line<T, S>(p, o)), "lines with different directions are equal");
    }
  }
  REQUIRE(a == a && !(a != a), "a line differs from itself");
  REQUIRE(vm::is_equal(a, a, T(0)), "is_equal");
}
TEST(canonical_lines, 2000000) {
  switch (g.choice(5)) {
    case 0: canonical<double, 3>(g); break;
    case 1: canonical<float, 3>(g); break;
    case 2: canonical<double, 2>(g); break;
    case 3: canonical<double, 4>(g); break;
    default: canonical<float, 2>(g); break;
  }
}

template <typename T, std::size_t S> static void transformed(G& g) {
  const T unit = static_cast<T>(std::ldexp(1.0, g.flip() ? 0 : static_cast<int>(g.zint(20)))), f = static_cast<T>(std::ldexp(1.0, g.flip() ? 0 : static_cast<int>(g.zint(15))));
  auto o = ivec<T, S>(g, 20);
  for (auto& c : o.v) c *= unit;
  const auto d = unitvec<T, S>(g);
  auto m = imat<T, S + 1, S + 1>(g, 4);
  for (std::size_t j = 0; j < S; ++j) m.v[j].v[S] = 0;
  for (std::size_t j = 0; j <= S; ++j) for (std::size_t i = 0; i < S; ++i) m.v[j].v[i] *= j == S ? f * unit : f;
  const bool digits = g.flip(); // all of them
  if (digits) for (std::size_t j = 0; j <= S; ++j) for (std::size_t i = 0; i < S; ++i) m.v[j].v[i] *= static_cast<T>(g.real(0.5, 1));
  m.v[S].v[S] = 1;
  g.note("origin", o); g.note("direction", d); g.note("m", m);
  const auto M = mref(m);
  rv<S> io, id;
  for (std::size_t i = 0; i < S; ++i) { io[i] = M[i][S]; for (std::size_t j = 0; j < S; ++j) { io[i] += M[i][j] * o.v[j]; id[i] += M[i][j] * d.v[j]; } }
  if (rlen(id) < 0.2L * R(f)) { g.label("direction collapses"); return; }
  g.nontrivial();
  const R tol = 256 * eps<T>();
  const auto check = [&](const char* what, const vm::vec<T, S>& p, const vm::vec<T, S>& dir) {
    REQUIRE(digits ? vnear(p, io, tol * 100 * f * unit) : vexact(p, io), what << " starts at " << p << " instead of " << io);
    REQUIRE(vnear(dir, runit(id), tol), what << " has direction " << dir << " instead of " << runit(id));
  };
  const vm::line<T, S> l(o, d);
  const vm::ray<T, S> r(o, d);
  m = weighted(g, m);
  check("the transformed line", l.transform(m).point, l.transform(m).direction);
  check("the transformed line (transform_c)", l.transform_c(m).point, l.transform_c(m).direction);
  check("the transformed ray", r.transform(m).origin, r.transform(m).direction);
  check("the transformed ray (transform_c)", r.transform_c(m).origin, r.transform_c(m).direction);
}
TEST(transformed, 800000) {
  switch (g.choice(4)) {
    case 0: transformed<double, 3>(g); break;
    case 1: transformed<float, 3>(g); break;
    case 2: transformed<double, 2>(g); break;
    default: transformed<double, 4>(g); break;
  }
}

template <typename T, std::size_t S> static void equality(G& g) {
  const auto o = ivec<T, S>(g, 1), d = ivec<T, S>(g, 1);
  auto o2 = o, d2 = d;
  if (g.flip()) o2.v[g.below(S)] = static_cast<T>(g.zint(1));
  if (g.flip()) d2.v[g.below(S)] = static_cast<T>(g.zint(1));
  g.note("o", o); g.note("d", d); g.note("o2", o2); g.note("d2", d2);
  const bool eq = vsame(o, o2) && vsame(d, d2);
  g.nontrivial(!eq);
  const vm::ray<T, S> a(o, d), b(o2, d2);
  REQUIRE((a == b) == eq && (b == a) == eq && (a != b) == !eq, "equality of rays");
  REQUIRE(vm::is_equal(a, b, T(0.5)) == eq && vm::is_equal(a, b, T(0)) == eq && vm::is_equal(a, b, T(4)), "is_equal of rays");
  const vm::line<T, S> l(o, d), k(o2, d2);
  REQUIRE(vm::is_equal(l, k, T(0.5)) == eq && vm::is_equal(l, k, T(0)) == eq && vm::is_equal(l, k, T(4)), "is_equal of lines");
  const vm::ray<double, S> rd(a);
  const vm::ray<float, S> rf(rd);
  {
    vm::ray<T, S> c = a; // a tiny bit aside
    auto& x = (g.flip() ? c.origin : c.direction).v[g.below(S)];
    x = std::nextafter(x, static_cast<T>(g.flip() ? 9 : -9));
    REQUIRE(!(a == c) && !(c == a) && a != c && vm::is_equal(a, c, T(0.001)) && !vm::is_equal(a, c, T(0)), "a slightly different ray is equal");
  }
  const vm::line<double, S> ld(l);
  const vm::line<float, S> lf(ld);
  REQUIRE(vexact(rd.origin, ref(o)) && vexact(rd.direction, ref(d)) && vexact(rf.origin, ref(o)) && vexact(rf.direction, ref(d)), "conversion of rays");
  REQUIRE(vexact(ld.point, ref(o)) && vexact(ld.direction, ref(d)) && vexact(lf.point, ref(o)) && vexact(lf.direction, ref(d)), "conversion of lines");
  const vm::vec<T, S> z = vm::vec<T, S>::zero();
  REQUIRE(vsame(vm::ray<T, S>().origin, z) && vsame(vm::ray<T, S>().direction, z) && vsame(vm::line<T, S>().point, z) && vsame(vm::line<T, S>().direction, z), "default constructors");
}
TEST(equality, 500000) { if (g.flip()) equality<double, 3>(g); else equality<float, 2>(g); }
