// What the library computes at compile time is what it computes at run time
#include "matgeo.h"
#include <tuple>
#include <vecmath/approx.h>
#include <vecmath/bbox.h>
#include <vecmath/distance.h>
#include <vecmath/intersection.h>
#include <vecmath/line.h>
#include <vecmath/mat_ext.h>
#include <vecmath/plane.h>
#include <vecmath/quat.h>
#include <vecmath/ray.h>
#include <vecmath/segment.h>

#ifndef PBT_CT_SEED
#define PBT_CT_SEED 1
#endif
#ifndef PBT_CT_N
#define PBT_CT_N 128
#endif

// ---- the compile time versions of functions, on any input -------------------------------------

template <typename T, std::size_t S> static void twins(G& g) {
  const int k = sizeof(T) == 4 ? 20 : 150;
  const auto gen = [&] {
    switch (g.choice(3)) {
      case 0: return gridvec<T, S>(g);
      case 1: return numvec<T, S>(g);
      default: { const int lo = static_cast<int>(g.range(-k, k - 6)); return gvec<T, S>([&] { return logscale<T>(g, lo, lo + 6); }); }
    }
  };
  const auto a = gen(), b = gen();
  g.note("a", a); g.note("b", b);
  const R la = rlen(ref(a)), d = rlen(ref(a) - ref(b));
  const bool small = S > 1;
  g.nontrivial(la > 0 && d > 0 && small);
  REQUIRE(near(vm::length_c(a), vm::length(a), 4 * eps<T>() * la), "length_c gives " << vm::length_c(a) << ", length " << vm::length(a));
  REQUIRE(near(vm::distance_c(a, b), vm::distance(a, b), 4 * eps<T>() * R(vm::distance(a, b))), "distance_c gives " << vm::distance_c(a, b) << ", distance " << vm::distance(a, b));
  const vm::segment<T, S> s(a, b);
  REQUIRE(near(s.length_c(), s.length(), 4 * eps<T>() * R(s.length())), "length_c of the segment gives " << s.length_c() << ", length " << s.length());
  if (la > 0) {
    REQUIRE(vnear(vm::normalize_c(a), ref(vm::normalize(a)), 4 * eps<T>()), "normalize_c gives " << vm::normalize_c(a) << ", normalize " << vm::normalize(a));
    const T e = g.pick<T>({T(0.0001), T(0.5), T(0.01), T(0)});
    const auto u = g.flip() ? vm::vec<T, S>(vm::normalize(a) * (T(1) + e * static_cast<T>(g.real(-2, 2)))) : a;
    if (std::fabs(std::fabs(R(vm::length(u)) - 1) - R(e)) > 8 * eps<T>() * (1 + R(vm::length(u)))) {
      g.label(vm::is_unit(u, e) ? "unit" : "not unit");
      REQUIRE(vm::is_unit_c(u, e) == vm::is_unit(u, e), "is_unit_c gives " << vm::is_unit_c(u, e) << " for " << u << ", epsilon " << e);
    }
    if (rlen(ref(b)) > 0) {
      // b turned towards a, or opposite to it, now and then
      const auto c = g.flip() ? b : vm::vec<T, S>(a * static_cast<T>(g.flip() ? 2 : -2) + (g.flip() ? vm::vec<T, S>() : vm::vec<T, S>(vm::normalize(b) * vm::length(a) * static_cast<T>(g.real(0, 0.2)))));
      if (rlen(ref(c)) > 0 && rlen(ref(c)) < 1e40L) {
        const R cos = rdot(ref(a), ref(c)) / (la * rlen(ref(c)));
        if (std::fabs(1 - std::fabs(cos) - R(vm::constants<T>::colinear_epsilon())) > 32 * eps<T>()) {
          g.label(vm::is_parallel(a, c) ? "parallel" : "not parallel");
          REQUIRE(vm::is_parallel_c(a, c) == vm::is_parallel(a, c), "is_parallel_c gives " << vm::is_parallel_c(a, c) << " for " << a << " and " << c);
        }
        const T e2 = static_cast<T>(g.pick<double>({0.001, 0.1, 0.5}));
        if (std::fabs(1 - std::fabs(cos) - R(e2)) > 32 * eps<T>()) REQUIRE(vm::is_parallel_c(a, c, e2) == vm::is_parallel(a, c, e2), "is_parallel_c gives " << vm::is_parallel_c(a, c, e2) << " for " << a << " and " << c << ", epsilon " << e2);
      }
    }
  }
}
TEST(twins, 1000000) {
  switch (g.choice(6)) {
    case 0: twins<double, 3>(g); break;
    case 1: twins<float, 3>(g); break;
    case 2: twins<double, 2>(g); break;
    case 3: twins<float, 2>(g); break;
    case 4: twins<double, 4>(g); break;
    default: twins<double, 1>(g); break;
  }
}

template <typename T, std::size_t S> static void between(G& g) {
  const auto s = static_cast<T>(std::ldexp(1.0, static_cast<int>(g.zint(20))));
  const vm::vec<T, S> p = ivec<T, S>(g, 20) * s, d = nonzero_ivec<T, S>(g, 5) * s;
  const long i = g.zint(4), j = g.zint(4);
  const auto start = p + d * static_cast<T>(i), end = p + d * static_cast<T>(j);
  g.note("p", p); g.note("start", start); g.note("end", end);
  g.nontrivial(i != 0 && j != 0);
  const bool want = i == 0 || j == 0 || (i < 0) != (j < 0);
  REQUIRE(vm::is_between_c(p, start, end) == want, "is_between_c gives " << !want);
  REQUIRE(vm::is_between(p, start, end) == want, "is_between gives " << !want);
}
TEST(between, 300000) {
  switch (g.choice(3)) {
    case 0: between<double, 3>(g); break;
    case 1: between<float, 3>(g); break;
    default: between<double, 2>(g); break;
  }
}

// an invertible affine transformation, with integer elements
template <typename T> static vm::mat<T, 4, 4> affine(G& g) {
  auto m = vm::mat<T, 4, 4>::identity();
  for (std::size_t c = 0; c < 4; ++c) for (std::size_t r = 0; r < 3; ++r) m[c][r] = static_cast<T>(g.zint(c == 3 ? 20 : 4));
  const R det = R(m[0][0]) * (R(m[1][1]) * m[2][2] - R(m[2][1]) * m[1][2]) - R(m[1][0]) * (R(m[0][1]) * m[2][2] - R(m[2][1]) * m[0][2]) + R(m[2][0]) * (R(m[0][1]) * m[1][2] - R(m[1][1]) * m[0][2]);
  if (det == 0) { m = vm::mat<T, 4, 4>::identity(); for (std::size_t r = 0; r < 3; ++r) { m[r][r] = static_cast<T>(g.range(1, 4)); m[3][r] = static_cast<T>(g.zint(20)); } }
  return m;
}
template <typename T> static void transforms(G& g) {
  const T unit = static_cast<T>(std::ldexp(1.0, g.flip() ? 0 : static_cast<int>(g.range(-20, 10)))), f = static_cast<T>(std::ldexp(1.0, g.flip() ? 0 : static_cast<int>(g.range(-15, 15))));
  auto a = affine<T>(g);
  auto o = ivec<T, 3>(g, 50);
  for (std::size_t c = 0; c < 4; ++c) for (std::size_t r = 0; r < 3; ++r) a[c][r] *= c == 3 ? f * unit : f;
  for (auto& c : o.v) c *= unit;
  const auto m = weighted(g, a);
  const auto d = unitvec<T, 3>(g);
  g.note("m", m[0]); g.note("m", m[1]); g.note("m", m[2]); g.note("m", m[3]); g.note("origin", o); g.note("direction", d);
  g.nontrivial();
  const vm::line<T, 3> l(o, d);
  const vm::ray<T, 3> r(o, d);
  const vm::plane<T, 3> p(o, d);
  const R tol = 2000 * eps<T>();
  const auto lt = l.transform(m), lc = l.transform_c(m);
  REQUIRE(vsame(lt.point, lc.point) && vnear(lc.direction, ref(lt.direction), tol), "transform_c of the line gives " << lc.point << ", " << lc.direction << " instead of " << lt.point << ", " << lt.direction);
  const auto rt = r.transform(m), rc = r.transform_c(m);
  REQUIRE(vsame(rt.origin, rc.origin) && vnear(rc.direction, ref(rt.direction), tol), "transform_c of the ray gives " << rc.origin << ", " << rc.direction << " instead of " << rt.origin << ", " << rt.direction);
  const auto pt = p.transform(m), pc = p.transform_c(m);
  REQUIRE(vnear(pc.normal, ref(pt.normal), tol) && near(pc.distance, pt.distance, 1000 * tol * R(f * unit)), "transform_c of the plane gives " << pc.distance << ", " << pc.normal << " instead of " << pt.distance << ", " << pt.normal);
}
TEST(transforms, 400000) { if (g.flip()) transforms<double>(g); else transforms<float>(g); }

#ifndef __clang__ // clang cannot evaluate std::abs and the like at compile time
// ---- the same code, evaluated by the compiler and by the machine ------------------------------

struct Rng {
  std::uint64_t s;
  constexpr std::uint64_t next() {
    s += 0x9e3779b97f4a7c15ull;
    std::uint64_t z = s;
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
  }
  constexpr long range(long lo, long hi) { return lo + static_cast<long>(next() % static_cast<std::uint64_t>(hi - lo + 1)); }
  template <typename T> constexpr T integer(long k) { return static_cast<T>(range(-k, k)); }
  template <typename T> constexpr T num() { // in (-64, 64), integral, in eighths or of 20 bits
    const auto m = range(0, 2);
    return m == 0 ? integer<T>(8) : m == 1 ? integer<T>(500) / T(8) : integer<T>(1 << 20) / T(1 << 14);
  }
  template <typename T> constexpr T nonzero() { const T v = num<T>(); return v == T(0) ? T(0.75) : v; }
  template <typename T> constexpr T pos() { const T v = nonzero<T>(); return v < T(0) ? -v : v; }
  template <typename T, std::size_t S> constexpr vm::vec<T, S> vec() { vm::vec<T, S> v; for (std::size_t i = 0; i < S; ++i) v.v[i] = num<T>(); return v; }
  template <typename T, std::size_t S> constexpr vm::vec<T, S> vnonzero() { vm::vec<T, S> v; for (std::size_t i = 0; i < S; ++i) v.v[i] = nonzero<T>(); return v; }
  template <typename T> constexpr vm::vec<T, 3> unit() { // Pythagorean quadruples
    const long q[4][4] = {{1, 2, 2, 3}, {2, 3, 6, 7}, {1, 4, 8, 9}, {0, 3, 4, 5}};
    const auto k = next() % 4, o = next() % 3;
    vm::vec<T, 3> v;
    for (std::size_t i = 0; i < 3; ++i) v.v[(i + o) % 3] = static_cast<T>(q[k][i]) / static_cast<T>(q[k][3]) * (next() % 2 ? T(-1) : T(1));
    if (next() % 4 == 0) { v = vm::vec<T, 3>(); v.v[o] = next() % 2 ? T(-1) : T(1); }
    return v;
  }
  template <typename T, std::size_t RR, std::size_t C> constexpr vm::mat<T, RR, C> mat(long k) { vm::mat<T, RR, C> m; for (std::size_t c = 0; c < C; ++c) for (std::size_t r = 0; r < RR; ++r) m.v[c].v[r] = integer<T>(k); return m; }
  // lower times upper triangle, with units on the diagonals, and rows exchanged: the inverse has integer elements
  template <typename T, std::size_t S> constexpr vm::mat<T, S, S> regular() {
    long l[S][S]{}, u[S][S]{};
    for (std::size_t i = 0; i < S; ++i) for (std::size_t j = 0; j < S; ++j) { l[i][j] = i == j ? 1 : j < i ? range(-2, 2) : 0; u[i][j] = i == j ? (next() % 2 ? 2 : 1) : j > i ? range(-2, 2) : 0; }
    vm::mat<T, S, S> m;
    const auto o = next() % S;
    for (std::size_t i = 0; i < S; ++i) for (std::size_t j = 0; j < S; ++j) { long x = 0; for (std::size_t k = 0; k < S; ++k) x += l[i][k] * u[k][j]; m.v[j].v[(i + o) % S] = static_cast<T>(x); }
    return m;
  }
  template <typename T> constexpr vm::mat<T, 4, 4> affine() {
    const auto r = regular<T, 3>();
    vm::mat<T, 4, 4> m;
    for (std::size_t c = 0; c < 4; ++c) for (std::size_t i = 0; i < 4; ++i) m.v[c].v[i] = c < 3 && i < 3 ? r.v[c].v[i] : c == 3 && i < 3 ? integer<T>(20) : c == i ? T(1) : T(0);
    return m;
  }
  template <typename T, std::size_t S> constexpr vm::bbox<T, S> box() {
    vm::vec<T, S> lo, hi;
    for (std::size_t i = 0; i < S; ++i) { lo.v[i] = num<T>(); hi.v[i] = lo.v[i] + pos<T>(); }
    return vm::bbox<T, S>(lo, hi);
  }
};

struct Out {
  static constexpr int cap = 160;
  double v[cap]{};
  const char* what[cap]{};
  int n = 0;
  template <typename T> constexpr auto put(const char* w, const T x) -> std::enable_if_t<std::is_arithmetic<T>::value> {
    v[n] = static_cast<double>(x);
    what[n] = w;
    ++n;
  }
  template <typename T, std::size_t S> constexpr void put(const char* w, const vm::vec<T, S>& x) { for (std::size_t i = 0; i < S; ++i) put(w, x.v[i]); }
  template <typename T, std::size_t RR, std::size_t C> constexpr void put(const char* w, const vm::mat<T, RR, C>& x) { for (std::size_t i = 0; i < C; ++i) put(w, x.v[i]); }
  template <typename T, std::size_t S> constexpr void put(const char* w, const vm::bbox<T, S>& x) { put(w, x.min); put(w, x.max); }
  template <typename T, std::size_t S> constexpr void put(const char* w, const vm::plane<T, S>& x) { put(w, x.distance); put(w, x.normal); }
  template <typename T, std::size_t S> constexpr void put(const char* w, const vm::line<T, S>& x) { put(w, x.point); put(w, x.direction); }
  template <typename T, std::size_t S> constexpr void put(const char* w, const vm::ray<T, S>& x) { put(w, x.origin); put(w, x.direction); }
  template <typename T, std::size_t S> constexpr void put(const char* w, const vm::segment<T, S>& x) { put(w, x.start()); put(w, x.end()); }
  template <typename T> constexpr void put(const char* w, const vm::quat<T>& x) { put(w, x.r); put(w, x.v); }
  template <typename T> constexpr void put(const char* w, const vm::line_distance<T>& x) { put(w, x.parallel); put(w, x.distance); put(w, x.position1); put(w, x.position2); }
};

template <typename T> struct Scalars {
  static constexpr void eval(Rng& r, Out& o) {
    const T a = r.num<T>(), b = r.num<T>(), c = r.num<T>(), d = r.pos<T>();
    o.put("abs", vm::abs(a)); o.put("min", vm::min(a, b, c)); o.put("max", vm::max(a, b, c));
    o.put("abs_min", vm::abs_min(a, b, c)); o.put("abs_max", vm::abs_max(a, b, c));
    o.put("safe_min", vm::safe_min(a, b, vm::nan<T>(), c)); o.put("safe_max", vm::safe_max(vm::nan<T>(), b, c));
    o.put("clamp", vm::clamp(a, b < c ? b : c, b < c ? c : b)); o.put("sign", vm::sign(a)); o.put("step", vm::step(a, b));
    o.put("smoothstep", vm::smoothstep(a, a + d, b)); o.put("mod", vm::mod(a, d)); o.put("mix", vm::mix(a, b, c));
    o.put("floor", vm::floor(a)); o.put("ceil", vm::ceil(a)); o.put("trunc", vm::trunc(a)); o.put("fract", vm::fract(a));
    o.put("round", vm::round(a)); o.put("round_up", vm::round_up(a)); o.put("round_down", vm::round_down(a));
    o.put("snap", vm::snap(a, d)); o.put("snapUp", vm::snapUp(a, d)); o.put("snapDown", vm::snapDown(a, d)); o.put("correct", vm::correct(a, 1, T(0.02)));
    o.put("is_equal", vm::is_equal(a, b, d)); o.put("is_zero", vm::is_zero(a, d)); o.put("contains", vm::contains(a, b, c));
    o.put("is_nan", vm::is_nan(a)); o.put("is_nan", vm::is_nan(vm::nan<T>())); o.put("is_inf", vm::is_inf(std::numeric_limits<T>::infinity()));
    o.put("to_radians", vm::to_radians(a)); o.put("to_degrees", vm::to_degrees(a));
    o.put("normalize_radians", vm::normalize_radians(a)); o.put("normalize_degrees", vm::normalize_degrees(a * T(20)));
    const auto n = r.range(1, 9), i = r.range(0, n - 1), s = r.range(0, 12);
    o.put("succ", vm::succ(i, n, s)); o.put("pred", vm::pred(i, n, s));
    o.put("sqrt_c", vm::sqrt_c(d)); o.put("sqrt_c", vm::sqrt_c(d * d * d * d)); o.put("sqrt_c", vm::sqrt_c(-d)); o.put("sqrt_c", vm::sqrt_c(T(0)));
    o.put("approx ==", a == vm::approx<T>(b, d)); o.put("approx <", a < vm::approx<T>(b, d)); o.put("approx >=", vm::approx<T>(b, d) >= a);
  }
};
template <typename T, std::size_t S> struct Vectors {
  static constexpr void eval(Rng& r, Out& o) {
    const auto a = r.vec<T, S>(), b = r.vec<T, S>(), c = r.vnonzero<T, S>();
    const T f = r.nonzero<T>();
    o.put("compare", vm::compare(a, b)); o.put("compare", vm::compare(a, b, T(8))); o.put("==", a == b); o.put("<", a < b); o.put(">=", a >= b); o.put("is_equal", vm::is_equal(a, b, T(20)));
    o.put("+", a + b); o.put("-", a - b); o.put("unary -", -a); o.put("*", a * b); o.put("/", a / c); o.put("* scalar", a * f); o.put("scalar *", f * a); o.put("/ scalar", a / f); o.put("scalar /", f / c);
    for (std::size_t k = 0; k < S; ++k) { o.put("find_max_component", vm::find_max_component(a, k)); o.put("find_abs_max_component", vm::find_abs_max_component(a, k)); o.put("get_max_component", vm::get_max_component(a, k)); o.put("get_abs_max_component", vm::get_abs_max_component(a, k)); }
    o.put("get_abs_max_component_axis", vm::get_abs_max_component_axis(c, 0)); o.put("axis", vm::vec<T, S>::axis(S - 1)); o.put("fill", vm::vec<T, S>::fill(f));
    o.put("min", vm::min(a, b)); o.put("max", vm::max(a, b, c)); o.put("abs_min", vm::abs_min(a, b)); o.put("abs_max", vm::abs_max(a, b)); o.put("abs", vm::abs(a)); o.put("sign", vm::sign(a));
    o.put("clamp", vm::clamp(a, vm::min(b, c), vm::max(b, c))); o.put("mix", vm::mix(a, b, c));
  }
};
template <typename T, std::size_t S> struct Vectors2 {
  static constexpr void eval(Rng& r, Out& o) {
    const auto a = r.vec<T, S>(), b = r.vec<T, S>(), c = r.vnonzero<T, S>();
    const auto p = vm::abs(c);
    o.put("step", vm::step(a, b)); o.put("smoothstep", vm::smoothstep(a, a + p, b)); o.put("fract", vm::fract(a)); o.put("mod", vm::mod(a, p));
    o.put("floor", vm::floor(a)); o.put("ceil", vm::ceil(a)); o.put("trunc", vm::trunc(a)); o.put("round", vm::round(a)); o.put("snap", vm::snap(a, p)); o.put("snapUp", vm::snapUp(a, p)); o.put("snapDown", vm::snapDown(a, p)); o.put("correct", vm::correct(a, 1, T(0.02)));
    o.put("dot", vm::dot(a, b)); o.put("squared_length", vm::squared_length(a)); o.put("squared_distance", vm::squared_distance(a, b)); o.put("length_c", vm::length_c(c)); o.put("normalize_c", vm::normalize_c(c)); o.put("distance_c", vm::distance_c(a, a + c));
    o.put("is_unit_c", vm::is_unit_c(c, T(4))); o.put("is_zero", vm::is_zero(a, T(10))); o.put("is_nan", vm::is_nan(a)); o.put("is_integral", vm::is_integral(a, T(0.2)));
    o.put("is_parallel_c", vm::is_parallel_c(c, c * T(-3))); o.put("is_parallel_c", vm::is_parallel_c(c, vm::vec<T, S>::axis(0), T(0.25))); o.put("is_colinear", vm::is_colinear(a, a + c, a - c)); o.put("is_between_c", vm::is_between_c(a, a + c, a - c));
    o.put("to_homogeneous_coords", vm::to_homogeneous_coords(a)); o.put("to_cartesian_coords", vm::to_cartesian_coords(c));
    o.put("slice", vm::slice<S - 1>(a, 1u)); o.put("convert", vm::vec<float, S>(a)); o.put("grow", vm::vec<T, S + 2>(a)); o.put("shrink", vm::vec<T, S - 1>(a));
    if constexpr (S == 3) {
      o.put("cross", vm::cross(a, b));
      for (std::size_t k = 0; k < 3; ++k) { o.put("swizzle", vm::swizzle(a, k)); o.put("unswizzle", vm::unswizzle(a, k)); }
    }
    const vm::vec<T, S> all[] = {a, b, c};
    o.put("average", vm::average(std::begin(all), std::end(all)));
    o.put("approx ==", a == vm::approx<vm::vec<T, S>>(b, T(30))); o.put("approx <", a < vm::approx<vm::vec<T, S>>(b, T(5)));
  }
};
template <typename T, std::size_t RR, std::size_t C> struct Matrices {
  static constexpr void eval(Rng& r, Out& o) {
    const auto a = r.mat<T, RR, C>(9), b = r.mat<T, RR, C>(9);
    const auto c = r.mat<T, C, 2>(9);
    const T f = r.nonzero<T>();
    o.put("compare", vm::compare(a, b)); o.put("==", a == b); o.put("is_equal", vm::is_equal(a, b, T(12))); o.put("is_zero", vm::is_zero(a, T(7)));
    o.put("+", a + b); o.put("-", a - b); o.put("unary -", -a); o.put("* scalar", a * f); o.put("scalar *", f * a); o.put("/ scalar", a / f);
    o.put("*", a * c); o.put("vec *", r.vec<T, RR>() * a); o.put("* vec", a * r.vec<T, C>()); o.put("transpose", vm::transpose(a));
    o.put("slice", vm::slice<RR - 1, C - 1>(a, 1u, 0u)); o.put("extract_minor", vm::extract_minor(a, 0u, C - 1u)); o.put("set", vm::set(a, RR - 1u, 0u, f));
    o.put("fill", vm::mat<T, RR, C>::fill(f)); o.put("identity", vm::mat<T, RR, C>::identity());
  }
};
template <typename T, std::size_t S> struct Inverses {
  static constexpr void eval(Rng& r, Out& o) {
    const auto m = r.regular<T, S>();
    o.put("compute_determinant", vm::compute_determinant(m)); o.put("compute_determinant", vm::compute_determinant(r.mat<T, S, S>(5)));
    o.put("compute_adjugate", vm::compute_adjugate(m));
    const auto i = vm::invert(m);
    o.put("invert", std::get<0>(i)); o.put("invert", std::get<1>(i));
    const auto s = vm::lup_solve(m, r.vec<T, S>());
    o.put("lup_solve", std::get<0>(s)); o.put("lup_solve", std::get<1>(s));
    auto z = m;
    z.v[1] = z.v[0] * T(2);
    o.put("invert", std::get<0>(vm::invert(z)));
  }
};
template <typename T> struct Transformations {
  static constexpr void eval(Rng& r, Out& o) {
    const auto m = r.affine<T>();
    const auto p = r.vec<T, 3>(), n = r.vnonzero<T, 3>();
    o.put("* point", m * p); o.put("point *", p * r.affine<T>());
    o.put("translation_matrix", vm::translation_matrix(p)); o.put("translation_matrix", vm::translation_matrix(m)); o.put("strip_translation", vm::strip_translation(m)); o.put("scaling_matrix", vm::scaling_matrix(n));
    o.put("shear_matrix", vm::shear_matrix(p[0], p[1], p[2], n[0], n[1], n[2]));
    o.put("ortho_matrix", vm::ortho_matrix(T(0), T(100), T(-3), T(4), T(8), T(-2)));
    o.put("view_matrix", vm::view_matrix(vm::vec<T, 3>(0, 1, 0), vm::vec<T, 3>(0, 0, 1)));
  }
};
template <typename T> struct Transformations2 {
  static constexpr void eval(Rng& r, Out& o) {
    const auto b = r.box<T, 3>(), c = r.box<T, 3>();
    const auto p = r.vec<T, 3>();
    o.put("scale_bbox_matrix", vm::scale_bbox_matrix(b, c)); o.put("scale_bbox_matrix_with_anchor", vm::scale_bbox_matrix_with_anchor(b, c.size(), p)); o.put("shear_bbox_matrix", vm::shear_bbox_matrix(b, vm::vec<T, 3>(0, 0, 1), vm::vec<T, 3>(p[0], p[1], 0)));
    o.put("coordinate_system_matrix", vm::coordinate_system_matrix(vm::vec<T, 3>(0, 1, 0), vm::vec<T, 3>(0, 0, 1), vm::vec<T, 3>(1, 0, 0), p));
    o.put("mirror_matrix", vm::mirror_matrix<T>(vm::axis::y)); o.put("rotation_matrix", vm::rotation_matrix(vm::quat<T>(T(0.5), vm::vec<T, 3>(T(0.5), T(-0.5), T(0.5)))));
    o.put("points_transformation_matrix", vm::points_transformation_matrix(p, p + vm::vec<T, 3>(1, 0, 0), p + vm::vec<T, 3>(0, 2, 0), p + vm::vec<T, 3>(0, 1, 4), b.min, b.min + vm::vec<T, 3>(0, 1, 0), b.min + vm::vec<T, 3>(0, 0, 3), b.min + c.size()));
  }
};
template <typename T, std::size_t S> struct Boxes {
  static constexpr void eval(Rng& r, Out& o) {
    const auto a = r.box<T, S>(), b = r.box<T, S>();
    const auto p = r.vec<T, S>();
    o.put("center", a.center()); o.put("size", a.size()); o.put("volume", a.volume()); o.put("is_empty", a.is_empty()); o.put("is_valid", a.is_valid());
    o.put("contains", a.contains(p)); o.put("contains", a.contains(b)); o.put("encloses", a.encloses(b)); o.put("intersects", a.intersects(b)); o.put("constrain", a.constrain(p));
    o.put("expand", a.expand(T(2))); o.put("translate", a.translate(p)); o.put("==", a == b); o.put("is_equal", vm::is_equal(a, b, T(30)));
    o.put("merge", vm::merge(a, b)); o.put("merge", vm::merge(a, p)); o.put("intersect", vm::intersect(a, b)); o.put("repair", vm::repair(a));
    for (const auto x : a.relative_position(p)) o.put("relative_position", static_cast<int>(x));
    const vm::vec<T, S> pts[] = {p, a.max, b.min};
    o.put("merge_all", vm::bbox<T, S>::merge_all(std::begin(pts), std::end(pts)));
    typename vm::bbox<T, S>::builder bl;
    o.put("builder", bl.initialized());
    bl.add(p); bl.add(b);
    o.put("builder", bl.initialized()); o.put("builder", bl.bounds());
    if constexpr (S == 3) {
      for (const auto& x : a.vertices()) o.put("vertices", x);
      o.put("transform", a.transform(r.affine<T>()));
    }
  }
};
template <typename T> struct Planes {
  static constexpr void eval(Rng& r, Out& o) {
    const vm::plane<T, 3> p{r.vec<T, 3>(), r.unit<T>()};
    const auto v = r.vec<T, 3>();
    o.put("plane", p); o.put("anchor", p.anchor()); o.put("point_distance", p.point_distance(v)); o.put("point_status", static_cast<int>(p.point_status(v))); o.put("flip", p.flip());
    o.put("project_point", p.project_point(v)); o.put("project_point", p.project_point(v, p.normal + vm::vec<T, 3>(T(0.25), 0, 0))); o.put("project_vector", p.project_vector(v)); o.put("project_vector", p.project_vector(v, p.normal));
    if (p.normal[2] != T(0)) { o.put("at", p.at(v.xy(), vm::axis::z)); o.put("zAt", p.zAt(v.xy())); }
    if (p.normal[1] != T(0)) o.put("yAt", p.yAt(v.xy()));
    if (p.normal[0] != T(0)) o.put("xAt", p.xAt(v.xy()));
    o.put("transform_c", p.transform_c(r.affine<T>())); o.put("==", p == p.flip()); o.put("is_equal", vm::is_equal(p, p, T(0)));
    o.put("horizontal_plane", vm::horizontal_plane(v)); o.put("aligned_orthogonal_plane", vm::aligned_orthogonal_plane(v, p.normal));
    const vm::line<T, 3> l{v, r.unit<T>()};
    const vm::ray<T, 3> y(v, l.direction);
    o.put("make_canonical", l.make_canonical()); o.put("transform_c", l.transform_c(r.affine<T>())); o.put("==", l == vm::line<T, 3>(v + l.direction, -l.direction)); o.put("transform_c", y.transform_c(r.affine<T>()));
    o.put("point_status", static_cast<int>(y.point_status(p.anchor()))); o.put("point_at_distance", vm::point_at_distance(l, T(3))); o.put("project_point", vm::project_point(y, p.anchor())); o.put("distance_to_projected_point", vm::distance_to_projected_point(y, p.anchor()));
    const vm::segment<T, 3> s(v, r.vec<T, 3>() + v + vm::vec<T, 3>(70, 0, 0)), t{r.vec<T, 3>(), r.vec<T, 3>()};
    o.put("segment", t); o.put("compare", vm::compare(s, t)); o.put("<", s < t); o.put("center", s.center()); o.put("squared_length", s.squared_length()); o.put("length_c", s.length_c()); o.put("translate", s.translate(v)); o.put("transform", t.transform(r.affine<T>()));
  }
};
template <typename T> struct Quaternions {
  static constexpr void eval(Rng& r, Out& o) {
    const vm::quat<T> a{r.num<T>(), r.vec<T, 3>()}, b{r.num<T>(), r.vec<T, 3>()};
    const auto v = r.vec<T, 3>();
    o.put("conjugate", a.conjugate()); o.put("*", a * b); o.put("* vec", a * v); o.put("* scalar", a * T(3)); o.put("scalar *", T(3) * a); o.put("-", -a); o.put("==", a == b); o.put("is_equal", vm::is_equal(a, a, T(0))); o.put("!=", a != a);
  }
};
template <typename T> struct Intersections {
  static constexpr void eval(Rng& r, Out& o) {
    const vm::ray<T, 3> y{r.vec<T, 3>(), r.unit<T>()};
    const vm::plane<T, 3> p{r.vec<T, 3>(), r.unit<T>()};
    const auto b = r.box<T, 3>();
    const auto c = y.origin + y.direction * T(5);
    const vm::vec<T, 3> n = r.unit<T>(), u = vm::cross(n, vm::vec<T, 3>(T(0.1), T(0.7), T(0.3))), w = vm::cross(n, u);
    const vm::vec<T, 3> poly[] = {c + u * T(2), c + w, c - u * T(r.range(1, 3)), c - w * T(2)};
    o.put("intersect_ray_plane", vm::intersect_ray_plane(y, p)); o.put("intersect_line_plane", vm::intersect_line_plane(vm::line<T, 3>(y.origin, y.direction), p));
    o.put("intersect_ray_triangle", vm::intersect_ray_triangle(y, poly[0], poly[1], poly[2])); o.put("intersect_ray_bbox", vm::intersect_ray_bbox(y, b));
    o.put("intersect_ray_bbox", vm::intersect_ray_bbox(vm::ray<T, 3>(b.min - y.direction, y.direction), b));
    o.put("polygon_contains_point", vm::polygon_contains_point(c + u * T(r.range(-3, 3)), n, std::begin(poly), std::end(poly)));
    const auto d = vm::squared_distance(y, b.min);
    o.put("squared_distance", d.distance); o.put("squared_distance", d.position);
    const vm::ray<T, 3> z{r.vec<T, 3>(), r.unit<T>()};
    o.put("squared_distance", vm::squared_distance(y, z)); o.put("squared_distance", vm::squared_distance(y, vm::line<T, 3>(z.origin, z.direction)));
  }
};

constexpr std::uint64_t ct_seed = static_cast<std::uint64_t>(PBT_CT_SEED) * 1000003ull;
template <typename F> constexpr Out evaluate(const std::uint64_t seed) {
  Rng r{seed};
  Out o;
  F::eval(r, o);
  return o;
}
template <typename F, std::size_t N> constexpr std::array<Out, N> tabulate() {
  std::array<Out, N> t{};
  for (std::size_t i = 0; i < N; ++i) t[i] = evaluate<F>(ct_seed + i * 7919u);
  return t;
}
template <typename F> static void compiled(G& g) {
  static constexpr std::size_t N = PBT_CT_N;
  static constexpr auto table = tabulate<F, N>(); // by the compiler
  const auto i = g.below(N);
  g.note("compile time seed", PBT_CT_SEED); g.note("case", i);
  g.nontrivial();
  volatile std::uint64_t seed = ct_seed + i * 7919u;
  const auto got = evaluate<F>(seed); // by the machine
  const auto& want = table[i];
  for (int k = 0; k < want.n && k < got.n; ++k) {
    REQUIRE(same(want.v[k], got.v[k]), "the compiler evaluates " << want.what[k] << " (value " << k << ") to " << want.v[k] << ", but at run time the result is " << got.v[k]);
  }
  REQUIRE(want.n == got.n, "different numbers of results");
}
TEST(compiled_scalars, 4000) { if (g.flip()) compiled<Scalars<double>>(g); else compiled<Scalars<float>>(g); }
TEST(compiled_vectors, 8000) {
  switch (g.choice(6)) {
    case 0: compiled<Vectors<double, 3>>(g); break;
    case 1: compiled<Vectors<float, 3>>(g); break;
    case 2: compiled<Vectors<double, 2>>(g); break;
    case 3: compiled<Vectors2<double, 3>>(g); break;
    case 4: compiled<Vectors2<float, 3>>(g); break;
    default: compiled<Vectors2<double, 4>>(g); break;
  }
}
TEST(compiled_matrices, 8000) {
  switch (g.choice(6)) {
    case 0: compiled<Matrices<double, 3, 3>>(g); break;
    case 1: compiled<Matrices<float, 2, 3>>(g); break;
    case 2: compiled<Inverses<double, 3>>(g); break;
    case 3: compiled<Inverses<float, 4>>(g); break;
    case 4: compiled<Transformations<double>>(g); break;
    default: compiled<Transformations2<double>>(g); break;
  }
}
TEST(compiled_geometry, 8000) {
  switch (g.choice(7)) {
    case 0: compiled<Boxes<double, 3>>(g); break;
    case 1: compiled<Boxes<float, 2>>(g); break;
    case 2: compiled<Planes<double>>(g); break;
    case 3: compiled<Planes<float>>(g); break;
    case 4: compiled<Quaternions<double>>(g); break;
    case 5: compiled<Intersections<double>>(g); break;
    default: compiled<Intersections<float>>(g); break;
  }
}
#endif
