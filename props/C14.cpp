// Segments and polygons: canonical form, equality and ordering
#include "matgeo.h"
#include <vecmath/polygon.h>
#include <vecmath/segment.h>
#include <vecmath/mat_ext.h>
#include <iterator>

template <typename T, std::size_t S> using VS = std::vector<vm::vec<T, S>>;
template <typename T, std::size_t S> static int lex(const vm::vec<T, S>& a, const vm::vec<T, S>& b) {
  for (std::size_t i = 0; i < S; ++i) { if (a.v[i] < b.v[i]) return -1; if (a.v[i] > b.v[i]) return 1; }
  return 0;
}
template <typename T, std::size_t S> static int lexs(const VS<T, S>& a, const VS<T, S>& b) {
  for (std::size_t i = 0; i < std::min(a.size(), b.size()); ++i) if (const int c = lex(a[i], b[i])) return c;
  return a.size() < b.size() ? -1 : a.size() > b.size() ? 1 : 0;
}
template <typename T, std::size_t S> static VS<T, S> canonical(VS<T, S> v) { // smallest first, same cyclic order
  if (v.empty()) return v;
  std::size_t m = 0;
  for (std::size_t i = 1; i < v.size(); ++i) if (lex(v[i], v[m]) < 0) m = i;
  VS<T, S> r;
  for (std::size_t i = 0; i < v.size(); ++i) r.push_back(v[(m + i) % v.size()]);
  return r;
}
// integer multiples of a unit, some of them moved slightly: exact in all computations
template <typename T> static T gunit(G& g) { return std::ldexp(T(1), g.flip() ? 0 : static_cast<int>(g.range(-20, 20))); }
template <typename T, std::size_t S> static vm::vec<T, S> uvec(G& g, const long k, const T unit, const bool slight = false) {
  auto v = ivec<T, S>(g, k);
  if (sizeof(T) == 8 && slight) for (std::size_t i = 0; i < S; ++i) if (g.one_in(4)) v.v[i] += static_cast<T>(g.zint(1)) * T(0x1p-16);
  for (std::size_t i = 0; i < S; ++i) v.v[i] *= unit;
  return v;
}
static int sgn(int i) { return (i > 0) - (i < 0); }
template <typename T, std::size_t S> static vm::mat<T, S + 1, S + 1> gtrans(G& g) {
  auto m = imat<T, S + 1, S + 1>(g, 3);
  for (std::size_t j = 0; j < S; ++j) m.v[j].v[S] = 0;
  m.v[S].v[S] = 1;
  return m;
}
template <typename T, std::size_t S> static vm::vec<T, S> map(const vm::mat<T, S + 1, S + 1>& m, const vm::vec<T, S>& p) {
  vm::vec<T, S> r;
  for (std::size_t i = 0; i < S; ++i) { T s = m.v[S].v[i]; for (std::size_t j = 0; j < S; ++j) s += m.v[j].v[i] * p.v[j]; r.v[i] = s; }
  return r;
}

template <typename T, std::size_t S> static void segments(G& g) {
  const long k = g.pick<long>({1, 2, 10});
  const T unit = gunit<T>(g);
  const bool slight = g.one_in(3);
  const auto a = uvec<T, S>(g, k, unit, slight), b = g.one_in(8) ? a : uvec<T, S>(g, k, unit, slight), d = uvec<T, S>(g, 10, unit);
  auto c = uvec<T, S>(g, k, unit, slight), e = uvec<T, S>(g, k, unit, slight);
  if (g.flip()) c = a;
  if (g.flip()) e = b;
  auto m = gtrans<T, S>(g);
  for (std::size_t i = 0; i < S; ++i) m.v[S].v[i] *= unit;
  g.note("a", a); g.note("b", b); g.note("c", c); g.note("e", e); g.note("d", d); g.note("m", m);
  const bool ordered = lex(a, b) <= 0;
  const auto lo = ordered ? a : b, hi = ordered ? b : a;
  g.nontrivial(lex(a, b) != 0);
  using Seg = vm::segment<T, S>;
  const Seg s(a, b), r(b, a), o(c, e);
  const auto is = [](const Seg& x, const vm::vec<T, S>& p, const vm::vec<T, S>& q) {
    return vsame(x.start(), lex(p, q) <= 0 ? p : q) && vsame(x.end(), lex(p, q) <= 0 ? q : p);
  };
  REQUIRE(is(s, a, b) && is(r, a, b), "the end points of the segment are " << s.start() << " and " << s.end());
  REQUIRE(s == r && !(s != r), "a segment and its reversal are different");
  REQUIRE(is(s.translate(d), a + d, b + d) && is(vm::translate(s, d), a + d, b + d), "translated segment " << s.translate(d).start() << " " << s.translate(d).end());
  const auto wm = weighted(g, m);
  REQUIRE(is(s.transform(wm), map<T, S>(m, a), map<T, S>(m, b)), "transformed segment " << s.transform(wm).start() << " " << s.transform(wm).end());
  REQUIRE(vsame(s.get_origin(), lo), "the origin of the segment is " << s.get_origin());
  for (std::size_t i = 0; i < S; ++i) REQUIRE(s.center().v[i] == (a.v[i] + b.v[i]) / 2, "the center of the segment is " << s.center());
  const R len = rlen(ref(b) - ref(a));
  REQUIRE(s.squared_length() == rdot(ref(b) - ref(a), ref(b) - ref(a)), "squared length is " << s.squared_length());
  REQUIRE(near(s.length(), len, 4 * eps<T>() * len), "length is " << s.length());
  if (len > 0) REQUIRE(vnear(s.direction(), runit(ref(hi) - ref(lo)), 8 * eps<T>()) && vsame(s.direction(), s.get_direction()), "direction is " << s.direction());
  { // with all the digits
    const auto p = numvec<T, S>(g, 50), q = numvec<T, S>(g, 50);
    const Seg t(p, q);
    const R l = rlen(ref(q) - ref(p)), tol = 16 * eps<T>() * (rlen(ref(p)) + rlen(ref(q)));
    g.note("p", p); g.note("q", q);
    REQUIRE(near(t.length(), l, tol) && near(t.length_c(), l, tol), "length is " << t.length() << " instead of " << l);
    REQUIRE(near(t.squared_length(), l * l, 4 * tol * (l + tol)), "squared length is " << t.squared_length() << " instead of " << l * l);
    if (l > 0) REQUIRE(vnear(t.direction(), runit(lex(p, q) <= 0 ? ref(q) - ref(p) : ref(p) - ref(q)), 8 * eps<T>() + 4 * tol / l), "direction is " << t.direction());
    REQUIRE(vnear(t.center(), (ref(p) + ref(q)) * 0.5L, tol), "center is " << t.center());
  }
  // total order, by start point and then by end point
  const VS<T, S> x{lo, hi}, y{lex(c, e) <= 0 ? c : e, lex(c, e) <= 0 ? e : c};
  const int want = lexs(x, y);
  g.label(want == 0 ? "equal" : "different");
  REQUIRE(sgn(vm::compare(s, o)) == want && sgn(vm::compare(o, s)) == -want, "compare gives " << vm::compare(s, o));
  const T small = unit * T(0x1p-17); // less than any difference
  REQUIRE(sgn(vm::compare(s, o, small)) == want, "compare with an epsilon gives " << vm::compare(s, o, small));
  REQUIRE((s < o) == (want < 0) && (s <= o) == (want <= 0) && (s > o) == (want > 0) && (s >= o) == (want >= 0) && (s == o) == (want == 0) && (s != o) == (want != 0), "comparison operators");
  REQUIRE(vm::is_equal(s, o, T(0)) == (want == 0), "is_equal");
  VS<T, S> out;
  const std::vector<Seg> l{s, o};
  Seg::get_vertices(l.begin(), l.end(), std::back_inserter(out));
  REQUIRE(out.size() == 4 && lexs(out, VS<T, S>{x[0], x[1], y[0], y[1]}) == 0, "get_vertices");
  REQUIRE(is(Seg(), vm::vec<T, S>(), vm::vec<T, S>()), "the default segment");
}
TEST(segments, 1500000) {
  switch (g.choice(6)) {
    case 0: segments<double, 3>(g); break;
    case 1: segments<float, 3>(g); break;
    case 2: segments<double, 2>(g); break;
    case 3: segments<double, 4>(g); break;
    case 4: segments<double, 1>(g); break;
    default: segments<float, 2>(g); break;
  }
}

// conversion to a type with less precision keeps the order
TEST(segment_conversion, 600000) {
  const auto gp = [&] { return gvec<double, 3>([&] { return 1.0 + static_cast<double>(g.zint(3)) * 0x1p-40 + static_cast<double>(g.zint(1)); }); };
  const auto a = gp(), b = gp();
  g.note("a", a); g.note("b", b);
  const vm::segment<float, 3> f(vm::segment<double, 3>(a, b));
  vm::vec<float, 3> p, q;
  for (int i = 0; i < 3; ++i) { p.v[i] = static_cast<float>(a.v[i]); q.v[i] = static_cast<float>(b.v[i]); }
  g.nontrivial((lex(a, b) > 0) != (lex(p, q) > 0));
  if (lex(p, q) > 0) std::swap(p, q);
  REQUIRE(vsame(f.start(), p) && vsame(f.end(), q), "converted segment from " << f.start() << " to " << f.end());
  REQUIRE(f == (vm::segment<float, 3>(p, q)), "a converted segment differs from the segment of the converted points");
}

template <typename T, std::size_t S> static VS<T, S> gverts(G& g, long k, const T unit = T(1), const bool slight = false) {
  VS<T, S> v;
  const auto n = count(g, 7);
  for (std::size_t i = 0; i < n; ++i) {
    const auto p = uvec<T, S>(g, n < 7 ? k : 1000, unit, slight);
    if (std::none_of(v.begin(), v.end(), [&](const auto& q) { return lex(p, q) == 0; })) v.push_back(p);
  }
  return v;
}
template <typename T, std::size_t S> static void polygons(G& g) {
  using Poly = vm::polygon<T, S>;
  const long k = g.pick<long>({1, 2, 10});
  const T unit = gunit<T>(g);
  const bool slight = g.one_in(3);
  const auto v = gverts<T, S>(g, k, unit, slight);
  const auto n = v.size();
  auto w = g.flip() ? v : gverts<T, S>(g, k, unit, slight);
  switch (g.choice(5)) { // a polygon related to the first one
    case 0: break;
    case 1: std::reverse(w.begin(), w.end()); break;
    case 2: if (!w.empty()) std::rotate(w.begin(), w.begin() + static_cast<long>(g.below(w.size())), w.end()); break;
    case 3: if (!w.empty()) w.pop_back(); break;
    default: if (!w.empty()) { auto& e = w[g.below(w.size())]; auto ne = uvec<T, S>(g, k, unit, slight); if (sizeof(T) == 8 && g.flip()) { ne = e; ne.v[g.below(S)] += unit * T(0x1p-16); } if (std::none_of(w.begin(), w.end(), [&](const auto& q) { return lex(ne, q) == 0; })) e = ne; }
  }
  const auto d = uvec<T, S>(g, 10, unit);
  auto m = gtrans<T, S>(g);
  for (std::size_t i = 0; i < S; ++i) m.v[S].v[i] *= unit;
  g.note("v", v); g.note("w", w); g.note("d", d); g.note("m", m);
  g.nontrivial(n > 2);
  const auto c = canonical(v), cw = canonical(w);
  const Poly p(v), q(w);
  const auto is = [](const Poly& x, const VS<T, S>& y) { return lexs(x.vertices(), y) == 0 && x.vertexCount() == y.size(); };
  REQUIRE(is(p, c) && is(q, cw), "the polygon has vertices " << (p.vertices().empty() ? vm::vec<T, S>() : p.vertices()[0]) << "...");
  auto tmp = v;
  REQUIRE(is(Poly(std::move(tmp)), c), "constructed from an rvalue");
  if (n == 3) REQUIRE(is(Poly{v[0], v[1], v[2]}, c), "constructed from a list");
  REQUIRE(lexs(VS<T, S>(p.begin(), p.end()), c) == 0, "iterating visits other vertices");
  REQUIRE(lexs(VS<T, S>(p.rbegin(), p.rend()), VS<T, S>(c.rbegin(), c.rend())) == 0, "iterating in reverse does not visit the vertices in reverse order");
  if (n > 0) {
    auto rot = v;
    std::rotate(rot.begin(), rot.begin() + static_cast<long>(g.below(n)), rot.end());
    REQUIRE(Poly(rot) == p, "the polygon depends on the vertex it starts at");
    rv<S> sum;
    for (const auto& x : v) sum = sum + ref(x);
    REQUIRE(vnear(p.center(), sum * (R(1) / n), 16 * eps<T>() * (2 + k * n) * unit * (n < 7 ? 1 : 1000)), "center is " << p.center());
    for (const auto& x : v) REQUIRE(p.hasVertex(x), "vertex " << x << " is missing");
  }
  auto probe = uvec<T, S>(g, k, unit);
  if (n > 0 && g.one_in(3)) { probe = v[g.below(n)]; auto& x = probe.v[g.below(S)]; x = ulps(x, g.zint(2)); } // next to a vertex
  REQUIRE(p.hasVertex(probe) == std::any_of(v.begin(), v.end(), [&](const auto& x) { return lex(x, probe) == 0; }), "hasVertex(" << probe << ")");
  const auto rev = canonical(VS<T, S>(v.rbegin(), v.rend()));
  REQUIRE(is(p.invert(), rev), "invert does not reverse the vertices");
  REQUIRE(p.invert().invert() == p, "inverting twice gives another polygon");
  VS<T, S> moved, mapped;
  for (const auto& x : v) { moved.push_back(x + d); mapped.push_back(map<T, S>(m, x)); }
  REQUIRE(is(p.translate(d), canonical(moved)), "translate");
  bool distinct = true; // a singular matrix may merge vertices
  for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < i; ++j) distinct = distinct && lex(mapped[i], mapped[j]) != 0;
  if (distinct) REQUIRE(is(p.transform(weighted(g, m)), canonical(mapped)), "transform");
  // order
  const int want = lexs(c, cw);
  const T small = unit * T(0x1p-17); // less than any difference
  REQUIRE(sgn(vm::compare(p, q)) == want && sgn(vm::compare(q, p)) == -want, "compare gives " << vm::compare(p, q) << " instead of " << want);
  REQUIRE(sgn(vm::compare(p, q, small)) == want, "compare with an epsilon gives " << vm::compare(p, q, small));
  REQUIRE((p < q) == (want < 0) && (p <= q) == (want <= 0) && (p > q) == (want > 0) && (p >= q) == (want >= 0) && (p == q) == (want == 0) && (p != q) == (want != 0), "comparison operators");
  REQUIRE(vm::isEqual(p, q, T(0)) == (want == 0), "isEqual");
  // unoriented comparison: 0 for the same polygon in either direction, antisymmetric
  const bool same = want == 0 || lexs(canonical(VS<T, S>(w.rbegin(), w.rend())), c) == 0;
  const int u = vm::compareUnoriented(p, q), u2 = vm::compareUnoriented(q, p);
  g.label(want == 0 ? "equal" : same ? "reversed" : "different");
  REQUIRE((u == 0) == same, "compareUnoriented gives " << u << " for polygons that are " << (same ? "equal" : "different"));
  REQUIRE(sgn(u) == -sgn(u2), "compareUnoriented gives " << u << " and " << u2);
  if (c.size() < cw.size()) REQUIRE(u < 0, "compareUnoriented gives " << u << " for a polygon with fewer vertices");
  else if (c.size() == cw.size() && !same) REQUIRE(sgn(u) == want, "compareUnoriented gives " << u << " but the first different vertices compare as " << want);
  REQUIRE(sgn(vm::compareUnoriented(p, q, small)) == sgn(u), "compareUnoriented with an epsilon gives " << vm::compareUnoriented(p, q, small));
  VS<T, S> out, both = c;
  both.insert(both.end(), cw.begin(), cw.end());
  const std::vector<Poly> l{p, q};
  Poly::get_vertices(l.begin(), l.end(), std::back_inserter(out));
  REQUIRE(lexs(out, both) == 0, "get_vertices");
  REQUIRE(Poly().vertexCount() == 0, "the default polygon");
}
TEST(polygons, 1000000) {
  switch (g.choice(5)) {
    case 0: polygons<double, 3>(g); break;
    case 1: polygons<float, 3>(g); break;
    case 2: polygons<double, 2>(g); break;
    case 3: polygons<double, 4>(g); break;
    default: polygons<float, 2>(g); break;
  }
}

TEST(polygon_conversion, 500000) {
  VS<double, 3> v;
  for (auto n = g.below(6); n > 0; --n) v.push_back(gvec<double, 3>([&] { return 1.0 + static_cast<double>(g.zint(3)) * 0x1p-40 + static_cast<double>(g.zint(1)); }));
  g.note("v", v);
  VS<float, 3> w;
  for (const auto& p : v) { vm::vec<float, 3> q; for (int i = 0; i < 3; ++i) q.v[i] = static_cast<float>(p.v[i]); w.push_back(q); }
  for (std::size_t i = 0; i < w.size(); ++i) for (std::size_t j = 0; j < i; ++j) if (lex(w[i], w[j]) == 0) return; // coinciding vertices
  g.nontrivial(v.size() > 1);
  const vm::polygon<float, 3> f((vm::polygon<double, 3>(v)));
  REQUIRE(lexs(f.vertices(), canonical(w)) == 0, "a converted polygon does not start with its smallest vertex");
  REQUIRE(f == (vm::polygon<float, 3>(w)), "a converted polygon differs from the polygon of the converted vertices");
}

// comparison with an epsilon, of shapes whose vertices are moved by at most, or by slightly more than epsilon
template <typename T, std::size_t S> static int near_cmp(const vm::vec<T, S>& a, const vm::vec<T, S>& b, const T e) {
  for (std::size_t i = 0; i < S; ++i) if (std::fabs(a.v[i] - b.v[i]) > e) return a.v[i] < b.v[i] ? -1 : 1;
  return 0;
}
template <typename T, std::size_t S> static void tolerant(G& g) {
  const T unit = gunit<T>(g);
  const T e = unit * static_cast<T>(g.range(0, 16)) / T(64); // less than half of the distance of two vertices
  const auto v = gverts<T, S>(g, g.pick<long>({1, 2, 10}), unit);
  auto w = v;
  if (g.one_in(4) && !w.empty()) w.pop_back();
  for (auto& p : w) for (std::size_t i = 0; i < S; ++i) {
    const auto c = g.choice(12);
    if (c > 10) p.v[i] += (g.flip() ? T(1) : T(-1)) * (e + unit / T(128));
    else if (c > 4) p.v[i] += e * static_cast<T>(g.zint(4)) / T(4);
  }
  const bool reversed = g.flip();
  if (reversed) std::reverse(w.begin(), w.end());
  if (!w.empty()) std::rotate(w.begin(), w.begin() + static_cast<long>(g.below(w.size())), w.end());
  g.note("v", v); g.note("w", w); g.note("epsilon", e);
  const auto c = canonical(v), d = canonical(w);
  const vm::polygon<T, S> p(v), q(w);
  int want = 0, back = 0; // forward, and against a polygon walked backwards from its first vertex
  for (std::size_t i = 0; i < std::min(c.size(), d.size()); ++i) {
    if (want == 0) want = near_cmp(c[i], d[i], e);
    if (back == 0 && c.size() == d.size()) back = near_cmp(c[i], d[(d.size() - i) % d.size()], e);
  }
  if (want == 0) want = c.size() < d.size() ? -1 : c.size() > d.size() ? 1 : 0;
  const bool same = want == 0 || (c.size() == d.size() && back == 0);
  g.label(want == 0 ? "equal" : same ? "reversed" : "different");
  g.nontrivial(e > 0 && c.size() > 2);
  REQUIRE(sgn(vm::compare(p, q, e)) == want && sgn(vm::compare(q, p, e)) == -want, "compare gives " << vm::compare(p, q, e) << " instead of " << want);
  REQUIRE(vm::isEqual(p, q, e) == (want == 0) && vm::isEqual(q, p, e) == (want == 0), "isEqual");
  const int u = vm::compareUnoriented(p, q, e), u2 = vm::compareUnoriented(q, p, e);
  REQUIRE((u == 0) == same && sgn(u2) == -sgn(u), "compareUnoriented gives " << u << " and " << u2 << " for polygons that are " << (same ? "equal" : "different"));
  if (!same) REQUIRE(sgn(u) == (c.size() == d.size() ? want : c.size() < d.size() ? -1 : 1), "compareUnoriented gives " << u);
  if (c.size() >= 2 && d.size() >= 2) {
    const vm::segment<T, S> s(c[0], c[1]), t(d[0], d[1]);
    const bool sc = lex(c[0], c[1]) <= 0, sd = lex(d[0], d[1]) <= 0;
    int sw = near_cmp(sc ? c[0] : c[1], sd ? d[0] : d[1], e);
    if (sw == 0) sw = near_cmp(sc ? c[1] : c[0], sd ? d[1] : d[0], e);
    REQUIRE(sgn(vm::compare(s, t, e)) == sw && sgn(vm::compare(t, s, e)) == -sw, "comparing segments gives " << vm::compare(s, t, e) << " instead of " << sw);
    REQUIRE(vm::is_equal(s, t, e) == (sw == 0), "is_equal of segments");
  }
}
TEST(tolerant, 1000000) {
  switch (g.choice(4)) {
    case 0: tolerant<double, 3>(g); break;
    case 1: tolerant<float, 3>(g); break;
    case 2: tolerant<double, 2>(g); break;
    default: tolerant<float, 2>(g); break;
  }
}
