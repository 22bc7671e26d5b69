// Bounding boxes: corners, edges and faces; transformed boxes
#include "matgeo.h"
#include <vecmath/bbox.h>
#include <vecmath/bbox_io.h>
#include <vecmath/mat_ext.h>
#include <set>

template <typename T> using V = vm::vec<T, 3>;
template <typename T> using key = std::array<T, 3>;
template <typename T> static key<T> k(const V<T>& v) { return {v.v[0], v.v[1], v.v[2]}; }

template <typename T> static vm::bbox<T, 3> gbox(G& g, const T unit = T(1)) {
  V<T> lo, hi;
  for (int i = 0; i < 3; ++i) {
    lo.v[i] = static_cast<T>(g.zint(40)) / T(4) * unit;
    hi.v[i] = lo.v[i] + static_cast<T>(g.range(1, 60)) / T(4) * unit;
  }
  return vm::bbox<T, 3>(lo, hi);
}
// coordinates of any magnitude, so that the size of the box is rounded
template <typename T> static vm::bbox<T, 3> wild(G& g) {
  V<T> lo, hi;
  for (int i = 0; i < 3; ++i) {
    const auto value = [&]() -> T { switch (g.choice(3)) { case 0: return grid<T>(g); case 1: return num<T>(g); default: return logscale<T>(g, -20, 20); } };
    T a = value(), b = value();
    if (a == b) b = a + (std::fabs(a) < 1 ? T(1) : std::fabs(a));
    lo.v[i] = std::min(a, b);
    hi.v[i] = std::max(a, b);
  }
  return vm::bbox<T, 3>(lo, hi);
}
template <typename T> static void parts(G& g) {
  const bool any = g.flip();
  const auto b = any ? wild<T>(g) : gbox<T>(g);
  g.label(any ? "any magnitude" : "grid");
  g.note("min", b.min); g.note("max", b.max);
  g.nontrivial();
  std::multiset<key<T>> corners;
  for (int i = 0; i < 8; ++i) { V<T> c; for (int j = 0; j < 3; ++j) c.v[j] = (i >> j & 1) ? b.max.v[j] : b.min.v[j]; corners.insert(k(c)); }
  std::multiset<key<T>> seen;
  b.for_each_vertex([&](const V<T>& v) { seen.insert(k(v)); });
  REQUIRE(seen == corners, "for_each_vertex does not visit every corner once");
  seen.clear();
  for (const auto& v : b.vertices()) seen.insert(k(v));
  REQUIRE(seen == corners, "vertices() does not return every corner once");
  // edges: the 12 pairs of corners that differ in one coordinate, once each
  std::multiset<std::set<key<T>>> edges, want;
  const std::vector<key<T>> cs(corners.begin(), corners.end());
  for (const auto& p : cs) for (const auto& q : cs) {
    int diff = 0;
    for (int i = 0; i < 3; ++i) diff += p[i] != q[i];
    if (p < q && diff == 1) want.insert({p, q});
  }
  b.for_each_edge([&](const V<T>& p, const V<T>& q) { edges.insert({k(p), k(q)}); });
  REQUIRE(want.size() == 12 && edges == want, "for_each_edge does not visit every edge once");
  // faces: one per direction, its four corners clockwise when seen from outside
  std::multiset<key<T>> normals;
  b.for_each_face([&](const V<T>& p0, const V<T>& p1, const V<T>& p2, const V<T>& p3, const V<T>& n) {
    normals.insert(k(n));
    int ax = -1;
    for (int i = 0; i < 3; ++i) if (n.v[i] != 0) { REQUIRE(ax < 0 && std::fabs(n.v[i]) == 1, "normal " << n); ax = i; }
    REQUIRE(ax >= 0, "normal " << n);
    const T side = n.v[ax] > 0 ? b.max.v[ax] : b.min.v[ax];
    std::set<key<T>> ps;
    for (const auto* p : {&p0, &p1, &p2, &p3}) { REQUIRE(p->v[ax] == side && corners.count(k(*p)), "corner " << *p << " of the face with normal " << n); ps.insert(k(*p)); }
    REQUIRE(ps.size() == 4, "the face with normal " << n << " has only " << ps.size() << " corners");
    const V<T> ps4[4] = {p0, p1, p2, p3};
    for (int i = 0; i < 4; ++i) {
      const auto c = rcross(ref(ps4[(i + 1) % 4]) - ref(ps4[i]), ref(ps4[(i + 2) % 4]) - ref(ps4[(i + 1) % 4]));
      REQUIRE(rdot(c, ref(n)) < 0, "the corners of the face with normal " << n << " are not in clockwise order");
    }
  });
  REQUIRE(normals.size() == 6 && std::set<key<T>>(normals.begin(), normals.end()).size() == 6, "for_each_face does not visit every face once");
}
TEST(parts, 300000) { if (g.flip()) parts<double>(g); else parts<float>(g); }

// the transformed box is the smallest one around the transformed corners
template <typename T> static void transformed(G& g) {
  bool exact = g.flip(), persp = false;
  const bool scaled = exact && g.one_in(3);
  const T unit = scaled ? static_cast<T>(std::ldexp(1.0, static_cast<int>(g.range(-20, 20)))) : T(1);
  const auto b = gbox<T>(g, unit);
  vm::mat<T, 4, 4> m;
  if (exact) {
    m = imat<T, 4, 4>(g, 6);
    for (int j = 0; j < 3; ++j) m.v[j].v[3] = 0;
    m.v[3].v[3] = 1;
    if (scaled) {
      g.label("scaled");
      const T f = static_cast<T>(std::ldexp(1.0, static_cast<int>(g.zint(20))));
      for (int j = 0; j < 4; ++j) for (int i = 0; i < 3; ++i) m.v[j].v[i] *= j == 3 ? f * unit : f;
    } else if (g.one_in(4)) { // a perspective transformation, the corners have weights of their own
      exact = false;
      persp = true;
      for (int j = 0; j < 4; ++j) m.v[j].v[3] = static_cast<T>(g.zint(3));
      g.label("perspective");
    }
  } else if (g.one_in(4)) { // almost the identity
    const std::size_t n = 1 + g.below(3);
    for (std::size_t i = 0; i < n; ++i) m.v[g.below(4)].v[g.below(3)] += logscale<T>(g, -20, -6);
    g.label("almost the identity");
  } else {
    m = vm::translation_matrix(gridvec<T, 3>(g)) * vm::rotation_matrix(unitvec<T, 3>(g), static_cast<T>(g.real(-6, 6))) * vm::scaling_matrix(V<T>(1, 2, static_cast<T>(g.real(-2, 2))));
  }
  g.note("min", b.min); g.note("max", b.max); g.note("m", m);
  rv<3> lo, hi;
  const auto M = mref(m);
  for (int c = 0; c < 8; ++c) {
    rv<4> h;
    for (int j = 0; j < 3; ++j) h[j] = (c >> j & 1) ? b.max.v[j] : b.min.v[j];
    h[3] = 1;
    auto r = M * h;
    if (std::fabs(r[3]) < 0.5L) return; // a corner at infinity
    for (int j = 0; j < 3; ++j) r[j] /= r[3];
    for (int j = 0; j < 3; ++j) { lo[j] = c ? std::min(lo[j], r[j]) : r[j]; hi[j] = c ? std::max(hi[j], r[j]) : r[j]; }
  }
  g.nontrivial();
  const R tol = exact ? 0 : (persp ? 4096 : 64) * eps<T>() * (1 + rmax(lo) + rmax(hi) + 200);
  const auto t = b.transform(weighted(g, m));
  REQUIRE(vnear(t.min, lo, tol) && vnear(t.max, hi, tol), "transform gives " << t << " instead of " << lo << " " << hi);
}
// exchanging and mirroring the axes does not round
template <typename T> static void turned(G& g) {
  const auto b = wild<T>(g);
  int to[3] = {0, 1, 2};
  std::swap(to[0], to[g.below(3)]);
  if (g.flip()) std::swap(to[1], to[2]);
  auto m = vm::mat<T, 4, 4>::zero();
  m.v[3].v[3] = 1;
  V<T> lo, hi;
  for (int i = 0; i < 3; ++i) {
    const bool neg = g.flip();
    m.v[i].v[to[i]] = neg ? T(-1) : T(1);
    lo.v[to[i]] = neg ? -b.max.v[i] : b.min.v[i];
    hi.v[to[i]] = neg ? -b.min.v[i] : b.max.v[i];
  }
  g.note("min", b.min); g.note("max", b.max); g.note("m", m);
  g.nontrivial();
  const auto t = b.transform(weighted(g, m));
  REQUIRE(vexact(t.min, ref(lo)) && vexact(t.max, ref(hi)), "transform gives " << t << " instead of " << lo << " " << hi);
}
TEST(turned, 500000) { if (g.flip()) turned<double>(g); else turned<float>(g); }

TEST(transformed, 1500000) { if (g.flip()) transformed<double>(g); else transformed<float>(g); }
