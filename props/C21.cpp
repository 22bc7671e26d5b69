// Convex hulls of coplanar points
#include "geo.h"
#include <set>
#include <vecmath/convex_hull.h>

struct P2 {
  long x, y;
  bool operator<(const P2& o) const { return x != o.x ? x < o.x : y < o.y; }
  bool operator==(const P2& o) const { return x == o.x && y == o.y; }
};
static long cross(const P2& a, const P2& b, const P2& c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }

// strict hull, counter-clockwise (monotone chain); empty if the points are colinear
static std::vector<P2> reference(std::vector<P2> p) {
  std::sort(p.begin(), p.end());
  p.erase(std::unique(p.begin(), p.end()), p.end());
  if (p.size() < 3) return {};
  std::vector<P2> h;
  for (int pass = 0; pass < 2; ++pass) {
    const std::size_t start = h.size();
    for (const auto& q : p) {
      while (h.size() >= start + 2 && cross(h[h.size() - 2], h.back(), q) <= 0) h.pop_back();
      h.push_back(q);
    }
    h.pop_back();
    std::reverse(p.begin(), p.end());
  }
  return h.size() < 3 ? std::vector<P2>{} : h;
}

static std::vector<P2> gen_points(G& g, const long k) {
  std::vector<P2> v;
  const std::size_t n = g.one_in(300) ? 50 + g.below(300) : count(g, 15);
  switch (g.choice(5)) {
    case 0: { // on a line, and a few others
      const P2 o{g.zint(k / 2), g.zint(k / 2)}, d{g.zint(2), g.zint(2)};
      const long others = g.range(0, 2);
      for (std::size_t i = 0; i < n; ++i) { const long t = g.zint(k / 5 + 1); v.push_back({o.x + t * d.x, o.y + t * d.y}); }
      for (long i = 0; i < others; ++i) v.push_back({g.zint(k), g.zint(k)});
      break;
    }
    case 1: // on the border of a rectangle
      for (std::size_t i = 0; i < n; ++i) {
        const long s = g.flip() ? k : -k, t = g.zint(k);
        if (g.flip()) v.push_back({s, t}); else v.push_back({t, s});
      }
      break;
    case 2: // few different points
      for (std::size_t i = 0; i < n; ++i) v.push_back({g.zint(1), g.zint(1)});
      break;
    case 3: // few rows
      for (std::size_t i = 0; i < n; ++i) v.push_back({g.zint(k), g.zint(1) * (k / 2)});
      break;
    default:
      for (std::size_t i = 0; i < n; ++i) v.push_back({g.zint(k), g.zint(k)});
  }
  if (!v.empty()) { // duplicates
    const std::size_t d = g.below(3);
    for (std::size_t i = 0; i < d; ++i) v.push_back(v[g.below(v.size())]);
    if (g.one_in(4)) v.insert(v.begin(), v[0]);
  }
  for (std::size_t i = v.size(); i > 1; --i) if (g.flip()) std::swap(v[i - 1], v[g.below(i)]);
  return v;
}

template <typename T> static void exact(G& g) {
  const long k = g.pick<long>(sizeof(T) == 8 ? std::initializer_list<long>{2, 5, 12, 1000, 65536} : std::initializer_list<long>{2, 5, 12});
  auto pts = gen_points(g, k);
  if (k >= 1000 && !pts.empty() && g.flip()) {
    g.label("points close to each other");
    const std::size_t m = g.below(4);
    for (std::size_t i = 0; i <= m; ++i) { const auto q = pts[g.below(pts.size())]; pts.insert(pts.begin() + static_cast<long>(g.below(pts.size() + 1)), {q.x + g.zint(1), q.y + g.zint(1)}); }
  }
  // the test for colinearity subtracts products of four lengths, and needs an area of at least 0.0032
  const T unit = k == 65536 ? g.pick<T>({T(1.0 / 65536), T(1.0 / 1024)}) : k == 1000 ? g.pick<T>({T(1), T(1.0 / 1024)}) : g.pick<T>({T(1), T(0.25), T(0.0625), T(4)});
  const std::size_t ax = g.below(3);
  const bool flat = g.flip();
  const long a = flat ? 0 : g.zint(1), b = flat ? 0 : g.zint(1), c = g.zint(20);
  const auto lift = [&](const P2& q) {
    vm::vec<T, 3> r;
    r.v[(ax + 1) % 3] = static_cast<T>(q.x) * unit;
    r.v[(ax + 2) % 3] = static_cast<T>(q.y) * unit;
    r.v[ax] = static_cast<T>(c + a * q.x + b * q.y) * unit;
    return r;
  };
  std::vector<vm::vec<T, 3>> v, want;
  for (const auto& q : pts) v.push_back(lift(q));
  const auto ref_hull = reference(pts);
  for (const auto& q : ref_hull) want.push_back(lift(q));
  g.note("points", v); g.note("hull", want);
  if (unit < T(1) && !want.empty()) {
    long far = 0, area = 0;
    std::vector<P2> furthest;
    const auto d2 = [&](const P2& q) { const long x = q.x - pts[0].x, y = q.y - pts[0].y, z = a * x + b * y; return x * x + y * y + z * z; };
    for (const auto& q : pts) if (const long d = d2(q); d > far) far = d;
    for (const auto& q : pts) if (d2(q) == far) furthest.push_back(q);
    bool thin = false;
    for (const auto& f : furthest) {
      area = 0;
      for (const auto& q : pts) area = std::max(area, std::labs(cross(pts[0], f, q)));
      thin = thin || R(area) * R(unit) * R(unit) < 0.01L;
    }
    if (thin) { g.label("small area, skipped"); return; }
    g.label("scaled");
  }
  g.label(want.empty() ? "none" : want.size() == 3 ? "triangle" : want.size() == 4 ? "quadrilateral" : "more vertices");
  g.nontrivial(!want.empty());
  const auto copy = v;
  const auto got = vm::convex_hull<T>(v);
  for (std::size_t i = 0; i < v.size(); ++i) REQUIRE(vsame(v[i], copy[i]), "the points were changed");
  REQUIRE(got.size() == want.size(), "the hull has " << got.size() << " instead of " << want.size() << " vertices");
  if (want.empty()) return;
  const auto first = [&](const std::vector<vm::vec<T, 3>>& h) {
    std::size_t r = 0;
    while (r < h.size() && !vsame(h[r], got[0])) ++r;
    return r;
  };
  const auto equal = [&](const std::vector<vm::vec<T, 3>>& h) {
    const auto s = first(h);
    if (s == h.size()) return false;
    for (std::size_t i = 0; i < h.size(); ++i) if (!vsame(got[i], h[(s + i) % h.size()])) return false;
    return true;
  };
  auto reversed = want;
  std::reverse(reversed.begin(), reversed.end());
  std::ostringstream o;
  for (const auto& x : got) o << "(" << x << ") ";
  REQUIRE(first(want) < want.size(), "(" << got[0] << ") is not a vertex of the hull: " << o.str());
  if (a == 0 && b == 0) REQUIRE(equal(want), "the hull is " << o.str());
  else REQUIRE(equal(want) || equal(reversed), "the hull is " << o.str());
}
TEST(exact, 2500000) { if (g.flip()) exact<double>(g); else exact<float>(g); }

// coordinates of any precision: the vertices are given points, the hull is convex and encloses all points
template <typename T> static void rounded(G& g) {
  const std::size_t n = g.one_in(200) ? 50 + g.below(200) : 3 + count(g, 28), ax = g.below(3);
  const double size = g.pick<double>({1, 10, 500});
  const T h = num<T>(g, 100);
  const bool round = g.one_in(3);
  std::vector<vm::vec<T, 3>> v;
  for (std::size_t i = 0; i < n; ++i) {
    const R phi = R(g.real(0, 6.283185307179586));
    vm::vec<T, 3> p;
    p.v[(ax + 1) % 3] = static_cast<T>(round ? R(size) * std::cos(phi) : R(g.real(-size, size)));
    p.v[(ax + 2) % 3] = static_cast<T>(round ? R(size) * std::sin(phi) : R(g.real(-size, size)));
    p.v[ax] = h;
    v.push_back(p);
  }
  g.note("points", v);
  const auto X = [&](const vm::vec<T, 3>& p) { return R(p.v[(ax + 1) % 3]); };
  const auto Y = [&](const vm::vec<T, 3>& p) { return R(p.v[(ax + 2) % 3]); };
  const auto side = [&](const vm::vec<T, 3>& a, const vm::vec<T, 3>& b, const vm::vec<T, 3>& c) {
    return (X(b) - X(a)) * (Y(c) - Y(a)) - (X(c) - X(a)) * (Y(b) - Y(a));
  };
  R area = 0;
  for (std::size_t i = 0; i < n; ++i) for (std::size_t j = 0; j < i; ++j) area = std::max(area, std::fabs(side(v[0], v[i], v[j])));
  // the test for colinearity subtracts products of four lengths
  if (area < std::max(0.05L * R(size), 64 * std::sqrt(eps<T>()) * R(size) * R(size))) { g.label("almost colinear, skipped"); return; }
  g.nontrivial();
  const auto got = vm::convex_hull<T>(v);
  REQUIRE(got.size() >= 3, "no hull");
  const R tol = 64 * eps<T>() * R(size) * R(size);
  for (std::size_t i = 0; i < got.size(); ++i) {
    const auto &a = got[i], &b = got[(i + 1) % got.size()];
    REQUIRE(std::any_of(v.begin(), v.end(), [&](const auto& p) { return vsame(p, a); }), "(" << a << ") is none of the points");
    for (std::size_t j = 0; j < i; ++j) REQUIRE(!vsame(got[j], a), "the vertex (" << a << ") appears twice");
    for (const auto& p : v) REQUIRE(side(a, b, p) > -tol, "the point (" << p << ") is outside of the hull");
  }
}
TEST(rounded, 300000) { if (g.flip()) rounded<double>(g); else rounded<float>(g); }
