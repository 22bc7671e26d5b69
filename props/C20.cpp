// Containment of points in polygons: integer coordinates, so that the reference is exact
#include "geo.h"
#include <list>
#include <vecmath/intersection.h>

struct P2 { long x, y; };
static long cross(const P2& a, const P2& b, const P2& c) { return (b.x - a.x) * (c.y - a.y) - (b.y - a.y) * (c.x - a.x); }
static int sgn(long v) { return v > 0 ? 1 : v < 0 ? -1 : 0; }
static bool on_segment(const P2& a, const P2& b, const P2& p) {
  return cross(a, b, p) == 0 && std::min(a.x, b.x) <= p.x && p.x <= std::max(a.x, b.x) && std::min(a.y, b.y) <= p.y && p.y <= std::max(a.y, b.y);
}
static bool meet(const P2& a, const P2& b, const P2& c, const P2& d) { // closed segments have a common point
  if (sgn(cross(a, b, c)) * sgn(cross(a, b, d)) < 0 && sgn(cross(c, d, a)) * sgn(cross(c, d, b)) < 0) return true;
  return on_segment(a, b, c) || on_segment(a, b, d) || on_segment(c, d, a) || on_segment(c, d, b);
}
// no two edges meet, except for the common vertex of successive ones
static bool simple(const std::vector<P2>& v) {
  const auto n = v.size();
  for (std::size_t i = 0; i < n; ++i) {
    const auto &a = v[i], &b = v[(i + 1) % n];
    if (a.x == b.x && a.y == b.y) return false;
    for (std::size_t j = i + 1; j < n; ++j) {
      const auto &c = v[j], &d = v[(j + 1) % n];
      if (j == i + 1 && (i + 2) % n != i) { if (on_segment(a, b, d) || on_segment(c, d, a)) return false; }
      else if ((j + 1) % n == i) { if (on_segment(a, b, c) || on_segment(c, d, b)) return false; }
      else if (meet(a, b, c, d)) return false;
    }
  }
  return true;
}
// -1 outside, 0 on the border, 1 inside: winding number by exact orientation tests
static int where(const std::vector<P2>& v, const P2& p) {
  int w = 0;
  for (std::size_t i = 0; i < v.size(); ++i) {
    const auto &a = v[i], &b = v[(i + 1) % v.size()];
    if (on_segment(a, b, p)) return 0;
    if (a.y <= p.y && b.y > p.y && cross(a, b, p) > 0) ++w;
    if (a.y > p.y && b.y <= p.y && cross(a, b, p) < 0) --w;
  }
  return w != 0 ? 1 : -1;
}

static std::vector<P2> gen_polygon(G& g, long k) {
  std::vector<P2> v;
  switch (g.choice(5)) {
    case 0: { // rectangle
      const long x = g.zint(k), y = g.zint(k), w = g.range(1, k), h = g.range(1, k);
      v = {{x, y}, {x + w, y}, {x + w, y + h}, {x, y + h}};
      break;
    }
    case 1: { // comb: teeth that point up, on a base line
      const long teeth = g.range(1, 4), base = -g.range(1, k / 2 + 1);
      long x = -k;
      v.push_back({x, base});
      std::vector<P2> top;
      for (long t = 0; t < teeth; ++t) {
        const long w = g.range(1, 3), gap = g.range(1, 3), h = g.range(1, k), h2 = g.flip() ? h : g.range(1, k), f = g.range(0, 2);
        top.push_back({x, base + h});
        x += w;
        top.push_back({x, base + h2});
        if (t + 1 < teeth) { top.push_back({x, base + f + (f == 0 ? 1 : 0)}); x += gap; top.push_back({x, base + f + (f == 0 ? 1 : 0)}); }
      }
      v.push_back({x, base});
      for (std::size_t i = top.size(); i-- > 0;) v.push_back(top[i]);
      break;
    }
    case 2: { // star shaped around the origin, in angular order
      const std::size_t n = static_cast<std::size_t>(g.range(3, 9));
      std::vector<P2> c;
      for (std::size_t i = 0; i < n; ++i) {
        const P2 p{g.zint(k), g.zint(k)};
        if (p.x != 0 || p.y != 0) c.push_back(p);
      }
      std::sort(c.begin(), c.end(), [](const P2& a, const P2& b) { return std::atan2(double(a.y), double(a.x)) < std::atan2(double(b.y), double(b.x)); });
      v = c;
      break;
    }
    case 3: { // staircase
      const long n = g.range(1, 5);
      long x = 0, y = 0;
      v.push_back({0, 0});
      for (long i = 0; i < n; ++i) { x += g.range(1, 4); v.push_back({x, y}); y += g.range(1, 4); v.push_back({x, y}); }
      v.push_back({0, y});
      break;
    }
    default: { // any closed path, untangled by reversing parts of it
      const std::size_t n = static_cast<std::size_t>(g.range(3, 8));
      for (std::size_t i = 0; i < n; ++i) v.push_back({g.zint(k), g.zint(k)});
      for (int round = 0; round < 20; ++round) {
        bool changed = false;
        for (std::size_t i = 0; i + 2 < n && !changed; ++i)
          for (std::size_t j = i + 2; j < n && !changed; ++j)
            if (!(i == 0 && j == n - 1) && meet(v[i], v[i + 1], v[j], v[(j + 1) % n])) {
              std::reverse(v.begin() + static_cast<long>(i) + 1, v.begin() + static_cast<long>(j) + 1);
              changed = true;
            }
        if (!changed) break;
      }
    }
  }
  if (v.size() < 3) return {};
  // any axis, mirrored, any orientation, any first vertex
  const bool swap = g.flip(), mx = g.flip(), my = g.flip();
  for (auto& p : v) { if (swap) std::swap(p.x, p.y); if (mx) p.x = -p.x; if (my) p.y = -p.y; }
  std::rotate(v.begin(), v.begin() + static_cast<long>(g.below(v.size())), v.end());
  return v;
}

struct Vertex { char pad; double at[3]; };

template <typename T> static void containment(G& g) {
  const long k = g.pick<long>({2, 4, 8, 20});
  const auto poly = gen_polygon(g, k);
  if (poly.empty() || !simple(poly)) { g.label("not a simple polygon, skipped"); return; }
  P2 p{g.zint(k + 1), g.zint(k + 1)};
  switch (g.choice(6)) {
    case 0: p = poly[g.below(poly.size())]; break;               // a vertex
    case 1: p.y = poly[g.below(poly.size())].y; break;           // level with a vertex
    case 2: p.x = poly[g.below(poly.size())].x; break;
    case 3: {                                                    // on or near an edge
      const auto i = g.below(poly.size());
      const auto &a = poly[i], &b = poly[(i + 1) % poly.size()];
      const long n = g.range(1, 4), d = g.range(0, n);
      p = {a.x + (b.x - a.x) * d / n, a.y + (b.y - a.y) * d / n};
      break;
    }
    case 4: {                                                    // between vertices
      const auto &a = poly[g.below(poly.size())], &b = poly[g.below(poly.size())], &c = poly[g.below(poly.size())];
      p = {(a.x + b.x + c.x) / 3, (a.y + b.y + c.y) / 3};
      break;
    }
    default: break;
  }
  // third coordinate c + a x + b y, so that axis is the major axis of the normal
  const std::size_t ax = g.below(3);
  const bool flat = g.flip();
  const long a = flat ? 0 : g.zint(1), b = flat ? 0 : g.zint(1), c = g.zint(20);
  // points closer than 0.001 to an edge count as being on it: fractions of 1 / (2 k + 2) must stay above that
  const T unit = g.one_in(3) ? T(0.25) : k <= 4 && g.one_in(3) ? T(0.0625) : g.one_in(4) ? T(sizeof(T) == 8 ? 1024 : 16) : T(1);
  if (unit > T(1)) g.label("large polygon");
  if (unit < T(0.25)) g.label("small polygon");
  const long dx = g.flip() ? 0 : g.zint(500), dy = g.flip() ? 0 : g.zint(500);
  const auto lift = [&](const P2& q) {
    vm::vec<T, 3> r;
    r.v[(ax + 1) % 3] = static_cast<T>(q.x + dx) * unit;
    r.v[(ax + 2) % 3] = static_cast<T>(q.y + dy) * unit;
    r.v[ax] = static_cast<T>(c + a * q.x + b * q.y) * unit;
    return r;
  };
  std::vector<vm::vec<T, 3>> v;
  for (const auto& q : poly) v.push_back(lift(q));
  const auto pt = lift(p);
  g.note("polygon", v); g.note("point", pt); g.note("axis", ax);
  const int w = where(poly, p);
  bool level = false;
  for (const auto& q : poly) level = level || q.y == p.y;
  g.label(w == 0 ? "on the border" : w > 0 ? "inside" : "outside");
  if (level && w != 0) g.label("level with a vertex");
  g.nontrivial(w >= 0 || level);
  const bool want = w >= 0;
  REQUIRE(vm::polygon_contains_point(pt, static_cast<vm::axis::type>(ax), v.begin(), v.end()) == want, "with the major axis: should be " << (want ? "contained" : "outside"));
  vm::vec<T, 3> n;
  n.v[(ax + 1) % 3] = static_cast<T>(-a); n.v[(ax + 2) % 3] = static_cast<T>(-b); n.v[ax] = T(1);
  if (g.flip()) n = -n;
  REQUIRE(vm::polygon_contains_point(pt, n, v.begin(), v.end()) == want, "with the normal " << n << ": should be " << (want ? "contained" : "outside"));
  std::list<Vertex> l;
  for (const auto& q : v) l.push_back({1, {double(q.v[0]), double(q.v[1]), double(q.v[2])}});
  const auto get = [](const Vertex& q) { return vm::vec<T, 3>(static_cast<T>(q.at[0]), static_cast<T>(q.at[1]), static_cast<T>(q.at[2])); };
  REQUIRE(vm::polygon_contains_point(pt, n, l.begin(), l.end(), get) == want, "with a mapping function: should be " << (want ? "contained" : "outside"));
  if (cross(poly[0], poly[1], poly[2]) != 0) {
    g.label("normal from the vertices");
    REQUIRE(vm::polygon_contains_point(pt, v.begin(), v.end()) == want, "without a normal: should be " << (want ? "contained" : "outside"));
    REQUIRE(vm::polygon_contains_point(pt, l.begin(), l.end(), get) == want, "with a mapping function and no normal: should be " << (want ? "contained" : "outside"));
  }
}
TEST(containment, 2500000) { if (g.flip()) containment<double>(g); else containment<float>(g); }

// vertices moved by tiny amounts, and more of them: edges that are almost, but not quite, level with the point
template <typename T> static void jagged(G& g) {
  const long k = g.pick<long>({2, 4, 8});
  const auto poly = gen_polygon(g, k);
  if (poly.empty() || !simple(poly)) { g.label("not a simple polygon, skipped"); return; }
  const auto& l = poly[g.below(poly.size())];
  P2 p{g.zint(k + 1), g.zint(k + 1)};
  if (g.one_in(3)) p.x = l.x; else if (g.flip()) p.y = l.y;
  const int w = where(poly, p);
  if (w == 0) { g.label("on the border, skipped"); return; } // further away than 1 / 24 otherwise
  const std::size_t ax = g.below(3);
  const T h = static_cast<T>(g.zint(20));
  const auto tiny = [&] { return static_cast<T>(g.zint(3)) * T(0x1p-13); }; // up to 0.0004
  const auto at = [&](const T x, const T y) { vm::vec<T, 3> r; r.v[(ax + 1) % 3] = x + tiny(); r.v[(ax + 2) % 3] = y + tiny(); r.v[ax] = h; return r; };
  std::vector<vm::vec<T, 3>> v;
  for (std::size_t i = 0; i < poly.size(); ++i) {
    const auto &a = poly[i], &b = poly[(i + 1) % poly.size()];
    const auto n = g.flip() ? std::size_t(0) : g.below(4);
    for (std::size_t j = 0; j <= n; ++j) { const T t = static_cast<T>(j) / static_cast<T>(n + 1); v.push_back(at(static_cast<T>(a.x) + t * static_cast<T>(b.x - a.x), static_cast<T>(a.y) + t * static_cast<T>(b.y - a.y))); }
  }
  const auto pt = at(static_cast<T>(p.x), static_cast<T>(p.y));
  g.note("polygon", v); g.note("point", pt); g.note("axis", ax);
  bool level = false;
  for (const auto& q : poly) level = level || q.y == p.y;
  g.label(w > 0 ? "inside" : "outside");
  g.nontrivial(level);
  const bool want = w > 0;
  REQUIRE(vm::polygon_contains_point(pt, static_cast<vm::axis::type>(ax), v.begin(), v.end()) == want, "with the major axis: should be " << (want ? "contained" : "outside"));
  vm::vec<T, 3> n;
  n.v[ax] = g.flip() ? T(1) : T(-1);
  REQUIRE(vm::polygon_contains_point(pt, n, v.begin(), v.end()) == want, "with the normal " << n << ": should be " << (want ? "contained" : "outside"));
}
TEST(jagged, 1500000) { if (g.flip()) jagged<double>(g); else jagged<float>(g); }

// polygons of more than a million units, and points one unit away from their edges: nothing of it fits a narrower type
static void large(G& g) {
  auto poly = gen_polygon(g, g.pick<long>({2, 4, 8}));
  if (poly.empty()) return;
  const long size = 1L << g.range(10, 24);
  for (auto& p : poly) { p.x = p.x * size + g.zint(size / 4); p.y = p.y * size + g.zint(size / 4); }
  if (!simple(poly)) { g.label("not a simple polygon, skipped"); return; }
  const auto at = g.below(poly.size());
  const auto &a = poly[at], &b = poly[(at + 1) % poly.size()];
  const long t = g.range(0, 1024);
  const P2 p{a.x + (b.x - a.x) / 1024 * t + g.zint(2), a.y + (b.y - a.y) / 1024 * t + g.zint(2)};
  for (std::size_t i = 0; i < poly.size(); ++i) { // closer than 0.001 along an axis counts as being on the edge
    const auto &c = poly[i], &d = poly[(i + 1) % poly.size()];
    const R x = std::fabs(R(cross(c, d, p)));
    if (x < 0.01L * std::fabs(R(d.x - c.x)) || x < 0.01L * std::fabs(R(d.y - c.y))) { g.label("on an edge, skipped"); return; }
  }
  const std::size_t ax = g.below(3);
  const auto lift = [&](const P2& q) {
    vm::vec<double, 3> r;
    r.v[(ax + 1) % 3] = double(q.x); r.v[(ax + 2) % 3] = double(q.y); r.v[ax] = 0.5;
    return r;
  };
  std::vector<vm::vec<double, 3>> v;
  for (const auto& q : poly) v.push_back(lift(q));
  const auto pt = lift(p);
  g.note("polygon", v); g.note("point", pt); g.note("axis", ax);
  const bool want = where(poly, p) > 0;
  g.nontrivial();
  g.label(want ? "inside" : "outside");
  REQUIRE(vm::polygon_contains_point(pt, static_cast<vm::axis::type>(ax), v.begin(), v.end()) == want, "with the major axis: should be " << (want ? "contained" : "outside"));
  REQUIRE(vm::polygon_contains_point(pt, vm::vec<double, 3>::axis(ax), v.begin(), v.end()) == want, "with the normal: should be " << (want ? "contained" : "outside"));
}
TEST(large, 500000) { large(g); }

// regular and irregular polygons of any size and direction: points well inside or outside
template <typename T> static void oblique(G& g) {
  rv<3> n = ref(unitvec<double, 3>(g)), u = rcross(n, ref(unitvec<double, 3>(g)));
  if (rlen(u) < 0.1L) { n = {{0, 0, 1}}; u = {{1, 0, 0}}; }
  n = runit(n); u = runit(u);
  const auto v = rcross(n, u);
  const auto c = ref(numvec<double, 3>(g, 100));
  const std::size_t k = 3 + count(g, 14);
  const R ra = R(g.real(1, 100)), phase = R(g.real(0, 6.3));
  std::vector<std::array<R, 2>> f;
  for (std::size_t i = 0; i < k; ++i) {
    const R ang = phase + 6.283185307179586L * (R(i) + R(g.real(-0.3, 0.3))) / R(k), rad = ra * R(g.real(0.2, 1));
    f.push_back({rad * std::cos(ang), rad * std::sin(ang)});
  }
  std::vector<vm::vec<T, 3>> poly;
  for (const auto& p : f) { const auto x = c + u * p[0] + v * p[1]; vm::vec<T, 3> q; for (int i = 0; i < 3; ++i) q.v[i] = static_cast<T>(x[i]); poly.push_back(q); }
  const R px = R(g.real(-1, 1)) * ra, py = R(g.real(-1, 1)) * ra;
  const auto x = c + u * px + v * py;
  vm::vec<T, 3> q, tn;
  for (int i = 0; i < 3; ++i) { q.v[i] = static_cast<T>(x[i]); tn.v[i] = static_cast<T>(n[i]); }
  g.note("polygon", poly); g.note("point", q); g.note("normal", tn);
  bool in = false;
  R border = 1e9L;
  for (std::size_t i = 0; i < k; ++i) {
    const auto &a = f[i], &b = f[(i + 1) % k];
    if ((a[1] > py) != (b[1] > py) && px < a[0] + (py - a[1]) * (b[0] - a[0]) / (b[1] - a[1])) in = !in;
    const R dx = b[0] - a[0], dy = b[1] - a[1], t = std::min<R>(1, std::max<R>(0, ((px - a[0]) * dx + (py - a[1]) * dy) / (dx * dx + dy * dy)));
    border = std::min(border, std::hypot(a[0] + t * dx - px, a[1] + t * dy - py));
  }
  if (border < 0.02L) { g.label("close to the border, skipped"); return; }
  g.nontrivial();
  g.label(in ? "inside" : "outside");
  REQUIRE(vm::polygon_contains_point(q, tn, poly.begin(), poly.end()) == in, "should be " << (in ? "contained" : "outside") << " by " << border);
  REQUIRE(vm::polygon_contains_point(q, -tn, poly.rbegin(), poly.rend()) == in, "reversed: should be " << (in ? "contained" : "outside") << " by " << border);
}
TEST(oblique, 1000000) { if (g.flip()) oblique<double>(g); else oblique<float>(g); }
