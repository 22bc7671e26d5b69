// Bounding boxes as sets of points: queries and set operations
#include "geo.h"
#include <vecmath/bbox.h>
#include <vecmath/bbox_io.h>
#include <list>

template <typename T, std::size_t S> using rbox = std::array<std::array<T, 2>, S>; // reference: one closed interval per axis
template <typename T, std::size_t S> static vm::bbox<T, S> mk(const rbox<T, S>& b) {
  vm::vec<T, S> lo, hi;
  for (std::size_t i = 0; i < S; ++i) { lo[i] = b[i][0]; hi[i] = b[i][1]; }
  return vm::bbox<T, S>(lo, hi);
}
template <typename T, std::size_t S> static bool is(const vm::bbox<T, S>& b, const rbox<T, S>& r) {
  for (std::size_t i = 0; i < S; ++i) if (b.min.v[i] != r[i][0] || b.max.v[i] != r[i][1]) return false;
  return true;
}
template <typename T> static T coord(G& g, int scale) {
  if constexpr (std::is_integral_v<T>) { // with the extreme values
    if (scale >= 2) return g.one_in(6) ? (g.flip() ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max()) : static_cast<T>(g.zint(2000000000));
    return static_cast<T>(g.zint(scale ? 8 : 2));
  } else switch (scale) {
    case 0: return static_cast<T>(g.zint(2));
    case 1: return static_cast<T>(g.zint(8)) / T(2);
    case 2: return num<T>(g);
    default: return g.one_in(6) ? (g.flip() ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity()) : logscale<T>(g, -40, 40);
  }
}
template <typename T, std::size_t S> static rbox<T, S> gbox(G& g, int scale) {
  rbox<T, S> r;
  for (auto& i : r) {
    i[0] = coord<T>(g, scale);
    i[1] = g.one_in(6) ? i[0] : coord<T>(g, scale);
    if (i[0] > i[1]) std::swap(i[0], i[1]);
  }
  return r;
}
template <typename T, std::size_t S> static void shownote(G& g, const char* n, const rbox<T, S>& b) {
  std::ostringstream s;
  s.precision(17);
  for (const auto& i : b) s << "[" << i[0] << "," << i[1] << "]";
  g.note(n, s.str());
}
template <typename T, std::size_t S> static bool in(const rbox<T, S>& b, const vm::vec<T, S>& p) {
  for (std::size_t i = 0; i < S; ++i) if (!(b[i][0] <= p.v[i] && p.v[i] <= b[i][1])) return false;
  return true;
}

template <typename T, std::size_t S> static void queries(G& g) {
  const int scale = static_cast<int>(g.choice(4));
  const auto a = gbox<T, S>(g, scale);
  auto b = gbox<T, S>(g, scale);
  if (g.one_in(4)) for (std::size_t i = 0; i < S; ++i) { // inside a, often touching
    if (g.flip()) b[i][0] = a[i][0];
    if (g.flip()) b[i][1] = a[i][1];
    b[i][0] = std::max(b[i][0], a[i][0]);
    b[i][1] = std::max(b[i][0], std::min(b[i][1], a[i][1]));
    if (b[i][1] > a[i][1]) b[i] = a[i];
  }
  auto p = gvec<T, S>([&] { return coord<T>(g, scale); });
  for (std::size_t i = 0; i < S; ++i) if (g.one_in(3)) p.v[i] = a[i][g.below(2)];
  if constexpr (!std::is_integral_v<T>) if (g.one_in(4)) { // a tiny bit aside
    const T to = g.flip() ? std::numeric_limits<T>::infinity() : -std::numeric_limits<T>::infinity();
    auto& i = b[g.below(S)];
    if (g.flip()) i = a[static_cast<std::size_t>(&i - &b[0])];
    auto& x = i[g.below(2)];
    x = std::nextafter(x, to);
    if (i[0] > i[1]) std::swap(i[0], i[1]);
    auto& y = p.v[g.below(S)];
    y = std::nextafter(y, to);
  }
  shownote(g, "a", a); shownote(g, "b", b); g.note("p", p);
  const auto x = mk(a), y = mk(b);
  bool contains = true, encloses = true, meets = true, empty = false, same = true;
  rbox<T, S> hull, common;
  vm::vec<T, S> near;
  for (std::size_t i = 0; i < S; ++i) {
    contains = contains && a[i][0] <= b[i][0] && b[i][1] <= a[i][1];
    encloses = encloses && a[i][0] < b[i][0] && b[i][1] < a[i][1];
    meets = meets && a[i][0] <= b[i][1] && b[i][0] <= a[i][1];
    empty = empty || a[i][0] == a[i][1];
    same = same && a[i] == b[i];
    hull[i] = {std::min(a[i][0], b[i][0]), std::max(a[i][1], b[i][1])};
    common[i] = {std::max(a[i][0], b[i][0]), std::min(a[i][1], b[i][1])};
    near.v[i] = p.v[i] < a[i][0] ? a[i][0] : p.v[i] > a[i][1] ? a[i][1] : p.v[i];
  }
  g.label(contains ? "contained" : meets ? "overlapping" : "disjoint");
  g.nontrivial(meets || !empty);
  REQUIRE(x.is_valid(), "a box is not valid");
  REQUIRE(x.contains(p) == in(a, p), "contains(point) is " << x.contains(p));
  REQUIRE(x.contains(y) == contains, "contains(box) is " << x.contains(y));
  REQUIRE(x.encloses(y) == encloses, "encloses(box) is " << x.encloses(y));
  REQUIRE(x.intersects(y) == meets && y.intersects(x) == meets, "intersects(box) is " << x.intersects(y));
  REQUIRE(x.is_empty() == empty, "is_empty is " << x.is_empty());
  REQUIRE((x == y) == same && (y == x) == same && (x != y) == !same, "equality");
  REQUIRE(x == x && !(x != x), "a box differs from itself");
  REQUIRE(is(vm::merge(x, y), hull) && is(vm::merge(y, x), hull), "merge(box, box) is " << vm::merge(x, y));
  rbox<T, S> withp = a;
  for (std::size_t i = 0; i < S; ++i) withp[i] = {std::min(a[i][0], p.v[i]), std::max(a[i][1], p.v[i])};
  REQUIRE(is(vm::merge(x, p), withp), "merge(box, point) is " << vm::merge(x, p));
  if (!meets) common = {};
  REQUIRE(is(vm::intersect(x, y), common) && is(vm::intersect(y, x), common), "intersect is " << vm::intersect(x, y));
  REQUIRE(vsame(x.constrain(p), near), "constrain gives " << x.constrain(p) << " instead of " << near);
  const auto rel = x.relative_position(p);
  using Range = typename vm::bbox<T, S>::Range;
  for (std::size_t i = 0; i < S; ++i) {
    const auto want = p.v[i] < a[i][0] ? Range::less : p.v[i] > a[i][1] ? Range::greater : Range::within;
    REQUIRE(rel[i] == want, "relative_position of component " << i);
  }
  using Corner = typename vm::bbox<T, S>::Corner;
  Corner c[S];
  vm::vec<T, S> cp;
  for (std::size_t i = 0; i < S; ++i) { const bool m = g.flip(); c[i] = m ? Corner::max : Corner::min; cp.v[i] = a[i][m]; }
  REQUIRE(vsame(x.corner(c), cp), "corner is " << x.corner(c));
  if constexpr (S == 3) REQUIRE(vsame(x.corner(c[0], c[1], c[2]), cp), "corner(x, y, z) is " << x.corner(c[0], c[1], c[2]));
  // swapping some bounds: not valid, and repaired
  auto w = x;
  bool swapped = false;
  for (std::size_t i = 0; i < S; ++i) if (g.flip()) { std::swap(w.min.v[i], w.max.v[i]); swapped = swapped || a[i][0] != a[i][1]; }
  REQUIRE(w.is_valid() == !swapped, "is_valid is " << w.is_valid());
  REQUIRE((vm::bbox<T, S>::is_valid(w.min, w.max)) == !swapped, "is_valid(min, max)");
  REQUIRE(is(vm::repair(w), a), "repair gives " << vm::repair(w));
}
TEST(queries, 2500000) {
  switch (g.choice(7)) {
    case 0: queries<double, 3>(g); break;
    case 1: queries<float, 3>(g); break;
    case 2: queries<double, 2>(g); break;
    case 3: queries<float, 1>(g); break;
    case 4: queries<double, 4>(g); break;
    case 5: queries<int, 3>(g); break;
    default: queries<double, 3>(g); break;
  }
}

// exact arithmetic on the grid: center, size, volume, expansion, translation, constructors, conversions
template <typename T, std::size_t S> static void measures(G& g) {
  const T unit = static_cast<T>(std::ldexp(1.0, g.flip() ? 0 : static_cast<int>(g.range(-20, 20))));
  auto a = gbox<T, S>(g, 1);
  auto d = ivec<T, S>(g, 10);
  for (std::size_t i = 0; i < S; ++i) { a[i][0] *= unit; a[i][1] *= unit; d.v[i] *= unit; }
  const T f = static_cast<T>(g.zint(6)) / T(2) * unit;
  shownote(g, "a", a); g.note("d", d); g.note("f", f);
  const auto x = mk(a);
  T vol = 1;
  rbox<T, S> moved, grown;
  bool ok = true;
  for (std::size_t i = 0; i < S; ++i) {
    vol *= a[i][1] - a[i][0];
    moved[i] = {a[i][0] + d.v[i], a[i][1] + d.v[i]};
    grown[i] = {a[i][0] - f, a[i][1] + f};
    ok = ok && grown[i][0] <= grown[i][1];
    REQUIRE(x.center().v[i] == (a[i][0] + a[i][1]) / 2, "center is " << x.center());
    REQUIRE(x.size().v[i] == a[i][1] - a[i][0], "size is " << x.size());
  }
  g.nontrivial(vol > 0);
  REQUIRE(x.volume() == vol, "volume is " << x.volume() << " instead of " << vol);
  REQUIRE(is(x.translate(d), moved), "translate gives " << x.translate(d));
  if (ok) REQUIRE(is(x.expand(f), grown), "expand gives " << x.expand(f));
  const vm::bbox<double, S> xd(x);
  const vm::bbox<float, S> xf(xd);
  rbox<double, S> ad;
  rbox<float, S> af;
  for (std::size_t i = 0; i < S; ++i) for (int k = 0; k < 2; ++k) { ad[i][k] = static_cast<double>(a[i][k]); af[i][k] = static_cast<float>(a[i][k]); }
  REQUIRE(is(xd, ad) && is(xf, af), "conversion gives " << xd << " or " << xf);
  REQUIRE(is(vm::bbox<T, S>(), rbox<T, S>{}), "the default box is " << (vm::bbox<T, S>()));
  rbox<T, S> u, v;
  for (std::size_t i = 0; i < S; ++i) { u[i] = a[0]; v[i] = {-std::fabs(f), std::fabs(f)}; }
  REQUIRE(is(vm::bbox<T, S>(a[0][0], a[0][1]), u), "bbox(min, max) with numbers");
  REQUIRE(is(vm::bbox<T, S>(std::fabs(f)), v), "bbox(size)");
  // equality up to an epsilon
  const T e = unit / static_cast<T>(1l << g.range(2, 12));
  auto y = x;
  const auto k = g.below(S);
  if (g.flip()) y.min.v[k] -= e; else y.max.v[k] += e;
  REQUIRE(vm::is_equal(x, y, 2 * e) && vm::is_equal(y, x, 2 * e), "not equal up to twice the difference");
  REQUIRE(!vm::is_equal(x, y, e / 2) && !vm::is_equal(y, x, e / 2), "equal up to half the difference");
  REQUIRE(vm::is_equal(x, x, T(0)), "not equal to itself");
}
TEST(measures, 1200000) {
  switch (g.choice(5)) {
    case 0: measures<double, 3>(g); break;
    case 1: measures<float, 3>(g); break;
    case 2: measures<double, 2>(g); break;
    case 3: measures<double, 5>(g); break;
    default: measures<double, 1>(g); break;
  }
}

// histories: a builder fed with points, boxes and ranges always holds the smallest box containing all of them
template <typename T, std::size_t S> static void building(G& g) {
  typename vm::bbox<T, S>::builder b;
  const int scale = static_cast<int>(g.choice(3));
  rbox<T, S> all{};
  bool any = false;
  std::vector<vm::vec<T, S>> points;
  const auto add = [&](const rbox<T, S>& r) {
    for (std::size_t i = 0; i < S; ++i) all[i] = any ? std::array<T, 2>{std::min(all[i][0], r[i][0]), std::max(all[i][1], r[i][1])} : r[i];
    any = true;
  };
  const auto addp = [&](const vm::vec<T, S>& p) {
    points.push_back(p);
    rbox<T, S> r;
    for (std::size_t i = 0; i < S; ++i) r[i] = {p.v[i], p.v[i]};
    add(r);
  };
  const auto gp = [&] { auto p = gvec<T, S>([&] { return coord<T>(g, scale); }); g.note("p", p); return p; };
  const auto n = g.below(7);
  for (std::size_t i = 0; i < n; ++i) {
    switch (g.choice(4)) {
      case 0: { const auto p = gp(); b.add(p); addp(p); break; }
      case 1: { const auto r = gbox<T, S>(g, scale); shownote(g, "box", r); b.add(mk(r)); add(r); break; }
      case 2: {
        std::list<vm::vec<T, S>> l;
        for (auto k = count(g, 4, 300); k > 0; --k) { l.push_back(gp()); addp(l.back()); }
        b.add(l.begin(), l.end());
        break;
      }
      default: {
        std::vector<std::pair<int, vm::vec<T, S>>> l;
        for (auto k = g.below(4); k > 0; --k) { l.emplace_back(0, gp()); addp(-l.back().second); }
        b.add(l.begin(), l.end(), [](const std::pair<int, vm::vec<T, S>>& q) { return -q.second; });
      }
    }
    REQUIRE(b.initialized() == any, "initialized is " << b.initialized());
    REQUIRE(is(b.bounds(), all), "after " << i + 1 << " steps the builder holds " << b.bounds());
  }
  g.nontrivial(n > 1);
  g.label(any ? "something added" : "empty");
  REQUIRE(b.initialized() == any, "initialized is " << b.initialized());
  REQUIRE(is(b.bounds(), all), "the builder holds " << b.bounds());
  if (!points.empty()) {
    rbox<T, S> h;
    for (std::size_t i = 0; i < S; ++i) { h[i] = {points[0].v[i], points[0].v[i]}; for (const auto& p : points) { h[i][0] = std::min(h[i][0], p.v[i]); h[i][1] = std::max(h[i][1], p.v[i]); } }
    const auto m = vm::bbox<T, S>::merge_all(std::begin(points), std::end(points));
    REQUIRE(is(m, h), "merge_all gives " << m);
    const auto q = vm::bbox<T, S>::merge_all(std::begin(points), std::end(points), [](const vm::vec<T, S>& p) { return p * T(2); });
    for (auto& i : h) for (auto& e : i) e *= 2;
    REQUIRE(is(q, h), "merge_all with a transformation gives " << q);
  }
}
TEST(building, 1000000) {
  switch (g.choice(5)) {
    case 0: building<double, 3>(g); break;
    case 1: building<float, 2>(g); break;
    case 2: building<double, 1>(g); break;
    case 3: building<double, 4>(g); break;
    default: building<float, 3>(g); break;
  }
}
