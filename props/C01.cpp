// Comparison of vectors: one total order, in which NaN is above everything else and equal to itself
#include "geo.h"
#include <list>

template <typename T> static T value(G& g) {
  if constexpr (std::is_integral<T>::value) {
    if (g.flip()) return static_cast<T>(g.zint(3));
    const T ends[] = {std::numeric_limits<T>::max(), std::numeric_limits<T>::min(), T(0)}; // also far apart and around the ends
    return g.flip() ? static_cast<T>(g.choice(0)) : static_cast<T>(static_cast<std::make_unsigned_t<T>>(ends[g.below(3)]) + static_cast<std::make_unsigned_t<T>>(g.zint(2)));
  }
  else if (g.flip()) return static_cast<T>(g.zint(2));
  else return anyfloat<T>(g, true);
}
template <typename T> static int cmp1(const T a, const T b) {
  if (a != a || b != b) return (a != a ? 1 : 0) - (b != b ? 1 : 0);
  return a < b ? -1 : a > b ? 1 : 0;
}
template <typename T, std::size_t S> static int cmpN(const vm::vec<T, S>& a, const vm::vec<T, S>& b) {
  for (std::size_t i = 0; i < S; ++i) if (const int c = cmp1(a.v[i], b.v[i])) return c;
  return 0;
}
static int sgn(int c) { return c < 0 ? -1 : c > 0 ? 1 : 0; }

template <typename T, std::size_t S> static vm::vec<T, S> related(G& g, const vm::vec<T, S>& a) {
  auto b = a;
  switch (g.choice(5)) {
    case 0: break;
    case 4:
      if constexpr (std::is_floating_point<T>::value) { // neighbours
        auto& x = b.v[g.below(S)];
        x = ulps(x, g.zint(1));
        break;
      }
      [[fallthrough]];
    case 1: b.v[g.below(S)] = value<T>(g); break;
    case 2: b.v[S - 1] = value<T>(g); break;
    default: b = gvec<T, S>([&] { return value<T>(g); }); break;
  }
  return b;
}

template <typename T, std::size_t S> static void order(G& g) {
  const auto a = gvec<T, S>([&] { return value<T>(g); });
  const auto b = related(g, a);
  const auto c = related(g, g.flip() ? a : b);
  g.note("a", a); g.note("b", b); g.note("c", c);
  const int ab = cmpN(a, b);
  g.label(ab == 0 ? "equal" : "different");
  g.nontrivial(ab != 0 && cmp1(a.v[0], b.v[0]) == 0);
  REQUIRE(sgn(vm::compare(a, b)) == ab, "compare gives " << vm::compare(a, b));
  REQUIRE(sgn(vm::compare(b, a)) == -ab, "compare swapped gives " << vm::compare(b, a));
  REQUIRE((a == b) == (ab == 0) && (a != b) == (ab != 0) && (a < b) == (ab < 0) && (a <= b) == (ab <= 0) && (a > b) == (ab > 0) && (a >= b) == (ab >= 0),
          "an operator disagrees with the order " << ab);
  REQUIRE(a == a && a <= a && !(a < a) && vm::compare(a, a) == 0, "not reflexive");
  if (vm::compare(a, b) <= 0 && vm::compare(b, c) <= 0) REQUIRE(vm::compare(a, c) <= 0, "not transitive");
  REQUIRE(vm::is_equal(a, b, T(0)) == (ab == 0), "is_equal with epsilon 0");
}
template <typename T> static void order_dims(G& g) {
  switch (g.choice(5)) {
    case 0: order<T, 1>(g); break;
    case 1: order<T, 2>(g); break;
    case 2: order<T, 3>(g); break;
    case 3: order<T, 4>(g); break;
    default: order<T, 6>(g); break;
  }
}
TEST(order, 4000000) {
  switch (g.choice(6)) {
    case 0: order_dims<float>(g); break;
    case 1: order_dims<double>(g); break;
    case 2: order_dims<int>(g); break;
    case 3: order_dims<unsigned>(g); break;
    case 4: order_dims<unsigned char>(g); break;
    default: order_dims<long>(g); break;
  }
}

// with an epsilon, on numbers for which the comparison with epsilon is exact
template <typename T, std::size_t S> static void tolerance(G& g) {
  const T unit = static_cast<T>(std::ldexp(1.0, g.flip() ? 0 : static_cast<int>(g.range(-25, 25))));
  T e = std::fabs(grid<T>(g)) / T(8);
  auto a = gvec<T, S>([&] { return g.one_in(9) ? std::numeric_limits<T>::quiet_NaN() : grid<T>(g); });
  auto b = a;
  for (std::size_t i = 0; i < S; ++i) {
    switch (g.choice(6)) {
      case 0: b.v[i] = a.v[i] + e; break;
      case 1: b.v[i] = a.v[i] - e; break;
      case 2: b.v[i] = a.v[i] + e + T(1) / T(64); break;
      case 3: b.v[i] = a.v[i] - e - T(1) / T(64); break;
      case 4: if (g.one_in(3)) b.v[i] = g.flip() ? std::numeric_limits<T>::quiet_NaN() : grid<T>(g); break;
      default: break;
    }
  }
  e *= unit;
  for (std::size_t i = 0; i < S; ++i) { a.v[i] *= unit; b.v[i] *= unit; }
  g.note("a", a); g.note("b", b); g.note("epsilon", e);
  int expected = 0;
  for (std::size_t i = 0; i < S && expected == 0; ++i) {
    const bool na = a.v[i] != a.v[i], nb = b.v[i] != b.v[i];
    if (na || nb) expected = int(na) - int(nb);
    else if (std::fabs(a.v[i] - b.v[i]) > e) expected = a.v[i] < b.v[i] ? -1 : 1;
  }
  g.label(expected == 0 ? "equal" : "different");
  g.nontrivial(e > 0 && cmpN(a, b) != 0);
  REQUIRE(sgn(vm::compare(a, b, e)) == expected, "compare gives " << vm::compare(a, b, e) << " instead of " << expected);
  REQUIRE(sgn(vm::compare(b, a, e)) == -expected, "compare swapped gives " << vm::compare(b, a, e));
  REQUIRE(vm::is_equal(a, b, e) == (expected == 0) && vm::is_equal(b, a, e) == (expected == 0), "is_equal");
}
TEST(tolerance, 2500000) {
  switch (g.choice(6)) {
    case 0: tolerance<float, 1>(g); break;
    case 1: tolerance<double, 2>(g); break;
    case 2: tolerance<double, 3>(g); break;
    case 3: tolerance<float, 3>(g); break;
    case 4: tolerance<double, 4>(g); break;
    default: tolerance<float, 5>(g); break;
  }
}

// ranges of vectors compare lexicographically, a proper prefix first
template <typename T, std::size_t S> static void ranges(G& g) {
  std::vector<vm::vec<T, S>> a, b;
  const auto n = g.below(5);
  for (std::size_t i = 0; i < n; ++i) a.push_back(gvec<T, S>([&] { return value<T>(g); }));
  const auto m = g.flip() ? n : g.below(5);
  for (std::size_t i = 0; i < m; ++i) b.push_back(i < n ? (g.one_in(4) ? related(g, a[i]) : a[i]) : gvec<T, S>([&] { return value<T>(g); }));
  g.note("a", a); g.note("b", b);
  int expected = 0;
  for (std::size_t i = 0; i < std::min(n, m) && expected == 0; ++i) expected = cmpN(a[i], b[i]);
  if (expected == 0) expected = n < m ? -1 : n > m ? 1 : 0;
  g.nontrivial(n > 0 && m > 0);
  g.label(expected == 0 ? "equal" : n == m ? "same length" : "different length");
  const int c = vm::compare(a.begin(), a.end(), b.begin(), b.end(), T(0));
  REQUIRE(sgn(c) == expected, "comparison of the ranges gives " << c << " instead of " << expected);
  REQUIRE(sgn(vm::compare<T>(a.begin(), a.end(), b.begin(), b.end())) == expected, "comparison of the ranges without an epsilon");
  const int d = vm::compare(b.begin(), b.end(), a.begin(), a.end(), T(0));
  REQUIRE(sgn(d) == -expected, "swapped comparison of the ranges gives " << d);
}
TEST(ranges, 1000000) {
  switch (g.choice(3)) {
    case 0: ranges<double, 3>(g); break;
    case 1: ranges<float, 2>(g); break;
    default: ranges<double, 1>(g); break;
  }
}

// ranges that are compared with an epsilon, on numbers for which the comparison is exact; any kind of iterator
template <typename T, std::size_t S> static void range_tolerance(G& g) {
  const T unit = static_cast<T>(std::ldexp(1.0, g.flip() ? 0 : static_cast<int>(g.range(-25, 25))));
  T e = std::fabs(grid<T>(g)) / T(8);
  std::vector<vm::vec<T, S>> a, b;
  const auto n = g.below(5), m = g.flip() ? n : g.below(5);
  for (std::size_t i = 0; i < n; ++i) a.push_back(gvec<T, S>([&] { return grid<T>(g); }));
  for (std::size_t i = 0; i < m; ++i) {
    auto v = i < n ? a[i] : gvec<T, S>([&] { return grid<T>(g); });
    for (std::size_t k = 0; k < S; ++k) {
      const auto c = g.choice(20);
      if (c > 17) v.v[k] = v.v[k] + (c == 18 ? e + T(1) / T(64) : -e - T(1) / T(64));
      else if (c > 12) v.v[k] = v.v[k] + e * T(g.zint(4)) / T(4);
    }
    b.push_back(v);
  }
  e *= unit;
  for (auto* l : {&a, &b}) for (auto& x : *l) for (auto& c : x.v) c *= unit;
  g.note("a", a); g.note("b", b); g.note("epsilon", e);
  int expected = 0;
  bool close = false;
  for (std::size_t i = 0; i < std::min(n, m) && expected == 0; ++i) {
    for (std::size_t k = 0; k < S && expected == 0; ++k) {
      const T d = a[i].v[k] - b[i].v[k];
      if (std::fabs(d) > e) expected = d < 0 ? -1 : 1;
      else if (d != 0) close = true;
    }
  }
  if (expected == 0) expected = n < m ? -1 : n > m ? 1 : 0;
  g.nontrivial(close);
  g.label(expected == 0 ? "equal" : n == m ? "same length" : "different length");
  REQUIRE(sgn(vm::compare(a.begin(), a.end(), b.begin(), b.end(), e)) == expected, "comparison of the ranges gives " << vm::compare(a.begin(), a.end(), b.begin(), b.end(), e) << " instead of " << expected);
  REQUIRE(sgn(vm::compare(b.begin(), b.end(), a.begin(), a.end(), e)) == -expected, "swapped comparison of the ranges");
  const std::list<vm::vec<T, S>> l(a.begin(), a.end());
  REQUIRE(sgn(vm::compare(l.begin(), l.end(), b.data(), b.data() + b.size(), e)) == expected, "comparison of a list and an array");
}
TEST(range_tolerance, 1000000) {
  switch (g.choice(4)) {
    case 0: range_tolerance<double, 3>(g); break;
    case 1: range_tolerance<float, 2>(g); break;
    case 2: range_tolerance<float, 4>(g); break;
    default: range_tolerance<double, 1>(g); break;
  }
}

// sorting with < puts any sequence in the one order
TEST(sorting, 300000) {
  std::vector<vm::vec<double, 3>> a;
  const auto n = 2 + g.below(10);
  for (std::size_t i = 0; i < n; ++i) a.push_back(i == 0 ? gvec<double, 3>([&] { return value<double>(g); }) : related(g, a[g.below(i)]));
  g.note("points", a);
  g.nontrivial();
  auto s = a;
  std::sort(s.begin(), s.end());
  for (std::size_t i = 1; i < n; ++i) REQUIRE(cmpN(s[i - 1], s[i]) <= 0, "sorted sequence is out of order at " << i);
  auto t = a;
  std::reverse(t.begin(), t.end());
  std::stable_sort(t.begin(), t.end());
  for (std::size_t i = 0; i < n; ++i) REQUIRE(cmpN(s[i], t[i]) == 0, "sorting depends on the initial order");
}
