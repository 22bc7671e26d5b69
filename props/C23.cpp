// Approximate comparison values
#include "geo.h"
#include <vecmath/approx.h>
#include <vecmath/line.h>
#include <vecmath/line_io.h>
#include <vecmath/mat.h>
#include <vecmath/mat_io.h>

// values and epsilons on a dyadic grid: differences and sums are exact, so that the border counts
template <typename T> static T scale(G& g) { return static_cast<T>(std::ldexp(1.0, g.flip() ? 0 : static_cast<int>(g.zint(25)))); }
template <typename T> static T epsilon(G& g, const T unit = T(1)) { return static_cast<T>(g.pick<long>({0, 1, 2, 4, 16})) / T(16) * unit; }
template <typename T> static T close(G& g, const T v, const T unit = T(1)) { // v moved by a few sixteenths
  return v + static_cast<T>(g.zint(g.pick<long>({0, 1, 3, 20}))) / T(16) * unit;
}
template <typename T, std::size_t S> static vm::vec<T, S> scaled(G& g, const T unit) {
  auto v = gridvec<T, S>(g);
  for (auto& c : v.v) c *= unit;
  return v;
}

template <typename A, typename B> static void laws(const A& v, const B& a, const int want) {
  REQUIRE((v == a) == (want == 0), "value == approx");
  REQUIRE((a == v) == (want == 0), "approx == value");
  REQUIRE((v != a) == (want != 0), "value != approx");
  REQUIRE((a != v) == (want != 0), "approx != value");
  REQUIRE((v < a) == (want < 0), "value < approx");
  REQUIRE((v <= a) == (want <= 0), "value <= approx");
  REQUIRE((v > a) == (want > 0), "value > approx");
  REQUIRE((v >= a) == (want >= 0), "value >= approx");
  REQUIRE((a > v) == (want < 0), "approx > value");
  REQUIRE((a >= v) == (want <= 0), "approx >= value");
  REQUIRE((a < v) == (want > 0), "approx < value");
  REQUIRE((a <= v) == (want >= 0), "approx <= value");
}

template <typename T> static void scalar(G& g) {
  const T unit = scale<T>(g);
  const T a = grid<T>(g) * unit, e = epsilon<T>(g, unit), v = close(g, a, unit);
  g.note("value", v); g.note("approximated", a); g.note("epsilon", e);
  const R d = R(v) - R(a);
  const int want = d > R(e) ? 1 : d < -R(e) ? -1 : 0;
  g.nontrivial(d != 0);
  g.label(want == 0 ? (d == 0 ? "same" : std::fabs(d) == R(e) ? "equal, at the border" : "equal") : "different");
  laws(v, vm::approx<T>(a, e), want);
  // the default epsilon is 0.001
  const T w = a + static_cast<T>(g.pick<double>({0.0, 0.0009, -0.0009, 0.0011, -0.0011, 0.5, -0.5}));
  if (std::fabs(a) < 100) {
    const R dd = R(w) - R(a);
    laws(w, vm::approx<T>(a), dd > 0.001L ? 1 : dd < -0.001L ? -1 : 0);
  }
}
TEST(scalar, 1500000) { if (g.flip()) scalar<double>(g); else scalar<float>(g); }

template <typename T> static void not_a_number(G& g) {
  const T nan = std::numeric_limits<T>::quiet_NaN(), v = anyfloat<T>(g);
  const T e = epsilon<T>(g);
  g.note("value", v); g.note("epsilon", e);
  g.nontrivial();
  const vm::approx<T> a(nan, e);
  REQUIRE(!(v == a) && v != a && !(a == v) && a != v, v << " equals NaN");
  REQUIRE(!(v < a) && !(v > a) && !(v <= a) && !(v >= a), v << " is ordered with NaN");
  if (v == v && std::isfinite(v)) {
    const vm::approx<T> b(v, e);
    REQUIRE(!(nan == b) && nan != b && !(b == nan) && b != nan, v << " equals NaN");
    REQUIRE(v == b && b == v && !(v != b) && !(v < b) && !(v > b) && v <= b && v >= b, v << " does not equal itself");
  }
}
TEST(not_a_number, 200000) { if (g.flip()) not_a_number<double>(g); else not_a_number<float>(g); }

template <typename T, std::size_t S> static int order(const vm::vec<T, S>& v, const vm::vec<T, S>& a, const T e) {
  for (std::size_t i = 0; i < S; ++i) {
    const R d = R(v.v[i]) - R(a.v[i]);
    if (d > R(e)) return 1;
    if (d < -R(e)) return -1;
  }
  return 0;
}
template <typename T, std::size_t S> static void vector(G& g) {
  const T unit = scale<T>(g);
  const auto a = scaled<T, S>(g, unit);
  const T e = epsilon<T>(g, unit);
  auto v = a;
  const std::size_t same = g.below(S + 1); // a common prefix
  for (std::size_t i = same; i < S; ++i) v.v[i] = close(g, v.v[i], unit);
  if (g.flip()) for (std::size_t i = 0; i < same; ++i) v.v[i] += g.flip() ? e : -e;
  g.note("value", v); g.note("approximated", a); g.note("epsilon", e);
  g.nontrivial(!vsame(v, a));
  const int want = order(v, a, e);
  g.label(want == 0 ? "equal" : "different");
  laws(v, vm::approx<vm::vec<T, S>>(a, e), want);
  auto w = a;
  const std::size_t at = g.below(S);
  w.v[at] += static_cast<T>(g.pick<double>({0.0, 0.0009, -0.0009, 0.0011, -0.0011, 0.5, -0.5}));
  if (std::fabs(w.v[at]) < 100) laws(w, vm::approx<vm::vec<T, S>>(a), order(w, a, static_cast<T>(0.001)));
}
TEST(vector, 1500000) {
  switch (g.choice(5)) {
    case 0: vector<double, 3>(g); break;
    case 1: vector<float, 3>(g); break;
    case 2: vector<double, 1>(g); break;
    case 3: vector<double, 5>(g); break;
    default: vector<float, 2>(g); break;
  }
}

template <typename T, std::size_t Rr, std::size_t Cc> static void matrix(G& g) {
  vm::mat<T, Rr, Cc> a, v;
  const T unit = scale<T>(g);
  const T e = epsilon<T>(g, unit);
  bool equal = true, def = true, border = false;
  for (std::size_t c = 0; c < Cc; ++c) a.v[c] = scaled<T, Rr>(g, unit);
  v = a;
  const std::size_t changes = g.below(3);
  for (std::size_t k = 0; k < changes; ++k) { const auto c = g.below(Cc), r = g.below(Rr); v.v[c].v[r] = close(g, a.v[c].v[r], unit); }
  for (std::size_t c = 0; c < Cc; ++c) for (std::size_t r = 0; r < Rr; ++r) {
    const R d = std::fabs(R(v.v[c].v[r]) - R(a.v[c].v[r]));
    equal = equal && d <= R(e);
    def = def && d <= 0.001L;
    border = border || std::fabs(d - 0.001L) < 1e-5L;
  }
  g.note("value", v); g.note("approximated", a); g.note("epsilon", e);
  g.nontrivial(changes > 0);
  const vm::approx<vm::mat<T, Rr, Cc>> x(a, e), y(a);
  REQUIRE((v == x) == equal && (x == v) == equal && (v != x) == !equal && (x != v) == !equal, "should be " << (equal ? "equal" : "different"));
  if (!border) REQUIRE((v == y) == def && (y == v) == def && (v != y) == !def && (y != v) == !def, "should be " << (def ? "equal" : "different") << " by default");
}
TEST(matrix, 500000) {
  switch (g.choice(5)) {
    case 0: matrix<double, 4, 4>(g); break;
    case 1: matrix<float, 2, 2>(g); break;
    case 2: matrix<double, 3, 1>(g); break;
    case 3: matrix<float, 5, 5>(g); break;
    default: matrix<double, 2, 3>(g); break;
  }
}

template <typename T> static void lines(G& g) {
  vm::line<T, 3> a, v;
  const T unit = scale<T>(g);
  a.point = scaled<T, 3>(g, unit); a.direction = scaled<T, 3>(g, unit);
  v.point = a.point; v.direction = a.direction;
  const T e = epsilon<T>(g, unit);
  const std::size_t changes = g.below(3);
  for (std::size_t k = 0; k < changes; ++k) { auto& x = g.flip() ? v.point : v.direction; const auto i = g.below(3); x.v[i] = close(g, x.v[i], unit); }
  const bool equal = order(v.point, a.point, e) == 0 && order(v.direction, a.direction, e) == 0;
  g.note("value", v); g.note("approximated", a); g.note("epsilon", e);
  g.nontrivial(changes > 0);
  const vm::approx<vm::line<T, 3>> x(a, e);
  REQUIRE((v == x) == equal && (x == v) == equal, "should be " << (equal ? "equal" : "different"));
}
TEST(lines, 500000) { if (g.flip()) lines<double>(g); else lines<float>(g); }

template <typename T> static void ranges(G& g) {
  const std::size_t n = g.below(5);
  std::vector<T> v;
  std::vector<vm::approx<T>> a;
  const T unit = scale<T>(g);
  const T e = epsilon<T>(g, unit);
  bool equal = true;
  for (std::size_t i = 0; i < n; ++i) {
    const T x = grid<T>(g) * unit, y = g.flip() ? x : close(g, x, unit);
    v.push_back(y);
    a.emplace_back(x, e);
    equal = equal && std::fabs(R(x) - R(y)) <= R(e);
  }
  if (g.one_in(4)) { v.push_back(T(1)); equal = false; }
  else if (g.one_in(4)) { a.emplace_back(T(1), e); equal = false; }
  g.note("values", v); g.note("epsilon", e);
  g.nontrivial(n > 0);
  REQUIRE((v == a) == equal && (a == v) == equal && (v != a) == !equal && (a != v) == !equal, "should be " << (equal ? "equal" : "different"));
}
TEST(ranges, 500000) { if (g.flip()) ranges<double>(g); else ranges<float>(g); }

template <typename T> static void print(G& g) {
  const T a = num<T>(g);
  const auto v = numvec<T, 3>(g);
  std::ostringstream s, t;
  s << vm::approx<T>(a) << " / " << vm::approx<vm::vec<T, 3>>(v);
  t << a << " / " << v.v[0] << " " << v.v[1] << " " << v.v[2];
  g.nontrivial();
  REQUIRE(s.str() == t.str(), "printed as " << s.str() << " instead of " << t.str());
}
TEST(print, 50000) { print<double>(g); }
