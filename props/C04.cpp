// Componentwise functions, ranking of components, axis permutations and predicates of vectors
#include "geo.h"

template <typename T> static T val(G& g) {
  if constexpr (std::is_integral<T>::value) return static_cast<T>(g.zint(g.pick<long>({2, 1000})));
  else switch (g.choice(3)) {
    case 0: return static_cast<T>(g.zint(3)) / T(2);
    case 1: return grid<T>(g);
    default: return num<T>(g);
  }
}

// k-th largest component, by value and by magnitude, with any number of ties
template <typename T, std::size_t S> static void ranking(G& g) {
  auto v = gvec<T, S>([&] { return g.one_in(3) ? static_cast<T>(g.zint(2)) : g.one_in(6) ? (std::is_floating_point<T>::value ? static_cast<T>(anyfloat<double>(g, false)) : static_cast<T>(g.zint(2147483647))) : val<T>(g); });
  const auto k = g.below(S);
  const auto v0 = v;
  g.note("v", v); g.note("k", k);
  std::vector<T> s(v.v, v.v + S), m;
  const auto ab = [](const T x) { return x < 0 ? -x : x; };
  for (const T x : s) m.push_back(ab(x));
  std::sort(s.rbegin(), s.rend());
  std::sort(m.rbegin(), m.rend());
  g.nontrivial(S > 1);
  if (std::unique(m.begin(), m.end()) != m.end()) g.label("ties");
  m.clear();
  for (std::size_t i = 0; i < S; ++i) m.push_back(ab(v.v[i]));
  std::sort(m.rbegin(), m.rend());
  const auto i = vm::find_max_component(v, k);
  REQUIRE(i < S && v.v[i] == s[k], "find_max_component gives " << i);
  const auto j = vm::find_abs_max_component(v, k);
  REQUIRE(j < S && ab(v.v[j]) == m[k], "find_abs_max_component gives " << j);
  REQUIRE(vm::get_max_component(v, k) == s[k], "get_max_component gives " << vm::get_max_component(v, k));
  const T am = vm::get_abs_max_component(v, k);
  REQUIRE(ab(am) == m[k] && std::find(v.v, v.v + S, am) != v.v + S, "get_abs_max_component gives " << am);
  const auto a = vm::get_abs_max_component_axis(v, k);
  std::size_t ones = 0, idx = 0;
  for (std::size_t n = 0; n < S; ++n) if (a.v[n] != 0) { ++ones; idx = n; }
  REQUIRE(ones == 1 && ab(v.v[idx]) == m[k] && a.v[idx] == (v.v[idx] < 0 ? T(-1) : T(1)), "get_abs_max_component_axis gives " << a);
  // the ranks are a permutation of the components
  std::array<bool, S> seen{}, aseen{};
  for (std::size_t n = 0; n < S; ++n) {
    const auto x = vm::find_max_component(v, n), y = vm::find_abs_max_component(v, n);
    REQUIRE(x < S && !seen[x] && y < S && !aseen[y], "two ranks share a component");
    seen[x] = aseen[y] = true;
  }
  // the largest component is the default
  REQUIRE(vm::find_max_component(v) == vm::find_max_component(v, 0) && vm::find_abs_max_component(v) == vm::find_abs_max_component(v, 0), "find_max_component or find_abs_max_component without a rank");
  REQUIRE(vm::get_max_component(v) == s[0] && ab(vm::get_abs_max_component(v)) == m[0], "get_max_component or get_abs_max_component without a rank");
  REQUIRE(vsame(vm::get_abs_max_component_axis(v), vm::get_abs_max_component_axis(v, 0)), "get_abs_max_component_axis without a rank");
  REQUIRE(vsame(v, v0), "the argument was changed");
}
TEST(ranking, 2500000) {
  switch (g.choice(7)) {
    case 0: ranking<double, 3>(g); break;
    case 1: ranking<float, 3>(g); break;
    case 2: ranking<double, 2>(g); break;
    case 3: ranking<float, 4>(g); break;
    case 4: ranking<double, 1>(g); break;
    case 5: ranking<double, 6>(g); break;
    default: ranking<int, 4>(g); break;
  }
}

TEST(axes, 500000) {
  const auto v = gvec<double, 3>([&] { return anyfloat<double>(g, true); });
  const auto a = g.below(4);
  g.note("v", v); g.note("axis", a);
  g.nontrivial(a < 2);
  const auto s = vm::swizzle(v, a);
  const int perm[4][3] = {{1, 2, 0}, {2, 0, 1}, {0, 1, 2}, {0, 1, 2}};
  for (int i = 0; i < 3; ++i) REQUIRE(same(s.v[i], v.v[perm[a][i]]), "swizzle gives " << s);
  REQUIRE(vsame(vm::unswizzle(s, a), v), "unswizzle does not undo swizzle: " << vm::unswizzle(s, a));
  REQUIRE(vsame(vm::swizzle(vm::unswizzle(v, a), a), v), "swizzle does not undo unswizzle");
}

template <typename T, std::size_t S> static void lifted(G& g) {
  const auto a = gvec<T, S>([&] { return val<T>(g); });
  auto b = gvec<T, S>([&] { return val<T>(g); });
  auto c = gvec<T, S>([&] { return val<T>(g); });
  for (std::size_t i = 0; i < S; ++i) {
    if (g.one_in(4)) b.v[i] = a.v[i];
    if (g.one_in(4)) c.v[i] = g.flip() ? -a.v[i] : b.v[i];
  }
  g.note("a", a); g.note("b", b); g.note("c", c);
  g.nontrivial();
  const auto all = [&](const char* what, const vm::vec<T, S>& r, auto&& op) {
    for (std::size_t i = 0; i < S; ++i) REQUIRE(r.v[i] == static_cast<T>(op(i)), what << ": component " << i << " is " << r.v[i] << " instead of " << op(i));
  };
  const auto ab = [](const T x) { return x < 0 ? -x : x; };
  all("min", vm::min(a, b), [&](std::size_t i) { return std::min(a.v[i], b.v[i]); });
  all("max", vm::max(a, b), [&](std::size_t i) { return std::max(a.v[i], b.v[i]); });
  all("min of 3", vm::min(a, b, c), [&](std::size_t i) { return std::min({a.v[i], b.v[i], c.v[i]}); });
  all("max of 3", vm::max(a, b, c), [&](std::size_t i) { return std::max({a.v[i], b.v[i], c.v[i]}); });
  all("abs of abs_min", vm::abs(vm::abs_min(a, b, c)), [&](std::size_t i) { return std::min({ab(a.v[i]), ab(b.v[i]), ab(c.v[i])}); });
  all("abs of abs_max", vm::abs(vm::abs_max(a, b, c)), [&](std::size_t i) { return std::max({ab(a.v[i]), ab(b.v[i]), ab(c.v[i])}); });
  const auto am = vm::abs_min(a, b), ax = vm::abs_max(a, b);
  for (std::size_t i = 0; i < S; ++i) {
    REQUIRE((am.v[i] == a.v[i] || am.v[i] == b.v[i]) && ab(am.v[i]) == std::min(ab(a.v[i]), ab(b.v[i])), "abs_min gives " << am);
    REQUIRE((ax.v[i] == a.v[i] || ax.v[i] == b.v[i]) && ab(ax.v[i]) == std::max(ab(a.v[i]), ab(b.v[i])), "abs_max gives " << ax);
  }
  const auto lo = vm::min(b, c), hi = vm::max(b, c);
  all("clamp", vm::clamp(a, lo, hi), [&](std::size_t i) { return a.v[i] < lo.v[i] ? lo.v[i] : a.v[i] > hi.v[i] ? hi.v[i] : a.v[i]; });
  all("abs", vm::abs(a), [&](std::size_t i) { return ab(a.v[i]); });
  all("sign", vm::sign(a), [&](std::size_t i) { return a.v[i] < 0 ? T(-1) : a.v[i] > 0 ? T(1) : T(0); });
  all("step", vm::step(b, a), [&](std::size_t i) { return a.v[i] < b.v[i] ? T(0) : T(1); });
  if constexpr (std::is_floating_point<T>::value) {
    all("floor", vm::floor(a), [&](std::size_t i) { return std::floor(a.v[i]); });
    all("ceil", vm::ceil(a), [&](std::size_t i) { return std::ceil(a.v[i]); });
    all("trunc", vm::trunc(a), [&](std::size_t i) { return std::trunc(a.v[i]); });
    all("round", vm::round(a), [&](std::size_t i) { return std::round(a.v[i]); });
    all("fract", vm::fract(a), [&](std::size_t i) { return a.v[i] - std::trunc(a.v[i]); });
    const auto f = gvec<T, S>([&] { return static_cast<T>(g.range(0, 8)) / T(4); });
    g.note("f", f);
    const auto mx = vm::mix(a, b, f);
    for (std::size_t i = 0; i < S; ++i)
      REQUIRE(near(mx.v[i], (1 - R(f.v[i])) * a.v[i] + R(f.v[i]) * b.v[i], 16 * eps<T>() * (std::fabs(R(a.v[i])) + std::fabs(R(b.v[i])))), "mix gives " << mx);
    const auto m = gvec<T, S>([&] { return static_cast<T>(g.range(1, 64)) / T(g.pick<long>({1, 2, 8})); });
    const auto q = gvec<T, S>([&] { return static_cast<T>(g.zint(2000)) / T(8); });
    g.note("m", m); g.note("q", q);
    all("mod", vm::mod(q, m), [&](std::size_t i) { return std::fmod(q.v[i], m.v[i]); });
    const auto in = [&](std::size_t i) { return std::make_pair(static_cast<long>(q.v[i] * 8), static_cast<long>(m.v[i] * 8)); };
    all("snap", vm::snap(q, m), [&](std::size_t i) { const auto [n, d] = in(i); const long s = n < 0 ? -1 : 1; return T(s * ((2 * std::labs(n) + d) / (2 * d)) * d) / T(8); });
    all("snapUp", vm::snapUp(q, m), [&](std::size_t i) { const auto [n, d] = in(i); const long s = n < 0 ? -1 : 1; return T(s * ((std::labs(n) + d - 1) / d) * d) / T(8); });
    all("snapDown", vm::snapDown(q, m), [&](std::size_t i) { const auto [n, d] = in(i); return T((n / d) * d) / T(8); });
    const T e = static_cast<T>(g.range(1, 7)) / T(16);
    g.note("epsilon", e);
    all("correct", vm::correct(q, 0, e), [&](std::size_t i) { const T r = std::round(q.v[i]); return std::fabs(q.v[i] - r) < e ? r : q.v[i]; });
    const auto dec = g.below(4);
    const auto z = gvec<T, S>([&] { return static_cast<T>(R(g.zint(3000)) / 1000 + R(g.real(-1, 1)) * std::pow(R(10), -static_cast<R>(g.range(1, 6)))); });
    g.note("decimals", dec); g.note("z", z);
    all("correct with decimals", vm::correct(z, dec, e / T(16)), [&](std::size_t i) { return vm::correct(z.v[i], dec, e / T(16)); });
    all("correct with decimals, default epsilon", vm::correct(z, dec), [&](std::size_t i) { return vm::correct(z.v[i], dec); });
    all("correct, default decimals", vm::correct(z), [&](std::size_t i) { return vm::correct(z.v[i]); });
    const auto e1 = b + vm::vec<T, S>::one();
    const auto ss = vm::smoothstep(b, e1, a);
    for (std::size_t i = 0; i < S; ++i) {
      const R t = std::min(R(1), std::max(R(0), R(a.v[i]) - R(b.v[i])));
      REQUIRE(near(ss.v[i], t * t * (3 - 2 * t), 64 * eps<T>() * (1 + std::fabs(R(a.v[i])) + std::fabs(R(b.v[i])))), "smoothstep gives " << ss);
    }
  }
}
TEST(lifted, 1500000) {
  switch (g.choice(6)) {
    case 0: lifted<double, 3>(g); break;
    case 1: lifted<float, 3>(g); break;
    case 2: lifted<double, 1>(g); break;
    case 3: lifted<float, 2>(g); break;
    case 4: lifted<double, 4>(g); break;
    default: lifted<int, 3>(g); break;
  }
}

template <typename T, std::size_t S> static void predicates(G& g) {
  const T e = static_cast<T>(g.range(0, 32)) / T(64) * std::ldexp(T(1), g.flip() ? 0 : -static_cast<int>(g.range(1, 30)));
  auto v = gvec<T, S>([&]() -> T {
    switch (g.choice(7)) {
      case 5: { const T a = anyfloat<T>(g, false); return std::isinf(a) ? T(0) : a; }
      case 6: return static_cast<T>(g.zint(1l << g.range(1, sizeof(T) == 4 ? 17 : 45))) + (g.flip() ? e : -e); // large
      case 0: return T(0);
      case 1: return g.flip() ? e : -e;
      case 2: return static_cast<T>(g.zint(30)) + (g.flip() ? e : -e);
      case 3: return static_cast<T>(g.zint(200)) / T(64);
      default: return static_cast<T>(g.zint(4));
    }
  });
  if (g.one_in(6)) v.v[g.below(S)] = std::numeric_limits<T>::quiet_NaN();
  g.note("v", v); g.note("epsilon", e);
  bool zero = true, nan = false, integral = true, integral0 = true;
  for (std::size_t i = 0; i < S; ++i) {
    nan = nan || v.v[i] != v.v[i];
    zero = zero && (v.v[i] == 0 || std::fabs(v.v[i]) <= e);
    integral = integral && std::fabs(v.v[i] - std::round(v.v[i])) <= e;
    integral0 = integral0 && v.v[i] == std::round(v.v[i]);
  }
  g.nontrivial();
  g.label(nan ? "nan" : zero ? "zero" : integral ? "integral" : "other");
  REQUIRE(vm::is_nan(v) == nan, "is_nan gives " << !nan);
  REQUIRE(vm::is_zero(v, e) == zero, "is_zero gives " << !zero);
  if (!nan) {
    REQUIRE(vm::is_integral(v, e) == integral, "is_integral gives " << !integral);
    REQUIRE(vm::is_integral(v) == integral0, "is_integral without tolerance gives " << !integral0);
  }
}
// unit vectors, by their length
template <typename T, std::size_t S> static void units(G& g) {
  auto v = nonzero_ivec<T, S>(g, 6);
  const T e = g.flip() ? std::fabs(logscale<T>(g, sizeof(T) == 4 ? -16 : -40, 0)) : static_cast<T>(g.range(1, 100)) / T(64);
  switch (g.choice(3)) {
    case 0: break;
    case 1: v = v * std::ldexp(T(1), static_cast<int>(g.range(-12, 2))); break;
    default: { // about epsilon off
      const R f = (1 + R(e) * R(g.real(-2, 2))) / rlen(ref(v));
      for (std::size_t i = 0; i < S; ++i) v.v[i] = static_cast<T>(v.v[i] * f);
    }
  }
  const R off = std::fabs(rlen(ref(v)) - 1);
  g.note("v", v); g.note("epsilon", e);
  g.label(off <= e ? "unit" : "no unit");
  if (std::fabs(off - R(e)) <= 16 * eps<T>() * (1 + off)) return;
  g.nontrivial();
  REQUIRE(vm::is_unit(v, e) == (off <= e), "is_unit for a length that differs from 1 by " << off);
  REQUIRE(vm::is_unit_c(v, e) == (off <= e), "is_unit_c for a length that differs from 1 by " << off);
}
TEST(unit_vectors, 500000) {
  switch (g.choice(5)) {
    case 0: units<double, 3>(g); break;
    case 1: units<float, 3>(g); break;
    case 2: units<double, 1>(g); break;
    case 3: units<float, 2>(g); break;
    default: units<double, 5>(g); break;
  }
}
TEST(predicates, 1500000) {
  switch (g.choice(5)) {
    case 0: predicates<double, 3>(g); break;
    case 1: predicates<float, 3>(g); break;
    case 2: predicates<double, 1>(g); break;
    case 3: predicates<float, 2>(g); break;
    default: predicates<double, 5>(g); break;
  }
}
