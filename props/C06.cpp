// Scalar helpers: extrema, clamping, interpolation, modular arithmetic, angles, neighbours, roots
#include "common.h"
#include <vecmath/scalar.h>

template <typename T> static T pool(G& g, const std::vector<T>& seen) {
  if (!seen.empty() && g.one_in(3)) { // ties, up to sign
    const T s = seen[g.below(seen.size())];
    return g.flip() ? -s : s;
  }
  if constexpr (std::is_integral<T>::value) return static_cast<T>(g.zint(std::min<long>(std::numeric_limits<T>::max(), g.pick<long>({3, 100, 100000, 2147483647, 4611686018427387903L}))));
  else return anyfloat<T>(g, false);
}

template <typename T, typename F> static T apply_n(const std::vector<T>& a, const F& f) {
  switch (a.size()) {
    case 1: return f(a[0]);
    case 2: return f(a[0], a[1]);
    case 3: return f(a[0], a[1], a[2]);
    case 4: return f(a[0], a[1], a[2], a[3]);
    default: return f(a[0], a[1], a[2], a[3], a[4]);
  }
}

template <typename T> static void extrema(G& g) {
  std::vector<T> a;
  const auto n = 1 + g.below(5);
  while (a.size() < n) a.push_back(pool<T>(g, a));
  g.note("args", a);
  g.nontrivial(n > 1);
  const auto vabs = [](const T v) { return v < 0 ? -v : v; };
  T lo = a[0], hi = a[0], alo = vabs(a[0]), ahi = vabs(a[0]);
  for (const T v : a) { lo = std::min(lo, v); hi = std::max(hi, v); alo = std::min(alo, vabs(v)); ahi = std::max(ahi, vabs(v)); }
  const auto among = [&](const T v) { return std::find(a.begin(), a.end(), v) != a.end(); };
  const T mn = apply_n(a, [](auto... v) { return vm::min(v...); });
  const T mx = apply_n(a, [](auto... v) { return vm::max(v...); });
  const T amn = apply_n(a, [](auto... v) { return vm::abs_min(v...); });
  const T amx = apply_n(a, [](auto... v) { return vm::abs_max(v...); });
  REQUIRE(mn == lo, "min gives " << mn);
  REQUIRE(mx == hi, "max gives " << mx);
  REQUIRE(among(amn) && vabs(amn) == alo, "abs_min gives " << amn);
  REQUIRE(among(amx) && vabs(amx) == ahi, "abs_max gives " << amx);
  for (const T v : a) REQUIRE(vm::abs(v) == vabs(v), "abs gives " << vm::abs(v));
  for (const T v : a) REQUIRE(vm::sign(v) == (v < 0 ? T(-1) : v > 0 ? T(1) : T(0)), "sign gives " << vm::sign(v));
  if constexpr (std::is_floating_point<T>::value) {
    const T smn = apply_n(a, [](auto... v) { return vm::safe_min(v...); });
    const T smx = apply_n(a, [](auto... v) { return vm::safe_max(v...); });
    REQUIRE(smn == lo, "safe_min gives " << smn);
    REQUIRE(smx == hi, "safe_max gives " << smx);
  }
}
TEST(extrema, 1500000) {
  switch (g.choice(4)) {
    case 0: extrema<double>(g); break;
    case 1: extrema<float>(g); break;
    case 2: extrema<long>(g); break;
    default: extrema<int>(g); break;
  }
}

template <typename T> static void safe_extrema(G& g) {
  std::vector<T> a;
  const auto n = 1 + g.below(5);
  while (a.size() < n) a.push_back(g.flip() ? std::numeric_limits<T>::quiet_NaN() : pool<T>(g, {}));
  g.note("args", a);
  T lo = std::numeric_limits<T>::quiet_NaN(), hi = lo;
  int nans = 0;
  for (const T v : a) {
    if (v != v) { ++nans; continue; }
    if (!(lo <= v)) lo = v;
    if (!(hi >= v)) hi = v;
  }
  g.nontrivial(nans > 0 && nans < static_cast<int>(n));
  const T smn = apply_n(a, [](auto... v) { return vm::safe_min(v...); });
  const T smx = apply_n(a, [](auto... v) { return vm::safe_max(v...); });
  REQUIRE(same(smn, lo), "safe_min gives " << smn << " instead of " << lo);
  REQUIRE(same(smx, hi), "safe_max gives " << smx << " instead of " << hi);
  for (const T v : a) {
    REQUIRE(vm::is_nan(v) == (v != v), "is_nan");
    REQUIRE(vm::is_inf(v) == std::isinf(v), "is_inf");
  }
}
TEST(safe_extrema, 800000) { if (g.flip()) safe_extrema<double>(g); else safe_extrema<float>(g); }

template <typename T> static void intervals(G& g) {
  const auto gen = [&]() -> T {
    if constexpr (std::is_integral<T>::value) return g.one_in(8) ? (g.flip() ? std::numeric_limits<T>::min() : std::numeric_limits<T>::max()) : g.one_in(4) ? static_cast<T>(g.choice(0)) : static_cast<T>(g.zint(g.pick<long>({2, 10, 1000})));
    else return g.flip() ? grid<T>(g) : anyfloat<T>(g, false);
  };
  const T a = gen(), b = gen();
  const T lo = std::min(a, b), hi = std::max(a, b);
  T v = g.choice(4) == 0 ? a : g.choice(4) == 0 ? b : gen();
  if constexpr (std::is_floating_point<T>::value) {
    if (g.one_in(4)) v = ulps(g.pick<T>({a, b, T(0), T(1)}), g.zint(2)); // next to an end
    if (v != v) v = T(0);
  }
  g.note("v", v); g.note("a", a); g.note("b", b);
  g.nontrivial(lo < hi && (v < lo || v > hi));
  const T c = vm::clamp(v, lo, hi);
  REQUIRE(c == (v < lo ? lo : v > hi ? hi : v), "clamp gives " << c);
  const bool in = v >= lo && v <= hi;
  REQUIRE(vm::contains(v, a, b) == in, "contains gives " << !in);
  REQUIRE(vm::contains(v, b, a) == in, "contains with swapped bounds gives " << !in);
  REQUIRE(vm::step(a, v) == (v < a ? T(0) : T(1)), "step gives " << vm::step(a, v));
  if constexpr (std::is_floating_point<T>::value) {
    const T d = vm::clamp(v);
    REQUIRE(d == (v < 0 ? T(0) : v > 1 ? T(1) : v), "clamp to the default interval gives " << d);
  }
}
TEST(intervals, 1500000) {
  switch (g.choice(5)) {
    case 0: intervals<double>(g); break;
    case 1: intervals<float>(g); break;
    case 2: intervals<unsigned>(g); break;
    case 3: intervals<long>(g); break;
    default: intervals<int>(g); break;
  }
}

template <typename T> static void equality(G& g) {
  const T unit = std::ldexp(T(1), g.flip() ? 0 : static_cast<int>(g.range(-60, 40)));
  const T a = grid<T>(g) * unit;
  const T e = std::fabs(grid<T>(g)) * unit;
  const T b = g.choice(3) == 0 ? (g.flip() ? a + e : a - e) : grid<T>(g) * unit;
  g.note("a", a); g.note("b", b); g.note("epsilon", e);
  const T d = std::fabs(a - b); // exact
  g.nontrivial(d > 0 && e > 0);
  if (d == e) g.label("distance == epsilon");
  REQUIRE(vm::is_equal(a, b, e) == (d <= e), "is_equal");
  REQUIRE(vm::is_equal(b, a, e) == (d <= e), "is_equal swapped");
  REQUIRE(vm::is_zero(a, e) == (std::fabs(a) <= e), "is_zero");
  REQUIRE(vm::is_zero(e, e) && vm::is_zero(-e, e), "is_zero at epsilon");
  const auto ua = static_cast<unsigned>(g.choice(g.flip() ? 1000 : 0)), ub = static_cast<unsigned>(g.choice(g.flip() ? 1000 : 0));
  REQUIRE(vm::abs_difference(ua, ub) == (ua > ub ? ua - ub : ub - ua), "abs_difference of unsigned " << ua << " " << ub);
  const T pa = std::fabs(a), pb = std::fabs(b);
  REQUIRE(vm::abs_difference(pa, pb) == std::fabs(pa - pb) && vm::abs_difference(-pa, -pb) == std::fabs(pa - pb), "abs_difference of values of one sign");
  REQUIRE(vm::abs_difference(pa, -pb) == std::fabs(pa - pb) && vm::abs_difference(-pa, pb) == std::fabs(pa - pb), "abs_difference of values of different signs is not that of the absolute values");
}
TEST(equality, 1000000) { if (g.flip()) equality<double>(g); else equality<float>(g); }

template <typename T> static void interpolation(G& g) {
  const T x = g.flip() ? grid<T>(g) : num<T>(g), y = g.flip() ? grid<T>(g) : num<T>(g);
  const T a = g.choice(3) == 0 ? static_cast<T>(g.range(0, 4)) / T(4) : g.flip() ? static_cast<T>(g.unit()) : num<T>(g, 10.0);
  g.note("x", x); g.note("y", y); g.note("a", a);
  g.nontrivial(x != y && a != 0 && a != 1);
  using L = long double;
  const L ref = L(x) * (1 - L(a)) + L(a) * L(y);
  const L mag = (std::fabs(L(x)) + std::fabs(L(y))) * (1 + std::fabs(L(a)));
  REQUIRE(near(vm::mix(x, y, a), ref, 8 * eps<T>() * mag), "mix gives " << vm::mix(x, y, a) << " instead of " << ref);
  REQUIRE(vm::mix(x, y, T(0)) == x && vm::mix(x, y, T(1)) == y, "mix misses an end point");
  const L spread = std::fabs(L(x) - L(y));
  if (spread > 1024 * eps<T>() * (std::fabs(L(x)) + std::fabs(L(y)))) {
    const T lo = std::min(x, y), hi = std::max(x, y);
    const T v = g.choice(5) == 0 ? lo : g.choice(5) == 0 ? hi : static_cast<T>(g.real(double(lo) - double(hi - lo) / 4, double(hi) + double(hi - lo) / 4));
    g.note("v", v);
    const T s = vm::smoothstep(lo, hi, v);
    const L t = std::min(L(1), std::max(L(0), (L(v) - L(lo)) / (L(hi) - L(lo))));
    const L tol = 32 * eps<T>() * (1 + (std::fabs(L(lo)) + std::fabs(L(hi)) + std::fabs(L(v))) / (L(hi) - L(lo)));
    REQUIRE(near(s, t * t * (3 - 2 * t), tol), "smoothstep gives " << s);
    if (v <= lo) REQUIRE(s == 0, "smoothstep below the interval gives " << s);
    if (v >= hi) REQUIRE(s == 1, "smoothstep above the interval gives " << s);
    REQUIRE(s >= 0 && s <= 1 + tol, "smoothstep leaves [0, 1]: " << s);
  }
}
TEST(interpolation, 1000000) { if (g.flip()) interpolation<double>(g); else interpolation<float>(g); }

// multiples of pi and e are the closest values of the type, up to rounding
template <typename T> static void constants(G& g) {
  using L = long double;
  using K = vm::constants<T>;
  const L pi = 3.14159265358979323846264338327950288L;
  const T x = num<T>(g);
  g.note("x", x);
  g.nontrivial(x != 0);
  const L tol = 2 * eps<T>() * std::fabs(L(x));
  REQUIRE(near(L(x) * K::pi(), L(x) * pi, 4 * tol), "pi");
  REQUIRE(near(L(x) * K::two_pi(), L(x) * 2 * pi, 8 * tol), "two_pi");
  REQUIRE(near(L(x) * K::half_pi(), L(x) * pi / 2, 2 * tol), "half_pi");
  REQUIRE(near(L(x) * K::quarter_pi(), L(x) * pi / 4, tol), "quarter_pi");
  REQUIRE(near(L(x) * K::three_half_pi(), L(x) * pi * 1.5L, 6 * tol), "three_half_pi");
  REQUIRE(near(L(x) * K::e(), L(x) * std::exp(1.0L), 4 * tol), "e");
}
TEST(constants, 1000) { if (g.flip()) constants<double>(g); else constants<float>(g); }

template <typename T> static void modulo(G& g) {
  // exact: both arguments are multiples of 2^-s with few digits
  const long s = g.range(0, 3), d = 1l << s;
  const long n = g.zint(g.pick<long>({10, 100, 2000})), m = g.zint(200);
  if (m == 0) return;
  const T x = static_cast<T>(n) / static_cast<T>(d), y = static_cast<T>(m) / static_cast<T>(d);
  g.note("x", x); g.note("y", y);
  g.nontrivial(n % m != 0 && std::labs(n) > std::labs(m));
  const T r = vm::mod(x, y);
  REQUIRE(r == static_cast<T>(n % m) / static_cast<T>(d), "mod gives " << r);
}
TEST(modulo, 600000) { if (g.flip()) modulo<double>(g); else modulo<float>(g); }

// the angle is reduced to [0, period) and keeps its residue
template <typename T> static void angles(G& g) {
  using L = long double;
  const bool deg = g.flip();
  const T period = deg ? T(360) : vm::constants<T>::two_pi();
  T a;
  switch (g.choice(7)) {
    case 5: a = period * static_cast<T>(g.zint(40)) / T(4) + logscale<T>(g, -40, 0); g.label("a little off a quarter turn"); break;
    case 0: a = static_cast<T>(g.zint(1440)); break;
    case 1: a = ulps(period * static_cast<T>(g.zint(40)) / T(4), g.zint(2)); g.label("near a quarter turn"); break;
    case 2: a = static_cast<T>(g.real(-2000, 2000)); break;
    case 3: a = -std::fabs(logscale<T>(g, -80, 3)); g.label("small negative"); break;
    case 4: a = logscale<T>(g, 0, sizeof(T) == 4 ? 20 : 40); g.label("large"); break;
    default: a = special<T>(g, false); if (!(std::fabs(a) < T(1e6))) a = T(0); break;
  }
  g.note(deg ? "degrees" : "radians", a);
  g.nontrivial(a < 0 || a >= period);
  const T r = deg ? vm::normalize_degrees(a) : vm::normalize_radians(a);
  // multiples of 2 pi are inexact: after several turns the reduced angle carries the rounding of one of them
  const L slack = deg || std::fabs(a) < 2 * period ? L(0) : eps<T>() * std::fabs(L(a));
  REQUIRE(r >= -slack && (slack == 0 ? r < period : L(r) < L(period) + slack), "normalized angle " << r << " is outside of [0, " << period << ")");
  const L q = (L(a) - L(r)) / L(period);
  REQUIRE(near(q, std::round(q), 4 * eps<T>() * (std::fabs(q) + 2)), "normalized angle " << r << " differs from the angle by " << q << " turns");
  if (a >= 0 && a < period) REQUIRE(r == a, "an angle that is already normalized changes to " << r);
  const L pi = 3.14159265358979323846264338327950288L;
  if (std::fabs(a) < T(1e6) && std::fabs(a) > T(1e-30)) {
    REQUIRE(near(vm::to_radians(a), L(a) * pi / 180, 4 * eps<T>() * std::fabs(L(a))), "to_radians gives " << vm::to_radians(a));
    REQUIRE(near(vm::to_degrees(a), L(a) * 180 / pi, 4 * eps<T>() * std::fabs(L(a)) * 60), "to_degrees gives " << vm::to_degrees(a));
  }
}
TEST(angles, 1500000) { if (g.flip()) angles<double>(g); else angles<float>(g); }

// any count and stride, as long as the sum of two of them is a value of the type
template <typename T, typename U> static void cyclic(G& g) {
  using W = __int128;
  const long most = static_cast<long>(std::min<W>({W(std::numeric_limits<T>::max()), W(std::numeric_limits<U>::max()), W(std::numeric_limits<long>::max())}) / 2);
  const long count = g.range(1, std::min(most, g.pick<long>({1, 2, 7, 100, 300, 70000, 5000000000L, std::numeric_limits<long>::max()})));
  const long i = g.one_in(4) ? (g.flip() ? 0 : count - 1) : g.range(0, count - 1);
  const long st = g.flip() ? 1 : g.flip() ? g.range(0, count > most / 3 ? most : 3 * count) : g.range(0, most);
  g.note("index", i); g.note("count", count); g.note("stride", st);
  g.nontrivial(count > 1);
  const auto p = [&](long x) { return static_cast<T>(x); };
  const W s = vm::succ(p(i), static_cast<U>(count), p(st)), q = vm::pred(p(i), static_cast<U>(count), p(st));
  REQUIRE(s == (W(i) + st) % count, "succ gives " << static_cast<long>(s));
  REQUIRE(q == ((W(i) - st) % count + count) % count, "pred gives " << static_cast<long>(q));
  REQUIRE(W(vm::succ(p(i), static_cast<U>(count))) == (W(i) + 1) % count, "succ by one");
  REQUIRE(W(vm::pred(p(i), static_cast<U>(count))) == (W(i) + count - 1) % count, "pred by one");
}
TEST(cyclic, 1000000) {
  switch (g.choice(7)) {
    case 0: cyclic<std::size_t, std::size_t>(g); break;
    case 1: cyclic<int, int>(g); break;
    case 2: cyclic<unsigned, std::size_t>(g); break;
    case 3: cyclic<std::size_t, int>(g); break;
    case 4: cyclic<long, unsigned>(g); break;
    case 5: cyclic<short, std::size_t>(g); break;
    default: cyclic<unsigned char, unsigned char>(g); break;
  }
}

template <typename T> static void neighbours(G& g) {
  const T v = anyfloat<T>(g, false);
  g.note(tname<T>(), v);
  g.nontrivial(std::isfinite(v));
  const T r = vm::nextgreater(v);
  if (v == std::numeric_limits<T>::infinity()) {
    REQUIRE(r == v, "nextgreater of infinity gives " << r);
    return;
  }
  REQUIRE(r > v, "nextgreater gives " << r);
  if (v == 0) REQUIRE(r == std::numeric_limits<T>::denorm_min(), "nextgreater of zero gives " << r);
  else {
    typename std::conditional<sizeof(T) == 4, std::int32_t, std::int64_t>::type a, b;
    std::memcpy(&a, &v, sizeof v);
    std::memcpy(&b, &r, sizeof r);
    if (v < 0 && r == 0) REQUIRE(v == -std::numeric_limits<T>::denorm_min(), "nextgreater skips values");
    else REQUIRE(v > 0 ? b == a + 1 : b == a - 1, "nextgreater skips values: " << r);
  }
}
TEST(neighbours, 600000) { if (g.flip()) neighbours<double>(g); else neighbours<float>(g); }

template <typename T> static void roots(G& g) {
  T v;
  switch (g.choice(5)) {
    case 0: v = std::fabs(grid<T>(g)); break;
    case 4: v = std::fabs(special<T>(g)); break;
    case 1: { const T b = static_cast<T>(g.range(0, 3000)); v = ulps(b * b, g.zint(2)); if (v < 0) v = 0; break; }
    case 2: v = std::fabs(logscale<T>(g, sizeof(T) == 4 ? -140 : -1060, sizeof(T) == 4 ? 128 : 1024)); break;
    default: v = static_cast<T>(g.real(0, 10000)); break;
  }
  g.note(tname<T>(), v);
  g.nontrivial(v > 0 && v != 1);
  REQUIRE(same(vm::sqrt(v), std::sqrt(v)), "sqrt gives " << vm::sqrt(v));
  const T r = vm::sqrt_c(v);
  if (v != v || v == std::numeric_limits<T>::infinity()) { REQUIRE(same(r, v), "sqrt_c gives " << r); return; }
  REQUIRE(near(r, std::sqrt(static_cast<long double>(v)), 2 * eps<T>() * static_cast<long double>(std::sqrt(v))), "sqrt_c gives " << r);
  if (v > 0) REQUIRE(vm::is_nan(vm::sqrt_c(-v)), "sqrt_c of a negative value gives " << vm::sqrt_c(-v));
}
TEST(roots, 800000) { if (g.flip()) roots<double>(g); else roots<float>(g); }
