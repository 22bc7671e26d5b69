// Rounding, snapping and correcting of scalars
#include "common.h"
#include <vecmath/scalar.h>

template <typename T> static T rounding_input(G& g) {
  const long big = sizeof(T) == 4 ? 1l << 22 : 1l << 51;
  switch (g.choice(6)) {
    case 0: return grid<T>(g);
    case 1: { g.label("near integer"); return ulps(static_cast<T>(g.zint(40)), g.zint(2)); }
    case 2: { g.label("near half"); return ulps(static_cast<T>(g.zint(40)) + T(0.5), g.zint(2)); }
    case 3: { g.label("large"); const T b = static_cast<T>(g.range(big - 64, 2 * big + 64)); T v = ulps(b, g.zint(3)); return g.flip() ? -v : v; }
    case 4: return logscale<T>(g, -30, sizeof(T) == 4 ? 127 : 1023);
    default: return num<T>(g, 100000.0);
  }
}

template <typename T> static void rounding(G& g) {
  const T v = rounding_input<T>(g);
  g.note(tname<T>(), v);
  g.nontrivial(v != std::trunc(v) || std::fabs(v) > T(1 << 20));
  REQUIRE(vm::trunc(v) == std::trunc(v), "trunc gives " << vm::trunc(v));
  REQUIRE(vm::floor(v) == std::floor(v), "floor gives " << vm::floor(v));
  REQUIRE(vm::ceil(v) == std::ceil(v), "ceil gives " << vm::ceil(v));
  REQUIRE(vm::round(v) == std::round(v), "round gives " << vm::round(v));
  REQUIRE(vm::round_up(v) == (v < 0 ? std::floor(v) : std::ceil(v)), "round_up gives " << vm::round_up(v));
  REQUIRE(vm::round_down(v) == std::trunc(v), "round_down gives " << vm::round_down(v));
  REQUIRE(vm::fract(v) == v - std::trunc(v), "fract gives " << vm::fract(v));
}
TEST(rounding, 900000) {
  if (g.flip()) rounding<float>(g); else rounding<double>(g);
}

// v = n * 2^-s, grid = m * 2^-s: everything is decided in integers
template <typename T> static void snap_exact(G& g) {
  const T d = static_cast<T>(std::ldexp(1.0, static_cast<int>(g.one_in(3) ? g.range(-20, 30) : g.range(0, 4))));
  const long m0 = g.range(1, 80);
  const long m = g.one_in(3) ? m0 : (1l << g.range(0, 6));
  long n;
  switch (g.choice(4)) {
    case 0: n = m * g.zint(20); g.label("on the grid"); break;
    case 1: n = m * g.zint(20) + m / 2; g.label("halfway (m even)"); break;
    case 2: n = m * g.zint(20) + g.zint(1); g.label("next to the grid"); break;
    default: n = g.zint(2000); break;
  }
  const T v = static_cast<T>(n) / d;
  const T grid = static_cast<T>(m) / d;
  g.note("v", v); g.note("grid", grid);
  g.nontrivial(n % m != 0);
  const long an = std::labs(n), sg = n < 0 ? -1 : 1;
  const T down = static_cast<T>(sg * (an / m) * m) / d;
  const T up = static_cast<T>(sg * ((an + m - 1) / m) * m) / d;
  const T nearest = static_cast<T>(sg * ((2 * an + m) / (2 * m)) * m) / d;
  REQUIRE(vm::snap(v, grid) == nearest, "snap gives " << vm::snap(v, grid) << " instead of " << nearest);
  REQUIRE(vm::snap(v, -grid) == nearest, "snap to the negated grid gives " << vm::snap(v, -grid) << " instead of " << nearest);
  REQUIRE(vm::snapUp(v, grid) == up, "snapUp gives " << vm::snapUp(v, grid) << " instead of " << up);
  REQUIRE(vm::snapDown(v, grid) == down, "snapDown gives " << vm::snapDown(v, grid) << " instead of " << down);
  REQUIRE(vm::snap(nearest, grid) == nearest && vm::snapUp(nearest, grid) == nearest && vm::snapDown(nearest, grid) == nearest,
          "snapping a multiple of the grid moves it");
}
TEST(snap_exact, 600000) {
  if (g.flip()) snap_exact<float>(g); else snap_exact<double>(g);
}

template <typename T> static void snap_real(G& g) {
  const T v = num<T>(g, 5000.0);
  const T grid = std::fabs(g.flip() ? logscale<T>(g, -6, 7) : static_cast<T>(g.real(0.01, 64.0)));
  g.note("v", v); g.note("grid", grid);
  g.nontrivial();
  const long double tol = 8 * eps<T>() * (std::fabs(static_cast<long double>(v)) + grid);
  for (int k = 0; k < 3; ++k) {
    const T r = k == 0 ? vm::snap(v, grid) : k == 1 ? vm::snapUp(v, grid) : vm::snapDown(v, grid);
    const long double q = static_cast<long double>(r) / static_cast<long double>(grid);
    REQUIRE(near(q, std::round(q), tol / grid), "result " << r << " is no multiple of the grid");
    const long double d = static_cast<long double>(r) - static_cast<long double>(v);
    if (k == 0) REQUIRE(std::fabs(d) <= static_cast<long double>(grid) / 2 + tol, "snap moves by more than half the grid, to " << r);
    if (k == 1) REQUIRE((v < 0 ? -d : d) >= -tol && std::fabs(d) < grid + tol, "snapUp gives " << r);
    if (k == 2) REQUIRE((v < 0 ? d : -d) >= -tol && std::fabs(d) < grid + tol, "snapDown gives " << r);
  }
}
TEST(snap_real, 400000) {
  if (g.flip()) snap_real<float>(g); else snap_real<double>(g);
}

// values at a dyadic distance from an integer, compared with a dyadic epsilon
template <typename T> static void correct_exact(G& g) {
  const long n = g.zint(2000);
  const long k = g.zint(512); // |k| / 1024 < 1/2 except at the ends
  const long e = g.choice(3) == 0 ? std::labs(k) : g.range(1, 512);
  const T v = static_cast<T>(n) + static_cast<T>(k) / T(1024);
  const T epsilon = static_cast<T>(e) / T(1024);
  g.note("v", v); g.note("epsilon", epsilon);
  g.nontrivial(k != 0);
  if (std::labs(k) == e) g.label("distance == epsilon");
  if (std::labs(k) == 512) return; // two nearest integers
  const T expected = std::labs(k) < e ? static_cast<T>(n) : v;
  REQUIRE(vm::correct(v, 0, epsilon) == expected, "correct gives " << vm::correct(v, 0, epsilon) << " instead of " << expected);
  const T def = std::labs(k) < 2 ? static_cast<T>(n) : v; // the default epsilon is 0.001
  if (n > -100 && n < 100) REQUIRE(vm::correct(v) == def, "correct with defaults gives " << vm::correct(v));
}
TEST(correct_exact, 400000) {
  if (g.flip()) correct_exact<float>(g); else correct_exact<double>(g);
}

// with decimals: a value within epsilon of a multiple of 10^-decimals goes there, others stay
template <typename T> static void correct_decimals(G& g) {
  const std::size_t dec = static_cast<std::size_t>(g.flip() ? g.range(1, 3) : g.range(1, sizeof(T) == 4 ? 9 : 18));
  long m = 1;
  for (std::size_t i = 0; i < dec; ++i) m *= 10;
  const long n = g.zint(sizeof(T) == 4 ? 2000 : 200000);
  const long double unit = 1.0L / static_cast<long double>(m);
  const long double off = g.real(-0.45, 0.45) * static_cast<double>(unit);
  const long double epsilon = g.real(0.02, 0.6) * static_cast<double>(unit);
  const T v = static_cast<T>(static_cast<long double>(n) * unit + off);
  g.note("v", v); g.note("decimals", dec); g.note("epsilon", static_cast<T>(epsilon));
  const long double tol = 4 * eps<T>() * (std::fabs(static_cast<long double>(v)) + unit);
  if (std::fabs(std::fabs(off) - epsilon) < 2 * tol) return;
  g.nontrivial();
  const T r = vm::correct(v, dec, static_cast<T>(epsilon));
  if (std::fabs(off) < epsilon) REQUIRE(near(r, static_cast<long double>(n) * unit, tol), "correct gives " << r);
  else REQUIRE(r == v, "correct moves a value that is not within epsilon, to " << r);
}
TEST(correct_decimals, 300000) {
  if (g.flip()) correct_decimals<float>(g); else correct_decimals<double>(g);
}
