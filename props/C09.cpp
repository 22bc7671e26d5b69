// Determinants, adjugates, inverses and linear systems
#include "matgeo.h"

// integer matrices, of full rank or not: exact
template <typename T, std::size_t N> static vm::mat<T, N, N> gen(G& g, long k) {
  auto m = imat<T, N, N>(g, k);
  switch (g.choice(5)) {
    case 0: break;
    case 1: // sparse: zero pivots
      for (std::size_t j = 0; j < N; ++j) for (std::size_t i = 0; i < N; ++i) if (g.flip()) m.v[j].v[i] = T(0);
      break;
    case 2: { // permuted diagonal
      std::array<std::size_t, N> p;
      for (std::size_t i = 0; i < N; ++i) p[i] = i;
      for (std::size_t i = N; i > 1; --i) std::swap(p[i - 1], p[g.below(i)]);
      for (std::size_t j = 0; j < N; ++j) for (std::size_t i = 0; i < N; ++i) if (p[j] != i) m.v[j].v[i] = T(0);
      break;
    }
    case 3: // dependent columns or rows
      if (N > 1) {
        const auto a = g.below(N), b = g.below(N);
        if (a != b) {
          if (g.flip()) m.v[a] = m.v[b] * static_cast<T>(g.zint(2));
          else for (std::size_t j = 0; j < N; ++j) m.v[j].v[a] = m.v[j].v[b] * static_cast<T>(g.zint(1) == 0 ? 2 : 2);
        }
      }
      break;
    default: // triangular
      for (std::size_t j = 0; j < N; ++j) for (std::size_t i = j + 1; i < N; ++i) m.v[j].v[i] = T(0);
      break;
  }
  return m;
}

template <typename T, std::size_t N> static void determinant(G& g) {
  const long k = N > 5 ? 2 : N > 4 ? 4 : g.pick<long>({2, 5, 10});
  const auto m = gen<T, N>(g, sizeof(T) == 4 ? std::min(k, 5l) : k);
  g.note("m", m);
  const R d = rdet(mref(m));
  // results of the usual formulas are exact here; allow other ways of computing them to round
  const R tol = std::min(R(0.25), 64 * eps<T>() * std::pow(R(k * N), R(N)));
  g.nontrivial(d != 0);
  g.label(d == 0 ? "singular" : "regular");
  REQUIRE(near(vm::compute_determinant(m), d, tol), "compute_determinant gives " << vm::compute_determinant(m) << " instead of " << d);
  REQUIRE(near(vm::compute_determinant(vm::transpose(m)), d, tol), "the transposed matrix has determinant " << vm::compute_determinant(vm::transpose(m)));
  if constexpr (N >= 2) {
    const auto a = vm::compute_adjugate(m);
    const auto want = [&] {
      rm<N, N> r;
      for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < N; ++j) {
        rm<N - 1, N - 1> q;
        for (std::size_t x = 0, y = 0; x < N; ++x) if (x != j) {
          for (std::size_t u = 0, w = 0; u < N; ++u) if (u != i) q[y][w++] = static_cast<R>(m.v[u].v[x]);
          ++y;
        }
        r[i][j] = ((i + j) % 2 ? -1 : 1) * rdet(q);
      }
      return r;
    }();
    REQUIRE(mnear(mref(a), want, tol), "compute_adjugate gives " << a << " instead of " << want);
  }
}
// rows and columns multiplied by powers of two: the determinant and the adjugate are multiplied by them
template <typename T, std::size_t N> static void scaled(G& g) {
  const int most = sizeof(T) == 4 ? 8 : 40;
  const auto m = gen<T, N>(g, 4);
  std::array<int, N> er{}, ec{};
  for (auto& e : er) e = static_cast<int>(g.zint(most));
  for (auto& e : ec) e = static_cast<int>(g.zint(most));
  auto s = m;
  int sum = 0;
  for (std::size_t j = 0; j < N; ++j) {
    sum += er[j] + ec[j];
    for (std::size_t i = 0; i < N; ++i) s.v[j].v[i] = std::ldexp(m.v[j].v[i], er[i] + ec[j]);
  }
  g.note("m", s);
  const R d = std::ldexp(rdet(mref(m)), sum);
  g.nontrivial(d != 0);
  const R tol = 64 * eps<T>() * std::pow(R(4 * N), R(N));
  REQUIRE(near(vm::compute_determinant(s), d, std::ldexp(tol, sum)), "compute_determinant gives " << vm::compute_determinant(s) << " instead of " << d);
  if constexpr (N >= 2) {
    const auto a = vm::compute_adjugate(m), b = vm::compute_adjugate(s);
    for (std::size_t j = 0; j < N; ++j) for (std::size_t i = 0; i < N; ++i) {
      const int e = sum - er[j] - ec[i];
      REQUIRE(near(b.v[j].v[i], std::ldexp(R(a.v[j].v[i]), e), std::ldexp(tol, e)), "compute_adjugate gives " << b << " where the unscaled matrix has " << a);
    }
  }
}
TEST(scaled_determinant, 800000) {
  switch (g.choice(6)) {
    case 0: scaled<double, 1>(g); break;
    case 1: scaled<double, 2>(g); break;
    case 2: scaled<double, 3>(g); break;
    case 3: scaled<float, 3>(g); break;
    case 4: scaled<double, 4>(g); break;
    default: scaled<float, 4>(g); break;
  }
}
TEST(determinant, 1200000) {
  switch (g.choice(7)) {
    case 0: determinant<double, 1>(g); break;
    case 1: determinant<double, 2>(g); break;
    case 2: determinant<double, 3>(g); break;
    case 3: determinant<float, 3>(g); break;
    case 4: determinant<double, 4>(g); break;
    case 5: determinant<float, 4>(g); break;
    default: determinant<double, 5>(g); break;
  }
}
TEST(large_determinant, 30000) { if (g.one_in(8)) determinant<double, 7>(g); else determinant<double, 6>(g); }

// well conditioned integer or real matrices: the inverse exists and is right; integer matrices with a zero row or
// column, or with columns that are all multiples of one by a power of two, are reported as singular
template <typename T, std::size_t N> static void inverse(G& g) {
  auto m = gen<T, N>(g, g.pick<long>({2, 5, 10}));
  if (g.one_in(3)) for (std::size_t j = 0; j < N; ++j) for (std::size_t i = 0; i < N; ++i) if (m.v[j].v[i] != 0) m.v[j].v[i] += static_cast<T>(g.real(-0.5, 0.5));
  if (g.one_in(4)) { const auto f = static_cast<T>(std::ldexp(1.0, static_cast<int>(g.zint(g.pick<long>({8, 44}))))); m = m * f; }
  const auto b = ivec<T, N>(g, 9);
  g.note("m", m); g.note("b", b);
  const auto rmx = mref(m);
  rm<N, N> inv;
  R det;
  const bool reg = rinvert(rmx, inv, det);
  if (reg) {
    const R cond = mmax(rmx) * mmax(inv) * N;
    if (!(cond < (sizeof(T) == 4 ? 300 : 1e6L))) { g.label("badly conditioned"); return; }
    // every pivot is at least this large; the library takes pivots below 1e-15 for zero
    if (!(1 / (mmax(inv) * N) > R(1e-14))) { g.label("tiny pivots"); return; }
    g.label("regular");
    g.nontrivial(N > 1);
    const auto [ok, r] = vm::invert(m);
    REQUIRE(ok, "invert reports a regular matrix as singular");
    const R tol = 64 * eps<T>() * cond * mmax(inv) * N;
    REQUIRE(mnear(mref(r), inv, tol), "invert gives " << r << " instead of " << inv);
    REQUIRE(mnear(mref(m) * mref(r), rident<N>(), 64 * eps<T>() * cond * cond * N), "m * invert(m) is not the identity");
    const auto [solved, x] = vm::lup_solve(m, b);
    REQUIRE(solved, "lup_solve reports a regular system as singular");
    const auto want = inv * ref(b);
    REQUIRE(vnear(x, want, tol * 9 * N), "lup_solve gives " << x << " instead of " << want);
  } else {
    // exactly singular in the working precision too: a zero row or column, or a row that is a multiple of another
    bool clear = false;
    for (std::size_t i = 0; i < N; ++i) {
      bool zr = true, zc = true;
      for (std::size_t j = 0; j < N; ++j) { zr = zr && rmx[i][j] == 0; zc = zc && rmx[j][i] == 0; }
      clear = clear || zr || zc;
      // a row that is another one times a power of two: elimination does not round differently in them
      for (std::size_t k = 0; k < N; ++k) if (k != i) for (int e = -1; e <= 1; ++e) for (int s = -1; s <= 1; s += 2) {
        const R f = s * std::ldexp(R(1), e);
        bool mr = true;
        for (std::size_t j = 0; j < N; ++j) mr = mr && rmx[i][j] == f * rmx[k][j];
        clear = clear || mr;
      }
    }
    if (!clear) { g.label("singular, unclear"); return; }
    g.label("singular");
    g.nontrivial();
    REQUIRE(!std::get<0>(vm::invert(m)), "invert reports a singular matrix as regular");
    REQUIRE(!std::get<0>(vm::lup_solve(m, b)), "lup_solve reports a singular matrix as regular");
    REQUIRE(std::get<1>(vm::invert(m)) == (vm::mat<T, N, N>::identity()), "invert of a singular matrix does not return the identity");
  }
}
TEST(inverse, 1500000) {
  switch (g.choice(8)) {
    case 0: inverse<double, 1>(g); break;
    case 1: inverse<double, 2>(g); break;
    case 2: inverse<double, 3>(g); break;
    case 3: inverse<float, 3>(g); break;
    case 4: inverse<double, 4>(g); break;
    case 5: inverse<float, 4>(g); break;
    case 6: inverse<float, 2>(g); break;
    default: inverse<double, 6>(g); break;
  }
}
