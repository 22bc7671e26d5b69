// Matrix construction, comparison, sums, products, transposition, slices, minors
#include "matgeo.h"

// products of integer matrices are exact
template <typename T, std::size_t N, std::size_t K, std::size_t M> static void product(G& g) {
  const long k = g.pick<long>({1, 9, 100});
  auto a = imat<T, N, K>(g, k);
  if constexpr (!std::is_integral_v<T>) if (k < 100 && g.one_in(4)) {
    g.label("almost the identity");
    for (std::size_t j = 0; j < K; ++j) for (std::size_t i = 0; i < N; ++i) a.v[j].v[i] = (i == j ? T(1) : T(0)) + a.v[j].v[i] * T(0x1p-12);
  }
  const auto b = imat<T, K, M>(g, k);
  g.note("a", a); g.note("b", b);
  g.nontrivial(k > 1);
  REQUIRE(mexact(a * b, mref(a) * mref(b)), "a * b gives " << (a * b));
  const auto x = ivec<T, K>(g, k);
  const auto y = ivec<T, N>(g, k);
  g.note("x", x); g.note("y", y);
  REQUIRE(vexact(a * x, mref(a) * ref(x)), "matrix * vector gives " << (a * x));
  const auto ya = y * a; // row vector times matrix
  for (std::size_t j = 0; j < K; ++j) {
    R s = 0;
    for (std::size_t i = 0; i < N; ++i) s += static_cast<R>(y.v[i]) * static_cast<R>(a.v[j].v[i]);
    REQUIRE(static_cast<R>(ya.v[j]) == s, "vector * matrix: component " << j << " is " << ya.v[j] << " instead of " << s);
  }
  // rows, columns and the terms of the sums scaled by powers of two: still exact
  if constexpr (!std::is_integral_v<T>) {
    auto sa = a;
    auto sb = b;
    auto sx = x, sz = x;
    std::array<int, N> er{};
    std::array<int, M> ec{};
    for (auto& e : er) e = static_cast<int>(g.range(-20, 20));
    for (auto& e : ec) e = static_cast<int>(g.range(-20, 20));
    for (std::size_t i = 0; i < K; ++i) {
      const int e = static_cast<int>(g.range(-20, 20));
      for (std::size_t r = 0; r < N; ++r) sa.v[i].v[r] = std::ldexp(a.v[i].v[r], e + er[r]);
      for (std::size_t c = 0; c < M; ++c) sb.v[c].v[i] = std::ldexp(b.v[c].v[i], ec[c] - e);
      sx.v[i] = std::ldexp(x.v[i], -e);
      sz.v[i] = std::ldexp(x.v[i], e);
    }
    g.note("scaled a", sa); g.note("scaled b", sb);
    REQUIRE(mexact(sa * sb, mref(sa) * mref(sb)), "the product of the scaled matrices is " << (sa * sb));
    REQUIRE(vexact(sa * sx, mref(sa) * ref(sx)), "scaled matrix * vector gives " << (sa * sx));
    REQUIRE(vexact(sz * sb, mref(vm::transpose(sb)) * ref(sz)), "scaled vector * matrix gives " << (sz * sb));
  }
  const auto t = vm::transpose(a);
  for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < K; ++j) REQUIRE(t.v[i].v[j] == a.v[j].v[i], "transpose gives " << t);
}
TEST(product, 1500000) {
  switch (g.choice(12)) {
    case 0: product<double, 4, 4, 4>(g); break;
    case 1: product<float, 4, 4, 4>(g); break;
    case 2: product<double, 3, 3, 3>(g); break;
    case 3: product<double, 2, 2, 2>(g); break;
    case 4: product<double, 2, 3, 4>(g); break;
    case 5: product<float, 4, 2, 3>(g); break;
    case 6: product<double, 3, 4, 1>(g); break;
    case 7: product<double, 1, 3, 2>(g); break;
    case 8: product<int, 3, 3, 3>(g); break;
    case 9: product<long, 2, 3, 2>(g); break;
    case 10: product<float, 1, 1, 1>(g); break;
    default: product<double, 5, 5, 5>(g); break;
  }
}

template <typename T, std::size_t N, std::size_t M> static void elementwise(G& g) {
  const auto gen = [&] { vm::mat<T, N, M> r; for (std::size_t j = 0; j < M; ++j) for (std::size_t i = 0; i < N; ++i) r.v[j].v[i] = g.flip() ? grid<T>(g) : anyfloat<T>(g, true); return r; };
  const auto a = gen();
  auto b = gen();
  const T f = g.flip() ? grid<T>(g) : anyfloat<T>(g, true);
  g.note("a", a); g.note("b", b); g.note("f", f);
  g.nontrivial();
  const auto all = [&](const char* what, const vm::mat<T, N, M>& r, auto&& op) {
    for (std::size_t j = 0; j < M; ++j) for (std::size_t i = 0; i < N; ++i)
      REQUIRE(same(r.v[j].v[i], static_cast<T>(op(i, j))), what << ": element " << i << "," << j << " is " << r.v[j].v[i]);
  };
  using S = std::size_t;
  all("+a", +a, [&](S i, S j) { return a.v[j].v[i]; });
  all("-a", -a, [&](S i, S j) { return -a.v[j].v[i]; });
  all("a+b", a + b, [&](S i, S j) { return a.v[j].v[i] + b.v[j].v[i]; });
  all("a-b", a - b, [&](S i, S j) { return a.v[j].v[i] - b.v[j].v[i]; });
  all("a*f", a * f, [&](S i, S j) { return a.v[j].v[i] * f; });
  all("f*a", f * a, [&](S i, S j) { return f * a.v[j].v[i]; });
  all("a/f", a / f, [&](S i, S j) { return a.v[j].v[i] / f; });
  all("fill", vm::mat<T, N, M>::fill(f), [&](S, S) { return f; });
  all("zero", vm::mat<T, N, M>::zero(), [&](S, S) { return T(0); });
  all("identity", vm::mat<T, N, M>::identity(), [&](S i, S j) { return i == j ? T(1) : T(0); });
  all("default", vm::mat<T, N, M>(), [&](S i, S j) { return i == j ? T(1) : T(0); });
  const auto r = g.below(N), c = g.below(M);
  all("set", vm::set(a, r, c, f), [&](S i, S j) { return i == r && j == c ? f : a.v[j].v[i]; });
  using U = typename std::conditional<sizeof(T) == 4, double, float>::type;
  const vm::mat<U, N, M> conv(a);
  for (S j = 0; j < M; ++j) for (S i = 0; i < N; ++i) REQUIRE(same(conv.v[j].v[i], static_cast<U>(a.v[j].v[i])), "conversion changes element " << i << "," << j);
  if constexpr (N > 1 && M > 1) {
    const auto mn = vm::extract_minor(a, r, c);
    for (S j = 0; j + 1 < M; ++j) for (S i = 0; i + 1 < N; ++i)
      REQUIRE(same(mn.v[j].v[i], a.v[j + (j >= c)].v[i + (i >= r)]), "minor without row " << r << " and column " << c << " is wrong at " << i << "," << j);
    const auto rr = g.below(N - 1), cc = g.below(M - 1);
    const auto s = vm::slice<2, 2>(a, rr, cc);
    for (S j = 0; j < 2; ++j) for (S i = 0; i < 2; ++i) REQUIRE(same(s.v[j].v[i], a.v[j + cc].v[i + rr]), "slice at " << rr << "," << cc << " gives " << s);
    const auto s1 = vm::slice<1, M>(a, rr, 0);
    for (S j = 0; j < M; ++j) REQUIRE(same(s1.v[j].v[0], a.v[j].v[rr]), "slice of one row gives " << s1);
    const auto s2 = vm::slice<N, 1>(a, 0, cc);
    for (S i = 0; i < N; ++i) REQUIRE(same(s2.v[0].v[i], a.v[cc].v[i]), "slice of one column gives " << s2);
  }
}
TEST(elementwise, 800000) {
  switch (g.choice(9)) {
    case 0: elementwise<double, 4, 4>(g); break;
    case 1: elementwise<float, 4, 4>(g); break;
    case 2: elementwise<double, 3, 3>(g); break;
    case 3: elementwise<double, 2, 2>(g); break;
    case 4: elementwise<double, 2, 4>(g); break;
    case 5: elementwise<double, 1, 3>(g); break;
    case 6: elementwise<double, 5, 5>(g); break;
    case 7: elementwise<float, 4, 1>(g); break;
    default: elementwise<float, 3, 2>(g); break;
  }
}

// values are given row by row, indexing yields columns
template <typename T> static void layout(G& g) {
  T v[16];
  for (auto& x : v) x = static_cast<T>(g.zint(50));
  g.note("values", std::vector<T>(v, v + 16));
  g.nontrivial();
  const vm::mat<T, 4, 4> m(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15]);
  const vm::mat<T, 4, 4> l{v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7], v[8], v[9], v[10], v[11], v[12], v[13], v[14], v[15]};
  for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) REQUIRE(m[j][i] == v[4 * i + j] && l[j][i] == v[4 * i + j], "element " << i << "," << j);
  const vm::mat<T, 2, 3> n(v[0], v[1], v[2], v[3], v[4], v[5]);
  const vm::mat<T, 2, 3> k{v[0], v[1], v[2], v[3], v[4], v[5]};
  for (int i = 0; i < 2; ++i) for (int j = 0; j < 3; ++j) REQUIRE(n[j][i] == v[3 * i + j] && k[j][i] == v[3 * i + j], "element " << i << "," << j << " of a 2x3 matrix");
  const vm::mat<T, 3, 2> tn(v[0], v[1], v[2], v[3], v[4], v[5]);
  const vm::mat<T, 3, 2> tk{v[0], v[1], v[2], v[3], v[4], v[5]};
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) REQUIRE(tn[j][i] == v[2 * i + j] && tk[j][i] == v[2 * i + j], "element " << i << "," << j << " of a 3x2 matrix");
  REQUIRE((vm::mat<T, 3, 2>::rows == 3 && vm::mat<T, 3, 2>::cols == 2), "number of rows and columns");
  const auto q = vm::slice<3, 2>(m, 1, 2);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 2; ++j) REQUIRE(q[j][i] == v[4 * (i + 1) + j + 2], "slice");
  // homogeneous multiplication of a point
  const auto p = ivec<T, 3>(g, 10);
  g.note("p", p);
  rv<4> h;
  for (int i = 0; i < 3; ++i) h[i] = p.v[i];
  h[3] = 1;
  const auto hm = mref(m) * h;
  if (hm[3] != 0) {
    const auto r = m * p;
    for (int i = 0; i < 3; ++i) REQUIRE(near(r.v[i], hm[i] / hm[3], 2 * eps<T>() * std::fabs(hm[i] / hm[3])), "matrix * point gives " << r);
  }
  const auto ht = mref(vm::transpose(m)) * h;
  if (ht[3] != 0) {
    const auto r = p * m;
    for (int i = 0; i < 3; ++i) REQUIRE(near(r.v[i], ht[i] / ht[3], 2 * eps<T>() * std::fabs(ht[i] / ht[3])), "point * matrix gives " << r);
  }
  const auto p2 = ivec<T, 2>(g, 10);
  const auto m3 = vm::slice<3, 3>(m, g.below(2), g.below(2));
  g.note("p2", p2); g.note("m3", m3);
  rv<3> h3;
  h3[0] = p2.v[0]; h3[1] = p2.v[1]; h3[2] = 1;
  const auto hm3 = mref(m3) * h3;
  if (hm3[2] != 0) {
    const auto r = m3 * p2;
    for (int i = 0; i < 2; ++i) REQUIRE(near(r.v[i], hm3[i] / hm3[2], 2 * eps<T>() * std::fabs(hm3[i] / hm3[2])), "3x3 matrix * 2d point gives " << r);
  }
  // projective matrices of any precision
  vm::mat<T, 4, 4> pm;
  for (auto& c : pm.v) for (auto& e : c.v) e = num<T>(g, 10);
  vm::vec<T, 3> pp;
  for (auto& e : pp.v) e = num<T>(g, 10);
  if (g.flip()) { // almost affine
    for (int i = 0; i < 3; ++i) pm.v[i].v[3] = g.flip() ? T(0) : logscale<T>(g, -30, -5);
    pm.v[3].v[3] = g.flip() ? T(1) : T(1) + logscale<T>(g, -22, -3);
  }
  const bool left = g.flip();
  g.note("projective", pm); g.note("point", pp);
  R hh[4], mg[4];
  for (int i = 0; i < 4; ++i) {
    hh[i] = mg[i] = 0;
    for (int j = 0; j < 4; ++j) {
      const R term = static_cast<R>(left ? pm.v[i].v[j] : pm.v[j].v[i]) * (j < 3 ? static_cast<R>(pp.v[j]) : R(1));
      hh[i] += term;
      mg[i] += std::fabs(term);
    }
  }
  if (std::fabs(hh[3]) > mg[3] / 1024 && mg[3] > 0) {
    const auto r = left ? pp * pm : pm * pp;
    for (int i = 0; i < 3; ++i) {
      const R want = hh[i] / hh[3], w = std::fabs(hh[3]);
      REQUIRE(near(r.v[i], want, 8 * eps<T>() * (mg[i] / w + std::fabs(want) * mg[3] / w) + std::numeric_limits<T>::min()), (left ? "point * matrix" : "matrix * point") << " gives " << r << " instead of " << want << " in component " << i);
    }
  }
  // zero_out
  const auto x = ivec<T, 4>(g, 20);
  const auto zx = vm::mat<T, 4, 4>::template zero_out<2>() * x;
  REQUIRE(zx == (vm::vec<T, 4>(x[0], x[1], T(0), x[3])), "zero_out<2> gives " << zx);
  const auto zy = vm::mat<T, 4, 4>::template zero_out<0>() * x;
  REQUIRE(zy == (vm::vec<T, 4>(T(0), x[1], x[2], x[3])), "zero_out<0> gives " << zy);
}
TEST(layout, 600000) { if (g.flip()) layout<double>(g); else layout<float>(g); }

// column by column comparison, with a tolerance that is exact here
template <typename T, std::size_t N, std::size_t M> static void comparison(G& g) {
  vm::mat<T, N, M> a;
  for (std::size_t j = 0; j < M; ++j) for (std::size_t i = 0; i < N; ++i) a.v[j].v[i] = g.one_in(12) ? std::numeric_limits<T>::quiet_NaN() : static_cast<T>(g.zint(8)) / T(4);
  auto b = a;
  T e = static_cast<T>(g.range(0, 8)) / T(16);
  const T unit = static_cast<T>(std::ldexp(1.0, g.flip() ? 0 : static_cast<int>(g.range(-25, 25))));
  const auto changes = g.below(3);
  for (std::size_t n = 0; n < changes; ++n) {
    auto& x = b.v[g.below(M)].v[g.below(N)];
    switch (g.choice(5)) {
      case 0: x = x + e; break;
      case 1: x = x - e; break;
      case 2: x = x + e + T(1) / T(16); break;
      case 3: x = x - e - T(1) / T(16); break;
      default: x = g.flip() ? std::numeric_limits<T>::quiet_NaN() : T(0); break;
    }
  }
  for (auto* m : {&a, &b}) for (auto& c : m->v) for (auto& x : c.v) x *= unit;
  e *= unit;
  g.note("a", a); g.note("b", b); g.note("epsilon", e);
  const auto cmp = [&](const T eps) {
    for (std::size_t j = 0; j < M; ++j) for (std::size_t i = 0; i < N; ++i) {
      const T x = a.v[j].v[i], y = b.v[j].v[i];
      if (x != x || y != y) { const int c = int(x != x) - int(y != y); if (c) return c; }
      else if (std::fabs(x - y) > eps) return x < y ? -1 : 1;
    }
    return 0;
  };
  const auto sgn = [](int c) { return c < 0 ? -1 : c > 0 ? 1 : 0; };
  g.nontrivial(changes > 0);
  g.label(cmp(e) == 0 ? "equal" : "different");
  REQUIRE(sgn(vm::compare(a, b)) == cmp(T(0)) && sgn(vm::compare(b, a)) == -cmp(T(0)), "compare gives " << vm::compare(a, b));
  REQUIRE(sgn(vm::compare(a, b, e)) == cmp(e) && sgn(vm::compare(b, a, e)) == -cmp(e), "compare with epsilon gives " << vm::compare(a, b, e));
  REQUIRE((a == b) == (cmp(T(0)) == 0) && (a != b) == (cmp(T(0)) != 0), "== or != disagrees with the comparison");
  REQUIRE(vm::is_equal(a, b, e) == (cmp(e) == 0), "is_equal gives " << vm::is_equal(a, b, e));
  bool zero = true;
  for (std::size_t j = 0; j < M; ++j) for (std::size_t i = 0; i < N; ++i) zero = zero && std::fabs(b.v[j].v[i]) <= e;
  REQUIRE(vm::is_zero(b, e) == zero, "is_zero gives " << !zero);
  auto z = vm::mat<T, N, M>::zero();
  z.v[g.below(M)].v[g.below(N)] = g.flip() ? e : -e;
  REQUIRE(vm::is_zero(z, e), "is_zero of a matrix with one element of magnitude epsilon");
  z.v[g.below(M)].v[g.below(N)] = (g.flip() ? T(1) : T(-1)) * (e + unit / T(16));
  g.note("z", z);
  REQUIRE(!vm::is_zero(z, e), "is_zero of a matrix with one larger element");
}
TEST(comparison, 1000000) {
  switch (g.choice(7)) {
    case 0: comparison<double, 4, 4>(g); break;
    case 1: comparison<float, 3, 3>(g); break;
    case 2: comparison<double, 2, 3>(g); break;
    case 3: comparison<double, 1, 3>(g); break;
    case 4: comparison<float, 5, 5>(g); break;
    case 5: comparison<double, 4, 2>(g); break;
    default: comparison<double, 2, 2>(g); break;
  }
}
