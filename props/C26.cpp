// Lists and arrays of vectors: element by element
#include "geo.h"
#include "matgeo.h"
#include <vecmath/mat_ext.h>
#include <vecmath/vec_ext.h>

template <typename T, std::size_t S> static std::vector<vm::vec<T, S>> gen_list(G& g, const std::size_t n) {
  std::vector<vm::vec<T, S>> v;
  for (std::size_t i = 0; i < n; ++i) v.push_back(gvec<T, S>([&] { return grid<T>(g); }));
  return v;
}
template <std::size_t N, typename V> static std::array<V, N> to_array(const std::vector<V>& v) {
  std::array<V, N> a;
  for (std::size_t i = 0; i < N; ++i) a[i] = v[i];
  return a;
}
template <typename L, typename T, std::size_t S> static void same_list(const L& got, const std::vector<vm::vec<T, S>>& want, const char* what) {
  REQUIRE(got.size() == want.size(), what << ": " << got.size() << " instead of " << want.size() << " elements");
  for (std::size_t i = 0; i < want.size(); ++i) REQUIRE(vsame(got[i], want[i]), what << ": element " << i << " is " << got[i] << " instead of " << want[i]);
}

template <typename T, std::size_t S, std::size_t N> static void sums(G& g) {
  const auto v = gen_list<T, S>(g, N);
  const auto a = to_array<N>(v);
  const auto d = gvec<T, S>([&] { return num<T>(g); });
  const T f = num<T>(g);
  g.note("list", v); g.note("vector", d); g.note("factor", f);
  g.nontrivial(N > 1);
  std::vector<vm::vec<T, S>> sum, product;
  for (const auto& x : v) {
    vm::vec<T, S> s, p;
    for (std::size_t i = 0; i < S; ++i) { s.v[i] = x.v[i] + d.v[i]; p.v[i] = x.v[i] * f; }
    sum.push_back(s);
    product.push_back(p);
  }
  const auto copy = v;
  same_list(v + d, sum, "list + vector");
  same_list(d + v, sum, "vector + list");
  same_list(a + d, sum, "array + vector");
  same_list(d + a, sum, "vector + array");
  same_list(v * f, product, "list * scalar");
  same_list(f * v, product, "scalar * list");
  same_list(a * f, product, "array * scalar");
  same_list(f * a, product, "scalar * array");
  same_list(v, copy, "operand");
}
TEST(sums, 600000) {
  switch (g.choice(6)) {
    case 0: sums<double, 3, 3>(g); break;
    case 1: sums<float, 3, 1>(g); break;
    case 2: sums<double, 2, 5>(g); break;
    case 3: sums<float, 4, 2>(g); break;
    case 4: sums<double, 1, 4>(g); break;
    default: sums<double, 3, 9>(g); break;
  }
}

// lists of any length
template <typename T, std::size_t S> static void lengths(G& g) {
  const auto n = count(g, 20, 600);
  const auto v = gen_list<T, S>(g, n);
  const auto d = gridvec<T, S>(g);
  const T f = grid<T>(g);
  vm::mat<T, S, S> m;
  vm::mat<T, S + 1, S + 1> h = vm::mat<T, S + 1, S + 1>::identity();
  for (std::size_t c = 0; c < S; ++c) for (std::size_t r = 0; r < S; ++r) h.v[c].v[r] = m.v[c].v[r] = static_cast<T>(g.zint(2));
  for (std::size_t r = 0; r < S; ++r) h.v[S].v[r] = static_cast<T>(g.zint(9));
  g.note("list", v); g.note("vector", d); g.note("factor", f); g.note("matrix", m); g.note("transformation", h);
  g.nontrivial(n > 1);
  std::vector<vm::vec<T, S>> sum, product, right, left, mapped;
  for (const auto& x : v) {
    vm::vec<T, S> s, p, a, b, t;
    for (std::size_t i = 0; i < S; ++i) {
      s.v[i] = x.v[i] + d.v[i]; p.v[i] = x.v[i] * f; t.v[i] = h.v[S].v[i];
      for (std::size_t j = 0; j < S; ++j) { a.v[i] += m.v[j].v[i] * x.v[j]; b.v[i] += m.v[i].v[j] * x.v[j]; t.v[i] += m.v[j].v[i] * x.v[j]; }
    }
    sum.push_back(s); product.push_back(p); right.push_back(a); left.push_back(b); mapped.push_back(t);
  }
  same_list(v + d, sum, "list + vector");
  same_list(d + v, sum, "vector + list");
  same_list(v * f, product, "list * scalar");
  same_list(f * v, product, "scalar * list");
  same_list(m * v, right, "matrix * list");
  same_list(v * m, left, "list * matrix");
  same_list(h * v, mapped, "transformation * list");
}
TEST(lengths, 200000) {
  switch (g.choice(3)) {
    case 0: lengths<double, 3>(g); break;
    case 1: lengths<float, 3>(g); break;
    default: lengths<double, 2>(g); break;
  }
}

// products with a matrix of Rr rows and Cc columns; the elements are small integers, so exact
template <typename T, std::size_t Rr, std::size_t Cc, std::size_t N> static void products(G& g) {
  const T unit = static_cast<T>(std::ldexp(1.0, g.flip() ? 0 : static_cast<int>(g.range(-25, 25)))), f = static_cast<T>(std::ldexp(1.0, g.flip() ? 0 : static_cast<int>(g.range(-25, 25))));
  vm::mat<T, Rr, Cc> m;
  for (std::size_t c = 0; c < Cc; ++c) for (std::size_t r = 0; r < Rr; ++r) m.v[c].v[r] = static_cast<T>(g.zint(9)) * f;
  if (Rr == Cc && g.one_in(4)) {
    g.label("almost the identity");
    for (std::size_t c = 0; c < Cc; ++c) for (std::size_t r = 0; r < Rr; ++r) m.v[c].v[r] = (r == c ? T(1) : T(0)) + static_cast<T>(g.zint(2)) * T(0x1p-12);
  }
  g.note("matrix", m);
  std::vector<vm::vec<T, Cc>> right;
  std::vector<vm::vec<T, Rr>> left;
  std::vector<vm::vec<T, Rr>> want_right;
  std::vector<vm::vec<T, Cc>> want_left;
  for (std::size_t i = 0; i < N; ++i) {
    right.push_back(ivec<T, Cc>(g, 20));
    left.push_back(ivec<T, Rr>(g, 20));
    for (auto& c : right[i].v) c *= unit;
    for (auto& c : left[i].v) c *= unit;
    vm::vec<T, Rr> wr;
    vm::vec<T, Cc> wl;
    for (std::size_t r = 0; r < Rr; ++r) for (std::size_t c = 0; c < Cc; ++c) {
      wr.v[r] += m.v[c].v[r] * right[i].v[c];
      wl.v[c] += left[i].v[r] * m.v[c].v[r];
    }
    want_right.push_back(wr);
    want_left.push_back(wl);
  }
  g.note("right", right); g.note("left", left);
  g.nontrivial();
  same_list(m * right, want_right, "matrix * list");
  same_list(m * to_array<N>(right), want_right, "matrix * array");
  same_list(left * m, want_left, "list * matrix");
  same_list(to_array<N>(left) * m, want_left, "array * matrix");
  const std::vector<vm::vec<T, Cc>> none;
  REQUIRE((m * none).empty(), "the product with an empty list is not empty");
}
TEST(products, 600000) {
  switch (g.choice(6)) {
    case 0: products<double, 4, 4, 3>(g); break;
    case 1: products<float, 3, 3, 2>(g); break;
    case 2: products<double, 3, 5, 3>(g); break;
    case 3: products<double, 5, 3, 1>(g); break;
    case 4: products<float, 2, 4, 4>(g); break;
    default: products<double, 4, 2, 2>(g); break;
  }
}

// points of one dimension less, in homogeneous coordinates
template <typename T, std::size_t Rr, std::size_t Cc, std::size_t N> static void points(G& g) {
  vm::mat<T, Rr, Cc> m;
  for (std::size_t c = 0; c < Cc; ++c) for (std::size_t r = 0; r < Rr; ++r) m.v[c].v[r] = static_cast<T>(g.zint(9));
  const bool affine = g.flip();
  if (affine && g.one_in(3)) { // weights close to one
    g.label("almost affine");
    for (std::size_t c = 0; c < Cc; ++c) m.v[c].v[Rr - 1] = (c + 1 == Cc ? T(1) : T(0)) + static_cast<T>(g.zint(1)) / T(16384);
    for (std::size_t r = 0; r < Rr; ++r) m.v[Cc - 1].v[r] = (r + 1 == Rr ? T(1) : T(0)) + static_cast<T>(g.zint(1)) / T(16384);
  } else if (affine) { for (std::size_t c = 0; c < Cc; ++c) m.v[c].v[Rr - 1] = c + 1 == Cc ? T(1) : T(0); }
  g.note("matrix", m);
  std::vector<vm::vec<T, Cc - 1>> right;
  std::vector<vm::vec<T, Rr - 1>> left;
  std::vector<rv<Rr - 1>> want_right;
  std::vector<rv<Cc - 1>> want_left;
  bool right_ok = true, left_ok = true;
  for (std::size_t i = 0; i < N; ++i) {
    right.push_back(ivec<T, Cc - 1>(g, 20));
    left.push_back(ivec<T, Rr - 1>(g, 20));
    R hr[Rr] = {}, hl[Cc] = {};
    for (std::size_t r = 0; r < Rr; ++r) for (std::size_t c = 0; c < Cc; ++c) {
      hr[r] += R(m.v[c].v[r]) * (c + 1 < Cc ? R(right[i].v[c]) : R(1));
      hl[c] += R(m.v[c].v[r]) * (r + 1 < Rr ? R(left[i].v[r]) : R(1));
    }
    right_ok = right_ok && hr[Rr - 1] != 0;
    left_ok = left_ok && hl[Cc - 1] != 0;
    rv<Rr - 1> wr;
    rv<Cc - 1> wl;
    for (std::size_t r = 0; r + 1 < Rr; ++r) wr[r] = hr[r] / hr[Rr - 1];
    for (std::size_t c = 0; c + 1 < Cc; ++c) wl[c] = hl[c] / hl[Cc - 1];
    want_right.push_back(wr);
    want_left.push_back(wl);
  }
  g.note("right", right); g.note("left", left);
  const auto check = [&](const auto& got, const auto& want, const char* what) {
    REQUIRE(got.size() == want.size(), what << ": " << got.size() << " instead of " << want.size() << " elements");
    for (std::size_t i = 0; i < N; ++i) REQUIRE(vnear(got[i], want[i], 8 * eps<T>() * (1 + rmax(want[i]))), what << ": element " << i << " is " << got[i] << " instead of " << want[i]);
  };
  if (right_ok) {
    g.nontrivial(); g.label(affine ? "right, affine" : "right");
    check(m * right, want_right, "matrix * points");
    check(m * to_array<N>(right), want_right, "matrix * array of points");
  }
  if (left_ok) {
    g.nontrivial(); g.label("left");
    check(left * m, want_left, "points * matrix");
    check(to_array<N>(left) * m, want_left, "array of points * matrix");
  }
}
TEST(points, 600000) {
  switch (g.choice(5)) {
    case 0: points<double, 4, 4, 3>(g); break;
    case 1: points<float, 3, 3, 2>(g); break;
    case 2: points<double, 3, 5, 3>(g); break;
    case 3: points<double, 5, 3, 1>(g); break;
    default: points<float, 4, 3, 4>(g); break;
  }
}
