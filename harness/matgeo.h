// Generators of matrices and reference matrix arithmetic in long double
#pragma once
#include "geo.h"
#include <vecmath/mat.h>
#include <vecmath/mat_io.h>

template <std::size_t N, std::size_t M> struct rm { // N rows, M columns
  std::array<std::array<R, M>, N> a{};
  std::array<R, M>& operator[](std::size_t r) { return a[r]; }
  const std::array<R, M>& operator[](std::size_t r) const { return a[r]; }
};
template <typename T, std::size_t N, std::size_t M> rm<N, M> mref(const vm::mat<T, N, M>& m) {
  rm<N, M> r;
  for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < M; ++j) r[i][j] = static_cast<R>(m.v[j].v[i]);
  return r;
}
template <typename T, std::size_t N, std::size_t M> vm::mat<T, N, M> mval(const rm<N, M>& m) {
  vm::mat<T, N, M> r;
  for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < M; ++j) r.v[j].v[i] = static_cast<T>(m[i][j]);
  return r;
}
template <std::size_t N, std::size_t K, std::size_t M> rm<N, M> operator*(const rm<N, K>& a, const rm<K, M>& b) {
  rm<N, M> r;
  for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < M; ++j) for (std::size_t k = 0; k < K; ++k) r[i][j] += a[i][k] * b[k][j];
  return r;
}
template <std::size_t N, std::size_t M> rv<N> operator*(const rm<N, M>& a, const rv<M>& b) {
  rv<N> r;
  for (std::size_t i = 0; i < N; ++i) for (std::size_t k = 0; k < M; ++k) r[i] += a[i][k] * b[k];
  return r;
}
template <std::size_t N> rm<N, N> rident() {
  rm<N, N> r;
  for (std::size_t i = 0; i < N; ++i) r[i][i] = 1;
  return r;
}
template <std::size_t N, std::size_t M> bool mnear(const rm<N, M>& a, const rm<N, M>& b, const R tol) {
  for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < M; ++j) if (!near(a[i][j], b[i][j], tol)) return false;
  return true;
}
template <typename T, std::size_t N, std::size_t M> bool mexact(const vm::mat<T, N, M>& a, const rm<N, M>& b) {
  for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < M; ++j) if (static_cast<R>(a.v[j].v[i]) != b[i][j]) return false;
  return true;
}
template <std::size_t N, std::size_t M> R mmax(const rm<N, M>& a) {
  R m = 0;
  for (std::size_t i = 0; i < N; ++i) for (std::size_t j = 0; j < M; ++j) m = std::max(m, std::fabs(a[i][j]));
  return m;
}
template <std::size_t N, std::size_t M> std::ostream& operator<<(std::ostream& s, const rm<N, M>& a) {
  for (std::size_t i = 0; i < N; ++i) { s << (i ? "; " : "["); for (std::size_t j = 0; j < M; ++j) s << (j ? " " : "") << static_cast<double>(a[i][j]); }
  return s << "]";
}
// Gauss-Jordan in long double; false if singular
template <std::size_t N> bool rinvert(rm<N, N> a, rm<N, N>& inv, R& det) {
  inv = rident<N>();
  det = 1;
  for (std::size_t k = 0; k < N; ++k) {
    std::size_t p = k;
    for (std::size_t i = k + 1; i < N; ++i) if (std::fabs(a[i][k]) > std::fabs(a[p][k])) p = i;
    if (a[p][k] == 0) { det = 0; return false; }
    if (p != k) { std::swap(a[p], a[k]); std::swap(inv[p], inv[k]); det = -det; }
    const R d = a[k][k];
    det *= d;
    for (std::size_t j = 0; j < N; ++j) { a[k][j] /= d; inv[k][j] /= d; }
    for (std::size_t i = 0; i < N; ++i) if (i != k) {
      const R f = a[i][k];
      for (std::size_t j = 0; j < N; ++j) { a[i][j] -= f * a[k][j]; inv[i][j] -= f * inv[k][j]; }
    }
  }
  return true;
}
// determinant of an integer matrix by cofactor expansion, exact
template <std::size_t N> R rdet(const rm<N, N>& m) {
  if constexpr (N == 1) return m[0][0];
  else {
    R s = 0;
    for (std::size_t c = 0; c < N; ++c) {
      rm<N - 1, N - 1> q;
      for (std::size_t i = 1; i < N; ++i) for (std::size_t j = 0, k = 0; j < N; ++j) if (j != c) q[i - 1][k++] = m[i][j];
      s += (c % 2 ? -1 : 1) * m[0][c] * rdet(q);
    }
    return s;
  }
}
// the same transformation of points in homogeneous coordinates, with another weight
template <typename T, std::size_t N, std::size_t M> vm::mat<T, N, M> weighted(G& g, vm::mat<T, N, M> m) {
  if (!g.one_in(3)) return m;
  const auto w = static_cast<T>(g.pick<double>({2, -1, -2, 0.5, -0.5, 4}));
  g.note("weight", w);
  for (std::size_t j = 0; j < M; ++j) for (std::size_t i = 0; i < N; ++i) m.v[j].v[i] *= w;
  return m;
}
template <typename T, std::size_t N, std::size_t M> vm::mat<T, N, M> imat(G& g, long k) {
  vm::mat<T, N, M> r;
  for (std::size_t j = 0; j < M; ++j) for (std::size_t i = 0; i < N; ++i) r.v[j].v[i] = static_cast<T>(g.zint(k));
  return r;
}
