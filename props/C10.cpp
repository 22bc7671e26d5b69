// Transformation matrices: what each constructor does to points
#include "matgeo.h"
#include <vecmath/mat_ext.h>

using rm4 = rm<4, 4>;
static rv<3> apply(const rm4& m, const rv<3>& p) { // homogeneous
  rv<4> h;
  for (int i = 0; i < 3; ++i) h[i] = p[i];
  h[3] = 1;
  const auto r = m * h;
  rv<3> o;
  for (int i = 0; i < 3; ++i) o[i] = r[i] / r[3];
  return o;
}
static rv<3> mk(R x, R y, R z) { rv<3> r; r[0] = x; r[1] = y; r[2] = z; return r; }
static rm4 raxis(const rv<3>& a, R t) {
  rm4 m = rident<4>();
  const R c = std::cos(t), s = std::sin(t);
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m[i][j] = a[i] * a[j] * (1 - c) + (i == j ? c : 0);
  m[0][1] -= s * a[2]; m[0][2] += s * a[1];
  m[1][0] += s * a[2]; m[1][2] -= s * a[0];
  m[2][0] -= s * a[1]; m[2][1] += s * a[0];
  return m;
}
// affine: points stay points (weight 1) and directions stay directions (weight 0)
template <typename T, std::size_t N> static void affine(const char* what, const vm::mat<T, N, N>& m, R tol) {
  for (std::size_t j = 0; j < N; ++j) REQUIRE(near(R(m.v[j].v[N - 1]), j + 1 == N ? 1 : 0, tol), what << " is not affine: " << m);
}
template <typename T> static T gangle(G& g) {
  switch (g.choice(4)) {
    case 3: return static_cast<T>(g.zint(4) * 3.14159265358979323846L / 2 + logscale<double>(g, -40, -3)); // almost a quarter turn
    case 0: return static_cast<T>(g.zint(24) * 3.14159265358979323846L / 12);
    case 1: return static_cast<T>(g.real(-3.1415, 3.1415));
    default: return static_cast<T>(g.real(-12.0, 12.0));
  }
}
static rm4 reuler(R roll, R pitch, R yaw) { return raxis(mk(0, 0, 1), yaw) * (raxis(mk(0, 1, 0), pitch) * raxis(mk(1, 0, 0), roll)); }

template <typename T> static void rotations(G& g) {
  const auto roll = gangle<T>(g), pitch = gangle<T>(g), yaw = gangle<T>(g);
  const auto axis = unitvec<T, 3>(g);
  const auto p = numvec<T, 3>(g, 100);
  g.note("roll", roll); g.note("pitch", pitch); g.note("yaw", yaw); g.note("axis", axis); g.note("p", p);
  g.nontrivial(std::fabs(std::sin(R(yaw))) > 0.01L && std::fabs(std::sin(R(pitch))) > 0.01L && std::fabs(std::sin(R(roll))) > 0.01L);
  const R tol = 64 * eps<T>();
  const auto e = vm::rotation_matrix(roll, pitch, yaw);
  const auto re = reuler(roll, pitch, yaw);
  REQUIRE(mnear(mref(e), re, tol), "rotation by roll, pitch, yaw is " << e << " instead of " << re);
  REQUIRE(vnear(e * p, apply(re, ref(p)), tol * (1 + rlen(ref(p)))), "rotates the point to " << (e * p));
  const auto a = vm::rotation_matrix(axis, yaw);
  const auto ra = raxis(ref(axis), yaw);
  REQUIRE(mnear(mref(a), ra, tol), "rotation about an axis is " << a << " instead of " << ra);
  REQUIRE(vnear(a * p, apply(ra, ref(p)), tol * (1 + rlen(ref(p)))), "rotates the point to " << (a * p));
  const vm::quat<T> q(axis, yaw);
  REQUIRE(mnear(mref(vm::rotation_matrix(q)), ra, tol), "rotation matrix of a quaternion is " << vm::rotation_matrix(q) << " instead of " << ra);
  REQUIRE(vnear(vm::rotation_matrix(q) * p, ref(q * p), tol * (1 + rlen(ref(p)))), "matrix and quaternion rotate differently");
  // multiplication with the inverse rotation, transposition
  REQUIRE(mnear(mref(vm::transpose(a) * a), rident<4>(), tol), "the transpose does not undo a rotation");
}
TEST(rotations, 2000000) { if (g.flip()) rotations<double>(g); else rotations<float>(g); }

// euler angles of any rotation, including vertical pitches, composed in working precision
template <typename T> static void euler(G& g) {
  vm::mat<T, 4, 4> m;
  const auto n = 1 + g.below(3);
  const auto half = static_cast<T>(1.57079632679489661923L);
  for (std::size_t i = 0; i < n; ++i) {
    switch (g.choice(4)) {
      case 0: m = m * vm::rotation_matrix(gangle<T>(g), gangle<T>(g), gangle<T>(g)); break;
      case 1: m = m * vm::rotation_matrix(gangle<T>(g), (g.flip() ? half : -half) + static_cast<T>(g.one_in(3) ? g.real(-1, 1) * std::pow(10.0, -static_cast<double>(g.range(1, 9))) : 0.0), gangle<T>(g)); break;
      case 2: m = m * vm::rotation_matrix(unitvec<T, 3>(g), gangle<T>(g)); break;
      default: {
        using M = vm::mat<T, 4, 4>;
        const std::array<M, 10> k{M::rot_90_x_cw(), M::rot_90_x_ccw(), M::rot_90_y_cw(), M::rot_90_y_ccw(), M::rot_90_z_cw(), M::rot_90_z_ccw(), M::rot_180_x(), M::rot_180_y(), M::rot_180_z(), M::identity()};
        m = m * k[g.below(10)];
      }
    }
  }
  g.note("m", m);
  const auto e = vm::rotation_matrix_to_euler_angles(m);
  const bool vertical = std::fabs(R(m.v[0].v[2])) > 0.999999L;
  g.label(vertical ? "vertical pitch" : "other pitch");
  g.nontrivial();
  bool quarters = true; // of turns only
  for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) quarters = quarters && m.v[i].v[j] == std::round(m.v[i].v[j]);
  const R tol = (quarters || std::fabs(R(m.v[0].v[2])) < 0.99L ? 400 * eps<T>() : 40 * std::sqrt(eps<T>()));
  REQUIRE(mnear(reuler(e[0], e[1], e[2]), mref(m), tol), "euler angles " << e << " describe " << reuler(e[0], e[1], e[2]));
  REQUIRE(mnear(mref(vm::rotation_matrix(e[0], e[1], e[2])), mref(m), tol), "euler angles " << e << " do not give the matrix back");
  REQUIRE(std::fabs(e[1]) <= half * T(1.001), "pitch is not in [-pi/2, pi/2]: " << e[1]);
}
TEST(euler_angles, 2000000) { if (g.flip()) euler<double>(g); else euler<float>(g); }

template <typename T> static void between(G& g) {
  const auto from = unitvec<T, 3>(g);
  const auto k = g.choice(4);
  auto to = k == 0 ? from : k == 1 ? -from : unitvec<T, 3>(g);
  if (k == 2) { // almost the same or the opposite direction
    const auto r = runit(ref(from) * (g.flip() ? 1 : -1) + ref(to) * R(logscale<double>(g, -50, -1)));
    for (int i = 0; i < 3; ++i) to[i] = static_cast<T>(r[i]);
  }
  g.note("from", from); g.note("to", to);
  g.nontrivial();
  const auto m = vm::rotation_matrix(from, to);
  // vectors that are almost colinear count as colinear
  const auto n = rcross(ref(from), ref(to));
  const R sine = rlen(n), root = std::sqrt(eps<T>());
  const R tol = sine < 4 * root ? 8 * root : 64 * eps<T>() * (1 + (rdot(ref(from), ref(to)) < 0 ? 1 / sine : 0));
  REQUIRE(vnear(m * from, ref(to), tol), "rotates onto " << (m * from));
  REQUIRE(mnear(mref(m) * mref(vm::transpose(m)), rident<4>(), 64 * eps<T>()), "not a rotation: " << m);
  REQUIRE(near(rdet(mref(m)), 1, 64 * eps<T>()), "not a rotation: " << m);
  affine("the rotation", m, 8 * eps<T>());
  if (rlen(n) > 0.01L) REQUIRE(rnear(apply(mref(m), n), n, tol), "does not rotate about the perpendicular axis");
}
TEST(rotation_between, 800000) { if (g.flip()) between<double>(g); else between<float>(g); }

// exact ones, on integers
template <typename T, std::size_t S> static void affineS(G& g) {
  const T unit = std::ldexp(T(1), g.flip() ? 0 : static_cast<int>(g.range(-30, 20)));
  const auto p = unit * ivec<T, S>(g, 20), d = unit * ivec<T, S>(g, 20);
  auto f = ivec<T, S>(g, 5);
  if (g.one_in(3)) for (std::size_t i = 0; i < S; ++i) f[i] += std::ldexp(T(1), -static_cast<int>(g.range(1, sizeof(T) == 4 ? 14 : 40)));
  g.note("p", p); g.note("d", d); g.note("f", f);
  g.nontrivial(rmax(ref(d)) != 0);
  REQUIRE(vexact(vm::translation_matrix(d) * p, ref(p) + ref(d)), "translates to " << (vm::translation_matrix(d) * p));
  rv<S> w = ref(p);
  for (std::size_t i = 0; i < S; ++i) w[i] *= f[i];
  REQUIRE(vexact(vm::scaling_matrix(f) * p, w), "scales to " << (vm::scaling_matrix(f) * p));
  affine("the translation", vm::translation_matrix(d), 8 * eps<T>());
  affine("the scaling", vm::scaling_matrix(f), 8 * eps<T>());
  auto m = imat<T, S + 1, S + 1>(g, 9);
  for (std::size_t j = 0; j < S; ++j) m.v[j].v[S] = 0;
  m.v[S].v[S] = 1;
  for (std::size_t j = 0; j < S; ++j) m.v[S].v[j] *= unit;
  g.note("m", m);
  const auto t = vm::translation_matrix(m), s = vm::strip_translation(m);
  for (std::size_t i = 0; i <= S; ++i) for (std::size_t j = 0; j <= S; ++j) {
    const T mm = m.v[j].v[i];
    REQUIRE(s.v[j].v[i] == (j == S && i < S ? T(0) : mm), "strip_translation gives " << s);
    REQUIRE(t.v[j].v[i] == (j == S && i < S ? mm : T(i == j)), "translation_matrix gives " << t);
  }
  REQUIRE(mexact(t * s, mref(m)), "the translation and the rest do not make up the transformation");
}
template <typename T> static void affine3(G& g) {
  using M = vm::mat<T, 4, 4>;
  const auto p = std::ldexp(T(1), g.flip() ? 0 : static_cast<int>(g.range(-30, 20))) * ivec<T, 3>(g, 20);
  g.note("p", p);
  const auto x = ref(p);
  g.nontrivial(x[0] != 0 && x[1] != 0 && x[2] != 0);
  const auto is = [&](const char* what, const M& m, R a, R b, R c) {
    REQUIRE(vexact(m * p, mk(a, b, c)), what << " maps the point to " << (m * p));
    REQUIRE(near(rdet(mref(m)) * rdet(mref(m)), 1, 0), what << " changes volumes");
    affine(what, m, 8 * eps<T>());
  };
  is("mirror x", M::mirror_x(), -x[0], x[1], x[2]);
  is("mirror y", M::mirror_y(), x[0], -x[1], x[2]);
  is("mirror z", M::mirror_z(), x[0], x[1], -x[2]);
  is("mirror_matrix x", vm::mirror_matrix<T>(vm::axis::x), -x[0], x[1], x[2]);
  is("mirror_matrix y", vm::mirror_matrix<T>(vm::axis::y), x[0], -x[1], x[2]);
  is("mirror_matrix z", vm::mirror_matrix<T>(vm::axis::z), x[0], x[1], -x[2]);
  is("rot_90_x_ccw", M::rot_90_x_ccw(), x[0], -x[2], x[1]);
  is("rot_90_x_cw", M::rot_90_x_cw(), x[0], x[2], -x[1]);
  is("rot_90_y_ccw", M::rot_90_y_ccw(), x[2], x[1], -x[0]);
  is("rot_90_y_cw", M::rot_90_y_cw(), -x[2], x[1], x[0]);
  is("rot_90_z_ccw", M::rot_90_z_ccw(), -x[1], x[0], x[2]);
  is("rot_90_z_cw", M::rot_90_z_cw(), x[1], -x[0], x[2]);
  is("rot_180_x", M::rot_180_x(), x[0], -x[1], -x[2]);
  is("rot_180_y", M::rot_180_y(), -x[0], x[1], -x[2]);
  is("rot_180_z", M::rot_180_z(), -x[0], -x[1], x[2]);
  std::array<T, 6> s;
  const T unit = std::ldexp(T(1), g.flip() ? 0 : -static_cast<int>(g.range(1, sizeof(T) == 4 ? 12 : 35)));
  for (auto& e : s) e = static_cast<T>(g.zint(6)) * unit;
  g.note("shear", s);
  const auto sh = vm::shear_matrix(s[0], s[1], s[2], s[3], s[4], s[5]);
  // Sxy Sxz Syx Syz Szx Szy: amounts by which a step along the first axis moves along the second
  REQUIRE(vexact(sh * p, mk(x[0] + s[2] * x[1] + s[4] * x[2], x[1] + s[0] * x[0] + s[5] * x[2], x[2] + s[1] * x[0] + s[3] * x[1])), "shears to " << (sh * p));
  affine("the shear", sh, 8 * eps<T>());
}
TEST(affine, 2000000) {
  switch (g.choice(6)) {
    case 0: affineS<double, 1>(g); break;
    case 1: affineS<float, 2>(g); break;
    case 2: affineS<double, 3>(g); break;
    case 3: affineS<double, 5>(g); break;
    case 4: affine3<double>(g); break;
    default: affine3<float>(g); break;
  }
}

// coordinate systems and projections onto planes
template <typename T> static void coords(G& g) {
  const T unit = std::ldexp(T(1), g.flip() ? 0 : static_cast<int>(g.range(-10, 10)));
  auto x = ivec<T, 3>(g, 5), y = ivec<T, 3>(g, 5), z = ivec<T, 3>(g, 5), o = ivec<T, 3>(g, 20);
  const auto c = ivec<T, 3>(g, 10);
  g.note("unit", unit);
  g.note("x", x); g.note("y", y); g.note("z", z); g.note("o", o); g.note("c", c);
  const R det = rdot(rcross(ref(x), ref(y)), ref(z));
  if (std::fabs(det) < 1) { g.label("dependent axes"); return; }
  g.nontrivial();
  x = x * unit; y = y * unit; z = z * unit; o = o * unit;
  const auto m = vm::coordinate_system_matrix(x, y, z, o);
  const auto rp = ref(o) + ref(x) * R(c[0]) + ref(y) * R(c[1]) + ref(z) * R(c[2]);
  vm::vec<T, 3> p;
  for (int i = 0; i < 3; ++i) p[i] = static_cast<T>(rp[i]);
  const R tol = eps<T>() * 64 * 75 * 200 * (sizeof(T) == 4 ? 4 : 64) / std::fabs(det);
  REQUIRE(vnear(m * p, ref(c), tol), "the point " << p << " has coordinates " << (m * p));
  REQUIRE(vnear(m * o, rv<3>{}, tol), "the offset has coordinates " << (m * o));
  affine("the coordinate system", m, tol);
}
TEST(coordinate_systems, 1500000) { if (g.flip()) coords<double>(g); else coords<float>(g); }

template <typename T> static void projection(G& g) {
  const auto n = unitvec<T, 3>(g);
  const auto d = g.flip() ? static_cast<T>(g.zint(20)) : g.flip() ? static_cast<T>(g.real(-20, 20)) : logscale<T>(g, -30, 4);
  auto dir = g.one_in(3) ? n : unitvec<T, 3>(g);
  g.note("normal", n); g.note("distance", d); g.note("direction", dir);
  const R cosine = rdot(ref(n), ref(dir));
  if (std::fabs(cosine) < 0.01L) { g.label("direction in plane"); return; }
  g.nontrivial(d != 0);
  const bool vertical = vsame(n, dir) && g.flip();
  const auto m = vertical ? vm::plane_projection_matrix(d, n) : vm::plane_projection_matrix(d, n, dir);
  const R tol = eps<T>() * 4096 * 40 / std::fabs(cosine);
  // two points of the plane: at height 0, and as far apart as before
  const auto u = runit(std::fabs(n[0]) < 0.6 ? rcross(ref(n), mk(1, 0, 0)) : rcross(ref(n), mk(0, 1, 0)));
  const auto w = rcross(ref(n), u);
  const auto base = ref(n) * (R(d) / rdot(ref(n), ref(n)));
  const auto point = [&](R a, R b, R c) {
    const auto r = base + u * a + w * b + ref(dir) * c;
    vm::vec<T, 3> p;
    for (int i = 0; i < 3; ++i) p[i] = static_cast<T>(r[i]);
    return p;
  };
  const R a1 = g.zint(9), b1 = g.zint(9), a2 = g.zint(9), b2 = g.zint(9), c1 = g.zint(9);
  const auto p1 = ref(m * point(a1, b1, 0)), p2 = ref(m * point(a2, b2, 0)), q1 = ref(m * point(a1, b1, c1));
  REQUIRE(near(p1[2], 0, tol) && near(p2[2], 0, tol), "points of the plane are mapped to " << p1 << " and " << p2);
  const R want = std::sqrt((a1 - a2) * (a1 - a2) + (b1 - b2) * (b1 - b2));
  REQUIRE(near(rlen(p1 - p2), want, tol), "points of the plane at distance " << want << " are mapped to distance " << rlen(p1 - p2));
  REQUIRE(near(q1[2], c1, tol), "a point " << c1 << " away along the direction is mapped to height " << q1[2]);
  REQUIRE(near(q1[0], p1[0], tol) && near(q1[1], p1[1], tol), "a point moved along the direction is projected to " << q1 << " instead of " << p1);
  REQUIRE(vnear(m * point(0, 0, 0), rv<3>{}, tol), "the anchor of the plane is mapped to " << (m * point(0, 0, 0)));
  affine("the projection", m, tol);
}
TEST(plane_projection, 1500000) { if (g.flip()) projection<double>(g); else projection<float>(g); }

// boxes
template <typename T> static void boxes(G& g) {
  const T unit = std::ldexp(T(1), g.flip() ? 0 : static_cast<int>(g.range(-20, 20)));
  const auto mn = unit * ivec<T, 3>(g, 20), nmn = unit * ivec<T, 3>(g, 20), anchor = unit * ivec<T, 3>(g, 20);
  vm::vec<T, 3> size, nsize;
  for (int i = 0; i < 3; ++i) size[i] = unit * static_cast<T>(1l << g.range(0, 5)); // powers of two: exact factors
  const bool collapse = g.one_in(8);
  for (int i = 0; i < 3; ++i) nsize[i] = unit * static_cast<T>(collapse ? g.range(0, 1) : g.range(1, 30));
  if (g.one_in(4)) for (int i = 0; i < 3; ++i) nsize[i] = size[i] * (T(1) + std::ldexp(T(1), -static_cast<int>(g.range(4, sizeof(T) == 4 ? 10 : 30)))); // almost the same size
  if (g.flip()) { // all the digits; the differences are exact
    const auto any = [&](vm::vec<T, 3>& s, const vm::vec<T, 3>& m) { for (int i = 0; i < 3; ++i) if (s[i] != 0) s[i] = (m[i] + (s[i] + unit * static_cast<T>(g.real(0, 0.5)))) - m[i]; };
    any(size, mn);
    any(nsize, nmn);
  }
  const vm::bbox<T, 3> box(mn, mn + size), nbox(nmn, nmn + nsize);
  g.note("box.min", mn); g.note("size", size); g.note("new.min", nmn); g.note("new size", nsize); g.note("anchor", anchor);
  g.nontrivial();
  const R tol = 16 * eps<T>() * 2000 * unit;
  const auto m = vm::scale_bbox_matrix(box, nbox);
  const auto a = vm::scale_bbox_matrix_with_anchor(box, nsize, anchor);
  rv<3> t; // relative coordinates of a point of the box (or beyond it)
  for (int i = 0; i < 3; ++i) t[i] = R(g.zint(8)) / 4;
  vm::vec<T, 3> p;
  rv<3> want;
  for (int i = 0; i < 3; ++i) { p[i] = static_cast<T>(mn[i] + t[i] * size[i]); want[i] = nmn[i] + t[i] * nsize[i]; }
  REQUIRE(vnear(m * p, want, tol), "scaling the box maps " << p << " to " << (m * p) << " instead of " << want);
  for (int i = 0; i < 3; ++i) want[i] = anchor[i] + (R(p[i]) - anchor[i]) * nsize[i] / size[i];
  REQUIRE(vnear(a * p, want, tol), "scaling about an anchor maps " << p << " to " << (a * p) << " instead of " << want);
  REQUIRE(vnear(a * anchor, ref(anchor), tol), "the anchor moves to " << (a * anchor));
  affine("the scaling of the box", m, 8 * eps<T>());
  affine("the scaling about an anchor", a, 8 * eps<T>());
  // shear
  const auto ax = g.below(3);
  const bool pos = g.flip();
  vm::vec<T, 3> side;
  side[ax] = pos ? T(1) : T(-1);
  auto delta = unit * ivec<T, 3>(g, 9);
  if (g.one_in(4)) delta = delta * std::ldexp(T(1), -static_cast<int>(g.range(4, sizeof(T) == 4 ? 10 : 30))); // small
  if (g.flip()) for (int i = 0; i < 3; ++i) delta[i] *= static_cast<T>(g.real(0.5, 1)); // all the digits
  if (g.flip()) delta[ax] = 0;
  g.note("side", side); g.note("delta", delta);
  const auto s = vm::shear_bbox_matrix(box, side, delta);
  R f = pos ? t[ax] : 1 - t[ax]; // 0 on the opposite side, 1 on the sheared one
  for (std::size_t i = 0; i < 3; ++i) want[i] = p[i] + (i == ax ? 0 : delta[i] * f);
  REQUIRE(vnear(s * p, want, tol), "shearing the box maps " << p << " to " << (s * p) << " instead of " << want);
  affine("the shear of the box", s, 8 * eps<T>());
}
TEST(boxes, 1500000) { if (g.flip()) boxes<double>(g); else boxes<float>(g); }

template <typename T> static void points(G& g) {
  std::array<vm::vec<T, 3>, 4> in, out;
  for (auto& p : in) p = ivec<T, 3>(g, 8);
  for (auto& p : out) p = ivec<T, 3>(g, 8);
  if (g.flip()) { // all the digits
    for (auto& p : in) for (int i = 0; i < 3; ++i) p[i] += static_cast<T>(g.real(-0.5, 0.5));
    for (auto& p : out) for (int i = 0; i < 3; ++i) p[i] += static_cast<T>(g.real(-0.5, 0.5));
  }
  g.note("in", in); g.note("out", out);
  const T ui = std::ldexp(T(1), g.flip() ? 0 : static_cast<int>(g.range(-10, 10))), uo = std::ldexp(T(1), g.flip() ? 0 : static_cast<int>(g.range(-10, 10)));
  g.note("unit of in", ui); g.note("unit of out", uo); // the four points only
  const auto e = [](const auto& a, const auto& b) { return ref(a) - ref(b); };
  const auto nin = rcross(e(in[1], in[0]), e(in[2], in[0])), nout = rcross(e(out[1], out[0]), e(out[2], out[0]));
  const R det = rdot(nin, e(in[3], in[0]));
  const R base = eps<T>() * 64 * 16 * 16 * 16 * 20;
  if (std::fabs(det) >= 1) {
    g.label("four points");
    g.nontrivial();
    auto si = in, so = out;
    for (auto& p : si) p = p * ui;
    for (auto& p : so) p = p * uo;
    const auto m = vm::points_transformation_matrix(si[0], si[1], si[2], si[3], so[0], so[1], so[2], so[3]);
    const R tol = base * 16 / std::min(std::fabs(det), R(64));
    if (tol < 0.5L) {
      for (int i = 0; i < 4; ++i) REQUIRE(vnear(m * si[i], ref(so[i]), tol * uo), "maps " << si[i] << " to " << (m * si[i]) << " instead of " << so[i]);
      affine("the transformation", m, tol);
    }
  }
  if (rlen(nin) >= 1 && rlen(nout) >= 1) {
    g.label("three points");
    g.nontrivial();
    auto si = in, so = out;
    for (auto& p : si) p = p * ui;
    for (auto& p : so) p = p * uo;
    const auto m = vm::points_transformation_matrix(si[0], si[1], si[2], so[0], so[1], so[2]);
    const R tol = base * 16 / std::min(rlen(nin), R(64));
    if (tol < 0.5L) {
      // the rows of the off plane point have another unit: the error of the solution is that of the larger one
      const R t3 = tol * std::max<R>(1, uo / ui) * std::max<R>(1, ui) * 4;
      for (int i = 0; i < 3; ++i) REQUIRE(vnear(m * si[i], ref(so[i]), t3), "maps " << si[i] << " to " << (m * si[i]) << " instead of " << so[i]);
      const R h = g.zint(4);
      const auto rp = ref(si[1]) + runit(nin) * h, want = ref(so[1]) + runit(nout) * h;
      vm::vec<T, 3> p;
      for (int i = 0; i < 3; ++i) p[i] = static_cast<T>(rp[i]);
      REQUIRE(vnear(m * p, want, 2 * t3 * std::max<R>(1, 1 / ui)), "a point " << h << " off the plane is mapped to " << (m * p) << " instead of " << want);
      affine("the transformation", m, t3);
    }
  }
  if (std::fabs(det) == 0 && vsame(in[1], in[0])) { // no such transformation: not a number
    g.label("no transformation");
    auto si = in, so = out;
    for (auto& p : si) p = p * ui;
    for (auto& p : so) p = p * uo;
    const auto m = vm::points_transformation_matrix(si[0], si[1], si[2], si[3], so[0], so[1], so[2], so[3]);
    for (int j = 0; j < 4; ++j) for (int i = 0; i < 4; ++i) REQUIRE(m.v[j].v[i] != m.v[j].v[i], "a transformation of coinciding points: " << m);
  }
}
TEST(points, 600000) { if (g.flip()) points<double>(g); else points<float>(g); }

// cameras
template <typename T> static void cameras(G& g) {
  const T unit = std::ldexp(T(1), g.flip() ? 0 : static_cast<int>(g.range(-20, 15)));
  const bool wide = g.flip(); // all the digits
  const auto n = unit * (wide ? static_cast<T>(g.real(0.2, 6)) : static_cast<T>(g.range(1, 50)) / 8), f = n + unit * (wide ? static_cast<T>(g.real(1, 1000)) : static_cast<T>(g.range(1, 1000)));
  const auto any = [&] { return wide ? static_cast<T>(g.real(-0.4, 0.4)) * unit : T(0); };
  auto l = unit * static_cast<T>(g.zint(500)) + any(), r = l + unit * static_cast<T>(g.range(1, 500)) + any(), b = unit * static_cast<T>(g.zint(500)) + any(), t = b + unit * static_cast<T>(g.range(1, 500)) + any();
  if (g.one_in(4)) std::swap(l, r); // a mirrored picture
  if (g.one_in(4)) std::swap(b, t);
  const auto fov = g.one_in(3) ? static_cast<T>(g.real(1, 170)) : static_cast<T>(g.range(10, 150));
  const auto w = static_cast<int>(g.range(1, 2000)), h = static_cast<int>(g.range(1, 2000));
  g.note("near", n); g.note("far", f); g.note("left", l); g.note("right", r); g.note("bottom", b); g.note("top", t); g.note("fov", fov); g.note("w", w); g.note("h", h);
  g.nontrivial(l + r != 0 && b + t != 0);
  const auto o = vm::ortho_matrix(n, f, l, t, r, b);
  R s[3];
  for (auto& e : s) e = R(g.zint(4)) / 4; // device coordinates in [-1, 1]
  const auto mix = [](R lo, R hi, R k) { return lo + (hi - lo) * (k + 1) / 2; };
  {
    const auto p = mk(mix(l, r, s[0]), mix(b, t, s[1]), -mix(n, f, s[2]));
    vm::vec<T, 3> q;
    for (int i = 0; i < 3; ++i) q[i] = static_cast<T>(p[i]);
    const R tol = 64 * eps<T>() * (1 + 2 * 1000 * unit / std::min({R(std::fabs(r - l)), R(std::fabs(t - b)), R(f - n)}));
    REQUIRE(vnear(o * q, mk(s[0], s[1], s[2]), tol), "the orthographic projection maps " << q << " to " << (o * q));
    affine("the orthographic projection", o, 8 * eps<T>());
  }
  {
    const auto m = mref(vm::perspective_matrix(fov, n, f, w, h));
    const R v = std::tan(R(fov) * 3.14159265358979323846264L / 360) * 0.75L * n, hh = v * w / h;
    rv<4> p;
    const bool far = g.flip();
    const R z = far ? R(f) : R(n);
    p[0] = s[0] * hh * z / n; p[1] = s[1] * v * z / n; p[2] = -z; p[3] = 1;
    const auto c = m * p;
    const R tol = 256 * eps<T>() * (1 + R(f) / (f - n)) * (far ? 1 : R(f + n) / (f - n));
    REQUIRE(near(c[3], z, tol * z), "the perspective projection gives w = " << c[3] << " instead of " << z);
    REQUIRE(near(c[0] / c[3], s[0], tol) && near(c[1] / c[3], s[1], tol) && near(c[2] / c[3], far ? 1 : -1, tol * (far ? 1 : R(f) / n)), "the perspective projection maps " << p << " to " << c);
  }
  {
    const auto a = unitvec<T, 3>(g), u0 = unitvec<T, 3>(g);
    const auto s0 = rcross(ref(a), ref(u0));
    if (rlen(s0) > 0.1L) {
      const auto side = runit(s0), up = rcross(side, ref(a));
      vm::vec<T, 3> u, p = numvec<T, 3>(g, 20);
      for (int i = 0; i < 3; ++i) u[i] = static_cast<T>(up[i]);
      g.note("direction", a); g.note("up", u); g.note("p", p);
      const auto m = vm::view_matrix(a, u);
      const auto want = mk(rdot(ref(p), side), rdot(ref(p), up), -rdot(ref(p), ref(a)));
      REQUIRE(vnear(m * p, want, 64 * eps<T>() * (1 + rlen(ref(p)))), "the view matrix maps the point to " << (m * p) << " instead of " << want);
      affine("the view matrix", m, 8 * eps<T>());
    }
  }
}
TEST(cameras, 1500000) { if (g.flip()) cameras<double>(g); else cameras<float>(g); }
