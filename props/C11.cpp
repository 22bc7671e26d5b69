// Quaternions as rotations
#include "geo.h"
#include <vecmath/quat.h>

template <typename T> static T gangle(G& g) {
  switch (g.choice(4)) {
    case 3: return static_cast<T>(g.zint(4) * 3.14159265358979323846L / 2 + logscale<double>(g, -40, -3)); // almost a quarter turn
    case 0: return static_cast<T>(g.zint(24) * 3.14159265358979323846L / 12);
    case 1: return static_cast<T>(g.real(-3.1415, 3.1415));
    default: return static_cast<T>(g.real(-12.0, 12.0));
  }
}
static rv<3> rodrigues(const rv<3>& a, R t, const rv<3>& v) {
  return v * std::cos(t) + rcross(a, v) * std::sin(t) + a * (rdot(a, v) * (1 - std::cos(t)));
}
static rv<3> rqapply(R r, const rv<3>& q, const rv<3>& v) { // unit quaternion
  const auto t = rcross(q, v) * 2;
  return v + t * r + rcross(q, t);
}

template <typename T> static void rotates(G& g) {
  const auto axis = unitvec<T, 3>(g);
  const auto angle = gangle<T>(g);
  const auto v = numvec<T, 3>(g, 100);
  g.note("axis", axis); g.note("angle", angle); g.note("v", v);
  const auto ra = ref(axis), x = ref(v);
  const R tol = 64 * eps<T>() * (1 + rlen(x));
  g.nontrivial(rlen(rcross(ra, x)) > 0.01L && std::fabs(std::sin(R(angle) / 2)) > 0.01L);
  const vm::quat<T> q(axis, angle);
  REQUIRE(near(q.r, std::cos(R(angle) / 2), 4 * eps<T>()), "real part is " << q.r);
  REQUIRE(vnear(q.v, ra * std::sin(R(angle) / 2), 8 * eps<T>()), "imaginary part is " << q.v);
  const auto w = q * v;
  const auto want = rodrigues(ra, R(angle), x);
  REQUIRE(vnear(w, want, tol), "rotating gives " << w << " instead of " << want);
  REQUIRE(near(rlen(ref(w)), rlen(x), tol), "the rotation changes the length to " << rlen(ref(w)));
  REQUIRE(vnear(q.conjugate() * w, x, 2 * tol), "the conjugate does not undo the rotation: " << (q.conjugate() * w));
  REQUIRE(q.conjugate().r == q.r && vexact(q.conjugate().v, ref(q.v) * -1), "conjugate");
  // angle and axis describe the same rotation
  const R an = q.angle();
  const auto ax = q.axis();
  REQUIRE(an == an && an > -0.001L && an < 6.2832L, "angle is " << an);
  // the angle is worse known close to a whole turn
  const R t1 = 64 * eps<T>() * (1 / std::max(rlen(ref(q.v)), std::sqrt(eps<T>())) + std::fabs(R(angle))), t2 = t1 * (1 + rlen(x));
  const R two_pi = 6.283185307179586476925L;
  const R m = std::fmod(std::fabs(R(angle)), two_pi);
  REQUIRE(near(an, m, t1) || near(an, two_pi - m, t1), "angle is " << an << " for " << angle);
  if (rlen(ref(q.v)) > (sizeof(T) == 4 ? 0.01L : 0.002L)) {
    REQUIRE(near(rlen(ref(ax)), 1, 16 * eps<T>()), "axis is not a unit vector: " << ax);
    REQUIRE(rnear(rodrigues(ref(ax), an, x), want, t2), "angle " << an << " and axis " << ax << " describe another rotation");
  }
  // conversion, copies
  const vm::quat<double> qd(q);
  REQUIRE(qd.r == static_cast<double>(q.r) && vexact(qd.v, ref(q.v)), "conversion to double");
  const vm::quat<float> qf(qd);
  REQUIRE(qf.r == static_cast<float>(qd.r) && vsame(qf.v, vm::vec<float, 3>(static_cast<float>(qd.v[0]), static_cast<float>(qd.v[1]), static_cast<float>(qd.v[2]))), "conversion to float");
}
TEST(rotates, 3000000) { if (g.flip()) rotates<double>(g); else rotates<float>(g); }

// histories: a chain of rotations composed into one quaternion, applied in order
template <typename T> static void composes(G& g) {
  const auto n = 1 + g.below(8);
  auto x = numvec<T, 3>(g, 100);
  const auto v = x;
  g.note("v", v);
  auto total = vm::quat<T>(T(1), vm::vec<T, 3>::zero());
  rv<3> want = ref(x);
  R rr = 1;
  rv<3> rq;
  for (std::size_t i = 0; i < n; ++i) {
    const auto axis = unitvec<T, 3>(g);
    const auto angle = gangle<T>(g);
    g.note("axis", axis); g.note("angle", angle);
    vm::quat<T> q(axis, angle);
    if (g.one_in(4)) { q = q.conjugate(); want = rodrigues(ref(axis), -R(angle), want); }
    else want = rodrigues(ref(axis), R(angle), want);
    x = q * x;
    // Hamilton product in long double
    const R r0 = R(q.r) * rr - rdot(ref(q.v), rq);
    const auto v0 = rq * R(q.r) + ref(q.v) * rr + rcross(ref(q.v), rq);
    total = q * total;
    rr = r0;
    rq = v0;
  }
  g.nontrivial(n > 1);
  const R tol = 64 * n * eps<T>() * (1 + rlen(ref(v)));
  REQUIRE(vnear(x, want, tol), "applying the rotations one by one gives " << x << " instead of " << want);
  REQUIRE(vnear(total * v, want, tol), "the product of the quaternions gives " << (total * v) << " instead of " << want);
  REQUIRE(near(total.r, rr, 32 * n * eps<T>()) && vnear(total.v, rq, 32 * n * eps<T>()), "the product is " << total.r << ", " << total.v);
}
TEST(composes, 2000000) { if (g.flip()) composes<double>(g); else composes<float>(g); }

// products, scalar products and conjugates of arbitrary quaternions with small integer components: exact
template <typename T> static void algebra(G& g) {
  const T ar = static_cast<T>(g.zint(9)), br = static_cast<T>(g.zint(9)), s = static_cast<T>(g.zint(5));
  const auto av = ivec<T, 3>(g, 9), bv = ivec<T, 3>(g, 9);
  g.note("a.r", ar); g.note("a.v", av); g.note("b.r", br); g.note("b.v", bv); g.note("s", s);
  g.nontrivial(rmax(rcross(ref(av), ref(bv))) != 0 && ar != 0 && br != 0);
  const vm::quat<T> a(ar, av), b(br, bv);
  const auto p = a * b;
  REQUIRE(p.r == R(ar) * br - rdot(ref(av), ref(bv)), "real part of the product is " << p.r);
  REQUIRE(vexact(p.v, ref(bv) * R(ar) + ref(av) * R(br) + rcross(ref(av), ref(bv))), "imaginary part of the product is " << p.v);
  const auto sa = s * a, as = a * s;
  REQUIRE(sa.r == s * ar && vexact(sa.v, ref(av) * R(s)), "scalar * quaternion is " << sa.r << ", " << sa.v);
  REQUIRE(as.r == s * ar && vexact(as.v, ref(av) * R(s)), "quaternion * scalar is " << as.r << ", " << as.v);
  REQUIRE((+a).r == ar && vsame((+a).v, av), "unary plus");
  REQUIRE((-a).r == -ar, "unary minus");
  const auto c = a * a.conjugate();
  REQUIRE(c.r == R(ar) * ar + rdot(ref(av), ref(av)) && rmax(ref(c.v)) == 0, "q * conjugate(q) is " << c.r << ", " << c.v);
  REQUIRE(vm::quat<T>().r == 0 && vsame(vm::quat<T>().v, vm::vec<T, 3>(0, 0, 0)), "default constructor");
}
TEST(algebra, 1500000) { if (g.flip()) algebra<double>(g); else algebra<float>(g); }

// equality: an equivalence consistent with its negation and its approximate version
template <typename T> static void equality(G& g) {
  const T ar = static_cast<T>(g.zint(2)), br = g.flip() ? ar : static_cast<T>(g.zint(2));
  const auto av = ivec<T, 3>(g, 1);
  const auto bv = g.flip() ? av : ivec<T, 3>(g, 1);
  g.note("a.r", ar); g.note("a.v", av); g.note("b.r", br); g.note("b.v", bv);
  const vm::quat<T> a(ar, av), b(br, bv);
  const bool eq = a == b;
  g.nontrivial(ar != 0 || rmax(ref(av)) != 0);
  g.label(eq ? "equal" : "different");
  REQUIRE(a == a, "a quaternion differs from itself");
  REQUIRE(a == -a, "a quaternion differs from its negation");
  REQUIRE((b == a) == eq, "== is not symmetric");
  REQUIRE((a != b) == !eq, "!= is not the negation of ==");
  REQUIRE(vm::is_equal(a, b, T(0)) == eq, "is_equal with epsilon 0 differs from ==");
  REQUIRE(vm::is_equal(b, a, T(0)) == eq, "is_equal is not symmetric");
  // quaternions with different components up to sign are different
  const bool mag = std::fabs(ar) == std::fabs(br) && [&] { for (int i = 0; i < 3; ++i) if (std::fabs(av[i]) != std::fabs(bv[i])) return false; return true; }();
  if (!mag) REQUIRE(!eq, "quaternions with different components are equal");
  if (ar == br && vsame(av, bv)) REQUIRE(eq, "quaternions with the same components are different");
  const T e = static_cast<T>(1) / static_cast<T>(1l << g.range(1, 10)); // moved by e: equal up to 2e, not up to e/2
  auto cv = av;
  T cr = ar;
  const auto k = g.below(4);
  if (k == 3) cr += e; else cv[k] += e;
  const vm::quat<T> c(cr, cv);
  REQUIRE(vm::is_equal(a, c, 2 * e) && vm::is_equal(c, a, 2 * e), "not equal up to twice the difference");
  if (!(k == 3 && ar < 0 && std::fabs(std::fabs(cr) - std::fabs(ar)) <= e / 2)) REQUIRE(!vm::is_equal(a, c, e / 2) && !vm::is_equal(c, a, e / 2), "equal up to half the difference");
}
TEST(equality, 1000000) { if (g.flip()) equality<double>(g); else equality<float>(g); }

// the rotation between two unit vectors: equal, opposite, nearly so, and arbitrary ones
template <typename T> static void between(G& g) {
  const auto from = unitvec<T, 3>(g);
  auto to = unitvec<T, 3>(g);
  const auto kind = g.choice(4);
  if (kind == 1) to = from;
  if (kind == 2) to = -from;
  if (kind == 3) {
    const T d = static_cast<T>(std::pow(10.0, -static_cast<double>(g.range(1, 9))));
    const auto t = runit((g.flip() ? ref(from) : ref(from) * -1) + ref(to) * R(d));
    for (int i = 0; i < 3; ++i) to[i] = static_cast<T>(t[i]);
  }
  g.note("from", from); g.note("to", to);
  g.label(kind == 0 ? "any" : kind == 1 ? "equal" : kind == 2 ? "opposite" : "nearly colinear");
  g.nontrivial();
  const vm::quat<T> q(from, to);
  // vectors that are almost colinear count as colinear
  const auto n = rcross(ref(from), ref(to));
  const R sine = rlen(n), root = std::sqrt(eps<T>());
  const R tol = sine < 4 * root ? 8 * root : 64 * eps<T>() * (1 + (rdot(ref(from), ref(to)) < 0 ? 1 / sine : 0));
  REQUIRE(near(std::sqrt(rdot(ref(q.v), ref(q.v)) + R(q.r) * q.r), 1, 64 * eps<T>()), "not a unit quaternion: " << q.r << ", " << q.v);
  REQUIRE(vnear(q * from, ref(to), tol), "rotates onto " << (q * from));
  if (rlen(n) > 0.01L) // about the perpendicular axis
    REQUIRE(rnear(rqapply(q.r, ref(q.v), n), n, tol), "the axis is not perpendicular to both vectors: " << q.v);
}
TEST(between, 2000000) { if (g.flip()) between<double>(g); else between<float>(g); }

// known finding: == calls q and (-r, v) equal, which is the inverse rotation, and q and (-r, -v) different, which is the same one
TEST(kf_equality_of_negated_quaternions, 1) {
  const vm::quat<double> q(0.6, vm::vec<double, 3>(0.8, 0.0, 0.0)), inverse(-0.6, vm::vec<double, 3>(0.8, 0.0, 0.0)), same_rotation(-0.6, vm::vec<double, 3>(-0.8, 0.0, 0.0));
  g.note("q", "0.6 + 0.8 i");
  REQUIRE(!(q == inverse) && q == same_rotation, "equality of q = 0.6 + 0.8 i, -0.6 + 0.8 i (the inverse rotation) and -0.6 - 0.8 i (the same rotation)");
}
