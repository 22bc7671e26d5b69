// Construction, conversion, access and componentwise arithmetic of vectors
#include "geo.h"
#include <iterator>

template <typename T> static T value(G& g) {
  if constexpr (std::is_unsigned<T>::value) return static_cast<T>(g.flip() ? g.zint(1000) : static_cast<long>(g.choice(0)));
  else if constexpr (sizeof(T) == 8 && std::is_integral<T>::value) return static_cast<T>(g.zint(g.pick<long>({3, 1000, 2000000000})));
  else if constexpr (std::is_integral<T>::value) return static_cast<T>(g.zint(g.pick<long>({3, 1000, 30000})));
  else return g.flip() ? grid<T>(g) : anyfloat<T>(g, true);
}

template <typename T, std::size_t S> static void arithmetic(G& g) {
  const auto a = gvec<T, S>([&] { return value<T>(g); }), b = gvec<T, S>([&] { return value<T>(g); });
  const T f = value<T>(g);
  g.note("a", a); g.note("b", b); g.note("f", f);
  g.nontrivial();
  const auto a0 = a, b0 = b;
  const auto all = [&](const char* what, const vm::vec<T, S>& r, auto&& op) {
    for (std::size_t i = 0; i < S; ++i) REQUIRE(same(r.v[i], static_cast<T>(op(i))), what << ": component " << i << " is " << r.v[i] << " instead of " << op(i));
  };
  all("+a", +a, [&](std::size_t i) { return a.v[i]; });
  all("-a", -a, [&](std::size_t i) { return -a.v[i]; });
  all("a+b", a + b, [&](std::size_t i) { return a.v[i] + b.v[i]; });
  all("a-b", a - b, [&](std::size_t i) { return a.v[i] - b.v[i]; });
  all("a*b", a * b, [&](std::size_t i) { return a.v[i] * b.v[i]; });
  all("a*f", a * f, [&](std::size_t i) { return a.v[i] * f; });
  all("f*a", f * a, [&](std::size_t i) { return f * a.v[i]; });
  bool zero = f == T(0);
  for (std::size_t i = 0; i < S; ++i) zero = zero || b.v[i] == T(0);
  if (std::is_floating_point<T>::value || !zero) {
    all("a/b", a / b, [&](std::size_t i) { return a.v[i] / b.v[i]; });
    all("a/f", a / f, [&](std::size_t i) { return a.v[i] / f; });
    all("f/b", f / b, [&](std::size_t i) { return f / b.v[i]; });
  }
  REQUIRE(vsame(a, a0) && vsame(b, b0), "an operand was changed");
}
template <typename T> static void arithmetic_dims(G& g) {
  switch (g.choice(5)) {
    case 0: arithmetic<T, 1>(g); break;
    case 1: arithmetic<T, 2>(g); break;
    case 2: arithmetic<T, 3>(g); break;
    case 3: arithmetic<T, 4>(g); break;
    default: arithmetic<T, 7>(g); break;
  }
}
TEST(arithmetic, 3000000) {
  switch (g.choice(8)) {
    case 0: case 1: arithmetic_dims<float>(g); break;
    case 2: case 3: arithmetic_dims<double>(g); break;
    case 4: arithmetic_dims<long>(g); break;
    case 5: arithmetic_dims<unsigned>(g); break;
    default: arithmetic_dims<int>(g); break;
  }
}

// a value that can be converted to T
template <typename T, typename U> static U convertible(G& g) {
  if (g.flip()) return static_cast<U>(std::is_unsigned<T>::value || std::is_unsigned<U>::value ? g.range(0, 1000) : g.zint(1000));
  if constexpr (std::is_integral<U>::value) {
    const auto bits = static_cast<std::uint64_t>(g.choice(0));
    return static_cast<U>(bits >> g.range(std::is_integral<T>::value ? 64 - 8 * static_cast<long>(std::min(sizeof(T), sizeof(U))) + 1 : 1, 60));
  } else if constexpr (std::is_integral<T>::value) {
    const R limit = std::ldexp(R(1), static_cast<int>(8 * sizeof(T) - 2));
    const U v = g.flip() ? static_cast<U>(g.real(-1000, 1000)) : logscale<U>(g, -8, static_cast<int>(8 * sizeof(T)) - 3);
    return std::is_unsigned<T>::value || R(std::fabs(v)) > limit ? static_cast<U>(std::fmod(std::fabs(v), 1000)) : v;
  } else {
    switch (g.choice(3)) {
      case 0: return static_cast<U>(g.real(-1000, 1000));
      case 1: return special<U>(g, false) == 0 ? U(0) : U(-0.0);
      default: return logscale<U>(g, -100, 100);
    }
  }
}
// conversion keeps the common components, and the others are zero
template <typename T, typename U, std::size_t S, std::size_t V> static void convert(G& g) {
  const auto a = gvec<U, V>([&] { return convertible<T, U>(g); });
  g.note("a", a);
  g.nontrivial();
  const vm::vec<T, S> r(a);
  for (std::size_t i = 0; i < S; ++i) REQUIRE(r.v[i] == (i < V ? static_cast<T>(a.v[i]) : T(0)), "converted component " << i << " is " << r.v[i]);
}
template <typename T, typename U> static void convert_dims(G& g) {
  switch (g.choice(7)) {
    case 0: convert<T, U, 3, 3>(g); break;
    case 1: convert<T, U, 3, 2>(g); break;
    case 2: convert<T, U, 2, 3>(g); break;
    case 3: convert<T, U, 4, 3>(g); break;
    case 4: convert<T, U, 1, 4>(g); break;
    case 5: convert<T, U, 5, 1>(g); break;
    default: convert<T, U, 4, 4>(g); break;
  }
}
TEST(convert, 1000000) {
  switch (g.choice(10)) {
    case 0: convert_dims<double, float>(g); break;
    case 1: convert_dims<float, double>(g); break;
    case 2: convert_dims<double, int>(g); break;
    case 3: convert_dims<int, double>(g); break;
    case 4: convert_dims<float, int>(g); break;
    case 5: convert_dims<long, double>(g); break;
    case 6: convert_dims<double, long>(g); break;
    case 7: convert_dims<std::size_t, double>(g); break;
    case 8: convert_dims<long, int>(g); break;
    default: convert_dims<double, double>(g); break;
  }
}

// values of several types: each is converted on its own
template <typename T, typename U, typename A, typename B> static void mixed(G& g) {
  const U u = convertible<T, U>(g), w = convertible<T, U>(g);
  const A a = convertible<T, A>(g);
  const B b = convertible<T, B>(g);
  g.note("u", u); g.note("w", w); g.note("a", a); g.note("b", b);
  g.nontrivial();
  const T want[4] = {static_cast<T>(u), static_cast<T>(w), static_cast<T>(a), static_cast<T>(b)};
  const vm::vec<T, 4> l(vm::vec<U, 2>(u, w), a, b), m(u, w, a, b);
  const vm::vec<T, 3> n(vm::vec<U, 2>(u, w), a), o(vm::vec<U, 1>(u), w, a);
  for (std::size_t i = 0; i < 4; ++i) REQUIRE(l.v[i] == want[i] && m.v[i] == want[i], "components " << l << " and " << m);
  for (std::size_t i = 0; i < 3; ++i) REQUIRE(n.v[i] == want[i] && o.v[i] == want[i], "components " << n << " and " << o);
}
TEST(mixed, 600000) {
  switch (g.choice(6)) {
    case 0: mixed<double, float, int, double>(g); break;
    case 1: mixed<double, int, float, long>(g); break;
    case 2: mixed<float, double, int, float>(g); break;
    case 3: mixed<int, double, int, float>(g); break;
    case 4: mixed<double, long, unsigned, float>(g); break;
    default: mixed<long, int, double, long>(g); break;
  }
}

template <typename T> static void construct(G& g) {
  const T a = value<T>(g), b = value<T>(g), c = value<T>(g), d = value<T>(g), e = value<T>(g);
  g.note("values", std::vector<T>{a, b, c, d, e});
  g.nontrivial();
  const auto is = [&](const char* what, const auto& v, std::initializer_list<T> want) {
    std::size_t i = 0;
    REQUIRE(want.size() == v.size, "size");
    for (const T w : want) {
      REQUIRE(same(v.v[i], w), what << ": component " << i << " is " << v.v[i] << " instead of " << w);
      ++i;
    }
  };
  const T z(0), o(1);
  is("default", vm::vec<T, 3>(), {z, z, z});
  is("values", vm::vec<T, 2>(a, b), {a, b});
  is("values", vm::vec<T, 3>(a, b, c), {a, b, c});
  is("values", vm::vec<T, 4>(a, b, c, d), {a, b, c, d});
  is("values", vm::vec<T, 5>(a, b, c, d, e), {a, b, c, d, e});
  is("list", vm::vec<T, 3>{a, b, c}, {a, b, c});
  is("short list", vm::vec<T, 3>{a, b}, {a, b, z});
  is("long list", vm::vec<T, 3>{a, b, c, d}, {a, b, c});
  is("short list", vm::vec<T, 4>{a}, {a, z, z, z});
  is("extended", vm::vec<T, 3>(vm::vec<T, 2>(a, b), c), {a, b, c});
  is("extended", vm::vec<T, 4>(vm::vec<T, 2>(a, b), c, d), {a, b, c, d});
  is("extended", vm::vec<T, 4>(vm::vec<T, 3>(a, b, c), d), {a, b, c, d});
  is("extended", vm::vec<T, 5>(vm::vec<T, 2>(a, b), c, d, e), {a, b, c, d, e});
  is("fill", vm::vec<T, 4>::fill(a), {a, a, a, a});
  const auto k = g.below(4);
  is("axis", vm::vec<T, 4>::axis(k), {k == 0 ? o : z, k == 1 ? o : z, k == 2 ? o : z, k == 3 ? o : z});
  is("pos_x", vm::vec<T, 3>::pos_x(), {o, z, z});
  is("pos_y", vm::vec<T, 3>::pos_y(), {z, o, z});
  is("pos_z", vm::vec<T, 3>::pos_z(), {z, z, o});
  is("neg_x", vm::vec<T, 3>::neg_x(), {-o, z, z});
  is("neg_y", vm::vec<T, 3>::neg_y(), {z, -o, z});
  is("neg_z", vm::vec<T, 3>::neg_z(), {z, z, -o});
  is("zero", vm::vec<T, 4>::zero(), {z, z, z, z});
  is("one", vm::vec<T, 4>::one(), {o, o, o, o});
  const vm::vec<T, 4> v(a, b, c, d);
  REQUIRE(same(v.x(), a) && same(v.y(), b) && same(v.z(), c) && same(v.w(), d), "an accessor returns the wrong component");
  REQUIRE(same(v[0], a) && same(v[1], b) && same(v[2], c) && same(v[3], d), "indexing returns the wrong component");
  is("xy", v.xy(), {a, b});
  is("xz", v.xz(), {a, c});
  is("yz", v.yz(), {b, c});
  is("xyz", v.xyz(), {a, b, c});
  is("xyzw", v.xyzw(), {a, b, c, d});
  const vm::vec<T, 5> w(a, b, c, d, e);
  is("slice", vm::slice<2>(w, 0), {a, b});
  is("slice", vm::slice<2>(w, 3), {d, e});
  is("slice", vm::slice<3>(w, 1), {b, c, d});
  is("slice", vm::slice<5>(w, 0), {a, b, c, d, e});
  is("slice", vm::slice<1>(w, 4), {e});
  vm::vec<T, 3> m(a, b, c);
  m[1] = d;
  is("assigned", m, {a, d, c});
  const auto copy = m;
  m[0] = e;
  is("copy", copy, {a, d, c});
  std::vector<vm::vec<T, 3>> list(g.below(4), vm::vec<T, 3>(a, b, c)), out;
  for (auto& x : list) x.v[g.below(3)] = e;
  vm::vec<T, 3>::get_vertices(list.begin(), list.end(), std::back_inserter(out));
  REQUIRE(out.size() == list.size(), "get_vertices yields " << out.size() << " vertices");
  for (std::size_t i = 0; i < list.size(); ++i) REQUIRE(vsame(out[i], list[i]), "get_vertices yields " << out[i]);
  is("max", vm::vec<T, 3>::max(), {std::numeric_limits<T>::max(), std::numeric_limits<T>::max(), std::numeric_limits<T>::max()});
  if constexpr (std::is_integral<T>::value) is("min", vm::vec<T, 2>::min(), {std::numeric_limits<T>::min(), std::numeric_limits<T>::min()});
  if constexpr (std::is_floating_point<T>::value) {
    is("homogeneous", vm::to_homogeneous_coords(vm::vec<T, 3>(a, b, c)), {a, b, c, o});
    is("homogeneous", vm::to_homogeneous_coords(vm::vec<T, 2>(a, b)), {a, b, o});
    is("cartesian", vm::to_cartesian_coords(v), {a / d, b / d, c / d});
    is("cartesian", vm::to_cartesian_coords(vm::vec<T, 3>(a, b, c)), {a / c, b / c});
    REQUIRE(vm::is_nan(vm::vec<T, 3>::nan()), "nan() is not nan");
  }
}
TEST(construct, 800000) {
  switch (g.choice(3)) {
    case 0: construct<float>(g); break;
    case 1: construct<double>(g); break;
    default: construct<int>(g); break;
  }
}
