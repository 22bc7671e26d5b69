// Text: printing and parsing vectors and matrices, printing geometry
#include "geo.h"
#include <cstdio>
#include <iomanip>
#include <memory>
#include <vecmath/bbox.h>
#include <vecmath/bbox_io.h>
#include <vecmath/line.h>
#include <vecmath/line_io.h>
#include <vecmath/mat.h>
#include <vecmath/mat_io.h>
#include <vecmath/plane.h>
#include <vecmath/plane_io.h>
#include <vecmath/ray.h>
#include <vecmath/ray_io.h>

// a view of the text whose end is the end of the allocation, so that AddressSanitizer sees reads beyond it
struct Exact {
  std::unique_ptr<char[]> p;
  std::size_t n;
  explicit Exact(const std::string& s) : p(new char[s.size()]), n(s.size()) { std::memcpy(p.get(), s.data(), n); }
  std::string_view view() const { return {p.get(), n}; }
};
static const char* const behind[] = {"7", "e5", ".5", "x", " 1 2 3 4 5 6 7 8 9 1 2 3 4 5 6 7", ")", "f"};

template <typename T> static T value(G& g) {
  switch (g.choice(6)) {
    case 0: return static_cast<T>(g.zint(9));
    case 1: return grid<T>(g);
    case 2: return num<T>(g);
    case 3: return special<T>(g, false);
    case 4: return logscale<T>(g, -40, 40);
    default: return anyfloat<T>(g, false);
  }
}
// a decimal (or hexadecimal) form of v, and the value it denotes
static std::string form(G& g, const double v, double& denoted) {
  char buf[512];
  static const char* const formats[] = {"%g", "%.17g", "%+.17g", "%.9g", "%f", "%.3e", "%.0f", "%.12E", "%a"};
  std::snprintf(buf, sizeof buf, formats[g.below(9)], v);
  denoted = std::strtod(buf, nullptr);
  std::string s = buf;
  if (std::isfinite(v) && s.find_first_of("xp") == std::string::npos) {
    if (s.size() > 2 && s[0] == '0' && s[1] == '.' && g.one_in(3)) s.erase(0, 1); // .5
    else if (s.find_first_of(".eE") == std::string::npos && g.one_in(4)) s += '.'; // 5.
    else if (g.one_in(8)) s.insert(s[0] == '-' || s[0] == '+' ? 1 : 0, "0");
  }
  return s;
}
static std::string some(G& g, const char* chars, const long lo, const long hi) {
  std::string s;
  const std::string c = chars;
  const long n = g.range(lo, hi);
  for (long i = 0; i < n; ++i) s += c[g.below(c.size())];
  return s;
}
static constexpr auto blanks = " \t\n\r()";

template <typename T> static bool close_to(const T got, const double v) { // v converted to T
  return same(got, static_cast<T>(v));
}

template <typename T, std::size_t S> static void parse_vec(G& g) {
  std::string text = some(g, blanks, 0, 2);
  double d[S];
  for (std::size_t i = 0; i < S; ++i) {
    text += form(g, static_cast<double>(value<T>(g)), d[i]);
    if (i + 1 < S) text += g.flip() ? std::string(" ") : some(g, blanks, 1, 3);
  }
  if (g.flip()) text += some(g, blanks, 1, 3) + g.pick<std::string>({"", "5", "x", "1 2", ","});
  g.note("text", text); g.note("size", S);
  g.nontrivial();
  const auto check = [&](const std::string_view v, const char* what) {
    const auto r = vm::parse<T, S>(v);
    REQUIRE(r.has_value(), what << ": no vector parsed from \"" << text << "\"");
    for (std::size_t i = 0; i < S; ++i) REQUIRE(close_to((*r).v[i], d[i]), what << ": component " << i << " is " << (*r).v[i] << " instead of " << static_cast<T>(d[i]) << " in \"" << text << "\"");
  };
  const Exact e(text);
  check(e.view(), "exact view");
  const std::string longer = text + behind[g.below(7)];
  check(std::string_view(longer).substr(0, text.size()), "part of a longer text");
  // remove components from the end
  const std::size_t keep = g.below(S);
  std::string part = some(g, blanks, 0, 2);
  double x;
  for (std::size_t i = 0; i < keep; ++i) part += form(g, static_cast<double>(value<T>(g)), x) + (i + 1 < keep || g.flip() ? some(g, blanks, 1, 2) : std::string());
  const Exact p(part);
  REQUIRE(!(vm::parse<T, S>(p.view()).has_value()), "a vector of " << S << " components was parsed from \"" << part << "\"");
  const std::string more = part + "1 2 3 4 5 6";
  REQUIRE(!(vm::parse<T, S>(std::string_view(more).substr(0, part.size())).has_value()), "a vector of " << S << " components was parsed from the beginning \"" << part << "\" of \"" << more << "\"");
  // replace a component by something else
  const std::size_t at = g.below(S);
  std::string bad;
  for (std::size_t i = 0; i < S; ++i) bad += (i > 0 ? " " : "") + (i == at ? g.pick<std::string>({"x", "-", "+", ".", "abc", "e5", "--1", "_1", "$", "#1"}) : form(g, static_cast<double>(value<T>(g)), x));
  const Exact b(bad);
  REQUIRE(!(vm::parse<T, S>(b.view()).has_value()), "a vector was parsed from \"" << bad << "\"");
}
TEST(parse_vec, 400000) {
  switch (g.choice(5)) {
    case 0: parse_vec<double, 3>(g); break;
    case 1: parse_vec<float, 3>(g); break;
    case 2: parse_vec<double, 1>(g); break;
    case 3: parse_vec<float, 2>(g); break;
    default: parse_vec<double, 4>(g); break;
  }
}

template <typename T, std::size_t S> static void parse_list(G& g) {
  const std::size_t n = count(g, 6, 100);
  std::string text = some(g, blanks, 0, 2);
  std::vector<std::array<double, S>> want;
  for (std::size_t k = 0; k < n; ++k) {
    if (k > 0) text += some(g, ")", 0, 1) + some(g, " \t\n\r,;", 1, 3) + some(g, " (", 0, 2);
    std::array<double, S> d;
    for (std::size_t i = 0; i < S; ++i) {
      text += form(g, static_cast<double>(value<T>(g)), d[i]);
      if (i + 1 < S) text += some(g, " \t\n\r()", 1, 2);
    }
    want.push_back(d);
  }
  if (n > 0) text += some(g, ")", 0, 1);
  double x;
  if (S > 1 && g.one_in(3)) { // a vector that is cut off
    const std::size_t keep = static_cast<std::size_t>(g.range(0, S - 1));
    text += n > 0 ? g.pick<std::string>({", ", ";", " "}) : std::string();
    for (std::size_t i = 0; i < keep; ++i) text += form(g, static_cast<double>(value<T>(g)), x) + " ";
  }
  g.note("text", text);
  g.nontrivial(n > 1);
  const auto check = [&](const std::string_view v, const char* what) {
    std::vector<vm::vec<T, S>> r;
    vm::parse_all<T, S>(v, std::back_inserter(r));
    REQUIRE(r.size() == n, what << ": " << r.size() << " instead of " << n << " vectors parsed from \"" << text << "\"");
    for (std::size_t k = 0; k < n; ++k)
      for (std::size_t i = 0; i < S; ++i) REQUIRE(close_to(r[k].v[i], want[k][i]), what << ": component " << i << " of vector " << k << " is " << r[k].v[i] << " instead of " << static_cast<T>(want[k][i]) << " in \"" << text << "\"");
  };
  const Exact e(text);
  check(e.view(), "exact view");
  const std::string longer = text + behind[g.below(7)];
  check(std::string_view(longer).substr(0, text.size()), "part of a longer text");
}
TEST(parse_list, 300000) {
  switch (g.choice(4)) {
    case 0: parse_list<double, 3>(g); break;
    case 1: parse_list<float, 3>(g); break;
    case 2: parse_list<double, 2>(g); break;
    default: parse_list<double, 4>(g); break;
  }
}

template <typename T, std::size_t Rr, std::size_t Cc> static void parse_mat(G& g) {
  std::string text = some(g, blanks, 0, 2);
  double d[Rr * Cc];
  for (std::size_t i = 0; i < Rr * Cc; ++i) {
    text += form(g, static_cast<double>(value<T>(g)), d[i]);
    if (i + 1 < Rr * Cc) text += g.flip() ? std::string(" ") : some(g, blanks, 1, 3);
  }
  if (g.flip()) text += some(g, blanks, 1, 3) + g.pick<std::string>({"", "5", "x", "1 2", ","});
  g.note("text", text);
  g.nontrivial();
  const auto check = [&](const std::string_view v, const char* what) {
    const auto r = vm::parse<T, Rr, Cc>(v);
    REQUIRE(r.has_value(), what << ": no matrix parsed from \"" << text << "\"");
    for (std::size_t i = 0; i < Rr; ++i)
      for (std::size_t j = 0; j < Cc; ++j) REQUIRE(close_to((*r).v[j].v[i], d[i * Cc + j]), what << ": row " << i << ", column " << j << " is " << (*r).v[j].v[i] << " instead of " << static_cast<T>(d[i * Cc + j]) << " in \"" << text << "\"");
  };
  const Exact e(text);
  check(e.view(), "exact view");
  const std::string longer = text + behind[g.below(7)];
  check(std::string_view(longer).substr(0, text.size()), "part of a longer text");
  const std::size_t keep = g.below(Rr * Cc);
  std::string part, bad;
  double x;
  for (std::size_t i = 0; i < keep; ++i) part += form(g, static_cast<double>(value<T>(g)), x) + (i + 1 < keep || g.flip() ? " " : "");
  const Exact p(part);
  REQUIRE(!(vm::parse<T, Rr, Cc>(p.view()).has_value()), "a matrix was parsed from \"" << part << "\"");
  const std::size_t at = g.below(Rr * Cc);
  for (std::size_t i = 0; i < Rr * Cc; ++i) bad += (i > 0 ? " " : "") + (i == at ? g.pick<std::string>({"x", "-", ".", "abc", "--1", "$"}) : std::string("1"));
  const Exact b(bad);
  REQUIRE(!(vm::parse<T, Rr, Cc>(b.view()).has_value()), "a matrix was parsed from \"" << bad << "\"");
}
TEST(parse_mat, 200000) {
  switch (g.choice(4)) {
    case 0: parse_mat<double, 2, 3>(g); break;
    case 1: parse_mat<float, 3, 3>(g); break;
    case 2: parse_mat<double, 4, 4>(g); break;
    default: parse_mat<double, 3, 1>(g); break;
  }
}

// printing: number by number as the stream prints numbers, and back
static void format(G& g, std::ostream& s, int& prec, char& mode) {
  prec = static_cast<int>(g.pick<long>({6, 17, 9, 3}));
  mode = g.pick<char>({'g', 'g', 'f', 'e'});
  s << std::setprecision(prec);
  if (mode == 'f') s << std::fixed;
  if (mode == 'e') s << std::scientific;
}
static std::string printed(const double v, const int prec, const char mode) {
  char f[8] = {'%', '.', '*', mode, 0}, buf[512];
  std::snprintf(buf, sizeof buf, f, prec, v);
  return buf;
}
template <typename T, std::size_t S> static std::string printed(const vm::vec<T, S>& v, const int prec, const char mode) {
  std::string s;
  for (std::size_t i = 0; i < S; ++i) s += (i > 0 ? " " : "") + printed(static_cast<double>(v.v[i]), prec, mode);
  return s;
}
template <typename T, std::size_t S> static void print_vec(G& g) {
  const auto v = gvec<T, S>([&] { return value<T>(g); });
  std::ostringstream s;
  int prec; char mode;
  format(g, s, prec, mode);
  auto& returned = (s << v);
  g.note("vector", v);
  g.nontrivial();
  REQUIRE(&returned == &s, "the stream is not returned");
  REQUIRE(s.str() == printed(v, prec, mode), "printed as \"" << s.str() << "\" instead of \"" << printed(v, prec, mode) << "\"");
  REQUIRE(s.precision() == prec, "the precision of the stream was changed");
  if (mode == 'g' && prec == 17) {
    g.label("round trip");
    const std::string t = s.str();
    const auto r = vm::parse<T, S>(t);
    REQUIRE(r.has_value(), "the printed vector \"" << t << "\" cannot be parsed");
    for (std::size_t i = 0; i < S; ++i) REQUIRE(same_bits((*r).v[i], v.v[i]), "parsing \"" << t << "\" gives " << *r);
  }
}
TEST(print_vec, 400000) {
  switch (g.choice(5)) {
    case 0: print_vec<double, 3>(g); break;
    case 1: print_vec<float, 3>(g); break;
    case 2: print_vec<double, 1>(g); break;
    case 3: print_vec<float, 2>(g); break;
    default: print_vec<double, 5>(g); break;
  }
}
template <typename T, std::size_t Rr, std::size_t Cc> static void print_mat(G& g) {
  vm::mat<T, Rr, Cc> m;
  for (std::size_t c = 0; c < Cc; ++c) for (std::size_t r = 0; r < Rr; ++r) m.v[c].v[r] = value<T>(g);
  std::ostringstream s;
  int prec; char mode;
  format(g, s, prec, mode);
  s << m;
  std::string want;
  for (std::size_t r = 0; r < Rr; ++r) for (std::size_t c = 0; c < Cc; ++c) want += (r + c > 0 ? " " : "") + printed(static_cast<double>(m.v[c].v[r]), prec, mode);
  g.nontrivial();
  REQUIRE(s.str() == want, "printed as \"" << s.str() << "\" instead of \"" << want << "\"");
  if (mode == 'g' && prec == 17) {
    const auto back = vm::parse<T, Rr, Cc>(s.str());
    REQUIRE(back.has_value(), "the printed matrix cannot be parsed");
    for (std::size_t c = 0; c < Cc; ++c) for (std::size_t r = 0; r < Rr; ++r) REQUIRE(same_bits((*back).v[c].v[r], m.v[c].v[r]), "parsing \"" << s.str() << "\" gives another matrix");
  }
}
TEST(print_mat, 200000) {
  switch (g.choice(4)) {
    case 0: print_mat<double, 2, 3>(g); break;
    case 1: print_mat<float, 4, 4>(g); break;
    case 2: print_mat<double, 3, 3>(g); break;
    default: print_mat<double, 4, 1>(g); break;
  }
}
template <typename T, std::size_t S> static void print_geometry(G& g) {
  const auto a = numvec<T, S>(g), b = numvec<T, S>(g);
  const T dist = num<T>(g);
  std::ostringstream s;
  int prec; char mode;
  format(g, s, prec, mode);
  g.nontrivial();
  std::string want;
  const auto A = printed(a, prec, mode), B = printed(b, prec, mode);
  switch (g.choice(4)) {
    case 0: {
      vm::bbox<T, S> x;
      x.min = a; x.max = b;
      s << x; want = "{ min: (" + A + "), max: (" + B + ") }";
      break;
    }
    case 1: { vm::ray<T, S> x; x.origin = a; x.direction = b; s << x; want = "{ origin: (" + A + "), direction: (" + B + ") }"; break; }
    case 2: { vm::line<T, S> x; x.point = a; x.direction = b; s << x; want = "{ point: (" + A + "), direction: (" + B + ") }"; break; }
    default: { vm::plane<T, S> x; x.normal = a; x.distance = dist; s << x; want = "{ normal: (" + A + "), distance: " + printed(static_cast<double>(dist), prec, mode) + " }"; break; }
  }
  REQUIRE(s.str() == want, "printed as \"" << s.str() << "\" instead of \"" << want << "\"");
}
TEST(print_geometry, 200000) {
  switch (g.choice(3)) {
    case 0: print_geometry<double, 3>(g); break;
    case 1: print_geometry<float, 3>(g); break;
    default: print_geometry<double, 2>(g); break;
  }
}

// vectors of integers
template <typename T, std::size_t S> static void integers(G& g) {
  vm::vec<T, S> v, w;
  const long most = static_cast<long>(std::min<long double>(9007199254740992.0L, std::numeric_limits<T>::max()));
  std::string text, list;
  for (auto* x : {&v, &w}) {
    std::string t;
    for (std::size_t i = 0; i < S; ++i) {
      long k = g.range(0, g.pick<long>({9, 1000, most}));
      if (std::is_signed<T>::value && g.flip()) k = -k;
      (*x).v[i] = static_cast<T>(k);
      t += (i > 0 ? " " : "") + std::to_string(k);
    }
    text = t;
    list += (x == &v ? "" : g.flip() ? "," : "; ") + t;
  }
  g.note("text", list);
  g.nontrivial();
  std::ostringstream s;
  s << w;
  REQUIRE(s.str() == text, "prints \"" << s.str() << "\"");
  const auto r = vm::parse<T, S>(text);
  REQUIRE(r.has_value() && vsame(*r, w), "does not parse back");
  std::vector<vm::vec<T, S>> got;
  vm::parse_all<T, S>(list, std::back_inserter(got));
  REQUIRE(got.size() == 2 && vsame(got[0], v) && vsame(got[1], w), "the list parses to " << got.size() << " vectors");
}
TEST(integers, 200000) {
  switch (g.choice(4)) {
    case 0: integers<int, 3>(g); break;
    case 1: integers<long, 2>(g); break;
    case 2: integers<unsigned, 4>(g); break;
    default: integers<short, 1>(g); break;
  }
}

// any text: the first S words decide if all of them are numbers, or if one of them does not begin like one
template <typename T, std::size_t S> static void any_text(G& g) {
  static const std::string alphabet = "0123456789.-+e \t()(,;xinfa  ";
  std::string text;
  const std::size_t n = static_cast<std::size_t>(g.range(0, 24));
  for (std::size_t i = 0; i < n; ++i) text += alphabet[g.below(alphabet.size())];
  g.note("text", text);
  std::vector<std::string> words(1);
  for (const char c : text) {
    if (std::strchr(blanks, c)) { if (!words.back().empty()) words.emplace_back(); }
    else words.back() += c;
  }
  if (words.back().empty()) words.pop_back();
  const Exact e(text);
  const auto r = vm::parse<T, S>(e.view());
  std::vector<vm::vec<T, S>> all;
  vm::parse_all<T, S>(e.view(), std::back_inserter(all));
  REQUIRE(all.size() * S <= text.size(), all.size() << " vectors parsed from \"" << text << "\"");
  if (words.size() < S) {
    REQUIRE(!r.has_value(), "parsed from too short a text \"" << text << "\"");
    return;
  }
  for (std::size_t i = 0; i < S; ++i) {
    char* end;
    const double v = std::strtod(words[i].c_str(), &end);
    if (end == words[i].c_str()) {
      g.label("not a number"); g.nontrivial();
      REQUIRE(!r.has_value(), "parsed from \"" << text << "\", although \"" << words[i] << "\" is not a number");
      return;
    }
    if (*end != 0) { g.label("number followed by something else, skipped"); return; }
    if (r.has_value()) REQUIRE(close_to((*r).v[i], v), "component " << i << " parsed from \"" << text << "\" is " << (*r).v[i]);
  }
  g.label("vector"); g.nontrivial();
  REQUIRE(r.has_value(), "not parsed: \"" << text << "\"");
}
TEST(any_text, 1000000) {
  switch (g.choice(3)) {
    case 0: any_text<double, 3>(g); break;
    case 1: any_text<double, 1>(g); break;
    default: any_text<float, 2>(g); break;
  }
}
