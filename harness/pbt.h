// Small property-based testing engine: every random choice of a case goes through one
// recorded choice sequence, so that any failing case can be shrunk (by editing the sequence)
// and replayed (by feeding the sequence back), without the RNG.
#pragma once

#include <cmath>
#include <cstdint>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <sstream>
#include <string>
#include <type_traits>
#include <vector>

namespace pbt {

struct Failure {
  std::string msg;
};

inline std::uint64_t mix64(std::uint64_t z) {
  z += 0x9e3779b97f4a7c15ull;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
  return z ^ (z >> 31);
}

// memory shared between a worker and the parent, so that the parent can see the choices of a
// case that crashed or hung
struct Slot {
  volatile std::uint64_t test;
  volatile std::uint64_t index;
  volatile std::uint64_t started_ms; // 0: idle
  volatile std::uint64_t done;
  volatile std::uint64_t nchoices;
  static constexpr std::size_t cap = 1u << 15;
  std::uint64_t choices[cap];
};

// Source of choices for one case
class G {
public:
  // generating
  explicit G(std::uint64_t seed, Slot* slot = nullptr) : m_state(seed), m_slot(slot) {}
  // replaying
  explicit G(const std::vector<std::uint64_t>* replay, Slot* slot = nullptr)
      : m_replay(replay), m_slot(slot) {}

  // a choice in [0, bound); bound == 0 means 64 bits. 0 is the simplest choice.
  std::uint64_t choice(std::uint64_t bound) {
    std::uint64_t v;
    if (m_replay) {
      v = m_pos < m_replay->size() ? (*m_replay)[m_pos] : 0u;
      if (bound != 0 && v >= bound) v = v % bound;
    } else {
      m_state += 0x9e3779b97f4a7c15ull;
      v = mix64(m_state);
      if (bound != 0) v = static_cast<std::uint64_t>((static_cast<unsigned __int128>(v) * bound) >> 64);
    }
    ++m_pos;
    if (m_slot && m_rec.size() < Slot::cap) {
      m_slot->choices[m_rec.size()] = v;
      m_slot->nchoices = m_rec.size() + 1;
    }
    m_rec.push_back(v);
    m_hash = mix64(m_hash ^ v) + m_rec.size();
    return v;
  }
  const std::vector<std::uint64_t>& recorded() const { return m_rec; }
  std::uint64_t hash() const { return m_hash; }

  // ---- basic generators -------------------------------------------------------------------
  bool flip() { return choice(2) == 1; }
  bool one_in(std::uint64_t n) { return choice(n) == n - 1; }
  std::size_t below(std::size_t n) { return static_cast<std::size_t>(choice(n)); }
  // uniform in [lo, hi], lo simplest
  long range(long lo, long hi) {
    return lo + static_cast<long>(choice(static_cast<std::uint64_t>(hi - lo) + 1u));
  }
  // uniform in [-k, k], 0 simplest (zig-zag)
  long zint(long k) {
    const auto c = static_cast<long>(choice(static_cast<std::uint64_t>(2 * k) + 1u));
    return (c & 1) ? (c + 1) / 2 : -(c / 2);
  }
  template <typename T> const T& pick(const std::vector<T>& v) { return v[below(v.size())]; }
  template <typename T> T pick(std::initializer_list<T> l) { return *(l.begin() + below(l.size())); }

  // uniform real in [0, 1) with 53 (or 24) random bits
  double unit() { return static_cast<double>(choice(std::uint64_t(1) << 53)) * 0x1p-53; }
  double real(double lo, double hi) { return lo + (hi - lo) * unit(); }

  // ---- observations -----------------------------------------------------------------------
  void label(const char* l) {
    if (labels) ++(*labels)[l];
  }
  void nontrivial(bool b = true) { m_nontrivial = m_nontrivial || b; }
  bool is_nontrivial() const { return m_nontrivial; }
  template <typename T> void note(const char* name, const T& v) {
    if (!verbose) return;
    std::ostringstream s;
    s.precision(std::numeric_limits<long double>::max_digits10 > 17 ? 17 : 17);
    print(s, v);
    notes += std::string(notes.empty() ? "" : "; ") + name + "=" + s.str();
  }
  std::map<std::string, std::uint64_t>* labels = nullptr;
  bool verbose = false;
  std::string notes;

private:
  template <typename T> static auto printImpl(std::ostream& s, const T& v, int) -> decltype(s << v, void()) {
    s << v;
  }
  template <typename T> static auto printImpl(std::ostream& s, const T& v, long) -> decltype(v.begin(), v.end(), void()) {
    s << "{";
    bool first = true;
    for (const auto& e : v) {
      if (!first) s << ", ";
      first = false;
      print(s, e);
    }
    s << "}";
  }
  template <typename T> static void printImpl(std::ostream& s, const T&, ...) { s << "<?>"; }
  template <typename T> static void print(std::ostream& s, const T& v) { printImpl(s, v, 0); }

  std::uint64_t m_state = 0;
  const std::vector<std::uint64_t>* m_replay = nullptr;
  Slot* m_slot = nullptr;
  std::size_t m_pos = 0;
  std::vector<std::uint64_t> m_rec;
  std::uint64_t m_hash = 0;
  bool m_nontrivial = false;
};

[[noreturn]] inline void fail(const std::string& msg) { throw Failure{msg}; }

struct Test {
  std::string name;
  std::uint64_t quick;    // cases on the quick tier
  std::uint64_t thorough; // cases on the thorough tier
  void (*fn)(G&);
};

inline std::vector<Test>& registry() {
  static std::vector<Test> r;
  return r;
}

struct Reg {
  Reg(const char* n, std::uint64_t q, std::uint64_t t, void (*f)(G&)) { registry().push_back({n, q, t, f}); }
};

} // namespace pbt

// TEST(name, quick cases): the thorough tier runs 25 times as many
#define TEST(name, quick)                                                                         \
  static void test_##name(pbt::G& g);                                                             \
  static pbt::Reg reg_##name(#name, static_cast<std::uint64_t>(quick), static_cast<std::uint64_t>(quick) * 25u, test_##name); \
  static void test_##name([[maybe_unused]] pbt::G& g)

#define REQUIRE(cond, what)                                                                       \
  do {                                                                                            \
    if (!(cond)) {                                                                                \
      std::ostringstream pbt_s_;                                                                  \
      pbt_s_.precision(17);                                                                       \
      pbt_s_ << what << "   [" << #cond << "]";                                                   \
      ::pbt::fail(pbt_s_.str());                                                                  \
    }                                                                                             \
  } while (false)
