// Driver of the engine in pbt.h: runs every registered test over forked workers, shrinks the
// first failure of each test, and writes a JSON report. Every case is a pure function of
// (seed, test name, case index) and the code under test.
#include "pbt.h"

#include <algorithm>
#include <chrono>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <memory>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

using namespace pbt;

namespace {

std::uint64_t now_ms() {
  using namespace std::chrono;
  return static_cast<std::uint64_t>(duration_cast<milliseconds>(steady_clock::now().time_since_epoch()).count()) + 1u;
}

std::uint64_t hash_str(const std::string& s) {
  std::uint64_t h = 1469598103934665603ull;
  for (const char c : s) h = (h ^ static_cast<unsigned char>(c)) * 1099511628211ull;
  return h;
}

std::string json(const std::string& s) {
  std::string r = "\"";
  for (const char ch : s) {
    const auto c = static_cast<unsigned char>(ch);
    if (c == '"' || c == '\\') { r += '\\'; r += ch; }
    else if (c < 0x20 || c > 0x7e) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); r += b; }
    else r += ch;
  }
  return r + "\"";
}

using Choices = std::vector<std::uint64_t>;

struct Result {
  bool failed = false;
  std::string msg;
  std::string notes;
  Choices rec;
};

Result run_choices(const Test& t, const Choices& c, bool verbose, Slot* slot = nullptr) {
  G g(&c, slot);
  g.verbose = verbose;
  Result r;
  try {
    t.fn(g);
  } catch (const Failure& f) {
    r.failed = true;
    r.msg = f.msg;
  } catch (const std::exception& e) {
    r.failed = true;
    r.msg = std::string("unexpected exception: ") + e.what();
  }
  r.notes = g.notes;
  r.rec = g.recorded();
  return r;
}

// Shortlex-ish shrinking of a choice sequence
Choices shrink(Choices best, const std::function<bool(const Choices&, Choices&)>& fails, int budget) {
  const auto attempt = [&](const Choices& c) {
    if (budget-- <= 0) return false;
    Choices rec;
    if (!fails(c, rec)) return false;
    if (rec.size() > c.size()) rec.resize(c.size());
    if (rec.size() < best.size() || (rec.size() == best.size() && rec < best)) {
      best = rec;
      return true;
    }
    return false;
  };
  bool progress = true;
  while (progress && budget > 0) {
    progress = false;
    for (std::size_t k = std::max<std::size_t>(best.size() / 2, 1); k >= 1; k /= 2) {
      for (std::size_t i = 0; i + k <= best.size() && budget > 0;) {
        Choices c = best;
        c.erase(c.begin() + static_cast<long>(i), c.begin() + static_cast<long>(i + k));
        if (attempt(c)) progress = true; else i += k;
      }
      if (k == 1) break;
    }
    for (std::size_t k = std::max<std::size_t>(best.size() / 2, 1); k >= 1; k /= 2) {
      for (std::size_t i = 0; i + k <= best.size() && budget > 0; i += k) {
        Choices c = best;
        bool any = false;
        for (std::size_t j = i; j < i + k; ++j) { any = any || c[j] != 0; c[j] = 0; }
        if (any && attempt(c)) progress = true;
      }
      if (k == 1) break;
    }
    for (std::size_t i = 0; i < best.size() && budget > 0; ++i) {
      std::uint64_t lo = 0; // known not to fail (roughly)
      while (i < best.size() && best[i] > lo && budget > 0) {
        const std::uint64_t mid = lo + (best[i] - lo) / 2;
        if (mid == best[i]) break;
        Choices c = best;
        c[i] = mid;
        if (attempt(c)) { progress = true; } else { if (lo == mid) break; lo = mid; }
        if (i < best.size() && best[i] == lo + 1) break;
      }
      if (i < best.size() && best[i] > 0) {
        Choices c = best;
        c[i] -= 1;
        if (attempt(c)) progress = true;
      }
    }
  }
  return best;
}

struct Stats {
  std::uint64_t evaluations = 0;
  std::uint64_t nontrivial = 0;
  std::map<std::string, std::uint64_t> labels;
  std::vector<std::uint64_t> hashes;
  std::vector<std::string> samples;
};

struct Found {
  std::string test, kind, msg, notes;
  Choices choices;
};

void write_choices(std::ostream& o, const Choices& c) {
  for (std::size_t i = 0; i < c.size(); ++i) o << (i ? " " : "") << c[i];
}

// runs the given choices in a child; returns "" (passed), "check", "crash" or "hang"
std::string run_forked(const Test& t, const Choices& c, unsigned timeout_s, Slot* slot) {
  const pid_t pid = fork();
  if (pid == 0) {
    struct rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    if (freopen("/dev/null", "w", stderr) == nullptr) _exit(0);
    const auto r = run_choices(t, c, false, slot);
    _exit(r.failed ? 1 : 0);
  }
  const auto t0 = now_ms();
  for (;;) {
    int st = 0;
    if (waitpid(pid, &st, WNOHANG) == pid) {
      if (WIFEXITED(st)) return WEXITSTATUS(st) == 0 ? "" : WEXITSTATUS(st) == 1 ? "check" : "crash";
      return "crash";
    }
    if (now_ms() - t0 > timeout_s * 1000u) {
      kill(pid, SIGKILL);
      waitpid(pid, &st, 0);
      return "hang";
    }
    usleep(500);
  }
}

int replay(const std::string& path) {
  std::ifstream in(path);
  std::string line, test, kind;
  Choices c;
  while (std::getline(in, line)) {
    if (line.rfind("test: ", 0) == 0) test = line.substr(6);
    else if (line.rfind("kind: ", 0) == 0) kind = line.substr(6);
    else if (line.rfind("choices:", 0) == 0) {
      std::istringstream s(line.substr(8));
      std::uint64_t v;
      while (s >> v) c.push_back(v);
    }
  }
  for (const auto& t : registry()) {
    if (t.name != test) continue;
    auto* slot = static_cast<Slot*>(mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    const auto k = run_forked(t, c, 30, slot);
    if (k.empty()) { std::cout << "replay of " << test << ": holds\n"; return 0; }
    std::cout << "replay of " << test << ": fails (" << k << ")\n";
    if (k == "check") {
      const auto r = run_choices(t, c, true);
      std::cout << "  " << r.msg << "\n  with " << r.notes << "\n";
    }
    return 1;
  }
  std::cerr << "no such test: " << test << "\n";
  return 2;
}

// choices of a fuzzer input: the first byte is the test, every further choice takes the bytes its bound needs
struct Decoded { std::size_t test; Choices choices; };

[[maybe_unused]] Decoded decode(const std::uint8_t* data, std::size_t size) {
  Decoded d{0, {}};
  if (size == 0) return d;
  d.test = data[0] % registry().size();
  // small choices take one byte; larger ones an escape and 2 or 8 bytes
  for (std::size_t i = 1; i < size;) {
    const std::uint8_t c = data[i++];
    if (c < 0xf0) { d.choices.push_back(c); continue; }
    std::uint64_t v = 0;
    const std::size_t n = c < 0xf8 ? 2 : 8;
    for (std::size_t k = 0; k < n && i < size; ++k) v = v << 8 | data[i++];
    d.choices.push_back(v);
  }
  return d;
}

} // namespace

#ifdef PBT_FUZZ
extern "C" int LLVMFuzzerTestOneInput(const std::uint8_t* data, std::size_t size) {
  const auto d = decode(data, size);
  if (d.choices.empty()) return 0;
  const auto& t = registry()[d.test];
  if (t.name.rfind("kf_", 0) == 0) return 0;
  const auto r = run_choices(t, d.choices, false);
  if (r.failed) {
    std::cerr << t.name << ": " << r.msg << "\n";
    std::abort();
  }
  return 0;
}
#else
int from_bytes(const std::string& path, const std::string& out) {
  std::ifstream in(path, std::ios::binary);
  const std::string b((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
  const auto d = decode(reinterpret_cast<const std::uint8_t*>(b.data()), b.size());
  const auto& t = registry()[d.test];
  auto* slot = static_cast<Slot*>(mmap(nullptr, sizeof(Slot), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  const auto k0 = run_forked(t, d.choices, 30, slot);
  if (k0.empty()) return 0;
  Choices best = d.choices;
  if (k0 != "hang") {
    best = shrink(d.choices, [&](const Choices& cc, Choices& rec) {
      slot->nchoices = 0;
      const auto k = run_forked(t, cc, 5, slot);
      rec.assign(slot->choices, slot->choices + slot->nchoices);
      return k == k0;
    }, 1000);
  }
  Result r;
  if (k0 == "check") r = run_choices(t, best, true);
  std::ofstream o(out);
  o << "test: " << t.name << "\nkind: " << k0 << "\nmessage: " << (k0 == "check" ? r.msg : k0) << "\ninputs: " << r.notes << "\nchoices: ";
  write_choices(o, best);
  o << "\n";
  return 1;
}

int main(int argc, char** argv) {
  std::uint64_t seed = 1;
  bool thorough = false;
  std::string out, replay_dir = ".", replay_file, only, bytes, replay_out;
  unsigned jobs = 8;
  double scale = 1.0;
  unsigned case_timeout = 12;
  for (int i = 1; i < argc; ++i) {
    const std::string a = argv[i];
    const auto next = [&]() -> std::string { return i + 1 < argc ? argv[++i] : ""; };
    if (a == "--seed") seed = std::strtoull(next().c_str(), nullptr, 10);
    else if (a == "--tier") thorough = next() == "thorough";
    else if (a == "--out") out = next();
    else if (a == "--replay-dir") replay_dir = next();
    else if (a == "--replay") replay_file = next();
    else if (a == "--jobs") jobs = static_cast<unsigned>(std::max(1, std::atoi(next().c_str())));
    else if (a == "--scale") scale = std::atof(next().c_str());
    else if (a == "--from-bytes") bytes = next();
    else if (a == "--replay-out") replay_out = next();
    else if (a == "--only") only = next();
    else if (a == "--list") { for (const auto& t : registry()) std::cout << t.name << " " << t.quick << "\n"; return 0; }
  }
  {
    struct rlimit rl{0, 0};
    setrlimit(RLIMIT_CORE, &rl);
  }
  if (!replay_file.empty()) return replay(replay_file);
  if (!bytes.empty()) return from_bytes(bytes, replay_out);

  std::vector<Test> tests;
  for (const auto& t : registry()) if (only.empty() || t.name == only) tests.push_back(t);
  const auto count = [&](const Test& t) {
    const auto n = static_cast<double>(thorough ? t.thorough : t.quick) * scale;
    return std::max<std::uint64_t>(static_cast<std::uint64_t>(n), 1u);
  };

  auto* slots = static_cast<Slot*>(mmap(nullptr, sizeof(Slot) * jobs, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  // failed[test]: some worker has found a failure, the others skip the rest of the test
  auto* failed = static_cast<volatile std::uint8_t*>(mmap(nullptr, tests.size() + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));

  struct Worker { pid_t pid; unsigned id; std::string file; };
  std::vector<Worker> workers;
  std::string tmpl = replay_dir + "/pbt-XXXXXX";
  std::vector<char> tb(tmpl.begin(), tmpl.end());
  tb.push_back(0);
  if (mkdtemp(tb.data()) == nullptr) { std::perror("mkdtemp"); return 2; }
  const std::string dir = tb.data();

  const auto work = [&](unsigned id, const std::string& file) {
    std::vector<Stats> stats(tests.size());
    std::vector<Found> found;
    Slot* slot = &slots[id];
    for (std::size_t ti = 0; ti < tests.size(); ++ti) {
      const auto& t = tests[ti];
      auto& st = stats[ti];
      const auto n = count(t);
      const auto base = mix64(seed * 0x9e3779b97f4a7c15ull + hash_str(t.name));
      for (std::uint64_t i = id; i < n; i += jobs) {
        if (failed[ti]) break;
        slot->test = ti;
        slot->index = i;
        slot->nchoices = 0;
        slot->started_ms = now_ms();
        G g(mix64(base + i * 0x2545f4914f6cdd1dull), slot);
        g.labels = &st.labels;
        g.verbose = st.samples.size() < 2 && id == 0 && i >= 16;
        bool bad = false;
        try {
          t.fn(g);
        } catch (const Failure&) {
          bad = true;
        } catch (const std::exception&) {
          bad = true;
        }
        ++st.evaluations;
        if (g.is_nontrivial()) {
          ++st.nontrivial;
          if (st.hashes.size() < 4000000u) st.hashes.push_back(g.hash());
          if (g.verbose && !bad) st.samples.push_back(g.notes);
        }
        if (bad) {
          failed[ti] = 1;
          slot->started_ms = 0;
          auto best = shrink(g.recorded(), [&](const Choices& c, Choices& rec) {
            slot->started_ms = now_ms(); // a candidate that hangs is noticed by the parent
            auto r = run_choices(t, c, false, slot);
            rec = std::move(r.rec);
            return r.failed;
          }, 4000);
          const auto r = run_choices(t, best, true);
          found.push_back({t.name, "check", r.msg, r.notes, best});
          break;
        }
      }
      slot->started_ms = 0;
    }
    std::ofstream o(file);
    for (std::size_t ti = 0; ti < tests.size(); ++ti) {
      auto& st = stats[ti];
      o << "T " << ti << " " << st.evaluations << " " << st.nontrivial << " " << st.hashes.size() << "\n";
      for (const auto h : st.hashes) o.write(reinterpret_cast<const char*>(&h), sizeof h);
      o << "\n";
      for (const auto& [l, c] : st.labels) o << "L " << c << " " << l << "\n";
      for (auto s : st.samples) {
        std::replace(s.begin(), s.end(), '\n', ' ');
        o << "S " << s << "\n";
      }
      o << "E\n";
    }
    for (auto& f : found) {
      std::replace(f.msg.begin(), f.msg.end(), '\n', ' ');
      std::replace(f.notes.begin(), f.notes.end(), '\n', ' ');
      o << "F " << f.test << "\n" << f.msg << "\n" << f.notes << "\n";
      write_choices(o, f.choices);
      o << "\n";
    }
    o.flush();
    slot->done = 1;
  };

  const auto t0 = now_ms();
  for (unsigned id = 0; id < jobs; ++id) {
    const auto file = dir + "/w" + std::to_string(id);
    const pid_t pid = fork();
    if (pid == 0) {
      if (freopen("/dev/null", "w", stderr) == nullptr) _exit(3);
      work(id, file);
      _exit(0);
    }
    workers.push_back({pid, id, file});
  }

  std::vector<Found> found;
  std::vector<std::string> problems;
  const auto post_mortem = [&](unsigned id, const std::string& how) {
    // a worker died or hung: its slot holds the choices of the case it was running
    Slot& s = slots[id];
    const auto ti = static_cast<std::size_t>(s.test);
    if (ti >= tests.size()) { problems.push_back("worker ended before its first case"); return; }
    failed[ti] = 1;
    const auto& t = tests[ti];
    for (const auto& f : found) if (f.test == t.name) return; // one failure per test is enough
    Choices c(s.choices, s.choices + s.nchoices);
    const unsigned tmo = 20;
    const auto k0 = run_forked(t, c, tmo, &s);
    if (k0.empty()) { problems.push_back("case of " + t.name + " ended by " + how + " but passes when run again"); return; }
    Choices best = c;
    if (k0 != "hang") {
      best = shrink(c, [&](const Choices& cc, Choices& rec) {
        s.nchoices = 0;
        const auto k = run_forked(t, cc, 5, &s);
        rec.assign(s.choices, s.choices + s.nchoices);
        return k == k0;
      }, 300);
    }
    found.push_back({t.name, k0, k0 == "hang" ? "does not terminate" : "crashes (" + how + ")", "", best});
  };

  std::size_t alive = workers.size();
  std::vector<bool> reaped(workers.size(), false);
  while (alive > 0) {
    usleep(20000);
    for (std::size_t w = 0; w < workers.size(); ++w) {
      if (reaped[w]) continue;
      int st = 0;
      const auto id = workers[w].id;
      if (waitpid(workers[w].pid, &st, WNOHANG) == workers[w].pid) {
        reaped[w] = true;
        --alive;
        if (!slots[id].done) {
          post_mortem(id, WIFSIGNALED(st) ? "signal " + std::to_string(WTERMSIG(st)) : "exit " + std::to_string(WEXITSTATUS(st)));
        }
        continue;
      }
      const auto s = slots[id].started_ms;
      const auto running = static_cast<std::size_t>(slots[id].test);
      const bool known = running < tests.size() && std::any_of(found.begin(), found.end(), [&](const Found& f) { return f.test == tests[running].name; });
      if (s != 0 && now_ms() > s + (known ? 5u : case_timeout) * 1000u) {
        kill(workers[w].pid, SIGKILL);
        waitpid(workers[w].pid, &st, 0);
        reaped[w] = true;
        --alive;
        post_mortem(id, "hang");
      }
    }
  }

  // collect
  std::vector<Stats> total(tests.size());
  for (const auto& w : workers) {
    std::ifstream in(w.file, std::ios::binary);
    std::string line;
    std::size_t cur = 0;
    while (std::getline(in, line)) {
      if (line.rfind("T ", 0) == 0) {
        std::istringstream s(line.substr(2));
        std::uint64_t e, n, h;
        s >> cur >> e >> n >> h;
        total[cur].evaluations += e;
        total[cur].nontrivial += n;
        const auto old = total[cur].hashes.size();
        total[cur].hashes.resize(old + h);
        in.read(reinterpret_cast<char*>(total[cur].hashes.data() + old), static_cast<long>(h * 8));
        std::getline(in, line);
      } else if (line.rfind("L ", 0) == 0) {
        std::istringstream s(line.substr(2));
        std::uint64_t c;
        std::string l;
        s >> c;
        std::getline(s >> std::ws, l);
        total[cur].labels[l] += c;
      } else if (line.rfind("S ", 0) == 0) {
        total[cur].samples.push_back(line.substr(2));
      } else if (line.rfind("F ", 0) == 0) {
        Found f;
        f.test = line.substr(2);
        f.kind = "check";
        std::getline(in, f.msg);
        std::getline(in, f.notes);
        std::getline(in, line);
        std::istringstream s(line);
        std::uint64_t v;
        while (s >> v) f.choices.push_back(v);
        found.push_back(f);
      }
    }
    unlink(w.file.c_str());
  }
  rmdir(dir.c_str());

  std::ofstream o(out.empty() ? "/dev/stdout" : out);
  o << "{\"seed\": " << seed << ", \"tests\": [";
  for (std::size_t ti = 0; ti < tests.size(); ++ti) {
    auto& st = total[ti];
    std::sort(st.hashes.begin(), st.hashes.end());
    const auto distinct = std::unique(st.hashes.begin(), st.hashes.end()) - st.hashes.begin();
    o << (ti ? ",\n  " : "\n  ") << "{\"name\": " << json(tests[ti].name) << ", \"evaluations\": " << st.evaluations
      << ", \"nontrivial\": " << st.nontrivial << ", \"distinct_nontrivial\": " << distinct << ", \"labels\": {";
    bool first = true;
    for (const auto& [l, c] : st.labels) { o << (first ? "" : ", ") << json(l) << ": " << c; first = false; }
    o << "}, \"samples\": [";
    for (std::size_t i = 0; i < st.samples.size(); ++i) o << (i ? ", " : "") << json(st.samples[i]);
    o << "]}";
  }
  o << "],\n \"problems\": [";
  for (std::size_t i = 0; i < problems.size(); ++i) o << (i ? ", " : "") << json(problems[i]);
  o << "],\n \"failures\": [";
  std::sort(found.begin(), found.end(), [](const Found& a, const Found& b) { return a.test != b.test ? a.test < b.test : a.choices.size() < b.choices.size(); });
  bool first = true;
  std::string last;
  for (const auto& f : found) {
    if (f.test == last) continue;
    last = f.test;
    const auto path = replay_dir + "/" + f.test + ".replay";
    std::ofstream r(path);
    r << "test: " << f.test << "\nkind: " << f.kind << "\nmessage: " << f.msg << "\ninputs: " << f.notes << "\nchoices: ";
    write_choices(r, f.choices);
    r << "\n";
    o << (first ? "\n  " : ",\n  ") << "{\"test\": " << json(f.test) << ", \"kind\": " << json(f.kind) << ", \"message\": " << json(f.msg)
      << ", \"inputs\": " << json(f.notes) << ", \"replay\": " << json(path) << "}";
    first = false;
  }
  o << "],\n \"wall_s\": " << static_cast<double>(now_ms() - t0) / 1000.0 << "}\n";
  return found.empty() ? (problems.empty() ? 0 : 3) : 1;
}
#endif
