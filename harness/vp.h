// Small monitoring harness runtime: deterministic per-case randomness, keyed oracle failures,
// observed-event accounting, progress reporting for the watchdog in tools/vp.py.
#ifndef VP_H
#define VP_H
#include <atomic>
#include <chrono>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <functional>
#include <limits>
#include <map>
#include <memory>
#include <mutex>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/stat.h>
#include <thread>
#include <typeinfo>
#include <unistd.h>
#include <unordered_set>
#include <vector>

namespace vp {

// ---------------------------------------------------------------- randomness
inline uint64_t splitmix(uint64_t& s) {
  uint64_t z = (s += 0x9E3779B97F4A7C15ull);
  z          = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
  z          = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
  return z ^ (z >> 31);
}
inline uint64_t mix(uint64_t a, uint64_t b) {
  uint64_t s = a * 0x9E3779B97F4A7C15ull + b + 0x1234567ull;
  splitmix(s);
  return splitmix(s);
}
inline uint64_t fnv(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
  auto c = static_cast<const unsigned char*>(p);
  for (size_t i = 0; i < n; ++i) {
    h = (h ^ c[i]) * 1099511628211ull;
  }
  return h;
}
inline uint64_t fnv(const std::string& s) {
  return fnv(s.data(), s.size());
}

struct Rng {
  using result_type = uint64_t;
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed) {}
  static constexpr uint64_t min() {
    return 0;
  }
  static constexpr uint64_t max() {
    return ~0ull;
  }
  uint64_t operator()() {
    return splitmix(s);
  }
  uint64_t next() {
    return splitmix(s);
  }
  // uniform in [a, b]
  int64_t in(int64_t a, int64_t b) {
    return a + static_cast<int64_t>(next() % static_cast<uint64_t>(b - a + 1));
  }
  size_t below(size_t n) {
    return n ? next() % n : 0;
  }
  double unit() {
    return (next() >> 11) * (1.0 / 9007199254740992.0);
  }
  double real(double a, double b) {
    return a + (b - a) * unit();
  }
  bool chance(double p) {
    return unit() < p;
  }
  template <typename T>
  const T& pick(const std::vector<T>& v) {
    return v[below(v.size())];
  }
  template <typename T>
  void shuffle(std::vector<T>& v) {
    for (size_t i = v.size(); i > 1; --i) {
      std::swap(v[i - 1], v[below(i)]);
    }
  }
};

// ---------------------------------------------------------------- oracle failures
struct Fail : std::exception {
  std::string key, msg;
  Fail(std::string k, std::string m) : key(std::move(k)), msg(std::move(m)) {}
  const char* what() const noexcept override {
    return msg.c_str();
  }
};

struct State {
  std::mutex                         m;
  std::map<std::string, uint64_t>    counters;
  std::unordered_set<uint64_t>       distinct;
  std::vector<std::string>           samples;
  std::map<std::string, std::string> told;  // what one case of each of some scenarios observed
  std::vector<std::string>           violations;
  uint64_t                           evaluations = 0;
  uint64_t                           case_index  = 0;
  bool                               verbose     = false;
  int                                progress_fd = -1;
  std::string                        scratch;
  std::string                        tier;
  uint64_t                           seed = 1;
};
inline State& st() {
  static State* s = new State;
  return *s;
}
inline bool thorough() {
  return st().tier == "thorough";
}

inline void cover(const std::string& name, uint64_t n = 1) {
  std::lock_guard<std::mutex> l(st().m);
  st().counters[name] += n;
}
inline void distinct(uint64_t h) {
  std::lock_guard<std::mutex> l(st().m);
  if (st().distinct.size() < 2000000) {
    st().distinct.insert(h);
  }
}
inline void sample(const std::string& s) {
  std::lock_guard<std::mutex> l(st().m);
  if (st().samples.size() < 4) {
    st().samples.push_back(s.substr(0, 400));
  }
}
inline bool wantSample() {
  std::lock_guard<std::mutex> l(st().m);
  return st().samples.size() < 4;
}
// Touch the progress file so the watchdog sees a long case advancing
inline void heartbeat() {
  auto& s = st();
  if (s.progress_fd >= 0) {
    char buf[64];
    static std::atomic<uint64_t> beat{0};
    int  n = snprintf(buf, sizeof buf, "%20llu %20llu\n", (unsigned long long)s.case_index, (unsigned long long)++beat);
    if (pwrite(s.progress_fd, buf, n, 0) < 0) {
    }
  }
}

inline std::string oneline(std::string s) {
  for (auto& c : s) {
    if (c == '\n' || c == '\r') {
      c = ' ';
    }
  }
  return s.substr(0, 1500);
}
inline void violation(const std::string& key, const std::string& msg) {
  std::lock_guard<std::mutex> l(st().m);
  static std::map<std::string, int> per_key;
  if (++per_key[key] > 3) {
    return;  // enough examples of this one
  }
  std::ostringstream o;
  o << "VP-VIOLATION\t" << key << "\t" << st().case_index << "\t" << oneline(msg);
  st().violations.push_back(o.str());
  printf("%s\n", o.str().c_str());
  fflush(stdout);
}
[[noreturn]] inline void fail(const std::string& key, const std::string& msg) {
  throw Fail(key, msg);
}

#define VP_CHECK(cond, key, msg)                                                                                       \
  do {                                                                                                                 \
    if (!(cond)) {                                                                                                     \
      std::ostringstream vp_o_;                                                                                        \
      vp_o_ << msg;                                                                                                    \
      throw ::vp::Fail(key, std::string(#cond) + " failed: " + vp_o_.str());                                           \
    }                                                                                                                  \
  } while (0)

// Same, for contexts that may not throw (e.g. inside pool tasks): records and goes on
#define VP_EXPECT(cond, key, msg)                                                                                      \
  do {                                                                                                                 \
    if (!(cond)) {                                                                                                     \
      std::ostringstream vp_o_;                                                                                        \
      vp_o_ << msg;                                                                                                    \
      ::vp::violation(key, std::string(#cond) + " failed: " + vp_o_.str());                                            \
    }                                                                                                                  \
  } while (0)

// The expression must throw something derived from std::exception
#define VP_THROWS(expr, key, msg)                                                                                      \
  do {                                                                                                                 \
    bool vp_thrown_ = false;                                                                                           \
    try {                                                                                                              \
      (void)(expr);                                                                                                    \
    } catch (const ::vp::Fail&) {                                                                                      \
      throw;                                                                                                           \
    } catch (const std::exception&) {                                                                                  \
      vp_thrown_ = true;                                                                                               \
    }                                                                                                                  \
    if (!vp_thrown_) {                                                                                                 \
      std::ostringstream vp_o_;                                                                                        \
      vp_o_ << msg;                                                                                                    \
      throw ::vp::Fail(key, std::string(#expr) + " was accepted: " + vp_o_.str());                                     \
    }                                                                                                                  \
  } while (0)

template <typename T>
std::string show(const std::vector<T>& v, size_t max = 24) {
  std::ostringstream o;
  o.precision(17);
  o << "[";
  for (size_t i = 0; i < v.size() && i < max; ++i) {
    o << (i ? "," : "") << +v[i];
  }
  o << (v.size() > max ? ",...]" : "]");
  return o.str();
}
inline std::string show(const std::vector<std::string>& v, size_t max = 24) {
  std::ostringstream o;
  o << "[";
  for (size_t i = 0; i < v.size() && i < max; ++i) {
    o << (i ? "," : "") << '"' << v[i] << '"';
  }
  o << (v.size() > max ? ",...]" : "]");
  return o.str();
}

// relative/absolute closeness
inline bool close(double a, double b, double rel, double abs = 0) {
  if (a == b || (std::isnan(a) && std::isnan(b))) {
    return true;
  }
  if (!std::isfinite(a) || !std::isfinite(b)) {
    return false;
  }
  return std::fabs(a - b) <= std::max(abs, rel * std::max(std::fabs(a), std::fabs(b)));
}

// ---------------------------------------------------------------- scratch directory (removed by the driver as well)
struct ScratchDir {
  std::string path;
  ScratchDir() {
    std::string t = st().scratch + "/caseXXXXXX";
    std::vector<char> b(t.begin(), t.end());
    b.push_back(0);
    if (!mkdtemp(b.data())) {
      perror("mkdtemp");
      _exit(3);
    }
    path = b.data();
  }
  ~ScratchDir() {
    if (path.find("/case") != std::string::npos && path.size() > 12) {
      std::string cmd = "rm -rf -- '" + path + "'";
      if (system(cmd.c_str())) {
      }
    }
  }
};

// ---------------------------------------------------------------- main loop
using CaseFn = std::function<void(Rng&, uint64_t)>;
// use a value without doing anything with it
template <typename T>
void keep(const T& x) {
  asm volatile("" : : "g"(&x) : "memory");
}

struct Scenario {
  std::string name;
  CaseFn      fn;
  int         weight;
};
inline std::vector<Scenario>& scenarios() {
  static std::vector<Scenario> s;
  return s;
}
struct Register {
  Register(const char* name, int weight, CaseFn f) {
    scenarios().push_back({name, std::move(f), weight});
  }
};
// VP_SCENARIO(name, weight) { ... rng, idx available ... }
#define VP_SCENARIO(name, weight)                                                                                      \
  static void           vp_case_##name(::vp::Rng& rng, uint64_t idx);                                                  \
  static ::vp::Register vp_reg_##name(#name, weight, vp_case_##name);                                                  \
  static void           vp_case_##name(::vp::Rng& rng __attribute__((unused)), uint64_t idx __attribute__((unused)))

inline std::string jsonEscape(const std::string& s) {
  std::string o;
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') {
      o += '\\';
      o += c;
    } else if (c < 0x20 || c > 0x7e) {
      char b[8];
      snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else {
      o += c;
    }
  }
  return o;
}

inline int runMain(int argc, char** argv) {
  std::string out;
  uint64_t    cases = 100, start = 0, shard = 0, nshards = 1;
  int64_t     onecase = -1;
  std::string only;
  auto&       s = st();
  for (int i = 1; i + 1 < argc; i += 2) {
    std::string a = argv[i], v = argv[i + 1];
    if (a == "--seed")
      s.seed = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--cases")
      cases = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--start")
      start = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--shard")
      shard = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--nshards")
      nshards = strtoull(v.c_str(), nullptr, 10);
    else if (a == "--case")
      onecase = strtoll(v.c_str(), nullptr, 10);
    else if (a == "--out")
      out = v;
    else if (a == "--scratch")
      s.scratch = v;
    else if (a == "--tier")
      s.tier = v;
    else if (a == "--only")
      only = v;
    else if (a == "--verbose")
      s.verbose = v == "1";
  }
  if (s.scratch.empty()) {
    s.scratch = "/tmp";
  }
  if (!out.empty()) {
    s.progress_fd = open((out + ".progress").c_str(), O_RDWR | O_CREAT | O_CLOEXEC, 0644);
  }
  auto& sc    = scenarios();
  int   total = 0;
  std::vector<size_t> wheel;
  // interleave the scenarios so that every prefix of the case sequence touches all of them
  {
    int maxw = 0;
    for (auto& x : sc) {
      maxw = std::max(maxw, x.weight);
      total += x.weight;
    }
    for (int r = 0; r < maxw; ++r) {
      for (size_t k = 0; k < sc.size(); ++k) {
        if (r < sc[k].weight) {
          wheel.push_back(k);
        }
      }
    }
  }
  // `cases` counts rounds of the whole wheel; a case index is (round * wheel + position)
  uint64_t n = cases * wheel.size();
  if (onecase >= 0) {
    start = onecase;
    n     = onecase + 1;
  }
  for (uint64_t i = start; i < n; ++i) {
    if (onecase < 0 && mix(77, i) % nshards != shard) {
      continue;
    }
    auto& x = sc[wheel[i % wheel.size()]];
    if (!only.empty() && x.name != only) {
      continue;
    }
    s.case_index = i;
    heartbeat();
    Rng rng(mix(mix(s.seed, fnv(x.name)), i));
    if (s.verbose) {
      fprintf(stderr, "case %llu %s\n", (unsigned long long)i, x.name.c_str());
    }
    std::map<std::string, uint64_t> before;
    bool                            tell = s.told.size() < 4 && !s.told.count(x.name);
    if (tell) {
      std::lock_guard<std::mutex> l(s.m);
      before.insert(s.counters.begin(), s.counters.end());
    }
    try {
      x.fn(rng, i / wheel.size());
    } catch (const Fail& f) {
      violation(f.key, "[" + x.name + "] " + f.msg);
    } catch (const std::exception& e) {
      violation("exception:" + x.name, "[" + x.name + "] unexpected " + std::string(typeid(e).name()) + ": " + e.what());
    } catch (...) {
      violation("exception:" + x.name, "[" + x.name + "] unexpected non-standard exception");
    }
    if (tell) {
      std::lock_guard<std::mutex> l(s.m);
      std::string                 seen;
      for (auto& c : s.counters) {
        if (c.second != before[c.first]) {
          seen += (seen.empty() ? "" : ", ") + c.first + "=" + std::to_string(c.second - before[c.first]);
        }
      }
      s.told[x.name] = "case " + std::to_string(i) + " [" + x.name + "] observed " + (seen.empty() ? "no events" : seen);
    }
    ++s.evaluations;
    ++s.counters["scenario." + x.name];
    if (s.violations.size() >= 40) {
      break;
    }
  }
  for (auto& t : s.told) {
    sample(t.second);
  }
  if (!out.empty()) {
    std::string tmp = out + ".json";
    FILE*       f   = fopen(tmp.c_str(), "w");
    if (!f) {
      return 3;
    }
    fprintf(f, "{\"evaluations\": %llu, \"wheel\": %llu, \"counters\": {", (unsigned long long)s.evaluations,
            (unsigned long long)wheel.size());
    bool first = true;
    for (auto& c : s.counters) {
      fprintf(f, "%s\"%s\": %llu", first ? "" : ", ", jsonEscape(c.first).c_str(), (unsigned long long)c.second);
      first = false;
    }
    fprintf(f, "}, \"samples\": [");
    first = true;
    for (auto& c : s.samples) {
      fprintf(f, "%s\"%s\"", first ? "" : ", ", jsonEscape(c).c_str());
      first = false;
    }
    fprintf(f, "], \"done\": true}\n");
    fclose(f);
    f = fopen((out + ".distinct").c_str(), "wb");
    if (f) {
      for (auto h : s.distinct) {
        fwrite(&h, sizeof h, 1, f);
      }
      fclose(f);
    }
  }
  fflush(stdout);
  return 0;
}

}  // namespace vp

#define VP_MAIN()                                                                                                      \
  int main(int argc, char** argv) {                                                                                    \
    return ::vp::runMain(argc, argv);                                                                                  \
  }

#endif
