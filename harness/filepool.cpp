// C03 / C04: reader/writer exclusion per physical file; open-descriptor limit, LRU eviction, no leak, no deadlock.
#define VP_PERTURB_IMPL
#include "perturb.h"
#include "FilePool/FileHandler.h"
#include "FilePool/FileManager.h"
#include "FilePool/LRUFileManager.h"
#include <algorithm>
#include <boost/filesystem.hpp>
#include <condition_variable>
#include <fstream>
#include <sys/resource.h>
namespace fs = boost::filesystem;
using namespace Euclid::FilePool;

namespace {

// ------------------------------------------------------------------ the ledger: every open / close is an event
struct Entry {
  int         id;
  std::string file;
  bool        write;
  int         type;
  uint64_t    last_used;
  bool        in_use;
};
struct Ledger {
  std::mutex           m;
  std::map<int, Entry> open;
  int                  next = 0;
  uint64_t             clock = 0;
  unsigned             limit = 0, max_open = 0;
  uint64_t             n_open = 0, n_close = 0, hash = 3;
  std::vector<Entry>   closed_now;  // closings since the last reset
  std::vector<Entry>   opened_now;
  std::vector<unsigned> open_before_close;
  void reset(unsigned lim) {
    std::lock_guard<std::mutex> l(m);
    open.clear();
    next  = 0;
    clock = 0;
    limit = lim;
    max_open = 0;
    n_open = n_close = 0;
    hash = 3;
    mark();
  }
  void mark() {
    closed_now.clear();
    opened_now.clear();
    open_before_close.clear();
  }
};
Ledger& ledger() {
  static Ledger* l = new Ledger;
  return *l;
}

// A move-only descriptor type; K distinguishes descriptor types
template <int K>
struct Desc {
  int  id = -1;
  Desc(int i) : id(i) {}
  Desc(Desc&& o) noexcept : id(o.id) {
    o.id = -1;
  }
  Desc& operator=(Desc&& o) noexcept {
    id   = o.id;
    o.id = -1;
    return *this;
  }
};
}  // namespace

namespace Euclid {
namespace FilePool {
template <int K>
struct OpenCloseTrait<Desc<K>> {
  static Desc<K> open(const boost::filesystem::path& path, bool write) {
    if (path.native().find("forbidden") != std::string::npos) {
      throw std::runtime_error("cannot open");
    }
    vp::maybeDelay();
    auto&                       l = ledger();
    std::lock_guard<std::mutex> g(l.m);
    Entry                       e{l.next++, path.native(), write, K, ++l.clock, true};
    l.open.emplace(e.id, e);
    ++l.n_open;
    l.opened_now.push_back(e);
    l.max_open = std::max<unsigned>(l.max_open, l.open.size());
    l.hash     = vp::mix(l.hash, vp::fnv(e.file) + write * 2 + 17 * K);
    if (l.open.size() > l.limit) {
      vp::violation("limit-exceeded", "open #" + std::to_string(l.open.size()) + " with a limit of " + std::to_string(l.limit));
    }
    return Desc<K>(e.id);
  }
  static void close(Desc<K>& fd) {
    vp::maybeDelay();
    auto&                       l = ledger();
    std::lock_guard<std::mutex> g(l.m);
    auto                        i = l.open.find(fd.id);
    if (i == l.open.end()) {
      vp::violation("closed-twice", "close of descriptor " + std::to_string(fd.id) + " that is not open");
      return;
    }
    if (i->second.in_use) {
      vp::violation("closed-in-use", "descriptor " + std::to_string(fd.id) + " on " + i->second.file + " closed while an accessor holds it");
    }
    l.closed_now.push_back(i->second);
    l.open_before_close.push_back(l.open.size());
    l.hash = vp::mix(l.hash, vp::fnv(i->second.file) + 1);
    l.open.erase(i);
    ++l.n_close;
    fd.id = -1;
  }
};
template <>
struct OpenCloseTrait<std::fstream> {
  static std::fstream open(const boost::filesystem::path& path, bool write) {
    auto flags = std::ios_base::in;
    if (write) {
      flags |= std::ios_base::out;
    }
    std::fstream s(path.native(), flags);
    if (!s) {
      throw std::runtime_error("cannot open " + path.native());
    }
    return s;
  }
  static void close(std::fstream& s) {
    s.close();
  }
};
template <>
struct OpenCloseTrait<int> {
  static int open(const boost::filesystem::path& path, bool write) {
    int fd = ::open(path.c_str(), write ? O_RDWR : O_RDONLY);
    if (fd < 0) {
      throw std::runtime_error("cannot open " + path.native());
    }
    return fd;
  }
  static void close(int& fd) {
    if (fd >= 0 && ::close(fd) != 0) {
      vp::violation("closed-twice", "close() of a descriptor that is not open");
    }
    fd = -1;
  }
};
}  // namespace FilePool
}  // namespace Euclid

namespace {

// mark an acquired descriptor as used / released in the ledger
template <int K>
void acquired(FileAccessor<Desc<K>>& a, const std::string& file, bool write) {
  auto&                       l = ledger();
  std::lock_guard<std::mutex> g(l.m);
  auto                        i = l.open.find(a.m_fd.id);
  if (i == l.open.end()) {
    vp::violation("closed-in-use", "accessor on " + file + " carries descriptor " + std::to_string(a.m_fd.id) + " that is not open");
    return;
  }
  if (i->second.file != file || i->second.type != K || i->second.write != write) {
    vp::violation("wrong-descriptor", "accessor on " + file + " carries a descriptor of " + i->second.file + " mode " + std::to_string(i->second.write));
  }
  i->second.in_use    = true;
  i->second.last_used = ++l.clock;
}
template <int K>
void releasing(FileAccessor<Desc<K>>& a) {
  auto&                       l = ledger();
  std::lock_guard<std::mutex> g(l.m);
  auto                        i = l.open.find(a.m_fd.id);
  if (i != l.open.end()) {
    i->second.in_use = false;
  }
}

struct Held {
  virtual ~Held()                 = default;
  virtual bool readOnly()         = 0;
  std::string  file;
  bool         write;
  int          type;
};
template <int K>
struct HeldT : Held {
  std::unique_ptr<FileAccessor<Desc<K>>> a;
  ~HeldT() {
    releasing<K>(*a);
  }
  bool readOnly() override {
    return a->isReadOnly();
  }
};

template <int K>
std::unique_ptr<Held> acquireK(FileHandler& h, const std::string& file, FileHandler::Mode mode) {
  auto a = h.getAccessor<Desc<K>>(mode);
  if (!a) {
    return nullptr;
  }
  bool write = mode & FileHandler::kWrite;
  acquired<K>(*a, file, write);
  auto r   = std::unique_ptr<HeldT<K>>(new HeldT<K>);
  r->file  = file;
  r->write = write;
  r->type  = K;
  r->a     = std::move(a);
  return std::unique_ptr<Held>(std::move(r));
}
std::unique_ptr<Held> acquire(FileHandler& h, const std::string& file, FileHandler::Mode mode, int type) {
  switch (type) {
  case 0:
    return acquireK<0>(h, file, mode);
  case 1:
    return acquireK<1>(h, file, mode);
  default:
    return acquireK<2>(h, file, mode);
  }
}

std::vector<std::string> makeFiles(const std::string& dir, int n) {
  std::vector<std::string> f;
  for (int i = 0; i < n; ++i) {
    f.push_back(fs::canonical(dir).native() + "/f" + std::to_string(i));
    std::ofstream o(f.back());
    o << "0\n";
  }
  return f;
}
// other names of the directory and of its files
void makeAliases(const std::string& dir, int n) {
  fs::create_directory(dir + "/sub");
  fs::create_directory(dir + "/sub2");
  fs::create_symlink(fs::canonical(dir), dir + "/sub/dir");
  fs::create_symlink("../sub2", dir + "/sub/other");
  for (int i = 0; i < n; ++i) {
    fs::create_symlink("f" + std::to_string(i), dir + "/link" + std::to_string(i));
    fs::create_symlink(dir + "/sub/dir/link" + std::to_string(i), dir + "/sub2/link" + std::to_string(i));
  }
}
std::string spell(vp::Rng& r, const std::string& dir, int i) {
  auto n = std::to_string(i);
  switch (r.below(9)) {
  case 0:
    return dir + "/link" + n;
  case 1:
    return dir + "/sub/../f" + n;
  case 2:
    return dir + "/./f" + n;
  case 3:
    return dir + "/sub/dir/f" + n;
  case 4:
    return dir + "/sub/other/../f" + n;
  case 5:
    return dir + "/sub2/link" + n;
  case 6:
    return dir + "//sub/dir/sub2/../sub/other/link" + n;
  case 7:
    return fs::relative(fs::canonical(dir), fs::current_path()).native() + "/f" + n;
  default:
    return fs::canonical(dir).native() + "/f" + n;
  }
}

}  // namespace

#ifdef VP_C03
namespace {
struct Occupancy {
  std::atomic<int> readers{0}, writers{0};
  int64_t          payload = 0;  // plain: a race here is a race on the file
};
}  // namespace

// threads mixing read / write / try modes over few files, reached through different spellings of the paths
VP_SCENARIO(exclusion, 6) {
  vp::ScratchDir dir;
  vp::perturb(rng);
  int  nfiles = rng.in(1, 3), nthreads = rng.in(2, 6), ops = rng.in(10, 40);
  auto files  = makeFiles(dir.path, nfiles);
  makeAliases(dir.path, nfiles);
  ledger().reset(1000);
  auto                                    manager = std::make_shared<LRUFileManager>(1000);
  std::vector<std::unique_ptr<Occupancy>> occ;
  for (int i = 0; i < nfiles; ++i) {
    occ.push_back(std::unique_ptr<Occupancy>(new Occupancy));
  }
  std::vector<std::thread> ts;
  std::atomic<uint64_t>    writes{0}, reads{0}, refused{0}, overlapping{0};
  std::vector<int64_t>     expected(nfiles, 0);
  std::mutex               tm;
  uint64_t                 trace = 1;
  for (int t = 0; t < nthreads; ++t) {
    uint64_t seed = rng.next();
    ts.emplace_back([&, seed] {
      vp::Rng r(seed);
      for (int o = 0; o < ops; ++o) {
        int         f = r.below(nfiles);
        auto handler = manager->getFileHandler(spell(r, dir.path, f));
        static const FileHandler::Mode modes[] = {FileHandler::kRead, FileHandler::kRead, FileHandler::kWrite,
                                                  FileHandler::kTryRead, FileHandler::kTryWrite};
        auto mode = modes[r.below(5)];
        auto a    = acquire(*handler, files[f], mode, r.below(2));
        if (!a) {
          VP_EXPECT(mode & FileHandler::kTry, "null-accessor", "blocking mode returned no accessor");
          ++refused;
          continue;
        }
        auto& oc = *occ[f];
        bool  w  = mode & FileHandler::kWrite;
        VP_EXPECT(a->readOnly() == !w, "wrong-mode", "accessor mode differs from what was asked");
        if (w) {
          int before = oc.writers.fetch_add(1);
          VP_EXPECT(before == 0 && oc.readers == 0, "exclusion-broken", "writer with " << before << " writers and " << oc.readers << " readers");
          ++oc.payload;
          ++writes;
          if (r.chance(0.3)) {
            std::this_thread::sleep_for(std::chrono::microseconds(50));
          }
          VP_EXPECT(oc.readers == 0 && oc.writers == 1, "exclusion-broken", "someone else entered while writing");
          oc.writers.fetch_sub(1);
        } else {
          int n = oc.readers.fetch_add(1) + 1;
          if (n > 1) {
            ++overlapping;
          }
          VP_EXPECT(oc.writers == 0, "exclusion-broken", "reader while a writer holds the file");
          int64_t p = oc.payload;
          ++reads;
          if (r.chance(0.3)) {
            std::this_thread::sleep_for(std::chrono::microseconds(50));
          }
          VP_EXPECT(p == oc.payload && oc.writers == 0, "exclusion-broken", "file changed under a reader");
          oc.readers.fetch_sub(1);
        }
        {
          std::lock_guard<std::mutex> g(tm);
          trace = vp::mix(trace, f * 2 + w);
        }
      }
    });
  }
  for (auto& t : ts) {
    t.join();
  }
  int64_t total = 0;
  for (auto& o : occ) {
    total += o->payload;
  }
  VP_CHECK(total == (int64_t)writes.load(), "exclusion-broken", "lost updates: " << total << " of " << writes.load());
  manager.reset();
  VP_CHECK(ledger().open.empty(), "descriptor-leak", ledger().open.size() << " descriptors open after the manager is gone");
  vp::cover("write_sections", writes);
  vp::cover("read_sections", reads);
  vp::cover("overlapping_reads", overlapping);
  vp::cover("refused_try", refused);
  vp::cover("perturbations", vp::perturbCount().exchange(0));
  vp::distinct(trace);
  if (vp::wantSample()) {
    vp::sample("exclusion: threads=" + std::to_string(nthreads) + " files=" + std::to_string(nfiles) + " writes=" + std::to_string(writes) +
               " reads=" + std::to_string(reads) + " refused=" + std::to_string(refused));
  }
}

// try modes against a known holder: succeed exactly when compatible, never block
VP_SCENARIO(trymodes, 5) {
  vp::perturbLevel() = 0;
  vp::ScratchDir dir;
  auto           files = makeFiles(dir.path, 2);
  ledger().reset(100);
  auto manager = std::make_shared<LRUFileManager>(100);
  auto h       = manager->getFileHandler(files[0]);
  auto other   = manager->getFileHandler(files[1]);
  std::vector<std::unique_ptr<Held>> held;
  int                                readers = 0;
  bool                               writer  = false;
  std::ostringstream                 ops;
  int                                refused = 0;
  double                             fastest = 1e9;
  for (int o = 0; o < 30; ++o) {
    bool from_thread = rng.chance(0.5);
    if (!held.empty() && rng.chance(0.4)) {
      size_t k = rng.below(held.size());
      if (held[k]->write) {
        writer = false;
      } else {
        --readers;
      }
      held.erase(held.begin() + k);
      ops << "rel ";
      continue;
    }
    bool write = rng.chance(0.5);
    int  type  = rng.below(3);
    std::unique_ptr<Held> a;
    bool expect = write ? (!writer && readers == 0) : !writer;
    // when it must succeed, also use the blocking mode sometimes
    bool blocking = expect && rng.chance(0.3);
    auto mode     = blocking ? (write ? FileHandler::kWrite : FileHandler::kRead) : (write ? FileHandler::kTryWrite : FileHandler::kTryRead);
    auto get      = [&] {
      auto start = std::chrono::steady_clock::now();
      a          = acquire(*h, files[0], mode, type);
      if (!a) {
        ++refused;
        fastest = std::min(fastest, std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count());
      }
    };
    if (from_thread && !expect) {
      std::thread(get).join();  // a refused try from another thread
    } else {
      get();
    }
    ops << (write ? "W" : "R") << (blocking ? "b" : "t") << (a ? "+ " : "- ");
    VP_CHECK(bool(a) == expect, expect ? "try-refused" : "try-granted",
             (write ? "write" : "read") << " with " << readers << " readers, writer=" << writer << " after: " << ops.str());
    // another file is never affected
    if (rng.chance(0.2)) {
      auto b = acquire(*other, files[1], FileHandler::kTryWrite, 0);
      VP_CHECK(bool(b), "try-refused", "lock on one file blocks another file");
    }
    if (a) {
      VP_CHECK(a->readOnly() == !write, "wrong-mode", "accessor mode");
      VP_CHECK(h->isReadOnly() == !write, "wrong-mode", "handler mode after getting an accessor");
      write ? (void)(writer = true) : (void)++readers;
      held.push_back(std::move(a));
    }
    vp::cover("try_decisions");
  }
  VP_CHECK(refused < 6 || fastest < 0.01, "try-waits", "none of " << refused << " refused requests took less than 10 ms");
  vp::distinct(vp::fnv(ops.str()));
  held.clear();
  h.reset();
  other.reset();
  manager.reset();
  VP_CHECK(ledger().open.empty(), "descriptor-leak", ledger().open.size() << " descriptors open after the manager is gone");
}

// a blocked writer / reader gets its turn once the holders are gone
VP_SCENARIO(blocking, 3) {
  vp::perturb(rng);
  vp::ScratchDir dir;
  auto           files = makeFiles(dir.path, 1);
  ledger().reset(100);
  auto              manager = std::make_shared<LRUFileManager>(100);
  auto              h       = manager->getFileHandler(files[0]);
  bool              first_write = rng.chance(0.5);
  bool              second_write = first_write ? rng.chance(0.5) : true;
  std::atomic<bool> got{false};
  int               second_type = rng.below(2);
  auto              a = acquire(*h, files[0], first_write ? FileHandler::kWrite : FileHandler::kRead, 0);
  std::thread       t([&] {
    auto b = acquire(*h, files[0], second_write ? FileHandler::kWrite : FileHandler::kRead, second_type);
    got    = true;
  });
  std::this_thread::sleep_for(std::chrono::microseconds(500 + rng.below(1500)));
  VP_EXPECT(!got, "exclusion-broken", "conflicting accessor granted while the first is held");
  a.reset();
  t.join();
  VP_CHECK(got, "null-accessor", "no accessor");
  vp::cover("blocked_acquisitions");
}

// what a writer wrote - buffered or not - is seen by every later accessor, in whatever mode and descriptor type
VP_SCENARIO(visibility, 4) {
  vp::perturb(rng);
  vp::ScratchDir dir;
  int            nfiles = rng.in(1, 3);
  auto           files  = makeFiles(dir.path, nfiles);
  auto           manager = std::make_shared<LRUFileManager>(rng.in(2, 6));
  int            nthreads = rng.chance(0.5) ? 1 : rng.in(2, 4);
  bool           keep = rng.chance(0.5);
  std::vector<std::shared_ptr<FileHandler>> hs;
  for (auto& f : files) {
    hs.push_back(manager->getFileHandler(f));
  }
  if (!keep && nthreads == 1) {
    hs.clear();
  }
  std::atomic<uint64_t> increments{0}, limit_hits{0}, stale{0};
  std::vector<std::unique_ptr<std::atomic<int64_t>>> at_least;
  for (int i = 0; i < nfiles; ++i) {
    at_least.emplace_back(new std::atomic<int64_t>(0));
  }
  std::vector<std::thread> ts;
  for (int t = 0; t < nthreads; ++t) {
    uint64_t seed = rng.next();
    ts.emplace_back([&, seed] {
      vp::Rng r(seed);
      for (int o = 0; o < 25; ++o) {
        int  f     = r.below(nfiles);
        auto h     = manager->getFileHandler(files[f]);
        bool write = r.chance(0.5);
        bool raw   = r.chance(0.4);
        auto mode  = write ? FileHandler::kWrite : FileHandler::kRead;
        try {
          int64_t floor = *at_least[f];
          if (raw) {
            auto a = h->getAccessor<int>(mode);
            char buf[64] = {0};
            if (pread(a->m_fd, buf, sizeof(buf) - 1, 0) < 0) {
              vp::violation("closed-in-use", "pread on the accessor's descriptor failed");
              continue;
            }
            int64_t v = strtoll(buf, nullptr, 10);
            VP_EXPECT(v >= floor, "stale-content", "raw reader saw " << v << " after " << floor << " had been written");
            if (write) {
              std::string s = std::to_string(v + 1) + "\n";
              if (pwrite(a->m_fd, s.data(), s.size(), 0) != (ssize_t)s.size()) {
                vp::violation("closed-in-use", "pwrite on the accessor's descriptor failed");
              }
              *at_least[f] = v + 1;
              ++increments;
            }
          } else {
            auto a = h->getAccessor<std::fstream>(mode);
            VP_EXPECT(a->m_fd.is_open(), "closed-in-use", "accessor with a closed stream");
            a->m_fd.clear();
            a->m_fd.seekg(0);
            int64_t v = -1;
            a->m_fd >> v;
            if (v < floor) {
              ++stale;
            }
            if (write) {
              VP_EXPECT(v >= floor, "stale-content", "stream writer saw " << v << " after " << floor);
              a->m_fd.clear();
              a->m_fd.seekp(0);
              a->m_fd << v + 1 << "\n";  // not flushed: stays in the buffer of the pooled descriptor
              *at_least[f] = v + 1;
              ++increments;
            }
          }
        } catch (const std::exception&) {
          ++limit_hits;
        }
      }
    });
  }
  for (auto& t : ts) {
    t.join();
  }
  hs.clear();
  manager.reset();
  int64_t total = 0;
  for (auto& f : files) {
    std::ifstream in(f);
    int64_t       v = 0;
    in >> v;
    total += v;
  }
  VP_CHECK(total == (int64_t)increments.load(), "lost-writes", "files hold " << total << " increments of " << increments.load());
  vp::cover("increments", increments);
  vp::cover("limit_hits", limit_hits);
}
#endif

#ifdef VP_C04
// single threaded histories against a model of the pool
VP_SCENARIO(lru, 8) {
  vp::perturbLevel() = 0;
  vp::ScratchDir dir;
  int            nfiles = rng.in(1, 8);
  unsigned       limit  = rng.in(1, 6);
  auto           files  = makeFiles(dir.path, nfiles);
  auto&          l      = ledger();
  l.reset(limit);
  auto manager = std::make_shared<LRUFileManager>(limit);
  VP_CHECK(manager->getLimit() == limit, "limit", "getLimit()");
  std::vector<std::shared_ptr<FileHandler>> handlers(nfiles);
  std::vector<std::unique_ptr<Held>>        held;
  std::map<std::string, bool>               mode_of;  // file -> last mode was write
  std::ostringstream                        ops;
  int                                       ntypes = rng.in(1, 3);
  double                                    pwrite = rng.pick(std::vector<double>{0.0, 0.2, 0.5});
  uint64_t                                  evictions = 0, refusals = 0, reuses = 0;
  auto idle = [&](const std::string& f) {
    int n = 0;
    for (auto& e : l.open) {
      n += e.second.file == f && !e.second.in_use;
    }
    return n;
  };
  for (int o = 0; o < 60; ++o) {
    l.mark();
    double p = rng.unit();
    if (p < 0.35 && !held.empty()) {
      held.erase(held.begin() + rng.below(held.size()));
      ops << "rel ";
      VP_CHECK(l.closed_now.empty() && l.opened_now.empty(), "needless-close", "releasing an accessor opened or closed a descriptor: " << ops.str());
    } else if (p < 0.42) {
      // drop a handler
      int  k       = rng.below(nfiles);
      bool in_use  = std::any_of(held.begin(), held.end(), [&](const std::unique_ptr<Held>& h) { return h->file == files[k]; });
      bool had     = bool(handlers[k]);
      if (in_use) {
        continue;  // handled by scenario orphans
      }
      handlers[k].reset();
      ops << "drop" << k << " ";
      if (had) {
        VP_CHECK(idle(files[k]) == 0, "descriptor-leak", "idle descriptors left after the handler is gone: " << ops.str());
        VP_CHECK(!manager->hasHandler(files[k]), "handler-registry", "hasHandler() true after the last handler is gone");
        mode_of.erase(files[k]);
      }
    } else if (p < 0.45) {
      unsigned used = held.size();
      manager->closeAll();
      ops << "closeAll ";
      VP_CHECK(l.open.size() == used, "closeall", l.open.size() << " open after closeAll with " << used << " in use: " << ops.str());
    } else {
      int  k = rng.below(nfiles);
      bool w = rng.chance(pwrite);
      int  t = rng.below(ntypes);
      bool conflict = std::any_of(held.begin(), held.end(), [&](const std::unique_ptr<Held>& h) { return h->file == files[k] && (w || h->write); });
      auto mode = conflict || rng.chance(0.3) ? (w ? FileHandler::kTryWrite : FileHandler::kTryRead) : (w ? FileHandler::kWrite : FileHandler::kRead);
      auto h    = manager->getFileHandler(files[k]);
      VP_CHECK(!handlers[k] || h == handlers[k], "handler-identity", "two handlers for one file");
      handlers[k] = h;
      ops << (w ? "W" : "R") << k << "t" << t;
      // model
      bool switched = mode_of.count(files[k]) ? mode_of[files[k]] != w : w;
      int  matching = 0, own_idle = 0;
      for (auto& e : l.open) {
        if (e.second.file == files[k] && !e.second.in_use) {
          ++own_idle;
          matching += e.second.type == t && e.second.write == w;
        }
      }
      auto                  before = l.open;
      std::unique_ptr<Held> a;
      bool                  threw = false;
      // own idle descriptors that have to be closed: after a mode switch, or a second type in write mode
      bool close_own = switched || (w && own_idle && !matching);
      bool reuse     = !close_own && matching;
      unsigned after_own = before.size() - (close_own ? own_idle : 0);
      unsigned in_use = 0;
      for (auto& e : before) {
        in_use += e.second.in_use;
      }
      bool must_refuse = !conflict && !reuse && after_own >= limit && in_use >= limit;
      try {
        a = acquire(*h, files[k], mode, t);
      } catch (const std::exception&) {
        threw = true;
      }
      ops << (threw ? "! " : a ? "+ " : "- ");
      if (conflict) {
        VP_CHECK(!a && !threw && l.closed_now.empty() && l.opened_now.empty(), "try-granted", "conflicting try: " << ops.str());
        continue;
      }
      VP_CHECK(threw == must_refuse, threw ? "refused-below-limit" : "limit-exceeded",
               "limit " << limit << ", " << in_use << " in use, " << before.size() << " open: " << ops.str());
      mode_of[files[k]] = w;
      // closings: first the own ones, then at most one eviction of the least recently used idle descriptor
      size_t n_own = 0;
      auto   now   = before;
      for (auto& c : l.closed_now) {
        if (close_own && c.file == files[k] && n_own < size_t(own_idle)) {
          ++n_own;
          now.erase(c.id);
          continue;
        }
        VP_CHECK(now.size() >= limit, "needless-eviction", "closed a descriptor with " << now.size() << " of " << limit << " open: " << ops.str());
        uint64_t lru = ~0ull;
        for (auto& e : now) {
          if (!e.second.in_use) {
            lru = std::min(lru, e.second.last_used);
          }
        }
        VP_CHECK(c.last_used == lru, "not-lru", "evicted descriptor of " << c.file << " last used at " << c.last_used << ", idle one last used at " << lru << ": " << ops.str());
        now.erase(c.id);
        ++evictions;
      }
      VP_CHECK(!close_own || n_own == size_t(own_idle), "descriptor-leak", "mode/type switch left " << own_idle - n_own << " descriptors: " << ops.str());
      if (threw) {
        ++refusals;
        VP_CHECK(l.opened_now.empty(), "descriptor-leak", "refused but opened");
        continue;
      }
      VP_CHECK(bool(a), "null-accessor", "no accessor without a conflict: " << ops.str());
      if (reuse) {
        ++reuses;
        VP_CHECK(l.opened_now.empty() && l.closed_now.empty(), "idle-not-reused", "an idle descriptor was available: " << ops.str());
      } else {
        VP_CHECK(l.opened_now.size() == 1, "wrong-opens", l.opened_now.size() << " opens: " << ops.str());
      }
      VP_CHECK(manager->hasHandler(files[k]), "handler-registry", "hasHandler() false for a live handler");
      held.push_back(std::move(a));
    }
    VP_CHECK(manager->getUsed() == l.open.size(), "used-count", "getUsed()=" << manager->getUsed() << ", open: " << l.open.size() << " after " << ops.str());
    VP_CHECK(manager->getAvailable() == limit - l.open.size(), "used-count", "getAvailable()=" << manager->getAvailable());
  }
  held.clear();
  if (rng.chance(0.5)) {
    handlers.clear();
  }
  manager.reset();
  VP_CHECK(l.open.empty(), "descriptor-leak", l.open.size() << " descriptors open at the end: " << ops.str());
  VP_CHECK(l.n_open == l.n_close, "descriptor-leak", l.n_open << " opens, " << l.n_close << " closes");
  vp::cover("opens", l.n_open);
  vp::cover("evictions", evictions);
  vp::cover("refusals_at_limit", refusals);
  vp::cover("reuses", reuses);
  vp::distinct(vp::fnv(ops.str()));
  if (vp::wantSample()) {
    vp::sample("lru limit=" + std::to_string(limit) + ": " + ops.str());
  }
}

// accessors that outlive their handler and the caller's reference to the manager
// the limit of the system, asked for with 0, and the default manager
VP_SCENARIO(systemLimit, 1) {
  vp::perturbLevel() = 0;
  vp::ScratchDir dir;
  auto           d1 = FileManager::getDefault(), d2 = FileManager::getDefault();
  VP_CHECK(d1 && d1 == d2, "default-manager", "the default manager is not always the same");
  auto dl = std::dynamic_pointer_cast<LRUFileManager>(d1);
  VP_CHECK(!dl || (dl->getLimit() > 0 && dl->getUsed() == 0), "default-manager", "default manager with files");
  struct rlimit old, low;
  getrlimit(RLIMIT_NOFILE, &old);
  low          = old;
  low.rlim_cur = std::min<rlim_t>(old.rlim_cur, rng.in(20, 60));
  setrlimit(RLIMIT_NOFILE, &low);
  auto manager = std::make_shared<LRUFileManager>(0);
  setrlimit(RLIMIT_NOFILE, &old);
  unsigned limit = manager->getLimit();
  VP_CHECK(limit > 0 && limit <= low.rlim_cur, "limit", "limit " << limit << " where the system allows " << low.rlim_cur);
  VP_CHECK(manager->getUsed() == 0 && manager->getAvailable() == limit, "limit", "usage of a new manager");
  auto  files = makeFiles(dir.path, limit + 5);
  auto& l     = ledger();
  l.reset(limit);
  std::vector<std::shared_ptr<FileHandler>> handlers;
  for (auto& f : files) {
    handlers.push_back(manager->getFileHandler(f));
    auto acc = acquire(*handlers.back(), f, FileHandler::kRead, 0);
    VP_CHECK(acc && manager->getUsed() <= limit && manager->getUsed() == std::min<size_t>(handlers.size(), limit), "limit", manager->getUsed() << " used after " << handlers.size() << " files, limit " << limit);
  }
  vp::cover("system_limits");
}
VP_SCENARIO(orphans, 2) {
  vp::perturbLevel() = 0;
  vp::ScratchDir dir;
  auto           files = makeFiles(dir.path, 3);
  auto&          l     = ledger();
  l.reset(10);
  auto                               manager = std::make_shared<LRUFileManager>(10);
  std::vector<std::unique_ptr<Held>> held;
  for (int i = 0; i < 3; ++i) {
    bool w = rng.chance(0.5);
    int  n = w ? 1 : rng.in(1, 3);
    auto h = manager->getFileHandler(files[i]);
    for (int k = 0; k < n; ++k) {
      held.push_back(acquire(*h, files[i], w ? FileHandler::kWrite : FileHandler::kRead, rng.below(2)));
    }
    // handler reference dropped here
  }
  if (rng.chance(0.5)) {
    // the file is still protected
    int  k  = rng.below(3);
    auto h  = manager->getFileHandler(files[k]);
    auto a  = acquire(*h, files[k], FileHandler::kTryWrite, 0);
    VP_CHECK(!a, "exclusion-broken", "write access granted while an accessor is alive (handler reference dropped)");
  }
  if (rng.chance(0.5)) {
    manager.reset();
  }
  rng.shuffle(held);
  while (!held.empty()) {
    held.pop_back();
  }
  manager.reset();
  VP_CHECK(l.open.empty(), "descriptor-leak", l.open.size() << " descriptors open at the end");
  vp::cover("orphan_accessors");
  vp::distinct(rng.next());
}

// failing opens
VP_SCENARIO(openfails, 2) {
  vp::perturbLevel() = 0;
  vp::ScratchDir dir;
  auto           good = makeFiles(dir.path, 2);
  std::string    bad  = fs::canonical(dir.path).native() + "/forbidden";
  auto&          l    = ledger();
  unsigned limit = rng.in(1, 3);
  l.reset(limit);
  auto manager = std::make_shared<LRUFileManager>(limit);
  auto h = manager->getFileHandler(bad);
  auto g = manager->getFileHandler(good[0]);
  for (int i = 0; i < 10; ++i) {
    bool w = rng.chance(0.5);
    auto mode = rng.chance(0.5) ? (w ? FileHandler::kTryWrite : FileHandler::kTryRead) : (w ? FileHandler::kWrite : FileHandler::kRead);
    bool threw = false;
    try {
      auto a = acquire(*h, bad, mode, rng.below(2));
    } catch (const std::exception&) {
      threw = true;
    }
    VP_CHECK(threw, "open-failure-hidden", "a failing open did not throw");
    auto b = acquire(*g, good[0], w ? FileHandler::kTryWrite : FileHandler::kTryRead, 0);
    VP_CHECK(bool(b), "try-refused", "failing opens of another file block this one");
    VP_CHECK(manager->getUsed() == l.open.size(), "used-count", "getUsed()=" << manager->getUsed() << " with " << l.open.size() << " open");
    vp::cover("failed_opens");
  }
  h.reset();
  g.reset();
  manager.reset();
  VP_CHECK(l.open.empty(), "descriptor-leak", "descriptors left");
}

// concurrent stress over a small pool
VP_SCENARIO(stress, 8) {
  vp::ScratchDir dir;
  vp::perturb(rng);
  int      nfiles = rng.in(1, 6), nthreads = rng.in(2, 6), ops = rng.in(10, 50);
  bool     roomy  = rng.chance(0.3);
  unsigned limit  = roomy ? 1000 : rng.in(1, 5);
  bool     keep   = rng.chance(0.5);
  auto     files  = makeFiles(dir.path, nfiles);
  auto&    l      = ledger();
  l.reset(limit);
  auto manager = std::make_shared<LRUFileManager>(limit);
  std::vector<std::shared_ptr<FileHandler>> hs;
  if (keep) {
    for (auto& f : files) {
      hs.push_back(manager->getFileHandler(f));
    }
  }
  std::atomic<uint64_t>    got{0}, refused{0};
  std::vector<std::thread> ts;
  for (int t = 0; t < nthreads; ++t) {
    uint64_t seed = rng.next();
    ts.emplace_back([&, seed] {
      vp::Rng r(seed);
      for (int o = 0; o < ops; ++o) {
        int  k  = r.below(nfiles);
        bool w  = r.chance(0.3);
        auto h  = manager->getFileHandler(files[k]);
        int  nh = w ? 1 : r.in(1, 2);
        std::vector<std::unique_ptr<Held>> held;
        for (int i = 0; i < nh; ++i) {
          try {
            // never two blocking locks on one file from one thread
            auto mode = i == 0 ? (w ? FileHandler::kWrite : FileHandler::kRead) : FileHandler::kTryRead;
            auto a    = acquire(*h, files[k], mode, r.below(2));
            if (a) {
              held.push_back(std::move(a));
              ++got;
            }
          } catch (const std::exception& e) {
            ++refused;
            VP_EXPECT(!roomy, "refused-below-limit", "limit " << limit << ": " << e.what());
          }
        }
        if (r.chance(0.3)) {
          h.reset();
        }
        if (r.chance(0.2)) {
          std::this_thread::sleep_for(std::chrono::microseconds(30));
        }
        if (r.chance(0.1)) {
          VP_EXPECT(manager->getUsed() <= limit, "limit-exceeded", "getUsed()=" << manager->getUsed());
          manager->hasHandler(files[k]);
        }
        if (r.chance(0.05)) {
          manager->closeAll();
        }
        if (r.chance(0.05) && h) {
          h->isReadOnly();
        }
      }
    });
  }
  for (auto& t : ts) {
    t.join();
  }
  VP_CHECK(manager->getUsed() == l.open.size(), "used-count", "getUsed()=" << manager->getUsed() << " with " << l.open.size() << " open");
  hs.clear();
  VP_CHECK(l.open.empty(), "descriptor-leak", l.open.size() << " descriptors open after all handlers are gone");
  for (auto& f : files) {
    VP_CHECK(!manager->hasHandler(f), "handler-registry", "handler registered after all references are gone");
  }
  manager.reset();
  VP_CHECK(l.n_open == l.n_close, "descriptor-leak", l.n_open << " opens, " << l.n_close << " closes");
  vp::cover("stress_acquisitions", got);
  vp::cover("stress_refusals", refused);
  vp::cover("opens", l.n_open);
  vp::cover("perturbations", vp::perturbCount().exchange(0));
  vp::distinct(l.hash);
}

// one handler per physical file while anybody holds it
VP_SCENARIO(identity, 5) {
  vp::ScratchDir dir;
  vp::perturb(rng);
  int  nthreads = rng.in(2, 5), ops = 60, nfiles = rng.in(1, 2);
  auto files    = makeFiles(dir.path, nfiles);
  makeAliases(dir.path, nfiles);
  ledger().reset(100);
  auto manager = std::make_shared<LRUFileManager>(100);
  std::mutex                          m;
  std::map<int, std::map<FileHandler*, int>> live;
  std::vector<std::thread>            ts;
  std::atomic<uint64_t>               shared{0};
  for (int t = 0; t < nthreads; ++t) {
    uint64_t seed = rng.next();
    ts.emplace_back([&, seed] {
      vp::Rng r(seed);
      for (int o = 0; o < ops; ++o) {
        int  k = r.below(nfiles);
        auto h = manager->getFileHandler(spell(r, dir.path, k));
        {
          std::lock_guard<std::mutex> g(m);
          auto&                       s = live[k];
          if (!s.empty()) {
            ++shared;
          }
          ++s[h.get()];
          VP_EXPECT(s.size() == 1, "handler-identity", s.size() << " different handlers alive for one file");
        }
        VP_EXPECT(manager->hasHandler(r.chance(0.5) ? files[k] : spell(r, dir.path, k)), "handler-registry", "hasHandler() false while a handler is held");
        if (r.chance(0.2)) {
          std::this_thread::sleep_for(std::chrono::microseconds(20));
        }
        {
          std::lock_guard<std::mutex> g(m);
          if (--live[k][h.get()] == 0) {
            live[k].erase(h.get());
          }
        }
      }
    });
  }
  for (auto& t : ts) {
    t.join();
  }
  for (auto& f : files) {
    VP_CHECK(!manager->hasHandler(f), "handler-registry", "hasHandler() true when nobody holds one");
  }
  vp::cover("shared_handlers", shared);
  vp::distinct(vp::mix(shared, nthreads * 10 + nfiles));
}
#endif
VP_MAIN()
