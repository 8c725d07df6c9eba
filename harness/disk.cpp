// C34: a stream or a file that breaks in the middle (an error of the disk, a full disk, a file that cannot be made) is
// reported by whoever reads or writes it, and never taken for a shorter one
#include "jobs.h"
#include "Configuration/ConfigManager.h"
#include "Configuration/PhotometricBandMappingConfig.h"
#include "NdArray/io/NpyMmap.h"
#include <boost/program_options.hpp>
#include <dlfcn.h>
#include <fcntl.h>
#include <sys/uio.h>

// ---------------------------------------------------------------- the faults
namespace fault {
bool        armed   = false;
int         fd      = -1;  // the file that breaks
std::string path;          // by name
bool        reading = false;
long        left    = 0;   // bytes until then
int         code    = EIO;
bool        opening = false;  // cannot even be opened
long        bytes = 0, fired = 0, opened = 0;
template <typename F>
F next(F, const char* name) {
  return reinterpret_cast<F>(dlsym(RTLD_NEXT, name));
}
bool ours(int d) {
  if (!armed || d < 3) {
    return false;
  }
  char    link[64], to[4096];
  std::snprintf(link, sizeof link, "/proc/self/fd/%d", d);
  ssize_t n = ::readlink(link, to, sizeof to - 1);
  return n > 0 && std::string(to, n) == path;
}
// the part of n bytes that still goes through, or -1
ssize_t part(size_t n) {
  if (left <= 0) {
    ++fired;
    errno = code;
    return -1;
  }
  ssize_t k = std::min<long>(n, left);
  left -= k;
  bytes += k;
  return k;
}
struct Arm {
  Arm(std::string p, bool r, long after, int c) {
    path = std::move(p), reading = r, left = after, code = c, bytes = fired = opened = 0, opening = false, armed = true;
  }
  ~Arm() {
    armed = false;
  }
};
}  // namespace fault
extern "C" ssize_t read(int d, void* b, size_t n) {
  static auto real = fault::next(&::read, "read");
  if (fault::reading && n && fault::ours(d)) {
    ssize_t k = fault::part(n);
    if (k < 0) {
      return k;
    }
    ssize_t r = real(d, b, k);
    fault::left += k - std::max<ssize_t>(r, 0);
    fault::bytes -= k - std::max<ssize_t>(r, 0);
    return r;
  }
  return real(d, b, n);
}
extern "C" ssize_t write(int d, const void* b, size_t n) {
  static auto real = fault::next(&::write, "write");
  if (!fault::reading && n && fault::ours(d)) {
    ssize_t k = fault::part(n);
    return k < 0 ? k : real(d, b, k);
  }
  return real(d, b, n);
}
extern "C" ssize_t writev(int d, const struct iovec* v, int n) {
  static auto real = fault::next(&::writev, "writev");
  if (!fault::reading && fault::ours(d)) {
    for (int i = 0; i < n; ++i) {
      if (v[i].iov_len) {
        return write(d, v[i].iov_base, v[i].iov_len);
      }
    }
    return 0;
  }
  return real(d, v, n);
}
struct Broken : std::exception {};
namespace {
std::string shownArray(const NdArray::NdArray<double>& a) {
  Text o;
  for (auto d : a.shape()) {
    o << d;
  }
  for (double v : a) {
    o << v;
  }
  return o.s.str();
}
}  // namespace

// ---------------------------------------------------------------- streams
// a stream that breaks in the middle: whoever reads from it or writes to it is told, or can see it
namespace {
struct Breaking : std::streambuf {
  std::string text;      // read from, or written
  size_t      limit, at = 0;
  bool        throws;
  char        one = 0;
  Breaking(std::string t, size_t l, bool th) : text(std::move(t)), limit(l), throws(th) {}
  bool broken() {
    if (at < limit) {
      return false;
    }
    if (throws) {
      throw Broken();
    }
    return true;
  }
  int_type overflow(int_type c) override {
    if (broken()) {
      return traits_type::eof();
    }
    text.push_back(traits_type::to_char_type(c));
    ++at;
    return c;
  }
  int_type underflow() override {
    if (at >= text.size() || broken()) {
      return traits_type::eof();
    }
    one = text[at++];
    setg(&one, &one, &one + 1);
    return traits_type::to_int_type(one);
  }
  pos_type seekoff(off_type o, std::ios_base::seekdir d, std::ios_base::openmode) override {
    size_t now = at - (gptr() && gptr() < egptr() ? 1 : 0);
    off_type to = o + (d == std::ios_base::beg ? 0 : d == std::ios_base::cur ? off_type(now) : off_type(text.size()));
    if (to < 0 || to > off_type(text.size())) {
      return pos_type(off_type(-1));
    }
    at = to;
    setg(nullptr, nullptr, nullptr);
    return pos_type(to);
  }
  pos_type seekpos(pos_type p, std::ios_base::openmode m) override {
    return seekoff(off_type(p), std::ios_base::beg, m);
  }
};
using Writes = std::function<void(std::ostream&)>;
using Reads  = std::function<std::vector<std::string>(std::istream&)>;
struct Medium {
  const char* what;
  Writes      write;
  Reads       read;
};
Medium medium(vp::Rng& rng) {
  switch (rng.below(4)) {
  case 0: {
    auto t = std::make_shared<Table::Table>(someTable(rng, 1 + rng.below(6)));
    return {"tables",
            [t](std::ostream& s) {
              Table::AsciiWriter w(s);
              w.addComment("of numbers\nand texts");
              w.addData(*t);
              w.addData(*t);
            },
            [](std::istream& s) {
              Table::AsciiReader       r(s);
              std::vector<std::string> out;
              while (r.hasMoreRows()) {
                for (auto& row : r.read(2)) {
                  Text o;
                  for (size_t i = 0; i < row.size(); ++i) {
                    o << boost::apply_visitor(Table::CastVisitor<std::string>{}, row[i]);
                  }
                  out.push_back(o.s.str());
                }
              }
              return out;
            }};
  }
  case 1: {
    std::vector<size_t> shape{1 + rng.below(4), 1 + rng.below(3)};
    auto                a = std::make_shared<NdArray::NdArray<double>>(shape, numbers(rng, shape[0] * shape[1]));
    return {"arrays", [a](std::ostream& s) { NdArray::writeNpy(s, *a); },
            [](std::istream& s) {
              auto b = NdArray::readNpy<double>(s);
              return std::vector<std::string>{shownArray(b)};
            }};
  }
  case 2: {
    typedef GridContainer::GridContainer<std::vector<double>, double, int> G;
    auto g = std::make_shared<G>(GridContainer::GridAxis<double>("x", rising(rng, 1 + rng.below(5))), GridContainer::GridAxis<int>("y", {1, 2, 5}));
    for (auto& c : *g) {
      c = rng.real(-1, 1);
    }
    return {"grids", [g](std::ostream& s) { GridContainer::gridBinaryExport(s, *g); }, nullptr};
  }
  default: {
    auto t = std::make_shared<Table::Table>(someTable(rng, 1 + rng.below(6)));
    return {"columns", [t](std::ostream& s) { Table::AsciiWriter(s).showColumnInfo(false).addData(*t); }, nullptr};
  }
  }
}
}  // namespace
VP_SCENARIO(streams, 2) {
  Medium      m = medium(rng);
  std::string key = std::string("disk:stream:") + m.what, full;
  {
    Breaking     b("", size_t(-1), false);
    std::ostream s(&b);
    m.write(s);
    full = b.text;
    VP_CHECK(s.good(), key, "not written");
  }
  std::vector<std::string> want;
  if (m.read) {
    std::istringstream s(full);
    want = m.read(s);
  }
  for (int k = 0; k < 12; ++k) {
    bool throws = rng.chance(0.5), told = rng.chance(0.5), out = !m.read || rng.chance(0.5), threw = false;
    size_t limit = rng.chance(0.15) ? full.size() + rng.below(2) : rng.below(full.size());
    if (out) {
      Breaking b("", limit, throws);
      {
        std::ostream s(&b);
        if (told) {
          s.exceptions(std::ios_base::badbit);
        }
        try {
          m.write(s);
        } catch (const std::exception&) {
          threw = true;
        }
        VP_CHECK(threw || (s.good() ? b.text == full : b.text.size() < full.size() && b.text == full.substr(0, b.text.size())), key,
                 "a stream broke after " << limit << " of " << full.size() << " bytes; nothing was thrown, state " << s.rdstate() << ", written: " << b.text.substr(0, 400));
        VP_CHECK(b.text.size() <= full.size() && full.compare(0, b.text.size(), b.text) == 0, key, "something else was written before the stream broke: " << b.text.substr(0, 400));
        VP_CHECK(threw ? limit < full.size() : limit >= full.size() || !told, key, "threw " << threw << " though the stream broke after " << limit << " of " << full.size() << " bytes");
      }
      vp::cover(threw ? "writes_thrown" : limit < full.size() ? "writes_failed" : "writes_whole");
    } else {
      Breaking b(full, limit, true);
      std::istream s(&b);
      if (told) {
        s.exceptions(std::ios_base::badbit);
      }
      std::vector<std::string> got;
      try {
        got = m.read(s);
      } catch (const std::exception&) {
        threw = true;
      }
      bool start = got.size() <= want.size() && std::equal(got.begin(), got.end(), want.begin());
      VP_CHECK(threw || (got == want) || (s.bad() && start && !told), key,
               "a stream broke after " << limit << " of " << full.size() << " bytes; nothing was thrown, state " << s.rdstate() << ", and what was read is something else");
      VP_CHECK(!threw || limit < full.size(), key, "threw though nothing broke");
      vp::cover(threw ? "reads_thrown" : got == want ? "reads_whole" : "reads_ended");
    }
    vp::distinct(vp::mix(vp::fnv(full), limit * 8 + throws * 4 + told * 2 + out));
  }
  vp::cover(std::string("medium.") + m.what);
}

// ---------------------------------------------------------------- files
namespace {
struct Disk {
  const char*                  what;
  bool                         reading;
  std::function<void(const std::string&)>        make;  // what is to be read
  std::function<std::string(const std::string&)> use;   // what came of it
};
std::string slurp(const std::string& f) {
  std::ifstream      in(f, std::ios::binary);
  std::ostringstream o;
  o << in.rdbuf();
  return o.str();
}
void spill(const std::string& f, const std::string& text) {
  std::ofstream(f, std::ios::binary) << text;
}
std::shared_ptr<Table::Table> aTable(vp::Rng& rng) {
  return std::make_shared<Table::Table>(someTable(rng, rng.chance(0.3) ? 60 + rng.below(60) : 1 + rng.below(10)));
}
// a dataset with comments, large enough for several blocks at times
std::string aDataset(vp::Rng& rng) {
  std::ostringstream s;
  s << "# NAME : name" << rng.below(10) << "\n";
  int n = rng.chance(0.3) ? 700 : 1 + rng.below(20);
  for (int i = 0; i < n; ++i) {
    if (rng.chance(0.1)) {
      s << "# key : value" << i << "\n";
    }
    s << i << "." << rng.below(100) << " " << rng.below(1000) << "\n";
  }
  return s.str();
}
Disk disk(vp::Rng& rng) {
  namespace C = Configuration;
  switch (rng.below(9)) {
  case 0:
  case 1: {
    auto t = aTable(rng);
    int  k = rng.in(1, 3);
    bool c = rng.chance(0.5), comments = rng.chance(0.1);
    return {comments ? "comments_written" : "table_written", false, nullptr, [t, k, c, comments](const std::string& f) {
              Table::AsciiWriter w(f);
              if (c || comments) {
                w.addComment("a comment\nof two lines");
              }
              for (int i = 0; i < k && !comments; ++i) {
                w.addData(*t);
              }
              return std::string();
            }};
  }
  case 2: {
    std::vector<size_t> shape{size_t(rng.in(1, 40)), size_t(rng.in(1, 40))};
    auto                a = std::make_shared<NdArray::NdArray<double>>(shape, numbers(rng, shape[0] * shape[1]));
    return {"array_written", false, nullptr, [a](const std::string& f) {
              NdArray::writeNpy(boost::filesystem::path(f), *a);
              return std::string();
            }};
  }
  case 3: {
    auto t = aTable(rng);
    bool ask = rng.chance(0.5);
    return {"table_read", true, [t](const std::string& f) { Table::AsciiWriter(f).addData(*t); }, [ask](const std::string& f) {
              Table::AsciiReader r(f);
              Text               o;
              o << (ask ? r.rowsLeft() : 0) << r.getInfo().size();
              while (r.hasMoreRows()) {
                auto t = r.read(ask ? 3 : -1);
                for (auto& row : t) {
                  for (size_t i = 0; i < row.size(); ++i) {
                    o << boost::apply_visitor(Table::CastVisitor<std::string>{}, row[i]);
                  }
                }
              }
              return o.s.str();
            }};
  }
  case 4: {
    std::vector<size_t> shape{size_t(rng.in(1, 40)), size_t(rng.in(1, 40))};
    auto                a = std::make_shared<NdArray::NdArray<double>>(shape, numbers(rng, shape[0] * shape[1]));
    return {"array_read", true, [a](const std::string& f) { NdArray::writeNpy(boost::filesystem::path(f), *a); },
            [](const std::string& f) { return shownArray(NdArray::readNpy<double>(boost::filesystem::path(f))); }};
  }
  case 5: {
    auto text = aDataset(rng);
    int  kind = rng.below(4);
    static const char* names[] = {"dataset_name", "dataset_parameter", "dataset_read", "dataset_seen"};
    return {names[kind], true, [text](const std::string& f) { spill(f, text); }, [kind](const std::string& f) {
              XYDataset::AsciiParser p;
              Text                   o;
              if (kind == 0) {
                o << p.getName(f);
              } else if (kind == 1) {
                o << p.getParameter(f, "key");
              } else if (kind == 3) {
                o << p.isDatasetFile(f);
              } else {
                auto d = p.getDataset(f);
                if (!d) {
                  throw std::runtime_error("nothing");
                }
                for (auto& v : *d) {
                  o << v.first << v.second;
                }
              }
              return o.s.str();
            }};
  }
  case 6: {
    // a directory, in which one of the files breaks
    auto text = aDataset(rng);
    bool order = rng.chance(0.5);
    return {order ? "order_read" : "directory_read", true, [text, order](const std::string& f) {
              auto dir = boost::filesystem::path(f).parent_path();
              if (order) {
                std::string names;
                for (int i = 9; i > 0; --i) {
                  spill((dir / ("d" + std::to_string(i) + ".txt")).string(), "1 2\n3 " + std::to_string(i) + "\n");
                  names += "d" + std::to_string(i) + ".txt\n";
                }
                spill(f, names);
              } else {
                spill((dir / "before.txt").string(), "1 2\n3 4\n");
                spill(f, text);
              }
            },
            [](const std::string& f) {
              XYDataset::FileSystemProvider p(boost::filesystem::path(f).parent_path().string() + "/", std::unique_ptr<XYDataset::FileParser>(new XYDataset::AsciiParser));
              Text                          o;
              for (auto& q : p.listContents("")) {
                o << q.qualifiedName();
                auto d = p.getDataset(q);
                for (auto& v : *d) {
                  o << v.first << v.second;
                }
              }
              return o.s.str();
            }};
  }
  case 7: {
    std::ostringstream s;
    int                n = rng.chance(0.3) ? 600 : 1 + rng.below(10);
    for (int i = 0; i < n; ++i) {
      s << "band" << i << " flux" << i << " error" << i << (rng.chance(0.5) ? " 2.5" : "") << "\n";
    }
    auto text = s.str();
    return {"mapping_read", true, [text](const std::string& f) { spill(f, text); }, [](const std::string& f) {
              static long next_id = 1;
              auto&       m       = C::ConfigManager::getInstance(next_id++);
              m.registerConfiguration<C::PhotometricBandMappingConfig>();
              m.closeRegistration();
              C::Configuration::UserValues args;
              args["filter-mapping-file"].value() = boost::any(f);
              args["exclude-filter"].value()      = boost::any(std::vector<std::string>());
              m.initialize(args);
              auto& c = m.getConfiguration<C::PhotometricBandMappingConfig>();
              Text  o;
              for (auto& b : c.getPhotometricBandMapping()) {
                o << b.first << b.second.first << b.second.second;
              }
              for (auto& b : c.getUpperLimitThresholdMapping()) {
                o << b.second;
              }
              return o.s.str();
            }};
  }
  default: {
    std::vector<size_t> shape{size_t(rng.in(1, 9)), size_t(rng.in(1, 9))};
    auto                a = std::make_shared<NdArray::NdArray<double>>(shape, numbers(rng, shape[0] * shape[1]));
    return {"array_mapped", true, [a](const std::string& f) { NdArray::writeNpy(boost::filesystem::path(f), *a); },
            [](const std::string& f) { return shownArray(NdArray::mmapNpy<double>(boost::filesystem::path(f))); }};
  }
  }
}
}  // namespace
VP_SCENARIO(files, 3) {
  namespace fs = boost::filesystem;
  Disk        d = disk(rng);
  std::string key = std::string("disk:") + d.what;
  vp::ScratchDir scratch;
  auto           dir = fs::canonical(scratch.path);
  std::string f = (dir / (d.what == std::string("order_read") ? "order.txt" : "file")).string();
  std::string want;
  long        size = 0;
  if (d.make) {
    d.make(f);
  }
  {
    fault::Arm arm(f, d.reading, 1L << 40, EIO);
    want = d.use(f);
    size = fault::bytes;
  }
  std::string full = slurp(f);
  if (d.what == std::string("array_mapped")) {
    vp::cover("mapped");
    return;
  }
  VP_CHECK(size > 0, key, "the file was not " << (d.reading ? "read" : "written"));
  for (int k = 0; k < 8; ++k) {
    long after = k == 0 ? 0 : rng.chance(0.15) ? size + 1 : rng.chance(0.3) ? std::max(0L, size - rng.in(1, 40)) : rng.in(0, size);
    bool threw = false, hit;
    std::string got;
    if (!d.reading) {
      fs::remove(f);
    }
    {
      fault::Arm arm(f, d.reading, after, d.reading ? EIO : rng.chance(0.7) ? ENOSPC : EDQUOT);
      try {
        got = d.use(f);
      } catch (const std::exception&) {
        threw = true;
      }
      hit = fault::fired > 0;
    }
    if (!threw) {
      VP_CHECK(got == want, key, "the file broke after " << after << " of " << size << " bytes; nothing was thrown, and the result is another one");
      VP_CHECK(d.reading || slurp(f) == full, key, "the file broke after " << after << " of " << size << " bytes; nothing was thrown, and " << slurp(f).size() << " of " << full.size() << " bytes are there");
    } else {
      VP_CHECK(hit, key, "threw though nothing broke");
    }
    vp::cover(std::string(d.what) + (threw ? ".told" : hit ? ".no_matter" : ".whole"));
    vp::distinct(vp::mix(vp::fnv(full), after));
  }
  // and once the disk works again
  if (!d.reading) {
    fs::remove(f);
  }
  VP_CHECK(d.use(f) == want && slurp(f) == full, key, "another result after the failures");
}
// files that cannot be made, or are not there
VP_SCENARIO(missing, 1) {
  namespace fs = boost::filesystem;
  Disk d = disk(rng);
  // what is there is not: a directory without the file, a name that is a directory
  if (d.what == std::string("order_read") || d.what == std::string("directory_read")) {
    return;
  }
  vp::ScratchDir scratch;
  auto           dir = fs::canonical(scratch.path);
  std::string f     = rng.chance(0.5) ? (dir / "not" / "there").string() : dir.string();
  bool        threw = false;
  std::string got;
  try {
    got = d.use(f);
  } catch (const std::exception&) {
    threw = true;
  }
  vp::cover(std::string(d.what) + (threw ? ".refused" : ".accepted"));
  VP_CHECK(threw || (d.what == std::string("dataset_seen")), std::string("disk:missing:") + d.what, (d.reading ? "read from " : "wrote to ") << f << ", which cannot be " << got);
  vp::distinct(vp::fnv(f + d.what));
}
VP_MAIN()
