// C33: work which fails in the middle (no memory, no thread, a callback or a stream that throws) ends with the exception,
// leaks nothing, and leaves everything usable
#include "jobs.h"
#include <dlfcn.h>
#include <new>

// ---------------------------------------------------------------- the faults
namespace fault {
std::atomic<long>   live{0};       // allocations that have not been released
thread_local long   seen  = 0;     // allocations of this thread
thread_local long   left  = 0;     // the one that fails (0: none)
thread_local bool   fired = false;
std::atomic<long>   threads{0};    // the thread that cannot be started (0: none)
bool                next() {
  ++seen;
  if (left > 0 && --left == 0) {
    fired = true;
    return true;
  }
  return false;
}
void* take(size_t n) {
  void* p = std::malloc(n ? n : 1);
  ++live;
  return p;
}
void give(void* p) {
  if (p) {
    --live;
    std::free(p);
  }
}
struct Arm {
  explicit Arm(long at) {
    fired = false;
    left  = at;
  }
  ~Arm() {
    left = 0;
  }
};
}  // namespace fault
void* operator new(size_t n) {
  if (fault::next()) {
    throw std::bad_alloc();
  }
  return fault::take(n);
}
void* operator new[](size_t n) {
  if (fault::next()) {
    throw std::bad_alloc();
  }
  return fault::take(n);
}
void* operator new(size_t n, const std::nothrow_t&) noexcept {
  return fault::next() ? nullptr : fault::take(n);
}
void* operator new[](size_t n, const std::nothrow_t&) noexcept {
  return fault::next() ? nullptr : fault::take(n);
}
void operator delete(void* p) noexcept {
  fault::give(p);
}
void operator delete[](void* p) noexcept {
  fault::give(p);
}
void operator delete(void* p, size_t) noexcept {
  fault::give(p);
}
void operator delete[](void* p, size_t) noexcept {
  fault::give(p);
}
void operator delete(void* p, const std::nothrow_t&) noexcept {
  fault::give(p);
}
void operator delete[](void* p, const std::nothrow_t&) noexcept {
  fault::give(p);
}
extern "C" int pthread_create(pthread_t* t, const pthread_attr_t* a, void* (*f)(void*), void* arg) {
  using F          = int (*)(pthread_t*, const pthread_attr_t*, void* (*)(void*), void*);
  static F real    = reinterpret_cast<F>(dlsym(RTLD_NEXT, "pthread_create"));
  if (fault::threads > 0 && --fault::threads == 0) {
    return EAGAIN;
  }
  return real(t, a, f, arg);
}


#include "MathUtils/function/FunctionAdapter.h"
#include "MathUtils/numericalDifferentiation/FiniteDifference.h"
#include "MathUtils/numericalIntegration/AdaptativeIntegration.h"
#include "MathUtils/numericalIntegration/SimpsonsRule.h"
#include "SOM/Distance.h"
#include "SourceCatalog/AttributeFromRow.h"

namespace {
// the callbacks, one of which throws
struct Broken : std::exception {
  uint64_t token;
  explicit Broken(uint64_t t) : token(t) {}
};
struct Fuse {
  std::atomic<long> left{0}, calls{0};
  uint64_t          token = 0;
  void              tick() {
    ++calls;
    if (left > 0 && --left == 0) {
      throw Broken(token);
    }
  }
};
Fuse& fuse() {
  static Fuse f;
  return f;
}
}  // namespace

// ---------------------------------------------------------------- memory
VP_SCENARIO(memory, 6) {
  static Tree tree;
  archives()       = false;
  std::string root = tree.dir.path;
  static const std::vector<std::pair<const char*, Job>> jobs{{"tables", tables},
                                                             {"catalogs", catalogs},
                                                             {"arrays", arrays},
                                                             {"grids", grids},
                                                             {"functions", functions},
                                                             {"distributions", distributions},
                                                             {"maps", maps},
                                                             {"texts", texts},
                                                             {"datasets", [root](uint64_t s) { return datasets(s, root); }}};
  auto&       j    = rng.pick(jobs);
  // the streams of the standard library keep such a failure to themselves
  bool        streams = j.first == std::string("tables") || j.first == std::string("datasets");
  uint64_t    seed    = rng.next();
  std::string want    = j.second(seed);
  long        s0      = fault::seen;
  j.second(seed);
  long n = fault::seen - s0;
  for (int k = 0; k < 25; ++k) {
    long at    = k < 3 && n > 100 ? n - rng.below(30) : rng.in(1, n);
    long base  = fault::live;
    bool threw = false;
    {
      std::string got;
      {
        fault::Arm arm(at);
        try {
          got = j.second(seed);
        } catch (const std::exception&) {
          threw = true;
        }
      }
      VP_CHECK(threw || streams || got == want, std::string("fault:result:") + j.first, "allocation " << at << " of " << n << " failed, and nothing was thrown");
    }
    VP_CHECK(fault::live == base, std::string("fault:leak:") + j.first, fault::live - base << " allocations left over after allocation " << at << " of " << n << " failed");
    vp::cover(!fault::fired ? "not_reached" : threw ? "memory_thrown" : "memory_survived");
    vp::distinct(vp::mix(vp::mix(seed, at), vp::fnv(std::string(j.first))));
  }
  VP_CHECK(j.second(seed) == want, std::string("fault:after:") + j.first, "the same work comes out differently after failures");
  vp::cover(std::string("work.") + j.first);
}

// ---------------------------------------------------------------- memory, while there are objects
namespace {
struct Watch {
  const char* what;
  std::function<std::string()> state;   // of the objects involved
  std::function<void()>        act;     // allowed to fail
  std::function<void()>        reset;   // back to the state before
  bool                         whole;   // afterwards either as before or done
};
void watch(vp::Rng& rng, const Watch& w) {
  w.reset();
  std::string before = w.state();
  w.act();
  std::string after = w.state();
  w.reset();
  VP_CHECK(w.state() == before, "fault:objects", w.what << ": not back to the state before");
  long s0 = fault::seen;
  w.act();
  long n = fault::seen - s0;
  if (n == 0) {
    return;
  }
  for (int k = 0; k < 6; ++k) {
    w.reset();
    long base  = fault::live;
    long at    = rng.in(1, n);
    bool threw = false;
    {
      fault::Arm arm(at);
      try {
        w.act();
      } catch (const std::bad_alloc&) {
        threw = true;
      }
    }
    (void)base;
    std::string now = w.state();
    VP_CHECK(threw || now == after, std::string("fault:objects:") + w.what, "allocation " << at << " of " << n << " failed, nothing was thrown, and the result is another one");
    VP_CHECK(!w.whole || now == before || now == after, std::string("fault:objects:") + w.what, "half done after allocation " << at << " of " << n << " failed");
    w.reset();
    VP_CHECK(w.state() == before, std::string("fault:objects:") + w.what, "cannot be set again after allocation " << at << " of " << n << " failed");
    w.act();
    VP_CHECK(w.state() == after, std::string("fault:objects:") + w.what, "another result after allocation " << at << " of " << n << " failed");
    vp::cover(threw ? "objects_thrown" : "objects_survived");
  }
  vp::cover(std::string("watched.") + w.what);
}
std::string shownArray(const NdArray::NdArray<double>& a) {
  Text   o;
  size_t n = 1;
  for (auto d : a.shape()) {
    n *= d;
    o << d;
  }
  size_t k = 0;
  for (double v : a) {
    o << v;
    ++k;
  }
  o << (n == a.size() && k == n) << a.attributes();
  return o.s.str();
}
}  // namespace
VP_SCENARIO(objects, 4) {
  using Array = NdArray::NdArray<double>;
  std::vector<size_t> shape{size_t(rng.in(1, 5)), size_t(rng.in(1, 4))};
  auto                values = numbers(rng, shape[0] * shape[1]), more = numbers(rng, 2 * shape[1]);
  Array               model(shape, values), extra({2, shape[1]}, more);
  std::unique_ptr<Array> a, view;
  auto                   reset = [&] {
    view.reset();
    a.reset(new Array(model.copy()));
  };
  auto state = [&] { return shownArray(*a) + (view ? shownArray(*view) : "") + shownArray(model) + shownArray(extra); };
  switch (rng.below(9)) {
  case 0:
    watch(rng, {"concatenate", state, [&] { a->concatenate(extra); }, reset, true});
    break;
  case 1: {
    bool vw = rng.chance(0.5);
    watch(rng, {"concatenate_shared", [&] { return shownArray(*a) + (view ? shownArray(*view) : ""); }, [&] { a->concatenate(extra); },
                [&] {
                  reset();
                  view.reset(new Array(vw ? a->slice(0) : *a));
                },
                false});
    break;
  }
  case 2:
    watch(rng, {"reshape", state, [&] { a->reshape(std::vector<size_t>{shape[1], shape[0]}); }, reset, true});
    break;
  case 3:
    watch(rng, {"assign", state, [&] { *a = extra; }, reset, false});
    break;
  case 4: {
    std::unique_ptr<SOM::SOM<2>> som, other(new SOM::SOM<2>(3, 2, [&rng] { return rng.real(0, 1); }));
    watch(rng, {"train",
                [&] {
                  Text o;
                  for (auto& c : *som) {
                    o << c[0] << c[1];
                  }
                  return o.s.str();
                },
                [&] {
                  std::vector<double> in{1, 2, 3};
                  SOM::SOMTrainer(SOM::NeighborhoodFunc::kohonen(3, 2), SOM::LearningRestraintFunc::linear()).train(*som, 3, in.begin(), in.end(), [](double v) {
                    std::unique_ptr<double> d(new double(v));
                    return std::array<double, 2>{{*d, -*d}};
                  });
                },
                [&] {
                  som.reset(new SOM::SOM<2>(3, 2));
                  std::copy(other->begin(), other->end(), som->begin());
                },
                false});
    break;
  }
  case 5: {
    std::unique_ptr<XYDataset::QualifiedName> q, other(new XYDataset::QualifiedName("a long group name/another long group/a long name of a dataset"));
    watch(rng, {"names", [&] { return q->qualifiedName() + " " + q->datasetName() + std::to_string(q->groups().size()); }, [&] { *q = *other; },
                [&] { q.reset(new XYDataset::QualifiedName("one quite long group/one quite long name")); }, false});
    break;
  }
  case 6: {
    std::unique_ptr<MathUtils::Piecewise> p;
    auto x = rising(rng, 5), y = numbers(rng, 5);
    auto f = MathUtils::interpolate(x, y, MathUtils::InterpolationType::CUBIC_SPLINE);
    std::unique_ptr<MathUtils::Function> product;
    watch(rng, {"products",
                [&] {
                  Text o;
                  o << (*f)(x[1] + 0.01) << (product ? (*product)(x[2]) : 0.);
                  return o.s.str();
                },
                [&] { product = MathUtils::multiply(*f, *f); }, [&] { product.reset(); }, true});
    break;
  }
  case 7: {
    std::unique_ptr<Histogram::Histogram<double>> h, two;
    auto data = numbers(rng, 50);
    watch(rng, {"histograms",
                [&] {
                  Text o;
                  o << h->getCounts() << h->getEdges() << (two ? two->getCounts() : h->getCounts());
                  return o.s.str();
                },
                [&] {
                  auto c = std::unique_ptr<Histogram::Histogram<double>>(new Histogram::Histogram<double>(*h));
                  two    = std::move(c);
                },
                [&] {
                  two.reset();
                  h.reset(new Histogram::Histogram<double>(data.begin(), data.end(), Histogram::Binning::Sqrt<double>{}));
                },
                true});
    break;
  }
  default: {
    std::unique_ptr<ThreadPool> p;
    std::atomic<int>            done{0};
    std::vector<double>         load = numbers(rng, 10);
    int                         got  = 0;
    watch(rng, {"submit",
                [&] {
                  p->block();
                  return std::to_string(int(done));
                },
                [&] {
                  for (int i = 0; i < 8; ++i) {
                    p->submit([&done, load] { ++done; });
                    ++got;
                  }
                },
                [&] {
                  p.reset(new ThreadPool(rng.in(1, 3), 1));
                  done = 0;
                },
                false});
  }
  }
  vp::distinct(rng.next());
}

// ---------------------------------------------------------------- callbacks
struct Fragile {
  double x, y;
};
namespace KdTree {
template <>
struct KdTreeTraits<Fragile> {
  static double getCoord(const Fragile& p, size_t i) {
    fuse().tick();
    return i ? p.y : p.x;
  }
};
}  // namespace KdTree
namespace {
struct FragileDistance : SOM::Distance::Interface<2> {
  using SOM::Distance::Interface<2>::distance;
  double distance(const std::array<double, 2>& a, const std::array<double, 2>& b) const override {
    fuse().tick();
    return std::hypot(a[0] - b[0], a[1] - b[1]);
  }
};
struct FragileAttribute : SourceCatalog::AttributeFromRow {
  std::unique_ptr<SourceCatalog::Attribute> createAttribute(const Table::Row& row) override {
    fuse().tick();
    return std::unique_ptr<SourceCatalog::Attribute>(new SourceCatalog::SpectroscopicRedshift(boost::get<double>(row["z"]), 0.));
  }
};
struct FragileProvider : XYDataset::XYDatasetProvider {
  int asked = 0;
  std::vector<XYDataset::QualifiedName> listContents(const std::string& g) override {
    fuse().tick();
    ++asked;
    return {XYDataset::QualifiedName(g + "/a"), XYDataset::QualifiedName(g + "/b")};
  }
  std::string getParameter(const XYDataset::QualifiedName& q, const std::string& k) override {
    fuse().tick();
    return q.datasetName() + k;
  }
  std::unique_ptr<XYDataset::XYDataset> getDataset(const XYDataset::QualifiedName& q) override {
    fuse().tick();
    ++asked;
    return std::unique_ptr<XYDataset::XYDataset>(new XYDataset::XYDataset({{q.datasetName()[0], 1.}, {200, 2.}}));
  }
};
struct FragileParser : XYDataset::FileParser {
  std::string getName(const std::string& f) override {
    fuse().tick();
    return boost::filesystem::path(f).stem().string();
  }
  std::string getParameter(const std::string&, const std::string& k) override {
    fuse().tick();
    return k;
  }
  std::unique_ptr<XYDataset::XYDataset> getDataset(const std::string&) override {
    fuse().tick();
    return std::unique_ptr<XYDataset::XYDataset>(new XYDataset::XYDataset({{1., 1.}}));
  }
  bool isDatasetFile(const std::string&) override {
    fuse().tick();
    return true;
  }
};
struct FragileCopy {
  std::shared_ptr<int> counted = std::make_shared<int>(0);
  FragileCopy()                = default;
  FragileCopy(const FragileCopy& o) : counted(o.counted) {
    fuse().tick();
  }
  FragileCopy(FragileCopy&&) = default;
  void operator()() const {
    ++*counted;
  }
};
using Fragments = std::function<std::string(uint64_t)>;
std::string quadrature(uint64_t seed) {
  vp::Rng rng(seed);
  double  k = rng.real(0.5, 3), a = rng.real(-2, 0), b = rng.real(0.1, 2);
  MathUtils::FunctionAdapter f([k](double x) {
    fuse().tick();
    return std::sin(k * x) + 1;
  });
  Text o;
  o << MathUtils::SimpsonsRule()(f, a, b, 4);
  auto g = f.clone();
  o << (*g)(a) << (*MathUtils::multiply(f, *g))(b);
  o << MathUtils::integrate(*g, a, b, std::unique_ptr<MathUtils::NumericalIntegrationScheme>(new MathUtils::AdaptativeIntegration<MathUtils::SimpsonsRule>(1e-4, 3)));
  return o.s.str();
}
std::string training(uint64_t seed) {
  vp::Rng rng(seed);
  SOM::SOM<2, FragileDistance> som(rng.in(1, 4), rng.in(1, 3), [&rng] {
    fuse().tick();
    return rng.real(0, 1);
  });
  auto in = numbers(rng, 3);
  auto w  = [](double v) {
    fuse().tick();
    return std::array<double, 2>{{v, -v}};
  };
  SOM::SOMTrainer(
      [](std::pair<size_t, size_t>, std::pair<size_t, size_t>, size_t, size_t) {
        fuse().tick();
        return 0.5;
      },
      [](size_t, size_t) {
        fuse().tick();
        return 0.5;
      })
      .train(som, 2, in.begin(), in.end(), w);
  Text o;
  for (auto& c : SOM::SOMProjector::project<int>(som, in.begin(), in.end(), w, [](int& c, double) {
         fuse().tick();
         ++c;
       })) {
    o << c;
  }
  return o.s.str();
}
std::string trees(uint64_t seed) {
  vp::Rng              rng(seed);
  std::vector<Fragile> p;
  for (int i = 0; i < 230; ++i) {
    p.push_back({rng.real(-1, 1), rng.real(-1, 1)});
  }
  KdTree::KdTree<Fragile>                 t(p);
  typename KdTree::KdTree<Fragile>::Coord at;
  at.coord[0] = at.coord[1] = 0;
  Text o;
  for (auto& q : t.findPointsWithinRadius(at, 0.5)) {
    o << q.x << q.y;
  }
  o << t.findPointsWithinRadius(at, 0.2).size();
  return o.s.str();
}
std::string attributes(uint64_t seed) {
  vp::Rng rng(seed);
  auto    t = someTable(rng, 1 + rng.below(12));
  std::vector<std::shared_ptr<SourceCatalog::AttributeFromRow>> from{std::make_shared<FragileAttribute>(), std::make_shared<FragileAttribute>()};
  auto c = SourceCatalog::CatalogFromTable(t.getColumnInfo(), "id", from).createCatalog(t);
  Text o;
  for (auto& s : c) {
    o << s.getId() << s.getAttribute<SourceCatalog::SpectroscopicRedshift>()->getValue();
  }
  return o.s.str();
}
std::string providers(uint64_t seed, const std::string& root) {
  vp::Rng                        rng(seed);
  XYDataset::FileSystemProvider  p(root, std::unique_ptr<XYDataset::FileParser>(new FragileParser));
  Text                           o;
  for (auto& q : p.listContents("")) {
    o << q.qualifiedName() << p.getParameter(q, "k") << p.getDataset(q)->size();
  }
  return o.s.str();
}
// what throws once works the next time, and is asked once after that
void cached(vp::Rng& rng) {
  auto                      inner = std::make_shared<FragileProvider>();
  XYDataset::CachedProvider c(inner);
  int                       known = 0;
  std::map<std::string, bool> lists, sets;
  for (int k = 0; k < 20; ++k) {
    std::string g = std::string(1, char('g' + rng.below(3)));
    XYDataset::QualifiedName q(g + "/" + (rng.chance(0.5) ? "a" : "b"));
    bool                     list = rng.chance(0.5);
    bool&                    seen = list ? lists[g] : sets[q.qualifiedName()];
    bool                     fail = rng.chance(0.4);
    fuse().token                  = rng.next();
    fuse().left                   = fail ? 1 : 0;
    bool threw                    = false;
    try {
      if (list) {
        auto l = c.listContents(g);
        VP_CHECK(l.size() == 2 && l[0].qualifiedName() == g + "/a", "fault:cached", "wrong list");
      } else {
        auto d = c.getDataset(q);
        VP_CHECK(d && d->size() == 2 && d->begin()->first == double(q.datasetName()[0]), "fault:cached", "wrong dataset");
      }
    } catch (const Broken& b) {
      threw = true;
      VP_CHECK(b.token == fuse().token, "fault:cached", "another exception");
    }
    fuse().left = 0;
    VP_CHECK(threw == (fail && !seen), "fault:cached", (threw ? "threw though known" : "did not throw though unknown"));
    if (!threw && !seen) {
      seen = true;
      ++known;
    }
    VP_CHECK(inner->asked == known, "fault:cached", "asked " << inner->asked << " times for " << known);
    vp::cover(threw ? "cached_thrown" : "cached_answers");
  }
}
}  // namespace
VP_SCENARIO(callbacks, 4) {
  static Tree tree;
  std::string root = tree.dir.path;
  static const std::vector<std::pair<const char*, Fragments>> works{{"quadrature", quadrature}, {"training", training}, {"trees", trees}, {"attributes", attributes},
                                                               {"providers", [root](uint64_t s) { return providers(s, root); }}};
  if (rng.chance(0.2)) {
    cached(rng);
    return;
  }
  auto&    w      = rng.pick(works);
  uint64_t seed   = rng.next();
  fuse().left     = 0;
  std::string want = w.second(seed);
  fuse().calls    = 0;
  w.second(seed);
  long n = fuse().calls;
  for (int k = 0; k < 12; ++k) {
    long at      = rng.in(1, n);
    long base    = fault::live;
    bool threw   = false;
    fuse().token = rng.next();
    fuse().left  = at;
    {
      std::string got;
      try {
        got = w.second(seed);
      } catch (const Broken& b) {
        threw = b.token == fuse().token;
      }
      VP_CHECK(threw, std::string("fault:callback:") + w.first, "call " << at << " of " << n << " threw, and the exception did not come out");
    }
    VP_CHECK(fuse().left == 0, std::string("fault:callback:") + w.first, "fewer calls");
    VP_CHECK(fault::live == base, std::string("fault:leak:") + w.first, fault::live - base << " allocations left over after call " << at << " of " << n << " threw");
    vp::cover(std::string("thrown.") + w.first);
    vp::distinct(vp::mix(vp::mix(seed, at), vp::fnv(std::string(w.first))));
  }
  VP_CHECK(w.second(seed) == want, std::string("fault:after:") + w.first, "the same work comes out differently after failures");
}

// ---------------------------------------------------------------- objects that are used again after a failure
namespace {
using Use = std::function<std::string()>;
struct Kept {
  const char* what;
  Use         use, other;  // with the same objects
};
Kept kept(vp::Rng& rng, const std::string& root) {
  namespace S = SourceCatalog;
  switch (rng.below(9)) {
  case 0: {
    auto t1 = std::make_shared<Table::Table>(someTable(rng, 1 + rng.below(9))), t2 = std::make_shared<Table::Table>(someTable(rng, 1 + rng.below(9)));
    auto info = t1->getColumnInfo();
    std::vector<std::shared_ptr<S::AttributeFromRow>> from{std::make_shared<FragileAttribute>(), std::make_shared<FragileAttribute>()};
    from.push_back(std::make_shared<S::PhotometryAttributeFromRow>(
        info, std::vector<std::pair<std::string, std::pair<std::string, std::string>>>{{"band", {"f", "e"}}}, true, -99., true,
        std::vector<std::pair<std::string, float>>{{"band", 3.f}}, -99., std::vector<std::pair<std::string, bool>>{{"band", rng.chance(0.5)}}));
    auto f    = std::make_shared<S::CatalogFromTable>(info, "id", from);
    auto make = [f](const Table::Table& t) {
      auto c = f->createCatalog(t);
      Text o;
      o << c.size();
      for (auto& s : c) {
        o << s.getId() << s.getAttribute<S::SpectroscopicRedshift>()->getValue() << s.getAttribute<S::Photometry>()->find("band")->error;
      }
      return o.s.str();
    };
    return {"catalog_factory", [=] { return make(*t1); }, [=] { return make(*t2); }};
  }
  case 1: {
    auto policy = std::make_shared<SOM::SOMTrainer>([](std::pair<size_t, size_t>, std::pair<size_t, size_t>, size_t i, size_t) {
      fuse().tick();
      return 1. / (1 + i);
    },
                                                    [](size_t i, size_t) {
                                                      fuse().tick();
                                                      return 0.5 / (1 + i);
                                                    });
    auto a = numbers(rng, 4), b = numbers(rng, 3);
    auto train = [policy](std::vector<double> in) {
      SOM::SOM<2, FragileDistance> som(2, 3);
      double                       v = 0;
      for (auto& c : som) {
        c = {{v, 1 - v}};
        v += 0.1;
      }
      policy->train(som, 2, in.begin(), in.end(), [](double x) {
        fuse().tick();
        return std::array<double, 2>{{x, -x}};
      });
      Text o;
      for (auto& c : som) {
        o << c[0] << c[1];
      }
      return o.s.str();
    };
    return {"trainer", [=] { return train(a); }, [=] { return train(b); }};
  }
  case 2: {
    // what was found in the directory stays as it was
    auto p    = std::make_shared<XYDataset::FileSystemProvider>(root, std::unique_ptr<XYDataset::FileParser>(new FragileParser));
    auto list = [p](std::string g) {
      Text o;
      for (auto& q : p->listContents(g)) {
        o << q.qualifiedName() << p->getParameter(q, "k");
        auto d = p->getDataset(q);
        o << d->size();
      }
      return o.s.str();
    };
    return {"directory", [=] { return list(""); }, [=] { return list("a"); }};
  }
  case 3: {
    auto q1 = XYDataset::QualifiedName("a group of some length/name one of the names"), q2 = XYDataset::QualifiedName("a group of some length/other one of the names");
    auto c  = std::make_shared<XYDataset::CachedProvider>(std::make_shared<FragileProvider>());
    auto f  = [c](XYDataset::QualifiedName q) {
      Text o;
      for (auto& n : c->listContents(q.groups()[0])) {
        o << n.qualifiedName();
      }
      auto d = c->getDataset(q);
      o << d->size() << d->begin()->first << c->getParameter(q, "k");
      return o.s.str();
    };
    return {"cache", [=] { return f(q1); }, [=] { return f(q2); }};
  }
  case 4: {
    auto p  = std::make_shared<std::vector<Fragile>>();
    for (int i = 0; i < 230; ++i) {
      p->push_back({rng.real(-1, 1), rng.real(-1, 1)});
    }
    auto t = std::make_shared<KdTree::KdTree<Fragile>>(*p);
    auto f = [t](double x, double r) {
      KdTree::KdTree<Fragile>::Coord at;
      at.coord[0] = at.coord[1] = x;
      Text o;
      for (auto& q : t->findPointsWithinRadius(at, r)) {
        o << q.x << q.y;
      }
      return o.s.str();
    };
    double x = rng.real(-1, 1), r = rng.real(0, 1);
    return {"tree", [=] { return f(x, r); }, [=] { return f(-x, r / 2); }};
  }
  case 5: {
    // derivatives and integrals are made when first asked for
    auto p = std::make_shared<MathUtils::Polynomial>(numbers(rng, 6));
    auto x = numbers(rng, 2);
    return {"polynomial",
            [=] {
              Text o;
              o << (*p)(x[0]) << (*p->derivative())(x[0]) << p->integrate(x[0], x[1]);
              return o.s.str();
            },
            [=] {
              Text o;
              o << (*p->indefiniteIntegral())(x[1]) << (*p->derivative())(x[1]) << (*p->clone())(x[0]);
              return o.s.str();
            }};
  }
  case 6: {
    auto                     x = rising(rng, 4), y = rising(rng, 3);
    NdArray::NdArray<double> v({3, 4}, numbers(rng, 12, 0.1, 2));
    auto in = std::make_shared<MathUtils::InterpN<double, double>>(std::make_tuple(x, y), v, true);
    auto sp = std::make_shared<MathUtils::NdSampler<double, double>>(std::make_tuple(x, y), v);
    auto f  = [=](unsigned seed) {
      std::mt19937 gen(seed);
      Text         o;
      for (auto& d : sp->draw(5, gen)) {
        o << std::get<0>(d) << std::get<1>(d) << (*in)(std::get<0>(d), std::get<1>(d));
      }
      return o.s.str();
    };
    return {"sampler", [=] { return f(1); }, [=] { return f(2); }};
  }
  case 7: {
    double k = rng.real(0.5, 3), a = rng.real(-2, 0), b = rng.real(0.1, 2);
    auto   s = std::make_shared<MathUtils::AdaptativeIntegration<MathUtils::SimpsonsRule>>(1e-4, 3);
    auto   f = std::make_shared<MathUtils::FunctionAdapter>([k](double x) {
      fuse().tick();
      return std::sin(k * x) + 1;
    });
    return {"integration",
            [=] {
              Text o;
              o << (*s)(*f, a, b);
              return o.s.str();
            },
            [=] {
              Text o;
              o << (*s)(*MathUtils::multiply(*f, *f), b, a + 1);
              return o.s.str();
            }};
  }
  default: {
    // of which one cell cannot be converted, if the row says so
    auto t    = std::make_shared<Table::Table>(someTable(rng, 4));
    auto info = t->getColumnInfo();
    auto z    = std::make_shared<S::SpectroscopicRedshiftAttributeFromRow>(info, "z");
    auto f    = [=](size_t i) {
      auto a = z->createAttribute((*t)[i]);
      Text o;
      o << dynamic_cast<S::SpectroscopicRedshift&>(*a).getValue() << boost::apply_visitor(Table::CastVisitor<std::string>{}, (*t)[i]["t"]);
      for (auto& d : boost::apply_visitor(Table::CastVisitor<std::vector<double>>{}, (*t)[i]["v"])) {
        o << d;
      }
      return o.s.str();
    };
    return {"rows", [=] { return f(0); }, [=] { return f(3); }};
  }
  }
}
}  // namespace
VP_SCENARIO(usedAgain, 5) {
  static Tree tree;
  fuse().left   = 0;
  // two of the same: one that never fails, and the one that does
  uint64_t    seed = rng.next();
  vp::Rng     r1(seed), r2(seed);
  Kept        model = kept(r1, tree.dir.path), k = kept(r2, tree.dir.path);
  std::string key = std::string("fault:again:") + k.what;
  long        c0 = fault::seen, t0 = fuse().calls;
  std::string want = model.use();
  long        n = fault::seen - c0, calls = fuse().calls - t0;
  std::string other = model.other();
  bool        ready = rng.chance(0.5);
  if (ready) {
    VP_CHECK(k.use() == want && k.other() == other, key, "two of the same objects differ");
  }
  for (int i = 0; i < 10; ++i) {
    bool threw = false, callback = calls > 0 && rng.chance(0.5), o = rng.chance(0.3);
    if (callback) {
      fuse().token = rng.next();
      fuse().left  = rng.in(1, calls);
    }
    std::string got;
    {
      fault::Arm arm(callback || n == 0 ? 0 : rng.in(1, n));
      try {
        got = o ? k.other() : k.use();
      } catch (const std::exception&) {
        threw = true;
      }
    }
    fuse().left = 0;
    VP_CHECK(threw || got == (o ? other : want), key, "nothing was thrown, and the result is another one");
    if (rng.chance(0.7)) {
      bool        back = rng.chance(0.5);
      std::string now = back ? k.other() : k.use(), then = back ? k.use() : k.other();
      VP_CHECK(now == (back ? other : want) && then == (back ? want : other), key,
               "after " << (threw ? callback ? "a callback that threw" : "a failed allocation" : "a success") << " the same object gives something else than one that never failed");
    }
    vp::cover(std::string("again.") + (threw ? callback ? "callback" : "memory" : "success"));
  }
  vp::cover(std::string("kept.") + k.what);
  vp::distinct(seed);
}

// ---------------------------------------------------------------- threads
// a pool whose threads cannot all be started is refused, and leaves none behind
VP_SCENARIO(threads, 1) {
  size_t n    = rng.in(1, 8), at = rng.in(1, n + 2);
  long   base = fault::live;
  auto   count = [] {
    long c = 0;
    for (boost::filesystem::directory_iterator i("/proc/self/task"), e; i != e; ++i) {
      ++c;
    }
    return c;
  };
  long              before = count();
  bool              threw  = false;
  std::atomic<long> done{0};
  fault::threads = at;
  try {
    ThreadPool p(n, 1);
    fault::threads = 0;
    for (int i = 0; i < 5; ++i) {
      p.submit([&done] { ++done; });
    }
    p.block();
  } catch (const std::system_error&) {
    threw = true;
  }
  fault::threads = 0;
  VP_CHECK(threw == (at <= n), "fault:threads", n << " threads of which number " << at << " could not be started: " << (threw ? "refused" : "accepted"));
  VP_CHECK(threw || done == 5, "fault:threads", done << " tasks of 5");
  for (int k = 0; k < 200 && count() > before; ++k) {
    std::this_thread::sleep_for(std::chrono::milliseconds(5));
  }
  VP_CHECK(count() <= before, "fault:threads", count() - before << " threads left over");
  VP_CHECK(fault::live == base, "fault:leak:threads", fault::live - base << " allocations left over");
  vp::cover(threw ? "pools_refused" : "pools_started");
}
// a task that cannot be copied is refused when submitted, or run
VP_SCENARIO(copies, 1) {
  ThreadPool p(rng.in(1, 3), 1);
  fuse().token = rng.next();
  fuse().left  = rng.in(1, 8);
  int  in = 0, out = 0;
  bool failed = false;
  std::vector<std::shared_ptr<int>> counts;
  for (int i = 0; i < 5; ++i) {
    try {
      FragileCopy f;
      auto        c = f.counted;
      if (rng.chance(0.5)) {
        p.submit(f);
      } else {
        p.submit(std::move(f));
      }
      counts.push_back(c);
      ++in;
    } catch (const Broken&) {
      ++out;
    }
  }
  try {
    p.block();
  } catch (const Broken& b) {
    failed = true;
  }
  long left   = fuse().left;
  fuse().left = 0;
  VP_CHECK(left > 0 || failed || out, "fault:copies", "a copy of a task threw, and nobody was told");
  VP_CHECK(out + in == 5, "fault:copies", "lost");
  if (!failed) {
    for (auto& c : counts) {
      VP_CHECK(*c == 1, "fault:copies", "a task was run " << *c << " times");
    }
  }
  vp::cover(out ? "tasks_refused" : "tasks_accepted");
}
VP_MAIN()
