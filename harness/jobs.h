// pieces of work over all modules: each makes its objects itself, from the data of its seed, and says what came out
#pragma once
#include "vp.h"
#include "AlexandriaKernel/StringUtils.h"
#include "GridContainer/GridContainer.h"
#include "GridContainer/serialize.h"
#include "Histogram/Binning/EdgeVector.h"
#include "Histogram/Binning/Scott.h"
#include "Histogram/Binning/Sqrt.h"
#include "Histogram/Histogram.h"
#include "KdTree/KdTree.h"
#include "MathUtils/PDF/Cumulative.h"
#include "MathUtils/PDF/NdSampler.h"
#include "MathUtils/PDF/PdfModeExtraction.h"
#include "MathUtils/function/Piecewise.h"
#include "MathUtils/function/Polynomial.h"
#include "MathUtils/function/function_tools.h"
#include "MathUtils/function/multiplication.h"
#include "MathUtils/helpers/InverseCumulative.h"
#include "MathUtils/helpers/Solvers.h"
#include "MathUtils/interpolation/GridInterpolation.h"
#include "MathUtils/interpolation/interpolation.h"
#include "AlexandriaKernel/ThreadPool.h"
#include "FilePool/FileHandler.h"
#include "FilePool/LRUFileManager.h"
#include "NdArray/NdArray.h"
#include "NdArray/Operations.h"
#include "NdArray/io/Npy.h"
#include "PhysicsUtils/CosmologicalDistances.h"
#include "SOM/SOM.h"
#include "SOM/SOMProjector.h"
#include "SOM/SOMTrainer.h"
#include "SOM/UMatrix.h"
#include "SOM/serialize.h"
#include "SourceCatalog/Catalog.h"
#include "SourceCatalog/CatalogFromTable.h"
#include "SourceCatalog/SourceAttributes/Photometry.h"
#include "SourceCatalog/SourceAttributes/PhotometryAttributeFromRow.h"
#include "SourceCatalog/SourceAttributes/SpectroscopicRedshift.h"
#include "SourceCatalog/SourceAttributes/SpectroscopicRedshiftAttributeFromRow.h"
#include "Table/AsciiReader.h"
#include "Table/AsciiWriter.h"
#include "Table/CastVisitor.h"
#include "Table/Table.h"
#include "XYDataset/AsciiParser.h"
#include "XYDataset/CachedProvider.h"
#include "XYDataset/FileSystemProvider.h"
#include "XYDataset/QualifiedName.h"
#include "XYDataset/XYDataset.h"
#include <boost/filesystem.hpp>
#include <fstream>
#include <random>

using namespace Euclid;

struct Pt {
  double x, y;
};
namespace KdTree {
template <>
struct KdTreeTraits<Pt> {
  static double getCoord(const Pt& p, size_t i) {
    return i == 0 ? p.x : p.y;
  }
};
}  // namespace KdTree

namespace {
// A job makes all its objects itself, from the data of its seed, and says what came out
using Job = std::function<std::string(uint64_t)>;

std::vector<double> rising(vp::Rng& r, size_t n) {
  std::vector<double> x{r.real(-5, 5)};
  while (x.size() < n) {
    x.push_back(x.back() + r.real(0.1, 2));
  }
  return x;
}
std::vector<double> numbers(vp::Rng& r, size_t n, double lo = -3, double hi = 3) {
  std::vector<double> x;
  for (size_t i = 0; i < n; ++i) {
    x.push_back(r.real(lo, hi));
  }
  return x;
}
// what a failed import from an archive has read so far is lost (boost::serialization allocates it without an owner)
bool& archives() {
  static bool on = true;
  return on;
}
struct Text {
  std::ostringstream s;
  Text() {
    s.precision(17);
    s.exceptions(std::ios::badbit);
  }
  template <typename T>
  Text& operator<<(const T& t) {
    s << t << ' ';
    return *this;
  }
  template <typename T>
  Text& operator<<(const std::vector<T>& v) {
    for (auto& x : v) {
      s << x << ',';
    }
    return *this;
  }
};

Table::Table someTable(vp::Rng& rng, size_t n) {
  auto info = std::make_shared<Table::ColumnInfo>(std::vector<Table::ColumnInfo::info_type>{{"id", typeid(int64_t), "", "identifier"},
                                                                                             {"z", typeid(double), "redshift", "of it"},
                                                                                             {"f", typeid(double)},
                                                                                             {"e", typeid(double)},
                                                                                             {"t", typeid(std::string)},
                                                                                             {"v", typeid(std::vector<double>)},
                                                                                             {"b", typeid(bool)},
                                                                                             {"i", typeid(int32_t)},
                                                                                             {"g", typeid(float)},
                                                                                             {"w", typeid(std::vector<int32_t>)},
                                                                                             {"a", typeid(NdArray::NdArray<double>)},
                                                                                             {"k", typeid(NdArray::NdArray<int64_t>)}});
  std::vector<Table::Row> rows;
  for (size_t i = 0; i < n; ++i) {
    rows.push_back(Table::Row({int64_t(rng.in(0, 1000000)), rng.real(0, 6), rng.chance(0.2) ? -99. : rng.real(0.1, 30), rng.chance(0.3) ? -99. : rng.real(0, 3),
                               (rng.chance(0.3) ? "a \"text\" " : "s") + std::to_string(rng.below(1000)), numbers(rng, 3), rng.chance(0.5), int32_t(rng.in(-99, 99)),
                               float(rng.in(-99, 99)), std::vector<int32_t>{1, int32_t(rng.in(0, 9))}, NdArray::NdArray<double>(std::vector<size_t>{2, 3}, numbers(rng, 6)),
                               NdArray::NdArray<int64_t>(std::vector<size_t>{1, 2}, std::vector<int64_t>{rng.in(-9, 9), rng.in(0, 1000)})},
                              info));
  }
  return Table::Table(rows);
}
std::string tables(uint64_t seed) {
  vp::Rng           rng(seed);
  auto              t = someTable(rng, 1 + rng.below(20));
  std::stringstream s;
  {
    Table::AsciiWriter w(s);
    w.showColumnInfo(true);
    w.addComment("of " + std::to_string(seed));
    w.addData(t);
  }
  Table::AsciiReader r(s);
  Text               o;
  for (size_t i = 0; i < r.getInfo().size(); ++i) {
    auto& d = r.getInfo().getDescription(i);
    o << d.name << d.unit << d.description << d.type.name();
  }
  while (r.hasMoreRows()) {
    auto part = r.read(1 + rng.below(5));
    for (auto& row : part) {
      for (size_t i = 0; i < row.size(); ++i) {
        o << boost::apply_visitor(Table::CastVisitor<std::string>{}, row[i]);
      }
      o << boost::apply_visitor(Table::CastVisitor<double>{}, row["z"]) << boost::apply_visitor(Table::CastVisitor<std::vector<double>>{}, row["v"]);
    }
  }
  return s.str() + o.s.str();
}
std::string catalogs(uint64_t seed) {
  namespace S = SourceCatalog;
  vp::Rng rng(seed);
  auto    t    = someTable(rng, 1 + rng.below(12));
  auto    info = t.getColumnInfo();
  std::vector<std::shared_ptr<S::AttributeFromRow>> from;
  from.push_back(std::make_shared<S::SpectroscopicRedshiftAttributeFromRow>(info, "z"));
  from.push_back(std::make_shared<S::PhotometryAttributeFromRow>(
      info, std::vector<std::pair<std::string, std::pair<std::string, std::string>>>{{"band", {"f", "e"}}}, true, -99., true,
      std::vector<std::pair<std::string, float>>{{"band", 3.f}}, -99., std::vector<std::pair<std::string, bool>>{{"band", rng.chance(0.5)}}));
  auto c = S::CatalogFromTable(info, "id", from).createCatalog(t);
  Text o;
  for (auto& s : c) {
    auto p = s.getAttribute<S::Photometry>()->find("band");
    o << s.getId() << s.getAttribute<S::SpectroscopicRedshift>()->getValue() << p->flux << p->error << p->missing_photometry_flag << p->upper_limit_flag;
    o << (c.find(s.getId()) != nullptr);
  }
  return o.s.str();
}
std::string arrays(uint64_t seed) {
  vp::Rng             rng(seed);
  std::vector<size_t> shape{1 + rng.below(4), 1 + rng.below(4), 1 + rng.below(3)};
  NdArray::NdArray<double> a(shape, numbers(rng, shape[0] * shape[1] * shape[2]));
  std::stringstream        s;
  NdArray::writeNpy(s, a);
  auto b = NdArray::readNpy<double>(s);
  Text o;
  o << (a == b) << std::vector<double>(b.begin(), b.end()) << NdArray::sum(b, 0);
  for (size_t k = 0; k < a.size(); ++k) {
    o << NdArray::unravel_index(k, shape);
  }
  b.concatenate(a);
  b.reshape(b.size());
  o << b.at(b.size() - 1) << s.str();
  return o.s.str();
}
std::string grids(uint64_t seed) {
  vp::Rng rng(seed);
  typedef GridContainer::GridContainer<std::vector<double>, double, int> G;
  G    g(GridContainer::GridAxis<double>("x" + std::to_string(seed), rising(rng, 2 + rng.below(5))), GridContainer::GridAxis<int>("y", {1, 2, 5}));
  for (auto& c : g) {
    c = rng.real(-1, 1);
  }
  std::stringstream s;
  GridContainer::gridBinaryExport(s, g);
  auto back = archives() ? GridContainer::gridBinaryImport<G>(s) : std::move(g);
  Text o;
  for (auto it = back.begin(); it != back.end(); ++it) {
    o << *it << it.axisValue<0>() << it.axisValue<1>();
  }
  auto slice = back.fixAxisByIndex<1>(rng.below(3));
  for (auto& c : slice) {
    o << c;
  }
  o << back.getAxis<0>().name() << s.str();
  return o.s.str();
}
std::string functions(uint64_t seed) {
  vp::Rng rng(seed);
  size_t  n = 2 + rng.below(10);
  auto    x = rising(rng, n), y = numbers(rng, n), at = numbers(rng, 5, x[0] - 1, x.back() + 1);
  Text    o;
  for (auto type : {MathUtils::InterpolationType::LINEAR, MathUtils::InterpolationType::CUBIC_SPLINE}) {
    auto f = MathUtils::interpolate(x, y, type, rng.chance(0.5));
    auto g = MathUtils::multiply(*f, *f);
    for (double a : at) {
      o << (*f)(a) << (*g)(a);
    }
    o << MathUtils::integrate(*f, at[0], at[1]);
  }
  MathUtils::Polynomial p(numbers(rng, 6));
  o << (*p.derivative())(at[0]) << (*p.indefiniteIntegral())(at[1]) << p.integrate(at[2], at[3]);
  size_t                   ny = 2 + rng.below(3);
  auto                     y2 = rising(rng, ny);
  NdArray::NdArray<double> v({ny, n}, numbers(rng, n * ny, 0.1, 2));
  MathUtils::InterpN<double, double> in(std::make_tuple(x, y2), v, true);
  for (double a : at) {
    o << in(a, at[0]);
  }
  MathUtils::NdSampler<double, double> sp(std::make_tuple(x, y2), v);
  std::mt19937                         gen(seed);
  for (auto& d : sp.draw(4, gen)) {
    o << std::get<0>(d) << std::get<1>(d);
  }
  PhysicsUtils::CosmologicalParameters par(rng.real(0.2, 1), 0.7, 70);
  o << PhysicsUtils::CosmologicalDistances().distanceModulus(rng.real(0.1, 4), par);
  return o.s.str();
}
std::string distributions(uint64_t seed) {
  vp::Rng rng(seed);
  size_t  n = 5 + rng.below(30);
  auto    x = rising(rng, n), y = numbers(rng, n, 0.1, 3);
  Text    o;
  auto    c = MathUtils::Cumulative::fromPdf(x, y);
  o << c.findValue(0.37) << c.findMinInterval(0.3).first << c.findCenteredInterval(0.4).second;
  for (auto& m : MathUtils::extractNHighestModes(x, y, 0.8, 3)) {
    o << m.getModeArea() << m.getMeanPosition() << m.getInterpolatedMaxPosition();
  }
  for (auto& m : MathUtils::extractNBigestModes(x, y, 0.9, 2)) {
    o << m.getModeArea();
  }
  auto data = numbers(rng, 40);
  Histogram::Histogram<double> h(data.begin(), data.end(), Histogram::Binning::Sqrt<double>{}), h2(data.begin(), data.end(), Histogram::Binning::Scott<double>{});
  o << h.getCounts() << h.getEdges() << std::get<0>(h2.getStats()) << std::get<1>(h2.getStats()) << h2.getCounts();
  std::vector<Pt> pts;
  for (size_t i = 0; i < 150; ++i) {
    pts.push_back({rng.real(-5, 5), rng.real(-5, 5)});
  }
  KdTree::KdTree<Pt>                 t(pts);
  typename KdTree::KdTree<Pt>::Coord at;
  at.coord[0] = rng.real(-5, 5);
  at.coord[1] = rng.real(-5, 5);
  for (auto& p : t.findPointsWithinRadius(at, 2)) {
    o << p.x << p.y;
  }
  return o.s.str();
}
std::string maps(uint64_t seed) {
  vp::Rng rng(seed);
  size_t  nx = 1 + rng.below(5), ny = 1 + rng.below(5);
  SOM::SOM<2> som(nx, ny, [&rng] { return rng.real(-1, 1); });
  auto        in = numbers(rng, 1 + rng.below(8));
  auto        w  = [](double v) { return std::array<double, 2>{{v, -v}}; };
  SOM::SOMTrainer(rng.chance(0.5) ? SOM::NeighborhoodFunc::kohonen(nx, ny) : SOM::NeighborhoodFunc::linearUnitDisk(3), SOM::LearningRestraintFunc::linear())
      .train(som, 4, in.begin(), in.end(), w);
  std::stringstream s;
  SOM::somBinaryExport(s, som);
  auto back = archives() ? SOM::somBinaryImport<2>(s) : std::move(som);
  Text o;
  for (auto& c : back) {
    o << c[0] << c[1];
  }
  auto p = SOM::SOMProjector::project<int>(back, in.begin(), in.end(), w, [](int& c, double) { ++c; });
  for (auto& c : p) {
    o << c;
  }
  for (auto& c : SOM::computeUMatrix(back, SOM::UMatrixType::MAX)) {
    o << c;
  }
  return o.s.str();
}
std::string texts(uint64_t seed) {
  vp::Rng     rng(seed);
  std::string t;
  auto        x = numbers(rng, 1 + rng.below(20));
  for (double v : x) {
    t += (t.empty() ? "" : rng.pick(std::vector<std::string>{",", " ", ", "})) + std::to_string(v);
  }
  Text o;
  o << stringToVector<double>(t);
  std::set<XYDataset::QualifiedName> names;
  for (int i = 0; i < 8; ++i) {
    XYDataset::QualifiedName q(rng.pick(std::vector<std::string>{"a/", "a/b/", ""}) + "n" + std::to_string(rng.below(5)));
    names.insert(q);
    o << q.hash() << q.qualifiedName() << q.groups() << q.belongsInGroup(XYDataset::QualifiedName("a"));
  }
  o << names.size();
  return o.s.str();
}
// a tree of datasets which every thread reads with providers and parsers of its own
struct Tree {
  vp::ScratchDir dir;
  Tree() {
    vp::Rng rng(1);
    boost::filesystem::create_directories(dir.path + "/a/b");
    for (int i = 0; i < 6; ++i) {
      std::ofstream out(dir.path + (i % 2 ? "/a/" : "/a/b/") + "f" + std::to_string(i) + ".txt");
      out << "# n" << i << "\n# NAME : n" << i << "\n# K : v" << i << "\n";
      for (auto x : rising(rng, 3 + i)) {
        out << x << " " << x * i << "\n";
      }
    }
    std::ofstream(dir.path + "/a/order.txt") << "f5.txt\nf1.txt\n";
  }
};
std::string datasets(uint64_t seed, const std::string& root) {
  vp::Rng rng(seed);
  std::shared_ptr<XYDataset::XYDatasetProvider> p(
      new XYDataset::FileSystemProvider(root, std::unique_ptr<XYDataset::FileParser>(new XYDataset::AsciiParser())));
  if (rng.chance(0.5)) {
    p.reset(new XYDataset::CachedProvider(p));
  }
  Text o;
  for (auto& name : p->listContents(rng.chance(0.5) ? "a" : "")) {
    auto d = p->getDataset(name);
    o << name.qualifiedName() << d->size() << p->getParameter(name, "K");
    for (auto& q : *d) {
      o << q.first << q.second;
    }
  }
  std::string path = root + "/a/f1.txt";
  o << XYDataset::AsciiParser("^# (n.*)$").getName(path);
  return o.s.str();
}
// a pool of its own, a failure of which is nobody else's
std::string pools(uint64_t seed) {
  vp::Rng               rng(seed);
  size_t                n    = rng.in(1, 30);
  bool                  fail = rng.chance(0.3);
  std::vector<uint64_t> got(n);
  Text                  o;
  {
    ThreadPool p(rng.below(4), 1);
    try {
      for (size_t i = 0; i < n; ++i) {
        p.submit([&got, i, seed] { got[i] = vp::mix(seed, i); });
      }
      p.block();
      o << got << p.queued();
      if (fail) {
        p.submit([seed] { throw std::runtime_error("failure of " + std::to_string(seed)); });
      }
      p.block();
      o << "fine";
    } catch (const std::runtime_error& e) {
      o << e.what();
    }
  }
  return o.s.str();
}
// files and a manager of its own
struct Stream : public std::fstream {
  Stream(const boost::filesystem::path& p, bool write) : std::fstream(p.native(), write ? std::ios::in | std::ios::out : std::ios::in) {}
  Stream(Stream&& o) : std::fstream(std::move(o)) {}
  Stream& operator=(Stream&&) = default;
};
std::string files(uint64_t seed, const std::string& root) {
  static std::atomic<uint64_t> count{0};
  vp::Rng                      rng(seed);
  std::string                  base = root + "/own" + std::to_string(count++) + "_";
  auto                         m    = std::make_shared<FilePool::LRUFileManager>(1 + rng.below(3));
  size_t                       n    = rng.in(1, 4);
  std::vector<std::shared_ptr<FilePool::FileHandler>> h;
  for (size_t i = 0; i < n; ++i) {
    std::ofstream(base + std::to_string(i)) << "";
    h.push_back(m->getFileHandler(base + std::to_string(i)));
  }
  Text o;
  for (size_t k = rng.in(1, 12); k > 0; --k) {
    size_t i = rng.below(n);
    if (rng.chance(0.6)) {
      auto a = h[i]->getAccessor<Stream>(FilePool::FileHandler::kWrite);
      a->m_fd.seekp(0, std::ios::end);
      a->m_fd << rng.below(1000) << ' ';
    } else {
      auto a = h[i]->getAccessor<Stream>(FilePool::FileHandler::kRead);
      a->m_fd.clear();
      a->m_fd.seekg(0);
      std::string w;
      while (a->m_fd >> w) {
        o << w;
      }
      a->m_fd.clear();
    }
  }
  o << (m->hasHandler(base + "0")) << m->getLimit();
  h.clear();
  m->closeAll();
  for (size_t i = 0; i < n; ++i) {
    std::ifstream in(base + std::to_string(i));
    std::string   l;
    std::getline(in, l);
    o << l;
    unlink((base + std::to_string(i)).c_str());
  }
  return o.s.str();
}
}  // namespace

