// C28: objects which are only read may be read from several threads at once (under ThreadSanitizer)
#include "vp.h"
#include "GridContainer/GridContainer.h"
#include "Histogram/Binning/EdgeVector.h"
#include "Histogram/Histogram.h"
#include "KdTree/KdTree.h"
#include "MathUtils/PDF/Cumulative.h"
#include "MathUtils/PDF/NdSampler.h"
#include "MathUtils/PDF/PdfModeExtraction.h"
#include "MathUtils/function/Piecewise.h"
#include "MathUtils/function/Polynomial.h"
#include "MathUtils/function/function_tools.h"
#include "MathUtils/function/multiplication.h"
#include "MathUtils/helpers/InverseCumulative.h"
#include "MathUtils/interpolation/GridInterpolation.h"
#include "MathUtils/interpolation/interpolation.h"
#include "MathUtils/numericalDifferentiation/FiniteDifference.h"
#include "MathUtils/numericalIntegration/AdaptativeIntegration.h"
#include "MathUtils/numericalIntegration/SimpsonsRule.h"
#include "NdArray/NdArray.h"
#include "PhysicsUtils/CosmologicalDistances.h"
#include "SOM/SOM.h"
#include "SOM/SOMProjector.h"
#include "SOM/UMatrix.h"
#include "SourceCatalog/Catalog.h"
#include "SourceCatalog/SourceAttributes/Photometry.h"
#include "SourceCatalog/SourceAttributes/SpectroscopicRedshift.h"
#include "Table/CastVisitor.h"
#include "Table/Table.h"
#include "XYDataset/QualifiedName.h"
#include "XYDataset/XYDataset.h"
#include <random>

using namespace Euclid;
using MathUtils::Polynomial;

namespace {
using Op = std::function<double()>;
// The same operations on an object nobody else uses give the expected results; then all threads run them on the shared one,
// which nobody has touched since it was made.
void together(vp::Rng& rng, const std::vector<Op>& alone, const std::vector<Op>& shared, const char* what) {
  std::vector<double> want;
  for (auto& o : alone) {
    want.push_back(o());
  }
  unsigned                 n = rng.in(2, 5);
  std::atomic<unsigned>    ready{0};
  std::vector<std::thread> threads;
  std::vector<uint64_t>    seeds;
  for (unsigned t = 0; t < n; ++t) {
    seeds.push_back(rng.next());
  }
  bool same_order = rng.chance(0.5);
  for (unsigned t = 0; t < n; ++t) {
    threads.emplace_back([&, t] {
      vp::Rng             r(same_order ? seeds[0] : seeds[t]);
      std::vector<size_t> order;
      for (size_t k = 0; k < shared.size(); ++k) {
        order.push_back(k);
      }
      r.shuffle(order);
      ++ready;
      while (ready < n) {
      }
      for (int round = 0; round < 2; ++round) {
        for (size_t k : order) {
          double got = 0;
          try {
            got = shared[k]();
          } catch (const std::exception& e) {
            VP_EXPECT(false, std::string("shared:") + what, "operation " << k << " threw " << e.what());
            return;
          }
          VP_EXPECT(got == want[k] || (std::isnan(got) && std::isnan(want[k])), std::string("shared:") + what,
                    "operation " << k << " gives " << got << " with other threads around, and " << want[k] << " alone");
        }
      }
    });
  }
  for (auto& t : threads) {
    t.join();
  }
  vp::cover(std::string("shared.") + what);
  vp::cover("operations", n * 2 * shared.size());
  vp::cover("threads", n);
  vp::distinct(vp::mix(vp::fnv(std::string(what)), seeds[0]));
}
// makes the operations of an object, twice
template <typename Make>
void share(vp::Rng& rng, Make make, const char* what) {
  auto a = make(), b = make();
  together(rng, a, b, what);
}
std::vector<double> rising(vp::Rng& r, size_t n) {
  std::vector<double> x{r.real(-5, 5)};
  while (x.size() < n) {
    x.push_back(x.back() + r.real(0.1, 2));
  }
  return x;
}
std::vector<double> numbers(vp::Rng& r, size_t n, double lo = -3, double hi = 3) {
  std::vector<double> x;
  for (size_t i = 0; i < n; ++i) {
    x.push_back(r.real(lo, hi));
  }
  return x;
}
void functionOps(std::vector<Op>& ops, std::shared_ptr<const MathUtils::Function> f, const std::vector<double>& at) {
  for (double x : at) {
    ops.push_back([f, x] { return (*f)(x); });
  }
  ops.push_back([f, at] {
    auto   c = f->clone();
    double s = 0;
    for (double x : at) {
      s += (*c)(x);
    }
    return s;
  });
}
}  // namespace

VP_SCENARIO(polynomials, 3) {
  auto c = numbers(rng, rng.chance(0.2) ? rng.in(6, 30) : rng.in(0, 5)), at = numbers(rng, 3);
  share(rng, [&] {
    auto            p = std::make_shared<const Polynomial>(c);
    std::vector<Op> ops;
    functionOps(ops, p, at);
    for (double x : at) {
      ops.push_back([p, x] { return (*p->derivative())(x); });
      ops.push_back([p, x] { return (*p->indefiniteIntegral())(x); });
      ops.push_back([p, x] { return (*dynamic_cast<const Polynomial&>(*p->derivative()).derivative())(x); });
      ops.push_back([p, x] { return (*dynamic_cast<const Polynomial&>(*p->indefiniteIntegral()).derivative())(x); });
    }
    ops.push_back([p, at] { return p->integrate(at[0], at[1]); });
    ops.push_back([p, at] { return (*MathUtils::multiply(*p, *p))(at[0]); });
    ops.push_back([p] { return double(p->getCoefficients().size()); });
    return ops;
  }, "polynomial");
}

VP_SCENARIO(interpolants, 2) {
  size_t n     = rng.chance(0.2) ? rng.in(9, 200) : rng.in(2, 8);
  auto   x     = rising(rng, n), y = numbers(rng, n);
  auto   at    = numbers(rng, 4, x[0] - 1, x.back() + 1);
  auto   type  = rng.chance(0.5) ? MathUtils::InterpolationType::LINEAR : MathUtils::InterpolationType::CUBIC_SPLINE;
  bool   extra = rng.chance(0.5);
  if (rng.chance(0.5)) {
    share(rng, [&] {
      auto            f = std::shared_ptr<const MathUtils::Function>(MathUtils::interpolate(x, y, type, extra));
      std::vector<Op> ops;
      functionOps(ops, f, at);
      ops.push_back([f, at] { return MathUtils::integrate(*f, at[0], at[1]); });
      ops.push_back([f, at] { return (*MathUtils::multiply(*f, *f))(at[2]); });
      ops.push_back([=] { return (*MathUtils::interpolate(x, y, type, extra))(at[0]); });
      auto d = std::make_shared<const XYDataset::XYDataset>(XYDataset::XYDataset::factory(x, y));
      ops.push_back([=] { return (*MathUtils::interpolate(*d, type, extra))(at[1]); });
      ops.push_back([d] {
        double s = d->front().first + d->back().second;
        for (auto& p : *d) {
          s += p.first * p.second;
        }
        return s;
      });
      return ops;
    }, "interpolation");
  } else {
    // pieces which share their functions
    share(rng, [&] {
      auto                                           one = std::make_shared<Polynomial>(std::vector<double>{1, 2, 3});
      std::vector<std::shared_ptr<MathUtils::Function>> fs(n - 1, one);
      auto            f = std::make_shared<const MathUtils::Piecewise>(x, fs);
      std::vector<Op> ops;
      functionOps(ops, f, at);
      ops.push_back([f, at] { return f->integrate(at[0], at[1]); });
      ops.push_back([f, at] { return f->integrate(at[2], at[3]); });
      ops.push_back([f, at, one] { return (*MathUtils::multiply(*f, *one))(at[2]); });
      return ops;
    }, "piecewise");
  }
}

VP_SCENARIO(grids, 1) {
  size_t nx = rng.in(2, 5), ny = rng.in(2, 5);
  auto   x = rising(rng, nx), y = rising(rng, ny), v = numbers(rng, nx * ny, 0.1, 2);
  auto   at = numbers(rng, 4, -6, 8);
  share(rng, [&] {
    NdArray::NdArray<double> nd({ny, nx}, v);
    auto f  = std::make_shared<const MathUtils::InterpN<double, double>>(std::make_tuple(x, y), nd, true);
    auto sp = std::make_shared<const MathUtils::NdSampler<double, double>>(std::make_tuple(x, y), nd);
    auto ar = std::make_shared<const NdArray::NdArray<double>>(nd);
    std::vector<Op> ops;
    for (double a : at) {
      ops.push_back([f, a, at] { return (*f)(a, at[0]); });
      ops.push_back([f, a, at] { return (*f)(at[1], a); });
    }
    ops.push_back([sp] {
      std::mt19937 g(7);
      double       s = 0;
      for (auto& t : sp->draw(5, g)) {
        s += std::get<0>(t) * std::get<1>(t);
      }
      return s;
    });
    ops.push_back([ar, ny, nx] {
      double s = 0;
      for (size_t j = 0; j < ny; ++j) {
        for (size_t i = 0; i < nx; ++i) {
          s += ar->at(j, i) * double(i + 1);
        }
        const auto part = ar->slice(j);
        for (auto it = part.begin(); it != part.end(); ++it) {
          s += *it;
        }
      }
      return s;
    });
    ops.push_back([ar] {
      auto c = ar->copy();
      return double(c == *ar) + double(ar->size()) + double(ar->shape().size());
    });
    typedef GridContainer::GridContainer<std::vector<double>, double, double> G;
    auto g  = std::make_shared<G>(GridContainer::GridAxis<double>("x", x), GridContainer::GridAxis<double>("y", y));
    size_t k = 0;
    for (auto& c : *g) {
      c = v[k++];
    }
    std::shared_ptr<const G> cg = g;
    ops.push_back([cg, nx, ny] { return (*cg)(nx - 1, ny - 1) + cg->at(0, ny - 1); });
    ops.push_back([cg] {
      double s = 0;
      for (auto it = cg->begin(); it != cg->end(); ++it) {
        s += *it * it.template axisValue<0>() * it.template axisValue<1>();
      }
      return s;
    });
    ops.push_back([cg] {
      double     s = 0;
      const auto& t = cg->fixAxisByIndex<0>(1);
      for (auto& c : t) {
        s += c;
      }
      return s;
    });
    return ops;
  }, "grid");
}

VP_SCENARIO(names, 2) {
  std::vector<std::string> texts;
  for (size_t n = rng.in(2, 6), i = 0; i < n; ++i) {
    texts.push_back(rng.pick(std::vector<std::string>{"a/b/", "a/", "", "c/d/e/"}) + "n" + std::to_string(i));
  }
  share(rng, [&] {
    auto names = std::make_shared<std::vector<XYDataset::QualifiedName>>();
    for (auto& t : texts) {
      names->push_back(XYDataset::QualifiedName(t));
    }
    std::shared_ptr<const std::vector<XYDataset::QualifiedName>> all = names;
    std::vector<Op>                                              ops;
    for (size_t i = 0; i < texts.size(); ++i) {
      ops.push_back([all, i] { return double((*all)[i].hash() % 100000); });
      ops.push_back([all, i] { return double(std::hash<XYDataset::QualifiedName>()((*all)[i]) % 100000); });
      ops.push_back([all, i] { return double((*all)[i] == (*all)[0]) + 2 * double((*all)[i] < (*all)[0]) + 4 * double((*all)[i].belongsInGroup((*all)[0])); });
      ops.push_back([all, i] {
        XYDataset::QualifiedName copy((*all)[i]);
        return double(copy.qualifiedName().size() + copy.groups().size() + copy.hash() % 1000);
      });
    }
    ops.push_back([all] {
      // Photometry and the like look names up in sets of them
      std::unordered_set<XYDataset::QualifiedName> s(all->begin(), all->end());
      return double(s.size());
    });
    return ops;
  }, "names");
}

struct Pt {
  double x, y;
};
namespace KdTree {
template <>
struct KdTreeTraits<Pt> {
  static double getCoord(const Pt& p, size_t i) {
    return i == 0 ? p.x : p.y;
  }
};
}  // namespace KdTree

VP_SCENARIO(searches, 1) {
  std::vector<Pt> pts;
  for (size_t n = rng.in(1, 300), i = 0; i < n; ++i) {
    pts.push_back({rng.real(-5, 5), rng.real(-5, 5)});
  }
  auto data = numbers(rng, 50);
  auto at   = numbers(rng, 4);
  share(rng, [&] {
    typedef KdTree::KdTree<Pt> Tree;
    auto            t = std::make_shared<const Tree>(pts);
    std::vector<Op> ops;
    for (double a : at) {
      ops.push_back([t, a] {
        typename Tree::Coord c;
        c.coord[0] = a;
        c.coord[1] = -a;
        double s   = 0;
        for (auto& p : t->findPointsWithinRadius(c, 2)) {
          s += p.x + 100;
        }
        return s;
      });
    }
    auto h = std::make_shared<const Histogram::Histogram<double>>(data.begin(), data.end(), Histogram::Binning::EdgeVector<double>{std::vector<double>{-3, -1, 0, 2, 3}});
    ops.push_back([h] {
      auto m = h->getStats();
      return std::get<0>(m) + std::get<1>(m) + std::get<2>(m);
    });
    ops.push_back([h] {
      auto e = h->getEdges();
      auto b = h->getBins();
      return e[0] + 3 * e[2] + 9 * b[1] + double(b.size());
    });
    auto axis = std::make_shared<const GridContainer::GridAxis<double>>("a", std::vector<double>{-3, -1, 0.5, 2});
    ops.push_back([axis, at] { return double(axis->size()) + (*axis)[1] + double(axis->name().size()) + double(*axis == *axis); });
    ops.push_back([h] {
      auto c = h->getCounts();
      return double(c[0] + 7 * c[1] + 50 * c[3]);
    });
    return ops;
  }, "searches");
}

VP_SCENARIO(numerics, 1) {
  auto   x  = rising(rng, 8), y = numbers(rng, 8, 0.1, 3);
  double om = rng.real(0.1, 1), z = rng.real(0.1, 3);
  share(rng, [&] {
    std::vector<Op> ops;
    auto            scheme = std::make_shared<const MathUtils::AdaptativeIntegration<MathUtils::SimpsonsRule>>(1e-6, MathUtils::SimpsonsRule::minimal_order);
    auto            f      = std::make_shared<const Polynomial>(std::vector<double>{1, 2, 3, 4, 5});
    ops.push_back([=] { return MathUtils::AdaptativeIntegration<MathUtils::SimpsonsRule>(*scheme)(*f, 0, z); });
    auto cosmo = std::make_shared<const PhysicsUtils::CosmologicalDistances>();
    auto par   = std::make_shared<const PhysicsUtils::CosmologicalParameters>(om, 0.7, 70.);
    ops.push_back([=] { return cosmo->distanceModulus(z, *par); });
    ops.push_back([=] { return cosmo->dimensionlessComovingVolumeElement(z, *par); });
    auto cum = std::make_shared<const MathUtils::Cumulative>(MathUtils::Cumulative::fromPdf(x, y));
    ops.push_back([=] { return cum->findValue(0.37); });
    ops.push_back([=] { return cum->findMinInterval(0.2).first; });
    ops.push_back([=] { return cum->findCenteredInterval(0.2).second; });
    ops.push_back([=] {
      auto xs = x, ys = y;
      auto m  = MathUtils::extractNHighestModes(xs, ys, 0.8, 2);
      return m[0].getModeArea() + m[0].getMeanPosition();
    });
    auto inv = std::make_shared<const MathUtils::InverseCumulative<double>>(x, std::vector<double>{0, 0.1, 0.2, 0.3, 0.5, 0.7, 0.9, 1});
    ops.push_back([=] { return (*inv)(0.37) + (*inv)(0.9); });
    return ops;
  }, "numerics");
}

VP_SCENARIO(catalogs, 1) {
  size_t n = rng.in(1, 10);
  share(rng, [&] {
    std::vector<Op> ops;
    // a table
    auto info = std::make_shared<Table::ColumnInfo>(std::vector<Table::ColumnInfo::info_type>{{"id", typeid(int64_t)}, {"v", typeid(double)}, {"t", typeid(std::string)}});
    std::vector<Table::Row> rows;
    for (size_t i = 0; i < n; ++i) {
      rows.push_back(Table::Row({int64_t(i), i * 1.5, std::string("1.25")}, info));
    }
    auto t = std::make_shared<const Table::Table>(rows);
    ops.push_back([t] {
      double s = 0;
      for (auto& r : *t) {
        s += boost::apply_visitor(Table::CastVisitor<double>{}, r["v"]) + boost::apply_visitor(Table::CastVisitor<double>{}, r["t"]) +
             double(boost::apply_visitor(Table::CastVisitor<int64_t>{}, r[0]));
      }
      return s;
    });
    ops.push_back([t] { return double(*t->getColumnInfo()->find("t")) + double(t->getColumnInfo()->size()); });
    ops.push_back([t] {
      Table::Table copy(*t);
      return double(copy.size());
    });
    // a catalog
    auto names = std::make_shared<std::vector<std::string>>(std::vector<std::string>{"a/b", "c"});
    std::vector<SourceCatalog::Source> sources;
    for (size_t i = 0; i < n; ++i) {
      std::vector<SourceCatalog::FluxErrorPair> fe{{1. * i, 0.1}, {2. * i, 0.2}};
      sources.push_back(SourceCatalog::Source(int64_t(i), {std::make_shared<SourceCatalog::Photometry>(names, fe), std::make_shared<SourceCatalog::SpectroscopicRedshift>(0.1 * i, 0.)}));
    }
    auto c = std::make_shared<const SourceCatalog::Catalog>(sources);
    for (size_t k = 0; k < n; ++k) {
      ops.push_back([c, k] {
        auto s  = c->find(int64_t(k));
        auto ph = s->getAttribute<SourceCatalog::Photometry>();
        return ph->find("c")->flux + s->getAttribute<SourceCatalog::SpectroscopicRedshift>()->getValue();
      });
    }
    ops.push_back([c] {
      double s = 0;
      for (auto& src : *c) {
        for (auto& fe : *src.getAttribute<SourceCatalog::Photometry>()) {
          s += fe.flux;
        }
      }
      return s + double(c->find(std::string("none")) == nullptr);
    });
    return ops;
  }, "catalogs");
}

VP_SCENARIO(maps, 1) {
  auto w = numbers(rng, 3 * 4 * 2), at = numbers(rng, 6);
  share(rng, [&] {
    auto   som = std::make_shared<SOM::SOM<2>>(3, 4);
    size_t k   = 0;
    for (auto& c : *som) {
      c = {w[k], w[k + 1]};
      k += 2;
    }
    std::shared_ptr<const SOM::SOM<2>> s = som;
    std::vector<Op>                    ops;
    for (size_t i = 0; i + 1 < at.size(); ++i) {
      ops.push_back([s, at, i] {
        auto b = s->findBMU({at[i], at[i + 1]});
        return std::get<2>(b) + double(std::get<0>(b) * 100 + std::get<1>(b));
      });
      ops.push_back([s, at, i] { return std::get<2>(s->findBMU({at[i], at[i + 1]}, {0.5, 2})); });
    }
    ops.push_back([s] {
      auto   u = SOM::computeUMatrix(*s, SOM::UMatrixType::MEAN);
      double r = 0;
      for (auto& c : u) {
        r += c;
      }
      return r;
    });
    ops.push_back([s, at] {
      auto   g = SOM::SOMProjector::project<int>(*s, at.begin(), at.end(), [](double v) { return std::array<double, 2>{{v, -v}}; }, [](int& c, double) { ++c; });
      double r = 0, f = 1;
      for (auto& c : g) {
        r += c * f;
        f += 1;
      }
      return r;
    });
    return ops;
  }, "maps");
}
VP_MAIN()
