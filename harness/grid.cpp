// C10: GridContainer against a model (cells keyed by their indices); C11: serialization of grids
#include "vp.h"
#include "ElementsKernel/Exception.h"
#include "GridContainer/GridContainer.h"
#ifdef VP_C10
#include "GridContainer/GridContainerToTable.h"
#endif
#ifdef VP_C11
#include "GridContainer/serialize.h"
#include "GridContainer/serialization/tuple.h"
#include "XYDataset/QualifiedName.h"
#include "XYDataset/serialize.h"
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <boost/serialization/string.hpp>
#include <boost/serialization/vector.hpp>
#endif
#include <algorithm>
#include <numeric>
#include <set>
#include <utility>
using namespace Euclid::GridContainer;
typedef std::vector<size_t> Idx;
namespace {
template <typename T>
struct Knot;
template <>
struct Knot<double> {
  static double make(vp::Rng& r, size_t i) {
    return double(i) * 1.5 - 3 + r.unit();
  }
  static double foreign(const double& k, int how) {  // a value next to a knot, and none
    return how == 0 ? std::nextafter(k, 1e9) : how == 1 ? std::nextafter(k, -1e9) : how == 2 ? k + 1000 : k - 1000;
  }
};
template <>
struct Knot<int> {
  static int make(vp::Rng& r, size_t i) {
    return int(i) * 7 - 10 + int(r.in(0, 6));
  }
  static int foreign(const int& k, int how) {
    return how < 2 ? -1000 + k : 1000 + k;
  }
};
template <>
struct Knot<std::string> {
  static std::string make(vp::Rng& r, size_t i) {
    std::string s(1, char('a' + i / 26));
    s += char('a' + i % 26);
    int n = r.in(0, 3);
    for (int k = 0; k < n; ++k) {
      s += "xyz 0,:"[r.below(7)];
    }
    return s;
  }
  static std::string foreign(const std::string& k, int how) {
    return how == 0 ? k + "#" : how == 1 ? k.substr(0, 1) : how == 2 ? std::string() : "~" + k;
  }
};

template <typename T>
GridAxis<T> makeAxis(vp::Rng& r, const std::string& name, size_t size) {
  std::vector<T> v;
  for (size_t i = 0; i < size; ++i) {
    v.push_back(Knot<T>::make(r, i));
  }
  return {name, v};
}
bool next(Idx& c, const Idx& s) {
  for (size_t i = 0; i < s.size(); ++i) {
    if (++c[i] < s[i]) {
      return true;
    }
    c[i] = 0;
  }
  return false;
}
size_t prod(const Idx& s) {
  return std::accumulate(s.begin(), s.end(), size_t(1), std::multiplies<size_t>());
}

// operations chosen at run time
template <typename... A>
struct Ops {
  typedef GridContainer<std::vector<int>, A...> Grid;
  static constexpr size_t                       N = sizeof...(A);
  typedef std::index_sequence_for<A...>         Seq;

  template <size_t... I>
  static std::unique_ptr<Grid> makeImpl(vp::Rng& r, const Idx& dims, std::index_sequence<I...>) {
    std::tuple<GridAxis<A>...> t{makeAxis<A>(r, "axis" + std::to_string(I), dims[I])...};
    if (r.chance(0.5)) {
      return std::unique_ptr<Grid>(new Grid(t));
    }
    return std::unique_ptr<Grid>(new Grid(std::get<I>(t)...));
  }
  template <size_t... I>
  static int& atImpl(Grid& g, const Idx& i, std::index_sequence<I...>) {
    return g.at(i[I]...);
  }
  template <size_t... I>
  static const int& catImpl(const Grid& g, const Idx& i, std::index_sequence<I...>) {
    return g.at(i[I]...);
  }
  template <size_t... I>
  static int& callImpl(Grid& g, const Idx& i, std::index_sequence<I...>) {
    return g(i[I]...);
  }
  template <size_t... I>
  static const int& ccallImpl(const Grid& g, const Idx& i, std::index_sequence<I...>) {
    return g(i[I]...);
  }
  template <size_t... I>
  static Idx sizesImpl(const Grid& g, std::index_sequence<I...>) {
    return {g.template getAxis<I>().size()...};
  }
  template <typename It, size_t... I>
  static Idx indicesImpl(const It& i, std::index_sequence<I...>) {
    return {i.template axisIndex<I>()...};
  }
  static std::unique_ptr<Grid> make(vp::Rng& r, const Idx& d) {
    return makeImpl(r, d, Seq{});
  }
  static int& at(Grid& g, const Idx& i) {
    return atImpl(g, i, Seq{});
  }
  static const int& cat(const Grid& g, const Idx& i) {
    return catImpl(g, i, Seq{});
  }
  static int& call(Grid& g, const Idx& i) {
    return callImpl(g, i, Seq{});
  }
  static const int& ccall(const Grid& g, const Idx& i) {
    return ccallImpl(g, i, Seq{});
  }
  static Idx sizes(const Grid& g) {
    return sizesImpl(g, Seq{});
  }
  template <typename It>
  static Idx indices(const It& i) {
    return indicesImpl(i, Seq{});
  }
  // per axis, chosen at run time
  template <typename F, size_t... I>
  static void eachImpl(F&& f, std::index_sequence<I...>) {
    int unused[] = {(f(std::integral_constant<int, int(I)>{}), 0)...};
    (void)unused;
  }
  template <typename F>
  static void each(F&& f) {
    eachImpl(f, Seq{});
  }
  template <typename F>
  static void only(size_t axis, F&& f) {
    each([&](auto I) {
      if (size_t(I.value) == axis) {
        f(I);
      }
    });
  }
};
}  // namespace

#ifdef VP_C10
namespace {
typedef std::map<size_t, size_t> Fixed;

template <typename... A>
struct World {
  typedef Ops<A...>           O;
  typedef typename O::Grid    Grid;
  Idx                         dims;
  std::tuple<std::vector<A>...> knots;
  std::map<Idx, int>          cells;  // by indices in the original grid
  std::vector<Idx>            order;  // the order of iteration of the original grid

  static Idx whole(const Idx& i, const Fixed& f) {
    Idx w = i;
    for (auto& p : f) {
      w[p.first] += p.second;
    }
    return w;
  }

  // everything that can be observed in a grid, which is the original one or a slice of it
  void compare(Grid& g, const Fixed& fixed, vp::Rng& r, const std::string& what) {
    const Grid& cg = g;
    Idx         d  = dims;
    for (auto& p : fixed) {
      d[p.first] = 1;
    }
    VP_CHECK(Grid::axisNumber() == sizeof...(A), "wrong-axes", "axisNumber");
    VP_CHECK(O::sizes(g) == d, "wrong-axes", what << ": axes of sizes " << vp::show(O::sizes(g)) << " instead of " << vp::show(d));
    O::each([&](auto I) {
      auto& ax  = cg.template getAxis<I.value>();
      auto& exp = std::get<I.value>(knots);
      VP_CHECK(ax.name() == "axis" + std::to_string(I.value), "wrong-axes", what << ": name " << ax.name());
      VP_CHECK(std::get<I.value>(cg.getAxesTuple()) == ax, "wrong-axes", what << ": getAxesTuple");
      auto f = fixed.find(I.value);
      for (size_t k = 0; k < ax.size(); ++k) {
        VP_CHECK(ax[k] == exp[f == fixed.end() ? k : f->second], "wrong-axes", what << ": knot " << k << " of axis " << I.value);
      }
    });
    VP_CHECK(g.size() == prod(d), "wrong-size", what << ": size " << g.size() << " instead of " << prod(d));
    // by indices
    if (prod(d)) {
      Idx i(d.size(), 0);
      do {
        int v = cells[whole(i, fixed)];
        VP_CHECK(O::cat(cg, i) == v && O::ccall(cg, i) == v, "wrong-cell", what << " " << vp::show(i) << " is " << O::cat(cg, i) << " instead of " << v);
        VP_CHECK(&O::at(g, i) == &O::cat(cg, i) && &O::call(g, i) == &O::at(g, i), "wrong-cell", what << ": accessors disagree");
      } while (next(i, d));
      vp::cover("cells_compared", prod(d));
    }
    for (size_t a = 0; a < d.size(); ++a) {
      Idx i(d.size());
      for (size_t b = 0; b < d.size(); ++b) {
        i[b] = r.below(d[b]);
      }
      i[a] = d[a] + (r.chance(0.5) ? 0 : r.below(5));
      VP_THROWS(O::at(g, i), "unchecked-index", what << " " << vp::show(i) << " in " << vp::show(d));
      VP_THROWS(O::cat(cg, i), "unchecked-index", what << " " << vp::show(i) << " in " << vp::show(d));
      vp::cover("bad_indices", 2);
    }
    // by iteration
    std::set<Idx>    seen;
    std::vector<int> values;
    for (auto it = g.begin(); it != g.end(); ++it) {
      Idx w = O::indices(it);
      checkPosition(it, w, what);
      for (auto& p : fixed) {
        VP_CHECK(w[p.first] == p.second, "wrong-iteration", what << ": outside the slice, " << vp::show(w));
      }
      VP_CHECK(seen.insert(w).second, "wrong-iteration", what << ": cell visited twice, " << vp::show(w));
      VP_CHECK(seen.size() <= prod(d), "wrong-iteration", what << ": too many cells");
      values.push_back(*it);
    }
    VP_CHECK(seen.size() == prod(d), "wrong-iteration", what << ": " << seen.size() << " cells iterated instead of " << prod(d));
    vp::cover("cells_iterated", seen.size());
    VP_CHECK(std::equal(values.begin(), values.end(), cg.begin()), "wrong-iteration", what << ": const iteration differs");
    size_t n = 0;
    for (auto it = g.cbegin(); it != g.cend(); ++it) {
      VP_CHECK(n < values.size() && *it == values[n], "wrong-iteration", what << ": cbegin");
      ++n;
    }
    n = 0;
    for (auto& v : cg) {
      VP_CHECK(n < values.size() && v == values[n], "wrong-iteration", what << ": range");
      ++n;
    }
    VP_CHECK(n == values.size(), "wrong-iteration", what << ": const count");
    infimum(g, d, fixed, r, what);
  }

  template <typename It>
  void checkPosition(It& it, const Idx& w, const std::string& what) {
    for (size_t a = 0; a < w.size(); ++a) {
      VP_CHECK(w[a] < dims[a], "wrong-iteration", what << ": position " << vp::show(w));
    }
    VP_CHECK(*it == cells[w], "wrong-iteration", what << ": cell " << vp::show(w) << " is " << *it << " instead of " << cells[w]);
    VP_CHECK(it.operator->() == &*it, "wrong-iteration", "operator->");
    O::each([&](auto I) {
      VP_CHECK(it.template axisValue<I.value>() == std::get<I.value>(knots)[w[I.value]], "wrong-axis-value", what << ": axis " << I.value);
    });
  }

  template <size_t... I>
  Idx infimumOf(Grid& g, const std::tuple<A...>& c, bool tuple, std::index_sequence<I...>) {
    auto t = tuple ? g.infimum(c) : g.infimum(std::get<I>(c)...);
    return {std::get<I>(t)...};
  }
  void infimum(Grid& g, const Idx& d, const Fixed& fixed, vp::Rng& r, const std::string& what) {
    if (!prod(d)) {
      return;
    }
    for (int k = 0; k < 3; ++k) {
      std::tuple<A...> c;
      Idx              e(d.size());
      O::each([&](auto I) {
        auto& all = std::get<I.value>(knots);
        auto& x   = std::get<I.value>(c);
        x         = r.chance(0.5) ? r.pick(all) : Knot<typename std::decay<decltype(x)>::type>::make(r, r.below(all.size() + 2));
        auto ax   = g.template getAxis<I.value>();
        for (size_t q = 0; q < ax.size(); ++q) {
          if (!(x < ax[q])) {
            e[I.value] = q;
          }
        }
      });
      auto got = infimumOf(g, c, r.chance(0.5), typename O::Seq{});
      VP_CHECK(got == e, "wrong-infimum", what << ": " << vp::show(got) << " instead of " << vp::show(e));
      vp::cover("infima");
    }
  }

  // iterators restricted on the way
  void iterators(Grid& g, const Fixed& fixed, vp::Rng& r, const std::string& what) {
    std::vector<Idx> all;
    for (auto& w : order) {
      bool in = true;
      for (auto& p : fixed) {
        in = in && w[p.first] == p.second;
      }
      if (in) {
        all.push_back(w);
      }
    }
    auto   it  = g.begin();
    size_t pos = 0, n = all.size();
    Fixed  f   = fixed;
    // current = index into `all` of the expected position
    auto settle = [&] {
      while (pos < n) {
        bool in = true;
        for (auto& p : f) {
          in = in && all[pos][p.first] == p.second;
        }
        if (in) {
          return;
        }
        ++pos;
      }
    };
    std::ostringstream hist;
    int                steps = r.in(1, 6);
    for (int s = 0; s < steps; ++s) {
      int adv = r.chance(0.3) ? 0 : r.in(1, 5);
      for (int k = 0; k < adv && pos < n; ++k) {
        ++it;
        ++pos;
        settle();
        hist << "+";
      }
      if (!dims.empty() && prod(dims)) {
        size_t a   = r.below(dims.size());
        size_t x   = r.below(dims[a]);
        bool   val = r.chance(0.4);
        auto   old = f.find(a);
        bool   bad = old != f.end() && old->second != x;
        hist << "fix" << a << "=" << x << (val ? "v " : " ");
        bool thrown = false;
        O::only(a, [&](auto I) {
          try {
            auto& ret = val ? it.template fixAxisByValue<I.value>(std::get<I.value>(knots)[x]) : it.template fixAxisByIndex<I.value>(x);
            VP_CHECK(&ret == &it, "wrong-result", "fixAxis does not return the iterator");
          } catch (const Elements::Exception&) {
            thrown = true;
          }
        });
        VP_CHECK(thrown == bad, "wrong-fix", what << ": " << hist.str() << (thrown ? " refused" : " accepted"));
        if (!bad) {
          f[a] = x;
          settle();
          vp::cover("iterator_fixes");
        }
        O::only(a, [&](auto I) {
          VP_THROWS(it.template fixAxisByIndex<I.value>(dims[a] + r.below(3)), "wrong-fix", what << ": index beyond axis accepted");
          auto& kv = std::get<I.value>(knots);
          auto  fv = Knot<typename std::decay<decltype(kv[0])>::type>::foreign(kv[x], r.below(4));
          VP_THROWS(it.template fixAxisByValue<I.value>(fv), "wrong-fix", what << ": value " << fv << " which is no knot of axis " << a << " accepted");
          vp::cover("unknown_values");
        });
      }
      bool end = it == g.end();
      VP_CHECK(end == (pos == n), "wrong-iteration", what << " " << vp::show(dims) << ": " << hist.str() << " is" << (end ? " " : " not ") << "at the end");
      if (!end) {
        Idx w = O::indices(it);
        VP_CHECK(w == all[pos], "wrong-iteration", what << " " << vp::show(dims) << ": " << hist.str() << " at " << vp::show(w) << " instead of " << vp::show(all[pos]));
        checkPosition(it, w, what);
      }
    }
    // the rest, with a copy or with another iterator that takes over
    auto copy = it;
    if (r.chance(0.5) && !dims.empty() && prod(dims)) {
      auto taken = g.begin();
      for (size_t k = r.below(3); k > 0; --k) {
        size_t a = r.below(dims.size());
        if (!fixed.count(a)) {
          O::only(a, [&](auto I) {
            try {
              taken.template fixAxisByIndex<I.value>(r.below(dims[a]));
            } catch (const Elements::Exception&) {
            }
          });
        }
      }
      auto& ret = taken = it;
      VP_CHECK(&ret == &taken && taken == it, "wrong-iteration", what << ": assigned iterator");
      while (pos < n) {
        VP_CHECK(taken != g.end() && O::indices(taken) == all[pos], "wrong-iteration", what << " " << vp::show(dims) << ": " << hist.str() << " and on with an assigned iterator");
        ++taken;
        ++pos;
        settle();
      }
      VP_CHECK(taken == g.end(), "wrong-iteration", what << ": " << hist.str() << " assigned, does not end");
      copy = taken;
      vp::cover("assigned");
    }
    while (pos < n) {
      VP_CHECK(copy != g.end() && O::indices(copy) == all[pos], "wrong-iteration", what << " " << vp::show(dims) << ": " << hist.str() << " and on");
      ++copy;
      ++pos;
      settle();
    }
    VP_CHECK(copy == g.end(), "wrong-iteration", what << ": " << hist.str() << " does not end");
    // all axes at once
    if (n) {
      auto from = g.begin();
      for (size_t k = r.below(n); k > 0; --k) {
        ++from;
      }
      auto to = g.begin();
      to.fixAllAxes(from);
      VP_CHECK(to == from && O::indices(to) == O::indices(from), "wrong-iteration", what << ": fixAllAxes");
      ++to;
      VP_CHECK(to == g.end(), "wrong-iteration", what << ": more than one cell after fixAllAxes");
    }
    vp::distinct(vp::fnv(what + vp::show(dims) + hist.str()));
  }

  void run(vp::Rng& r) {
    dims.resize(sizeof...(A));
    for (auto& x : dims) {
      x = r.chance(0.02) ? 0 : r.in(1, 5);
    }
    if (r.chance(0.1)) {
      dims[r.below(dims.size())] = r.in(6, 20);
    }
    auto g = O::make(r, dims);
    O::each([&](auto I) {
      auto& ax                = g->template getAxis<I.value>();
      std::get<I.value>(knots) = {ax.begin(), ax.end()};
    });
    if (prod(dims)) {
      Idx i(dims.size(), 0);
      int v = r.in(0, 1000);
      do {
        VP_CHECK(O::at(*g, i) == 0, "wrong-cell", "cells are not initialised");
        cells[i] = v += 1 + r.below(3);
        if (r.chance(0.5)) {
          O::at(*g, i) = v;
        } else {
          O::call(*g, i) = v;
        }
      } while (next(i, dims));
    }
    for (auto it = g->begin(); it != g->end(); ++it) {
      order.push_back(O::indices(it));
    }
    compare(*g, {}, r, "grid");
    iterators(*g, {}, r, "grid");
    if (r.chance(0.2)) {  // moved
      std::unique_ptr<Grid> m(new Grid(std::move(*g)));
      g = std::move(m);
      compare(*g, {}, r, "moved grid");
    }
    // slices of slices
    struct S {
      std::unique_ptr<Grid> g;
      Fixed                 f;
      std::string           name;
    };
    std::vector<S> all;
    all.push_back(S{std::move(g), {}, "grid"});
    int ops = r.in(1, 5);
    for (int k = 0; k < ops; ++k) {
      size_t q = r.chance(0.6) ? all.size() - 1 : r.below(all.size());
      size_t a = r.below(dims.size());
      bool   val = r.chance(0.4), cst = r.chance(0.3);
      if (!dims[a]) {
        continue;
      }
      size_t x      = r.below(dims[a]);
      bool   bad    = all[q].f.count(a), thrown = false;
      Fixed  f      = all[q].f;
      f[a]          = x;
      auto name     = all[q].name + "/" + std::to_string(a) + "=" + std::to_string(x);
      std::unique_ptr<Grid> ng;
      O::only(a, [&](auto I) {
        auto& v = std::get<I.value>(knots)[x];
        try {
          if (cst) {
            const Grid& src = *all[q].g;
            const Grid& s   = val ? src.template fixAxisByValue<I.value>(v) : src.template fixAxisByIndex<I.value>(x);
            this->compare(const_cast<Grid&>(s), f, r, name + " const");
          } else {
            ng.reset(new Grid(val ? all[q].g->template fixAxisByValue<I.value>(v) : all[q].g->template fixAxisByIndex<I.value>(x)));
          }
        } catch (const Elements::Exception&) {
          thrown = true;
        }
        VP_THROWS(all[q].g->template fixAxisByIndex<I.value>(dims[a] + r.below(3)), "wrong-fix", name << ": index beyond the axis accepted");
        auto fv = Knot<typename std::decay<decltype(v)>::type>::foreign(v, r.below(4));
        VP_THROWS(all[q].g->template fixAxisByValue<I.value>(fv), "wrong-fix", name << ": value " << fv << " which is no knot accepted");
        vp::cover("unknown_values");
      });
      VP_CHECK(thrown == bad, "wrong-fix", name << (thrown ? " refused" : " accepted"));
      if (thrown || cst) {
        vp::cover(thrown ? "refused_slices" : "const_slices");
        continue;
      }
      vp::cover(f.size() > 1 ? "nested_slices" : "slices");
      compare(*ng, f, r, name);
      iterators(*ng, f, r, name);
      // written through the slice
      if (prod(dims)) {
        Idx i(dims.size());
        for (size_t b = 0; b < dims.size(); ++b) {
          i[b] = f.count(b) ? 0 : r.below(dims[b]);
        }
        int v               = r.in(-1000, 0);
        O::at(*ng, i)       = v;
        cells[whole(i, f)] = v;
      }
      all.push_back(S{std::move(ng), f, name});
      if (r.chance(0.15) && all.size() > 2) {
        all.erase(all.begin());  // slices outlive the grid
        vp::cover("slices_outliving");
      }
      for (auto& s : all) {
        compare(*s.g, s.f, r, s.name + " after " + name);
      }
    }
    if (vp::wantSample()) {
      vp::sample(vp::show(dims) + " " + all.back().name);
    }
  }
};

template <typename T>
std::string text(const T& v) {
  std::ostringstream s;
  s << v;
  return s.str();
}
}  // namespace
VP_SCENARIO(oneAxis, 1) {
  World<int>().run(rng);
}
VP_SCENARIO(twoAxes, 2) {
  World<double, std::string>().run(rng);
}
VP_SCENARIO(threeAxes, 3) {
  World<double, int, std::string>().run(rng);
}
VP_SCENARIO(fourAxes, 2) {
  World<int, std::string, double, int>().run(rng);
}
namespace {
// A cell of two values that a user's trait writes as two columns, the name of one of them chosen by the cell.
struct Measured {
  double      value = 0;
  int64_t     flag  = 0;
  std::string label;
};
}  // namespace
namespace Euclid {
namespace GridContainer {
template <>
struct GridCellToTable<Measured> {
  static void addColumnDescriptions(const Measured& c, std::vector<Table::ColumnDescription>& columns) {
    columns.emplace_back("measured_" + c.label, typeid(double));
    columns.emplace_back("flag", typeid(int64_t));
  }
  static void addCells(const Measured& c, std::vector<Table::Row::cell_type>& row) {
    row.emplace_back(c.value);
    row.emplace_back(c.flag);
  }
};
}  // namespace GridContainer
}  // namespace Euclid
namespace {
std::string cellText(const Euclid::Table::Row::cell_type& c) {
  std::ostringstream o;
  o.precision(17);
  o << c.which() << ":" << c;
  return o.str();
}
template <typename C>
struct CellKind {
  static C make(vp::Rng& rng) {
    return C(rng.in(-100000, 100000)) / C(std::is_floating_point<C>::value ? 7 : 1);
  }
  static std::vector<std::string> columns(const C&) {
    return {"value"};
  }
  static std::vector<Euclid::Table::Row::cell_type> cells(const C& c) {
    return {c};
  }
};
template <>
struct CellKind<Measured> {
  static Measured make(vp::Rng& rng) {
    Measured m;
    m.value = rng.in(-100000, 100000) / 7.;
    m.flag  = rng.in(-5, 5) * 10000000000;
    m.label = std::string(1, char('a' + rng.below(3)));
    return m;
  }
  static std::vector<std::string> columns(const Measured& m) {
    return {"measured_" + m.label, "flag"};
  }
  static std::vector<Euclid::Table::Row::cell_type> cells(const Measured& m) {
    return {m.value, m.flag};
  }
};
std::vector<Euclid::XYDataset::QualifiedName> someNames(vp::Rng& rng, size_t n) {
  std::vector<Euclid::XYDataset::QualifiedName> v;
  for (size_t i = 0; i < n; ++i) {
    std::vector<std::string> groups;
    for (size_t g = rng.below(4); g > 0; --g) {
      groups.push_back(std::string(1, char('a' + rng.below(3))) + (rng.chance(0.2) ? " x" : ""));
    }
    v.emplace_back(groups, std::string(1, char('p' + rng.below(3))));  // names repeat; the groups tell them apart
  }
  return v;
}
// Every cell type, name axes, and two more axes: each row has the knots, in the order of the axes, and its own cell.
template <typename C>
void namesTable(vp::Rng& rng) {
  typedef Euclid::XYDataset::QualifiedName                                      Q;
  typedef GridContainer<std::vector<C>, Q, double, Q, int64_t, bool>            Grid;
  Idx dims(5);
  for (auto& d : dims) {
    d = rng.in(1, 3);
  }
  auto names = someNames(rng, dims[0]), others = someNames(rng, dims[2]);
  std::vector<double>  xs;
  std::vector<int64_t> ns;
  std::vector<bool>    bs;
  for (size_t i = 0; i < dims[1]; ++i) {
    xs.push_back(Knot<double>::make(rng, i));
  }
  for (size_t i = 0; i < dims[3]; ++i) {
    ns.push_back(int64_t(i) * 10000000000 - 5);
  }
  dims[4] = rng.in(1, 2);
  for (size_t i = 0; i < dims[4]; ++i) {
    bs.push_back(i);
  }
  Grid           g(GridAxis<Q>("SED name", names), GridAxis<double>("x", xs), GridAxis<Q>("curve", others), GridAxis<int64_t>("n", ns), GridAxis<bool>("b", bs));
  std::vector<C> content;
  for (auto& c : g) {
    content.push_back(CellKind<C>::make(rng));
    c = content.back();
  }
  auto                     table = gridContainerToTable(g);
  auto                     info  = table.getColumnInfo();
  std::vector<std::string> columns{"SED_name", "x", "curve", "n", "b"};
  for (auto& c : CellKind<C>::columns(content[0])) {
    columns.push_back(c);
  }
  std::vector<std::string> got, want;
  VP_CHECK(info->size() == columns.size(), "wrong-table", info->size() << " columns");
  for (auto& c : columns) {
    VP_CHECK(info->find(c), "wrong-table", "no column " << c);
  }
  for (auto& row : table) {
    std::string r;
    for (auto& c : columns) {
      VP_CHECK(info->getDescription(c).type == row[c].type(), "wrong-table", "column " << c << " has a cell of another type");
      r += cellText(row[c]) + "|";
    }
    got.push_back(r);
  }
  Idx    at(5);
  size_t k = 0;
  do {
    std::vector<Euclid::Table::Row::cell_type> cells{names[at[0]].qualifiedName(), xs[at[1]], others[at[2]].qualifiedName(), ns[at[3]], bool(bs[at[4]])};
    for (auto& c : CellKind<C>::cells(content[k])) {
      cells.push_back(c);
    }
    std::string r;
    for (auto& c : cells) {
      r += cellText(c) + "|";
    }
    want.push_back(r);
    ++k;
  } while (next(at, dims));
  std::sort(got.begin(), got.end());
  std::sort(want.begin(), want.end());
  for (size_t i = 0; i < std::min(got.size(), want.size()); ++i) {
    VP_CHECK(got[i] == want[i], "wrong-table", "row " << got[i] << " instead of " << want[i]);
  }
  VP_CHECK(got.size() == want.size(), "wrong-table", got.size() << " rows for " << want.size() << " cells");
  vp::cover("named_tables");
}
}  // namespace
VP_SCENARIO(namesToTable, 1) {
  switch (rng.below(5)) {
  case 0:
    return namesTable<int32_t>(rng);
  case 1:
    return namesTable<int64_t>(rng);
  case 2:
    return namesTable<float>(rng);
  case 3:
    return namesTable<double>(rng);
  default:
    return namesTable<Measured>(rng);
  }
}
VP_SCENARIO(toTable, 1) {
  typedef Ops<double, int, std::string> O;
  Idx                                   dims(3);
  for (auto& x : dims) {
    x = rng.chance(0.05) ? rng.in(5, 40) : rng.in(1, 4);
  }
  bool        blanks = rng.chance(0.5);
  std::string n0 = blanks ? "a b  c d" : "axis0", n1 = blanks ? "b" : "axis1", n2 = blanks ? " c" : "axis2";
  auto        g = std::unique_ptr<O::Grid>(new O::Grid(makeAxis<double>(rng, n0, dims[0]), makeAxis<int>(rng, n1, dims[1]), makeAxis<std::string>(rng, n2, dims[2])));
  for (auto n : {&n0, &n1, &n2}) {
    std::replace(n->begin(), n->end(), ' ', '_');
  }
  int v = 0;
  for (auto& c : *g) {
    c = v += rng.in(1, 9);
  }
  std::unique_ptr<O::Grid> slice;
  O::Grid*                 src = g.get();
  if (rng.chance(0.3)) {
    slice.reset(new O::Grid(g->fixAxisByIndex<1>(rng.below(dims[1]))));
    src = slice.get();
    if (rng.chance(0.5)) {
      slice.reset(new O::Grid(rng.chance(0.5) ? slice->fixAxisByIndex<0>(rng.below(dims[0])) : slice->fixAxisByIndex<2>(rng.below(dims[2]))));
      src = slice.get();
    }
  }
  auto table = gridContainerToTable(*src);
  VP_CHECK(table.size() == src->size(), "wrong-table", table.size() << " rows for " << src->size() << " cells");
  auto info = table.getColumnInfo();
  VP_CHECK(info->size() == 4 && info->find("value") && info->find(n0) && info->find(n1) && info->find(n2), "wrong-table", "columns");
  std::set<std::string> rows, expect;
  for (auto& row : table) {
    rows.insert(text(boost::get<double>(row[n0])) + "|" + text(boost::get<int>(row[n1])) + "|" + boost::get<std::string>(row[n2]) + "|" + text(boost::get<int>(row["value"])));
  }
  for (auto it = src->begin(); it != src->end(); ++it) {
    expect.insert(text(it.axisValue<0>()) + "|" + text(it.axisValue<1>()) + "|" + it.axisValue<2>() + "|" + text(*it));
  }
  VP_CHECK(rows == expect, "wrong-table", "rows differ from the cells");
  vp::cover("tables");
}
namespace {
template <typename T>
void axisOf(vp::Rng& rng) {
  size_t n  = rng.chance(0.1) ? rng.in(100, 600) : rng.below(8);
  auto   ax = makeAxis<T>(rng, "one", n);
  std::vector<T> v(ax.begin(), ax.end());
  VP_CHECK(ax.size() == n && v.size() == n && ax.name() == "one", "wrong-axes", "axis of " << n << " has " << ax.size());
  GridAxis<T> same("two", v);
  VP_CHECK(ax == same && !(ax != same), "wrong-axes", "axes with the same knots differ");
  auto w = v;
  if (n && rng.chance(0.7)) {
    size_t i = rng.below(n);
    w[i]     = Knot<T>::foreign(w[i], rng.below(4));
  } else if (n && rng.chance(0.5)) {
    w.pop_back();
  } else {
    w.push_back(Knot<T>::make(rng, n));
  }
  GridAxis<T> other("one", w);
  VP_CHECK(!(ax == other) && ax != other && !(other == ax) && other != ax, "wrong-axes", "axes with other knots are equal");
  for (size_t k = 0; n && k < 10; ++k) {
    size_t i = rng.below(n);
    VP_CHECK(ax[i] == v[i], "wrong-axes", "knot " << i);
    T x = rng.chance(0.5) ? v[i] : Knot<T>::foreign(v[i], rng.below(4));
    size_t want = std::upper_bound(v.begin(), v.end(), x) - v.begin();
    want        = want ? want - 1 : 0;
    size_t got  = ax.infimum(x) - ax.begin();
    VP_CHECK(got == want, "wrong-infimum", "infimum of " << x << " is knot " << got << " instead of " << want << " of " << n);
  }
  vp::cover("axes");
}
}  // namespace
VP_SCENARIO(axes, 1) {
  switch (rng.below(3)) {
  case 0:
    axisOf<double>(rng);
    break;
  case 1:
    axisOf<int>(rng);
    break;
  default:
    axisOf<std::string>(rng);
  }
}
VP_SCENARIO(bigGrid, 1) {
  if (!rng.chance(vp::thorough() ? 0.2 : 0.04)) {
    return;
  }
  typedef Ops<int, int, int> O;
  Idx                        dims(3);
  do {
    dims = {size_t(rng.in(1, 400)), size_t(rng.in(1, 400)), size_t(rng.in(1, 400))};
    if (rng.chance(0.9)) {
      dims[rng.below(3)] = rng.in(65530, 70000);
      dims[rng.below(3)] = rng.in(1, 2);
    }
  } while (prod(dims) < 66000 || prod(dims) > 250000);
  O::Grid g(makeAxis<int>(rng, "a", dims[0]), makeAxis<int>(rng, "b", dims[1]), makeAxis<int>(rng, "c", dims[2]));
  VP_CHECK(g.size() == prod(dims), "wrong-size", g.size() << " cells for " << vp::show(dims));
  int n = 0;
  for (auto& c : g) {
    c = n++;
  }
  size_t a = 0, b = 0, c = 0;
  n       = 0;
  for (auto it = g.begin(); it != g.end(); ++it, ++n) {
    VP_CHECK(*it == n && it.axisIndex<0>() == a && it.axisIndex<1>() == b && it.axisIndex<2>() == c, "wrong-iteration", "cell " << n << " of " << vp::show(dims));
    VP_CHECK(g(a, b, c) == n && g.at(a, b, c) == n, "wrong-cell", "cell " << n << " of " << vp::show(dims));
    if (++a == dims[0]) {
      a = 0;
      if (++b == dims[1]) {
        b = 0;
        ++c;
      }
    }
  }
  VP_CHECK(size_t(n) == prod(dims), "wrong-iteration", n << " cells visited of " << vp::show(dims));
  size_t x    = rng.below(dims[1]), y = rng.below(dims[2]);
  auto   cut  = g.fixAxisByIndex<1>(x);
  size_t seen = 0;
  for (auto it = cut.begin(); it != cut.end(); ++it, ++seen) {
    size_t i = seen % dims[0], k = seen / dims[0];
    VP_CHECK(size_t(*it) == i + dims[0] * (x + dims[1] * k) && &cut.at(i, 0, k) == &*it, "wrong-slice", "cell " << seen << " of slice " << x << " of " << vp::show(dims));
  }
  VP_CHECK(seen == dims[0] * dims[2] && cut.size() == seen, "wrong-slice", seen << " cells");
  seen = 0;
  for (auto it = g.begin().fixAxisByIndex<2>(y).fixAxisByIndex<1>(x); it != g.end(); ++it, ++seen) {
    VP_CHECK(size_t(*it) == seen + dims[0] * (x + dims[1] * y), "wrong-iteration", "fixed, cell " << seen << " of " << vp::show(dims));
  }
  VP_CHECK(seen == dims[0], "wrong-iteration", seen << " cells with two axes fixed");
  vp::cover("big_grids");
}
#endif

#ifdef VP_C11
namespace {
// a cell and a knot type without default constructor, and a structured cell
struct NoDefault {
  explicit NoDefault(double x) : v(x) {}
  double v;
  bool   operator==(const NoDefault& o) const {
    return v == o.v;
  }
  bool operator<(const NoDefault& o) const {
    return v < o.v;
  }
};
struct NoDefaultManager {
  typedef NoDefault                           data_type;
  typedef std::vector<NoDefault>::iterator    iterator;
  explicit NoDefaultManager(size_t n) : d(n, NoDefault(0)) {}
  size_t size() const {
    return d.size();
  }
  iterator begin() {
    return d.begin();
  }
  iterator end() {
    return d.end();
  }
  NoDefault& operator[](size_t i) {
    return d[i];
  }
  std::vector<NoDefault> d;
};
}  // namespace
namespace Euclid {
namespace GridContainer {
template <>
struct GridCellManagerTraits<NoDefaultManager> {
  typedef NoDefault                          data_type;
  typedef std::vector<NoDefault>::iterator   iterator;
  static std::unique_ptr<NoDefaultManager>   factory(size_t n) {
    return std::unique_ptr<NoDefaultManager>{new NoDefaultManager(n)};
  }
  static size_t size(const NoDefaultManager& m) {
    return m.size();
  }
  static iterator begin(NoDefaultManager& m) {
    return m.begin();
  }
  static iterator end(NoDefaultManager& m) {
    return m.end();
  }
  static const bool enable_boost_serialize = true;
};
}  // namespace GridContainer
}  // namespace Euclid
namespace boost {
namespace serialization {
template <class Ar>
void serialize(Ar&, NoDefault&, const unsigned int) {}
template <class Ar>
void save_construct_data(Ar& ar, const NoDefault* t, const unsigned int) {
  ar << t->v;
}
template <class Ar>
void load_construct_data(Ar& ar, NoDefault* t, const unsigned int) {
  double v;
  ar >> v;
  ::new (t) NoDefault(v);
}
}  // namespace serialization
}  // namespace boost
namespace {
template <>
struct Knot<NoDefault> {
  static NoDefault make(vp::Rng& r, size_t i) {
    return NoDefault(Knot<double>::make(r, i));
  }
};
template <>
struct Knot<Euclid::XYDataset::QualifiedName> {
  static Euclid::XYDataset::QualifiedName make(vp::Rng& r, size_t i) {
    return Euclid::XYDataset::QualifiedName{"g" + std::to_string(r.in(0, 9)) + "/n" + std::to_string(i)};
  }
};

template <typename T>
bool sameCell(const T& a, const T& b) {
  return a == b;
}
bool sameCell(double a, double b) {
  return a == b && std::signbit(a) == std::signbit(b);
}
template <typename G>
void same(const G& a, const G& b, const char* what) {
  VP_CHECK(a.size() == b.size(), "wrong-size", what << ": " << b.size() << " cells instead of " << a.size());
  auto i = a.begin();
  auto j = b.begin();
  for (; i != a.end(); ++i, ++j) {
    VP_CHECK(j != b.end() && sameCell(*i, *j), "wrong-cell", what << ": cells differ");
  }
  VP_CHECK(!(j != b.end()), "wrong-cell", what << ": more cells");
  vp::cover("cells_compared", a.size());
}
template <typename T>
void sameAxis(const GridAxis<T>& a, const GridAxis<T>& b, const char* what) {
  VP_CHECK(a.name() == b.name(), "wrong-axis", what << ": axis " << b.name() << " instead of " << a.name());
  VP_CHECK(a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin()), "wrong-axis", what << ": knots of axis " << a.name() << " differ");
}
template <typename G, size_t... I>
void sameAxes(const G& a, const G& b, const char* what, std::index_sequence<I...>) {
  int unused[] = {(sameAxis(a.template getAxis<I>(), b.template getAxis<I>(), what), 0)...};
  (void)unused;
}
template <typename G>
void check(const G& a, const G& b, const char* what) {
  sameAxes(a, b, what, std::make_index_sequence<G::axisNumber()>{});
  same(a, b, what);
}
std::string axisName(vp::Rng& r) {
  std::string s;
  int         n = r.chance(0.05) ? r.in(11, 500) : r.in(0, 10);
  bool        any = r.chance(0.05);  // any bytes
  for (int i = 0; i < n; ++i) {
    s += any ? char(r.in(0, 255)) : char(r.in(32, 126));
  }
  return s;
}
template <typename G, typename... A>
std::unique_ptr<G> makeGrid(vp::Rng& r) {
  return std::unique_ptr<G>(new G(makeAxis<A>(r, axisName(r), r.chance(0.04) ? 0 : r.chance(0.03) ? r.in(7, 150) : r.in(1, 6))...));
}
template <typename G>
void gridTrip(const G& g, vp::Rng& r) {
  std::stringstream s(std::ios::in | std::ios::out | std::ios::binary);
  gridBinaryExport(s, g);
  auto bytes = s.str();
  check(g, gridBinaryImport<G>(s), "binary");
  std::stringstream t;
  gridExport<boost::archive::text_oarchive>(t, g);
  check(g, gridImport<G, boost::archive::text_iarchive>(t), "text");
  vp::distinct(vp::fnv(bytes));
  if (vp::wantSample()) {
    vp::sample(std::to_string(g.size()) + " cells, " + std::to_string(bytes.size()) + " bytes");
  }
  // several grids in one stream
  std::stringstream two(std::ios::in | std::ios::out | std::ios::binary);
  gridBinaryExport(two, g);
  gridBinaryExport(two, g);
  check(g, gridBinaryImport<G>(two), "first of two");
  check(g, gridBinaryImport<G>(two), "second of two");
  // truncated
  for (int k = 0; k < 3; ++k) {
    std::stringstream cut(bytes.substr(0, r.below(bytes.size())), std::ios::in | std::ios::binary);
    bool              thrown = false;
    try {
      gridBinaryImport<G>(cut);
    } catch (const std::exception&) {
      thrown = true;
    }
    VP_CHECK(thrown, "unchecked-truncation", "truncated archive accepted");
    vp::cover("truncations");
  }
}
// several grids in one archive, some of them temporary
template <typename G>
void sameArchive(std::vector<std::unique_ptr<G>>& grids) {
  std::stringstream s(std::ios::in | std::ios::out | std::ios::binary);
  {
    boost::archive::binary_oarchive ar(s);
    for (auto& g : grids) {
      const G* p = g.get();
      ar << p;
    }
  }
  boost::archive::binary_iarchive ar(s);
  for (auto& g : grids) {
    G* p = nullptr;
    ar >> p;
    std::unique_ptr<G> own(p);
    check(*g, *own, "grids in one archive");
    // kept until the end, as the archive tracks the addresses
    own.release();
    vp::keep(p);
    static std::vector<std::unique_ptr<G>> kept;
    kept.emplace_back(p);
    if (kept.size() > 64) {
      kept.clear();
    }
  }
  vp::cover("shared_archives");
}
typedef GridContainer<std::vector<double>, double, std::string>                            G1;
typedef GridContainer<std::vector<std::string>, int>                                       G2;
typedef GridContainer<std::vector<std::vector<float>>, int, double, int>                   G3;
typedef GridContainer<NoDefaultManager, NoDefault, double>                                 G4;
typedef std::tuple<int, std::string, double, double, std::vector<int>>                     Mixed;
typedef GridContainer<std::vector<Mixed>, double, int>                                     G5;
typedef GridContainer<std::vector<int>, Euclid::XYDataset::QualifiedName, int>             G6;
}  // namespace
VP_SCENARIO(numbers, 2) {
  auto g = makeGrid<G1, double, std::string>(rng);
  for (auto& c : *g) {
    c = rng.chance(0.1) ? rng.pick(std::vector<double>{0., -0., 5e-324, 1.7976931348623157e308, 1. / 3}) : rng.real(-1, 1) * std::pow(10., rng.in(-300, 300));
  }
  gridTrip(*g, rng);
  if (g->getAxis<0>().size() && g->getAxis<1>().size()) {
    auto s = g->fixAxisByIndex<1>(rng.below(g->getAxis<1>().size()));
    gridTrip(s, rng);
    auto t = s.fixAxisByIndex<0>(rng.below(g->getAxis<0>().size()));
    gridTrip(t, rng);
    vp::cover("slices_exported");
  }
}
VP_SCENARIO(bigNumbers, 1) {
  if (!rng.chance(vp::thorough() ? 0.2 : 0.03)) {
    return;
  }
  G1 g(makeAxis<double>(rng, axisName(rng), rng.in(50, 300)), makeAxis<std::string>(rng, axisName(rng), rng.in(50, 250)));
  for (auto& c : g) {
    c = rng.real(-1, 1);
  }
  gridTrip(g, rng);
  vp::cover("big_grids");
}
VP_SCENARIO(strings, 1) {
  auto g = makeGrid<G2, int>(rng);
  for (auto& c : *g) {
    c = axisName(rng);
  }
  gridTrip(*g, rng);
}
VP_SCENARIO(structured, 1) {
  auto g = makeGrid<G3, int, double, int>(rng);
  for (auto& c : *g) {
    c.resize(rng.below(4));
    for (auto& x : c) {
      x = float(rng.in(-1000, 1000)) / 3;
    }
  }
  gridTrip(*g, rng);
}
VP_SCENARIO(notDefaultConstructible, 1) {
  auto g = makeGrid<G4, NoDefault, double>(rng);
  for (auto& c : *g) {
    c = NoDefault(rng.in(-10, 10));
  }
  gridTrip(*g, rng);
}
VP_SCENARIO(tupleCells, 1) {
  auto g = makeGrid<G5, double, int>(rng);
  for (auto& c : *g) {
    c = Mixed(rng.in(-9, 9), axisName(rng), rng.real(-1, 1), rng.real(1, 9), std::vector<int>(rng.below(3), rng.in(0, 9)));
  }
  gridTrip(*g, rng);
  vp::cover("tuple_cells", g->size());
  // tuples with elements which have no default constructor
  std::tuple<NoDefault, int, NoDefault, double> t(NoDefault(rng.unit()), rng.in(-9, 9), NoDefault(rng.unit()), rng.unit()), u(NoDefault(7), 7, NoDefault(7), 7);
  std::stringstream                             s;
  {
    boost::archive::text_oarchive ar(s);
    const auto&                   ct = t;
    ar << ct;
  }
  boost::archive::text_iarchive ar(s);
  ar >> u;
  VP_CHECK(t == u, "wrong-cell", "tuple of elements without default constructor");
}
VP_SCENARIO(names, 1) {
  auto g = makeGrid<G6, Euclid::XYDataset::QualifiedName, int>(rng);
  for (auto& c : *g) {
    c = rng.in(-100, 100);
  }
  gridTrip(*g, rng);
  for (auto& k : g->getAxis<0>()) {
    VP_CHECK(g->getAxis<1>().size() == 0 || g->fixAxisByValue<0>(k).size() == g->getAxis<1>().size(), "wrong-axis", "name " << k.qualifiedName());
  }
}
VP_SCENARIO(oneArchive, 1) {
  std::vector<std::unique_ptr<G1>> a;
  int                              n = rng.in(2, 5);
  for (int i = 0; i < n; ++i) {
    a.push_back(makeGrid<G1, double, std::string>(rng));
    for (auto& c : *a.back()) {
      c = rng.real(-5, 5);
    }
  }
  sameArchive(a);
}
#endif
VP_MAIN()
