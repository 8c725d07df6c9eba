// C26: self organizing maps: best matching units, training, projection, u-matrix, sampling, archives
#include "vp.h"
#include "SOM/InitFunc.h"
#include "SOM/LearningRestraintFunc.h"
#include "SOM/NeighborhoodFunc.h"
#include "SOM/SOM.h"
#include "SOM/SOMProjector.h"
#include "SOM/SOMTrainer.h"
#include "SOM/SamplingPolicy.h"
#include "SOM/UMatrix.h"
#include "SOM/serialize.h"
#include <boost/archive/text_iarchive.hpp>
#include <boost/archive/text_oarchive.hpp>
#include <list>
namespace Euclid {
namespace SOM {
namespace Distance {
template <std::size_t ND>
struct L9 : L2<ND> {};
}  // namespace Distance
}  // namespace SOM
}  // namespace Euclid
using namespace Euclid::SOM;

namespace {
template <std::size_t ND>
struct L1 : Distance::Interface<ND> {
  using Distance::Interface<ND>::distance;
  double distance(const std::array<double, ND>& a, const std::array<double, ND>& b) const override {
    double r = 0;
    for (size_t i = 0; i < ND; ++i) {
      r += std::fabs(a[i] - b[i]);
    }
    return r;
  }
};
template <std::size_t ND>
struct L9 : L1<ND> {};
// ---------------------------------------------------------------- the model
template <std::size_t ND>
double dist(const std::array<double, ND>& a, const std::array<double, ND>& b, const std::array<double, ND>* u, bool l1) {
  long double r = 0;
  for (size_t i = 0; i < ND; ++i) {
    long double d = (long double)(a[i]) - b[i];
    r += l1 ? std::fabs(d) : u ? d * d / ((long double)((*u)[i]) * (*u)[i]) : d * d;
  }
  return l1 ? double(r) : double(std::sqrt(r));
}
template <std::size_t ND>
std::array<double, ND> point(vp::Rng& r, bool coarse, double scale = 1) {
  std::array<double, ND> p;
  for (auto& x : p) {
    x = scale * (coarse ? r.in(-3, 3) : r.real(-10, 10));
  }
  return p;
}
template <std::size_t ND>
struct Input {
  std::array<double, ND> w, u;
  int                    id;
};
template <std::size_t ND, typename D>
void fill(SOM<ND, D>& som, vp::Rng& r, bool coarse, double scale = 1) {
  for (size_t x = 0; x < som.getSize().first; ++x) {
    for (size_t y = 0; y < som.getSize().second; ++y) {
      som(x, y) = point<ND>(r, coarse, scale);
    }
  }
}

template <std::size_t ND, typename D, bool IsL1>
void matching(vp::Rng& rng) {
  bool   large = rng.chance(0.04);
  size_t nx = large ? rng.in(1, 60) : rng.in(1, 7), ny = large ? rng.in(1, 60) : rng.in(1, 7);
  if (large && rng.chance(0.2)) {
    nx = rng.in(257, 300);  // an index of more than a byte
    ny = rng.in(1, 3);
    if (rng.chance(0.5)) {
      std::swap(nx, ny);
    }
  }
  vp::cover("large", large);
  // any magnitude whose square is a number
  double scale = rng.chance(0.6) ? 1 : std::pow(10., rng.in(-140, 140));
  int    given = 0;
  SOM<ND, D> som(nx, ny, [&given] { return 0.5 * ++given; });
  VP_CHECK(som.getSize().first == nx && som.getSize().second == ny, "som:size", "size");
  // every weight comes from its own call
  std::multiset<double> ws, want;
  size_t                cells = 0;
  for (auto& c : som) {
    ++cells;
    ws.insert(c.begin(), c.end());
  }
  for (int i = 1; i <= int(nx * ny * ND); ++i) {
    want.insert(0.5 * i);
  }
  VP_CHECK(cells == nx * ny && ws == want && given == int(nx * ny * ND), "som:init", "cells " << cells << " calls " << given);
  bool coarse = rng.chance(0.4);
  fill(som, rng, coarse, scale);
  const auto& csom = som;
  // the iterators pass by every cell with its own coordinates
  std::set<std::pair<size_t, size_t>> met;
  for (auto it = som.begin(); it != som.end(); ++it) {
    auto x = it.template axisValue<0>(), y = it.template axisValue<1>();
    VP_CHECK(x < nx && y < ny && met.insert({x, y}).second && *it == csom(x, y), "som:iteration", "at " << x << "," << y);
  }
  VP_CHECK(met.size() == nx * ny, "som:iteration", "cells met " << met.size());
  met.clear();
  for (auto it = csom.begin(); it != csom.end(); ++it) {
    auto x = it.template axisValue<0>(), y = it.template axisValue<1>();
    VP_CHECK(x < nx && y < ny && met.insert({x, y}).second && &*it == &csom(x, y), "som:iteration", "constant, at " << x << "," << y);
  }
  VP_CHECK(met.size() == nx * ny, "som:iteration", "constant cells met " << met.size());
  auto cit = som.cbegin();
  for (auto it = csom.begin(); it != csom.end(); ++it, ++cit) {
    VP_CHECK(cit != som.cend() && &*it == &*cit, "som:iteration", "cbegin goes another way");
  }
  VP_CHECK(cit == som.cend(), "som:iteration", "cend is elsewhere");

  std::vector<Input<ND>> inputs;
  for (size_t n = !large && rng.chance(0.05) ? 300 : rng.in(0, 20), i = 0; i < n; ++i) {
    Input<ND> in{point<ND>(rng, coarse, scale), {}, int(i)};
    if (rng.chance(0.1)) {
      in.w = csom(rng.below(nx), rng.below(ny));  // exactly a cell
      vp::cover("exact");
    }
    for (auto& u : in.u) {
      u = rng.pick(std::vector<double>{0.1, 1, 1, 2, 10, 1e-3, 300});
    }
    inputs.push_back(in);
  }
  auto weight  = [](const Input<ND>& i) { return i.w; };
  auto uncert  = [](const Input<ND>& i) { return i.u; };
  auto verify  = [&](const Input<ND>& in, const std::tuple<size_t, size_t, double>& got, bool with_u) {
    size_t x = std::get<0>(got), y = std::get<1>(got);
    VP_CHECK(x < nx && y < ny, "som:bmu", "unit out of the map: " << x << "," << y);
    double d = dist<ND>(csom(x, y), in.w, with_u ? &in.u : nullptr, IsL1);
    VP_CHECK(vp::close(std::get<2>(got), d, 1e-12, 1e-200), "som:distance", "distance " << std::get<2>(got) << " instead of " << d);
    for (size_t i = 0; i < nx; ++i) {
      for (size_t j = 0; j < ny; ++j) {
        double o = dist<ND>(csom(i, j), in.w, with_u ? &in.u : nullptr, IsL1);
        VP_CHECK(d <= o * (1 + 1e-12) + 1e-200, "som:bmu", "unit " << x << "," << y << " at " << d << " but " << i << "," << j << " at " << o);
      }
    }
    vp::cover("bmu");
  };
  for (auto& in : inputs) {
    verify(in, csom.findBMU(in.w), false);
    VP_CHECK(csom.findBMU(in, weight) == csom.findBMU(in.w), "som:bmu", "the unit depends on how the input is given");
    if (IsL1) {
      VP_THROWS(csom.findBMU(in.w, in.u), "som:uncertainties", "uncertainties ignored");
      vp::cover("refusals");
    } else {
      verify(in, csom.findBMU(in.w, in.u), true);
      VP_CHECK(csom.findBMU(in, weight, uncert) == csom.findBMU(in.w, in.u), "som:bmu", "the unit depends on how the input is given");
    }
  }
  // projection: each input once, in order, in its unit, over the initial value
  std::vector<int> init{-7};
  auto             add  = [](std::vector<int>& c, const Input<ND>& i) { c.push_back(i.id); };
  bool             with_u = !IsL1 && rng.chance(0.5);
  auto check = [&](const SOMProjector::ProjectGrid<std::vector<int>>& grid) {
    size_t total = 0;
    for (size_t i = 0; i < nx; ++i) {
      for (size_t j = 0; j < ny; ++j) {
        auto& c = grid(i, j);
        VP_CHECK(!with_u || (!c.empty() && c[0] == -7), "som:projection", "initial value lost");
        size_t first = with_u ? 1 : 0;
        for (size_t k = first; k < c.size(); ++k, ++total) {
          VP_CHECK(k == first || c[k] > c[k - 1], "som:projection", "inputs out of order");
          auto& in = inputs.at(c[k]);
          auto  b  = with_u ? csom.findBMU(in.w, in.u) : csom.findBMU(in.w);
          VP_CHECK(std::get<0>(b) == i && std::get<1>(b) == j, "som:projection", "input projected to another cell");
        }
      }
    }
    VP_CHECK(total == inputs.size(), "som:projection", total << " of " << inputs.size() << " inputs projected");
    vp::cover("projected", total);
  };
  if (with_u) {
    check(SOMProjector::project<std::vector<int>>(csom, inputs.begin(), inputs.end(), weight, uncert, add, init));
  } else {
    check(SOMProjector::project<std::vector<int>>(csom, inputs.begin(), inputs.end(), weight, add));
  }
  // u-matrix
  for (auto type : {UMatrixType::MIN, UMatrixType::MAX, UMatrixType::MEAN}) {
    auto u = computeUMatrix(csom, type);
    if (nx * ny == 1) {
      vp::cover("single_cell");
      continue;
    }
    for (size_t i = 0; i < nx; ++i) {
      for (size_t j = 0; j < ny; ++j) {
        double mn = 1e300, mx = -1, sum = 0;
        int    n = 0;
        for (size_t k = 0; k < nx; ++k) {
          for (size_t l = 0; l < ny; ++l) {
            long dx = long(k) - long(i), dy = long(l) - long(j);
            if ((dx || dy) && dx * dx <= 1 && dy * dy <= 1) {
              double d = dist<ND>(csom(i, j), csom(k, l), nullptr, IsL1);
              mn       = std::min(mn, d);
              mx       = std::max(mx, d);
              sum += d;
              ++n;
            }
          }
        }
        double w = type == UMatrixType::MIN ? mn : type == UMatrixType::MAX ? mx : sum / n;
        VP_CHECK(vp::close(u(i, j), w, 1e-12, 1e-200), "som:umatrix", "type " << int(type) << " at " << i << "," << j << " of " << nx << "x" << ny << ": "
                                                                             << u(i, j) << " instead of " << w);
        vp::cover("umatrix");
      }
    }
  }
  // archives and moves
  std::stringstream s;
  bool              text = rng.chance(0.5);
  if (text) {
    somExport<boost::archive::text_oarchive>(s, csom);
  } else {
    somBinaryExport(s, csom);
  }
  std::string data = s.str();
  auto        back = text ? somImport<boost::archive::text_iarchive, ND, D>(s) : somBinaryImport<ND, D>(s);
  auto        same = [&](const SOM<ND, D>& o, const char* what) {
    VP_CHECK(o.getSize() == csom.getSize(), "som:archive", what << " of another size");
    for (size_t i = 0; i < nx; ++i) {
      for (size_t j = 0; j < ny; ++j) {
        VP_CHECK(o(i, j) == csom(i, j), "som:archive", what << " differs at " << i << "," << j);
      }
    }
  };
  same(back, "read back");
  SOM<ND, D> moved(std::move(back));
  same(moved, "moved");
  SOM<ND, D> other(2, 3);
  other = std::move(moved);
  same(other, "assigned");
  std::stringstream t(data), u(data);
  // a distance with a name of the same length
  using Near = typename std::conditional<IsL1, L9<ND>, Distance::L9<ND>>::type;
  static_assert(!std::is_same<Near, D>::value, "another type");
  if (text) {
    VP_THROWS((somImport<boost::archive::text_iarchive, ND, Near>(u)), "som:archive", "another distance accepted");
  } else {
    VP_THROWS((somBinaryImport<ND, Near>(u)), "som:archive", "another distance accepted");
  }
  using Wrong = typename std::conditional<IsL1, Distance::L2<ND>, L1<ND>>::type;
  if (text) {
    VP_THROWS((somImport<boost::archive::text_iarchive, ND, Wrong>(t)), "som:archive", "another distance accepted");
  } else {
    VP_THROWS((somBinaryImport<ND, Wrong>(t)), "som:archive", "another distance accepted");
  }
  vp::cover("archived");
  std::ostringstream what;
  what << nx << "x" << ny << "x" << ND << " inputs " << inputs.size() << (coarse ? " coarse" : "") << (IsL1 ? " L1" : " L2");
  vp::distinct(vp::mix(vp::fnv(what.str()), vp::fnv(&csom(0, 0)[0], sizeof(double) * ND)));
  if (vp::wantSample()) {
    vp::sample(what.str());
  }
}

// a policy which visits a list of positions
template <typename It>
struct Script : SamplingPolicy::Interface<It> {
  std::vector<std::vector<size_t>> visits;  // per call of start
  mutable size_t                   round = 0, pos = 0;
  mutable It                       b, e;
  It at() const {
    return pos < visits[round - 1].size() ? b + visits[round - 1][pos] : e;
  }
  It start(It begin, It end) const override {
    b = begin;
    e = end;
    ++round;
    pos = 0;
    return at();
  }
  It next(It) const override {
    ++pos;
    return at();
  }
};

template <std::size_t ND, typename D, bool IsL1>
void training(vp::Rng& rng) {
  size_t nx = rng.in(1, 6), ny = rng.in(1, 6), iters = rng.in(0, 6), n = rng.in(0, 6);
  if (rng.chance(0.1)) {
    nx = rng.in(1, 20);
    ny = rng.in(1, 20);
  } else if (rng.chance(0.1)) {
    iters = rng.in(7, 40);
  } else if (rng.chance(0.1)) {
    n = rng.in(7, 60);
  }
  double     scale = rng.chance(0.6) ? 1 : std::pow(10., rng.in(-100, 100));
  SOM<ND, D> som(nx, ny);
  fill(som, rng, false, scale);
  std::vector<Input<ND>> inputs;
  for (size_t i = 0; i < n; ++i) {
    inputs.push_back({point<ND>(rng, false, scale), {}, int(i)});
  }
  bool ambiguous = false;  // set when rounding decides whether a cell is in the neighbourhood, or which the unit is
  // the factors
  NeighborhoodFunc::Signature      nf, model_nf;
  LearningRestraintFunc::Signature lf, model_lf;
  int                              kind   = rng.below(3);
  double                           radius = rng.real(0.2, rng.chance(0.2) ? 40 : 8), mult = rng.pick(std::vector<double>{0.5, 1, 2, 3});
  if (kind == 0) {
    nf       = NeighborhoodFunc::linearUnitDisk(radius);
    model_nf = [=, &ambiguous](std::pair<size_t, size_t> b, std::pair<size_t, size_t> c, size_t i, size_t t) {
      double dx = double(b.first) - double(c.first), dy = double(b.second) - double(c.second), r = radius * double(t - i) / double(t);
      ambiguous = ambiguous || std::fabs(std::hypot(dx, dy) - r) < 1e-9;
      return std::hypot(dx, dy) < r ? 1. : 0.;
    };
  } else if (kind == 1) {
    nf       = NeighborhoodFunc::kohonen(nx, ny, mult);
    model_nf = [=, &ambiguous](std::pair<size_t, size_t> b, std::pair<size_t, size_t> c, size_t i, size_t t) {
      double dx = double(b.first) - double(c.first), dy = double(b.second) - double(c.second), d2 = dx * dx + dy * dy;
      double s0 = std::max(nx, ny) / 2., s = s0 * std::pow(s0, -double(i) / double(t));
      ambiguous = ambiguous || std::fabs(std::sqrt(d2) - mult * s) < 1e-9;
      return std::sqrt(d2) < mult * s ? std::exp(-d2 / (2 * s * s)) : 0.;
    };
  } else {
    uint64_t salt = rng.next();
    nf = model_nf = [=](std::pair<size_t, size_t> b, std::pair<size_t, size_t> c, size_t i, size_t t) {
      uint64_t h = vp::mix(vp::mix(salt, b.first * 1000 + b.second), vp::mix(c.first * 1000 + c.second, i * 1000 + t));
      return h % 3 == 0 ? 0. : (h % 1000) / 1000.;
    };
  }
  if (rng.chance(0.5)) {
    lf       = LearningRestraintFunc::linear();
    model_lf = [](size_t i, size_t t) { return double(t - i) / double(t); };
  } else if (rng.chance(0.5)) {
    double r = rng.real(0.05, 1);
    lf       = LearningRestraintFunc::exponentialDecay(r);
    model_lf = [r](size_t i, size_t t) { return r * std::exp(-double(i) / double(t)); };
  } else {
    uint64_t salt = rng.next();
    lf = model_lf = [=](size_t i, size_t t) { return vp::mix(salt, i * 1000 + t) % 3 == 0 ? 0. : 0.4; };
  }
  using It = typename std::vector<Input<ND>>::iterator;
  Script<It> script;
  bool       full = rng.chance(0.5);
  for (size_t i = 0; i < iters; ++i) {
    std::vector<size_t> v;
    if (full) {
      for (size_t k = 0; k < n; ++k) {
        v.push_back(k);
      }
    } else {
      for (size_t k = n ? rng.below(5) : 0; k > 0; --k) {
        v.push_back(rng.below(n));
      }
    }
    script.visits.push_back(v);
  }
  // the model of the map, with the same rounding of the units chosen
  std::map<std::pair<size_t, size_t>, std::array<double, ND>> m;
  std::array<double, ND>                                       lo, hi;
  lo.fill(1e300);
  hi.fill(-1e300);
  auto widen = [&](const std::array<double, ND>& a) {
    for (size_t k = 0; k < ND; ++k) {
      lo[k] = std::min(lo[k], a[k]);
      hi[k] = std::max(hi[k], a[k]);
    }
  };
  for (size_t x = 0; x < nx; ++x) {
    for (size_t y = 0; y < ny; ++y) {
      m[{x, y}] = som(x, y);
      widen(som(x, y));
    }
  }
  for (auto& i : inputs) {
    widen(i.w);
  }
  size_t rounds = 0, changed = 0;
  for (size_t i = 0; i < iters && !ambiguous; ++i) {
    double l = model_lf(i, iters);
    if (l == 0) {
      continue;
    }
    for (size_t k : script.visits[full ? i : rounds]) {
      auto&                     w  = inputs[k].w;
      std::pair<size_t, size_t> b{0, 0};
      double                    d1 = 1e300, d2 = 1e300;
      for (auto& c : m) {
        double d = dist<ND>(c.second, w, nullptr, IsL1);
        if (d < d1) {
          d2 = d1;
          d1 = d;
          b  = c.first;
        } else if (d < d2) {
          d2 = d;
        }
      }
      if (d2 - d1 <= 1e-9 * std::max(scale, d2)) {
        ambiguous = true;  // (also cells which became equal)
        break;
      }
      for (auto& c : m) {
        double f = model_nf(b, c.first, i, iters) * l;
        for (size_t q = 0; q < ND; ++q) {
          c.second[q] += f * (w[q] - c.second[q]);
        }
        changed += f != 0;
      }
    }
    ++rounds;
  }
  SOMTrainer trainer(nf, lf);
  auto       weight = [](const Input<ND>& i) { return i.w; };
  if (full) {
    if (rng.chance(0.5)) {
      trainer.train(som, iters, inputs.begin(), inputs.end(), weight);
    } else {
      const std::list<Input<ND>> l(inputs.begin(), inputs.end());
      trainer.train(som, iters, l.begin(), l.end(), weight);
    }
  } else {
    trainer.train(som, iters, inputs.begin(), inputs.end(), weight, script);
    VP_CHECK(ambiguous || script.round == rounds, "som:sampling", "samples drawn " << script.round << " times in " << rounds << " iterations");
  }
  for (size_t x = 0; x < nx; ++x) {
    for (size_t y = 0; y < ny; ++y) {
      for (size_t k = 0; k < ND; ++k) {
        double v = som(x, y)[k];
        VP_CHECK(v >= lo[k] - 1e-9 * scale && v <= hi[k] + 1e-9 * scale, "som:hull", "weight " << v << " outside of inputs and initial weights");
        VP_CHECK(ambiguous || vp::close(v, m[{x, y}][k], 1e-9, 1e-9 * scale), "som:training",
                 "weight " << k << " of " << x << "," << y << " is " << v << " instead of " << m[std::make_pair(x, y)][k] << " (" << nx << "x" << ny << ", "
                           << iters << " iterations, " << n << " inputs, neighbourhood " << kind << ")");
      }
    }
  }
  vp::cover(ambiguous ? "ambiguous" : "trained");
  vp::cover("updates", changed);
  vp::cover("neighbourhood" + std::to_string(kind), changed > 0);
}
}  // namespace

VP_SCENARIO(matching, 2) {
  switch (rng.below(4)) {
  case 0:
    matching<1, Distance::L2<1>, false>(rng);
    break;
  case 1:
    matching<3, Distance::L2<3>, false>(rng);
    break;
  case 2:
    matching<2, L1<2>, true>(rng);
    break;
  default:
    matching<5, Distance::L2<5>, false>(rng);
  }
}
VP_SCENARIO(training, 3) {
  switch (rng.below(5)) {
  case 0:
    training<1, Distance::L2<1>, false>(rng);
    break;
  case 1:
    training<3, L1<3>, true>(rng);
    break;
  case 2:
    training<4, Distance::L2<4>, false>(rng);
    break;
  default:
    training<2, Distance::L2<2>, false>(rng);
  }
}

// the factors for any pair of cells, in any order of calls
VP_SCENARIO(factors, 2) {
  bool   large = rng.chance(0.2);
  size_t nx = rng.in(1, large ? 3000 : 40), ny = rng.in(1, large ? 3000 : 40), total = rng.in(1, large ? 5000000 : 50);
  double radius = rng.real(0.1, large ? 5000 : 60), mult = rng.real(0.1, 4);
  auto   disk = NeighborhoodFunc::linearUnitDisk(radius);
  auto   koho = rng.chance(0.2) ? NeighborhoodFunc::kohonen(nx, ny) : NeighborhoodFunc::kohonen(nx, ny, mult);
  bool   def  = false;
  (void)def;
  auto lin = LearningRestraintFunc::linear();
  auto ex  = LearningRestraintFunc::exponentialDecay(radius);
  auto dk  = NeighborhoodFunc::kohonen(nx, ny), mk = NeighborhoodFunc::kohonen(nx, ny, mult);
  size_t i = 0;
  for (int k = 0; k < 30; ++k) {
    // the same functions may serve trainings of different lengths
    bool again = k && rng.chance(0.2);
    if (rng.chance(0.3)) {
      total = rng.in(again ? i + 1 : 1, large ? 5000000 : 50);
    }
    std::pair<size_t, size_t> b{rng.below(nx), rng.below(ny)}, c{rng.below(nx), rng.below(ny)};
    if (rng.chance(0.2)) {
      c = b;
    }
    if (!again) {
      i = rng.below(total);
    }
    double dx = double(b.first) - double(c.first), dy = double(b.second) - double(c.second), d = std::sqrt(dx * dx + dy * dy);
    double r  = radius * double(total - i) / double(total);
    if (std::fabs(d - r) > 1e-9 * std::max(1., r)) {
      double f = disk(b, c, i, total);
      VP_CHECK(f == (d < r ? 1 : 0), "som:disk", "factor " << f << " at distance " << d << " with radius " << r << " (unit " << b.first << "," << b.second << ", cell "
                                                           << c.first << "," << c.second << ")");
      vp::cover(d < r ? "inside" : "outside");
    }
    double s0 = std::max(nx, ny) / 2., s = s0 * std::pow(s0, -double(i) / double(total));
    for (int q = 0; q < 2; ++q) {
      double cut = (q ? mult : 1.) * s;
      if (std::fabs(d - cut) > 1e-9 * std::max(1., cut)) {
        double f = (q ? mk : dk)(b, c, i, total), w = d < cut ? std::exp(-d * d / (2 * s * s)) : 0;
        VP_CHECK(vp::close(f, w, 1e-9, 1e-300), "som:kohonen", "factor " << f << " instead of " << w << " at distance " << d << " sigma " << s);
        vp::cover(w > 0 ? "weighted" : "cut");
      }
    }
    VP_CHECK(vp::close(lin(i, total), 1 - double(i) / double(total), 1e-12, 1e-15), "som:linear", "factor " << lin(i, total));
    VP_CHECK(vp::close(ex(i, total), radius * std::exp(-double(i) / double(total)), 1e-12), "som:decay", "factor " << ex(i, total));
  }
}

// sampling: each policy visits what it says, whatever the container
template <typename Container>
static void samplingOf(vp::Rng& rng) {
  Container c;
  size_t    n = rng.pick(std::vector<size_t>{0, 1, 2, 3, 5, 12, 300});
  for (size_t i = 0; i < n; ++i) {
    c.push_back(int(i));
  }
  using It   = typename Container::iterator;
  auto visit = [&](const SamplingPolicy::Interface<It>& p) {
    std::vector<int> seen;
    for (auto it = p.start(c.begin(), c.end()); it != c.end(); it = p.next(it)) {
      seen.push_back(*it);
      VP_CHECK(seen.size() <= n, "som:policy", "more visits than elements: " << vp::show(seen));
    }
    return seen;
  };
  SamplingPolicy::FullSet<It> full;
  std::vector<int>            all(c.begin(), c.end());
  VP_CHECK(visit(full) == all && visit(full) == all, "som:full", "not every element visited once");
  auto          boot = SamplingPolicy::bootstrapFactory(c.begin());
  std::set<int> drawn;
  size_t        times = n < 20 && rng.chance(0.02) ? 500 : 2;
  for (size_t i = 0; i < times; ++i) {
    auto v = visit(boot);
    VP_CHECK(v.size() == (n ? 1 : 0), "som:bootstrap", "visited " << vp::show(v));
    drawn.insert(v.begin(), v.end());
  }
  VP_CHECK(times < 500 || drawn.size() == n, "som:bootstrap", "only " << drawn.size() << " of " << n << " elements are ever drawn");
  size_t size = rng.below(n + 3);
  auto   jack = SamplingPolicy::jackknifeFactory(c.begin(), size);
  drawn.clear();
  std::set<int> firsts;
  for (size_t i = 0; i < times; ++i) {
    auto v = visit(jack);
    VP_CHECK(v.size() == std::min(n, size), "som:jackknife", "sample of " << v.size() << " instead of " << size << " of " << n);
    VP_CHECK(std::set<int>(v.begin(), v.end()).size() == v.size(), "som:jackknife", "element twice in " << vp::show(v));
    drawn.insert(v.begin(), v.end());
    if (!v.empty()) {
      firsts.insert(v[0]);
    }
  }
  VP_CHECK(times < 500 || size == 0 || (drawn.size() == n && firsts.size() == n), "som:jackknife", "only " << drawn.size() << " of " << n << " elements are ever drawn");
  vp::cover("samples", 2 * times);
  vp::cover("no_elements", n == 0);
  vp::cover("many_samples", times == 500);
}
VP_SCENARIO(sampling, 1) {
  rng.chance(0.5) ? samplingOf<std::vector<int>>(rng) : samplingOf<std::list<int>>(rng);
}

VP_SCENARIO(initial, 1) {
  double lo = rng.real(-100, 100), hi = lo + rng.real(1e-3, 100);
  {
    SOM<2> som(3, 4, InitFunc::uniformRandom(lo, hi));
    std::set<double> seen;
    for (auto& c : som) {
      for (double w : c) {
        VP_CHECK(w >= lo && w <= hi, "som:uniform", w << " outside of " << lo << "," << hi);
        seen.insert(w);
      }
    }
    VP_CHECK(seen.size() > 20, "som:uniform", "only " << seen.size() << " different weights");
  }
  {
    SOM<3> som(2, 2);
    for (auto& c : som) {
      for (double w : c) {
        VP_CHECK(w == 0, "som:zero", "weight " << w);
      }
    }
  }
  if (rng.chance(0.05)) {
    double mu = lo, sigma = rng.real(0.1, 10), sum = 0, sq = 0;
    auto   f = InitFunc::normalDistribution(sigma, mu);
    auto   u = InitFunc::uniformRandom(lo, hi);
    int    n = 4000;
    double us = 0;
    for (int i = 0; i < n; ++i) {
      double v = f() - mu;
      sum += v;
      sq += v * v;
      us += u();
    }
    VP_CHECK(std::fabs(sum / n) < 8 * sigma / std::sqrt(n), "som:normal", "mean " << mu + sum / n << " instead of " << mu);
    VP_CHECK(std::fabs(std::sqrt(sq / n) / sigma - 1) < 0.2, "som:normal", "deviation " << std::sqrt(sq / n) << " instead of " << sigma);
    VP_CHECK(std::fabs(us / n - (lo + hi) / 2) < 8 * (hi - lo) / std::sqrt(12. * n), "som:uniform", "mean " << us / n);
    vp::cover("distributions");
  }
  vp::cover("initialised");
}
VP_MAIN()
