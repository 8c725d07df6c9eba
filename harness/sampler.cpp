// C17: InverseCumulative and NdSampler
#include "vp.h"
#include "GridContainer/GridContainer.h"
#include "MathUtils/PDF/NdSampler.h"
#include "MathUtils/PDF/NdSamplerFromGrid.h"
#include "MathUtils/helpers/InverseCumulative.h"
#include <algorithm>
#include <random>
using namespace Euclid::MathUtils;
typedef long double ld;
namespace {
struct Pdf {
  std::vector<double> x, p;
};
Pdf make(vp::Rng& r, bool far) {
  Pdf    d;
  size_t n = r.chance(0.1) ? 1 : r.chance(0.02) ? r.in(100, 2000) : r.in(2, 12);
  bool   wide = r.chance(0.3);
  double unit = wide ? std::pow(10., r.in(-12, 12)) : 1;
  double x = unit * (far ? r.real(-1e6, 1e6) : r.in(-40, 40) / 8.), scale = std::pow(10., wide ? r.in(-60, 60) : r.in(-4, 3));
  bool   zeros = r.chance(0.5), steps = r.chance(0.2);
  for (size_t i = 0; i < n; ++i) {
    d.x.push_back(x);
    d.p.push_back(zeros && r.chance(0.35) ? 0 : scale * (r.chance(0.2) && i ? d.p.back() / scale : r.real(0.01, 4)));
    x += steps && r.chance(0.2) ? 0. : unit * (r.chance(0.3) ? r.real(0.001, 0.1) : r.real(0.1, 2));
  }
  if (wide) {
    vp::cover("scaled");
  }
  return d;
}
// cumulative distribution of the polygon
struct Cdf {
  const Pdf&      d;
  std::vector<ld> c;
  explicit Cdf(const Pdf& pdf) : d(pdf), c(pdf.x.size(), 0) {
    for (size_t i = 1; i < c.size(); ++i) {
      c[i] = c[i - 1] + (ld(d.x[i]) - d.x[i - 1]) * (ld(d.p[i]) + d.p[i - 1]) / 2;
    }
  }
  ld total() const {
    return c.back();
  }
  ld at(ld x) const {
    if (x <= d.x.front()) {
      return 0;
    }
    if (x >= d.x.back()) {
      return c.back();
    }
    size_t i = 0;
    while (x > d.x[i + 1]) {
      ++i;
    }
    ld h = ld(d.x[i + 1]) - d.x[i], t = x - d.x[i];
    return c[i] + d.p[i] * t + (ld(d.p[i + 1]) - d.p[i]) / h * t * t / 2;
  }
};
std::string text(const Pdf& d) {
  return "x " + vp::show(d.x) + " pdf " + vp::show(d.p);
}
}  // namespace
VP_SCENARIO(continuous, 4) {
  bool far = rng.chance(0.15);
  auto d   = make(rng, far);
  Cdf  cdf(d);
  InverseCumulative<double> inv(d.x, d.p);
  std::vector<double> ps{0, 1, 0.5};
  for (int k = 0; k < 30; ++k) {
    ps.push_back(rng.chance(0.2) && cdf.total() > 0 ? std::min(1., double(rng.pick(cdf.c) / cdf.total())) : rng.unit());
  }
  std::sort(ps.begin(), ps.end());
  double last = -1e300;
  for (double p : ps) {
    double x = inv(p);
    VP_CHECK(x >= d.x.front() && x <= d.x.back(), "outside", "p=" << p << " gives " << x << ", " << text(d));
    VP_CHECK(x >= last - 1e-9 * (d.x.back() - d.x.front()) - 1e-15 * std::fabs(x), "not-monotonic", "p=" << p << " gives " << x << " after " << last << ", " << text(d));
    last = x;
    if (cdf.total() > 0) {
      // the cumulative just below and just above must enclose p (rounding of x, of the cumulative and of the offset)
      ld dx = 1e-13L * std::fabs(x) + 1e-9L * (d.x.back() - d.x.front()), lo = cdf.at(x - dx) / cdf.total(), hi = cdf.at(x + dx) / cdf.total();
      ld slack = 1e-11L;
      VP_CHECK(lo <= p + slack && hi >= p - slack, "wrong-quantile", "p=" << p << " gives " << x << " where the cumulative is " << double(cdf.at(x) / cdf.total()) << ", " << text(d));
      vp::cover("quantiles");
      vp::cover(far ? "far" : "near");
    } else {
      vp::cover("without_probability");
    }
  }
  if (cdf.total() > 0) {
    // what has no probability at the end is never drawn
    size_t end = std::find(cdf.c.begin(), cdf.c.end(), cdf.total()) - cdf.c.begin();
    VP_CHECK(inv(1.) <= d.x[end], "outside", "p=1 gives " << inv(1.) << " after the last probability at " << d.x[end] << ", " << text(d));
  }
  for (double p : {-1e-9, 1 + 1e-9, -5., 7.}) {
    VP_THROWS(inv(p), "probability-accepted", p);
  }
  vp::distinct(vp::fnv(text(d)));
}
VP_SCENARIO(discrete, 3) {
  size_t                   n = rng.chance(0.02) ? rng.in(100, 1000) : rng.in(1, 12);
  double                   scale = rng.chance(0.3) ? std::pow(10., rng.in(-60, 60)) : 1;
  std::vector<std::string> k;
  std::vector<int>         ki;
  std::vector<double>      p;
  double                   total = 0;
  for (size_t i = 0; i < n; ++i) {
    ki.push_back(rng.in(-100000, 100000));
    k.push_back("k" + std::to_string(ki.back()));
    p.push_back(rng.chance(0.25) ? 0 : scale * (rng.chance(0.5) ? rng.in(1, 16) : rng.real(0.001, 3)));
    total += p.back();
  }
  if (total == 0) {
    p[rng.below(n)] = total = 1;
  }
  InverseCumulative<std::string> inv(k, p);
  InverseCumulative<int>         invi(ki, p);
  for (int q = 0; q < 30; ++q) {
    double prob = q == 0 ? 1 : q == 1 ? 0 : rng.unit();
    auto   s    = inv(prob);
    int    v    = invi(prob);
    VP_CHECK(s == "k" + std::to_string(v), "wrong-knot", "knots of different types");
    // acceptable: a knot whose interval of the cumulative contains prob
    ld   c  = 0;
    bool ok = false;
    for (size_t i = 0; i < n; ++i) {
      ld from = c / total, to = (c + p[i]) / total;
      ok      = ok || (ki[i] == v && prob >= from - 1e-12L && prob <= to + 1e-12L && (p[i] > 0 || prob == 0));
      c += p[i];
    }
    VP_CHECK(ok, "wrong-knot", "p=" << prob << " gives " << v << ", knots " << vp::show(ki) << " pdf " << vp::show(p));
    vp::cover("discrete_quantiles");
  }
  for (double x : {-1e-9, 1 + 1e-9}) {
    VP_THROWS(inv(x), "probability-accepted", x);
  }
  vp::distinct(vp::fnv(vp::show(ki) + vp::show(p)));
}
VP_SCENARIO(refused, 1) {
  auto d = make(rng, false);
  typedef InverseCumulative<double> C;
  typedef InverseCumulative<int>    D;
  auto bad = d.p;
  bad.push_back(1);
  std::vector<int> ki(d.x.size(), 3);
  VP_THROWS(C(d.x, bad), "sizes-accepted", "more values than knots");
  VP_THROWS(D(ki, bad), "sizes-accepted", "more values than knots");
  bad.pop_back();
  bad.pop_back();
  VP_THROWS(C(d.x, bad), "sizes-accepted", "less values than knots");
  VP_THROWS(D(ki, bad), "sizes-accepted", "less values than knots");
  VP_THROWS(C(std::vector<double>{}, std::vector<double>{}), "sizes-accepted", "nothing");
  VP_THROWS(D(std::vector<int>{}, std::vector<double>{}), "sizes-accepted", "nothing");
  if (d.x.size() > 1 && d.x[0] < d.x[1]) {
    std::swap(d.x[0], d.x[1]);
    VP_THROWS(C(d.x, d.p), "unsorted-accepted", vp::show(d.x));
  }
  vp::cover("refusals");
}
// ------------------------------------------------------------------------------------------------ sampler
namespace {
std::vector<double> knots(vp::Rng& r, size_t n) {
  std::vector<double> x;
  double              unit = r.chance(0.3) ? std::pow(10., r.in(-10, 10)) : 1;
  double              v = unit * (r.in(-16, 16) / 4.);
  for (size_t i = 0; i < n; ++i) {
    x.push_back(v);
    v += unit * (r.chance(0.5) ? 0.5 : r.real(0.2, 2));
  }
  return x;
}
// weight of each knot in the integral of the polygon over (-inf, t]
std::vector<ld> upTo(const std::vector<double>& x, double t) {
  std::vector<ld> w(x.size(), 0);
  if (x.size() == 1) {
    w[0] = t >= x[0];
    return w;
  }
  for (size_t i = 0; i + 1 < x.size(); ++i) {
    ld h = ld(x[i + 1]) - x[i], u = std::min<ld>(std::max<ld>((ld(t) - x[i]) / h, 0), 1);
    w[i] += h * (u - u * u / 2);
    w[i + 1] += h * u * u / 2;
  }
  return w;
}
std::vector<ld> upToDiscrete(size_t n, size_t k) {
  std::vector<ld> w(n, 0);
  std::fill(w.begin(), w.begin() + k + 1, 1);
  return w;
}
void compare(double got, ld want, size_t n, const std::string& what) {
  ld sigma = std::sqrt(std::max<ld>(want * (1 - want), 0) / n);
  VP_CHECK(std::fabs(got - want) <= 6.5L * sigma + 2.0L / n, "wrong-distribution", what << ": fraction " << got << " of " << n << " draws instead of " << double(want));
  vp::cover("fractions");
}
double value(vp::Rng& r, bool zeros, double scale) {
  return zeros && r.chance(0.3) ? 0 : scale * r.real(0.05, 3);
}
}  // namespace
VP_SCENARIO(sampler_1d, 1) {
  size_t              n = rng.chance(0.1) ? rng.in(9, 60) : rng.in(1, 8), draws = 3000;
  double              scale = rng.chance(0.3) ? std::pow(10., rng.in(-30, 30)) : 1;
  auto                x = knots(rng, n);
  Euclid::NdArray::NdArray<double> grid({n});
  bool                zeros = rng.chance(0.4);
  for (size_t i = 0; i < n; ++i) {
    grid.at(i) = value(rng, zeros, scale);
  }
  if (grid.at(0) == 0) {
    grid.at(0) = scale;
  }
  std::mt19937 gen(rng.next()), gen2 = gen;
  bool         disc = rng.chance(0.5);
  std::vector<double> got;
  if (disc) {
    std::vector<int> k;
    for (size_t i = 0; i < n; ++i) {
      k.push_back(i);
    }
    NdSampler<int> s(k, grid);
    for (auto& t : s.draw(draws, gen)) {
      got.push_back(std::get<0>(t));
      VP_CHECK(got.back() >= 0 && got.back() < n && grid.at(size_t(got.back())) > 0, "drew-impossible", "drew " << got.back());
    }
  } else {
    NdSampler<double> s(x, grid);
    for (auto& t : s.draw(draws, gen)) {
      got.push_back(std::get<0>(t));
      VP_CHECK(got.back() >= x.front() && got.back() <= x.back(), "drew-impossible", "drew " << got.back());
    }
    std::vector<std::tuple<double>> out(draws);
    s.draw(draws, gen2, out);
    VP_CHECK(std::get<0>(out[draws - 1]) == got.back() && gen == gen2, "not-reproducible", "same generator, other samples");
    VP_THROWS(s.draw(draws + 1, gen2, out), "output-accepted", "output of the wrong size");
    VP_THROWS(s.draw(draws - 1, gen2, out), "output-accepted", "output of the wrong size");
    typedef NdSampler<double> S1;
    Euclid::NdArray::NdArray<double> flat({n, size_t(1)}, std::vector<double>(n, 1.));
    VP_THROWS(S1(x, flat), "sizes-accepted", "two dimensional array for one axis");
    auto more = x;
    more.push_back(x.back() + 1);
    VP_THROWS(S1(more, grid), "sizes-accepted", "more knots than cells");
    more.pop_back();
    more.pop_back();
    VP_THROWS(S1(more, grid), "sizes-accepted", "fewer knots than cells");
    if (n > 2) {
      more = x;
      std::swap(more[n - 2], more[n - 1]);
      VP_THROWS(S1(more, grid), "unsorted-accepted", vp::show(more));
    }
  }
  ld total = 0;
  auto wt = disc ? upToDiscrete(n, n - 1) : upTo(x, x.back());
  for (size_t i = 0; i < n; ++i) {
    total += wt[i] * grid.at(i);
  }
  for (int q = 0; q < 6; ++q) {
    size_t kk = rng.below(n);
    double t  = disc ? double(kk) : rng.real(x.front(), x.back());
    auto   w  = disc ? upToDiscrete(n, kk) : upTo(x, t);
    ld     c  = 0;
    for (size_t i = 0; i < n; ++i) {
      c += w[i] * grid.at(i);
    }
    size_t below = std::count_if(got.begin(), got.end(), [t](double v) { return v <= t; });
    compare(double(below) / draws, c / total, draws, disc ? "discrete" : "continuous");
  }
  vp::distinct(rng.next());
}
VP_SCENARIO(sampler_nd, 2) {
  // axes: continuous, discrete, continuous (first axis is the last of the array)
  size_t nx = rng.in(2, 5), nk = rng.in(1, 4), ny = rng.in(2, 5), draws = 2500;
  double scale = rng.chance(0.3) ? std::pow(10., rng.in(-30, 30)) : 1;
  auto   x = knots(rng, nx), y = knots(rng, ny);
  std::vector<int> k;
  for (size_t i = 0; i < nk; ++i) {
    k.push_back(int(i) * 3 - 4);
  }
  Euclid::NdArray::NdArray<double> grid({ny, nk, nx});
  bool                             zeros = rng.chance(0.4);
  for (size_t c = 0; c < ny; ++c) {
    for (size_t b = 0; b < nk; ++b) {
      for (size_t a = 0; a < nx; ++a) {
        grid.at(c, b, a) = value(rng, zeros, scale);
      }
    }
  }
  grid.at(0, 0, 0) = 2 * scale;
  std::mt19937 gen(rng.next()), gen2 = gen;
  auto gen3 = gen, gen4 = gen;
  NdSampler<double, int, double> s(std::make_tuple(x, k, y), grid);
  auto got = s.draw(draws, gen);
  VP_CHECK(got.size() == draws, "wrong-number", got.size() << " draws");
  for (auto& t : got) {
    VP_CHECK(std::get<0>(t) >= x.front() && std::get<0>(t) <= x.back() && std::get<2>(t) >= y.front() && std::get<2>(t) <= y.back() && std::find(k.begin(), k.end(), std::get<1>(t)) != k.end(),
             "drew-impossible", "drew " << std::get<0>(t) << "," << std::get<1>(t) << "," << std::get<2>(t));
  }
  auto ones = [](const std::vector<double>& v) { return upTo(v, v.back()); };
  auto sum  = [&](const std::vector<ld>& wx, const std::vector<ld>& wk, const std::vector<ld>& wy) {
    ld r = 0;
    for (size_t c = 0; c < ny; ++c) {
      for (size_t b = 0; b < nk; ++b) {
        for (size_t a = 0; a < nx; ++a) {
          r += wx[a] * wk[b] * wy[c] * grid.at(c, b, a);
        }
      }
    }
    return r;
  };
  ld total = sum(ones(x), upToDiscrete(nk, nk - 1), ones(y));
  for (int q = 0; q < 8; ++q) {
    bool   ux = rng.chance(0.7), uk = rng.chance(0.5), uy = rng.chance(0.7);
    double tx = rng.real(x.front(), x.back()), ty = rng.real(y.front(), y.back());
    size_t tk = rng.below(nk);
    ld     want  = sum(ux ? upTo(x, tx) : ones(x), upToDiscrete(nk, uk ? tk : nk - 1), uy ? upTo(y, ty) : ones(y)) / total;
    size_t below = 0;
    for (auto& t : got) {
      below += (!ux || std::get<0>(t) <= tx) && (!uk || std::get<1>(t) <= k[tk]) && (!uy || std::get<2>(t) <= ty);
    }
    compare(double(below) / draws, want, draws, "three axes");
    vp::cover("joint_fractions");
  }
  // the same from a grid container
  typedef Euclid::GridContainer::GridContainer<std::vector<double>, double, int, double> Grid;
  Grid g(Euclid::GridContainer::GridAxis<double>("x", x), Euclid::GridContainer::GridAxis<int>("k", k), Euclid::GridContainer::GridAxis<double>("y", y));
  for (size_t c = 0; c < ny; ++c) {
    for (size_t b = 0; b < nk; ++b) {
      for (size_t a = 0; a < nx; ++a) {
        g(a, b, c) = grid.at(c, b, a);
      }
    }
  }
  auto from = createSamplerFromGrid(g)->draw(draws, gen2);
  VP_CHECK(from == got, "grid-sampler-differs", "sampler from a grid with the same generator");
  // and with the first axis inside the cells
  typedef Euclid::GridContainer::GridContainer<std::vector<std::vector<double>>, int, double> Nested;
  Nested nested(Euclid::GridContainer::GridAxis<int>("k", k), Euclid::GridContainer::GridAxis<double>("y", y));
  for (size_t c = 0; c < ny; ++c) {
    for (size_t b = 0; b < nk; ++b) {
      for (size_t a = 0; a < nx; ++a) {
        nested(b, c).push_back(grid.at(c, b, a));
      }
    }
  }
  auto inside = createSamplerFromGrid(nested, x)->draw(draws, gen3);
  VP_CHECK(inside == got, "grid-sampler-differs", "sampler from a grid of vectors with the same generator");
  std::vector<size_t> index(nx);
  for (size_t a = 0; a < nx; ++a) {
    index[a] = a;
  }
  auto gen5   = gen4;
  auto byidx  = createSamplerFromGrid(nested)->draw(200, gen4);
  auto direct = NdSampler<size_t, int, double>(std::make_tuple(index, k, y), grid).draw(200, gen5);
  VP_CHECK(byidx == direct, "grid-sampler-differs", "sampler from a grid of vectors without knots");
  vp::cover("grid_samplers");
  typedef NdSampler<double, int, double> S;
  auto x2 = x;
  x2.push_back(x2.back() + 1);
  VP_THROWS(S(std::make_tuple(x2, k, y), grid), "sizes-accepted", "first axis");
  auto k2 = k;
  k2.push_back(77);
  VP_THROWS(S(std::make_tuple(x, k2, y), grid), "sizes-accepted", "second axis");
  auto y2 = y;
  y2.push_back(y2.back() + 1);
  VP_THROWS(S(std::make_tuple(x, k, y2), grid), "sizes-accepted", "third axis");
  y2.pop_back();
  y2.pop_back();
  VP_THROWS(S(std::make_tuple(x, k, y2), grid), "sizes-accepted", "third axis");
  x2.pop_back();
  x2.pop_back();
  VP_THROWS(S(std::make_tuple(x2, k, y), grid), "sizes-accepted", "first axis");
  Euclid::NdArray::NdArray<double> flat({ny * nk, nx}, std::vector<double>(ny * nk * nx, 1.)), deep({ny, nk, nx, size_t(1)}, std::vector<double>(ny * nk * nx, 1.));
  VP_THROWS(S(std::make_tuple(x, k, y), flat), "sizes-accepted", "two dimensions");
  VP_THROWS(S(std::make_tuple(x, k, y), deep), "sizes-accepted", "four dimensions");
  std::vector<std::tuple<double, int, double>> out(100, std::make_tuple(1e9, 77, 1e9));
  VP_THROWS(s.draw(101, gen, out), "output-accepted", "output of the wrong size");
  VP_THROWS(s.draw(99, gen, out), "output-accepted", "output of the wrong size");
  auto gen6 = gen;
  auto want = s.draw(100, gen);
  s.draw(100, gen6, out);
  VP_CHECK(out == want && gen == gen6, "not-reproducible", "same generator, other samples");
  vp::distinct(rng.next());
}
VP_MAIN()
