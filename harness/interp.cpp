// C14: one and many dimensional interpolation against long double references
#include "vp.h"
#include "MathUtils/function/function_tools.h"
#include "MathUtils/interpolation/GridInterpolation.h"
#include "MathUtils/interpolation/interpolation.h"
#include "XYDataset/XYDataset.h"
#include <algorithm>
#include <functional>
using namespace Euclid::MathUtils;
typedef long double ld;
namespace {
struct Value {
  ld v, tol;
};
// knots without exact duplicates; equal x with different y is a step
struct Data {
  std::vector<double> x, y;    // as given
  std::vector<double> fx, fy;  // without duplicates
  bool                steps = false, end_steps = false;
  double              sx = 1, sy = 1;  // scale of positions and values
};
Data make(vp::Rng& r, bool steps) {
  Data   d;
  size_t n  = r.chance(0.1) ? 1 : r.chance(0.15) ? 2 : r.chance(0.05) ? r.in(13, 150) : r.in(3, 12);
  double x  = r.chance(0.2) ? 0 : r.in(-80, 80) / 8.;
  bool   regular = r.chance(0.3), dups = r.chance(0.4);
  for (size_t i = 0; i < n; ++i) {
    double y = r.chance(0.15) && !d.y.empty() ? d.y.back() : r.chance(0.1) ? 0. : r.in(-800, 800) / 8.;
    d.x.push_back(x);
    d.y.push_back(y);
    d.fx.push_back(x);
    d.fy.push_back(y);
    while (dups && r.chance(0.3)) {
      d.x.push_back(x);
      d.y.push_back(y);
      vp::cover("duplicates");
    }
    if (steps && r.chance(0.2)) {
      d.x.push_back(x);
      d.y.push_back(y + r.in(1, 50));
      d.fx.push_back(x);
      d.fy.push_back(d.y.back());
      d.steps = true;
      if (i == 0 || i + 1 == n) {
        d.end_steps = true;
      }
      vp::cover("steps");
    }
    x += regular ? 0.5 : r.chance(0.2) ? 0.125 : r.real(0.2, 3);
  }
  if (r.chance(0.4)) {
    d.sx = std::ldexp(1., r.in(-60, 60));
    d.sy = std::ldexp(1., r.in(-60, 60));
    for (auto v : {&d.x, &d.fx}) {
      for (auto& e : *v) {
        e *= d.sx;
      }
    }
    for (auto v : {&d.y, &d.fy}) {
      for (auto& e : *v) {
        e *= d.sy;
      }
    }
    vp::cover("scaled");
  }
  if (n > 12) {
    vp::cover("many_points");
  }
  return d;
}
Value linearRef(const Data& d, double x, bool extra) {
  auto& X = d.fx;
  auto& Y = d.fy;
  if (X.size() == 1) {
    return {extra || x == X[0] ? ld(Y[0]) : 0.L, 0};
  }
  if (!extra && (x < X.front() || x > X.back())) {
    return {0, 0};
  }
  size_t i = 0;
  while (i + 2 < X.size() && (x > X[i + 1] || X[i] == X[i + 1])) {
    ++i;
  }
  ld s = (ld(Y[i + 1]) - Y[i]) / (ld(X[i + 1]) - X[i]);
  return {Y[i] + s * (ld(x) - X[i]), 1e-14L * (std::fabs(s) * (std::fabs(x) + std::fabs(X[i])) + std::fabs(Y[i]) + std::fabs(Y[i + 1]) + 1e-9L * d.sy)};
}
struct Spline {
  std::vector<ld> M;  // second derivatives
  const Data&     d;
  explicit Spline(const Data& data) : d(data) {
    size_t n = d.fx.size();
    M.assign(n, 0);
    if (n < 3) {
      return;
    }
    std::vector<ld> a(n), b(n, 1), c(n), r(n);
    for (size_t i = 1; i + 1 < n; ++i) {
      ld h0 = ld(d.fx[i]) - d.fx[i - 1], h1 = ld(d.fx[i + 1]) - d.fx[i];
      a[i] = h0 / 6;
      b[i] = (h0 + h1) / 3;
      c[i] = h1 / 6;
      r[i] = (ld(d.fy[i + 1]) - d.fy[i]) / h1 - (ld(d.fy[i]) - d.fy[i - 1]) / h0;
    }
    for (size_t i = 1; i < n; ++i) {
      ld w = a[i] / b[i - 1];
      b[i] -= w * c[i - 1];
      r[i] -= w * r[i - 1];
    }
    M[n - 1] = 0;
    for (size_t i = n - 1; i-- > 0;) {
      M[i] = (r[i] - c[i] * M[i + 1]) / b[i];
    }
    M[0] = 0;
  }
  Value at(double x, bool extra) const {
    auto&  X = d.fx;
    auto&  Y = d.fy;
    size_t n = X.size();
    if (n == 1) {
      return {extra || x == X[0] ? ld(Y[0]) : 0.L, 0};
    }
    if (!extra && (x < X.front() || x > X.back())) {
      return {0, 0};
    }
    size_t i = 0;
    while (i + 2 < n && x > X[i + 1]) {
      ++i;
    }
    ld h = ld(X[i + 1]) - X[i], u = ld(X[i + 1]) - x, v = ld(x) - X[i];
    ld y = M[i] * u * u * u / (6 * h) + M[i + 1] * v * v * v / (6 * h) + (Y[i] / h - M[i] * h / 6) * u + (Y[i + 1] / h - M[i + 1] * h / 6) * v;
    // size of the terms of the polynomials in powers of x
    ld big = 0;
    for (size_t k = 0; k < n; ++k) {
      big = std::max(big, std::fabs(M[k]));
    }
    ld ym = 0, hm = 1e300L;
    for (size_t k = 0; k < n; ++k) {
      ym = std::max(ym, std::fabs(ld(Y[k])));
      if (k) {
        hm = std::min(hm, ld(X[k]) - X[k - 1]);
      }
    }
    ld t = std::fabs(ld(x)) + std::fabs(ld(X[i])) + d.sx;
    return {y, 1e-14L * (ym + ym / hm * t + (big + 30 * ym / hm / hm) * t * t + (big + 30 * ym / hm / hm) / hm * t * t * t)};
  }
};
bool atStep(const Data& d, double x) {
  return std::count(d.fx.begin(), d.fx.end(), x) > 1;
}
}  // namespace
VP_SCENARIO(one_dimension, 3) {
  bool linear = rng.chance(0.5), extra = rng.chance(0.5);
  auto d    = make(rng, linear && rng.chance(0.4));
  auto type = linear ? InterpolationType::LINEAR : InterpolationType::CUBIC_SPLINE;
  std::unique_ptr<Function> f;
  if (rng.chance(0.3)) {
    f = interpolate(Euclid::XYDataset::XYDataset::factory(d.x, d.y), type, extra);
    vp::cover("datasets");
  } else {
    f = interpolate(d.x, d.y, type, extra);
  }
  VP_CHECK(f != nullptr, "no-function", "nothing returned");
  auto   clone = f->clone();
  Spline sp(d);
  double lo = d.fx.front(), hi = d.fx.back(), w = hi - lo + d.sx;
  for (int k = 0; k < 40; ++k) {
    double x = rng.chance(0.25) ? rng.pick(d.fx) : rng.chance(0.25) ? (rng.chance(0.5) ? lo - w * rng.unit() : hi + w * rng.unit()) : rng.real(lo, hi);
    if (rng.chance(0.1)) {
      x = std::nextafter(x, rng.chance(0.5) ? 1e300 : -1e300);
    } else if (rng.chance(0.03)) {  // far away
      x = (rng.chance(0.5) ? -w : w) * std::pow(10., rng.in(1, linear ? 80 : 30));
      vp::cover("far_away");
    }
    double got = (*f)(x);
    VP_CHECK(std::isfinite(got), "not-finite", (linear ? "linear" : "spline") << (extra ? " extrapolated" : "") << " at " << x << " is " << got << ", x " << vp::show(d.x) << " y " << vp::show(d.y));
    if (atStep(d, x) || (d.end_steps && extra && (x <= lo || x >= hi))) {
      double ymin = 1e300, ymax = -1e300;
      for (size_t i = 0; i < d.fx.size(); ++i) {
        if (d.fx[i] == x) {
          ymin = std::min(ymin, d.fy[i]);
          ymax = std::max(ymax, d.fy[i]);
        }
      }
      VP_CHECK(!atStep(d, x) || (got >= ymin - 1e-9 * d.sy && got <= ymax + 1e-9 * d.sy), "wrong-step", "at the step " << x << " is " << got << " not between " << ymin << " and " << ymax);
      continue;
    }
    Value v = linear ? linearRef(d, x, extra) : sp.at(x, extra);
    VP_CHECK(std::fabs(got - v.v) <= v.tol, linear ? "wrong-linear" : "wrong-spline",
             (linear ? "linear" : "spline") << (extra ? " extrapolated" : "") << " at " << x << " is " << got << " instead of " << double(v.v) << " tolerance " << double(v.tol) << ", x " << vp::show(d.x) << " y " << vp::show(d.y));
    VP_CHECK((*clone)(x) == got, "wrong-clone", "clone at " << x);
    vp::cover(linear ? "linear_values" : "spline_values");
    vp::cover(x < lo || x > hi ? (extra ? "extrapolated" : "outside") : "inside");
  }
  if (linear) {
    for (int k = 0; k < 15; ++k) {
      double x = rng.chance(0.4) ? rng.pick(d.fx) : rng.chance(0.3) ? rng.real(lo - w, hi + w) : rng.real(lo, hi);
      double got = simple_interpolation(x, d.fx, d.fy, extra);
      if (atStep(d, x)) {
        double ymin = 1e300, ymax = -1e300;
        for (size_t i = 0; i < d.fx.size(); ++i) {
          if (d.fx[i] == x) {
            ymin = std::min(ymin, d.fy[i]);
            ymax = std::max(ymax, d.fy[i]);
          }
        }
        VP_CHECK(got >= ymin - 1e-9 * d.sy && got <= ymax + 1e-9 * d.sy, "wrong-step", "simple_interpolation at the step " << x << " is " << got);
        continue;
      }
      if (d.end_steps && (x < lo || x > hi) && extra) {
        continue;
      }
      Value v = linearRef(d, x, extra);
      VP_CHECK(std::fabs(got - v.v) <= v.tol, "wrong-simple", "simple_interpolation at " << x << " is " << got << " instead of " << double(v.v));
      vp::cover("simple_values");
    }
  }
  // integral of the interpolation: trapezoids (linear, within the knots)
  if (linear && d.fx.size() > 1) {
    ld want = 0, tol = 0;
    for (size_t i = 1; i < d.fx.size(); ++i) {
      // as an antiderivative of a line in powers of x
      ld s = d.fx[i] == d.fx[i - 1] ? 0 : std::fabs((ld(d.fy[i]) - d.fy[i - 1]) / (ld(d.fx[i]) - d.fx[i - 1]));
      ld q = std::max(std::fabs(d.fx[i]), std::fabs(d.fx[i - 1]));
      tol += 1e-13L * (s * q * q + q * (std::fabs(d.fy[i]) + std::fabs(d.fy[i - 1])));
      want += (ld(d.fx[i]) - d.fx[i - 1]) * (ld(d.fy[i]) + d.fy[i - 1]) / 2;
    }
    double got = integrate(*f, lo, hi);
    VP_CHECK(std::fabs(got - want) <= tol, "wrong-integral", "integral of the linear interpolation is " << got << " instead of " << double(want) << " x " << vp::show(d.fx) << " y " << vp::show(d.fy));
    vp::cover("integrals");
  }
  vp::distinct(vp::fnv(vp::show(d.x) + vp::show(d.y)) + linear + 2 * extra);
}
VP_SCENARIO(refused, 1) {
  auto d = make(rng, false);
  auto t = rng.chance(0.5) ? InterpolationType::LINEAR : InterpolationType::CUBIC_SPLINE;
  bool e = rng.chance(0.5);
  std::vector<double> x = d.x, y = d.y;
  std::vector<double> none;
  VP_THROWS(interpolate(none, none, t, e), "empty-accepted", "no points");
  VP_THROWS(simple_interpolation(1, none, none, e), "empty-accepted", "no points");
  if (rng.chance(0.5)) {
    (rng.chance(0.5) ? x : y).resize(x.size() + 1 + rng.below(2), 1e6);
  } else {
    (rng.chance(0.5) ? x : y).pop_back();
  }
  VP_THROWS(interpolate(x, y, t, e), "sizes-accepted", x.size() << " and " << y.size());
  VP_THROWS(simple_interpolation(1, x, y, e), "sizes-accepted", x.size() << " and " << y.size());
  if (d.fx.size() > 1) {
    size_t i = rng.in(1, d.fx.size() - 1);
    std::swap(d.fx[i], d.fx[i - 1]);
    VP_THROWS(interpolate(d.fx, d.fy, t, e), "decreasing-accepted", vp::show(d.fx));
    std::swap(d.fx[i], d.fx[i - 1]);
    d.fx[i] = d.fx[i - 1];
    if (d.fy[i] == d.fy[i - 1]) {
      d.fy[i] += 1 + std::fabs(d.fy[i]);
    }
    VP_THROWS(interpolate(d.fx, d.fy, InterpolationType::CUBIC_SPLINE, e), "step-spline-accepted", vp::show(d.fx) << " " << vp::show(d.fy));
  }
  vp::cover("refusals");
}
namespace {
struct Axis {
  std::vector<double> knots;
  bool                discrete;
};
Axis axis(vp::Rng& r, bool discrete) {
  Axis   a{{}, discrete};
  size_t n = r.chance(0.15) ? 1 : r.in(2, 5);
  double x = r.in(-10, 10);
  for (size_t i = 0; i < n; ++i) {
    a.knots.push_back(x);
    x += discrete ? r.in(1, 4) : r.chance(0.5) ? r.in(1, 8) / 4. : r.real(0.05, 2);
  }
  if (discrete) {
    r.shuffle(a.knots);
  }
  return a;
}
struct NdRef {
  std::vector<Axis>   axes;
  std::vector<double> cells;  // first axis slowest
  Value at(const std::vector<double>& x, bool extra, size_t k = 0, size_t cell = 0) const {
    if (k == axes.size()) {
      return {cells[cell], 0};
    }
    auto& X    = axes[k].knots;
    auto  next = [&](size_t i) { return at(x, extra, k + 1, cell * X.size() + i); };
    if (axes[k].discrete) {
      auto i = std::find(X.begin(), X.end(), x[k]);
      return i == X.end() ? Value{0, 0} : next(i - X.begin());
    }
    if (!extra && (x[k] < X.front() || x[k] > X.back())) {
      return {0, 0};
    }
    if (X.size() == 1) {
      return next(0);
    }
    size_t i = 0;
    while (i + 2 < X.size() && x[k] > X[i + 1]) {
      ++i;
    }
    Value a = next(i), b = next(i + 1);
    ld    h = ld(X[i + 1]) - X[i], t = (ld(x[k]) - X[i]) / h;
    ld    s = (b.v - a.v) / h;
    return {a.v + (b.v - a.v) * t,
            a.tol * (1 + std::fabs(t)) + b.tol * (1 + std::fabs(t)) + 1e-14L * (std::fabs(s) * (std::fabs(x[k]) + std::fabs(X[i])) + std::fabs(a.v) + std::fabs(b.v)) +
                (a.tol + b.tol) / h * (std::fabs(x[k]) + std::fabs(X[i]))};
  }
};
NdRef grid(vp::Rng& r, std::vector<bool> discrete) {
  NdRef  g;
  size_t n = 1;
  for (bool d : discrete) {
    g.axes.push_back(axis(r, d));
    n *= g.axes.back().knots.size();
  }
  for (size_t i = 0; i < n; ++i) {
    g.cells.push_back(r.in(-800, 800) / 8.);
  }
  return g;
}
// reversed: the values have the axes in the opposite order
Euclid::NdArray::NdArray<double> values(const NdRef& g, bool reversed) {
  std::vector<size_t> shape;
  for (auto& a : g.axes) {
    shape.push_back(a.knots.size());
  }
  std::vector<size_t> rs(shape);
  if (reversed) {
    std::reverse(rs.begin(), rs.end());
  }
  Euclid::NdArray::NdArray<double> v(rs);
  for (size_t c = 0; c < g.cells.size(); ++c) {
    std::vector<size_t> i(shape.size());
    size_t              q = c;
    for (size_t k = shape.size(); k-- > 0;) {
      i[k] = q % shape[k];
      q /= shape[k];
    }
    if (reversed) {
      std::reverse(i.begin(), i.end());
    }
    v.at(i) = g.cells[c];
  }
  return v;
}
void probe(vp::Rng& r, const NdRef& g, bool extra, const std::function<double(const std::vector<double>&)>& f, const char* what) {
  for (int k = 0; k < 20; ++k) {
    std::vector<double> x;
    bool                outside = false, missing = false;
    for (auto& a : g.axes) {
      double lo = *std::min_element(a.knots.begin(), a.knots.end()), hi = *std::max_element(a.knots.begin(), a.knots.end());
      if (r.chance(0.3)) {
        x.push_back(r.pick(a.knots));
      } else if (a.discrete) {
        x.push_back(r.in(lo - 2, hi + 2));
        missing = missing || std::find(a.knots.begin(), a.knots.end(), x.back()) == a.knots.end();
      } else if (r.chance(0.15)) {
        x.push_back(r.chance(0.5) ? lo - r.real(0.01, 3) : hi + r.real(0.01, 3));
        outside = true;
      } else {
        x.push_back(r.real(lo, hi));
      }
    }
    double got = f(x);
    Value  v   = g.at(x, extra);
    VP_CHECK(std::isfinite(got) && std::fabs(got - v.v) <= v.tol + 1e-12L, "wrong-nd", what << (extra ? " extrapolated" : "") << " at " << vp::show(x) << " is " << got << " instead of " << double(v.v));
    vp::cover("nd_values");
    vp::cover(missing ? "nd_missing" : outside ? (extra ? "nd_extrapolated" : "nd_outside") : "nd_inside");
  }
}
std::vector<int> ints(const Axis& a) {
  return std::vector<int>(a.knots.begin(), a.knots.end());
}
}  // namespace
VP_SCENARIO(many_dimensions, 2) {
  bool extra = rng.chance(0.5);
  switch (rng.below(8)) {
  case 0: {
    auto            g = grid(rng, {false});
    InterpN<double> f(std::make_tuple(g.axes[0].knots), values(g, true), extra), c(f);
    probe(rng, g, extra, [&](const std::vector<double>& x) { return rng.chance(0.5) ? f(x[0]) : c(x[0]); }, "InterpN<double>");
    break;
  }
  case 1: {
    auto         g = grid(rng, {true});
    InterpN<int> f(std::make_tuple(ints(g.axes[0])), values(g, true), extra);
    probe(rng, g, extra, [&](const std::vector<double>& x) { return f(x[0]); }, "InterpN<int>");
    break;
  }
  case 2: {
    auto                    g = grid(rng, {false, false});
    InterpN<double, double> f(std::make_tuple(g.axes[0].knots, g.axes[1].knots), values(g, true), extra), c(f);
    probe(rng, g, extra, [&](const std::vector<double>& x) { return rng.chance(0.5) ? f(x[0], x[1]) : c(x[0], x[1]); }, "InterpN<double,double>");
    break;
  }
  case 3: {
    auto                 g = grid(rng, {true, false});
    InterpN<int, double> f(std::make_tuple(ints(g.axes[0]), g.axes[1].knots), values(g, true), extra), c(f);
    probe(rng, g, extra, [&](const std::vector<double>& x) { return c(x[0], x[1]); }, "InterpN<int,double>");
    break;
  }
  case 4: {
    auto                         g = grid(rng, {false, true, false});
    InterpN<double, int, double> f(std::make_tuple(g.axes[0].knots, ints(g.axes[1]), g.axes[2].knots), values(g, true), extra);
    probe(rng, g, extra, [&](const std::vector<double>& x) { return f(x[0], x[1], x[2]); }, "InterpN<double,int,double>");
    break;
  }
  case 5: {
    auto g = grid(rng, {false, false});
    auto f = interpn<2>({{g.axes[0].knots, g.axes[1].knots}}, values(g, false), InterpolationType::LINEAR, extra);
    auto c = f->clone();
    if (rng.chance(0.5)) {
      f = std::move(c);
    }
    probe(rng, g, extra, [&](const std::vector<double>& x) { return (*f)(x[0], x[1]); }, "interpn<2>");
    break;
  }
  case 6: {
    auto g = grid(rng, {false, false, false});
    auto f = interpn<3>({{g.axes[0].knots, g.axes[1].knots, g.axes[2].knots}}, values(g, false), InterpolationType::LINEAR, extra);
    auto c = f->clone();
    f.reset();
    probe(rng, g, extra, [&](const std::vector<double>& x) { return (*c)(x[0], x[1], x[2]); }, "interpn<3>");
    break;
  }
  default: {
    auto g = grid(rng, {false, false, false, true});
    InterpN<double, double, double, int> f(std::make_tuple(g.axes[0].knots, g.axes[1].knots, g.axes[2].knots, ints(g.axes[3])), values(g, true), extra);
    probe(rng, g, extra, [&](const std::vector<double>& x) { return f(x[0], x[1], x[2], x[3]); }, "InterpN<double,double,double,int>");
  }
  }
  vp::distinct(rng.next());
}
VP_SCENARIO(nd_refused, 1) {
  auto g = grid(rng, {false, false});
  auto v = values(g, true);
  auto bad = g.axes[0].knots, ok = g.axes[1].knots;
  bad.push_back(bad.back() + 1);
  bool e = rng.chance(0.5);
  typedef InterpN<double, double> I;
  typedef InterpN<double>         I1;
  VP_THROWS(I(std::make_tuple(bad, ok), v, e), "nd-sizes-accepted", "first axis");
  auto bad1 = ok;
  bad1.push_back(bad1.back() + 1);
  VP_THROWS(I(std::make_tuple(g.axes[0].knots, bad1), v, e), "nd-sizes-accepted", "second axis");
  VP_THROWS(I1(std::make_tuple(ok), v, e), "nd-sizes-accepted", "dimensions");
  VP_THROWS(interpn<3>({{g.axes[0].knots, ok, ok}}, v, InterpolationType::LINEAR, e), "nd-sizes-accepted", "dimensions");
  VP_THROWS(interpn<2>({{g.axes[1].knots, g.axes[0].knots}}, v, InterpolationType::CUBIC_SPLINE, e), "nd-spline-accepted", "spline");
  for (size_t k = 0; k < 2; ++k) {
    auto a = g.axes[0].knots, b = g.axes[1].knots;
    auto& s = k ? a : b;
    if (s.size() > 1) {
      size_t i = rng.in(1, s.size() - 1);
      std::swap(s[i], s[i - 1]);
      VP_THROWS(I(std::make_tuple(a, b), v, e), "nd-unsorted-accepted", "axis " << k);
    }
  }
  auto g1 = grid(rng, {false});
  if (g1.axes[0].knots.size() > 1) {
    auto s = g1.axes[0].knots;
    std::swap(s[0], s[1]);
    VP_THROWS(I1(std::make_tuple(s), values(g1, true), e), "nd-unsorted-accepted", "one axis");
  }
  vp::cover("nd_refusals");
}
VP_MAIN()
