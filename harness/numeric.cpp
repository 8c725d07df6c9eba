// C15: numerical integration, differentiation and the quadratic solver against exact results
#include "vp.h"
#include "MathUtils/function/FunctionAdapter.h"
#include "MathUtils/function/Polynomial.h"
#include "MathUtils/function/function_tools.h"
#include "MathUtils/helpers/Solvers.h"
#include "MathUtils/numericalDifferentiation/FiniteDifference.h"
#include "MathUtils/numericalIntegration/AdaptativeIntegration.h"
#include "MathUtils/numericalIntegration/SimpsonsRule.h"
#include <algorithm>
using namespace Euclid::MathUtils;
typedef long double ld;
namespace {
struct Poly {
  std::vector<double> c;
  ld at(ld x) const {
    ld r = 0;
    for (size_t k = c.size(); k-- > 0;) {
      r = r * x + c[k];
    }
    return r;
  }
  ld mag(ld x) const {
    ld r = 0;
    for (size_t k = c.size(); k-- > 0;) {
      r = r * std::fabs(x) + std::fabs(ld(c[k]));
    }
    return r;
  }
  Poly d() const {
    Poly p;
    for (size_t k = 1; k < c.size(); ++k) {
      p.c.push_back(c[k] * k);
    }
    return p;
  }
  ld integral(ld a, ld b) const {
    ld r = 0, pa = a, pb = b;
    for (size_t k = 0; k < c.size(); ++k) {
      r += c[k] * (pb - pa) / (k + 1);
      pa *= a;
      pb *= b;
    }
    return r;
  }
};
Poly poly(vp::Rng& r, int degree) {
  Poly p;
  for (int k = 0; k <= degree; ++k) {
    p.c.push_back(r.chance(0.15) ? 0 : r.in(-64, 64) / 8.);
  }
  return p;
}
// a function that is not Integrable and counts where it is evaluated
struct Counted {
  std::shared_ptr<long>                             calls = std::make_shared<long>(0);
  std::shared_ptr<double>                           lo = std::make_shared<double>(1e300), hi = std::make_shared<double>(-1e300);
  std::unique_ptr<FunctionAdapter>                  f;
  template <typename F>
  explicit Counted(F g) {
    auto c = calls;
    auto l = lo, h = hi;
    f.reset(new FunctionAdapter([=](double x) {
      ++*c;
      *l = std::min(*l, x);
      *h = std::max(*h, x);
      return double(g(x));
    }));
  }
};
// smooth functions with a known antiderivative
struct Smooth {
  std::function<ld(ld)> f, F;
  const char*           name;
};
Smooth smooth(vp::Rng& r) {
  ld k = r.real(0.3, 3), s = r.real(0.5, 5);
  switch (r.below(5)) {
  case 0:
    return {[=](ld x) { return s * std::exp(k * x / 2); }, [=](ld x) { return 2 * s / k * std::exp(k * x / 2); }, "exp"};
  case 1:
    return {[=](ld x) { return s + std::cos(k * x); }, [=](ld x) { return s * x + std::sin(k * x) / k; }, "s+cos"};
  case 2:
    return {[=](ld x) { return s / (1 + k * x * x); }, [=](ld x) { return s / std::sqrt(k) * std::atan(std::sqrt(k) * x); }, "lorentz"};
  case 3:
    return {[=](ld x) { return -s * std::exp(-k * x * x); }, [=](ld x) { return -s * std::sqrt(M_PIl / k) / 2 * std::erf(std::sqrt(k) * x); }, "gauss"};
  default: {
    Poly p = poly(r, r.in(0, 7));
    return {[=](ld x) { return p.at(x); }, [=](ld x) { return p.integral(0, x); }, "polynomial"};
  }
  }
}
}  // namespace
// exact for cubics, and refining the previous order gives the direct result
VP_SCENARIO(simpson, 2) {
  SimpsonsRule rule;
  bool         scaled = rng.chance(0.4);
  double       X = scaled ? std::ldexp(1., int(rng.in(-60, 60))) : 1, Y = scaled ? std::ldexp(1., int(rng.in(-200, 200))) : 1;
  double       a = X * rng.in(-40, 40) / 8., b = rng.chance(0.1) ? a : X * rng.in(-40, 40) / 8.;
  Poly         p = poly(rng, rng.in(0, 3));
  Counted      c([=](double x) { return Y * p.at(ld(x) / X); });
  int          order = rng.chance(0.05) ? rng.in(10, 15) : rng.in(3, 9);
  double       m     = std::max(std::fabs(a), std::fabs(b)) / X;
  double       got = rule(*c.f, a, b, order);
  ld           want = ld(X) * Y * p.integral(a / X, b / X), tol = 1e-12L * X * Y * (p.mag(m) * (std::fabs(b - a) / X) + 1e-6L);
  if (scaled) {
    vp::cover("scaled");
  }
  VP_CHECK(std::fabs(got - want) <= tol, "simpson-not-exact", "order " << order << " from " << a << " to " << b << " is " << got << " instead of " << double(want) << " for " << vp::show(p.c));
  VP_CHECK(a == b || (*c.lo >= std::min(a, b) - 1e-9 * X && *c.hi <= std::max(a, b) + 1e-9 * X), "simpson-outside", "evaluated outside of the range");
  VP_CHECK(std::fabs(rule(*c.f, b, a, order) + got) <= tol, "simpson-not-exact", "reversed range");
  vp::cover("simpson_exact");
  // any function: recursion
  auto    s = smooth(rng);
  double  w = rng.unit() * 5;
  bool    jump = rng.chance(0.3);
  Counted g([&](double x) { return Y * (jump && x / X > w ? ld(3) : s.f(ld(x) / X)); });
  double  prev = rule(*g.f, a, b, 3), scale = 0;
  int     last = rng.chance(0.03) ? 14 : 9;
  for (int o = 4; o <= last; ++o) {
    *g.calls      = 0;
    double direct = rule(*g.f, a, b, o);
    long   n      = *g.calls;
    prev          = rule(*g.f, a, b, prev, o);
    scale         = std::max(scale, std::fabs(direct));
    double big    = 0;
    for (int i = 0; i <= 64; ++i) {
      big = std::max(big, std::fabs((*g.f)(a + (b - a) * i / 64)));
    }
    VP_CHECK(std::fabs(direct - prev) <= 1e-12 * (big * std::fabs(b - a) + scale), "simpson-refinement", "order " << o << " directly " << direct << ", from the previous order " << prev << " (" << s.name << ")");
    VP_CHECK(n <= (1 << o) + 4, "simpson-evaluations", n << " evaluations at order " << o);
    vp::cover("refinements");
  }
  for (int o : {-1, 0, 1, 2}) {
    VP_THROWS(rule(*c.f, a, b, o), "order-accepted", "order " << o);
  }
  for (int o : {-1, 0, 2, 3}) {
    VP_THROWS(rule(*c.f, a, b, 1., o), "order-accepted", "recursion order " << o);
  }
  vp::cover("refusals");
  vp::distinct(vp::fnv(vp::show(p.c)) + order);
}
VP_SCENARIO(adaptive, 2) {
  auto    s = smooth(rng);
  double  a = rng.in(-24, 24) / 8., b = rng.chance(0.1) ? a : rng.in(-24, 24) / 8.;
  double  precision = std::pow(10., -rng.real(2, 9));
  int     order     = rng.chance(0.05) ? rng.in(8, 12) : rng.in(3, 7);
  bool    scaled    = rng.chance(0.4);
  double  X = scaled ? std::ldexp(1., int(rng.in(-60, 60))) : 1, Y = scaled ? std::ldexp(1., int(rng.in(-200, 200))) : 1;
  Counted f([=](double x) { return Y * s.f(ld(x) / X); });
  ld      want = s.F(b) - s.F(a), size = 0;
  for (int i = 0; i <= 64; ++i) {
    size = std::max(size, std::fabs(s.f(a + (ld(b) - a) * i / 64)));
  }
  size *= std::fabs(b - a);
  want *= ld(X) * Y;
  size *= ld(X) * Y;
  a *= X;
  b *= X;
  if (size > 0 && std::fabs(want) < 1e-3L * size) {
    return;  // nearly vanishing integrals: see below
  }
  double got;
  if (rng.chance(0.5)) {
    AdaptativeIntegration<SimpsonsRule> rule(precision, order);
    got = rule(*f.f, a, b);
  } else {
    got = integrate(*f.f, a, b, std::unique_ptr<NumericalIntegrationScheme>(new AdaptativeIntegration<SimpsonsRule>(precision, order)));
  }
  // the last change was below the precision; the error of a converging rule of this order is far smaller than the change
  VP_CHECK(std::fabs(got - want) <= 4 * precision * std::fabs(want) + 1e-12L * size, "adaptive-imprecise", s.name << " from " << a << " to " << b << " precision " << precision << " order " << order << " is " << got << " instead of " << double(want));
  VP_CHECK(*f.calls >= (1 << order), "adaptive-initial-order", *f.calls << " evaluations, initial order " << order);
  vp::cover("adaptive");
  vp::distinct(uint64_t(*f.calls) * 31 + vp::fnv(&got, sizeof got));
}
// integrals that vanish: nothing is relatively small, but the scheme has to end with (about) zero
VP_SCENARIO(vanishing, 1) {
  double k = rng.real(0.5, 3), b = rng.real(0.5, 4);
  bool   odd = rng.chance(0.7);
  long   n   = 0;
  FunctionAdapter f([&](double x) {
    if (++n % 100000 == 0) {
      vp::heartbeat();
    }
    if (n > 400000000) {
      throw vp::Fail("adaptive-endless", "more than 4e8 evaluations");
    }
    return odd ? std::sin(k * x) : 0.;
  });
  if (idx % 400) {
    return;  // expensive
  }
  AdaptativeIntegration<SimpsonsRule> rule(1e-4, 3);
  double got = rule(f, -b, b);
  VP_CHECK(std::fabs(got) <= 1e-10, "adaptive-imprecise", "integral of an odd function is " << got);
  vp::cover("vanishing");
}
VP_SCENARIO(differences, 2) {
  {
    // wherever it is taken, the derivative of a straight line through the origin is its slope
    double slope = std::ldexp(rng.chance(0.5) ? 1 : -1, int(rng.in(-60, 60)));
    double at    = (rng.chance(0.5) ? 1 : -1) * rng.real(1, 10) * std::pow(10., int(rng.in(-20, 250)));
    Counted line([=](double t) { return slope * t; });
    double  got = derivative(*line.f, at);
    VP_CHECK(std::fabs(got - slope) <= 1e-7 * std::fabs(slope), "wrong-derivative", "line with slope " << slope << " at " << at << ": " << got);
    vp::cover("lines");
  }
  Poly   p  = poly(rng, rng.in(0, 5)), d1 = p.d(), d2 = d1.d(), d3 = d2.d(), d4 = d3.d();
  double x  = rng.chance(0.1) ? 0 : rng.chance(0.3) ? rng.real(-1e3, 1e3) : rng.real(-4, 4);
  if (rng.chance(0.05)) {
    x *= 1e8;  // the step is smaller than the resolution
  }
  Counted    f([p](double t) { return p.at(t); });
  double     eps = std::numeric_limits<double>::epsilon(), h = std::sqrt(eps) * 2;
  double     step = std::max(h, std::nextafter(std::fabs(x), 1e300) - std::fabs(x)) * 2;
  double     got  = derivative(*f.f, x);
  double     m    = std::fabs(x) + step;
  // truncation of the forward difference plus rounding of the values
  ld tol = d2.mag(m) * step + 4 * eps * p.mag(m) / h + d1.mag(m) * 1e-9L + 1e-12L;
  VP_CHECK(std::fabs(got - d1.at(x)) <= tol, "wrong-derivative", "at " << x << " is " << got << " instead of " << double(d1.at(x)) << " tolerance " << double(tol) << " for " << vp::show(p.c));
  if (std::fabs(x) < 1e4) {
    double h2   = std::sqrt(std::sqrt(eps)) * 2;
    double got2 = derivative2nd(*f.f, x);
    ld     tol2 = d4.mag(m) * h2 * h2 + 16 * eps * p.mag(m) / (h2 * h2) + d1.mag(m) * 4 * eps * m / (h2 * h2) + d2.mag(m) * 1e-9L + 1e-9L;
    VP_CHECK(std::fabs(got2 - d2.at(x)) <= tol2, "wrong-second-derivative", "at " << x << " is " << got2 << " instead of " << double(d2.at(x)) << " tolerance " << double(tol2) << " for " << vp::show(p.c));
    VP_CHECK(*f.lo >= x - 2 * h2 && *f.hi <= x + 2 * h2, "far-evaluation", "evaluated far from " << x);
  }
  vp::cover("derivatives");
  vp::distinct(vp::fnv(vp::show(p.c)) + vp::fnv(&x, sizeof x));
}
VP_SCENARIO(solver, 2) {
  double a = rng.chance(0.2) ? 0 : rng.in(-80, 80) / 8., b = rng.chance(0.2) ? 0 : rng.in(-800, 800) / 8., c = rng.in(-800, 800) / 8., y;
  bool   chosen = rng.chance(0.6);
  ld     root   = rng.in(-800, 800) / 16.;
  y             = chosen ? double(a * root * root + b * root + c) : rng.in(-4000, 4000) / 8.;
  // units, in which the same equation is as easy to solve
  bool   scaled = rng.chance(0.4);
  double Y = scaled ? std::ldexp(1., int(rng.in(-150, 150))) : 1, X = scaled ? std::ldexp(1., int(rng.in(-60, 60))) : 1;
  a *= Y / (X * X);
  b *= Y / X;
  c *= Y;
  y *= Y;
  if (a == 0 && b == 0) {
    VP_THROWS(solveSquare(a, b, c, y), "unsolvable-accepted", "y = " << c);
    vp::cover("unsolvable");
    return;
  }
  auto s    = solveSquare(a, b, c, y);
  if (a == 0) {
    ld want = (ld(y) - c) / b;
    VP_CHECK(std::fabs(s.first - want) <= 1e-14L * (std::fabs(want) + (std::fabs(y) + std::fabs(c)) / std::fabs(b)) && s.second == s.first, "wrong-root", "linear equation: " << s.first << " instead of " << double(want));
    vp::cover("linear_equations");
    return;
  }
  ld disc = ld(b) * b - 4 * ld(a) * (ld(c) - y);
  ld big  = ld(b) * b + 4 * std::fabs(ld(a)) * (std::fabs(c) + std::fabs(y));
  if (disc < -1e-13L * big) {
    VP_CHECK(std::isnan(s.first) && std::isnan(s.second), "wrong-root", "equation without solution has " << s.first << " and " << s.second);
    vp::cover("no_root");
    return;
  }
  if (disc <= 1e-13L * big) {
    // double root, up to rounding
    ld want = -ld(b) / (2 * a);
    VP_CHECK(disc < 0 || disc > 0 || (s.first == s.first && std::fabs(s.first - want) < 1e-5L * (X + std::fabs(want))), "wrong-root", "double root " << s.first);
    return;
  }
  ld q = std::sqrt(disc), r0 = (-b - q) / (2 * ld(a)), r1 = (-b + q) / (2 * ld(a));
  if (r0 > r1) {
    std::swap(r0, r1);
  }
  ld   tol = 1e-14L * (std::fabs(ld(b) / (2 * a)) + q / (2 * std::fabs(ld(a))) + big / (q * std::fabs(ld(a))));
  bool ok  = (std::fabs(s.first - r0) <= tol && std::fabs(s.second - r1) <= tol) || (std::fabs(s.first - r1) <= tol && std::fabs(s.second - r0) <= tol);
  VP_CHECK(ok, "wrong-root", a << " x^2 + " << b << " x + " << c << " = " << y << " has " << s.first << " and " << s.second << " instead of " << double(r0) << " and " << double(r1));
  vp::cover("two_roots");
  vp::distinct(vp::fnv(&s, sizeof s));
}
VP_MAIN()
