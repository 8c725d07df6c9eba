// C13: Polynomial, Piecewise, multiply and integrate against pointwise definitions
#include "vp.h"
#include "MathUtils/function/Differentiable.h"
#include "MathUtils/function/FunctionAdapter.h"
#include "MathUtils/function/Piecewise.h"
#include "MathUtils/function/Polynomial.h"
#include "MathUtils/function/function_tools.h"
#include <algorithm>
#include <cmath>
#include <memory>
#include <set>
using namespace Euclid::MathUtils;
typedef long double ld;
namespace {
// scale of the positions in this case: all functions of a case share it; their values have scales of their own
double sx = 1;
void   newScale(vp::Rng& r) {
  sx = r.chance(0.35) ? std::ldexp(1., r.in(-40, 40)) : 1;
  if (sx != 1) {
    vp::cover("scaled");
  }
}
// reference: pieces with polynomial coefficients; whole line when no knots
struct Ref {
  bool                          everywhere = true;
  std::vector<double>           knots;
  std::vector<std::vector<ld>>  coef;  // one per piece
  std::set<double>              loose;  // repeated knots: products are not compared at exactly these points
  ld one(size_t p, ld x) const {
    ld r = 0;
    for (size_t k = coef[p].size(); k-- > 0;) {
      r = r * x + coef[p][k];
    }
    return r;
  }
  ld mag(size_t p, ld x) const {
    ld r = 0;
    for (size_t k = coef[p].size(); k-- > 0;) {
      r = r * std::fabs(x) + std::fabs(coef[p][k]);
    }
    return r;
  }
  // the values the function may have at x (several at knots), and how big its terms are
  std::vector<ld> at(ld x, ld& m) const {
    std::vector<ld> r;
    m = 0;
    if (everywhere) {
      m = mag(0, x);
      return {one(0, x)};
    }
    for (size_t i = 0; i + 1 < knots.size(); ++i) {
      if (x >= knots[i] && x <= knots[i + 1]) {  // pieces without width count at their knot
        r.push_back(one(i, x));
        m = std::max(m, mag(i, x));
      }
    }
    return r.empty() ? std::vector<ld>{0} : r;
  }
  ld integral(double a, double b, ld& m) const {
    ld sign = 1, r = 0;
    m = 0;
    if (a > b) {
      std::swap(a, b);
      sign = -1;
    }
    for (size_t i = 0; i < coef.size(); ++i) {
      ld lo = everywhere ? ld(a) : std::max<ld>(a, knots[i]), hi = everywhere ? ld(b) : std::min<ld>(b, knots[i + 1]);
      if (lo < hi) {
        ld pl = lo, ph = hi;
        for (size_t k = 0; k < coef[i].size(); ++k) {
          r += coef[i][k] * (ph - pl) / (k + 1);
          m += std::fabs(coef[i][k]) * (std::fabs(ph) + std::fabs(pl)) / (k + 1);
          pl *= lo;
          ph *= hi;
        }
      }
    }
    return sign * r;
  }
  double inside(vp::Rng& r) const {
    return everywhere ? sx * r.real(-6, 6) : knots.front() + (knots.back() - knots.front()) * r.real(-0.1, 1.1);
  }
};
struct Made {
  std::shared_ptr<Function> f;
  Ref                       ref;
  bool                      integrable = true;
  int                       degree     = 0;
};
std::vector<ld> coefs(vp::Rng& r, std::vector<double>& c) {
  c.resize(r.chance(0.15) ? r.below(2) : r.chance(0.03) ? r.in(6, 12) : r.in(1, 5));
  double s = r.chance(0.3) ? std::ldexp(1., r.in(-40, 40)) : 1;
  for (auto& x : c) {
    x = r.chance(0.2) ? 0 : s * r.in(-40, 40) / 8.;
    s /= sx;
  }
  return std::vector<ld>(c.begin(), c.end());
}
Made make(vp::Rng& r) {
  Made                m;
  std::vector<double> c;
  if (r.chance(0.3)) {
    m.ref.coef.push_back(coefs(r, c));
    m.f = std::make_shared<Polynomial>(c);
    vp::cover("polynomials");
  } else if (r.chance(0.15)) {
    m.ref.coef.push_back(coefs(r, c));
    m.integrable = false;
    auto p       = m.ref;
    m.f          = std::make_shared<FunctionAdapter>([p](double x) { return double(p.one(0, x)); });
    vp::cover("adapters");
  } else {
    m.ref.everywhere = false;
    size_t n         = r.chance(0.06) ? r.in(9, 60) : r.in(2, 8);
    double x         = r.in(-16, 12) / 2.;  // knots of different functions often coincide
    for (size_t i = 0; i < n; ++i) {
      m.ref.knots.push_back(x);
      x += r.chance(0.1) ? 0. : r.chance(0.5) ? r.in(1, 6) / 2. : r.real(0.01, 3);
    }
    for (auto& k : m.ref.knots) {
      k *= sx;
    }
    if (n > 8) {
      vp::cover("many_pieces");
    }
    for (size_t i = 1; i < n; ++i) {
      if (m.ref.knots[i] == m.ref.knots[i - 1]) {
        m.ref.loose.insert(m.ref.knots[i]);
      }
    }
    std::vector<std::unique_ptr<Function>> u;
    std::vector<std::shared_ptr<Function>> s;
    bool adapters = r.chance(0.2);
    for (size_t i = 0; i + 1 < n; ++i) {
      m.ref.coef.push_back(coefs(r, c));
      if (adapters && r.chance(0.5)) {
        Ref one;
        one.coef.push_back(m.ref.coef.back());
        m.integrable = false;
        u.emplace_back(new FunctionAdapter([one](double v) { return double(one.one(0, v)); }));
      } else {
        u.emplace_back(new Polynomial(c));
      }
      s.emplace_back(u.back()->clone());
    }
    if (r.chance(0.5)) {
      m.f = std::make_shared<Piecewise>(m.ref.knots, std::move(u));
    } else {
      m.f = std::make_shared<Piecewise>(m.ref.knots, s);
    }
    vp::cover("piecewise");
  }
  return m;
}
Ref product(const Ref& a, const Ref& b) {
  Ref r;
  std::set<double> ks(a.knots.begin(), a.knots.end());
  ks.insert(b.knots.begin(), b.knots.end());
  r.loose = a.loose;
  r.loose.insert(b.loose.begin(), b.loose.end());
  auto piece = [](const Ref& f, double lo, double hi) -> std::vector<ld> {
    if (f.everywhere) {
      return f.coef[0];
    }
    for (size_t i = 0; i + 1 < f.knots.size(); ++i) {
      if (f.knots[i] <= lo && hi <= f.knots[i + 1] && f.knots[i] < f.knots[i + 1]) {
        return f.coef[i];
      }
    }
    return {};
  };
  auto times = [](const std::vector<ld>& x, const std::vector<ld>& y) {
    std::vector<ld> z(x.empty() || y.empty() ? 0 : x.size() + y.size() - 1, 0);
    for (size_t i = 0; i < x.size(); ++i) {
      for (size_t j = 0; j < y.size(); ++j) {
        z[i + j] += x[i] * y[j];
      }
    }
    return z;
  };
  if (a.everywhere && b.everywhere) {
    r.coef.push_back(times(a.coef[0], b.coef[0]));
    return r;
  }
  r.everywhere = false;
  r.knots.assign(ks.begin(), ks.end());
  for (size_t i = 0; i + 1 < r.knots.size(); ++i) {
    r.coef.push_back(times(piece(a, r.knots[i], r.knots[i + 1]), piece(b, r.knots[i], r.knots[i + 1])));
  }
  return r;
}
void values(const Function& f, const Ref& ref, vp::Rng& r, const char* what, const char* key) {
  for (int k = 0; k < 25; ++k) {
    double x = !ref.knots.empty() && r.chance(0.25) ? r.pick(ref.knots) : ref.inside(r);
    if (r.chance(0.1)) {
      x = std::nextafter(x, r.chance(0.5) ? 1e300 : -1e300);
    }
    if (std::string(what).find("product") == 0 && ref.loose.count(x)) {
      continue;
    }
    ld   m;
    auto may = ref.at(x, m);
    ld   got = f(x), tol = 1e-13L * m + 1e-300L;
    bool at_knot = std::find(ref.knots.begin(), ref.knots.end(), x) != ref.knots.end();
    bool ok      = at_knot && got == 0 && std::string(what).find("product") == 0;  // products may leave out single points
    for (auto v : may) {
      ok = ok || std::fabs(got - v) <= tol;
    }
    VP_CHECK(ok, key, what << " at " << x << (at_knot ? " (a knot)" : "") << " is " << double(got) << " instead of " << double(may.back()) << ", knots " << vp::show(ref.knots));
    vp::cover("evaluations");
  }
}
double place(const Ref& ref, vp::Rng& r) {
  return !ref.knots.empty() && r.chance(0.4) ? r.pick(ref.knots) : ref.inside(r);
}
void integrals(const Function& f, const Ref& ref, vp::Rng& r, const char* what) {
  for (int k = 0; k < 6; ++k) {
    double a = place(ref, r), b = place(ref, r), c = place(ref, r);
    if (r.chance(0.1)) {
      a = -50 * sx;
    }
    if (r.chance(0.1)) {
      b = 50 * sx;
    }
    ld m, m2, m3;
    ld want = ref.integral(a, b, m), tol = 1e-12L * m + 1e-300L;
    double got = integrate(f, a, b);
    VP_CHECK(std::fabs(got - want) <= tol, "wrong-integral", what << " from " << a << " to " << b << " is " << got << " instead of " << double(want) << ", knots " << vp::show(ref.knots));
    VP_CHECK(std::fabs(integrate(f, b, a) + got) <= tol, "wrong-integral", "reversed limits");
    ref.integral(a, c, m2);
    ref.integral(c, b, m3);
    VP_CHECK(std::fabs(integrate(f, a, c) + integrate(f, c, b) - got) <= 1e-12L * (m + m2 + m3) + 1e-300L, "wrong-integral", "not additive");
    VP_CHECK(integrate(f, a, a) == 0, "wrong-integral", "empty range");
    vp::cover("integrals");
  }
}
class Scheme : public NumericalIntegrationScheme {
public:
  explicit Scheme(int& calls, const Function*& seen) : m_calls(calls), m_seen(seen) {}
  double operator()(const Function& f, double min, double max) override {
    ++m_calls;
    m_seen = &f;
    return min * 1000 + max;
  }

private:
  int&             m_calls;
  const Function*& m_seen;
};
}  // namespace
VP_SCENARIO(single, 2) {
  newScale(rng);
  auto m = make(rng);
  values(*m.f, m.ref, rng, "function", "wrong-value");
  auto clone = m.f->clone();
  if (m.integrable) {
    integrals(*m.f, m.ref, rng, "integral");
  }
  // the clone is independent of the original
  m.f.reset();
  values(*clone, m.ref, rng, "clone", "wrong-clone");
  if (m.integrable) {
    integrals(*clone, m.ref, rng, "integral of the clone");
  }
  if (!m.ref.everywhere) {
    VP_CHECK((*clone)(m.ref.knots.front() - sx * rng.real(0.01, 5)) == 0 && (*clone)(m.ref.knots.back() + sx * rng.real(0.01, 5)) == 0, "not-zero-outside", "piecewise outside its knots");
    vp::distinct(vp::fnv(vp::show(m.ref.knots)));
  }
}
VP_SCENARIO(products, 4) {
  newScale(rng);
  auto a = make(rng), b = make(rng);
  Ref  ref = product(a.ref, b.ref);
  auto ab = multiply(*a.f, *b.f), ba = multiply(*b.f, *a.f);
  values(*ab, ref, rng, "product", "wrong-product");
  values(*ba, ref, rng, "product", "wrong-product");
  bool integrable = a.integrable && b.integrable;
  if (integrable) {
    integrals(*ab, ref, rng, "integral of a product");
    integrals(*ba, ref, rng, "integral of a product");
  }
  auto c    = make(rng);
  auto abc  = multiply(*ab, *c.f);
  Ref  ref3 = product(ref, c.ref);
  a.f.reset();
  b.f.reset();
  ab.reset();
  values(*abc, ref3, rng, "product of three", "wrong-product");
  if (integrable && c.integrable) {
    integrals(*abc, ref3, rng, "integral of a product of three");
  }
  vp::cover("products");
  if (!a.ref.everywhere && !b.ref.everywhere) {
    vp::cover("piecewise_products");
    if (a.ref.knots.back() < b.ref.knots.front() || b.ref.knots.back() < a.ref.knots.front()) {
      vp::cover("disjoint_products");
    }
    if (a.ref.knots.back() == b.ref.knots.front() || b.ref.knots.back() == a.ref.knots.front()) {
      vp::cover("touching_products");
    }
    vp::distinct(vp::fnv(vp::show(a.ref.knots) + vp::show(b.ref.knots)));
  }
}
VP_SCENARIO(calculus, 2) {
  newScale(rng);
  std::vector<double> c;
  Ref                 ref;
  ref.coef.push_back(coefs(rng, c));
  Polynomial p(c);
  VP_CHECK(p.getCoefficients() == c, "wrong-coefficients", "coefficients");
  for (int k = 0; k < 2; ++k) {  // also the second time
    Ref d, in;
    d.coef.emplace_back();
    in.coef.emplace_back(1, 0);
    for (size_t i = 0; i < c.size(); ++i) {
      if (i) {
        d.coef[0].push_back(ld(c[i]) * i);
      }
      in.coef[0].push_back(ld(c[i]) / (i + 1));
    }
    values(*p.derivative(), d, rng, "derivative", "wrong-derivative");
    auto F = p.indefiniteIntegral();
    // any antiderivative will do
    for (int q = 0; q < 10; ++q) {
      double x = sx * rng.real(-6, 6), y = sx * rng.real(-6, 6);
      ld     m1 = in.mag(0, x), m2 = in.mag(0, y);
      VP_CHECK(std::fabs(((*F)(x) - (*F)(y)) - (in.one(0, x) - in.one(0, y))) <= 1e-12L * (m1 + m2), "wrong-antiderivative", "between " << y << " and " << x);
    }
    auto back = dynamic_cast<Differentiable&>(*F).derivative();
    values(*back, ref, rng, "derivative of the antiderivative", "wrong-derivative");
    Polynomial q(p);  // a copy of one already asked, or not
    values(q, ref, rng, "copy", "wrong-copy");
    values(*q.derivative(), d, rng, "derivative of a copy", "wrong-copy");
    VP_CHECK(q.getCoefficients() == c, "wrong-copy", "coefficients of a copy");
    auto dd = multiply(*p.derivative(), *p.derivative());
    values(*dd, product(d, d), rng, "square of the derivative", "wrong-product");
  }
  vp::cover("derivatives");
  vp::distinct(vp::fnv(vp::show(c)));
}
VP_SCENARIO(refused, 1) {
  size_t              n = rng.in(1, 6), bad;
  std::vector<double> knots;
  double              x = 0;
  for (size_t i = 0; i < n; ++i) {
    knots.push_back(x += rng.real(0.1, 1));
  }
  do {
    bad = rng.below(8);
  } while (bad + 1 == n);
  std::vector<std::shared_ptr<Function>> f(bad, std::make_shared<Polynomial>(std::vector<double>{1}));
  VP_THROWS(Piecewise(knots, f), "bad-piecewise-accepted", n << " knots and " << bad << " functions");
  if (n > 1) {
    f.assign(n - 1, std::make_shared<Polynomial>(std::vector<double>{1}));
    size_t i = 1 + rng.below(n - 1);
    std::swap(knots[i - 1], knots[i]);
    VP_THROWS(Piecewise(knots, f), "bad-piecewise-accepted", "decreasing knots " << vp::show(knots));
    std::vector<std::unique_ptr<Function>> u;
    for (auto& g : f) {
      u.push_back(g->clone());
    }
    VP_THROWS(Piecewise(knots, std::move(u)), "bad-piecewise-accepted", "decreasing knots " << vp::show(knots));
  }
  FunctionAdapter other([](double v) { return v; });
  VP_THROWS(integrate(other, 0, 1), "integrated-without-scheme", "function that cannot be integrated");
  int             calls = 0;
  const Function* seen  = nullptr;
  double          lo = rng.in(-9, 9), hi = rng.in(-9, 9);
  double          got = integrate(other, lo, hi, std::unique_ptr<NumericalIntegrationScheme>(new Scheme(calls, seen)));
  VP_CHECK(calls == 1 && seen == &other && got == lo * 1000 + hi, "scheme-not-used", "numerical scheme");
  Polynomial p({1, 2});
  VP_CHECK(std::fabs(integrate(p, 0, 2, std::unique_ptr<NumericalIntegrationScheme>(new Scheme(calls, seen))) - 6) < 1e-12 && calls == 1, "scheme-used", "numerical scheme used for an integrable function");
  auto made = make(rng);
  double nan = std::numeric_limits<double>::quiet_NaN(), inf = std::numeric_limits<double>::infinity();
  double at  = (*made.f)(nan);
  VP_CHECK(std::isnan(at) || at == 0 || made.ref.everywhere, "value-of-nan", "value of a NaN");
  if (!made.ref.everywhere) {
    VP_CHECK((*made.f)(inf) == 0 && (*made.f)(-inf) == 0, "not-zero-outside", "value at infinity");
  }
  vp::cover("refusals");
}
VP_MAIN()
