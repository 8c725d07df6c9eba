// C07: reductions over NdArrays against direct loops
#include "vp.h"
#include "NdArray/NdArray.h"
#include "NdArray/Operations.h"
#include <algorithm>
#include <cmath>
#include <complex>
#include <cstring>
#include <fstream>
#include <list>
#include <numeric>
using Euclid::NdArray::NdArray;
typedef std::vector<size_t> Shape;
namespace {
size_t prod(const Shape& s) {
  return std::accumulate(s.begin(), s.end(), size_t(1), std::multiplies<size_t>());
}
Shape coordsOf(size_t f, const Shape& s) {
  Shape c(s.size());
  for (size_t i = s.size(); i-- > 0;) {
    c[i] = f % s[i];
    f /= s[i];
  }
  return c;
}
Shape randomShape(vp::Rng& r, int maxdim, double zero) {
  Shape s(r.chance(0.05) ? r.in(maxdim + 1, 7) : r.in(1, maxdim));
  for (auto& x : s) {
    x = r.chance(zero) ? 0 : r.in(1, s.size() > 4 ? 3 : 5);
  }
  if (r.chance(0.15)) {
    s[r.below(s.size())] = r.in(6, 40);
  }
  return s;
}
}  // namespace

#ifdef VP_C07
namespace {
// array (own data or a view) with its values in row-major order
template <typename T>
struct Data {
  NdArray<T>     a{Shape{1}};
  Shape          shape;
  std::vector<T> v;
};
template <typename T>
T value(vp::Rng& r);
template <>
int value(vp::Rng& r) {
  return r.in(-50, 50);
}
int& shift() {
  static int s = 20;
  return s;
}
template <>
int64_t value(vp::Rng& r) {
  return r.chance(0.3) ? int64_t(r.next()) >> r.in(shift(), 40) : r.in(-50, 50);
}
double& unit() {
  static double u = 1;
  return u;
}
template <>
double value(vp::Rng& r) {
  return r.in(-400, 400) / 8. * unit();  // exact sums
}
template <typename T>
Data<T> make(vp::Rng& r, double zero = 0.03) {
  Data<T> d;
  Shape   s = randomShape(r, 4, zero);
  int     kind = r.below(3);  // 0 own, 1 slice, 2 rslice
  if (kind && s.size() < 2) {
    kind = 0;
  }
  bool few = r.chance(0.3), close = !few && r.chance(0.3);
  T    around = std::is_integral<T>::value ? T(sizeof(T) > 4 ? int64_t(1) << 40 : 10000) : T(unit() * 1024);
  std::vector<T> all(prod(s));
  for (shift() = 7; (size_t(1) << (shift() - 7)) < all.size(); ++shift()) {
  }
  for (auto& x : all) {
    // few values, or some that differ very little
    x = few ? T(r.in(0, 2)) : close ? T(around + T(r.in(-3, 3) * (std::is_integral<T>::value ? 1 : unit() * std::ldexp(1., -30)))) : value<T>(r);
  }
  NdArray<T> base(s, all);
  if (kind == 1 && s[0]) {
    size_t i = r.below(s[0]);
    d.a      = base.slice(i);
    d.shape  = Shape(s.begin() + 1, s.end());
    size_t n = prod(d.shape);
    for (size_t k = 0; k < n; ++k) {
      d.v.push_back(all[i * n + k]);
    }
    vp::cover("views");
  } else if (kind == 2 && s.back()) {
    size_t i = r.below(s.back());
    d.a      = base.rslice(i);
    d.shape  = Shape(s.begin(), s.end() - 1);
    size_t n = prod(d.shape);
    for (size_t k = 0; k < n; ++k) {
      d.v.push_back(all[k * s.back() + i]);
    }
    vp::cover("views");
  } else {
    d.a     = base;
    d.shape = s;
    d.v     = all;
  }
  return d;
}

template <typename T>
void reductions(vp::Rng& rng) {
  unit()                = rng.chance(0.3) ? std::ldexp(1., int(rng.in(-300, 300))) : 1;
  auto              d   = make<T>(rng);
  const NdArray<T>& a   = d.a;
  auto              n   = d.v.size();
  auto              str = vp::show(d.shape);
  vp::distinct(vp::fnv(str + vp::show(d.v)));
  T total = Euclid::NdArray::sum(a);
  VP_CHECK(total == std::accumulate(d.v.begin(), d.v.end(), T(0)), "wrong-sum", "sum of " << str << " is " << total);
  // along every axis, both ways of naming it
  size_t nd = d.shape.size();
  for (size_t ax = 0; ax < nd; ++ax) {
    Shape out = d.shape;
    out.erase(out.begin() + ax);
    if (out.empty()) {
      out.push_back(1);
    }
    size_t         inner = 1, len = d.shape[ax];
    for (size_t i = ax + 1; i < nd; ++i) {
      inner *= d.shape[i];
    }
    std::vector<T> knots(len);
    T              k = rng.in(-50, 50);
    bool           reg = rng.chance(0.3);
    int            way = rng.chance(0.2) ? -2 : 2;  // knots may as well decrease
    for (auto& x : knots) {
      x = k;
      k += reg ? way : way * rng.in(0, 4);
    }
    std::vector<T> expect(prod(out)), area(prod(out));
    for (size_t o = 0; o < expect.size(); ++o) {
      size_t hi = inner ? o / inner : 0, lo = inner ? o % inner : 0;
      for (size_t j = 0; j < len; ++j) {
        T cur = d.v[(hi * len + j) * inner + lo];
        expect[o] += cur;
        if (j) {
          area[o] += (cur + d.v[(hi * len + j - 1) * inner + lo]) * (knots[j] - knots[j - 1]) / 2;
        }
      }
    }
    for (int sign = 0; sign < 2; ++sign) {
      int  axis = sign ? int(ax) - int(nd) : int(ax);
      auto r    = Euclid::NdArray::sum(a, axis);
      VP_CHECK(r.shape() == out, "wrong-sum", "sum of " << str << " along " << axis << " has shape " << vp::show(r.shape()));
      for (size_t o = 0; o < expect.size(); ++o) {
        T got = r.at(coordsOf(o, out));
        VP_CHECK(got == expect[o], "wrong-sum", "sum of " << str << " along " << axis << " at " << vp::show(coordsOf(o, out)) << " is " << got << " instead of " << expect[o]);
      }
      vp::cover("axis_sums");
      if (len) {
        NdArray<T> t = rng.chance(0.5) ? Euclid::NdArray::trapz(a, knots.begin(), knots.end(), axis)
                                       : Euclid::NdArray::trapz(a, knots.data(), knots.data() + len, axis);
        VP_CHECK(t.shape() == out, "wrong-trapz", "trapz of " << str << " along " << axis << " has shape " << vp::show(t.shape()));
        for (size_t o = 0; o < area.size(); ++o) {
          T got = t.at(coordsOf(o, out));
          VP_CHECK(std::abs(got - area[o]) <= 1e-9 * (std::is_integral<T>::value ? 1e9 * (got != area[o] ? 0 : 1) : 1024 * unit() + std::abs(area[o])), "wrong-trapz", "trapz of " << str << " along " << axis << " at " << vp::show(coordsOf(o, out)) << " is " << got << " instead of " << area[o]);
        }
        vp::cover("axis_integrals");
        std::vector<T> bad(knots.begin(), knots.end() - 1);
        VP_THROWS(Euclid::NdArray::trapz(a, bad.begin(), bad.end(), axis), "unchecked-knots", "too few knots for " << str);
        bad = knots;
        bad.push_back(1);
        VP_THROWS(Euclid::NdArray::trapz(a, bad.begin(), bad.end(), axis), "unchecked-knots", "too many knots for " << str);
      }
    }
  }
  int far = rng.chance(0.5) ? int(nd) + rng.in(0, 3) : -int(nd) - rng.in(1, 4);
  VP_THROWS(Euclid::NdArray::sum(a, far), "unchecked-axis", "sum of " << str << " along " << far);
  std::vector<T> kn(3);
  VP_THROWS(Euclid::NdArray::trapz(a, kn.begin(), kn.end(), far), "unchecked-axis", "trapz of " << str << " along " << far);
  // extremes
  if (n) {
    auto cmax = Euclid::NdArray::argmax(a), cmin = Euclid::NdArray::argmin(a);
    auto fmax = std::max_element(d.v.begin(), d.v.end()) - d.v.begin();
    auto fmin = std::min_element(d.v.begin(), d.v.end()) - d.v.begin();
    VP_CHECK(a.at(cmax) == d.v[fmax], "wrong-argmax", vp::show(cmax) << " is not the largest of " << str);
    VP_CHECK(a.at(cmin) == d.v[fmin], "wrong-argmin", vp::show(cmin) << " is not the smallest of " << str);
    vp::cover("extremes");
    for (int k = 0; k < 5; ++k) {
      size_t f = k == 0 ? n - 1 : rng.below(n);
      auto   c = Euclid::NdArray::unravel_index(f, d.shape);
      VP_CHECK(c == coordsOf(f, d.shape), "wrong-unravel", f << " in " << str << " gives " << vp::show(c));
      VP_CHECK(a.at(c) == *(a.begin() + f), "wrong-unravel", f << " in " << str);
    }
    vp::cover("unravelled", 5);
  } else {
    VP_THROWS(Euclid::NdArray::argmax(a), "extreme-of-nothing", "argmax of " << str);
    VP_THROWS(Euclid::NdArray::argmin(a), "extreme-of-nothing", "argmin of " << str);
    vp::cover("empty_arrays");
  }
  for (size_t beyond : {n, n + 1, n + size_t(rng.below(1000)), std::numeric_limits<size_t>::max()}) {
    bool thrown = false;
    try {
      Euclid::NdArray::unravel_index(beyond, d.shape);
    } catch (const std::out_of_range&) {
      thrown = true;
    }
    VP_CHECK(thrown, "unchecked-unravel", beyond << " in " << str);
  }
  // nothing of the input was changed
  size_t f = 0;
  for (auto x : a) {
    VP_CHECK(x == d.v[f++], "input-changed", str);
  }
  if (vp::wantSample()) {
    vp::sample(str + " sum " + std::to_string(total));
  }
}
}  // namespace
VP_SCENARIO(reductionsInt, 1) {
  reductions<int>(rng);
}
VP_SCENARIO(reductionsLong, 1) {
  reductions<int64_t>(rng);
}
VP_SCENARIO(reductionsDouble, 1) {
  reductions<double>(rng);
}
#endif
VP_MAIN()
