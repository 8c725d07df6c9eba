// C12: Histogram counts, clipping and statistics against their definition
#include "vp.h"
#include "Histogram/Binning/EdgeVector.h"
#include "Histogram/Binning/Scott.h"
#include "Histogram/Binning/Sqrt.h"
#include "Histogram/Histogram.h"
#include <algorithm>
#include <cmath>
#include <limits>
#include <list>
#include <numeric>
namespace Hi = Euclid::Histogram;
namespace {
template <typename V>
std::vector<V> values(vp::Rng& r, size_t n) {
  int            kind  = r.below(7);
  int            wide  = r.chance(0.2) ? (sizeof(V) > 4 ? 140 : 10) : 0;
  double         scale = std::pow(10., wide ? r.in(-wide, wide) : r.in(-5, 6)), shift = r.chance(0.4) ? scale * r.in(-1000, 1000) : 0;
  std::vector<V> d(n);
  V              same = V(shift + scale * r.real(-1, 1));
  for (auto& x : d) {
    switch (kind) {
    case 0:
      x = V(shift + scale * r.real(-1, 1));
      break;
    case 1:  // ties
      x = V(wide ? scale * r.in(-5, 5) : r.in(-5, 5));
      break;
    case 2:
      x = same;
      break;
    case 3:  // decimal steps
      x = V(r.in(-50, 50) * 0.1);
      break;
    case 4:  // long tail
      x = V((wide ? scale : 1) * std::pow(10., r.real(-3, 3)));
      break;
    case 5:  // next to the extremes
      x = r.chance(0.5) ? std::nextafter(V(1), V(r.in(0, 2))) : V(r.in(0, 1));
      break;
    default:
      x = V(shift + scale * (r.unit() + r.unit() + r.unit() + r.unit() - 2));
    }
  }
  return d;
}
// the values as seen through the edges the histogram reports; `slack`: how far off an edge may be
template <typename V, typename W>
void judgeCounts(const std::vector<V>& d, const std::vector<W>& w, const std::vector<V>& edges, const std::vector<W>& counts, double slack,
                 const char* what) {
  VP_CHECK(edges.size() == counts.size() + 1, "wrong-edges", edges.size() << " edges for " << counts.size() << " bins, " << what);
  long double cum = 0;
  for (size_t b = 0; b < counts.size(); ++b) {
    VP_CHECK(edges[b] <= edges[b + 1], "wrong-edges", "edges not sorted, " << what);
    cum += counts[b];
    bool        last = b + 1 == counts.size();
    long double lo = 0, hi = 0;
    for (size_t i = 0; i < d.size(); ++i) {
      long double x = d[i];
      if (slack == 0) {
        bool in = x >= edges.front() && (last ? x <= edges[b + 1] : x < edges[b + 1]);
        lo += in ? w[i] : 0;
        hi += in ? w[i] : 0;
      } else {
        lo += (last || x < edges[b + 1] - slack) ? w[i] : 0;
        hi += (last || x < edges[b + 1] + slack) ? w[i] : 0;
      }
    }
    VP_CHECK(cum >= lo && cum <= hi, last ? "not-conserved" : "wrong-counts",
             "bins 0 to " << b << " of " << counts.size() << " hold " << double(cum) << " instead of " << double(lo) << " to " << double(hi) << " of " << d.size() << " values, " << what);
  }
  vp::cover("values_counted", d.size());
}
template <typename V, typename W>
void judgeStats(const Hi::Histogram<V, W>& h, size_t left, size_t right, const std::vector<V>& edges, const std::vector<W>& all) {
  long double total = 0, sum = 0, sum2 = 0, big = 0;
  size_t      n = right - left + 1;
  for (size_t b = left; b <= right; ++b) {
    long double c = ((long double)(edges[b]) + edges[b + 1]) / 2;
    total += all[b];
    sum += all[b] * c;
    big = std::max(big, std::max(std::fabs((long double)(edges[b])), std::fabs((long double)(edges[b + 1]))));
  }
  V mean, median, sigma;
  std::tie(mean, median, sigma) = h.getStats();
  if (!(total > 0)) {
    return;
  }
  for (size_t b = left; b <= right; ++b) {
    long double c = ((long double)(edges[b]) + edges[b + 1]) / 2 - sum / total;
    sum2 += all[b] * c * c;
  }
  long double eps = std::numeric_limits<V>::epsilon() * (8 + 2 * n), tol = eps * big;
  VP_CHECK(std::fabs(mean - sum / total) <= tol, "wrong-mean", mean << " instead of " << double(sum / total));
  VP_CHECK(std::fabs((long double)(sigma)*sigma - sum2 / total) <= 4 * eps * big * big, "wrong-sigma", sigma << " instead of " << double(std::sqrt(sum2 / total)));
  // the median lies where the counts, spread evenly over their bins, balance
  auto below = [&](long double x) {
    long double m = 0;
    for (size_t b = left; b <= right; ++b) {
      long double lo = edges[b], hi = edges[b + 1];
      m += x >= hi ? (long double)(all[b]) : x <= lo ? 0 : all[b] * (x - lo) / (hi - lo);
    }
    return m;
  };
  long double dev = std::max(tol * 8, std::numeric_limits<V>::epsilon() * 64 * big), half = total / 2, mtol = total * 1e-6;
  if (edges[left] == edges[right + 1]) {
    VP_CHECK(std::fabs(median - edges[left]) <= dev, "wrong-median", median << " instead of " << edges[left]);
  } else {
    VP_CHECK(median >= edges[left] - dev && median <= edges[right + 1] + dev, "wrong-median", median << " outside " << edges[left] << " to " << edges[right + 1]);
    VP_CHECK(below(median - dev) <= half + mtol && below(median + dev) >= half - mtol, "wrong-median",
             median << " has " << double(below(median)) << " of " << double(total) << " below, bins " << left << " to " << right << " counts " << vp::show(all).substr(0, 200));
  }
  vp::cover("statistics");
}
template <typename V, typename W>
void clips(Hi::Histogram<V, W> h, vp::Rng& r, const std::vector<V>& edges, const std::vector<W>& all, bool exact, double slack) {
  const Hi::Histogram<V, W> untouched(h);
  size_t                    left = 0, right = all.size() - 1;
  for (int k = 0; k < 3; ++k) {
    size_t a = left + r.below(right - left + 1), b = a + r.below(right - a + 1);
    V      la = V(edges[a] + (edges[a + 1] - edges[a]) * (exact && r.chance(0.3) ? 0 : r.real(0.1, 0.9)));
    V      lb = V(edges[b] + (edges[b + 1] - edges[b]) * r.real(0.1, 0.9));
    if (std::is_integral<V>::value) {
      la = edges[a];
      lb = edges[b];
    }
    if (!(edges[a + 1] - edges[a] > 100 * slack && la >= edges[a] && la < edges[a + 1] && lb >= edges[b] && lb < edges[b + 1])) {
      return;  // bins too narrow to aim at
    }
    if (la > lb) {
      VP_THROWS(h.clip(la, lb), "bad-clip-accepted", "clip(" << la << "," << lb << ")");
      std::swap(la, lb);
    }
    bool low = r.chance(0.2), high = r.chance(0.2);  // beyond the end: no limit
    double far = std::max(1., std::fabs(double(edges.back()) - edges.front()) * 10);
    h.clip(low ? V(edges.front() - far) : la, high ? V(edges.back() + far) : lb);
    left  = low ? left : a;
    right = high ? right : b;
    auto c = h.getCounts();
    VP_CHECK(h.size() == right - left + 1 && c == std::vector<W>(all.begin() + left, all.begin() + right + 1), "wrong-clip",
             "bins " << left << " to " << right << " of " << all.size() << ": " << vp::show(c).substr(0, 200) << " of " << vp::show(all).substr(0, 200));
    if (std::is_floating_point<V>::value) {
      judgeStats(h, left, right, edges, all);
    }
    vp::cover("clips");
  }
  VP_CHECK(untouched.getCounts() == all && untouched.size() == all.size(), "copy-changed", "clipping changed a copy");
}
template <typename W>
std::vector<W> weights(vp::Rng& r, size_t n, bool unit, bool exact) {
  std::vector<W> w(n, W(1));
  if (!unit) {
    W scale = exact && !std::is_integral<W>::value && r.chance(0.3) ? W(std::ldexp(1., int(r.in(-20, 20)))) : W(1);
    for (auto& x : w) {
      x = std::is_integral<W>::value || exact ? scale * W(r.in(0, 64)) / W(std::is_integral<W>::value ? 1 : 8) : W(r.unit());
    }
  }
  return w;
}
template <typename V, typename W, typename B>
void automatic(vp::Rng& r) {
  size_t n = r.chance(0.3) ? r.in(1, 10) : r.in(1, 400);
  if (r.chance(0.004)) {
    n = r.in(5000, 70000);
    vp::cover("many_values");
  }
  auto   d = values<V>(r, n);
  bool   unit = r.chance(0.5);
  auto   w = weights<W>(r, n, unit, true);
  Hi::Histogram<V, W> h = unit ? Hi::Histogram<V, W>(d.begin(), d.end(), B{}) : Hi::Histogram<V, W>(d.begin(), d.end(), w.begin(), w.end(), B{});
  auto   edges = h.getEdges();
  auto   counts = h.getCounts();
  auto   mm  = std::minmax_element(d.begin(), d.end());
  double big = std::max(std::fabs(double(*mm.first)), std::fabs(double(*mm.second)));
  double slack = std::max(1e-300, big * std::numeric_limits<V>::epsilon() * (8 + counts.size()));
  VP_CHECK(!counts.empty() && h.size() == counts.size(), "no-bins", h.size() << " bins for " << n << " values");
  judgeCounts(d, w, edges, counts, slack, typeid(B).name());
  VP_CHECK(edges.front() <= *mm.first + slack && edges.back() >= *mm.second - slack, "wrong-edges", "edges do not cover the values");
  if (std::is_same<B, Hi::Binning::Sqrt<V>>::value) {
    VP_CHECK(counts.size() == size_t(std::ceil(std::sqrt(n))), "wrong-bin-count", counts.size() << " bins for " << n << " values");
  } else if (*mm.first != *mm.second) {
    long double mean = 0, var = 0;
    for (auto x : d) {
      mean += x;
    }
    mean /= n;
    for (auto x : d) {
      var += (x - mean) * (x - mean);
    }
    var /= n;
    double k = double(((long double)(*mm.second) - *mm.first) / (3.5 * std::sqrt(var) / std::pow(n, 1. / 3)));
    if (*mm.second - *mm.first > big * std::numeric_limits<V>::epsilon() * 1e4) {
      VP_CHECK(std::fabs(counts.size() - std::ceil(k)) <= (std::fabs(k - std::round(k)) < 1e-2 + k * n * std::numeric_limits<V>::epsilon() ? 1 : 0), "wrong-bin-count", counts.size() << " bins instead of " << k << " for " << n << " values");
    }
  }
  auto bins = h.getBins();
  VP_CHECK(bins.size() == counts.size(), "wrong-bins", bins.size() << " centres");
  for (size_t b = 0; b < bins.size(); ++b) {
    auto e = h.getBinEdges(b);
    VP_CHECK(std::fabs((long double)(bins[b]) - ((long double)(edges[b]) + edges[b + 1]) / 2) <= slack && std::fabs(e.first - edges[b]) <= slack && std::fabs(e.second - edges[b + 1]) <= slack, "wrong-bins", "bin " << b);
  }
  judgeStats(h, 0, counts.size() - 1, edges, counts);
  clips(h, r, edges, counts, false, slack);
  if (counts.size() > 1) {
    vp::distinct(vp::fnv(vp::show(counts)));
  }
  vp::cover("automatic_histograms");
  if (*mm.first == *mm.second) {
    vp::cover("constant_data");
  }
}
template <typename V, typename W>
void givenEdges(vp::Rng& r) {
  size_t         ne = r.in(2, 30);
  if (r.chance(0.01)) {
    ne = r.chance(0.5) ? r.in(100, 3000) : r.in(33000, 70000);
    vp::cover("many_bins");
  }
  std::vector<V> edges(ne);
  double         x = r.in(-50, 50);
  bool           even = r.chance(0.3);
  double         step = 1;
  if (std::is_floating_point<V>::value && r.chance(0.2)) {
    step = std::pow(10., sizeof(V) > 4 ? r.in(-140, 140) : r.in(-10, 10));
    x *= step;
  }
  if (sizeof(V) == 4 && std::is_floating_point<V>::value && ne > 100) {
    even = true;
    step = 1;
  }
  for (auto& e : edges) {
    e = V(x);
    x += std::is_integral<V>::value ? r.in(1, 5) : step * (even ? 0.25 : r.in(1, 100) * std::pow(10., r.in(-2, 1)));
  }
  size_t         n = r.in(0, 300);
  std::vector<V> d(n);
  double         span = double(edges.back()) - edges.front();
  for (auto& v : d) {
    v = r.chance(0.4) ? edges[r.below(ne)] : V(edges.front() + span * r.real(-0.2, 1.2));
    if (!std::is_integral<V>::value && r.chance(0.2)) {
      v = std::nextafter(v, V(r.in(-1, 1)) * std::numeric_limits<V>::max());
    }
  }
  bool unit = r.chance(0.5), exact = ne > 100 || r.chance(0.7);
  auto w    = weights<W>(r, n, unit, exact);
  auto e2   = edges;
  // data through iterators of another kind and type
  std::list<V>        dl(d.begin(), d.end());
  Hi::Histogram<V, W> h = unit ? Hi::Histogram<V, W>(dl.begin(), dl.end(), Hi::Binning::EdgeVector<V>{e2})
                               : Hi::Histogram<V, W>(d.begin(), d.end(), w.begin(), w.end(), Hi::Binning::EdgeVector<V>{e2});
  e2.clear();
  VP_CHECK(h.getEdges() == edges && h.size() == ne - 1, "wrong-edges", "given edges are not reported");
  for (size_t b = 0; b + 1 < ne; ++b) {
    auto e = h.getBinEdges(b);
    VP_CHECK(e.first == edges[b] && e.second == edges[b + 1], "wrong-bins", "edges of bin " << b << " of given edges");
  }
  auto counts = h.getCounts();
  if (unit || exact || std::is_integral<W>::value) {
    std::vector<W> inside(w);
    judgeCounts(d, w, edges, counts, 0, "given edges");
  }
  if (std::is_floating_point<V>::value) {
    judgeStats(h, 0, ne - 2, edges, counts);
  }
  clips(h, r, edges, counts, true, 0);
  Hi::Histogram<V, W> moved(std::move(h));
  VP_CHECK(moved.getCounts() == counts, "wrong-move", "moved histogram");
  vp::cover("edge_histograms");
  vp::distinct(vp::fnv(vp::show(counts)));
}
}  // namespace
VP_SCENARIO(sqrtDouble, 2) {
  automatic<double, float, Hi::Binning::Sqrt<double>>(rng);
}
VP_SCENARIO(sqrtFloat, 2) {
  automatic<float, double, Hi::Binning::Sqrt<float>>(rng);
}
VP_SCENARIO(scottDouble, 2) {
  automatic<double, double, Hi::Binning::Scott<double>>(rng);
}
VP_SCENARIO(scottFloat, 2) {
  automatic<float, float, Hi::Binning::Scott<float>>(rng);
}
VP_SCENARIO(edgesDouble, 2) {
  givenEdges<double, float>(rng);
}
VP_SCENARIO(edgesFloat, 1) {
  givenEdges<float, int>(rng);
}
VP_SCENARIO(edgesInt, 1) {
  givenEdges<int, float>(rng);
}
VP_MAIN()
