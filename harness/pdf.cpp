// C16: Cumulative and mode extraction against their definition
#include "vp.h"
#include "MathUtils/PDF/Cumulative.h"
#include "MathUtils/PDF/PdfModeExtraction.h"
#include "XYDataset/XYDataset.h"
#include <algorithm>
using namespace Euclid::MathUtils;
using Euclid::XYDataset::XYDataset;
typedef long double ld;
namespace {
// units of positions and of the pdf: powers of two, with which every operation is as exact as with 1
double Sx = 1, Sy = 1;
void units(vp::Rng& r) {
  bool scaled = r.chance(0.4);
  Sx          = scaled ? std::ldexp(1., int(r.in(-60, 60))) : 1;
  Sy          = scaled ? std::ldexp(1., int(r.in(-100, 100))) : 1;
  if (scaled) {
    vp::cover("scaled");
  }
}
std::vector<double> sampling(vp::Rng& r, size_t n) {
  std::vector<double> x;
  double              v    = r.chance(0.3) ? 0 : r.in(-40, 40) / 8.;
  bool                even = r.chance(0.4);
  for (size_t i = 0; i < n; ++i) {
    x.push_back(v * Sx);
    v += even ? 0.25 : r.chance(0.2) ? 2. : r.in(1, 20) / 16.;
  }
  return x;
}
}  // namespace
VP_SCENARIO(cumulative, 3) {
  units(rng);
  size_t              n = rng.chance(0.1) ? 1 : rng.chance(0.02) ? rng.in(41, 300) : rng.in(2, 40);
  auto                x = sampling(rng, n);
  std::vector<double> pdf, y;
  double              total = 0;
  bool                zeros = rng.chance(0.5), integers = rng.chance(0.7);
  for (size_t i = 0; i < n; ++i) {
    double v = zeros && rng.chance(0.4) ? 0 : integers ? rng.in(1, 16) : rng.real(0.01, 3);
    v *= Sy;
    pdf.push_back(v);
    total += v;
    y.push_back(total);
  }
  if (total == 0) {
    return;
  }
  std::unique_ptr<Cumulative> c;
  switch (rng.below(4)) {
  case 0:
    c.reset(new Cumulative(x, y));
    break;
  case 1:
    c.reset(new Cumulative(XYDataset::factory(x, y)));
    break;
  case 2:
    c.reset(new Cumulative(Cumulative::fromPdf(x, pdf)));
    break;
  default:
    c.reset(new Cumulative(Cumulative::fromPdf(XYDataset::factory(x, pdf))));
  }
  // copies are independent
  Cumulative copy(*c), assigned(*c);
  assigned = copy;
  Cumulative moved(std::move(copy));
  if (rng.chance(0.5)) {
    std::vector<double> tx{0, 1}, ty{0.5, 1};
    Cumulative          third(tx, ty);
    third = std::move(moved);
    moved = std::move(third);
  }
  bool       normalized = rng.chance(0.4);
  if (normalized) {
    c->normalize();
    for (auto& v : y) {
      v /= total;
    }
    vp::cover("normalized");
  }
  for (int k = 0; k < 12; ++k) {
    double ratio = rng.chance(0.15) ? 0 : rng.chance(0.15) ? 1 : rng.chance(0.3) ? rng.pick(y) / y.back() : rng.unit();
    ratio        = std::min(1., ratio);
    double want = ratio * y.back();
    size_t i = 0;
    while (y[i] < want) {
      ++i;
    }
    size_t j = i;
    while (j + 1 < n && y[j + 1] == y[i]) {
      ++j;
    }
    double b = c->findValue(ratio, Cumulative::begin), m = c->findValue(ratio, Cumulative::middle), e = c->findValue(ratio, Cumulative::end);
    VP_CHECK(b == x[i] && e == x[j] && m == 0.5 * (x[i] + x[j]) && c->findValue(ratio) == m, "wrong-quantile",
             "ratio " << ratio << ": " << b << "," << m << "," << e << " instead of " << x[i] << ".." << x[j] << " x " << vp::show(x) << " y " << vp::show(y));
    if (j > i) {
      vp::cover("trays");
    }
    if (!normalized) {
      VP_CHECK(assigned.findValue(ratio) == m && moved.findValue(ratio) == m, "wrong-copy", "copy");
    }
    vp::cover("quantiles");
  }
  for (int k = 0; k < 8; ++k) {
    double rate = rng.chance(0.15) ? 1 : std::max(1e-6, rng.unit());
    if (integers && !normalized && rng.chance(0.3)) {
      rate = rng.in(1, int(total / Sy)) / (total / Sy);
    }
    auto got = c->findCenteredInterval(rate);
    VP_CHECK(got.first == c->findValue(0.5 - rate / 2, Cumulative::end) && got.second == c->findValue(0.5 + rate / 2, Cumulative::begin), "wrong-centered", "centered interval of " << rate);
    VP_CHECK(got.first <= got.second || rate < 1e-9 || y.size() == 1 ||
                 // both quantiles inside the same tray
                 c->findValue(0.5 - rate / 2, Cumulative::begin) == c->findValue(0.5 + rate / 2, Cumulative::begin),
             "wrong-centered", "centered interval of " << rate << " is reversed");
    auto min = c->findMinInterval(rate);
    auto pi = std::find(x.begin(), x.end(), min.first), pj = std::find(x.begin(), x.end(), min.second);
    VP_CHECK(pi != x.end() && pj != x.end() && pi <= pj, "wrong-minimal", "interval " << min.first << ".." << min.second << " is not between samples");
    size_t i = pi - x.begin(), j = pj - x.begin();
    // content as the scan defines it: the first sample counts for intervals starting there
    auto content = [&](size_t a, size_t b) { return ld(y[b]) - y[a] + (a == 0 ? y[0] : 0); };
    ld   need = ld(rate) * y.back(), slack = 1e-12L * y.back();
    VP_CHECK(content(i, j) >= need - slack, "minimal-too-small", "interval " << min.first << ".." << min.second << " holds " << double(content(i, j)) << " less than " << double(need));
    double width = min.second - min.first;
    for (size_t a = 0; a < n; ++a) {
      for (size_t b = a + 1; b < n; ++b) {
        if (content(a, b) >= need + slack) {
          VP_CHECK(x[b] - x[a] >= width - 1e-12 * Sx, "not-minimal", "interval " << min.first << ".." << min.second << " for " << rate << " but " << x[a] << ".." << x[b] << " is shorter, x " << vp::show(x) << " y " << vp::show(y));
          break;
        }
      }
    }
    vp::cover("minimal_intervals");
  }
  for (double bad : {-0.01, 1.01, -1e300, 1e300}) {
    VP_THROWS(c->findValue(bad), "ratio-accepted", bad);
    VP_THROWS(c->findMinInterval(bad), "ratio-accepted", bad);
    VP_THROWS(c->findCenteredInterval(bad), "ratio-accepted", bad);
  }
  VP_THROWS(c->findMinInterval(0), "ratio-accepted", 0);
  y.push_back(1);
  VP_THROWS(Cumulative(x, y), "sizes-accepted", "sizes");
  VP_THROWS(Cumulative::fromPdf(x, y), "sizes-accepted", "sizes");
  vp::cover("refusals");
  vp::distinct(vp::fnv(vp::show(x) + vp::show(pdf)));
}
namespace {
struct Mode {
  size_t peak, lo, hi;
  ld     area, mean;
};
// modes from the highest to the lowest, until nothing is left
std::vector<Mode> modesOf(const std::vector<double>& x, std::vector<double> p, double merge) {
  std::vector<Mode> r;
  size_t            n = x.size();
  while (true) {
    size_t k = std::max_element(p.begin(), p.end()) - p.begin();
    if (p[k] == 0) {
      return r;
    }
    double limit = (1.0 - merge) * p[k];
    Mode   m{k, k, k, 0, 0};
    while (m.lo > 0 && !(p[m.lo] < limit && p[m.lo - 1] >= p[m.lo]) && p[m.lo] != 0) {
      --m.lo;
    }
    while (m.hi + 1 < n && !(p[m.hi] < limit && p[m.hi + 1] >= p[m.hi]) && p[m.hi] != 0) {
      ++m.hi;
    }
    ld num = 0;
    for (size_t i = m.lo; i <= m.hi; ++i) {
      ld dx = i == 0 ? ld(x[1]) - x[0] : i + 1 == n ? ld(x[i]) - x[i - 1] : (ld(x[i + 1]) - x[i - 1]) / 2;
      m.area += dx * p[i];
      num += dx * p[i] * x[i];
    }
    m.mean = num / m.area;
    for (size_t i = m.lo; i <= m.hi; ++i) {
      p[i] = 0;
    }
    r.push_back(m);
  }
}
bool near(double a, ld b, ld unit) {
  return std::fabs(a - b) <= 1e-10L * (unit + std::fabs(b));
}
}  // namespace
VP_SCENARIO(modes, 3) {
  units(rng);
  size_t              n = rng.chance(0.1) ? 2 : rng.chance(0.02) ? rng.in(61, 400) : rng.in(3, 60);
  auto                x = sampling(rng, n);
  std::vector<double> p;
  bool                smooth = rng.chance(0.5), zeros = rng.chance(0.3), stepped = rng.chance(0.6), border = rng.chance(0.3);
  for (size_t i = 0; i < n; ++i) {
    double v = 0;
    if (smooth) {
      for (int k = 0; k < 3; ++k) {
        double c = x.front() + (x.back() - x.front()) * (0.2 + 0.3 * k), w = 0.1 * Sx + (x.back() - x.front()) * 0.07;
        v += (1 + 0.3 * k) * std::exp(-(x[i] - c) * (x[i] - c) / (2 * w * w));
      }
      v = v < 1e-12 ? 0 : v + 1e-4 * rng.unit();
    } else {
      v = stepped ? rng.in(1, 4) : rng.real(0.01, 5);
      if (stepped && i > 0 && rng.chance(0.4) && p.back() != 0) {
        v = p.back() / Sy;  // flat parts
      }
    }
    p.push_back(zeros && rng.chance(0.3) ? 0 : v * Sy);
  }
  if (border) {
    p[rng.chance(0.5) ? 0 : n - 1] = 7 * Sy;
    vp::cover("border_peaks");
  }
  double merge = rng.chance(0.2) ? 0 : rng.chance(0.2) ? 1 : rng.unit();
  auto   all   = modesOf(x, p, merge);
  if (stepped && !smooth) {
    vp::cover("flat_parts");
  }
  if (all.empty()) {
    return;
  }
  size_t want = rng.in(1, all.size() + 3);
  auto   before = p;
  auto   got  = rng.chance(0.5) ? extractNHighestModes(x, p, merge, want) : extractNHighestModes(XYDataset::factory(x, p), merge, want);
  VP_CHECK(p == before, "input-changed", "the pdf was changed");
  VP_CHECK(got.size() == std::min(want, all.size()), "wrong-number-of-modes", got.size() << " modes, asked for " << want << ", the pdf has " << all.size() << " x " << vp::show(x) << " pdf " << vp::show(p) << " merge " << merge);
  ld sum = 0;
  for (size_t i = 0; i < got.size(); ++i) {
    auto& m = all[i];
    VP_CHECK(got[i].getHighestSamplePosition() == x[m.peak], "wrong-peak", "mode " << i << " at " << got[i].getHighestSamplePosition() << " instead of " << x[m.peak] << " pdf " << vp::show(p) << " merge " << merge);
    VP_CHECK(near(got[i].getModeArea(), m.area, 0), "wrong-area", "mode " << i << " has area " << got[i].getModeArea() << " instead of " << double(m.area) << " (samples " << m.lo << ".." << m.hi << " of " << n << ") pdf " << vp::show(p) << " merge " << merge);
    VP_CHECK(near(got[i].getMeanPosition(), m.mean, Sx), "wrong-mean", "mode " << i << " has mean " << got[i].getMeanPosition() << " instead of " << double(m.mean));
    sum += got[i].getModeArea();
    double at = got[i].getInterpolatedMaxPosition();
    VP_CHECK(at >= x.front() && at <= x.back(), "wrong-maximum", "interpolated maximum " << at << " outside of the samples");
    if (n >= 3) {
      // top of the parabola through the samples around the peak (what earlier modes left of them)
      std::vector<double> q = p;
      for (size_t k = 0; k < i; ++k) {
        std::fill(q.begin() + all[k].lo, q.begin() + all[k].hi + 1, 0.);
      }
      size_t c  = std::min(std::max<size_t>(m.peak, 1), n - 2);
      ld     s0 = (ld(q[c]) - q[c - 1]) / (ld(x[c]) - x[c - 1]), s1 = (ld(q[c + 1]) - q[c]) / (ld(x[c + 1]) - x[c]);
      ld     curv = (s1 - s0) / (ld(x[c + 1]) - x[c - 1]);
      if (std::fabs(curv) * Sx * Sx > 1e-4L * (std::fabs(q[c]) + std::fabs(q[c - 1]) + std::fabs(q[c + 1]))) {
        ld top = (ld(x[c]) + x[c - 1]) / 2 - s0 / (2 * curv);
        top    = std::max<ld>(x.front(), std::min<ld>(x.back(), top));
        VP_CHECK(std::fabs(at - top) <= 1e-8L * (Sx + std::fabs(top)), "wrong-maximum", "interpolated maximum " << at << " instead of " << double(top) << " around " << x[m.peak]);
        vp::cover("interpolated");
      }
    }
    vp::cover("highest_modes");
  }
  vp::cover(want > all.size() ? "exhausted" : "some_modes");
  // the biggest ones
  if (all.size() <= 3 * want + 1 && n >= 2) {
    auto big    = rng.chance(0.5) ? extractNBigestModes(x, p, merge, want) : extractNBigestModes(XYDataset::factory(x, p), merge, want);
    auto sorted = all;
    std::stable_sort(sorted.begin(), sorted.end(), [](const Mode& a, const Mode& b) { return a.area > b.area; });
    VP_CHECK(big.size() == std::min(want, all.size()), "wrong-number-of-modes", big.size() << " biggest modes, asked for " << want << ", the pdf has " << all.size() << " pdf " << vp::show(p) << " merge " << merge);
    for (size_t i = 0; i < big.size(); ++i) {
      VP_CHECK(near(big[i].getModeArea(), sorted[i].area, 0), "not-biggest", "mode " << i << " has area " << big[i].getModeArea() << " instead of " << double(sorted[i].area) << " pdf " << vp::show(p) << " merge " << merge);
      bool found = false;
      for (auto& m : all) {
        found = found || (near(big[i].getModeArea(), m.area, 0) && near(big[i].getMeanPosition(), m.mean, Sx) && big[i].getHighestSamplePosition() == x[m.peak]);
      }
      VP_CHECK(found, "not-biggest", "mode " << i << " is none of the modes of the pdf");
      vp::cover("biggest_modes");
    }
  }
  vp::distinct(vp::fnv(vp::show(p, 100)) + want);
}
VP_SCENARIO(degenerate, 1) {
  units(rng);
  std::vector<double> x = sampling(rng, rng.below(4)), p;
  for (size_t i = 0; i < x.size(); ++i) {
    p.push_back(rng.chance(0.5) ? 0 : rng.unit() * Sy);
  }
  size_t n = rng.in(0, 3);
  // too few samples, or none: either refused or at most n finite modes, never past the end
  for (int k = 0; k < 2; ++k) {
    try {
      auto m = k ? extractNBigestModes(x, p, rng.unit(), n) : extractNHighestModes(x, p, rng.unit(), n);
      VP_CHECK(m.size() <= n, "too-many-modes", m.size() << " modes, asked for " << n);
      for (auto& i : m) {
        VP_CHECK(std::isfinite(i.getMeanPosition()) && std::isfinite(i.getModeArea()) && i.getModeArea() > 0, "not-a-mode", "mean " << i.getMeanPosition() << " area " << i.getModeArea());
      }
    } catch (const std::exception&) {
    }
  }
  p.push_back(1);
  VP_THROWS(extractNHighestModes(x, p, 0.5, 1), "sizes-accepted", "sizes");
  VP_THROWS(extractNBigestModes(x, p, 0.5, 1), "sizes-accepted", "sizes");
  vp::cover("degenerate");
}
VP_MAIN()
