// C09: KdTree against brute force
#include "vp.h"
#include "KdTree/KdTree.h"
#include <algorithm>
#include <array>
#include <cmath>
namespace {
struct Point {
  std::array<double, 5> x;
  int                   id;
};
}  // namespace
namespace KdTree {
template <>
struct KdTreeTraits<Point> {
  static double getCoord(const Point& p, size_t i) {
    return p.x.at(i);
  }
};
}  // namespace KdTree
namespace {
template <size_t N, size_t S>
void run(vp::Rng& r) {
  size_t n = r.chance(0.1) ? r.below(3) : (r.chance(0.3) ? r.in(0, 2000) : r.in(0, 8 * int(S) + 20));
  int    kind = r.below(6);
  double scale = std::pow(10., r.in(-6, 8)), shift = r.chance(0.3) ? scale * r.in(-1000000, 1000000) : 0;
  std::vector<Point> pts(n);
  for (size_t i = 0; i < n; ++i) {
    auto& p = pts[i];
    p.id    = int(i);
    for (size_t k = 0; k < 5; ++k) {
      switch (kind) {
      case 0:  // continuous
        p.x[k] = shift + scale * r.real(-1, 1);
        break;
      case 1:  // grid with many ties
        p.x[k] = r.in(-3, 3);
        break;
      case 2:  // one axis constant
        p.x[k] = k == 0 ? 7 : r.real(-2, 2);
        break;
      case 3:  // clusters
        p.x[k] = r.in(0, 2) * 100 + r.real(0, 1e-3);
        break;
      case 4:  // all the same, or nearly
        p.x[k] = r.chance(0.9) ? 1.25 : std::nextafter(1.25, r.chance(0.5) ? 2 : 0);
        break;
      default:  // exponentially spread
        p.x[k] = (r.chance(0.5) ? 1 : -1) * std::pow(10., r.real(-8, 8));
      }
    }
  }
  if (r.chance(0.3)) {
    std::sort(pts.begin(), pts.end(), [](const Point& a, const Point& b) { return a.x[0] < b.x[0]; });
    for (size_t i = 0; i < n; ++i) {
      pts[i].id = int(i);
    }
  }
  auto input = pts;
  KdTree::KdTree<Point, N, S> tree(input);
  input.clear();  // the tree has its own data
  input.shrink_to_fit();
  int queries = 30;
  for (int q = 0; q < queries; ++q) {
    typename KdTree::KdTree<Point, N, S>::Coord c;
    const Point* ref = n && r.chance(0.7) ? &pts[r.below(n)] : nullptr;
    for (size_t k = 0; k < N; ++k) {
      c.coord[k] = ref ? ref->x[k] : (kind == 0 ? shift + scale * r.real(-2, 2) : r.real(-4, 4));
      if (r.chance(0.1)) {
        c.coord[k] += r.in(-2, 2);
      }
    }
    double radius;
    switch (r.below(5)) {
    case 0:
      radius = r.in(0, 6);
      break;
    case 1:
      radius = scale * r.unit();
      break;
    case 2: {  // exactly the distance to a point, give or take the last digit
      double d2 = 1;
      if (n) {
        auto& p = pts[r.below(n)];
        d2      = 0;
        for (size_t k = 0; k < N; ++k) {
          d2 += (p.x[k] - c.coord[k]) * (p.x[k] - c.coord[k]);
        }
      }
      radius = std::sqrt(d2);
      if (r.chance(0.6)) {
        radius = std::nextafter(radius, r.chance(0.5) ? 1e300 : 0);
      }
      break;
    }
    case 3:
      radius = 1e9;
      break;
    default:
      radius = std::pow(10., r.real(-9, 9));
    }
    // where squared distances are exact the border (not included) is judged exactly, elsewhere up to rounding
    bool exact = radius == std::floor(radius) && radius < 1e6;
    for (size_t k = 0; k < N && exact; ++k) {
      exact = c.coord[k] == std::floor(c.coord[k]) && kind == 1;
    }
    std::vector<int> must, may, got;
    for (auto& p : pts) {
      double d2 = 0;
      for (size_t k = 0; k < N; ++k) {
        double d = p.x[k] - c.coord[k];
        d2 += d * d;
      }
      if (exact ? d2 < radius * radius : d2 < radius * radius * (1 - 1e-14)) {
        must.push_back(p.id);
      }
      if (exact ? d2 < radius * radius : d2 <= radius * radius * (1 + 1e-14)) {
        may.push_back(p.id);
      }
      if (exact && d2 == radius * radius) {
        vp::cover("border_points");
      }
    }
    for (auto& p : tree.findPointsWithinRadius(c, radius)) {
      got.push_back(p.id);
      VP_CHECK(p.id >= 0 && size_t(p.id) < n && p.x == pts[p.id].x, "corrupted-point", "point " << p.id);
    }
    std::sort(got.begin(), got.end());
    std::sort(must.begin(), must.end());
    std::sort(may.begin(), may.end());
    VP_CHECK(std::adjacent_find(got.begin(), got.end()) == got.end(), "repeated-points", "a point is returned more than once");
    VP_CHECK(std::includes(got.begin(), got.end(), must.begin(), must.end()) && std::includes(may.begin(), may.end(), got.begin(), got.end()), "wrong-points",
             got.size() << " points instead of " << must.size() << " of " << n << " within " << radius << " (N=" << N << " S=" << S << " kind " << kind << ")");
    vp::cover("queries");
    vp::cover("points_found", got.size());
    if (!got.empty() && got.size() < n && n > S) {
      vp::cover("partial_answers");
      vp::distinct(vp::fnv(std::to_string(n) + "/" + std::to_string(kind) + vp::show(got).substr(0, 400)));
    }
  }
  if (n > S) {
    vp::cover("split_trees");
  }
  if (vp::wantSample()) {
    vp::sample("n=" + std::to_string(n) + " N=" + std::to_string(N) + " S=" + std::to_string(S) + " kind=" + std::to_string(kind));
  }
}
}  // namespace
VP_SCENARIO(oneDim, 1) {
  run<1, 1>(rng);
}
VP_SCENARIO(twoDims, 2) {
  run<2, 3>(rng);
}
VP_SCENARIO(twoDimsDefault, 1) {
  run<2, 100>(rng);
}
VP_SCENARIO(threeDims, 2) {
  run<3, 2>(rng);
}
VP_SCENARIO(fiveDims, 1) {
  run<5, 4>(rng);
}
VP_MAIN()
