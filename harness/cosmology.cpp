// C27: cosmological distances against an independent integration
#include "vp.h"
#include "PhysicsUtils/CosmologicalDistances.h"
#include "PhysicsUtils/CosmologicalParameters.h"
using namespace Euclid::PhysicsUtils;

namespace {
using L = long double;
L E2(L z, L om, L ol) {
  return om * (1 + z) * (1 + z) * (1 + z) + (1 - om - ol) * (1 + z) * (1 + z) + ol;
}
// Gauss-Legendre with 10 points on panels equal in log(1+z)
L integral(L z, L om, L ol) {
  static const L x[5] = {0.1488743389816312108848260L, 0.4333953941292471907992659L, 0.6794095682990244062343274L, 0.8650633666889845107320967L, 0.9739065285171717200779640L};
  static const L w[5] = {0.2955242247147528701738930L, 0.2692667193099963550912269L, 0.2190863625159820439955349L, 0.1494513491505805931457763L, 0.0666713443086881375935688L};
  const int n = 64;
  L         sum = 0, top = std::log1p(z);
  for (int p = 0; p < n; ++p) {
    L a = top * p / n, b = top * (p + 1) / n, c = (a + b) / 2, h = (b - a) / 2;
    for (int k = 0; k < 5; ++k) {
      for (int s = -1; s <= 1; s += 2) {
        L u = std::exp(c + s * h * x[k]);  // 1+z
        sum += w[k] * h * u / std::sqrt(E2(u - 1, om, ol));
      }
    }
  }
  return sum;
}
bool usable(double z, double om, double ol) {
  for (int i = 0; i <= 400; ++i) {
    if (E2(std::expm1(std::log1p(L(z)) * i / 400), om, ol) < 0.05L) {
      return false;
    }
  }
  return true;
}
}  // namespace

VP_SCENARIO(distances, 4) {
  double om, ol, h;
  int    kind = rng.below(5);
  if (kind == 0) {  // flat
    om = rng.pick(std::vector<double>{0.25, 0.3, 0.5, 1.0, 0.0});
    ol = 1 - om;
  } else if (kind == 1) {
    om = rng.real(0.05, 1);
    ol = 1 - om;
  } else if (kind == 2) {  // nearly flat
    om = rng.real(0.05, 1);
    ol = 1 - om + rng.pick(std::vector<double>{-1, 1}) * std::pow(10., rng.real(-12, -1.5));
    vp::cover("nearly_flat");
  } else if (rng.chance(0.1)) {
    om = rng.real(0, 20);
    ol = rng.real(-3, 0.5);
  } else {
    om = rng.real(0, 1.5);
    ol = rng.real(-0.2, 1.2);
  }
  h        = rng.chance(0.1) ? std::pow(10., rng.real(-1, 4)) : rng.real(40, 110);
  double z = rng.chance(0.1) ? rng.real(0, 1e-3) : rng.chance(0.1) ? std::pow(10., rng.real(-14, -3)) : rng.chance(0.2) ? rng.real(5, 30) : rng.chance(0.05) ? rng.real(30, 1200) : rng.real(0, 6);
  if (!usable(z, om, ol)) {
    vp::cover("unusable");
    return;
  }
  bool                   def = rng.chance(0.1);
  CosmologicalParameters p   = def ? CosmologicalParameters() : CosmologicalParameters(om, ol, h);
  if (def) {
    om = 0.3089;
    ol = 0.6911;
    h  = 67.74;
  }
  CosmologicalDistances d;
  VP_CHECK(p.getOmegaM() == om && p.getOmegaLambda() == ol && p.getHubbleConstant() == h, "cosmo:parameters", "parameters");
  VP_CHECK(std::fabs(p.getOmegaM() + p.getOmegaLambda() + p.getOmegaK() - 1) < 1e-12, "cosmo:sum", "the densities do not add up to one");
  double dh = d.hubbleDistance(p), want_dh = 299792.458 / h * 1e6;
  VP_CHECK(vp::close(dh, want_dh, 1e-12), "cosmo:hubble-distance", dh << " instead of " << want_dh);
  L e2 = E2(z, om, ol);
  VP_CHECK(vp::close(d.hubbleParameter(z, p), double(std::sqrt(e2)), 1e-11), "cosmo:hubble-parameter", d.hubbleParameter(z, p) << " instead of " << double(std::sqrt(e2)));
  L      in     = integral(z, om, ol);
  double asked  = rng.pick(std::vector<double>{1e-7, 1e-7, 1e-5, 1e-3, 1e-9});
  bool   dflt   = rng.chance(0.5);
  double prec   = dflt ? 1e-7 : asked;
  double dc     = dflt ? d.comovingDistance(z, p) : d.comovingDistance(z, p, asked);
  double want   = double(in * want_dh);
  double ratio  = std::fabs(dc / want - 1) / prec;
  if (vp::st().verbose) {
    fprintf(stderr, "ratio %g om %g ol %g z %g prec %g\n", ratio, om, ol, z, prec);
  }
  // The integration stops when two orders agree, which now and then happens by chance: never far off, and rarely beyond what was asked
  VP_CHECK(std::fabs(dc - want) <= (prec > 1e-4 ? 0.1 : 0.02) * std::fabs(want), "cosmo:comoving",
           "comoving distance " << dc << " instead of " << want << " om " << om << " ol " << ol << " h " << h << " z " << z);
  static size_t seen = 0, beyond = 0;
  ++seen;
  beyond += ratio > 2;
  vp::cover("precise", ratio <= 2);
  vp::cover("beyond_precision", ratio > 2);
  VP_CHECK(beyond < 6 + seen / 200, "cosmo:precision",
           beyond << " of " << seen << " distances are not within twice the precision asked for; the last one " << dc << " instead of " << want << " (" << ratio
                  << " times the precision " << prec << ") om " << om << " ol " << ol << " h " << h << " z " << z);
  // the others follow from it
  double c  = d.comovingDistance(z, p);
  double ok = p.getOmegaK(), dm = d.transverseComovingDistance(z, p);
  L      want_dm;
  L      chi = L(c) / want_dh;  // the same comoving distance
  if (std::fabs(ok) < 1e-15) {
    want_dm = chi;
    VP_CHECK(vp::close(dm, c, 1e-9), "cosmo:flat", "transverse " << dm << " comoving " << c);
    vp::cover("flat");
  } else if (ok > 0) {
    L s     = std::sqrt(L(ok));
    want_dm = std::sinh(s * chi) / s;
    VP_CHECK(dm >= c * (1 - 1e-12), "cosmo:open", "transverse " << dm << " below comoving " << c);
    vp::cover("open");
  } else {
    L s     = std::sqrt(-L(ok));
    want_dm = std::sin(s * chi) / s;
    VP_CHECK(dm <= c * (1 + 1e-12), "cosmo:closed", "transverse " << dm << " above comoving " << c);
    vp::cover("closed");
  }
  VP_CHECK(vp::close(dm, double(want_dm * want_dh), 1e-9, 1e-12 * want_dh), "cosmo:transverse",
           "transverse distance " << dm << " instead of " << double(want_dm * want_dh) << " om " << om << " ol " << ol << " z " << z);
  if (z > 1e-9 && dm > 0) {
    double dl = d.luminousDistance(z, p);
    VP_CHECK(vp::close(dl, (1 + z) * dm, 1e-12), "cosmo:luminosity", "luminosity distance " << dl << " transverse " << dm << " z " << z);
    VP_CHECK(vp::close(d.distanceModulus(z, p), 5 * std::log10(dl) - 5, 1e-12, 1e-11), "cosmo:modulus", "modulus " << d.distanceModulus(z, p) << " for " << dl << " pc");
    vp::cover("moduli");
  }
  double v = d.dimensionlessComovingVolumeElement(z, p), want_v = (dm / want_dh) * (dm / want_dh) / double(std::sqrt(e2));
  VP_CHECK(vp::close(v, want_v, 1e-10, 1e-300), "cosmo:volume", "volume element " << v << " instead of " << want_v);
  // further is further
  double z2 = z + rng.real(1e-4, 1);
  if (usable(z2, om, ol)) {
    VP_CHECK(d.comovingDistance(z2, p) > c * (1 - 0.04), "cosmo:monotone", "distance falls from " << z << " to " << z2);
    vp::cover("monotone");
  }
  // nearby: the law of Hubble
  VP_CHECK(vp::close(d.comovingDistance(1e-6, p), want_dh * 1e-6, 1e-5), "cosmo:nearby", "distance of 1e-6 " << d.comovingDistance(1e-6, p));
  std::ostringstream o;
  o << om << " " << ol << " " << h << " " << z;
  vp::distinct(vp::fnv(o.str()));
  if (vp::wantSample()) {
    o << " -> " << dc;
    vp::sample(o.str());
  }
  vp::cover("distances");
}
VP_SCENARIO(origin, 1) {
  CosmologicalParameters p(rng.real(0.01, 1.5), rng.real(0, 1), rng.real(40, 110));
  CosmologicalDistances  d;
  VP_CHECK(d.comovingDistance(0, p) == 0, "cosmo:origin", "comoving distance " << d.comovingDistance(0, p));
  VP_CHECK(d.transverseComovingDistance(0, p) == 0, "cosmo:origin", "transverse distance");
  VP_CHECK(d.luminousDistance(0, p) == 10, "cosmo:origin", "luminosity distance " << d.luminousDistance(0, p));
  VP_CHECK(d.distanceModulus(0, p) == 0, "cosmo:origin", "modulus " << d.distanceModulus(0, p));
  VP_CHECK(d.dimensionlessComovingVolumeElement(0, p) == 0, "cosmo:origin", "volume element");
  VP_CHECK(vp::close(d.hubbleParameter(0, p), 1, 1e-12), "cosmo:origin", "Hubble parameter " << d.hubbleParameter(0, p));
  vp::cover("origins");
}
VP_MAIN()
