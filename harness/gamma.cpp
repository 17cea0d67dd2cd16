#include "sv.h"
#include <sstream>
#include <aslam/calibration/exceptions/BadArgumentException.h>
#include <aslam/calibration/exceptions/InvalidOperationException.h>
#include <aslam/calibration/functions/DigammaFunction.h>
#include <aslam/calibration/functions/IncompleteGammaPFunction.h>
#include <aslam/calibration/functions/LogGammaFunction.h>
#include <aslam/calibration/statistics/ChiSquareDistribution.h>
#include <aslam/calibration/statistics/Randomizer.h>
#include <cmath>
using namespace aslam::calibration;
template <class F> static bool throws(F f) {
  try {
    f();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}
// what a gamma distribution of shape k and inverse scale b is
static void is(const GammaDistribution<double>& d, double k, double b, bool deep) {
  sv_check(d.getShape() == k && d.getInvScale() == b, "parameters-are-the-ones-set-last");
  sv_check_close(d.getMean() * b, k, "mean-is-shape-over-inverse-scale");
  sv_check_close(d.getVariance() * b * b, k, "variance-is-shape-over-inverse-scale-squared");
  double mode = -1;
  bool t = throws([&] { mode = d.getMode(); });
  sv_check(t == (k < 1), "mode-exists-exactly-from-shape-one");
  if (!t) sv_check_close(mode * b, k - 1, "mode-of-the-current-parameters");
  double z = std::lgamma(k) - k * std::log(b);
  sv_check_close(d.getNormalizer(), z, "normalizer-of-the-current-parameters");
  if (!deep) return;
  double x = sv_double("x");
  if (x > 0) {
    sv_check_close(d.logpdf(x), (k - 1) * std::log(x) - x * b - z, "log-density");
    sv_check_close(d.pdf(x), std::exp(d.logpdf(x)), "density-is-the-exponential-of-the-log-density");
  } else if (x < 0)
    sv_check(d.pdf(x) == 0, "density-vanishes-below-zero");
  else if (k == 1)
    sv_check_close(d.logpdf(x), -z, "density-of-the-exponential-distribution-at-zero");
  double c = d.cdf(x);
  sv_check(c >= 0 && c <= 1, "cumulative-probability-is-a-probability");
  sv_check_close(c, x <= 0 ? 0 : (double)boost::math::gamma_p(k, x * b), "cumulative-probability");
  double p = sv_double("p"), q = -1;
  sv_assume(p != 1);
  t = throws([&] { q = d.invcdf(p); });
  sv_check(t == (p < 0 || p > 1), "exactly-the-values-that-are-no-probabilities-are-rejected");
  if (!t) sv_check_close(d.cdf(q), p, "quantile-inverts-the-cumulative-probability");
}
SV_ENTRY(gamma_history) {
  double k = sv_double("shape"), b = sv_double("scale");
  sv_check(throws([&] { GammaDistribution<> e(k, b); }) == !(k > 0 && b > 0), "constructor-rejects-exactly-the-parameters-that-are-not-positive");
  sv_assume(k > 0 && b > 0);
  GammaDistribution<> d(k, b);
  is(d, k, b, false);
  for (int i = 0; i < SV_T(2, 3); ++i) switch (sv_choose("op", 3)) {
    case 0: {
      double w = sv_double("shape");
      bool t = throws([&] { d.setShape(w); });
      sv_check(t == !(w > 0), "exactly-the-parameters-that-are-not-positive-are-rejected");
      if (!t) k = w;
      break;
    }
    case 1: {
      double w = sv_double("scale");
      bool t = throws([&] { d.setInvScale(w); });
      sv_check(t == !(w > 0), "exactly-the-parameters-that-are-not-positive-are-rejected");
      if (!t) b = w;
      break;
    }
    default: {
      GammaDistribution<> c(d), o(3.0, 2.0);
      is(c, k, b, false);
      c.setShape(k + 1);
      c.setInvScale(b + 1);
      is(d, k, b, false);
      if (sv_choose("into", 2)) {
        o = d;
        is(o, k, b, false);
        d = d;
      } else {
        d = o;
        k = 3, b = 2;
      }
    }
  }
  is(d, k, b, false);
}
SV_ENTRY(gamma_density) {
  double k = sv_double("shape"), b = sv_double("scale");
  sv_assume(k > 0 && b > 0);
  is(GammaDistribution<>(k, b), k, b, true);
}
SV_ENTRY(gamma_default) { is(GammaDistribution<>(), 1, 1, true); }
static double kl(double k1, double b1, double k2, double b2) {
  return (k1 - k2) * boost::math::digamma(k1) - std::lgamma(k1) + std::lgamma(k2) + k2 * (std::log(b1) - std::log(b2)) + k1 * (b2 - b1) / b1;
}
SV_ENTRY(gamma_kl) {
  double k1 = sv_double("shape"), b1 = sv_double("scale"), k2 = sv_double("shape"), b2 = sv_double("scale");
  sv_assume(k1 > 0 && b1 > 0 && k2 > 0 && b2 > 0);
  GammaDistribution<> p(k1, b1), q(k2, b2);
  sv_check_close(p.KLDivergence(q), kl(k1, b1, k2, b2), "divergence-between-the-two-distributions");
  sv_check_close(p.KLDivergence(p), 0, "divergence-from-itself-is-zero");
}
// integer shapes
SV_ENTRY(gamma_int) {
  int k = sv_int("shape", -2, 4);
  double b = sv_double("scale");
  bool t = throws([&] { GammaDistribution<int> e(k, b); });
  sv_check(t == !(k > 0 && b > 0), "constructor-rejects-exactly-the-parameters-that-are-not-positive");
  if (t) return;
  GammaDistribution<int> d(1, 1.0);
  if (sv_choose("order", 2)) {
    d.setShape(k);
    d.setInvScale(b);
  } else {
    d.setInvScale(b);
    d.setShape(k);
  }
  sv_check(throws([&] { d.setShape(-k); }) && throws([&] { d.setInvScale(-b); }), "exactly-the-parameters-that-are-not-positive-are-rejected");
  GammaDistribution<> r(k, b);
  double x = sv_double("x");
  sv_assume(x > 0);
  sv_check(d.getShape() == k && d.getInvScale() == b, "parameters-are-the-ones-set-last");
  sv_check_close(d.getNormalizer(), r.getNormalizer(), "integer-and-real-shapes-agree");
  sv_check_close(d.getMean(), r.getMean(), "integer-and-real-shapes-agree");
  sv_check_close(d.getVariance(), r.getVariance(), "integer-and-real-shapes-agree");
  sv_check_close(d.getMode(), r.getMode(), "integer-and-real-shapes-agree");
  sv_check_close(d.logpdf(x), r.logpdf(x), "integer-and-real-shapes-agree");
  sv_check_close(d.cdf(x), r.cdf(x), "integer-and-real-shapes-agree");
  int k2 = sv_int("shape", 1, 4);
  GammaDistribution<int> e(k2, 2.0);
  sv_check_close(d.KLDivergence(e), kl(k, b, k2, 2), "divergence-between-the-two-distributions");
}
SV_ENTRY(chi_square) {
  double n = sv_double("degrees");
  sv_check(throws([&] { ChiSquareDistribution e(n); }) == !(n > 0), "exactly-the-degrees-that-are-not-positive-are-rejected");
  ChiSquareDistribution d(5.0);
  double cur = 5;
  switch (sv_choose("how", 4)) {
    case 0: {
      bool t = throws([&] { d.setDegrees(n); });
      sv_check(t == !(n > 0), "exactly-the-degrees-that-are-not-positive-are-rejected");
      if (!t) cur = n;
      break;
    }
    case 1:
      sv_assume(n > 0);
      d = ChiSquareDistribution(n);
      cur = n;
      break;
    case 2: {
      sv_assume(n > 0);
      ChiSquareDistribution e(n), c(e);
      e.setDegrees(n + 1);
      sv_check_close(e.getDegrees(), n + 1, "degrees-are-the-ones-set-last");
      d = c;
      cur = n;
      break;
    }
    default: d = ChiSquareDistribution(), cur = 1;
  }
  sv_check_close(d.getDegrees(), cur, "degrees-are-the-ones-set-last");
  sv_check_close(d.getMedian(), cur * std::pow(1 - 2 / (9 * cur), 3), "median-approximation-of-the-current-degrees");
  is(d, cur / 2, 0.5, true);
}
