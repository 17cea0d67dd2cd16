#include "sv.h"
#include <Eigen/Core>
#include <aslam/calibration/statistics/NormalDistribution.h>
#include <cmath>
#include <stdexcept>
#include <tuple>
using namespace aslam::calibration;
template <class F> static bool throws(F f) {
  try {
    f();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}

// ---- one dimension
typedef NormalDistribution<1> N1;
static void is1(const N1& d, double m, double v, const char* what) {
  sv_check(d.getMean() == m && d.getVariance() == v, what);
  sv_check(d.getMedian() == m && d.getMode() == m, "median-and-mode-are-the-mean");
  sv_check_close(d.getPrecision() * v, 1, "precision-is-the-inverse-variance");
  double s = d.getStandardDeviation();
  sv_check(s >= 0, "standard-deviation-is-positive");
  sv_check_close(s * s, v, "standard-deviation-squared-is-the-variance");
  sv_check_close(d.getNormalizer(), 0.5 * std::log(2 * M_PI * v), "normalizer-of-the-current-variance");
}
static void density1(const N1& d, double m, double v) {
  double x = sv_double("x");
  double q = (x - m) * (x - m) / v;
  sv_check_close(d.mahalanobisDistance(x), q, "squared-mahalanobis-distance");
  double l = -0.5 * q - 0.5 * std::log(2 * M_PI * v);
  sv_check_close(d.logpdf(x), l, "log-density");
  sv_check_close(d.pdf(x), std::exp(d.logpdf(x)), "density-is-the-exponential-of-the-log-density");
  sv_check_close(d.cdf(x), 0.5 * (1 + std::erf((x - m) / std::sqrt(2 * v))), "cumulative-probability");
}
SV_ENTRY(normal_1) {
  double m = sv_double("m"), v = sv_double("v");
  N1 d(m, 2.0);
  sv_check(throws([&] { N1 e(m, v); }) == !(v > 0), "constructor-rejects-exactly-the-variances-that-are-not-positive");
  sv_check(throws([&] { N1 e(std::make_tuple(m, v)); }) == !(v > 0), "constructor-rejects-exactly-the-variances-that-are-not-positive");
  if (v > 0) {
    is1(N1(m, v), m, v, "constructed-parameters");
    is1(N1(std::make_tuple(m, v)), m, v, "constructed-parameters");
  }
  double cm = m, cv = 2;
  for (int i = 0; i < SV_T(2, 3); ++i) switch (sv_choose("op", 4)) {
    case 0: d.setMean(cm = sv_double("m")); break;
    case 1: {
      double w = sv_double("v");
      bool t = throws([&] { d.setVariance(w); });
      sv_check(t == !(w > 0), "exactly-the-variances-that-are-not-positive-are-rejected");
      if (!t) cv = w;
      break;
    }
    case 2: {
      N1 c(d);
      is1(c, cm, cv, "a-copy-is-equivalent");
      c.setMean(cm + 1);
      c.setVariance(cv + 1);
      is1(d, cm, cv, "a-copy-is-independent");
      break;
    }
    default: {
      N1 o(sv_double("m"), 3.0);
      double om = o.getMean();
      if (sv_choose("into", 2)) {
        o = d;
        d = o;
      } else {
        d = o;
        cm = om, cv = 3;
      }
    }
  }
  is1(d, cm, cv, "parameters-are-the-ones-set-last");
  density1(d, cm, cv);
}
SV_ENTRY(normal_1_kl) {
  double m1 = sv_double("m"), v1 = sv_double("v"), m2 = sv_double("m"), v2 = sv_double("v");
  sv_assume(v1 > 0 && v2 > 0);
  N1 p(m1, v1), q(m2, v2);
  sv_check_close(p.KLDivergence(q), 0.5 * (std::log(v2 / v1) + (v1 + (m1 - m2) * (m1 - m2)) / v2 - 1), "divergence-between-the-two-distributions");
  sv_check_close(p.KLDivergence(p), 0, "divergence-from-itself-is-zero");
}

// ---- several dimensions
template <int M> using Vec = Eigen::Matrix<double, M, 1>;
template <int M> using Mat = Eigen::Matrix<double, M, M>;
template <int M> static double det(const Mat<M>& c, int n) {
  if (n == 1) return c(0, 0);
  if (n == 2) return c(0, 0) * c(1, 1) - c(0, 1) * c(1, 0);
  return c(0, 0) * (c(1, 1) * c(2, 2) - c(1, 2) * c(2, 1)) - c(0, 1) * (c(1, 0) * c(2, 2) - c(1, 2) * c(2, 0)) + c(0, 2) * (c(1, 0) * c(2, 1) - c(1, 1) * c(2, 0));
}
template <int M> static bool good(const Mat<M>& c, int n) {
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < i; ++j)
      if (c(i, j) != c(j, i)) return false;
  for (int k = 1; k <= n; ++k) {
    double m = k == 1 ? c(0, 0) : k == 2 ? c(0, 0) * c(1, 1) - c(0, 1) * c(1, 0) : det<M>(c, 3);
    if (!(m > 0)) return false;
  }
  return true;
}
template <int M> static void isM(const NormalDistribution<M>& d, const Vec<M>& m, const Mat<M>& c, const char* what) {
  int n = m.size();
  sv_check(d.getMean() == m && d.getCovariance() == c, what);
  sv_check(d.getMode() == m, "mode-is-the-mean");
  Mat<M> e = d.getPrecision() * c;
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) sv_check_close(e(i, j), i == j, "precision-is-the-inverse-covariance");
  double dt = det<M>(c, n);
  sv_check_close(d.getDeterminant(), dt, "determinant-of-the-covariance");
  sv_check_close(d.getNormalizer(), 0.5 * n * std::log(2 * M_PI) + 0.5 * std::log(dt), "normalizer-of-the-current-covariance");
  Mat<M> l = d.getTransformation().matrixL(), p = l * l.transpose();
  for (int i = 0; i < n; ++i)
    for (int j = 0; j < n; ++j) sv_check_close(p(i, j), c(i, j), "cholesky-factor-of-the-current-covariance");
}
template <int M> static void densityM(const NormalDistribution<M>& d, const Vec<M>& m, const Mat<M>& c) {
  int n = m.size();
  Vec<M> x(n);
  for (int i = 0; i < n; ++i) x(i) = sv_double("x");
  double q = (x - m).dot(d.getPrecision() * (x - m));
  sv_check_close(d.mahalanobisDistance(x), q, "squared-mahalanobis-distance");
  sv_check_close(d.logpdf(x), -0.5 * q - 0.5 * n * std::log(2 * M_PI) - 0.5 * std::log(det<M>(c, n)), "log-density");
  sv_check_close(d.pdf(x), std::exp(d.logpdf(x)), "density-is-the-exponential-of-the-log-density");
}
template <int M> static void symMat(Mat<M>& c, int n, bool sym) {
  for (int i = 0; i < n; ++i)
    for (int j = 0; j <= i; ++j) c(i, j) = c(j, i) = sv_double("c");
  if (!sym) c(0, n - 1) = sv_double("c");
}
template <int M> static void normalM(int n) {
  Vec<M> m(n), m2(n);
  Mat<M> base(n, n), c(n, n);
  base.setZero();
  for (int i = 0; i < n; ++i) m(i) = sv_double("m"), m2(i) = sv_double("m"), base(i, i) = i + 2;
  base(0, n - 1) = base(n - 1, 0) = n > 1 ? 0.5 : 2;
  symMat<M>(c, n, sv_choose("symmetric", 2));
  NormalDistribution<M> d(m, base);
  isM<M>(d, m, base, "constructed-parameters");
  bool ok = good<M>(c, n), t = false;
  long how = sv_choose("how", 4);
  switch (how) {
    case 0: t = throws([&] { d.setCovariance(c); }); break;
    case 1: t = throws([&] { NormalDistribution<M> e(m, c); d = e; }); break;
    case 2: t = throws([&] { NormalDistribution<M> e(std::make_tuple(m, c)); d = e; }); break;
    default: d.setMean(m2); m = m2; t = throws([&] { d.setCovariance(c); });
  }
  sv_check(t == !ok, "exactly-the-matrices-that-are-not-symmetric-positive-definite-are-rejected");
  if (t != !ok) return;
  Mat<M> cur = t ? base : c;
  isM<M>(d, m, cur, t ? "a-rejected-covariance-changes-nothing" : "parameters-are-the-ones-set-last");
  NormalDistribution<M> k(d);
  isM<M>(k, m, cur, "a-copy-is-equivalent");
  densityM<M>(k, m, cur);
}
SV_ENTRY(normal_m1) { normalM<Eigen::Dynamic>(1); }
SV_ENTRY(normal_m2) { normalM<2>(2); }
SV_ENTRY(normal_m2_dynamic) { normalM<Eigen::Dynamic>(2); }
// three dimensions: any positive definite matrix with these off-diagonal terms
SV_ENTRY(normal_m3) {
  Eigen::Vector3d m;
  Eigen::Matrix3d c;
  for (int i = 0; i < 3; ++i) m(i) = sv_double("m");
  symMat<3>(c, 3, true);
  if (!SV_TIER) {
    sv_assume(c(1, 0) == 0.5 && c(2, 1) == -1);
    sv_assume(c(0, 0) > c(1, 1) && c(1, 1) > c(2, 2));
  }
  sv_assume(good<3>(c, 3));
  NormalDistribution<3> d(m, c);
  isM<3>(d, m, c, "constructed-parameters");
  densityM<3>(d, m, c);
}
template <int M> static void klM(int n) {
  Vec<M> m1(n), m2(n);
  Mat<M> c1(n, n), c2(n, n);
  for (int i = 0; i < n; ++i) m1(i) = sv_double("m"), m2(i) = sv_double("m");
  symMat<M>(c1, n, true);
  symMat<M>(c2, n, true);
  sv_assume(good<M>(c1, n) && good<M>(c2, n));
  NormalDistribution<M> p(m1, c1), q(m2, c2);
  Mat<M> t = q.getPrecision() * c1;
  double tr = 0;
  for (int i = 0; i < n; ++i) tr += t(i, i);
  double k = 0.5 * (std::log(det<M>(c2, n) / det<M>(c1, n)) + tr - n + (m1 - m2).dot(q.getPrecision() * (m1 - m2)));
  sv_check_close(p.KLDivergence(q), k, "divergence-between-the-two-distributions");
  sv_check_close(p.KLDivergence(p), 0, "divergence-from-itself-is-zero");
}
SV_ENTRY(normal_m2_kl) { klM<2>(2); }
