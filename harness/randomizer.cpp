// The samplers on any output of the generator: random() is the harness's own.
#include "sv.h"
#include <sstream>
#include <cmath>
#include <cstdlib>
#include <limits>
#include <sys/time.h>
#include <vector>
#include <aslam/calibration/exceptions/BadArgumentException.h>
#include <aslam/calibration/exceptions/InvalidOperationException.h>
#include <aslam/calibration/statistics/ChiSquareDistribution.h>
#include <aslam/calibration/statistics/NormalDistribution.h>
#include <aslam/calibration/statistics/Randomizer.h>
#include <aslam/calibration/statistics/UniformDistribution.h>
using namespace aslam::calibration;

// the stream of generator outputs: constants until it is started, then the
// given number of arbitrary ones; a run that needs more is not looked at
static bool started;
static std::vector<long> drawn;
static size_t pos, limit;
static unsigned seed;
static int seeds;
static const char* kEnd;  // a check to fail when the stream ends, if any
extern "C" long random() {
  if (!started) return pos++ % 2 ? 1234567890 : 987654321;
  if (pos == drawn.size()) {
    if (drawn.size() == limit) {
      if (kEnd) sv_check(false, kEnd);
      sv_assume(false);
    }
    drawn.push_back(sv_rand("random"));
  }
  return drawn[pos++];
}
extern "C" void srandom(unsigned s) {
  seed = s;
  ++seeds;
}
extern "C" int gettimeofday(struct timeval* t, void*) {
  t->tv_sec = 1000;
  t->tv_usec = 250000;
  return 0;
}
static void start(size_t n) {
  started = true;
  limit = n;
  drawn.clear();
  pos = 0;
  kEnd = nullptr;
}
static void rewind() { pos = 0; }
// the i-th output as a number in [0, 1]
static double U(size_t i) { return drawn.at(i) / (double)RAND_MAX; }
template <class F> static bool throws(F f) {
  try {
    f();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}

SV_ENTRY(uniform_real) {
  Randomizer<double> r(1.0);
  double a = sv_double("min"), b = sv_double("max"), s = 0;
  start(1);
  bool t = throws([&] { s = r.sampleUniform(a, b); });
  sv_check(t == (a >= b), "exactly-an-empty-support-is-rejected");
  if (t) return;
  sv_check(s >= a && s <= b, "uniform-sample-lies-in-the-support");
  sv_check_close(s, a + U(0) * (b - a), "uniform-sample-is-proportional-to-the-generator-output");
}
template <class T> static void uniformIeee(T a, T b) {
  Randomizer<T> r(1);
  start(1);
  T s = r.sampleUniform(a, b);
  sv_check(s >= a, "uniform-sample-is-not-below-the-support");
  sv_check(s <= b, "uniform-sample-is-not-above-the-support");
}
// supports whose extent rounds
SV_ENTRY(uniform_ieee) {
  static const double lo[] = {0, 1, -1, 0.1, -0.3, 1e-300, -1e16, 1e22, -1e-5}, hi[] = {1, 2, 1e16, 0.30000000000000004, 0.7, 3e-300, 1, 1.0000000000000003e22, 1e300};
  int k = sv_choose("support", 9);
  uniformIeee<double>(lo[k], hi[k]);
}
SV_ENTRY(uniform_ieee_float) {
  static const float lo[] = {0, 1, -1, 0.1f, -0.3f, -1e8f}, hi[] = {1, 2, 1e8f, 0.3f, 0.7f, 1};
  int k = sv_choose("support", 6);
  uniformIeee<float>(lo[k], hi[k]);
}
// integer supports: every value has the same share of the generator outputs
SV_ENTRY(uniform_int) {
  Randomizer<int> r(1);
  static const int base[] = {0, -2, 5, std::numeric_limits<int>::min(), std::numeric_limits<int>::max() - 5};
  int a = base[sv_choose("min", 5)], n = 2 + sv_choose("size", SV_T(3, 5));
  start(1);
  int s = r.sampleUniform(a, a + (n - 1));
  sv_check(s >= a && s - a < n, "integer-sample-lies-in-the-support");
  double x = U(0) * n, slack = n * 2.0 / RAND_MAX, k = s - a;
  sv_check(k - slack <= x && x <= k + 1 + slack, "every-integer-has-the-same-share");
  sv_check(throws([&] { r.sampleUniform(a, a); }) && throws([&] { r.sampleUniform(a + 1, a); }), "empty-support-is-rejected");
}
SV_ENTRY(uniform_int_wide) {
  Randomizer<int> r(1);
  static const int lo[] = {std::numeric_limits<int>::min(), -2000000000, 0, std::numeric_limits<int>::min()},
                   hi[] = {std::numeric_limits<int>::max(), 1500000000, std::numeric_limits<int>::max(), 0};
  int k = sv_choose("support", 4);
  sv_lazy_int(false);
  start(1);
  int s = r.sampleUniform(lo[k], hi[k]);
  sv_check(s >= lo[k] && s <= hi[k], "integer-sample-of-a-wide-support-lies-in-it");
}
template <class T> static void normal() {
  Randomizer<T> r(1);
  bool i = std::numeric_limits<T>::is_integer;
  T m = i ? (T)(sv_choose("mean", 3) * 50 - 50) : (T)sv_double("mean"), v = i ? (T)(sv_choose("variance", 4) - 1) : (T)sv_double("variance"), s = 0;
  start(4);
  if (i) {
    // a pair of outputs close enough to the middle is never turned down
    start(2);
    for (int k = 0; k < 2; ++k) {
      long x = random();
      sv_assume(x / (double)RAND_MAX >= 0.25 && x / (double)RAND_MAX <= 0.45);
    }
    rewind();
    kEnd = "integer-normal-sampling-ends";
    sv_lazy_int(true);
  }
  bool t = throws([&] { s = r.sampleNormal(m, v); });
  sv_check(t == (v <= 0), "exactly-a-variance-that-is-not-positive-is-rejected");
  if (t) return;
  double u = 2 * U(pos - 2) - 1, w = 2 * U(pos - 1) - 1, q = u * u + w * w;
  sv_check(q > 0 && q < 1, "pairs-outside-the-unit-disc-are-turned-down");
  if (pos == 4) {
    double a = 2 * U(0) - 1, b = 2 * U(1) - 1, p = a * a + b * b;
    sv_check(!(p > 0 && p < 1), "pairs-inside-the-unit-disc-are-used");
  }
  double x = (double)m + std::sqrt((double)v) * u * std::sqrt(-2 * std::log(q) / q);
  if (i) sv_check(s - x <= 0.500001 && x - s <= 0.500001, "integer-normal-sample-is-the-rounded-one");
  else sv_check_close(s, x, "normal-sample-is-scaled-and-shifted");
}
SV_ENTRY(normal_real) { normal<double>(); }
SV_ENTRY(normal_int) { normal<int>(); }
template <int M> static void categorical(int n) {
  Randomizer<double, M> r(1.0);
  Eigen::Matrix<double, M, 1> p(n);
  double sum = 0;
  bool neg = false;
  for (int i = 0; i < n; ++i) {
    p(i) = sv_double("p");
    sum += p(i);
    neg |= p(i) < 0;
  }
  start(1);
  size_t s = 99;
  bool t = throws([&] { s = r.sampleCategorical(p); });
  if (neg || sum > 1.0001 || sum < 0.9999) {
    sv_check(t, "negative-probabilities-or-a-sum-other-than-one-are-rejected");
    return;
  }
  if (sum != 1) return;
  sv_check(!t, "probabilities-are-accepted");
  sv_check(s < (size_t)n, "category-is-in-range");
  sv_check(p(s) > 0, "category-has-positive-probability");
  double c = 0;
  for (size_t i = 0; i < s; ++i) c += p(i);
  sv_check(c <= U(0) && U(0) <= c + p(s), "category-is-the-one-the-output-falls-into");
}
SV_ENTRY(categorical_3) { categorical<3>(3); }
SV_ENTRY(categorical_dynamic) { categorical<Eigen::Dynamic>(1 + sv_choose("n", SV_T(2, 4))); }
// sums that round, and zeros at the ends
SV_ENTRY(categorical_ieee) {
  Randomizer<double, Eigen::Dynamic> r(1.0);
  int k = sv_choose("case", 4);
  Eigen::VectorXd p;
  if (k == 0) p = (Eigen::VectorXd(11) << Eigen::VectorXd::Constant(10, 0.1), 0).finished();
  else if (k == 1) p = (Eigen::VectorXd(4) << 0, 0.5, 0.5, 0).finished();
  else if (k == 2) p = (Eigen::VectorXd(8) << 0, 0, Eigen::VectorXd::Constant(6, 1.0 / 6)).finished();
  else p = (Eigen::VectorXd(3) << 1, 0, 0).finished();
  start(1);
  size_t s = r.sampleCategorical(p);
  sv_check(s < (size_t)p.size() && p(s) > 0, "category-has-positive-probability");
}
SV_ENTRY(poisson) {
  Randomizer<double> r(1.0);
  double m = sv_double("mean");
  start(SV_T(4, 6));
  size_t k = 0;
  bool t = throws([&] { k = r.samplePoisson(m); });
  sv_check(t == (m <= 0), "exactly-a-mean-that-is-not-positive-is-rejected");
  if (t) return;
  sv_check(k + 1 == pos, "poisson-sample-is-the-number-of-arrivals");
  double p = 1;
  for (size_t i = 0; i < k; ++i) p *= U(i);
  if (k) sv_check(p > std::exp(-m), "arrivals-up-to-the-sample-lie-in-the-interval");
  sv_check(p * U(k) <= std::exp(-m), "next-arrival-lies-outside-the-interval");
}
SV_ENTRY(exponential) {
  Randomizer<double> r(1.0);
  double l = sv_double("rate"), s = -1;
  start(2);
  bool t = throws([&] { s = r.sampleExponential(l); });
  sv_check(t == (l <= 0), "exactly-a-rate-that-is-not-positive-is-rejected");
  if (t) return;
  sv_check(std::isfinite(s) && s >= 0, "exponential-sample-is-finite-and-not-negative");
  sv_check(U(pos - 1) > 0, "zero-outputs-are-turned-down");
  if (pos == 2) sv_check(U(0) == 0, "positive-outputs-are-used");
  sv_check_close(s * l, -std::log(U(pos - 1)), "exponential-sample-inverts-the-distribution");
}
SV_ENTRY(geometric) {
  Randomizer<double> r(1.0);
  double p = sv_double("probability"), k = -1;
  start(2);
  sv_lazy_int(true);
  bool t = throws([&] { k = (double)r.sampleGeometric(p); });
  sv_check(t == !(p > 0 && p <= 1), "exactly-a-value-that-is-no-positive-probability-is-rejected");
  if (t) return;
  double u = U(pos - 1);
  sv_check(u > 0, "zero-outputs-are-turned-down");
  if (p == 1) {
    sv_check(k == 0, "certain-success-has-no-failures");
    return;
  }
  // P(K >= k) = (1 - p)^k
  sv_assume(p > 0.001 && p < 0.999 && u > 1e-10);
  double q = std::log1p(-p), l = std::log(u);
  sv_check(k >= 0, "geometric-sample-is-not-negative");
  sv_check(k * q >= l, "output-lies-within-the-probability-of-that-many-failures");
  sv_check((k + 1) * q < l, "output-lies-outside-the-probability-of-more-failures");
}
// probabilities that vanish against one
SV_ENTRY(geometric_small) {
  Randomizer<double> r(1.0);
  static const double ps[] = {1e-17, 1e-300, 5e-324, 1e-9, 1, 0.9999999999999999};
  static const long rs[] = {1, 2, 1073741823, 2147483646, 2147483647};
  double p = ps[sv_choose("probability", 6)], u = rs[sv_choose("output", 5)];
  start(1);
  drawn.push_back((long)u);
  u /= RAND_MAX;
  double k = (double)r.sampleGeometric(p), x = p == 1 ? 0 : std::log(u) / std::log1p(-p);
  double top = (double)std::numeric_limits<size_t>::max();
  if (x > top) sv_check(k >= 1e19, "sample-beyond-the-range-is-the-largest");
  else sv_check(k <= x * (1 + 1e-12) && k >= x * (1 - 1e-12) - 1, "small-success-probabilities-are-not-lost");
}
SV_ENTRY(gamma) {
  Randomizer<double> r(1.0);
  int n = sv_choose("integral", 3);
  bool frac = sv_choose("fractional", 2);
  double f = frac ? sv_double("fraction") : 0, b = sv_double("scale"), s = -1;
  if (frac) sv_assume(f > 1e-15 && f < 1);
  double k = n + f;
  start(n + (frac ? 2 : 0));
  bool t = throws([&] { s = r.sampleGamma(k, b); });
  sv_check(t == !(k > 0 && b > 0), "exactly-parameters-that-are-not-positive-are-rejected");
  if (t) return;
  double x = 0;
  for (int i = 0; i < n; ++i) x -= std::log(U(i));
  sv_check(std::isfinite(s), "gamma-sample-is-finite");
  if (!frac) {
    sv_check(s >= 0, "gamma-sample-is-not-negative");
    sv_check_close(s * b, x, "integer-shape-sample-is-a-sum-of-exponential-ones");
    return;
  }
  // Ahrens-Dieter: z from the two-piece envelope, accepted by its ratio
  double z = s * b - x, e = std::exp(1.0), c = (e + f) / e * U(n), v = U(n + 1);
  if (c <= 1) {
    sv_check(c == 0 ? z == 0 : true, "sample-from-the-lower-envelope-at-zero");
    if (c > 0) {
      sv_check(z > 0, "gamma-sample-is-not-negative");
      sv_check_close(z, std::pow(c, 1 / f), "sample-from-the-lower-envelope");
      sv_check(v <= std::exp(-z), "sample-from-the-lower-envelope-is-accepted");
    }
  } else {
    double g = ((e + f) / e - c) / f;  // below one, so that its logarithm is negative
    sv_check(g > 0, "gamma-sample-is-finite");
    sv_check_close(z, -std::log(g), "sample-from-the-upper-envelope");
    if (z > 0) sv_check(v <= std::pow(z, f - 1), "sample-from-the-upper-envelope-is-accepted");
  }
}
SV_ENTRY(gamma_negative) {
  Randomizer<double> r(1.0);
  double k = sv_double("shape"), b = sv_double("scale");
  start(4);
  sv_assume(k <= 0 || b <= 0);
  if (k > 0) sv_assume(k == 1 || k == 2);
  sv_check(throws([&] { r.sampleGamma(k, b); }), "parameters-that-are-not-positive-are-rejected");
}
SV_ENTRY(distributions) {
  switch (sv_choose("distribution", 6)) {
    case 0: {
      double m = sv_double("mean"), v = sv_double("variance");
      sv_assume(v > 0);
      NormalDistribution<1> d(m, v);
      d.getSample();
      start(2);
      double s = d.getSample();
      Randomizer<double> r(1.0);
      rewind();
      sv_check_close(s, m + std::sqrt(v) * r.sampleNormal(), "normal-sample-has-the-mean-and-variance-of-the-distribution");
      break;
    }
    case 1: {
      Eigen::Vector2d m(sv_double("mean"), sv_double("mean"));
      // any covariance, by its factor
      double a = sv_double("factor"), b = sv_double("factor"), c = sv_double("factor");
      sv_assume(a > 0 && c > 0);
      // the other outputs of the generator with one covariance, or one
      // sequence of outputs with any covariance
      bool any = sv_choose("generator", 2);
      if (any) sv_assume(a == 2 && b == -0.75 && c == 0.5);
      Eigen::Matrix2d S;
      S << a * a, a * b, a * b, b * b + c * c;
      NormalDistribution<2> d(m, S);
      d.getSample();
      if (any)
        start(4);
      else
        pos = 0;
      Eigen::Vector2d s = d.getSample();
      sv_assume(pos == 4);
      Randomizer<double> r(1.0);
      rewind();
      double x = r.sampleNormal(), y = r.sampleNormal();
      sv_check_close(s(0), m(0) + a * x, "multivariate-sample-is-the-transformed-one");
      sv_check_close(s(1), m(1) + b * x + c * y, "multivariate-sample-is-the-transformed-one");
      break;
    }
    case 2: {
      double a = sv_double("min"), b = sv_double("max");
      sv_assume(a < b);
      UniformDistribution<double> d(a, b);
      d.getSample();
      start(1);
      double s = d.getSample();
      sv_check_close(s, a + U(0) * (b - a), "uniform-sample-of-the-distribution");
      break;
    }
    case 3: {
      double a = sv_double("min"), b = sv_double("max"), c = sv_double("min"), e = sv_double("max");
      sv_assume(a < b && c < e);
      UniformDistribution<double, 2> d(Eigen::Vector2d(a, c), Eigen::Vector2d(b, e));
      d.getSample();
      start(2);
      Eigen::Vector2d s = d.getSample();
      sv_check_close(s(0), a + U(0) * (b - a), "uniform-sample-of-the-distribution");
      sv_check_close(s(1), c + U(1) * (e - c), "uniform-sample-of-the-distribution");
      break;
    }
    case 4: {
      double b = sv_double("scale");
      sv_assume(b > 0);
      GammaDistribution<> d(2, b);
      d.getSample();
      start(2);
      double s = d.getSample();
      sv_check_close(s * b, -std::log(U(0)) - std::log(U(1)), "gamma-sample-has-the-parameters-of-the-distribution");
      break;
    }
    default: {
      ChiSquareDistribution d(4);
      d.getSample();
      start(2);
      double s = d.getSample();
      sv_check_close(s / 2, -std::log(U(0)) - std::log(U(1)), "chi-square-sample-has-the-degrees-of-freedom-of-the-distribution");
    }
  }
}
SV_ENTRY(seeding) {
  Randomizer<double> r(7.0), c(r), o(3.0);
  static const unsigned s[] = {0, 1, 12345, 4294967295u};
  unsigned k = s[sv_choose("seed", 4)];
  seeds = 0;
  r.setSeed(k);
  sv_check(seeds == 1 && seed == k, "the-generator-gets-the-seed");
  o = c;
  start(2);
  double a = r.sampleUniform(), b = o.sampleUniform();
  sv_check_close(a, U(0), "samplers-draw-from-the-generator");
  sv_check_close(b, U(1), "samplers-draw-from-the-generator");
}
