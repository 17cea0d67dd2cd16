#include "sv.h"
#include <sstream>
#include <aslam/calibration/exceptions/BadArgumentException.h>
#include <aslam/calibration/functions/DigammaFunction.h>
#include <aslam/calibration/functions/IncompleteGammaPFunction.h>
#include <aslam/calibration/functions/IncompleteGammaQFunction.h>
#include <aslam/calibration/functions/LogFactorialFunction.h>
#include <aslam/calibration/functions/LogGammaFunction.h>
#include <boost/math/special_functions/digamma.hpp>
#include <boost/math/special_functions/gamma.hpp>
#include <cmath>
#include <stdexcept>
using namespace aslam::calibration;
SV_ENTRY(log_factorial) {
  LogFactorialFunction f;
  unsigned long n = sv_int("n", 0, SV_T(12, 40));
  double v = f.getValue(n);
  sv_check(f(n) == v, "call-operator-is-the-value");
  double s = 0;
  for (unsigned long i = 2; i <= n; ++i) s += std::log((double)i);
  sv_check_close(v, s, "log-factorial-is-the-sum-of-logarithms");
  sv_check_close(f(n + 1) - v, std::log(n + 1.0), "log-factorial-recurrence");
}
SV_ENTRY(log_gamma_integer) {
  LogGammaFunction<size_t> g;
  LogFactorialFunction f;
  LogGammaFunction<double> h;
  LogGammaFunction<int> k;
  unsigned long n = sv_int("n", 0, SV_T(12, 40));
  double v = 0;
  bool t = false;
  try {
    v = g(n);
  } catch (const std::exception&) {
    t = true;
  }
  sv_check(t == (n == 0), "log-gamma-of-integers-rejects-exactly-zero");
  if (t) return;
  sv_check_close(v, f(n - 1), "log-gamma-is-the-log-factorial-of-the-predecessor");
  sv_check_close(v, h((double)n), "integer-and-real-versions-agree");
  sv_check_close(v, k((int)n), "integer-and-real-versions-agree");
  sv_check_close(g(n + 1) - v, std::log((double)n), "log-gamma-recurrence");
}
SV_ENTRY(log_gamma_multivariate) {
  unsigned long d = sv_int("d", 1, SV_T(5, 8));
  double x = sv_double("x");
  sv_assume(x > (d - 1) / 2.0);
  LogGammaFunction<double> g(d), one;
  sv_check(g.getDim() == d && one.getDim() == 1, "dimension-is-the-one-set-last");
  double s = d * (d - 1) * 0.25 * std::log(M_PI);
  for (unsigned long j = 0; j < d; ++j) s += std::lgamma(x - j / 2.0);
  double v = g(x);
  sv_check_close(v, s, "multivariate-log-gamma-is-its-product-form");
  sv_check_close(one(x), std::lgamma(x), "log-gamma-in-one-dimension");
  if (d > 1) {
    LogGammaFunction<double> lower(d - 1);
    sv_check_close(v, (d - 1) * 0.5 * std::log(M_PI) + std::lgamma(x) + lower(x - 0.5), "recurrence-over-the-dimension");
  }
  double r = 0;
  for (unsigned long j = 0; j < d; ++j) r += std::log(x - j / 2.0);
  sv_check_close(g(x + 1) - v, r, "recurrence-over-the-argument");
  LogGammaFunction<double> c(g), e(3);
  e = g;
  sv_check(c.getDim() == d && e.getDim() == d, "a-copy-has-the-dimension");
  sv_check_close(c(x), v, "a-copy-is-equivalent");
  sv_check_close(e(x), v, "a-copy-is-equivalent");
  e.setDim(1);
  sv_check(e.getDim() == 1 && g.getDim() == d, "dimension-is-the-one-set-last");
  sv_check_close(e(x), std::lgamma(x), "log-gamma-in-one-dimension");
}
SV_ENTRY(log_gamma_multivariate_int) {
  int n = sv_int("n", 3, SV_T(8, 20)), d = sv_int("d", 1, 4);
  LogGammaFunction<int> g(d);
  LogGammaFunction<double> h(d);
  sv_check_close(g(n), h((double)n), "integer-and-real-versions-agree");
  double s = 0;
  for (int j = 0; j < d; ++j) s += std::lgamma(n - j / 2.0);
  sv_check_close(g(n), s + d * (d - 1) * 0.25 * std::log(M_PI), "multivariate-log-gamma-is-its-product-form");
}
SV_ENTRY(digamma) {
  double x = sv_double("x");
  sv_assume(x > 0);
  DigammaFunction<double> f;
  double v = f(x);
  sv_check_close(v, (double)boost::math::digamma(x), "digamma-value");
  sv_check_close(f(x + 1) - v, 1 / x, "digamma-recurrence");
  int n = sv_int("n", 1, 8);
  DigammaFunction<int> g;
  double s = -0.57721566490153286;
  for (int i = 1; i < n; ++i) s += 1.0 / i;
  sv_check_close(g(n), s, "digamma-of-integers");
}
SV_ENTRY(incomplete_gamma) {
  double a = sv_double("a"), b = sv_double("a"), x = sv_double("x");
  sv_assume(a > 0 && b > 0 && x >= 0);
  IncompleteGammaPFunction p(a);
  IncompleteGammaQFunction q(a);
  switch (sv_choose("how", 4)) {
    case 0: break;
    case 1: p.setAlpha(b), q.setAlpha(b), a = b; break;
    case 2: {
      IncompleteGammaPFunction p2(p);
      IncompleteGammaQFunction q2(q);
      p.setAlpha(b), q.setAlpha(b);
      sv_check(p2.getAlpha() == a && q2.getAlpha() == a, "a-copy-is-independent");
      p = p2, q = q2;
      break;
    }
    default: {
      IncompleteGammaPFunction p2(b);
      IncompleteGammaQFunction q2(b);
      p = p2, q = q2, a = b;
    }
  }
  sv_check(p.getAlpha() == a && q.getAlpha() == a, "parameter-is-the-one-set-last");
  double u = p(x), v = q(x);
  sv_check(u >= 0 && u <= 1 && v >= 0 && v <= 1, "regularized-functions-lie-in-the-unit-interval");
  sv_check_close(u, (double)boost::math::gamma_p(a, x), "lower-function-value");
  sv_check_close(v, (double)boost::math::gamma_q(a, x), "upper-function-value");
  sv_check_close(u + v, 1, "lower-and-upper-functions-add-up-to-one");
}
