#include "sv.h"
#include <Eigen/Core>
#include <aslam/calibration/statistics/UniformDistribution.h>
#include <stdexcept>
#include <type_traits>
using namespace aslam::calibration;

static int ispan = 4;
template <class T> static T in(const char* n) {
  if (std::is_integral<T>::value) return (T)sv_int(n, -ispan, ispan);
  if (sizeof(T) == 4) return (T)sv_float(n);
  return (T)sv_double(n);
}
template <class F> static bool throws(F f) {
  try {
    f();
  } catch (const std::exception&) {
    return true;
  }
  return false;
}
template <class T> static double width(T lo, T hi) { return (double)hi - (double)lo + (std::is_integral<T>::value ? 1.0 : 0.0); }
template <class T> static double var(T lo, T hi) {
  double w = width(lo, hi);
  return std::is_integral<T>::value ? (w * w - 1.0) / 12.0 : w * w / 12.0;
}

template <class T> static void is1(const UniformDistribution<T>& d, T lo, T hi, const char* bounds) {
  sv_check(d.getMinSupport() == lo && d.getMaxSupport() == hi, bounds);
  sv_check_close((double)d.getSupportArea(), width(lo, hi), "support-area-is-the-size-of-the-support");
  sv_check_close(d.getMean(), 0.5 * ((double)lo + (double)hi), "mean-is-the-middle-of-the-support");
  sv_check_close(d.getMedian(), 0.5 * ((double)lo + (double)hi), "median-is-the-middle-of-the-support");
  sv_check_close(d.getVariance(), var(lo, hi), "variance-of-the-uniform-distribution");
  sv_check(throws([&] { d.getMode(); }), "mode-is-undefined");
}
template <class T> static void density1(const UniformDistribution<T>& d, T lo, T hi) {
  T x = in<T>("x");
  double p = d.pdf(x);
  bool inside = lo <= x && x <= hi;
  if (inside) sv_check_close(p, 1.0 / width(lo, hi), "density-is-the-reciprocal-of-the-size-inside-the-support");
  else sv_check(p == 0, "density-is-zero-outside-the-support");
  sv_check_close(d.pmf(x), p, "pmf-agrees-with-pdf");
  sv_check_close(d.getValue(x), p, "value-agrees-with-pdf");
}
template <class T> static void uniform1() {
  T lo = in<T>("lo"), hi = in<T>("hi");
  UniformDistribution<T> d(T(3), T(5));
  is1<T>(d, T(3), T(5), "constructed-support");
  long how = sv_choose("how", 4);
  bool bad = false, thrown = false;
  T l = T(3), h = T(5);
  switch (how) {
    case 0: bad = !(lo < hi); if (!bad) l = lo, h = hi; thrown = throws([&] { d.setSupport(lo, hi); }); break;
    case 1: bad = !(lo < h); if (!bad) l = lo; thrown = throws([&] { d.setMinSupport(lo); }); break;
    case 2: bad = !(l < hi); if (!bad) h = hi; thrown = throws([&] { d.setMaxSupport(hi); }); break;
    default:
      bad = !(lo < hi);
      thrown = throws([&] {
        UniformDistribution<T> e(lo, hi);
        d = e;
      });
      if (!bad) l = lo, h = hi;
  }
  sv_check(thrown == bad, "exactly-the-reversed-or-empty-supports-are-rejected");
  if (thrown != bad) return;
  is1<T>(d, l, h, thrown ? "a-rejected-support-changes-nothing" : "support-is-the-one-set");
  UniformDistribution<T> c(d);
  is1<T>(c, l, h, "a-copy-has-the-same-support");
  density1<T>(c, l, h);
  UniformDistribution<T> z;
  is1<T>(z, T(0), T(1), "default-support-is-zero-to-one");
}
SV_ENTRY(uniform_1d) { uniform1<double>(); }
SV_ENTRY(uniform_1d_float) { uniform1<float>(); }
SV_ENTRY(uniform_1i) {
  ispan = SV_T(20, 50);
  uniform1<int>();
}

template <class T, int M> using Vec = Eigen::Matrix<T, M, 1>;
template <class T, int M> static void isM(const UniformDistribution<T, M>& d, const Vec<T, M>& lo, const Vec<T, M>& hi, const char* bounds) {
  double area = 1;
  sv_check(d.getMinSupport().size() == lo.size() && d.getMaxSupport().size() == lo.size(), "dimension");
  for (int i = 0; i < lo.size(); ++i) {
    sv_check(d.getMinSupport()(i) == lo(i) && d.getMaxSupport()(i) == hi(i), bounds);
    area *= width<T>(lo(i), hi(i));
    sv_check_close(d.getMean()(i), 0.5 * ((double)lo(i) + (double)hi(i)), "mean-is-the-middle-of-the-support");
    sv_check_close(d.getMedian()(i), 0.5 * ((double)lo(i) + (double)hi(i)), "median-is-the-middle-of-the-support");
    for (int j = 0; j < lo.size(); ++j) sv_check_close(d.getCovariance()(i, j), i == j ? var<T>(lo(i), hi(i)) : 0.0, "covariance-of-independent-uniform-components");
  }
  sv_check_close((double)d.getSupportArea(), area, "support-area-is-the-size-of-the-support");
  sv_check(throws([&] { d.getMode(); }), "mode-is-undefined");
}
template <class T, int M> static void uniformM(int n) {
  Vec<T, M> lo(n), hi(n), l(n), h(n), x(n);
  for (int i = 0; i < n; ++i) lo(i) = in<T>("lo"), hi(i) = in<T>("hi"), x(i) = in<T>("x"), l(i) = T(2 + i), h(i) = T(4 + 2 * i);
  UniformDistribution<T, M> d(l, h);
  isM<T, M>(d, l, h, "constructed-support");
  bool bad = false, thrown = false;
  Vec<T, M> a = lo, b = hi;
  long how = sv_choose("how", 4);
  if (how == 1) b = h;
  if (how == 2) a = l;
  for (int i = 0; i < n; ++i)
    if (!(a(i) < b(i))) bad = true;
  if (how == 0) thrown = throws([&] { d.setSupport(lo, hi); });
  else if (how == 1) thrown = throws([&] { d.setMinSupport(lo); });
  else if (how == 2) thrown = throws([&] { d.setMaxSupport(hi); });
  else thrown = throws([&] { UniformDistribution<T, M> e(lo, hi); d = e; });
  sv_check(thrown == bad, "exactly-the-reversed-or-empty-supports-are-rejected");
  if (thrown != bad) return;
  if (!bad) l = a, h = b;
  isM<T, M>(d, l, h, thrown ? "a-rejected-support-changes-nothing" : "support-is-the-one-set");
  UniformDistribution<T, M> c(d);
  isM<T, M>(c, l, h, "a-copy-has-the-same-support");
  bool inside = true;
  double area = 1;
  for (int i = 0; i < n; ++i) {
    inside = inside && l(i) <= x(i) && x(i) <= h(i);
    area *= width<T>(l(i), h(i));
  }
  double p = c.pdf(x);
  if (inside) sv_check_close(p, 1.0 / area, "density-is-the-reciprocal-of-the-size-inside-the-support");
  else sv_check(p == 0, "density-is-zero-outside-the-support");
  sv_check_close(c.pmf(x), p, "pmf-agrees-with-pdf");
}
SV_ENTRY(uniform_2d) { uniformM<double, 2>(2); }
SV_ENTRY(uniform_3d) { uniformM<double, 3>(3); }
SV_ENTRY(uniform_2i) {
  ispan = SV_T(2, 4);
  uniformM<int, 2>(2);
}
SV_ENTRY(uniform_xd) { uniformM<double, Eigen::Dynamic>(1 + (int)sv_choose("n", 2)); }
