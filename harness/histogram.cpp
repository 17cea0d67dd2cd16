#include "sv.h"
#include <Eigen/Core>
#include <aslam/calibration/statistics/Histogram.h>
#include <cmath>
#include <stdexcept>
#include <type_traits>
#include <vector>
using namespace aslam::calibration;

template <int M> using HV = Eigen::Matrix<double, M, 1>;
// one or more dimensions behind one interface
template <int M> struct Hist {
  typedef Histogram<double, M> H;
  static H make(const HV<M>& a, const HV<M>& b, const HV<M>& r) { return H(a, b, r); }
  static void add(H& h, const HV<M>& x) { h.addSample(x); }
  static void addAll(H& h, const std::vector<HV<M>>& x) { h.addSamples(x); }
  static double mean(const H& h, int i) { return h.getMean()(i); }
  static double mode(const H& h, int i) { return h.getMode()(i); }
  static double cov(const H& h, int i, int j) { return h.getCovariance()(i, j); }
};
template <> struct Hist<1> {
  typedef Histogram<double, 1> H;
  static H make(const HV<1>& a, const HV<1>& b, const HV<1>& r) { return H(a(0), b(0), r(0)); }
  static void add(H& h, const HV<1>& x) { h.addSample(x(0)); }
  static void addAll(H& h, const std::vector<HV<1>>& x) {
    std::vector<double> v;
    for (auto& e : x) v.push_back(e(0));
    h.addSamples(v);
  }
  static double mean(const H& h, int) { return h.getMean(); }
  static double mode(const H& h, int) { return h.getMode(); }
  static double cov(const H& h, int, int) { return h.getVariance(); }
};

// the grid of a histogram: any origin and bin sizes, n[i] bins
template <int M> struct Setup {
  HV<M> mn, mx, rs;
  int n[M], tot = 1;
  explicit Setup(int maxBins, bool anySize) {
    for (int i = 0; i < M; ++i) {
      n[i] = 1 + (int)sv_choose("bins", maxBins);
      tot *= n[i];
      mn(i) = sv_real_in("min", -100, 100);
      rs(i) = anySize ? sv_real_in("size", 0.01, 100) : (i ? 0.5 : 2.0);
      mx(i) = mn(i) + n[i] * rs(i);
      if (anySize) {
        double cut = sv_double("cut");  // the last bin may stick out of the range
        sv_assume(cut >= 0 && cut < rs(i) && (n[i] > 1 || cut == 0));
        mx(i) -= cut;
      }
    }
  }
  // bin k as an index, row-major
  Eigen::Matrix<int, M, 1> index(int k) const {
    Eigen::Matrix<int, M, 1> r;
    for (int i = M - 1; i >= 0; --i) r(i) = k % n[i], k /= n[i];
    return r;
  }
  double centre(int k, int i) const { return mn(i) + (index(k)(i) + 0.5) * rs(i); }
};

// ---- moments of arbitrary counts
template <int M> static void moments(int maxBins) {
  Setup<M> s(maxBins, true);
  auto h = Hist<M>::make(s.mn, s.mx, s.rs);
  sv_check((int)h.getNumCellsTot() == s.tot, "one-cell-per-bin");
  sv_check(h.getSum() == 0, "a-new-histogram-is-empty");
  std::vector<double> c;
  double sum = 0;
  for (int k = 0; k < s.tot; ++k) {
    c.push_back(sv_real_in("count", 0, 1000));
    h.getCell(s.index(k)) = c[k];
    sum += c[k];
  }
  sv_assume(sum >= 0.01);
  sv_check_close(h.getSum(), sum, "sum-of-the-counts");
  auto g(h);
  HV<M> m;
  for (int i = 0; i < M; ++i) {
    double e = 0;
    for (int k = 0; k < s.tot; ++k) e += s.centre(k, i) * c[k];
    m(i) = e / sum;
    sv_check_close(Hist<M>::mean(g, i), m(i), "mean-of-the-bin-centres");
  }
  auto z = h.getNormalized();
  sv_check_close(z.getSum(), 1, "normalized-counts-add-up-to-one");
  for (int k = 0; k < s.tot; ++k) {
    sv_check_close(z.getCell(s.index(k)) * sum, c[k], "normalizing-divides-by-the-total");
    sv_check(h.getCell(s.index(k)) == c[k], "normalizing-leaves-the-original-alone");
  }
  sv_check(z.getMinimum() == h.getMinimum() && z.getMaximum() == h.getMaximum() && z.getResolution() == h.getResolution(), "normalizing-keeps-the-bins");
  sv_assume(sum >= 1.01);
  for (int i = 0; i < M; ++i)
    for (int j = 0; j < M; ++j) {
      double e = 0;
      for (int k = 0; k < s.tot; ++k) e += (s.centre(k, i) - m(i)) * (s.centre(k, j) - m(j)) * c[k];
      sv_check_close(Hist<M>::cov(g, i, j), e / (sum - 1), "sample-covariance-of-the-bin-centres");
    }
}
SV_ENTRY(histogram_moments_1d) { moments<1>(SV_T(4, 6)); }
SV_ENTRY(histogram_moments_2d) { moments<2>(2); }

// ---- order statistics
template <int M> static void order(int maxBins) {
  Setup<M> s(maxBins, false);
  auto h = Hist<M>::make(s.mn, s.mx, s.rs);
  std::vector<double> c;
  double sum = 0;
  for (int k = 0; k < s.tot; ++k) {
    c.push_back(sv_real_in("count", 0, 1000));
    h.getCell(s.index(k)) = c[k];
    sum += c[k];
  }
  // the mode is the centre of the fullest bin that the grid visits first
  std::vector<int> visited;
  Eigen::Matrix<int, M, 1> idx = s.index(0);
  for (int k = 0; k < s.tot; ++k, h.incrementIndex(idx))
    for (int l = 0; l < s.tot; ++l)
      if (s.index(l) == idx) visited.push_back(l);
  sv_check((int)visited.size() == s.tot, "mode-is-the-centre-of-the-first-fullest-bin");
  double m[M];
  for (int i = 0; i < M; ++i) m[i] = Hist<M>::mode(h, i);
  bool some = false;
  for (int k = 0; k < s.tot; ++k) {
    bool first = true;
    for (int l = 0; l < s.tot; ++l) first = first & (l < k ? c[visited[l]] < c[visited[k]] : c[visited[l]] <= c[visited[k]]);
    for (int i = 0; i < M; ++i) first = first & (m[i] == s.centre(visited[k], i));
    some = some | first;
  }
  sv_check(some, "mode-is-the-centre-of-the-first-fullest-bin");
}
SV_ENTRY(histogram_mode_2d) { order<2>(2); }
SV_ENTRY(histogram_order_1d) {
  Setup<1> s(SV_T(4, 6), false);
  auto h = Hist<1>::make(s.mn, s.mx, s.rs);
  std::vector<double> c;
  double sum = 0;
  for (int k = 0; k < s.tot; ++k) {
    c.push_back(sv_real_in("count", 0, 1000));
    h.getCell(s.index(k)) = c[k];
    sum += c[k];
  }
  sv_assume(sum > 0);
  double run = 0, med = h.getMedian(), mode = h.getMode();
  int k = 0, top = 0;
  for (;; ++k) {
    run += c[k];
    if (2 * run >= sum) break;
  }
  for (int l = 1; l < s.tot; ++l)
    if (c[l] > c[top]) top = l;
  sv_check_close(med, s.centre(k, 0), "median-is-the-first-bin-that-reaches-half");
  sv_check_close(mode, s.centre(top, 0), "mode-is-the-first-fullest-bin");
}

// ---- samples are counted once, where they belong
template <int M> static void samples(int maxBins, int num) {
  Setup<M> s(maxBins, true);
  auto h = Hist<M>::make(s.mn, s.mx, s.rs);
  std::vector<double> c;
  for (int k = 0; k < s.tot; ++k) {
    c.push_back(sv_choose("had", 2) ? 3 : 0);
    h.getCell(s.index(k)) = c[k];
  }
  std::vector<HV<M>> x(num);
  for (auto& v : x) {
    bool in = true;
    for (int i = 0; i < M; ++i) {
      v(i) = sv_double("x");
      in = in && s.mn(i) <= v(i) && v(i) <= s.mx(i);
    }
    if (!in) continue;
    int hits = 0;
    for (int k = 0; k < s.tot; ++k) {
      bool here = true;
      for (int i = 0; i < M; ++i) {
        int q = s.index(k)(i);
        double lo = s.mn(i) + q * s.rs(i);
        // a bin owns its lower bound, the last one also the end of the range
        here = here && lo <= v(i) && (v(i) < lo + s.rs(i) || q == s.n[i] - 1);
      }
      if (here) ++c[k], ++hits;
    }
    sv_check(hits == 1, "harness-counts-once");
  }
  if (num > 1 || sv_choose("batch", 2)) Hist<M>::addAll(h, x);
  else Hist<M>::add(h, x[0]);
  double sum = 0;
  for (int k = 0; k < s.tot; ++k) {
    sv_check(h.getCell(s.index(k)) == c[k], "every-sample-in-range-counts-once-in-its-bin");
    sum += c[k];
  }
  sv_check(h.getSum() == sum, "sum-counts-every-sample-in-range");
}
SV_ENTRY(histogram_samples_1d) { samples<1>(SV_T(3, 4), 1 + sv_choose("num", 2)); }
SV_ENTRY(histogram_samples_2d) { samples<2>(2, 1); }

// ---- integer bins
SV_ENTRY(histogram_int) {
  int lo = (int)sv_int("lo", -3, 3), n = 1 + (int)sv_choose("n", 3);
  Histogram<int, 1> h(lo, lo + n, 1);
  sv_check((int)h.getNumCellsTot() == n + 1, "one-cell-per-integer");
  int x = (int)sv_int("x", -10, 10);
  h.addSample(x);
  bool in = lo <= x && x <= lo + n;
  sv_check(h.getSum() == (in ? 1 : 0), "integer-sample-counts-once");
  if (in) {
    sv_check(h.getMean() == x, "mean-of-one-integer");
    sv_check(h.getMode() == x, "mode-of-one-integer");
    sv_check(h.getMedian() == x, "median-of-one-integer");
  }
}
