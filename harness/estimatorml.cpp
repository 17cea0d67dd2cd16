#include "sv.h"
#include <sstream>
#include <Eigen/Core>
#include <aslam/calibration/statistics/EstimatorML.h>
#include <aslam/calibration/statistics/NormalDistribution.h>
#include <vector>
using namespace aslam::calibration;

template <int M> struct Tr {
  typedef NormalDistribution<M> D;
  typedef Eigen::Matrix<double, M, 1> P;
  static P point() {
    P p;
    static int k;
    p.setConstant(k++ % 2);
    p(0) = sv_double("p");
    return p;
  }
  static double at(const P& p, int i) { return p(i); }
  static double cov(const D& d, int i, int j) { return d.getCovariance()(i, j); }
};
template <> struct Tr<1> {
  typedef NormalDistribution<1> D;
  typedef double P;
  static P point() { return sv_double("p"); }
  static double at(const P& p, int) { return p; }
  static double cov(const D& d, int, int) { return d.getVariance(); }
};
// what the estimator has to report
template <int M> struct Ref {
  typedef typename Tr<M>::P P;
  std::vector<P> pts;
  bool defined = false, valid = false;
  double mean[M], cov[M][M];
  void compute(const std::vector<P>& p, const std::vector<double>* w) {
    double n = 0;
    for (size_t k = 0; k < p.size(); ++k) n += w ? (*w)[k] : 1;
    valid = defined = false;
    if (n == 0) return;
    defined = true;
    for (int i = 0; i < M; ++i) {
      mean[i] = 0;
      for (size_t k = 0; k < p.size(); ++k) mean[i] += (w ? (*w)[k] : 1) * Tr<M>::at(p[k], i) / n;
    }
    // thirds are rounded: whether the points lie on a line is then beyond exact arithmetic
    bool thirds = M == 2 && p.size() == 3;
    for (int i = 0; i < M; ++i)
      for (int j = 0; j < M; ++j) {
        cov[i][j] = 0;
        for (size_t k = 0; k < p.size(); ++k) cov[i][j] += (w ? (*w)[k] : 1) * (Tr<M>::at(p[k], i) - mean[i]) * (Tr<M>::at(p[k], j) - mean[j]) / n;
      }
    if (thirds) sv_assume(cov[0][0] > 1e-6 && cov[0][0] * cov[M - 1][M - 1] - cov[0][M - 1] * cov[M - 1][0] > 1e-6);
    valid = cov[0][0] > 0 && (M == 1 || cov[0][0] * cov[M - 1][M - 1] - cov[0][M - 1] * cov[M - 1][0] > 0);
  }
  void check(const EstimatorML<typename Tr<M>::D>& e) const {
    sv_check(e.getNumPoints() == pts.size(), "number-of-points-since-the-last-reset");
    sv_check(e.getValid() == valid, "valid-exactly-when-the-estimate-is-defined");
    if (!valid) return;
    const auto& d = e.getDistribution();
    for (int i = 0; i < M; ++i) {
      sv_check_close(Tr<M>::at(d.getMean(), i), mean[i], "estimated-mean");
      for (int j = 0; j < M; ++j) sv_check_close(Tr<M>::cov(d, i, j), cov[i][j], "estimated-covariance");
    }
  }
};
template <int M> static typename Tr<M>::P fixed() { return Tr<M>::P::Constant(0.5); }
template <> double fixed<1>() { return 0.5; }
template <int M> static void history(int steps, int most, int ops) {
  EstimatorML<typename Tr<M>::D> e;
  Ref<M> r;
  r.check(e);
  int total = 0;
  for (int s = 0; s < steps; ++s) {
    std::vector<typename Tr<M>::P> p;
    int op = sv_choose("op", ops), n = op < 2 ? 1 : op == 2 ? sv_choose("n", 3) : op == 3 ? sv_choose("n", 4) : 0;
    total += n;
    if (total > most) return;
    for (int i = 0; i < n; ++i) p.push_back(i == 2 ? fixed<M>() : Tr<M>::point());
    switch (op) {
      case 0:
        e.addPoint(p[0]);
        break;
      case 1: {  // into a copy
        EstimatorML<typename Tr<M>::D> c(e), o;
        c.addPoint(p[0]);
        r.check(e);
        o.addPoint(p[0]);
        o = c;
        e = o;
        c.addPoint(p[0]);
        break;
      }
      case 2:
        if (sv_choose("iterators", 2)) e.addPoints(p.begin(), p.end());
        else e.addPoints(p);
        break;
      case 3: {
        std::vector<double> w;
        int k = n + (sv_choose("mismatch", 3) - 1);
        if (k < 0) k = 0;
        Eigen::Matrix<double, Eigen::Dynamic, 1> resp(k);
        for (int i = 0; i < k; ++i) {
          resp(i) = i + 0.5;
          if (n < 3 && (M == 1 || n == 1)) {
            resp(i) = sv_double("w");
            sv_assume(resp(i) >= 0);
          }
          w.push_back(resp(i));
        }
        e.addPoints(p.begin(), p.end(), resp);
        if (k == n) r.compute(p, &w);
        r.check(e);
        continue;
      }
      default: {
        e.reset();
        r.pts.clear();
        r.valid = false;
        r.check(e);
        continue;
      }
    }
    for (auto& x : p) r.pts.push_back(x);
    if (!p.empty()) r.compute(r.pts, nullptr);
    r.check(e);
  }
}
SV_ENTRY(ml_1) { history<1>(2, SV_T(3, 4), 5); }
// after two points: another batch of any kind, a reset, more points
SV_ENTRY(ml_1_more) {
  EstimatorML<NormalDistribution<1>> e;
  Ref<1> r;
  for (int i = 0; i < 2; ++i) {
    double x = i + 0.5;
    e.addPoint(x);
    r.pts.push_back(x);
  }
  if (sv_choose("weighted", 2)) {
    std::vector<double> p{sv_double("p"), 2.0}, w{1.0, sv_double("w")};
    sv_assume(w[1] >= 0);
    Eigen::Matrix<double, Eigen::Dynamic, 1> resp(2);
    resp << w[0], w[1];
    e.addPoints(p.begin(), p.end(), resp);
    r.compute(p, &w);
    r.check(e);
  }
  if (sv_choose("reset", 2)) {
    e.reset();
    r.pts.clear();
    r.valid = false;
    r.check(e);
  }
  for (int i = 0; i < 2; ++i) {
    double x = sv_double("p");
    e.addPoint(x);
    r.pts.push_back(x);
    r.compute(r.pts, nullptr);
    r.check(e);
  }
}
SV_ENTRY(ml_2) { history<2>(1, 3, 5); }
SV_ENTRY(ml_2_points) {
  int which = sv_choose("which", 8);
  EstimatorML<NormalDistribution<2>> e;
  Ref<2> r;
  for (int i = 0; i < 4; ++i) {
    Eigen::Vector2d x(i - 1, 0.5 * i * i);
    if (i == which / 2) x(which % 2) = sv_double("p");
    e.addPoint(x);
    r.pts.push_back(x);
    r.compute(r.pts, nullptr);
    r.check(e);
    if ((i == 0 || i == 3) && sv_choose("reset", 2)) {
      e.reset();
      r.pts.clear();
      r.valid = false;
      r.check(e);
    }
  }
}
