// The simulation programs of the laser rangefinder example: files and the
// estimator (optimizer) are recorders.
#include "sv.h"
#include <fstream>
#include <iostream>
#include <sstream>
#include <cmath>
#include <sys/time.h>
#include <vector>
#include <sm/BoostPropertyTree.hpp>
#include <sm/kinematics/rotations.hpp>
#include <sm/kinematics/three_point_methods.hpp>
#include <aslam/backend/CompressedColumnMatrix.hpp>
#include <aslam/backend/Optimizer2.hpp>
#include <aslam/calibration/base/Timestamp.h>
#include <aslam/calibration/core/IncrementalEstimator.h>
#include <aslam/calibration/core/OptimizationProblem.h>
#include <aslam/calibration/data-structures/VectorDesignVariable.h>
#include <aslam/calibration/geometry/Transformation.h>
#include <aslam/calibration/statistics/UniformDistribution.h>
#include <aslam/calibration/statistics/NormalDistribution.h>
// all samples of a normal distribution are the same
extern "C" long random() { return 1503238553; }
extern "C" void srandom(unsigned) {}
extern "C" int gettimeofday(struct timeval* t, void*) {
  t->tv_sec = 1000;
  t->tv_usec = 5;
  return 0;
}
namespace std { sv_ofstream sv_cout("(terminal)"); }
#define cout sv_cout
#define main program
#if defined(OFFLINE)
#include "2dlrf/simulate-offline.cpp"
#else
#include "2dlrf/simulate-online-new.cpp"
#endif
#undef main
#undef cout
namespace {
using Eigen::Matrix3d;
using Eigen::Vector2d;
using Eigen::Vector3d;
double standardNormal() { return NormalDistribution<1>(0, 1).getSample(); }
template <class M> void close(const M& a, const M& b, const char* id) {
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j) sv_check_close(a(i, j), b(i, j), id);
}
Vector3d vec(const char* n) {
  double x = sv_double(n), y = sv_double(n), z = sv_double(n);
  return Vector3d(x, y, z);
}
typedef VectorDesignVariable<3> Pose3;
typedef VectorDesignVariable<2> Landmark;
int steps, landmarks, size;
double T, A, f, q[3], noise[2];
Vector3d x0, Theta, guess;
Vector2d lo, hi;
void config(const std::string& path, sm::PropertyTree& t) {
  sv_check(path == "settings.xml", "configuration-is-the-one-given");
  const std::string p = "lrf/problem/";
  t.setInt(p + "steps", steps);
  t.setDouble(p + "timestep", T);
  t.setDouble(p + "sineWaveAmplitude", A);
  t.setDouble(p + "sineWaveFrequency", f);
  t.setInt(p + "numLandmarks", landmarks);
  t.setDouble(p + "groundMinX", lo(0));
  t.setDouble(p + "groundMinY", lo(1));
  t.setDouble(p + "groundMaxX", hi(0));
  t.setDouble(p + "groundMaxY", hi(1));
  const char* xyt[] = {"x", "y", "t"};
  for (int i = 0; i < 3; ++i) {
    t.setDouble(p + "motion/sigma2_" + xyt[i], q[i]);
    t.setDouble(p + "thetaTrue/" + xyt[i], Theta(i));
    t.setDouble(p + "thetaHat/" + xyt[i], guess(i));
    t.setDouble(p + "x0/" + xyt[i], x0(i));
  }
  t.setDouble(p + "observation/sigma2_r", noise[0]);
  t.setDouble(p + "observation/sigma2_b", noise[1]);
  t.setInt("lrf/estimator/batchSize", size);
  t.setString("lrf/estimator/which", "the estimator's part");
}
typedef std::vector<std::ofstream::Row> Rows;
const Rows& rows(const char* name) {
  static Rows none;
  const Rows* r = nullptr;
  for (auto& x : std::ofstream::files())
    if (x->name == name) {
      sv_check(!r, "file-is-written-once");
      r = &x->rows;
    }
  sv_check(r != nullptr, "file-is-written");
  return r ? *r : none;
}
template <int N> std::vector<Eigen::Matrix<double, N, 1> > vectors(const char* name, size_t n) {
  auto& r = rows(name);
  sv_check(r.size() == n, "files-have-a-line-per-state-or-landmark");
  std::vector<Eigen::Matrix<double, N, 1> > v;
  for (auto& x : r) {
    sv_check(x.v.size() == N, "files-have-a-line-per-state-or-landmark");
    v.push_back(Eigen::Map<const Eigen::Matrix<double, N, 1> >(x.v.data()));
  }
  return v;
}
// what has been handed to the estimator or optimizer, and what came of it
struct Batch {
  std::vector<aslam::backend::DesignVariable*> v[3];
  std::vector<Vector3d> x;
  std::vector<Vector2d> l;
  Vector3d theta;
  std::vector<aslam::backend::ErrorTerm*> terms;
  bool accepted;
  std::vector<Vector3d> xAfter;
  std::vector<OptimizationProblem::DesignVariableSP> variables;
  OptimizationProblem::ErrorTermsSP owned;
};
std::vector<Batch> batches;
Batch take(const OptimizationProblem& p) {
  Batch b;
  b.accepted = true;
  const char* id = "poses-landmarks-and-calibration-are-the-three-groups";
  size_t n = 0;
  for (int g = 0; g < 3; ++g) {
    for (auto& d : p.getDesignVariablesGroup(g)) b.v[g].push_back(d.get()), b.variables.push_back(d);
    n += b.v[g].size();
    for (auto d : b.v[g]) sv_check(d->isActive(), "variables-are-estimated");
  }
  sv_check(n == p.numDesignVariables(), id);
  for (auto d : b.v[0]) {
    auto x = dynamic_cast<Pose3*>(d);
    sv_check(x, id);
    b.x.push_back(x->getValue());
  }
  for (auto d : b.v[1]) {
    auto x = dynamic_cast<Landmark*>(d);
    sv_check(x, id);
    b.l.push_back(x->getValue());
  }
  sv_check((int)b.v[1].size() == landmarks && b.v[2].size() == 1, id);
  auto c = dynamic_cast<Pose3*>(b.v[2][0]);
  sv_check(c, id);
  b.theta = c->getValue();
  b.owned = p.getErrorTerms();
  for (size_t i = 0; i < p.numErrorTerms(); ++i) b.terms.push_back(const_cast<OptimizationProblem&>(p).errorTerm(i));
  return b;
}
// any estimates
void estimate(Batch& b) {
  for (auto d : b.v[0]) {
    b.xAfter.push_back(vec("estimated"));
    static_cast<Pose3*>(d)->setValue(b.xAfter.back());
  }
  for (auto d : b.v[1]) {
    double x = sv_double("estimated"), y = sv_double("estimated");
    static_cast<Landmark*>(d)->setValue(Vector2d(x, y));
  }
  static_cast<Pose3*>(b.v[2][0])->setValue(vec("estimated"));
}
std::vector<IncrementalEstimator::BatchSP> kept;
bool madeEstimator;
#if defined(OFFLINE)
Eigen::MatrixXd matrix(const char* n) {
  Eigen::MatrixXd m(2, 2);
  for (int i = 0; i < 4; ++i) m(i / 2, i % 2) = sv_double(n);
  return m;
}
truncated_svd_solver::SvdResult analysis;
void told(const char* a, const char* b, const Eigen::MatrixXd& m) {
  auto& r = rows("(terminal)");
  bool found = false;
  for (size_t i = 0; i + m.rows() < r.size(); ++i)
    if (r[i].s.size() >= 1 && r[i].s.back() == b && (!*a || (r[i].s.size() >= 2 && r[i].s[r[i].s.size() - 2] == a)) && (*a || r[i].s.size() == 1)) {
      found = true;
      for (int k = 0; k < m.rows(); ++k) {
        sv_check((int)r[i + 1 + k].v.size() == m.cols(), "results-of-the-marginal-analysis-are-told");
        for (int l = 0; l < m.cols(); ++l) sv_check_close(r[i + 1 + k].v[l], m(k, l), "results-of-the-marginal-analysis-are-told");
      }
    }
  sv_check(found, "results-of-the-marginal-analysis-are-told");
}
aslam::backend::SolutionReturnValue optimized(aslam::backend::Optimizer2& o, std::vector<aslam::backend::DesignVariable*>&) {
  auto p = dynamic_cast<OptimizationProblem*>(o.problem());
  sv_check(p && batches.empty(), "one-problem-is-solved");
  batches.push_back(take(*p));
  auto& g = p->getGroupsOrdering();
  sv_check(g.size() == 3 && g[2] == 2, "calibration-is-ordered-last");
  auto s = o.getSolver<aslam::backend::AslamTruncatedSvdSolver>();
  sv_check(s && s->getMargStartIndex() == 3 * steps + 2 * landmarks, "calibration-is-what-is-marginalized");
  estimate(batches.back());
  for (auto* r : {&s->res, &s->marginalResult}) {
    r->nullSpace = matrix("basis"), r->rowSpace = matrix("basis"), r->cov = matrix("covariance"), r->rowCov = matrix("covariance");
    r->sv = r->cov.col(0);
  }
  analysis = s->marginalResult;
  return aslam::backend::SolutionReturnValue();
}
#endif
void run() {
  batches.clear();
  sm::configFile() = config;
  IncrementalEstimator::made() = [](const sm::PropertyTree& c) {
    sv_check(!madeEstimator && c.getString("which", "") == "the estimator's part", "estimator-is-configured-by-its-part-of-the-configuration");
    madeEstimator = true;
  };
  IncrementalEstimator::added() = [](const IncrementalEstimator::BatchSP& p) {
    kept.push_back(p);
    Batch b = take(*p);
    // at least one is accepted
    const int left = (steps + size - 1) / size - (int)batches.size();
    bool any = false;
    for (auto& x : batches) any = any || x.accepted;
    b.accepted = (left == 1 && !any) || sv_choose("accepted", 2);
    if (b.accepted) estimate(b);
    batches.push_back(b);
    return b.accepted;
  };
  std::string a[2] = {"program", "settings.xml"};
  char* argv[3] = {&a[0][0], &a[1][0], nullptr};
  sv_check(program(2, argv) == 0, "succeeds");
}
Eigen::Matrix2d turn(double a) {
  Eigen::Matrix2d m;
  m << std::cos(a), -std::sin(a), std::sin(a), std::cos(a);
  return m;
}
// the states that the inputs lead through
void driven(const std::vector<Vector3d>& x, const std::vector<Vector3d>& u, const char* id) {
  close(x[0], x0, "states-begin-at-the-configured-one");
  for (size_t i = 1; i < x.size(); ++i) {
    close(Vector2d(x[i].head<2>()), Vector2d(x[i - 1].head<2>() + T * (turn(x[i - 1](2)) * u[i].head<2>())), id);
    sv_check_close(x[i](2), angleMod(x[i - 1](2) + T * u[i](2)), id);
  }
}
void check() {
  auto x = vectors<3>("x_true.txt", steps), odom = vectors<3>("x_odom.txt", steps);
  auto l = vectors<2>("l.txt", landmarks);
  auto& g = UniformDistribution<double, 2>::made();
  close(Vector2d(g.getMinSupport()), lo, "landmarks-are-within-the-configured-ground");
  close(Vector2d(g.getMaxSupport()), hi, "landmarks-are-within-the-configured-ground");
  std::vector<Vector3d> u, n;
  genSineWavePath(u, steps, A, f, T);
  const double z = standardNormal();
  n = u;
  for (auto& v : n)
    for (int k = 0; k < 3; ++k) v(k) += std::sqrt(q[k]) * z;
  driven(x, u, "states-follow-the-sine-wave");
  driven(odom, n, "odometry-integrates-the-measured-inputs");
  // measured
  std::vector<std::vector<double> > r(steps, std::vector<double>(landmarks)), b = r;
  for (int i = 1; i < steps; ++i)
    for (int j = 0; j < landmarks; ++j) {
      const double c = std::cos(x[i](2)), s = std::sin(x[i](2));
      const double dx = l[j](0) - (x[i](0) + Theta(0) * c - Theta(1) * s), dy = l[j](1) - (x[i](1) + Theta(0) * s + Theta(1) * c);
      r[i][j] = std::sqrt(dx * dx + dy * dy) + std::sqrt(noise[0]) * z;
      b[i][j] = angleMod(std::atan2(dy, dx) - x[i](2) - Theta(2) + std::sqrt(noise[1]) * z);
    }
  std::vector<Vector2d> l0;
  initLandmarks(l0, odom, guess, r, b);
#if defined(OFFLINE)
  size = steps;
#endif
  const size_t count = (steps + size - 1) / size;
  sv_check(batches.size() == count, "every-state-is-in-one-batch");
  std::vector<Vector3d> est;
  Vector3d theta = guess;
  for (size_t k = 0; k < count; ++k) {
    auto& p = batches[k];
    const char* id = "batch-has-its-states-starting-from-odometry";
    const int first = k * size, end = std::min(steps, first + size);
    sv_check((int)p.x.size() == end - first, id);
    for (int i = first; i < end; ++i) close(p.x[i - first], odom[i], id);
    sv_check(p.v[1] == batches[0].v[1] && p.v[2] == batches[0].v[2], "batches-share-landmarks-and-calibration");
    for (int j = 0; j < landmarks; ++j) close(p.l[j], l0[j], "landmarks-start-where-they-were-first-seen-or-last-estimated");
    close(p.theta, theta, "calibration-starts-from-the-guess-or-its-last-estimate");
    id = "a-term-for-every-motion-and-observation-between-the-states-of-a-batch";
    sv_check((int)p.terms.size() == (end - first - 1) * (1 + landmarks), id);
    std::vector<char> used(p.terms.size(), 0);
    for (int i = first + 1; i < end; ++i) {
      bool found = false;
      for (size_t t = 0; t < used.size(); ++t) {
        auto m = dynamic_cast<ErrorTermMotion*>(p.terms[t]);
        if (used[t] || !m || m->designVariable(0) != p.v[0][i - 1 - first] || m->designVariable(1) != p.v[0][i - first]) continue;
        used[t] = found = true;
        sv_check_close(m->getTimestep(), T, "motion-is-the-measured-one");
        close(Vector3d(m->getInput()), n[i], "motion-is-the-measured-one");
        close(Matrix3d(m->getCovariance()), Matrix3d(Vector3d(q[0], q[1], q[2]).asDiagonal()), "motion-has-the-configured-noise");
        break;
      }
      sv_check(found, id);
      for (int j = 0; j < landmarks; ++j) {
        found = false;
        for (size_t t = 0; t < used.size(); ++t) {
          auto o = dynamic_cast<ErrorTermObservation*>(p.terms[t]);
          if (used[t] || !o || o->designVariable(0) != p.v[0][i - first] || o->designVariable(1) != p.v[1][j] || o->designVariable(2) != p.v[2][0]) continue;
          used[t] = found = true;
          sv_check_close(o->getRange(), r[i][j], "ranges-are-from-the-mounted-sensor-to-the-landmark");
          sv_check_close(o->getBearing(), b[i][j], "bearings-are-those-of-the-landmark-seen-from-the-mounted-sensor");
          close(Eigen::Matrix2d(o->getCovariance()), Eigen::Matrix2d(Vector2d(noise[0], noise[1]).asDiagonal()), "observations-have-the-configured-noise");
          break;
        }
        sv_check(found, id);
      }
    }
    if (p.accepted) {
      est.insert(est.end(), p.xAfter.begin(), p.xAfter.end());
      l0.clear();
      if (k + 1 < count) l0 = batches[k + 1].l, theta = batches[k + 1].theta;
    }
  }
  // results
  auto& a = sm::kinematics::alignment();
  const char* id = "estimated-landmarks-are-aligned-with-the-true-ones";
  sv_check(a.calls == 1 && a.to.cols() == landmarks && a.from.cols() == landmarks && a.to.rows() == 3 && a.from.rows() == 3, id);
  auto la = vectors<2>("l_est_trans.txt", landmarks);
  for (int j = 0; j < landmarks; ++j) {
    close(Vector3d(a.to.col(j)), Vector3d(l[j](0), l[j](1), 0), id);
    const Vector2d e = static_cast<Landmark*>(batches[0].v[1][j])->getValue();
    close(Vector3d(a.from.col(j)), Vector3d(e(0), e(1), 0), id);
    close(la[j], Vector2d(a.T.topLeftCorner<2, 2>() * e + a.T.topRightCorner<2, 1>()), id);
  }
  auto xa = vectors<3>("x_est_trans.txt", est.size());
  for (size_t i = 0; i < est.size(); ++i)
    close(Vector2d(xa[i].head<2>()), Vector2d(a.T.topLeftCorner<2, 2>() * est[i].head<2>() + a.T.topRightCorner<2, 1>()), "estimated-positions-are-aligned-like-the-landmarks");
#if defined(OFFLINE)
  told("Unobservable", "basis:", analysis.nullSpace);
  told("Observable", "basis:", analysis.rowSpace);
  told("", "Covariance:", analysis.cov);
  told("Observable", "covariance:", analysis.rowCov);
  auto xe = vectors<3>("x_est.txt", steps);
  for (int i = 0; i < steps; ++i) close(xe[i], est[i], "estimates-are-written");
  auto le = vectors<2>("l_est.txt", landmarks);
  for (int j = 0; j < landmarks; ++j) close(le[j], static_cast<Landmark*>(batches[0].v[1][j])->getValue(), "estimates-are-written");
#else
  size_t accepted = 0;
  for (auto& p : batches) accepted += p.accepted;
  for (auto& w : rows("(terminal)"))
    if (w.s.size() == 5 && w.s[2] == "batches:" && w.v.size() == 2)
      sv_check(w.v[0] == accepted && w.v[1] == count, "number-of-batches-is-told");
#endif
}
// a path, poses and mountings, or noise: any
void values(int free) {
  T = 0.5, A = 0.75, f = 0.25;
  x0 = Vector3d(1, 2, 0.5), Theta = Vector3d(0.25, 0.125, -0.75), guess = Vector3d(0.5, 0.25, -0.5);
  for (int i = 0; i < 2; ++i) {
    lo(i) = sv_double("ground"), hi(i) = sv_double("ground");
    sv_assume(lo(i) < hi(i));
  }
  q[0] = 0.25, q[1] = 0.0625, q[2] = 1, noise[0] = 0.5, noise[1] = 0.125;
  if (free == 0) {
    T = sv_double("T"), A = sv_double("A"), f = sv_double("f");
    sv_assume(T > 0);
  }
  if (free == 1) x0 = vec("x0"), guess = vec("guess");
  if (free == 2) Theta = vec("theta"), guess = vec("guess");
  if (free == 3) {
    double& v = q[sv_choose("axis", 3)];
    v = sv_double("q");
    sv_assume(v > 0);
    for (double& v : noise) v = sv_double("r"), sv_assume(v > 0);
  }
}
}
SV_ENTRY(simulation) {
  const int free = sv_choose("free", 4);
  values(free);
  // steps, landmarks, states in a batch
  static const int shape[][3] = {{2, 2, 2}, {3, 2, 3}, {3, 1, 2}, {4, 1, 3}, {2, 1, 1}, {4, 1, 4}, {4, 2, 2}, {5, 1, 4}, {3, 1, 1}};
#if defined(OFFLINE)
  const int kind = sv_choose("shape", 2);
#else
  const int kind = sv_choose("shape", SV_T(4, 9));
#endif
  steps = shape[kind][0], landmarks = shape[kind][1], size = shape[kind][2];
#if defined(OFFLINE)
  aslam::backend::Optimizer2::hook = optimized;
#endif
  run();
  check();
}
SV_ENTRY(usage) {
  int n = sv_choose("arguments", 4);
  if (n == 1) ++n;
  std::string s("x");
  char* argv[6] = {&s[0], &s[0], &s[0], &s[0], nullptr, nullptr};
  argv[n + 1] = nullptr;
  size_t k = std::ofstream::files().size();
  int r = program(n + 1, argv);
  sv_check(r != 0 && !madeEstimator && std::ofstream::files().size() == k, "wrong-number-of-arguments-is-refused");
}
#if defined(OFFLINE)
namespace aslam { namespace backend {
SolutionReturnValue (*Optimizer2::hook)(Optimizer2&, std::vector<DesignVariable*>&) = nullptr;
}}
#endif
