// The 2-D laser rangefinder example.
#include "sv.h"
#include <sstream>
#include <cmath>
#include <aslam/calibration/2dlrf/ErrorTermMotion.h>
#include <aslam/calibration/2dlrf/ErrorTermObservation.h>
#include <aslam/calibration/2dlrf/utils.h>
#include <aslam/calibration/data-structures/VectorDesignVariable.h>
#include <sm/kinematics/rotations.hpp>
#include "covariance.h"
using namespace aslam::calibration;
using aslam::backend::DesignVariable;
using aslam::backend::JacobianContainer;
template <int N> static Eigen::Matrix<double, N, 1> vec(const char* n) {
  Eigen::Matrix<double, N, 1> v;
  for (int i = 0; i < N; ++i) v(i) = sv_double(n);
  return v;
}
static void derivative(const char* in, int k, const Eigen::MatrixXd& J, const Eigen::VectorXd& e, const char* id) {
  std::string name = std::string(in) + "#" + std::to_string(k);
  for (int i = 0; i < e.size(); ++i) sv_check_close(J(i, k), sv_diff(e(i), name.c_str()), id);
}
struct Motion {
  VectorDesignVariable<3> a, b;
  double T;
  Eigen::Vector3d u;
  Motion() : a(vec<3>("from")), b(vec<3>("to")), T(sv_double("step")), u(vec<3>("input")) { sv_assume(T > 0); }
  // what the term has to say about these poses, this step and this input
  void is(ErrorTermMotion& t) {
    t.evaluateError();
    Eigen::Vector3d e = t.error(), x = a.getValue(), y = b.getValue(), w = u - e;
    double c = std::cos(x(2)), s = std::sin(x(2));
    sv_check_close(x(0) + T * (c * w(0) - s * w(1)), y(0), "motion-by-the-input-less-the-error-leads-to-the-next-pose");
    sv_check_close(x(1) + T * (s * w(0) + c * w(1)), y(1), "motion-by-the-input-less-the-error-leads-to-the-next-pose");
    sv_check_close(x(2) + T * w(2), y(2), "turning-by-the-input-less-the-error-leads-to-the-next-heading");
  }
};
SV_ENTRY(motion_error) {
  Motion m;
  ErrorTermMotion t(&m.a, &m.b, m.T, m.u, Eigen::Matrix3d::Identity());
  sv_check(t.numDesignVariables() == 2 && t.designVariable(0) == &m.a && t.designVariable(1) == &m.b, "depends-on-both-poses");
  m.is(t);
  m.u = vec<3>("other");
  t.setInput(m.u);
  m.T = sv_double("step");
  sv_assume(m.T > 0);
  t.setTimestep(m.T);
  sv_check(t.getTimestep() == m.T && t.getInput() == m.u, "accessors-return-what-was-set");
  m.is(t);
  m.b.setValue(vec<3>("moved"));
  m.is(t);
}
SV_ENTRY(motion_jacobian) {
  Motion m;
  ErrorTermMotion t(&m.a, &m.b, m.T, m.u, Eigen::Matrix3d::Identity());
  t.evaluateError();
  Eigen::Vector3d e = t.error();
  JacobianContainer J(3);
  t.evaluateJacobians(J);
  for (int k = 0; k < 3; ++k) {
    derivative("from", k, J.Jacobian(&m.a), e, "jacobian-of-the-previous-pose");
    derivative("to", k, J.Jacobian(&m.b), e, "jacobian-of-the-next-pose");
  }
  sv_check(J.numDesignVariables() == 2, "jacobians-of-the-two-poses");
  sv_check(t.error() == e, "jacobians-leave-the-error");
}
struct Observation {
  VectorDesignVariable<3> x, c;
  VectorDesignVariable<2> l;
  double r, b;
  Observation() : x(vec<3>("pose")), c(vec<3>("calibration")), l(vec<2>("landmark")), r(sv_double("range")), b(sv_double("bearing")) {}
  Eigen::Vector2d offset() const {
    double t = x.getValue()(2);
    return Eigen::Vector2d(l.getValue()(0) - (x.getValue()(0) + std::cos(t) * c.getValue()(0) - std::sin(t) * c.getValue()(1)),
                           l.getValue()(1) - (x.getValue()(1) + std::sin(t) * c.getValue()(0) + std::cos(t) * c.getValue()(1)));
  }
  // the landmark is not where the sensor is
  void apart() const {
    Eigen::Vector2d d = offset();
    sv_assume(d(0) * d(0) + d(1) * d(1) > 1e-4);
  }
  void is(ErrorTermObservation& t) {
    t.evaluateError();
    Eigen::Vector2d e = t.error(), d = offset();
    sv_check_close(e(0), r - std::sqrt(d(0) * d(0) + d(1) * d(1)), "range-error-is-measured-less-predicted-range");
    double p = std::atan2(d(1), d(0)) - x.getValue()(2) - c.getValue()(2);
    sv_check_close(e(1), sm::kinematics::angleMod(b - p), "bearing-error-is-measured-less-predicted-bearing-within-a-turn");
  }
};
SV_ENTRY(observation_error) {
  Observation o;
  ErrorTermObservation t(&o.x, &o.l, &o.c, o.r, o.b, Eigen::Matrix2d::Identity());
  sv_check(t.numDesignVariables() == 3 && t.designVariable(0) == &o.x && t.designVariable(1) == &o.l && t.designVariable(2) == &o.c, "depends-on-pose-landmark-and-calibration");
  o.apart();
  o.is(t);
  o.r = sv_double("range");
  o.b = sv_double("bearing");
  t.setRange(o.r);
  t.setBearing(o.b);
  sv_check(t.getRange() == o.r && t.getBearing() == o.b, "accessors-return-what-was-set");
  o.is(t);
  o.c.setValue(vec<3>("recalibrated"));
  o.apart();
  o.is(t);
}
SV_ENTRY(observation_jacobian) {
  Observation o;
  o.apart();
  ErrorTermObservation t(&o.x, &o.l, &o.c, o.r, o.b, Eigen::Matrix2d::Identity());
  t.evaluateError();
  Eigen::Vector2d e = t.error();
  JacobianContainer J(2);
  t.evaluateJacobians(J);
  for (int k = 0; k < 3; ++k) {
    derivative("pose", k, J.Jacobian(&o.x), e, "jacobian-of-the-pose");
    derivative("calibration", k, J.Jacobian(&o.c), e, "jacobian-of-the-calibration");
    if (k < 2) derivative("landmark", k, J.Jacobian(&o.l), e, "jacobian-of-the-landmark");
  }
  sv_check(J.numDesignVariables() == 3, "jacobians-of-pose-landmark-and-calibration");
}
// P27: the weights
static double someError;
SV_ENTRY(weight_motion) {
  VectorDesignVariable<3> a(vec<3>("from")), b(vec<3>("to"));
  Eigen::Vector3d u = vec<3>("input"), v = vec<3>("input");
  auto Q = covariance<3>("q"), S = covariance<3>("s");
  ErrorTermMotion t(&a, &b, 1, u, Q), o(&b, &a, 1, v, S);
  life(t, o, Q, S, [&](ErrorTermMotion& x, const Eigen::Matrix3d& m) {
    sv_check(x.getCovariance() == m, "covariance-is-the-one-set-last");
    x.evaluateError();
    sv_check(x.getInput() == (&x == &o ? v : u), "copy-has-the-input");
  });
  o = t;
  sv_check(o.getInput() == u && o.getTimestep() == t.getTimestep(), "assignment-takes-everything");
  o.evaluateError();
  t.evaluateError();
  sv_check(o.error() == t.error(), "assigned-term-has-the-same-error");
}
SV_ENTRY(weight_observation) {
  VectorDesignVariable<3> x(vec<3>("pose")), c(Eigen::Vector3d(0.1, 0.2, 0.3));
  VectorDesignVariable<2> l(Eigen::Vector2d(3, 4));
  double r = sv_double("range"), b = sv_double("bearing");
  sv_assume(x.getValue()(0) < 1);
  auto Q = covariance<2>("q"), S = covariance<2>("s");
  ErrorTermObservation t(&x, &l, &c, r, b, Q), o(&c, &l, &x, b, r, S);
  life(t, o, Q, S, [&](ErrorTermObservation& y, const Eigen::Matrix2d& m) {
    sv_check(y.getCovariance() == m, "covariance-is-the-one-set-last");
    sv_check(y.getRange() == (&y == &o ? b : r) && y.getBearing() == (&y == &o ? r : b), "copy-has-the-measurement");
    y.evaluateError();
  });
  o = t;
  sv_check(o.getRange() == r && o.getBearing() == b, "assignment-takes-everything");
  o.evaluateError();
  t.evaluateError();
  sv_check(o.error() == t.error(), "assigned-term-has-the-same-error");
}
// P29: the simulated path and the first guess of the landmarks
SV_ENTRY(sine_path) {
  size_t n = 1 + sv_choose("steps", SV_T(4, 7));
  double A = sv_double("amplitude"), f = sv_double("frequency"), T = sv_double("step");
  sv_assume(T > 0);
  std::vector<Eigen::Vector3d> u;
  if (sv_choose("used", 2)) u.assign(3, Eigen::Vector3d(1, 2, 3));
  genSineWavePath(u, n, A, f, T);
  sv_check(u.size() == n, "one-input-per-step");
  sv_check(u[0] == Eigen::Vector3d::Zero(), "first-input-is-no-motion");
  double h = 0, s = std::sqrt(1 + A * A);
  for (size_t i = 1; i < n; ++i) {
    double c = A * std::cos(2 * M_PI * f * (i * T)), k = std::sqrt(1 + c * c);
    sv_check_close(u[i](0), 2 * M_PI * f * ((s + k) / 2), "speed-is-the-mean-along-the-curve");
    sv_check_close(u[i](1), 0, "no-sideways-motion");
    h += T * u[i](2);
    sv_check_close(h, std::atan(c), "turning-leads-to-the-heading-of-the-curve");
    s = k;
  }
}
// time steps that are not exact in binary
SV_ENTRY(sine_path_steps) {
  double T = sv_double("step");
  sv_assume(T > 1e-6 && T < 1e3);
  size_t n = 1 + sv_choose("steps", SV_T(8, 16));
  std::vector<Eigen::Vector3d> u;
  genSineWavePath(u, n, 0.5, 0.25, T);
  sv_check(u.size() == n, "one-input-per-step");
}
SV_ENTRY(landmarks) {
  size_t n = 1 + sv_choose("steps", SV_T(2, 3)), m = 1 + sv_choose("landmarks", 2);
  Eigen::Vector3d c = vec<3>("calibration");
  std::vector<Eigen::Vector3d> x;
  std::vector<std::vector<double>> r, b;
  for (size_t i = 0; i < n; ++i) {
    x.push_back(vec<3>("pose"));
    r.push_back(std::vector<double>(m));
    b.push_back(std::vector<double>(m));
    for (size_t j = 0; j < m; ++j) {
      r[i][j] = sv_double("range");
      b[i][j] = sv_double("bearing");
    }
  }
  std::vector<Eigen::Vector2d> l;
  if (sv_choose("used", 2)) l.assign(3, Eigen::Vector2d(1, 2));
  initLandmarks(l, x, c, r, b);
  sv_check(l.size() == m, "one-guess-per-landmark");
  for (size_t j = 0; j < m; ++j) {
    size_t i = 0;
    while (i < n && !(r[i][j] > 0)) ++i;
    if (i == n) {
      sv_check(l[j] == Eigen::Vector2d::Zero(), "unseen-landmark-is-at-the-origin");
      continue;
    }
    // what the sensor would see of the guess is what it saw
    double t = x[i](2), dx = l[j](0) - x[i](0) - (std::cos(t) * c(0) - std::sin(t) * c(1)), dy = l[j](1) - x[i](1) - (std::sin(t) * c(0) + std::cos(t) * c(1)), a = t + c(2) + b[i][j];
    sv_check_close(dx, r[i][j] * std::cos(a), "guess-is-where-the-first-sighting-puts-it");
    sv_check_close(dy, r[i][j] * std::sin(a), "guess-is-where-the-first-sighting-puts-it");
  }
}
