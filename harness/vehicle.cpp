// The error terms of the car and time-delay examples.
#include "sv.h"
#include <sstream>
#include <string>
#include <cmath>
#ifdef CAR
#include <aslam/calibration/car/error-terms/ErrorTermPose.h>
#include <aslam/calibration/car/error-terms/ErrorTermWheel.h>
#include <aslam/calibration/car/error-terms/ErrorTermSteering.h>
#include <aslam/calibration/car/error-terms/ErrorTermVelocities.h>
#else
#include <aslam/calibration/time-delay/error-terms/ErrorTermPose.h>
#include <aslam/calibration/time-delay/error-terms/ErrorTermWheel.h>
#endif
#include <aslam/calibration/data-structures/VectorDesignVariable.h>
#include <sm/kinematics/rotations.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
#include "covariance.h"
using namespace aslam::calibration;
using namespace aslam::backend;
typedef Eigen::Matrix<double, 6, 1> V6;
template <int N> static Eigen::Matrix<double, N, 1> vec(const char* n) {
  Eigen::Matrix<double, N, 1> v;
  for (int i = 0; i < N; ++i) v(i) = sv_double(n);
  return v;
}
static double d(double e, const char* in, int k) { return sv_diff(e, (std::string(in) + "#" + std::to_string(k)).c_str()); }
static void derivative(const char* in, int k, const Eigen::MatrixXd& J, const Eigen::VectorXd& e, const char* id) {
  for (int i = 0; i < e.size(); ++i) sv_check_close(J(i, k), d(e(i), in, k), id);
}
struct Wheel {
  VectorDesignVariable<3> dv;
  VectorDesignVariable<1> dk;
  Eigen::Vector3d v;
  double k, m;
  bool front;
  EuclideanExpression ev;
  ScalarExpression ek;
  Wheel() : v(vec<3>("velocity")), k(sv_double("coefficient")), m(sv_double("measurement")), front(sv_choose("front", 2)), ev(v, &dv), ek(k, &dk) {
    // a front wheel's velocity is along the wheel only while the wheel moves forwards or backwards
    sv_assume(v(0) > 0.001 || v(0) < -0.001);
  }
  void is(ErrorTermWheel& t) {
    t.evaluateError();
    Eigen::Vector3d e = t.error();
    if (front) {
      double s = std::sqrt(v(0) * v(0) + v(1) * v(1));
      sv_check_close(e(0), m - k * (v(0) < 0 ? -s : s), "front-wheel-turns-at-its-speed-along-the-wheel");
      sv_check_close(e(1), 0, "front-wheel-may-point-anywhere");
    } else {
      sv_check_close(e(0), m - k * v(0), "rear-wheel-turns-at-its-forward-velocity");
      sv_check_close(e(1), -v(1), "rear-wheel-does-not-slip-sideways");
    }
    sv_check_close(e(2), -v(2), "wheel-stays-on-the-ground");
  }
};
SV_ENTRY(wheel_error) {
  Wheel w;
  ErrorTermWheel t(w.ev, w.ek, w.m, Eigen::Matrix3d::Identity(), w.front);
  DesignVariable *a = t.designVariable(0), *b = t.designVariable(1);
  sv_check(t.numDesignVariables() == 2 && ((a == &w.dv && b == &w.dk) || (a == &w.dk && b == &w.dv)), "depends-on-velocity-and-coefficient");
  w.is(t);
  w.m = sv_double("measurement");
  t.setMeasurement(w.m);
  w.front = sv_choose("front", 2);
  t.setFrontEnabled(w.front);
  sv_check(t.getMeasurement() == w.m && t.getFrontEnabled() == w.front, "accessors-return-what-was-set");
  w.is(t);
}
SV_ENTRY(wheel_jacobian) {
  Wheel w;
  ErrorTermWheel t(w.ev, w.ek, w.m, Eigen::Matrix3d::Identity(), w.front);
  t.evaluateError();
  Eigen::Vector3d e = t.error();
  JacobianContainer J(3);
  t.evaluateJacobians(J);
  for (int i = 0; i < 3; ++i) derivative("velocity", i, J.Jacobian(&w.dv), e, "jacobian-of-the-velocity");
  derivative("coefficient", 0, J.Jacobian(&w.dk), e, "jacobian-of-the-coefficient");
  sv_check(J.numDesignVariables() == 2, "jacobians-of-velocity-and-coefficient");
}
SV_ENTRY(weight_wheel) {
  VectorDesignVariable<3> dv;
  VectorDesignVariable<1> dk;
  EuclideanExpression v(vec<3>("velocity"), &dv), w(Eigen::Vector3d(1, 2, 3), &dv);
  ScalarExpression k(sv_double("coefficient"), &dk);
  double m = sv_double("measurement"), n = sv_double("measurement");
  auto Q = covariance<3>("q"), S = covariance<3>("s");
  ErrorTermWheel t(v, k, m, Q, false), o(w, k, n, S, true);
  life(t, o, Q, S, [&](ErrorTermWheel& x, const Eigen::Matrix3d& c) {
    sv_check(x.getCovariance() == c, "covariance-is-the-one-set-last");
    sv_check(x.getMeasurement() == m && !x.getFrontEnabled(), "copy-has-the-measurement");
  });
  o = t;
  sv_check(o.getMeasurement() == m && !o.getFrontEnabled(), "assignment-takes-everything");
  o.evaluateError();
  t.evaluateError();
  sv_check(o.error() == t.error(), "assigned-term-has-the-same-error");
}
struct Pose {
  VectorDesignVariable<6> dv;
  Eigen::Vector3d p, t;
  V6 m;
  Eigen::Matrix4d T;
  sm::kinematics::EulerAnglesYawPitchRoll ypr;
  Pose() : p(vec<3>("angle")), t(vec<3>("position")), m(vec<6>("measurement")), T(Eigen::Matrix4d::Identity()) {
    sv_assume(std::cos(p(1)) > 0.001);  // not straight up or down
    T.topLeftCorner<3, 3>() = ypr.parametersToRotationMatrix(p);
    T.topRightCorner<3, 1>() = t;
  }
  TransformationExpression e() { return TransformationExpression(T, &dv); }
  void is(ErrorTermPose& x) {
    x.evaluateError();
    V6 e = x.error();
    Eigen::Vector3d q = ypr.rotationMatrixToParameters(T.topLeftCorner<3, 3>());
    for (int i = 0; i < 3; ++i) {
      sv_check_close(e(i), m(i) - t(i), "position-error-is-measured-less-predicted");
      sv_check_close(e(3 + i), sm::kinematics::angleMod(m(3 + i) - q(i)), "angle-error-is-measured-less-predicted-within-a-turn");
    }
  }
};
SV_ENTRY(pose_error) {
  Pose p;
  ErrorTermPose t(p.e(), p.m, Eigen::Matrix<double, 6, 6>::Identity());
  sv_check(t.numDesignVariables() == 1 && t.designVariable(0) == &p.dv, "depends-on-the-pose");
  p.is(t);
  p.m = vec<6>("measurement");
  t.setInput(p.m);
  sv_check(t.getInput() == p.m, "accessors-return-what-was-set");
  p.is(t);
}
// a change of the transformation by (dt, phi) takes C to (1 - [phi x]) C and t to (1 - [phi x]) t + dt
SV_ENTRY(pose_jacobian) {
  Pose p;
  ErrorTermPose t(p.e(), p.m, Eigen::Matrix<double, 6, 6>::Identity());
  t.evaluateError();
  V6 e = t.error();
  JacobianContainer J(6);
  t.evaluateJacobians(J);
  Eigen::Matrix<double, 6, 6> M = J.Jacobian(&p.dv);
  Eigen::Matrix3d S = p.ypr.parametersToSMatrix(p.p);
  for (int k = 0; k < 3; ++k) {
    derivative("position", k, M, e, "jacobian-of-the-position");
    Eigen::Vector3d phi = S.col(k), dt = phi.cross(p.t);
    V6 g = M.rightCols<3>() * phi + M.leftCols<3>() * dt;
    for (int i = 0; i < 6; ++i) sv_check_close(g(i), d(e(i), "angle", k), "jacobian-of-the-rotation");
  }
  sv_check(J.numDesignVariables() == 1, "jacobian-of-the-pose");
}
// variances in some order, one or (thorough) two covariances
static Eigen::Matrix<double, 6, 6> variances(const char* n) {
  auto Q = diagonal<6>(n);
  int perm[3][6] = {{0, 1, 2, 3, 4, 5}, {5, 3, 1, 0, 4, 2}, {3, 2, 4, 5, 1, 0}};
  int* p = perm[sv_choose("order", SV_T(1, 3))];
  for (int i = 0; i + 1 < 6; ++i) sv_assume(Q(p[i], p[i]) >= Q(p[i + 1], p[i + 1]));
  Q(0, 5) = Q(5, 0) = sv_double(n);
  sv_assume(Q(0, 0) * Q(5, 5) > Q(0, 5) * Q(0, 5) && Q(0, 5) < Q(5, 5) && -Q(0, 5) < Q(5, 5) && Q(0, 5) < Q(0, 0) && -Q(0, 5) < Q(0, 0));
  return Q;
}
SV_ENTRY(weight_pose) {
  VectorDesignVariable<6> dv, dw;
  Eigen::Matrix4d T = Eigen::Matrix4d::Identity(), U = T;
  T(0, 3) = sv_double("position");
  U(1, 3) = 2;
  V6 m = vec<6>("measurement"), n = vec<6>("measurement");
  for (int i = 3; i < 6; ++i) m(i) = n(i) = 0.25;
  auto Q = variances("q"), S = variances("s");
  ErrorTermPose t(TransformationExpression(T, &dv), m, Q), o(TransformationExpression(U, &dw), n, S);
  life(t, o, Q, S, [&](ErrorTermPose& x, const Eigen::Matrix<double, 6, 6>& c) {
    sv_check(x.getCovariance() == c, "covariance-is-the-one-set-last");
    sv_check(x.getInput() == m, "copy-has-the-measurement");
  });
  o = t;
  sv_check(o.getInput() == m, "assignment-takes-everything");
  o.evaluateError();
  t.evaluateError();
  sv_check(o.error() == t.error(), "assigned-term-has-the-same-error");
}
#ifdef CAR
struct Steering {
  VectorDesignVariable<3> dv;
  VectorDesignVariable<4> a;
  Eigen::Vector3d v;
  double m;
  EuclideanExpression ev;
  Steering() : a(vec<4>("coefficient")), v(vec<3>("velocity")), m(sv_double("measurement")), ev(v, &dv) {
    sv_assume(v(0) > 0.001 || v(0) < -0.001 || v(1) > 0.001 || v(1) < -0.001);
  }
  void is(ErrorTermSteering& t) {
    t.evaluateError();
    Eigen::Vector4d c = a.getValue();
    sv_check_close(t.error()(0), sm::kinematics::angleMod(c(0) + m * (c(1) + m * (c(2) + m * c(3))) - std::atan2(v(1), v(0))), "steering-error-is-the-calibrated-angle-less-the-direction-of-motion");
  }
};
SV_ENTRY(steering_error) {
  Steering s;
  ErrorTermSteering t(s.ev, s.m, 1, &s.a);
  DesignVariable *a = t.designVariable(0), *b = t.designVariable(1);
  sv_check(t.numDesignVariables() == 2 && ((a == &s.dv && b == &s.a) || (a == &s.a && b == &s.dv)), "depends-on-velocity-and-coefficients");
  s.is(t);
  s.m = sv_double("measurement");
  t.setMeasurement(s.m);
  sv_check(t.getMeasurement() == s.m, "accessors-return-what-was-set");
  s.is(t);
  s.a.setValue(vec<4>("changed"));
  s.is(t);
}
SV_ENTRY(steering_jacobian) {
  Steering s;
  ErrorTermSteering t(s.ev, s.m, 1, &s.a);
  t.evaluateError();
  Eigen::Matrix<double, 1, 1> e = t.error();
  JacobianContainer J(1);
  t.evaluateJacobians(J);
  for (int i = 0; i < 3; ++i) derivative("velocity", i, J.Jacobian(&s.dv), e, "jacobian-of-the-velocity");
  for (int i = 0; i < 4; ++i) derivative("coefficient", i, J.Jacobian(&s.a), e, "jacobian-of-the-coefficients");
  sv_check(J.numDesignVariables() == 2, "jacobians-of-velocity-and-coefficients");
}
SV_ENTRY(weight_steering) {
  VectorDesignVariable<3> dv;
  VectorDesignVariable<4> a(Eigen::Vector4d(0, 0.5, 0, 0)), b(Eigen::Vector4d(1, 0, 0, 0));
  EuclideanExpression v(Eigen::Vector3d(1, 2, 3), &dv), w(Eigen::Vector3d(2, 1, 0), &dv);
  double m = sv_double("measurement"), n = 0.5, q = sv_double("q"), s = sv_double("s");
  sv_assume(m > 0 && m < 1 && q > 0 && s > 0);
  ErrorTermSteering t(v, m, q, &a), o(w, n, s, &b);
  auto is = [&](ErrorTermSteering& x, double c) {
    sv_check(x.getVariance() == c && x.getMeasurement() == m, "accessors-return-what-was-set");
    weighted(x, Eigen::Matrix<double, 1, 1>::Constant(c).eval());
  };
  is(t, q);
  switch (sv_choose("life", 3)) {
    case 0: {
      ErrorTermSteering c(t);
      is(c, q);
      break;
    }
    case 1:
      t.setVariance(s);
      is(t, s);
      break;
    default:
      t = t;
      is(t, q);
  }
  o = t;
  is(o, t.getVariance());
  o.evaluateError();
  t.evaluateError();
  sv_check(o.error() == t.error(), "assigned-term-has-the-same-error");
}
SV_ENTRY(velocities) {
  VectorDesignVariable<3> dv, dw;
  bool one = sv_choose("one", 2);
  DesignVariable* w = one ? &dv : &dw;
  Eigen::Vector3d v = vec<3>("velocity"), om = vec<3>("rate"), vm = vec<3>("measured"), omm = vec<3>("measured");
  Eigen::Matrix3d Q = Eigen::Vector3d(1, 2, 3).asDiagonal(), S = Eigen::Vector3d(4, 5, 6).asDiagonal();
  ErrorTermVelocities t(EuclideanExpression(v, &dv), EuclideanExpression(om, w), vm, omm, Q, S), o(EuclideanExpression(om, &dw), EuclideanExpression(v, &dv), omm, vm, S, Q);
  sv_check(t.numDesignVariables() == 2 - one, "depends-on-both-velocities");
  ErrorTermVelocities c(t);
  switch (sv_choose("life", 2)) {
    case 0:
      c = o;
      c = t;
      break;
    default:
      break;
  }
  c.evaluateError();
  V6 e = c.error();
  for (int i = 0; i < 3; ++i) {
    sv_check_close(e(i), vm(i) - v(i), "velocity-error-is-measured-less-predicted");
    sv_check_close(e(3 + i), omm(i) - om(i), "rate-error-is-measured-less-predicted");
  }
  JacobianContainer J(6);
  c.evaluateJacobians(J);
  Eigen::MatrixXd M = J.Jacobian(&dv), N = J.Jacobian(w);
  for (int i = 0; i < 6; ++i)
    for (int k = 0; k < 3; ++k) {
      double g = d(e(i), "velocity", k), h = d(e(i), "rate", k);
      sv_check_close(M(i, k), one ? g + h : g, "jacobian-of-the-velocity");
      sv_check_close(N(i, k), one ? g + h : h, "jacobian-of-the-rate");
    }
}
SV_ENTRY(weight_velocities) {
  VectorDesignVariable<3> dv, dw;
  EuclideanExpression v(vec<3>("velocity"), &dv), om(vec<3>("velocity"), &dw);
  Eigen::Vector3d vm = vec<3>("measured"), omm = vec<3>("measured");
  auto Q = SV_T(0, 1) ? covariance<3>("q") : diagonal<3>("q"), S = SV_T(0, 1) ? covariance<3>("s") : diagonal<3>("s");
  ErrorTermVelocities t(v, om, vm, omm, Q, S), o(om, v, omm, vm, S, Q);
  Eigen::Matrix<double, 6, 6> C = Eigen::Matrix<double, 6, 6>::Zero();
  C.topLeftCorner<3, 3>() = Q;
  C.bottomRightCorner<3, 3>() = S;
  weighted(t, C);
  ErrorTermVelocities c(t);
  weighted(c, C);
  o = t;
  weighted(o, C);
}
#endif
