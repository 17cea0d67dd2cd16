// The calibrators of the vehicle examples: windows, the error terms of a
// window, and predictions.
#include "core_common.h"
#include <sstream>
#include <map>
#include <string>
#include <sm/PropertyTree.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>
#include <aslam/backend/EuclideanPoint.hpp>
#include <aslam/backend/RotationQuaternion.hpp>
#include <aslam/backend/Scalar.hpp>
#include <aslam/backend/GenericScalar.hpp>
#include <bsplines/BSplineFitter.hpp>
#include <aslam/calibration/core/IncrementalEstimator.h>
#include <aslam/calibration/data-structures/VectorDesignVariable.h>
#ifdef CAR
#include <aslam/calibration/car/algo/CarCalibrator.h>
#include <aslam/calibration/car/algo/OptimizationProblemSpline.h>
#include <aslam/calibration/car/data/PoseMeasurement.h>
#include <aslam/calibration/car/data/VelocitiesMeasurement.h>
#include <aslam/calibration/car/data/WheelSpeedsMeasurement.h>
#include <aslam/calibration/car/data/SteeringMeasurement.h>
#include <aslam/calibration/car/data/DMIMeasurement.h>
#include <aslam/calibration/car/design-variables/OdometryDesignVariables.h>
#include <aslam/calibration/car/error-terms/ErrorTermPose.h>
#include <aslam/calibration/car/error-terms/ErrorTermVelocities.h>
#include <aslam/calibration/car/error-terms/ErrorTermWheel.h>
#include <aslam/calibration/car/error-terms/ErrorTermSteering.h>
#else
#include <aslam/calibration/time-delay/algo/Calibrator.h>
#include <aslam/calibration/time-delay/algo/OptimizationProblemSpline.h>
#include <aslam/calibration/time-delay/data/PoseMeasurement.h>
#include <aslam/calibration/time-delay/data/WheelSpeedMeasurement.h>
#include <aslam/calibration/time-delay/design-variables/OdometryDesignVariables.h>
#include <aslam/calibration/time-delay/error-terms/ErrorTermPose.h>
#include <aslam/calibration/time-delay/error-terms/ErrorTermWheel.h>
#endif
using namespace aslam::calibration;
using namespace aslam::backend;
using Eigen::Vector3d;
using Eigen::Matrix3d;
typedef sm::timing::NsecTime Time;
typedef sm::kinematics::EulerAnglesYawPitchRoll Ypr;
static sm::PropertyTree config;
static bool simple;  // concrete calibration parameters
static double num(const std::string& k, double v) {
  if (!simple) v = sv_double("config");
  config.setDouble(k, v);
  return v;
}
static Vector3d vec(const char* n) {
  double x = sv_double(n), y = sv_double(n), z = sv_double(n);
  return Vector3d(x, y, z);
}
static double window;
static long bound;
static int knots;
static bool onlyOne = true;  // number of knots
static bool usePose = true, useVelocities = true;
static void configure() {
  window = simple ? sv_double("window") : 1e6;
  sv_assume(window > 0.001 && window < 1e7);
  config.setDouble("windowDuration", window);
  config.setBool("verbose", false);
  config.setDouble("splines/transSplineLambda", 0.25);
  config.setDouble("splines/rotSplineLambda", 0.5);
  knots = onlyOne || sv_choose("knots", 2) ? 7 : 1;
  config.setInt("splines/splineKnotsPerSecond", knots);
  config.setInt("splines/transSplineOrder", 5);
  config.setInt("splines/rotSplineOrder", 6);
  bound = simple ? 0 : sv_lint("bound", 0, 1000000000);
  config.setDouble("odometry/constraints/noise/vyVariance", 0.5);
  config.setDouble("odometry/constraints/noise/vzVariance", 0.25);
  for (auto k : {"x", "y", "z"}) num(std::string("odometry/extrinsics/translation/") + k, 0.5);
  num("odometry/extrinsics/rotation/yaw", 0.25);
  config.setDouble("odometry/extrinsics/rotation/pitch", 0);
  config.setDouble("odometry/extrinsics/rotation/roll", 0);
  auto delay = [](const std::string& k) { config.setInt(k, simple ? 0 : sv_lint("delay", -1000000000, 1000000000)); };
#ifdef CAR
  config.setInt("odometry/timeDelays/delayBound", bound);
  config.setBool("usePose", usePose);
  config.setBool("useVelocities", useVelocities);
  config.setDouble("odometry/sensors/linearVelocityTolerance", 0.5);
  config.setInt("odometry/sensors/wheelSpeedSensorCutoff", 350);
  double v = 2;
  for (auto k : {"dmi/noise/dmi", "fws/noise/flw", "fws/noise/frw", "rws/noise/rlw", "rws/noise/rrw"}) {
    config.setDouble(std::string("odometry/sensors/") + k + "PercentError", 1);
    config.setDouble(std::string("odometry/sensors/") + k + "Variance", v *= 2);
  }
  config.setDouble("odometry/sensors/st/noise/steeringVariance", 0.125);
  for (auto k : {"halfRearTrack", "halfFrontTrack", "wheelBase", "rlwCoefficient", "rrwCoefficient", "flwCoefficient", "frwCoefficient", "dmiCoefficient"}) num(std::string("odometry/intrinsics/") + k, 1);
  for (int i = 0; i < 4; ++i) num("odometry/intrinsics/steeringCoefficient" + std::to_string(i), 0);
  for (auto k : {"rearWheels", "frontWheels", "steering", "dmi"}) delay(std::string("odometry/timeDelays/") + k);
  config.setBool("odometry/timeDelays/active", true);
#else
  config.setInt("delayBound", bound);
  config.setDouble("odometry/sensors/wss/noise/lwVariance", 2);
  config.setDouble("odometry/sensors/wss/noise/rwVariance", 4);
  for (auto k : {"halfWheelBase", "lwCoefficient", "rwCoefficient"}) num(std::string("odometry/intrinsics/") + k, 1);
  for (auto k : {"lwTimeDelay", "rwTimeDelay"}) delay(std::string("odometry/intrinsics/") + k);
  config.setBool("odometry/intrinsics/timeDelaysActive", true);
  config.setBool("odometry/extrinsics/translation/active", true);
  config.setBool("odometry/extrinsics/rotation/active", true);
#endif
}
#ifdef CAR
enum Kind { POSE, FRONT, REAR, DMI, STEERING, VELOCITIES, KINDS };
typedef CarCalibrator Base;
#else
enum Kind { POSE, LEFT, RIGHT, KINDS };
typedef Calibrator Base;
#endif
struct Cal : Base {
  Cal(const sm::PropertyTree& c) : Base(c) {}
};
// a measurement, and what identifies it
struct Meas {
  Kind kind;
  Time t;
  double a, b;       // the measured values (of two wheels)
  Vector3d p, q;     // position or velocities, angles
  Matrix3d P, Q;     // their covariances
};
static Matrix3d diag(double a, double b, double c) { return Vector3d(a, b, c).asDiagonal(); }
static void give(Cal& c, const Meas& m) {
  switch (m.kind) {
    case POSE: {
      PoseMeasurement x;
#ifdef CAR
      x.m_r_mr = m.p;
      x.m_R_r = m.q;
      x.sigma2_m_r_mr = m.P;
      x.sigma2_m_R_r = m.Q;
#else
      x.w_r_wp = m.p;
      x.w_R_p = m.q;
      x.sigma2_w_r_wp = m.P;
      x.sigma2_w_R_p = m.Q;
#endif
      c.addPoseMeasurement(x, m.t);
      break;
    }
#ifdef CAR
    case FRONT: c.addFrontWheelsMeasurement(WheelSpeedsMeasurement{m.a, m.b}, m.t); break;
    case REAR: c.addRearWheelsMeasurement(WheelSpeedsMeasurement{m.a, m.b}, m.t); break;
    case DMI: c.addDMIMeasurement(DMIMeasurement{m.a}, m.t); break;
    case STEERING: c.addSteeringMeasurement(SteeringMeasurement{m.a}, m.t); break;
    case VELOCITIES: {
      VelocitiesMeasurement x;
      x.r_v_mr = m.p;
      x.r_om_mr = m.q;
      x.sigma2_r_v_mr = m.P;
      x.sigma2_r_om_mr = m.Q;
      c.addVelocitiesMeasurement(x, m.t);
      break;
    }
#else
    case LEFT: c.addLeftWheelMeasurement(WheelSpeedMeasurement{m.a}, m.t); break;
    case RIGHT: c.addRightWheelMeasurement(WheelSpeedMeasurement{m.a}, m.t); break;
#endif
    default: break;
  }
}
static bool same(const std::vector<Time>& a, const std::vector<Time>& b) {
  bool r = a.size() == b.size();
  for (size_t i = 0; r && i < a.size(); ++i) r = a[i] == b[i];
  return r;
}
// the measurements waiting are exactly these, in this order
static void waiting(Cal& c, const std::vector<Meas>& all) {
  std::vector<Meas> by[KINDS];
  for (auto& m : all) by[m.kind].push_back(m);
  const char* id = "measurements-wait-until-used";
  sv_check(c.unprocessedMeasurements() == !all.empty(), id);
  auto same = [&](Kind k, size_t n, std::function<bool(size_t, const Meas&)> f) {
    sv_check(n == by[k].size(), id);
    for (size_t i = 0; i < n && i < by[k].size(); ++i) sv_check(f(i, by[k][i]), id);
  };
  auto& p = c.getPoseMeasurements();
#ifdef CAR
  same(POSE, p.size(), [&](size_t i, const Meas& m) { return p[i].first == m.t && p[i].second.m_r_mr == m.p && p[i].second.m_R_r == m.q; });
  auto& f = c.getFrontWheelsMeasurements();
  same(FRONT, f.size(), [&](size_t i, const Meas& m) { return f[i].first == m.t && f[i].second.left == m.a && f[i].second.right == m.b; });
  auto& r = c.getRearWheelsMeasurements();
  same(REAR, r.size(), [&](size_t i, const Meas& m) { return r[i].first == m.t && r[i].second.left == m.a && r[i].second.right == m.b; });
  auto& d = c.getDMIMeasurements();
  same(DMI, d.size(), [&](size_t i, const Meas& m) { return d[i].first == m.t && d[i].second.wheelSpeed == m.a; });
  auto& s = c.getSteeringMeasurements();
  same(STEERING, s.size(), [&](size_t i, const Meas& m) { return s[i].first == m.t && s[i].second.value == m.a; });
  auto& v = c.getVelocitiesMeasurements();
  same(VELOCITIES, v.size(), [&](size_t i, const Meas& m) { return v[i].first == m.t && v[i].second.r_v_mr == m.p && v[i].second.r_om_mr == m.q; });
#else
  same(POSE, p.size(), [&](size_t i, const Meas& m) { return p[i].first == m.t && p[i].second.w_r_wp == m.p && p[i].second.w_R_p == m.q; });
  auto& l = c.getLeftWheelMeasurements();
  same(LEFT, l.size(), [&](size_t i, const Meas& m) { return l[i].first == m.t && l[i].second.value == m.a; });
  auto& r = c.getRightWheelMeasurements();
  same(RIGHT, r.size(), [&](size_t i, const Meas& m) { return r[i].first == m.t && r[i].second.value == m.a; });
#endif
}
typedef OptimizationProblemSpline::TranslationSpline Trans;
typedef OptimizationProblemSpline::RotationSpline Rot;
static std::vector<DesignVariable*> odometry(OdometryDesignVariables& o) {
#ifdef CAR
  return {o.e_r.get(), o.e_f.get(), o.L.get(), o.k_rl.get(), o.k_rr.get(), o.k_fl.get(), o.k_fr.get(), o.k_dmi.get(), o.a.get(), o.v_r_vr.get(), o.v_R_r.get(), o.t_r.get(), o.t_f.get(), o.t_s.get(), o.t_dmi.get()};
#else
  return {o.b.get(), o.k_l.get(), o.k_r.get(), o.v_r_vp.get(), o.v_R_p.get(), o.t_l.get(), o.t_r.get()};
#endif
}
// the odometry and the current splines make up the variables of a batch
static void variables(Cal& c, OptimizationProblem& b) {
  std::vector<DesignVariable*> o = odometry(*c.getOdometryDesignVariables()), s;
  Trans& t = *c.getTranslationSpline();
  Rot& r = *c.getRotationSpline();
  for (auto& x : t.points) s.push_back(x.get());
  for (auto& x : r.points) s.push_back(x.get());
  const char* id = "batch-has-the-variables-of-splines-and-calibration";
  sv_check(b.numDesignVariables() == o.size() + s.size() && b.getNumGroups() == 2, id);
  sv_check(b.getGroupsOrdering() == std::vector<size_t>({0, 1}), "calibration-comes-last");
  for (auto x : o) sv_check(b.isDesignVariableInProblem(x) && b.getGroupId(x) == 1, id);
  for (auto x : s) sv_check(b.isDesignVariableInProblem(x) && b.getGroupId(x) == 0 && x->isActive(), id);
}
static void windowed(int kinds, const int n) {
  simple = true;
  sm::kinematics::checked() = false;
  bsplines::Fitted::mode() = bsplines::Fitted::straight;
  sv_lazy_int(true);
  configure();
  Cal c(config);
  // the pose and up to two other sensors
#ifdef CAR
  Kind other[2] = {kinds > 1 ? Kind(1 + sv_choose("sensor", KINDS - 1)) : POSE, POSE};
#else
  Kind other[2] = {LEFT, RIGHT};
#endif
  std::vector<Meas> pending;
  auto& est = *c.getEstimator();
  // the optimization leaves some calibration
#ifdef CAR
  Scalar& moving = *c.getOdometryDesignVariables()->k_dmi;
#else
  Scalar& moving = *c.getOdometryDesignVariables()->k_r;
#endif
  est.optimize = [&] {
    double d = sv_double("change");
    moving.update(&d, 1);
  };
  std::vector<double> left(1, moving.toScalar());
  Time start = -1, last = 0;
  size_t batches = 0;
  // the batch handed over is made of the measurements pending
  auto handed = [&] {
    ++batches;
    sv_check(est.batches.size() == batches, "batch-is-handed-over-when-the-window-is-full");
    if (est.batches.size() != batches) return;
    OptimizationProblem& b = *est.batches.back();
    variables(c, b);
    Trans& t = *c.getTranslationSpline();
    std::vector<Time> times;
    for (auto& m : pending)
      if (m.kind == POSE) times.push_back(m.t);
    sv_check(same(t.times, times) && same(c.getRotationSpline()->times, times), "splines-cover-the-poses-of-the-window");
    size_t terms = 0;
    for (auto& m : pending)
      if (times.front() <= m.t && m.t <= times.back()) {
        bool pair = false;
#ifdef CAR
        pair = m.kind == FRONT || m.kind == REAR;
#endif
        terms += 1 + pair;
        int k = 0;
        for (size_t i = 0; i < b.numErrorTerms(); ++i) {
          if (m.kind == POSE) {
            auto e = dynamic_cast<ErrorTermPose*>(b.errorTerm(i));
            k += e && e->getInput()(0) == m.a;
#ifdef CAR
          } else if (m.kind == STEERING) {
            auto e = dynamic_cast<ErrorTermSteering*>(b.errorTerm(i));
            k += e && e->getMeasurement() == m.a;
          } else if (m.kind == VELOCITIES) {
            k += dynamic_cast<ErrorTermVelocities*>(b.errorTerm(i)) != nullptr;
#endif
          } else {
            auto e = dynamic_cast<ErrorTermWheel*>(b.errorTerm(i));
            k += e && (e->getMeasurement() == m.a || pair && e->getMeasurement() == m.b);
          }
        }
#ifdef CAR
        if (m.kind != VELOCITIES)
#endif
          sv_check(k == 1 + pair, "every-measurement-within-the-splines-is-used-once");
      }
    sv_check(b.numErrorTerms() == terms, "every-measurement-within-the-splines-is-used-once");
    pending.clear();
    start = last;
    left.push_back(moving.toScalar());
  };
  auto poses = [&] {
    size_t k = 0;
    for (auto& m : pending) k += m.kind == POSE;
    return k;
  };
  // measurements are dropped or handed over on request
  auto ask = [&] {
    switch (sv_choose("request", 3)) {
      case 0:
        c.clearMeasurements();
        pending.clear();
        break;
      case 1: {
        bool enough = poses() >= 2;
        c.addMeasurements();
        if (enough) handed();
        else sv_check(est.batches.size() == batches, "batch-is-handed-over-when-the-window-is-full");
        break;
      }
    }
  };
  // at the end, or with poses alone, any time
  const int asked = kinds == 1 ? sv_choose("when", n + 1) : n;
  for (int i = 0; i < n; ++i) {
    if (i == asked) ask();
    Meas m;
    int k = sv_choose("kind", kinds);
    m.kind = k ? other[k - 1] : POSE;
    last = i ? last + sv_lint("step", m.kind == POSE ? 1000000 : 0, 100000000000) : sv_lint("time", 0, 2000000000000000000);
    m.t = last;
    m.a = 1000 + 2 * i;
    m.b = 1001 + 2 * i;
    m.p = Vector3d(m.a, 2, 3);
    m.q = Vector3d(0.5, 0, 0);
    m.P = diag(1, 2, 4);
    m.Q = diag(0.5, 8, 16);
    if (start == -1) start = last;
    bool full = sm::timing::nsecToSec(last - start) >= window && poses() >= 2;
    give(c, m);
    if (full) handed();
    else sv_check(est.batches.size() == batches, "batch-is-handed-over-when-the-window-is-full");
    pending.push_back(m);
    waiting(c, pending);
  }
  if (asked == n) ask();
  waiting(c, pending);
  auto h = c.getOdometryVariablesHistory();
  auto g = c.getInformationGainHistory();
  sv_check(h.size() == batches + 1 && g.size() == batches, "history-has-the-guess-and-every-batch");
  for (size_t i = 0; i < h.size() && i < left.size(); ++i)
#ifdef CAR
    sv_check_close(h[i](7), left[i], "history-has-the-calibration-after-each-batch");
#else
    sv_check_close(h[i](3), left[i], "history-has-the-calibration-after-each-batch");
#endif
  for (size_t i = 0; i < g.size() && i < est.gains.size(); ++i) sv_check(g[i] == est.gains[i], "history-has-the-information-gains");
}

#ifdef CAR
SV_ENTRY(windows) { windowed(2, SV_T(4, 5)); }
#else
SV_ENTRY(windows) { windowed(3, SV_T(4, 5)); }
#endif
// only poses, for more windows
SV_ENTRY(pose_windows) { windowed(1, SV_T(5, 6)); }

// ------------------------------------------------- error terms of a window
typedef std::set<DesignVariable*> Vars;
static Vars varsOf(const ErrorTerm& e) {
  Vars v;
  for (size_t i = 0; i < e.numDesignVariables(); ++i) sv_check(v.insert(const_cast<DesignVariable*>(e.designVariable(i))).second, "error-term-depends-on-its-variables");
  return v;
}
static Vars trajectory(Cal& c) {
  Vars v;
  for (auto& x : c.getTranslationSpline()->points) v.insert(x.get());
  for (auto& x : c.getRotationSpline()->points) v.insert(x.get());
  return v;
}
static Vars operator+(Vars a, std::vector<DesignVariable*> b) {
  for (auto x : b) a.insert(x);
  return a;
}
// the vehicle on its trajectory, in the world and in its own frame
struct State {
  Matrix3d R;
  Vector3d p, v, om;
};
static State at(Cal& c, Time t) {
  State s;
  s.R = c.getRotationSpline()->rotation(t);
  s.p = c.getTranslationSpline()->value(t, 0);
  s.v = s.R.transpose() * c.getTranslationSpline()->value(t, 1);
  s.om = s.R.transpose() * -c.getRotationSpline()->rate(t);
  return s;
}
static Vector3d wheel(const State& s, double x, double y) { return s.v + s.om.cross(Vector3d(x, y, 0)); }
template <class T> static void same(T& e, T& expected, const char* id) {
  double a = e.evaluateError(), b = expected.evaluateError();
  for (int i = 0; i < T::Dimension; ++i) sv_check_close(e.error()(i), expected.error()(i), id);
  for (int i = 0; i < T::Dimension; ++i)
    for (int j = 0; j < T::Dimension; ++j) sv_check(e.invR()(i, j) == expected.invR()(i, j), "error-term-has-the-noise-configured");
  sv_check_close(a, b, id);
}
static Matrix3d spd(double k) {
  Matrix3d m;
  m << 2 * k, 0.5, 0.25, 0.5, 3 * k, 0.125, 0.25, 0.125, 5 * k;
  return m;
}
#ifdef CAR
typedef PoseMeasurement Pose;
static const Vector3d& where(const PoseMeasurement& p) { return p.m_r_mr; }
static const Vector3d& angles(const PoseMeasurement& p) { return p.m_R_r; }
static Vector3d offset(Cal& c) { return c.getOdometryDesignVariables()->v_r_vr->toEuclidean(); }
static Matrix3d turn(Cal& c) { return c.getOdometryDesignVariables()->v_R_r->toRotationMatrix(); }
#else
typedef PoseMeasurement Pose;
static const Vector3d& where(const PoseMeasurement& p) { return p.w_r_wp; }
static const Vector3d& angles(const PoseMeasurement& p) { return p.w_R_p; }
static Vector3d offset(Cal& c) { return c.getOdometryDesignVariables()->v_r_vp->toEuclidean(); }
static Matrix3d turn(Cal& c) { return c.getOdometryDesignVariables()->v_R_p->toRotationMatrix(); }
#endif
// how a sensor measures
struct Sensor {
  double x, y;        // where the wheel is
  Scalar* k;          // its scale factor
  double variance;
  bool front;
  Vars vars;          // further variables the measurement depends on
};
static GenericScalar<OdometryDesignVariables::Time>* delayOf(Cal& c, Kind k) {
  auto& o = *c.getOdometryDesignVariables();
#ifdef CAR
  switch (k) {
    case FRONT: return o.t_f.get();
    case REAR: return o.t_r.get();
    case DMI: return o.t_dmi.get();
    case STEERING: return o.t_s.get();
    default: return nullptr;
  }
#else
  return k == LEFT ? o.t_l.get() : k == RIGHT ? o.t_r.get() : nullptr;
#endif
}
static std::vector<Sensor> sensors(Cal& c, Kind k) {
  auto& o = *c.getOdometryDesignVariables();
#ifdef CAR
  switch (k) {
    case FRONT: {
      double L = o.L->toScalar(), e = o.e_f->toScalar();
      Vars v{o.L.get(), o.e_f.get()};
      return {Sensor{L, e, o.k_fl.get(), 8, true, v}, Sensor{L, -e, o.k_fr.get(), 16, true, v}};
    }
    case REAR: {
      double e = o.e_r->toScalar();
      Vars v{o.e_r.get()};
      return {Sensor{0, e, o.k_rl.get(), 32, false, v}, Sensor{0, -e, o.k_rr.get(), 64, false, v}};
    }
    case DMI: return {Sensor{0, o.e_r->toScalar(), o.k_dmi.get(), 4, false, Vars{o.e_r.get()}}};
    case STEERING: return {Sensor{o.L->toScalar(), 0, nullptr, 0.125, false, Vars{o.L.get()}}};
    default: return {};
  }
#else
  double b = o.b->toScalar();
  Vars v{o.b.get()};
  if (k == LEFT) return {Sensor{0, b, o.k_l.get(), 2, false, v}};
  if (k == RIGHT) return {Sensor{0, -b, o.k_r.get(), 4, false, v}};
  return {};
#endif
}
// the error terms a measurement should have, with today's calibration
static boost::shared_ptr<ErrorTermWheel> wheelTerm(const State& s, const Sensor& w, double measured) {
  return boost::make_shared<ErrorTermWheel>(EuclideanExpression(wheel(s, w.x, w.y)), ScalarExpression(w.k->toScalar(), w.k), measured, diag(w.variance, 0.5, 0.25), w.front);
}
static boost::shared_ptr<ErrorTermPose> poseTerm(Cal& c, const Meas& m) {
  State s = at(c, m.t);
  ErrorTermPose::Input i;
  i << m.p, m.q;
  ErrorTermPose::Covariance Q = ErrorTermPose::Covariance::Zero();
  Q.topLeftCorner<3, 3>() = m.P;
  Q.bottomRightCorner<3, 3>() = m.Q;
  Vector3d p = s.p + s.R * offset(c);
  Matrix3d R = s.R * turn(c);
  return boost::make_shared<ErrorTermPose>(TransformationExpression(RotationExpression([R] { return R; }, {}), EuclideanExpression(p)), i, Q);
}
#ifdef CAR
static boost::shared_ptr<ErrorTermSteering> steeringTerm(Cal& c, const Meas& m, Time t) {
  return boost::make_shared<ErrorTermSteering>(EuclideanExpression(wheel(at(c, t), c.getOdometryDesignVariables()->L->toScalar(), 0)), m.a, 0.125, c.getOdometryDesignVariables()->a.get());
}
static boost::shared_ptr<ErrorTermVelocities> velocitiesTerm(Cal& c, const Meas& m) {
  State s = at(c, m.t);
  Matrix3d C = turn(c).transpose();
  Vector3d v = C * (s.v + s.om.cross(offset(c))), om = C * s.om;
  return boost::make_shared<ErrorTermVelocities>(EuclideanExpression(v), EuclideanExpression(om), m.p, m.q, m.P, m.Q);
}
#endif
static Time delayed(Cal& c, const Meas& m) {
  auto d = delayOf(c, m.kind);
  return d ? m.t + d->toScalar().getNumerator() : m.t;
}
// is the measurement used, given the trajectory and today's calibration
static bool used(Cal& c, const Meas& m) {
  Trans& s = *c.getTranslationSpline();
  Time t = delayed(c, m), b = delayOf(c, m.kind) ? bound : 0;
  if (t - b < s.getMinTime() || t + b > s.getMaxTime()) return false;
#ifdef CAR
  if (m.kind == FRONT || m.kind == REAR) return m.a >= 350 && m.b >= 350 && at(c, t).v(0) >= 0;
  if (m.kind == STEERING) return std::fabs(wheel(at(c, t), c.getOdometryDesignVariables()->L->toScalar(), 0)(0)) >= 0.5;
#endif
  return true;
}
static Meas measurement(Kind k, Time t) {
  Meas m;
  m.kind = k;
  m.t = t;
  m.a = sv_double("measured");
  m.b = sv_double("measured");
  m.p = vec("measured");
  m.q = vec("measured");
  m.P = spd(k == POSE ? 1 : 4);
  m.Q = spd(k == POSE ? 2 : 8);
  return m;
}
// a calibrator with a window of poses, and one measurement of a sensor
struct Window {
  Kind kind;
  std::vector<Meas> all;
  Window(bool fit = true) {
    simple = false;
    sm::kinematics::checked() = false;
    sv_lazy_int(true);
#ifdef CAR
    kind = Kind(sv_choose("sensor", KINDS));
    usePose = kind != POSE || sv_choose("usePose", 2);
    useVelocities = kind != VELOCITIES || sv_choose("useVelocities", 2);
#else
    kind = Kind(sv_choose("sensor", KINDS));
#endif
    sm::kinematics::eitherSign() = fit && kind == POSE;
    onlyOne = !fit || kind != POSE;
    bool any = fit;
#ifdef CAR
    // a limit on the vehicle's speed: one known rotation
    if (kind == FRONT || kind == REAR || kind == STEERING) any = false;
#endif
    bsplines::Fitted::mode() = any ? bsplines::Fitted::arbitrary : bsplines::Fitted::turned;
    configure();
  }
  void fill(Cal& c) {
    Time t = sv_lint("time", 0, 1000000000000000000);
    const int poses = kind == POSE ? SV_T(2, 3) : 2;
    for (int i = 0; i < poses; ++i) {
      if (i) t = t + sv_lint("step", 1000000, 100000000000);
      Meas m = measurement(POSE, t);
      if (kind != POSE) m.q = Vector3d(0.5 * i, 0, 0), m.p = Vector3d(i, 0, 0);
      else if (i) sv_assume(m.p(0) > all.back().p(0));  // told apart
      all.push_back(m);
    }
    if (kind != POSE) {
      Time b = sv_lint("late", -100000000000, 100000000000);
      all.push_back(measurement(kind, t + b));
    }
    for (auto& m : all) give(c, m);
  }
};
static void splines(Cal& c, const std::vector<Meas>& all) {
  Trans& t = *c.getTranslationSpline();
  Rot& r = *c.getRotationSpline();
  std::vector<Meas> poses;
  for (auto& m : all)
    if (m.kind == POSE) poses.push_back(m);
  const char* id = "splines-follow-the-vehicle";
  sv_check(t.fit.size() == poses.size() && r.fit.size() == poses.size() && t.times.size() == poses.size() && same(r.times, t.times), id);
  if (t.fit.size() != poses.size()) return;
  for (size_t i = 0; i < poses.size(); ++i) {
    Matrix3d R = Ypr().parametersToRotationMatrix(poses[i].q) * turn(c).transpose();
    Matrix3d F = sm::kinematics::quat2r(r.fit[i]);
    for (int j = 0; j < 9; ++j) sv_check_close(F(j), R(j), id);
    Vector3d p = poses[i].p - R * offset(c);
    for (int j = 0; j < 3; ++j) sv_check_close(t.fit[i](j), p(j), id);
    sv_check(t.times[i] == poses[i].t, id);
    sv_check((r.fit[i](0) > 0) == (r.fit[0](0) > 0), "rotations-of-the-spline-have-no-jumps");
  }
  sv_check(t.lambda == 0.25 && r.lambda == 0.5 && t.conf.order == 5 && r.conf.order == 6, "splines-are-as-configured");
  double seconds = (double)(poses.back().t - poses.front().t) / 1e9;
  int dense = std::round(poses.size() / seconds);
  int n = dense > knots ? (int)std::ceil(knots * seconds) : (int)poses.size();
  sv_check(t.segments == n && r.segments == n, "splines-are-as-configured");
}
static void check(Cal& c, OptimizationProblem& b, const Meas& m, bool use) {
  const char* id = "residual-is-that-of-the-calibrated-sensor";
  const char* dv = "error-term-depends-on-its-variables";
  auto& o = *c.getOdometryDesignVariables();
  if (m.kind == POSE) {
    int n = 0;
    for (size_t i = 0; i < b.numErrorTerms(); ++i)
      if (auto e = dynamic_cast<ErrorTermPose*>(b.errorTerm(i)))
        if (e->getInput()(0) == m.p(0)) {
          ++n;
          same(*e, *poseTerm(c, m), id);
#ifdef CAR
          sv_check(varsOf(*e) == trajectory(c) + std::vector<DesignVariable*>{o.v_r_vr.get(), o.v_R_r.get()}, dv);
#else
          sv_check(varsOf(*e) == trajectory(c) + std::vector<DesignVariable*>{o.v_r_vp.get(), o.v_R_p.get()}, dv);
#endif
        }
    sv_check(n == use, "measurement-has-its-error-terms");
    return;
  }
#ifdef CAR
  if (m.kind == STEERING || m.kind == VELOCITIES) {
    int n = 0;
    for (size_t i = 0; i < b.numErrorTerms(); ++i)
      if (auto e = dynamic_cast<ErrorTermSteering*>(b.errorTerm(i))) {
        ++n;
        same(*e, *steeringTerm(c, m, delayed(c, m)), id);
        sv_check(varsOf(*e) == trajectory(c) + std::vector<DesignVariable*>{o.L.get(), o.t_s.get(), o.a.get()}, dv);
      } else if (auto e = dynamic_cast<ErrorTermVelocities*>(b.errorTerm(i))) {
        ++n;
        same(*e, *velocitiesTerm(c, m), id);
        sv_check(varsOf(*e) == trajectory(c) + std::vector<DesignVariable*>{o.v_r_vr.get(), o.v_R_r.get()}, dv);
      }
    sv_check(n == use, "measurement-has-its-error-terms");
    return;
  }
#endif
  std::vector<Sensor> ws = sensors(c, m.kind);
  for (size_t k = 0; k < ws.size(); ++k) {
    Sensor& w = ws[k];
    int n = 0;
    for (size_t i = 0; i < b.numErrorTerms(); ++i)
      if (auto e = dynamic_cast<ErrorTermWheel*>(b.errorTerm(i))) {
        Vars v = varsOf(*e);
        if (!v.count(w.k)) continue;
        ++n;
        Vars x = w.vars;
        x.insert(w.k);
        x.insert(delayOf(c, m.kind));
        sv_check(v == trajectory(c) + std::vector<DesignVariable*>(x.begin(), x.end()), dv);
        same(*e, *wheelTerm(at(c, delayed(c, m)), w, k ? m.b : m.a), id);
      }
    sv_check(n == use, "measurement-has-its-error-terms");
  }
}
static void recalibrate(Cal& c, Kind k) {
  auto add = [](DesignVariable& d, int n) {
    double x[4];
    for (int i = 0; i < n; ++i) x[i] = sv_double("change");
    d.update(x, n);
  };
  auto& o = *c.getOdometryDesignVariables();
#ifdef CAR
  for (auto s : {o.e_r, o.e_f, o.L, o.k_rl, o.k_rr, o.k_fl, o.k_fr, o.k_dmi}) add(*s, 1);
  add(*o.a, 4);
  add(*o.v_r_vr, 3);
  o.v_R_r->set(sm::kinematics::r2quat(Ypr().parametersToRotationMatrix(Vector3d(0.5, 0.25, sv_double("change")))));
#else
  for (auto s : {o.b, o.k_l, o.k_r}) add(*s, 1);
  add(*o.v_r_vp, 3);
  o.v_R_p->set(sm::kinematics::r2quat(Ypr().parametersToRotationMatrix(Vector3d(0.5, 0.25, sv_double("change")))));
#endif
  if (auto d = delayOf(c, k)) {
    Time change = sv_lint("change", -1000000000, 1000000000);
    sv_assume(change <= bound && -change <= bound);
    d->set(OdometryDesignVariables::Time(d->toScalar().getNumerator() + change));
  }
}
SV_ENTRY(terms) {
  Window w;
  Cal c(config);
  w.fill(c);
  c.addMeasurements();
  auto& est = *c.getEstimator();
  sv_check(est.batches.size() == 1, "batch-is-handed-over");
  if (est.batches.empty()) return;
  OptimizationProblem& b = *est.batches[0];
  variables(c, b);
  splines(c, w.all);
  size_t n = 0;
  std::vector<char> use;
  for (auto& m : w.all) {
    bool u = used(c, m) && (m.kind != POSE || usePose);
#ifdef CAR
    u = u && (m.kind != VELOCITIES || useVelocities);
    n += u && (m.kind == FRONT || m.kind == REAR);
#endif
    n += u;
    use.push_back(u);
    if (u && delayOf(c, m.kind)) {
      Time t = delayed(c, m);
      sv_check(c.getTranslationSpline()->lo == t - bound && c.getTranslationSpline()->up == t + bound && c.getRotationSpline()->lo == t - bound && c.getRotationSpline()->up == t + bound, "time-delay-may-change-within-its-bound");
    }
  }
  sv_check(b.numErrorTerms() == n, "measurement-has-its-error-terms");
  if (sv_choose("recalibrate", 2)) recalibrate(c, w.kind);
  for (size_t i = 0; i < w.all.size(); ++i)
    if (w.all[i].kind == w.kind) check(c, b, w.all[i], use[i]);
}
// ------------------------------------------------- predictions
static void vector(const Eigen::VectorXd& a, const Eigen::VectorXd& b, const char* id) {
  sv_check(a.size() == b.size(), id);
  for (int i = 0; i < a.size() && i < b.size(); ++i) sv_check_close(a(i), b(i), id);
}
static const char* const E = "prediction-error-is-the-residual";
static const char* const P = "prediction-is-what-the-calibrated-sensor-measures";
static const char* const N = "every-measurement-within-the-splines-is-predicted";
SV_ENTRY(predict) {
  Window w(false);
  Cal c(config);
  w.fill(c);
  c.predict();
  if (sv_choose("again", 2)) {
    c.clearPredictions();
    sv_check(c.getPosePredictions().empty() && c.getPosePredictionErrors().empty() && c.getPosePredictionErrors2().empty(), "cleared-predictions-are-gone");
    if (w.kind != POSE && sv_choose("recalibrate", 2)) recalibrate(c, w.kind);
    c.predict();
  }
  sv_check(c.getEstimator()->batches.empty() && c.getInformationGainHistory().empty() && c.getOdometryVariablesHistory().size() == 1, "predicting-changes-nothing");
  waiting(c, w.all);
  splines(c, w.all);
  size_t k = 0;
  auto& pp = c.getPosePredictions();
  auto& pe = c.getPosePredictionErrors();
  auto& p2 = c.getPosePredictionErrors2();
  for (auto& m : w.all)
    if (m.kind == POSE) {
      if (k >= pp.size() || k >= pe.size() || k >= p2.size()) {
        sv_check(false, N);
        return;
      }
      auto e = poseTerm(c, m);
      double r = e->evaluateError();
      vector(pe[k], e->error(), E);
      sv_check_close(p2[k], r, E);
      State s = at(c, m.t);
      sv_check(pp[k].first == m.t, P);
      vector(where(pp[k].second), s.p + s.R * offset(c), P);
      vector(angles(pp[k].second), Ypr().rotationMatrixToParameters(s.R * turn(c)), P);
      ++k;
    }
  sv_check(pp.size() == k && pe.size() == k && p2.size() == k, N);
  if (w.kind == POSE) return;
  const Meas& m = w.all.back();
  bool use = used(c, m);
  Time t = delayed(c, m);
  std::vector<boost::shared_ptr<ErrorTermWheel>> ws;
  double chi = 0;
  Eigen::VectorXd err(0);
  if (use && m.kind != POSE) {
    std::vector<Sensor> ss = sensors(c, m.kind);
    err.resize(3 * ss.size());
    for (size_t i = 0; i < ss.size() && ss[i].k; ++i) {
      ws.push_back(wheelTerm(at(c, t), ss[i], i ? m.b : m.a));
      chi += ws[i]->evaluateError();
      err.segment(3 * i, 3) = ws[i]->error();
    }
  }
  auto count = [&](size_t a, size_t b, size_t d) { sv_check(a == use && b == use && d == use, N); return use && a == 1 && b == 1 && d == 1; };
  switch (m.kind) {
#ifdef CAR
    case FRONT: case REAR: {
      bool f = m.kind == FRONT;
      auto& p = f ? c.getFrontWheelsPredictions() : c.getRearWheelsPredictions();
      auto& e = f ? c.getFrontWheelsPredictionErrors() : c.getRearWheelsPredictionErrors();
      auto& e2 = f ? c.getFrontWheelsPredictionErrors2() : c.getRearWheelsPredictionErrors2();
      if (!count(p.size(), e.size(), e2.size())) break;
      vector(e[0], err, E);
      sv_check_close(e2[0], chi, E);
      sv_check(p[0].first == t, P);
      sv_check_close(p[0].second.left, m.a - err(0), P);
      sv_check_close(p[0].second.right, m.b - err(3), P);
      break;
    }
    case DMI: {
      auto& p = c.getDMIPredictions();
      if (!count(p.size(), c.getDMIPredictionErrors().size(), c.getDMIPredictionErrors2().size())) break;
      vector(c.getDMIPredictionErrors()[0], err, E);
      sv_check_close(c.getDMIPredictionErrors2()[0], chi, E);
      sv_check(p[0].first == t, P);
      sv_check_close(p[0].second.wheelSpeed, m.a - err(0), P);
      break;
    }
    case STEERING: {
      auto& p = c.getSteeringPredictions();
      if (!count(p.size(), c.getSteeringPredictionErrors().size(), c.getSteeringPredictionErrors2().size())) break;
      auto e = steeringTerm(c, m, t);
      double r = e->evaluateError();
      vector(c.getSteeringPredictionErrors()[0], e->error(), E);
      sv_check_close(c.getSteeringPredictionErrors2()[0], r, E);
      sv_check(p[0].first == t, P);
      Vector3d v = wheel(at(c, t), c.getOdometryDesignVariables()->L->toScalar(), 0);
      sv_check_close(p[0].second.value, std::atan2(v(1), v(0)), P);
      break;
    }
    case VELOCITIES: {
      auto& p = c.getVelocitiesPredictions();
      if (!count(p.size(), c.getVelocitiesPredictionErrors().size(), c.getVelocitiesPredictionErrors2().size())) break;
      auto e = velocitiesTerm(c, m);
      double r = e->evaluateError();
      vector(c.getVelocitiesPredictionErrors()[0], e->error(), E);
      sv_check_close(c.getVelocitiesPredictionErrors2()[0], r, E);
      sv_check(p[0].first == m.t, P);
      vector(p[0].second.r_v_mr, m.p - e->error().head<3>(), P);
      vector(p[0].second.r_om_mr, m.q - e->error().tail<3>(), P);
      break;
    }
#else
    case LEFT: case RIGHT: {
      bool l = m.kind == LEFT;
      auto& p = l ? c.getLeftWheelPredictions() : c.getRightWheelPredictions();
      auto& e = l ? c.getLeftWheelPredictionErrors() : c.getRightWheelPredictionErrors();
      auto& e2 = l ? c.getLeftWheelPredictionErrors2() : c.getRightWheelPredictionErrors2();
      if (!count(p.size(), e.size(), e2.size())) break;
      vector(e[0], err, E);
      sv_check_close(e2[0], chi, E);
      sv_check(p[0].first == m.t, P);
      sv_check_close(p[0].second.value, m.a - err(0), P);
      break;
    }
#endif
    default: break;
  }
  // cleared predictions are gone, all of them
  c.clearPredictions();
  const char* id = "cleared-predictions-are-gone";
  sv_check(pp.empty() && pe.empty() && p2.empty(), id);
#ifdef CAR
  sv_check(c.getFrontWheelsPredictions().empty() && c.getFrontWheelsPredictionErrors().empty() && c.getFrontWheelsPredictionErrors2().empty(), id);
  sv_check(c.getRearWheelsPredictions().empty() && c.getRearWheelsPredictionErrors().empty() && c.getRearWheelsPredictionErrors2().empty(), id);
  sv_check(c.getDMIPredictions().empty() && c.getDMIPredictionErrors().empty() && c.getDMIPredictionErrors2().empty(), id);
  sv_check(c.getSteeringPredictions().empty() && c.getSteeringPredictionErrors().empty() && c.getSteeringPredictionErrors2().empty(), id);
  sv_check(c.getVelocitiesPredictions().empty() && c.getVelocitiesPredictionErrors().empty() && c.getVelocitiesPredictionErrors2().empty(), id);
#else
  sv_check(c.getLeftWheelPredictions().empty() && c.getLeftWheelPredictionErrors().empty() && c.getLeftWheelPredictionErrors2().empty(), id);
  sv_check(c.getRightWheelPredictions().empty() && c.getRightWheelPredictionErrors().empty() && c.getRightWheelPredictionErrors2().empty(), id);
#endif
  waiting(c, w.all);
}
