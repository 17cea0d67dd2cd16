// The calibrator of sensors measuring their own motion: windows, the error
// terms of a window, and predictions.
#include "core_common.h"
#include <sstream>
#include <map>
#include <string>
#include <sm/PropertyTree.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>
#include <sm/kinematics/Transformation.hpp>
#include <aslam/backend/EuclideanPoint.hpp>
#include <aslam/backend/RotationQuaternion.hpp>
#include <aslam/backend/GenericScalar.hpp>
#include <aslam/backend/ErrorTermTransformation.hpp>
#include <bsplines/BSplineFitter.hpp>
#include <aslam/calibration/core/IncrementalEstimator.h>
#include <aslam/calibration/egomotion/algo/Calibrator.h>
#include <aslam/calibration/egomotion/algo/OptimizationProblemSpline.h>
#include <aslam/calibration/egomotion/design-variables/DesignVariables.h>
using namespace aslam::calibration;
using namespace aslam::backend;
using Eigen::Vector3d;
using Eigen::Matrix3d;
using Eigen::Matrix4d;
using sm::kinematics::Transformation;
typedef sm::timing::NsecTime Time;
typedef sm::kinematics::EulerAnglesYawPitchRoll Ypr;
typedef Eigen::Matrix<double, 6, 6> Matrix6d;
static sm::PropertyTree config;
static const size_t ids[2] = {3, 8};  // the names of the sensors
static size_t reference;
static double window;
static long bound;
static int knots;
static void configure(bool simple) {
  window = simple ? sv_double("window") : 1e6;
  sv_assume(window > 0.001 && window < 1e7);
  config.setDouble("windowDuration", window);
  config.setBool("verbose", false);
  config.setDouble("splines/transSplineLambda", 0.25);
  config.setDouble("splines/rotSplineLambda", 0.5);
  knots = simple || sv_choose("knots", 2) ? 7 : 1;
  config.setInt("splines/splineKnotsPerSecond", knots);
  config.setInt("splines/transSplineOrder", 5);
  config.setInt("splines/rotSplineOrder", 6);
  bound = simple ? 0 : sv_lint("bound", 0, 1000000000);
  config.setInt("delayBound", bound);
  reference = sv_choose("reference", 2);
  config.setInt("referenceSensor", ids[reference]);
  config.setInt("sensors/num", 2);
  for (int i = 0; i < 2; ++i) {
    std::string tag = "sensors/sensor_" + std::to_string(i) + "/";
    config.setInt(tag + "idx", ids[i]);
    auto num = [&](const char* k, double v) { config.setDouble(tag + k, simple ? v : sv_double("config")); };
    num("extrinsics/translation/x", 1);
    num("extrinsics/translation/y", 2);
    num("extrinsics/translation/z", 3);
    num("extrinsics/rotation/yaw", 0);
    config.setDouble(tag + "extrinsics/rotation/pitch", 0.25);
    config.setDouble(tag + "extrinsics/rotation/roll", 0);
    config.setInt(tag + "intrinsics/timeDelay", simple ? 0 : sv_lint("delay", -1000000000, 1000000000));
    config.setBool(tag + "extrinsics/translation/active", true);
    config.setBool(tag + "extrinsics/rotation/active", true);
    config.setBool(tag + "intrinsics/timeDelayActive", true);
  }
}
struct Cal : Calibrator {
  Cal(const sm::PropertyTree& c) : Calibrator(c) {}
  using Calibrator::motionMeasurements_;
  using Calibrator::motionMeasurementsPred_;
  using Calibrator::motionMeasurementsPredErrors_;
  using Calibrator::motionMeasurementsPredErrors2_;
};
struct Meas {
  size_t sensor;  // 0 or 1
  Time t, duration;
  Matrix4d T;
  double noise;
};
static Matrix6d noise(double v) {
  Matrix6d m = Matrix6d::Identity() * v;
  m(0, 1) = m(1, 0) = 0.25 * v;
  return m;
}
static void give(Cal& c, const Meas& m) {
  MotionMeasurement x;
  x.motion = Transformation(m.T);
  x.duration = m.duration;
  x.sigma2 = noise(m.noise);
  c.addMotionMeasurement(x, m.t, ids[m.sensor]);
}
static void waiting(Cal& c, const std::vector<Meas>& all) {
  sv_check(c.unprocessedMeasurements() == !all.empty(), "measurements-wait-until-used");
}
static std::vector<DesignVariable*> calibration(Cal& c) {
  std::vector<DesignVariable*> v;
  for (size_t i : ids) {
    auto& x = c.getDesignVariables()->calibrationVariables_.at(i);
    v.push_back(std::get<0>(x).get());
    v.push_back(std::get<1>(x).get());
    v.push_back(std::get<2>(x).get());
  }
  return v;
}
typedef std::set<DesignVariable*> Vars;
static Vars trajectory(Cal& c) {
  Vars v;
  for (auto& x : c.getTranslationSpline()->points) v.insert(x.get());
  for (auto& x : c.getRotationSpline()->points) v.insert(x.get());
  return v;
}
static void variables(Cal& c, OptimizationProblem& b) {
  std::vector<DesignVariable*> o = calibration(c);
  Vars s = trajectory(c);
  const char* id = "batch-has-the-variables-of-splines-and-calibration";
  sv_check(b.numDesignVariables() == o.size() + s.size() && b.getNumGroups() == 2, id);
  sv_check(b.getGroupsOrdering() == std::vector<size_t>({0, 1}), "calibration-comes-last");
  for (auto x : o) sv_check(b.isDesignVariableInProblem(x) && b.getGroupId(x) == 1, id);
  for (auto x : s) sv_check(b.isDesignVariableInProblem(x) && b.getGroupId(x) == 0 && x->isActive(), id);
}
static std::vector<Meas> of(const std::vector<Meas>& all, size_t sensor) {
  std::vector<Meas> r;
  for (auto& m : all)
    if (m.sensor == sensor) r.push_back(m);
  return r;
}
static bool same(const std::vector<Time>& a, const std::vector<Time>& b) {
  bool r = a.size() == b.size();
  for (size_t i = 0; r && i < a.size(); ++i) r = a[i] == b[i];
  return r;
}
static Matrix4d moved(double x) {
  Matrix4d T = Matrix4d::Identity();
  T(0, 3) = x;
  return T;
}
SV_ENTRY(ego_windows) {
  sm::kinematics::checked() = false;
  bsplines::Fitted::mode() = bsplines::Fitted::straight;
  sv_lazy_int(true);
  configure(true);
  Cal c(config);
  const int n = SV_T(4, 5);
  std::vector<Meas> pending;
  auto& est = *c.getEstimator();
  auto& moving = *std::get<1>(c.getDesignVariables()->calibrationVariables_.at(ids[1]));
  est.optimize = [&] {
    double d[3] = {sv_double("change"), 0, 0};
    moving.update(d, 3);
  };
  std::vector<double> left(1, moving.toEuclidean()(0));
  Time start = -1, last = 0;
  size_t batches = 0;
  double reached = 0;  // by the reference sensor
  auto handed = [&] {
    ++batches;
    sv_check(est.batches.size() == batches, "batch-is-handed-over-when-the-window-is-full");
    if (est.batches.size() != batches) return;
    OptimizationProblem& b = *est.batches.back();
    variables(c, b);
    std::vector<Meas> ref = of(pending, reference), other = of(pending, 1 - reference);
    std::vector<Time> times(1, ref[0].t - ref[0].duration);
    for (auto& m : ref) times.push_back(m.t);
    auto& t = *c.getTranslationSpline();
    auto& r = *c.getRotationSpline();
    sv_check(same(t.times, times) && same(r.times, times), "splines-cover-the-motion-of-the-window");
    // the vehicle goes on from where it was
    bool along = t.fit.size() == ref.size() + 1;
    for (size_t i = 0; along && i < t.fit.size(); ++i) {
      if (i) reached += ref[i - 1].T(0, 3);
      along = t.fit[i] == Vector3d(reached, 0, 0);
    }
    sv_check(along, "splines-go-on-where-the-last-window-ended");
    // the terms: every motion between two measurements within the splines
    std::vector<double> motion;
    for (size_t i = 1; i < ref.size(); ++i) motion.push_back(ref[i].T(0, 3));
    size_t seen = 0;
    for (auto& m : other)
      if (times.front() <= m.t && m.t <= times.back())
        if (seen++) motion.push_back(m.T(0, 3));
    const char* id = "every-motion-within-the-splines-is-used-once";
    sv_check(b.numErrorTerms() == motion.size(), id);
    for (double x : motion) {
      int k = 0;
      for (size_t i = 0; i < b.numErrorTerms(); ++i) {
        auto e = dynamic_cast<ErrorTermTransformation*>(b.errorTerm(i));
        k += e && e->measured.t()(0) == x;
      }
      sv_check(k == 1, id);
    }
    pending.clear();
    start = last;
    left.push_back(moving.toEuclidean()(0));
  };
  for (int i = 0; i < n; ++i) {
    Meas m;
    m.sensor = sv_choose("sensor", 2);
    last = i ? last + sv_lint("step", 1000000, 100000000000) : sv_lint("time", 0, 2000000000000000000);
    m.t = last;
    m.duration = m.sensor == reference ? sv_lint("duration", 1000000, 1000000000) : 0;
    m.T = moved(1 << i);
    m.noise = 1;
    if (start == -1) start = last;
    bool full = sm::timing::nsecToSec(last - start) >= window && !of(pending, reference).empty();
    give(c, m);
    if (full) handed();
    else sv_check(est.batches.size() == batches, "batch-is-handed-over-when-the-window-is-full");
    pending.push_back(m);
    waiting(c, pending);
  }
  switch (sv_choose("end", 3)) {
    case 0:
      c.clearMeasurements();
      pending.clear();
      break;
    case 1: {
      bool enough = !of(pending, reference).empty();
      c.addMeasurements();
      if (enough) handed();
      else sv_check(est.batches.size() == batches, "batch-is-handed-over-when-the-window-is-full");
      break;
    }
  }
  waiting(c, pending);
  auto h = c.getDesignVariablesHistory();
  auto g = c.getInformationGainHistory();
  sv_check(h.size() == 2 && h[ids[0]].size() == batches + 1 && h[ids[1]].size() == batches + 1 && g.size() == batches, "history-has-the-guess-and-every-batch");
  for (size_t i = 0; i < left.size() && i < h[ids[1]].size() && i < h[ids[0]].size(); ++i)
    sv_check(h[ids[1]][i](1) == left[i] && h[ids[0]][i](1) == 1, "history-has-the-calibration-after-each-batch");
  for (size_t i = 0; i < g.size() && i < est.gains.size(); ++i) sv_check(g[i] == est.gains[i], "history-has-the-information-gains");
}
// ------------------------------------------------- a window of two sensors
static Matrix4d some() {
  Matrix4d T = Matrix4d::Identity();
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 4; ++j) T(i, j) = sv_double("motion");
  return T;
}
static Matrix4d inverse(const Matrix4d& T) {
  Matrix4d I = Matrix4d::Identity();
  for (int i = 0; i < 3; ++i)
    for (int j = 0; j < 3; ++j) {
      I(i, j) = T(j, i);
      I(i, 3) -= T(j, i) * T(j, 3);
    }
  return I;
}
struct Window {
  size_t sensor;
  std::vector<Meas> all;
  Window() {
    sm::kinematics::checked() = false;
    sv_lazy_int(true);
    configure(false);
    sensor = sv_choose("sensor", 2);
    sm::kinematics::eitherSign() = sensor == reference;
    bsplines::Fitted::mode() = bsplines::Fitted::arbitrary;
  }
  void fill(Cal& c) {
    Time t = sv_lint("time", 0, 1000000000000000000);
    const int n = sensor == reference ? SV_T(2, 3) : 2;
    for (int i = 0; i < n; ++i) {
      if (i) t = t + sv_lint("step", 1000000, 100000000000);
      all.push_back(Meas{reference, t, i ? 0 : (Time)sv_lint("duration", 1000000, 100000000000), sensor == reference ? some() : moved(i), 2});
    }
    if (sensor != reference) {
      Time b = all[0].t + sv_lint("late", -100000000000, 100000000000);
      for (int i = 0; i < 2; ++i) {
        if (i) b = b + sv_lint("step", 0, 100000000000);
        all.push_back(Meas{sensor, b, 0, i ? some() : moved(i), 4});
      }
    }
    for (auto& m : all) give(c, m);
  }
  std::vector<Meas> its() const { return of(all, sensor); }
};
static Time delayed(Cal& c, const Meas& m) {
  if (m.sensor == reference) return m.t;
  return m.t - std::get<0>(c.getDesignVariables()->calibrationVariables_.at(ids[m.sensor]))->toScalar().getNumerator();
}
static bool used(Cal& c, const Meas& m) {
  if (m.sensor == reference) return true;
  auto& s = *c.getTranslationSpline();
  return delayed(c, m) - bound >= s.getMinTime() && delayed(c, m) + bound <= s.getMaxTime();
}
// where the sensor is when it measures
static Matrix4d at(Cal& c, const Meas& m) {
  Matrix4d T = Matrix4d::Identity(), S = Matrix4d::Identity();
  Time t = delayed(c, m);
  T.topLeftCorner<3, 3>() = c.getRotationSpline()->rotation(t);
  T.topRightCorner<3, 1>() = c.getTranslationSpline()->value(t, 0);
  if (m.sensor == reference) return T;
  auto& v = c.getDesignVariables()->calibrationVariables_.at(ids[m.sensor]);
  S.topLeftCorner<3, 3>() = std::get<2>(v)->toRotationMatrix();
  S.topRightCorner<3, 1>() = std::get<1>(v)->toEuclidean();
  return T * S;
}
static void splines(Cal& c, const std::vector<Meas>& ref) {
  auto& t = *c.getTranslationSpline();
  auto& r = *c.getRotationSpline();
  const char* id = "splines-follow-the-reference-sensor";
  const size_t n = ref.size() + 1;
  sv_check(t.fit.size() == n && r.fit.size() == n && t.times.size() == n && same(r.times, t.times), id);
  if (t.fit.size() != n) return;
  Matrix4d T = Matrix4d::Identity();
  for (size_t i = 0; i < n; ++i) {
    if (i) T = T * ref[i - 1].T;
    Matrix3d F = sm::kinematics::quat2r(r.fit[i]);
    for (int j = 0; j < 3; ++j) {
      sv_check_close(t.fit[i](j), T(j, 3), id);
      for (int k = 0; k < 3; ++k) sv_check_close(F(j, k), T(j, k), id);
    }
    sv_check(t.times[i] == (i ? ref[i - 1].t : ref[0].t - ref[0].duration), id);
    sv_check((r.fit[i](0) > 0) == (r.fit[0](0) > 0), "rotations-of-the-spline-have-no-jumps");
  }
  sv_check(t.lambda == 0.25 && r.lambda == 0.5 && t.conf.order == 5 && r.conf.order == 6, "splines-are-as-configured");
  double seconds = (double)(t.times.back() - t.times.front()) / 1e9;
  int dense = std::round(ref.size() / seconds);
  int segments = dense > knots ? (int)std::ceil(knots * seconds) : (int)ref.size();
  sv_check(t.segments == segments && r.segments == segments, "splines-are-as-configured");
}
static void recalibrate(Cal& c, size_t sensor) {
  auto& v = c.getDesignVariables()->calibrationVariables_.at(ids[sensor]);
  double d[3];
  for (double& x : d) x = sv_double("change");
  std::get<1>(v)->update(d, 3);
  std::get<2>(v)->set(sm::kinematics::r2quat(Ypr().parametersToRotationMatrix(Vector3d(0.5, 0.25, sv_double("change")))));
  Time change = sv_lint("change", -1000000000, 1000000000);
  sv_assume(change <= bound && -change <= bound);
  auto& t = *std::get<0>(v);
  t.set(DesignVariables::Time(t.toScalar().getNumerator() + change));
}
static void equal(const Matrix4d& a, const Matrix4d& b, const char* id) {
  for (int i = 0; i < 16; ++i) sv_check_close(a(i), b(i), id);
}
SV_ENTRY(ego_terms) {
  Window w;
  Cal c(config);
  w.fill(c);
  c.addMeasurements();
  auto& est = *c.getEstimator();
  sv_check(est.batches.size() == 1, "batch-is-handed-over");
  if (est.batches.empty()) return;
  OptimizationProblem& b = *est.batches[0];
  variables(c, b);
  splines(c, of(w.all, reference));
  std::vector<Meas> its = w.its(), in;
  for (auto& m : its)
    if (used(c, m)) in.push_back(m);
  if (w.sensor != reference && in.size() == 2) {
    Time t = delayed(c, in[1]);
    sv_check(c.getTranslationSpline()->lo == t - bound && c.getTranslationSpline()->up == t + bound && c.getRotationSpline()->lo == t - bound && c.getRotationSpline()->up == t + bound, "time-delay-may-change-within-its-bound");
  }
  std::vector<ErrorTermTransformation*> mine;
  size_t others = 0;
  for (size_t i = 0; i < b.numErrorTerms(); ++i) {
    auto e = dynamic_cast<ErrorTermTransformation*>(b.errorTerm(i));
    sv_check(e, "every-motion-has-its-error-term");
    if (!e) return;
    if (e->covariance == noise(its[0].noise)) mine.push_back(e);
    else ++others;
  }
  const size_t n = in.empty() ? 0 : in.size() - 1;
  sv_check(mine.size() == n && others == (w.sensor == reference ? 0 : 1), "every-motion-has-its-error-term");
  if (mine.size() != n) return;
  if (sv_choose("recalibrate", 2)) recalibrate(c, 1 - reference);
  for (size_t i = 0; i < n; ++i) {
    const char* id = "residual-is-that-of-the-calibrated-sensor";
    equal(mine[i]->measured.T(), in[i + 1].T, id);
    equal(mine[i]->predicted.toTransformationMatrix(), inverse(at(c, in[i])) * at(c, in[i + 1]), id);
    Vars v, x = trajectory(c);
    for (size_t k = 0; k < mine[i]->numDesignVariables(); ++k) v.insert(const_cast<DesignVariable*>(mine[i]->designVariable(k)));
    if (w.sensor != reference) {
      auto& y = c.getDesignVariables()->calibrationVariables_.at(ids[w.sensor]);
      x.insert(std::get<0>(y).get());
      x.insert(std::get<1>(y).get());
      x.insert(std::get<2>(y).get());
    }
    sv_check(v == x, "error-term-depends-on-its-variables");
  }
}
SV_ENTRY(ego_predict) {
  Window w;
  Cal c(config);
  w.fill(c);
  c.predict();
  splines(c, of(w.all, reference));
  sv_check(c.getEstimator()->batches.empty() && c.getInformationGainHistory().empty(), "predicting-changes-nothing");
  waiting(c, w.all);
  std::vector<Meas> its = w.its(), in;
  for (auto& m : its)
    if (used(c, m)) in.push_back(m);
  auto& p = c.motionMeasurementsPred_[ids[w.sensor]];
  auto& e = c.motionMeasurementsPredErrors_[ids[w.sensor]];
  auto& s = c.motionMeasurementsPredErrors2_[ids[w.sensor]];
  const size_t n = in.empty() ? 0 : in.size() - 1;
  const char* id = "every-motion-within-the-splines-is-predicted";
  sv_check(p.size() == n && e.size() == n && s.size() == n, id);
  if (p.size() != n || e.size() != n || s.size() != n) return;
  for (size_t i = 0; i < n; ++i) {
    Matrix4d T = inverse(at(c, in[i])) * at(c, in[i + 1]);
    sv_check(p[i].first == in[i + 1].t, id);
    equal(p[i].second.motion.T(), T, "prediction-is-what-the-calibrated-sensor-measures");
    ErrorTermTransformation x(TransformationExpression(T, nullptr), Transformation(in[i + 1].T), noise(in[i + 1].noise));
    double r = x.evaluateError();
    for (int k = 0; k < 6; ++k) sv_check_close(e[i](k), x.error()(k), "prediction-error-is-the-residual");
    sv_check_close(s[i], r, "prediction-error-is-the-residual");
  }
  c.clearPredictions();
  sv_check(c.motionMeasurementsPred_.empty() && c.motionMeasurementsPredErrors_.empty() && c.motionMeasurementsPredErrors2_.empty(), "cleared-predictions-are-gone");
}
