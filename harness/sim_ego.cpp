// The simulator of the egomotion example.
#include "sim_common.h"
#include <bsplines/EuclideanBSpline.hpp>
#include <bsplines/UnitQuaternionBSpline.hpp>
#include <aslam/calibration/egomotion/simulation/SimulationData.h>
#include <aslam/calibration/egomotion/simulation/SimulationParams.h>
#include <aslam/calibration/egomotion/simulation/simulationEngine.h>
using namespace aslam::calibration;
typedef Eigen::Matrix<double, 6, 1> Vector6d;
typedef Eigen::Matrix<double, 6, 6> Matrix6d;
SV_ENTRY(sim_motion) {
  const Vector4d q = sv_choose("turned", 2) ? turned(1) : quat("q");
  const Vector3d t = vec("t"), v = vec("v");
  const int axis = sv_choose("axis", 5);
  Vector3d om = Vector3d::Zero();
  if (axis < 3) om(axis) = sv_double("om");
  else if (axis == 3) om = vec("om");
  assumeRate(om);
  const double dt = sv_double("dt");
  const Transformation r = integrateMotionModel(Transformation(q, t), v, om, dt);
  Pose p = {quat2r(q), t}, e = moved(p, v, om, dt);
  close(r.t(), e.t, "moves-with-body-velocity");
  close(r.C(), e.C, "turns-with-body-rate");
}
SV_ENTRY(sim_sine) {
  double phi = sv_double("phi");
  Vector2d r(sv_double("x"), sv_double("y"));
  const double phi0 = phi, t = sv_double("t"), dt = sv_double("dt"), A = sv_double("A"), f = sv_double("f");
  const Vector2d r0 = r;
  sv_assume(dt > 1e-6);
  const Vector2d got = genSineBodyVel2d(phi, r, t, dt, A, f);
  const Sine s(A, f);
  close(got, along(s.heading(t), phi0, s.at(t), r0, dt), "velocity-along-sine-wave");
  sv_check_close(phi, s.heading(t), "heading-and-position-carried-on");
  close(r, s.at(t), "heading-and-position-carried-on");
}
static SimulationParams parameters(sm::PropertyTree& t) {
  // everything a configuration needs; the harness overwrites it
  const char* zero[] = {"dt", "T", "noise/sensor_0/e1", "noise/sensor_0/e2", "noise/sensor_0/e3", "noise/sensor_0/e4", "noise/sensor_0/e5", "noise/sensor_0/e6", "trajectory/A", "trajectory/f", "trajectory/w_T_v_0/yaw", "trajectory/w_T_v_0/pitch", "trajectory/w_T_v_0/roll", "trajectory/w_T_v_0/x", "trajectory/w_T_v_0/y", "trajectory/w_T_v_0/z", "trajectory/splines/transSplineLambda", "trajectory/splines/rotSplineLambda"};
  for (const char* k : zero) t.setDouble(std::string("p/") + k, 0);
  for (const char* k : {"p/calibration/num", "p/noise/sensor_0/idx", "p/trajectory/splines/splineKnotsPerSecond", "p/trajectory/splines/transSplineOrder", "p/trajectory/splines/rotSplineOrder", "egomotion/calibrator/referenceSensor"}) t.setInt(k, 0);
  t.setString("p/trajectory/type", "sine");
  SimulationParams p(sm::PropertyTree(t, "p"), t);
  p.sigma2.clear();
  p.sensorCalibration.clear();
  return p;
}
static std::vector<Vector3d> vels, rates;
// the body velocities of every step of a trajectory
static void velocities(const std::string& type, const Sine& s, double dt, double T, double z) {
  vels.clear();
  rates.clear();
  const double n = std::sqrt(2.0) * z;
  std::string before;
  for (int k = 1; k * dt < T; ++k) {
    const double t = k * dt;
    const std::string now = type != "combined" ? type : t < T / 3 ? "straight" : t < 2.0 / 3.0 * T ? "sinePlanar" : "random";
    if (now == "straight") {
      vels.push_back(Vector3d(1, 0, 0));
      rates.push_back(Vector3d::Zero());
    } else {
      // starts with the heading of the wave
      const Vector2d v = along(s.heading(t), s.heading(now != before ? t : t - dt), s.at(t), k == 1 ? Vector2d(0, 0) : s.at(t - dt), dt);
      if (now == "random") {
        vels.push_back(Vector3d::Constant(v(0) + n));
        rates.push_back(Vector3d::Constant(v(1) + n));
      } else {
        vels.push_back(Vector3d(v(0), 0, 0));
        rates.push_back(Vector3d(0, 0, v(1)));
      }
    }
    before = now;
    assumeRate(rates.back());
  }
}
static const char* types[] = {"straight", "sinePlanar", "random", "combined"};
SV_ENTRY(sim_trajectory) {
  sm::PropertyTree tree;
  SimulationParams p = parameters(tree);
  const int type = sv_choose("type", 4);
  const int free = sv_choose("free", 2);
  p.trajectoryParams.type = types[type];
  p.dt = sv_choose("dt", 2) ? 0.5 : 0.25;
  p.T = ((type == 3 ? 6 : free == 0 ? SV_T(4, 5) : SV_T(3, 4)) - 0.25) * p.dt;
  p.trajectoryParams.A = free == 1 && type == 1 ? sv_double("A") : 1.5;
  p.trajectoryParams.f = free == 1 && type == 1 ? sv_double("f") : 0.25;
  const Vector4d q0 = free == 0 ? turned(sv_choose("start", 3)) : turned(1);
  const Vector3d t0 = vec("t");
  p.trajectoryParams.w_T_v_0 = Transformation(q0, t0);
  p.trajectoryParams.transSplineLambda = sv_double("lambda");
  p.trajectoryParams.rotSplineLambda = sv_double("lambda");
  p.trajectoryParams.transSplineOrder = sv_int("order", 1, 20);
  p.trajectoryParams.rotSplineOrder = sv_int("order", 1, 20);
  const int knots = sv_choose("knots", 4);
  p.trajectoryParams.splineKnotsPerSecond = knots == 3 ? 100 : knots + 1;
  const Sine s(p.trajectoryParams.A, p.trajectoryParams.f);
  const double z = standardNormal();
  velocities(types[type], s, p.dt, p.T, z);
  Trajectory::TranslationSpline::values() = [](NsecTime) { return Vector3d(Vector3d::Zero()); };
  Trajectory::RotationSpline::values() = [](NsecTime) { return turned(0); };
  SimulationData d;
  simulate(p, d);
  auto& ts = d.trajectory.translationSpline;
  auto& rs = d.trajectory.rotationSpline;
  sv_check(ts && rs && ts->fitted && rs->fitted, "splines-fitted");
  const size_t n = vels.size();
  sv_check(ts->times.size() == n + 1 && rs->times == ts->times && ts->fit.size() == n + 1 && rs->fit.size() == n + 1, "one-pose-per-step");
  Pose pose = {quat2r(q0), t0};
  for (size_t k = 0; k <= n; ++k) {
    if (k) pose = moved(pose, vels[k - 1], rates[k - 1], p.dt);
    sv_check(ts->times[k] == (NsecTime)(k * (NsecTime)(p.dt * 1e9)), "poses-in-steps-of-time");
    close(ts->fit[k], pose.t, "trajectory-integrates-velocities");
    close(quat2r(rs->fit[k]), pose.C, "trajectory-integrates-velocities");
    if (k && free == 0) sv_check(rs->fit[k].dot(rs->fit[k - 1]) >= -1e-9, "quaternions-do-not-jump");
  }
  // knots as asked for, at most one per pose
  const double elapsed = n * p.dt;
  const double rate = (n + 1) / elapsed;
  const int want = p.trajectoryParams.splineKnotsPerSecond;
  const int segments = std::lround(rate) > want ? (int)std::ceil(want * elapsed) : n + 1;
  sv_check(ts->segments == segments && rs->segments == segments, "spline-density");
  sv_check(ts->lambda == p.trajectoryParams.transSplineLambda && rs->lambda == p.trajectoryParams.rotSplineLambda, "spline-smoothness");
  sv_check(ts->conf.order == p.trajectoryParams.transSplineOrder && rs->conf.order == p.trajectoryParams.rotSplineOrder && ts->conf.manifold.dimension == 3, "spline-order");
}
SV_ENTRY(sim_data) {
  sm::PropertyTree tree;
  SimulationParams p = parameters(tree);
  p.trajectoryParams.type = "straight";
  p.trajectoryParams.w_T_v_0 = Transformation(turned(0), Vector3d::Zero());
  p.trajectoryParams.splineKnotsPerSecond = 100;
  p.dt = 0.5;
  const int steps = 2;
  p.T = (steps + 1) * p.dt;
  p.referenceSensor = 3;
  const int free = sv_choose("free", 5);
  std::map<size_t, Pose> mount;
  std::map<size_t, NsecTime> delay;
  std::map<size_t, Matrix6d, std::less<size_t>, Eigen::aligned_allocator<std::pair<const size_t, Matrix6d>>> cov;
  for (size_t i : {3, 1, 7}) {
    Matrix6d c = Matrix6d::Zero();
    for (int j = 0; j < 6; ++j) c(j, j) = 0.25 * (1 + j) + (j == 2 ? 4 : 0) + i;
    if (free == 3 && i == 3) c(1, 1) = sv_double("variance");
    if (free == 4 && i == 7) c(4, 4) = sv_double("variance");
    sv_assume(c(1, 1) > 1e-6 && c(4, 4) > 1e-6);
    cov[i] = p.sigma2[i] = c;
    if (i == 3) continue;
    const Vector4d q = free == 0 && i == 1 ? quat("q") : turned(i);
    const Vector3d t = free <= 1 ? vec("t") : Vector3d(1, i, -2);
    mount[i] = Pose{quat2r(q), t};
    delay[i] = sv_int("delay", -2000000000L, 2000000000L);
    p.sensorCalibration[i] = std::make_pair(delay[i], Transformation(q, t));
  }
  std::map<NsecTime, Vector3d> position;
  std::map<NsecTime, Vector4d> rotation;
  for (int k = 0; k <= steps; ++k) {
    const NsecTime t = k * 500000000L;
    position[t] = free <= 2 ? vec("position") : Vector3d(k, 2 - k, k * k);
    rotation[t] = free == 2 && k == 1 ? quat("q") : turned(1 + 2 * k);
  }
  Trajectory::TranslationSpline::values() = [&](NsecTime t) { sv_check(position.count(t), "motions-between-steps"); return position[t]; };
  Trajectory::RotationSpline::values() = [&](NsecTime t) { sv_check(rotation.count(t), "motions-between-steps"); return rotation[t]; };
  SimulationData d;
  simulate(p, d);
  sv_check(d.motionData.size() == 3 && d.motionDataNoisy.size() == 3, "every-sensor-has-data");
  const double z = standardNormal();
  for (size_t i : {3, 1, 7}) {
    sv_check(d.motionData.count(i) && d.motionDataNoisy.count(i) && d.motionData[i].size() == steps && d.motionDataNoisy[i].size() == steps, "one-motion-per-step");
    for (int k = 1; k <= steps; ++k) {
      const NsecTime t = k * 500000000L;
      const Matrix3d C0 = quat2r(rotation[t - 500000000L]), C1 = quat2r(rotation[t]);
      Pose m = {C0.transpose() * C1, C0.transpose() * (position[t] - position[t - 500000000L])};
      if (i != 3) {
        const Pose& s = mount[i];
        m = Pose{s.C.transpose() * m.C * s.C, s.C.transpose() * (m.C * s.t + m.t - s.t)};
      }
      auto& clean = d.motionData[i][k - 1];
      auto& noisy = d.motionDataNoisy[i][k - 1];
      const NsecTime at = i == 3 ? t : t + delay[i];
      sv_check(clean.first == at && noisy.first == at, "time-delayed");
      sv_check(clean.second.duration == 500000000L && noisy.second.duration == 500000000L, "duration-is-step");
      close(clean.second.sigma2, cov[i], "covariance-of-sensor");
      close(noisy.second.sigma2, cov[i], "covariance-of-sensor");
      close(clean.second.motion.C(), m.C, "motion-of-sensor");
      close(clean.second.motion.t(), m.t, "motion-of-sensor");
      Vector3d nt, nr;
      for (int j = 0; j < 3; ++j) nt(j) = std::sqrt(cov[i](j, j)) * z, nr(j) = std::sqrt(cov[i](j + 3, j + 3)) * z;
      close(noisy.second.motion.C(), Matrix3d(m.C * quat2r(qexp(nr))), "noise-of-sensor");
      close(noisy.second.motion.t(), Vector3d(m.t + m.C * nt), "noise-of-sensor");
    }
  }
}
SV_ENTRY(sim_params) {
  sm::PropertyTree t;
  const std::string P = "p/", W = "trajectory/w_T_v_0/";
  std::vector<std::string> doubles = {"dt", "T", "trajectory/A", "trajectory/f", W + "yaw", W + "pitch", W + "roll", W + "x", W + "y", W + "z", "trajectory/splines/transSplineLambda", "trajectory/splines/rotSplineLambda"};
  std::vector<std::string> ints = {"calibration/num", "trajectory/splines/splineKnotsPerSecond", "trajectory/splines/transSplineOrder", "trajectory/splines/rotSplineOrder"};
  const int sensors = sv_choose("sensors", 3);
  for (int i = 0; i <= sensors; ++i) {
    const std::string n = "noise/sensor_" + std::string(1, '0' + i) + "/";
    for (int j = 1; j <= 6; ++j) doubles.push_back(n + "e" + std::string(1, '0' + j));
    ints.push_back(n + "idx");
    if (i == sensors) break;
    const std::string c = "calibration/sensor_" + std::string(1, '0' + i) + "/";
    for (const char* k : {"rotation/yaw", "rotation/pitch", "rotation/roll", "translation/x", "translation/y", "translation/z"}) doubles.push_back(c + "extrinsics/" + k);
    ints.push_back(c + "intrinsics/timeDelay");
    ints.push_back(c + "idx");
  }
  const int total = doubles.size() + ints.size();
  const int absent = sv_choose("absent", total + 2) - 1;
  std::map<std::string, double> d;
  std::map<std::string, long> n;
  int at = 0;
  for (auto& k : doubles) {
    d[k] = sv_double("number");
    if (at++ != absent) t.setDouble(P + k, d[k]);
  }
  static const int ids[] = {4, 0, 9};
  for (auto& k : ints) {
    if (k == "calibration/num") n[k] = sensors;
    // the sensors of the calibration in another order than those of the noise
    else if (k.substr(k.size() - 3) == "idx") n[k] = k[0] == 'n' ? ids[k[13] - '0'] : ids[(k[19] - '0' + 1) % 3];
    else n[k] = sv_int("integer", -2000000000L, 2000000000L);
    if (at++ != absent) t.setInt(P + k, n[k]);
  }
  const long reference = sv_int("reference", 0, 100);
  t.setInt("egomotion/calibrator/referenceSensor", reference);
  if (absent != total) t.setString(P + "trajectory/type", "random");
  const bool optional = absent >= (int)doubles.size() && absent < total && ints[absent - doubles.size()] == "trajectory/splines/transSplineOrder";
  bool refused = false;
  try {
    const SimulationParams p(sm::PropertyTree(t, "p"), t);
    sv_check(p.referenceSensor == reference && p.trajectoryParams.type == "random", "configured-value");
    sv_check_close(p.dt, d["dt"], "configured-value");
    sv_check_close(p.T, d["T"], "configured-value");
    const TrajectoryParams& q = p.trajectoryParams;
    sv_check_close(q.A, d["trajectory/A"], "configured-value");
    sv_check_close(q.f, d["trajectory/f"], "configured-value");
    sv_check_close(q.transSplineLambda, d["trajectory/splines/transSplineLambda"], "configured-value");
    sv_check_close(q.rotSplineLambda, d["trajectory/splines/rotSplineLambda"], "configured-value");
    sv_check(q.splineKnotsPerSecond == n["trajectory/splines/splineKnotsPerSecond"] && q.rotSplineOrder == n["trajectory/splines/rotSplineOrder"], "configured-value");
    sv_check(q.transSplineOrder == (optional ? 4 : n["trajectory/splines/transSplineOrder"]), "configured-value");
    const EulerAnglesYawPitchRoll ypr;
    close(q.w_T_v_0.C(), ypr.parametersToRotationMatrix(Vector3d(d[W + "yaw"], d[W + "pitch"], d[W + "roll"])), "configured-pose");
    close(q.w_T_v_0.t(), Vector3d(d[W + "x"], d[W + "y"], d[W + "z"]), "configured-pose");
    sv_check(p.sensorCalibration.size() == sensors && p.sigma2.size() == sensors + 1, "every-sensor-configured");
    for (int i = 0; i <= sensors; ++i) {
      const std::string e = "noise/sensor_" + std::string(1, '0' + i) + "/e";
      Matrix6d c = Matrix6d::Zero();
      for (int j = 0; j < 6; ++j) c(j, j) = d[e + std::string(1, '1' + j)];
      close(p.sigma2.at(ids[i]), c, "covariance-of-sensor");
      if (i == sensors) break;
      const std::string k = "calibration/sensor_" + std::string(1, '0' + i) + "/", x = k + "extrinsics/";
      auto& s = p.sensorCalibration.at(ids[(i + 1) % 3]);
      sv_check(s.first == n[k + "intrinsics/timeDelay"], "calibration-of-sensor");
      close(s.second.C(), ypr.parametersToRotationMatrix(Vector3d(d[x + "rotation/yaw"], d[x + "rotation/pitch"], d[x + "rotation/roll"])), "calibration-of-sensor");
      close(s.second.t(), Vector3d(d[x + "translation/x"], d[x + "translation/y"], d[x + "translation/z"]), "calibration-of-sensor");
    }
  } catch (const std::runtime_error&) {
    refused = true;
  }
  sv_check(refused == (absent >= 0 && !optional), "absent-option-refused");
}
