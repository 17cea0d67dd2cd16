// The simulator of the time delay example.
#include "sim_common.h"
#include <aslam/calibration/time-delay/simulation/SimulationData.h>
#include <aslam/calibration/time-delay/simulation/SimulationParams.h>
#include <aslam/calibration/time-delay/simulation/simulationEngine.h>
using namespace aslam::calibration;
SV_ENTRY(sim_motion) {
  const Vector4d q = sv_choose("turned", 2) ? turned(1) : quat("q");
  const Vector3d t = vec("t"), v = vec("v");
  const int axis = sv_choose("axis", 5);
  Vector3d om = Vector3d::Zero();
  if (axis < 3) om(axis) = sv_double("om");
  else if (axis == 3) om = vec("om");
  assumeRate(om);
  const double dt = sv_double("dt");
  const Transformation r = integrateMotionModel(Transformation(q, t), v, om, dt);
  Pose p = {quat2r(q), t}, e = moved(p, v, om, dt);
  close(r.t(), e.t, "moves-with-body-velocity");
  close(r.C(), e.C, "turns-with-body-rate");
}
SV_ENTRY(sim_sine) {
  double phi = sv_double("phi");
  Vector2d r(sv_double("x"), sv_double("y"));
  const double phi0 = phi, t = sv_double("t"), dt = sv_double("dt"), A = sv_double("A"), f = sv_double("f");
  const Vector2d r0 = r;
  sv_assume(dt > 1e-6);
  const Vector2d got = genSineBodyVel2d(phi, r, t, dt, A, f);
  const Sine s(A, f);
  close(got, along(s.heading(t), phi0, s.at(t), r0, dt), "velocity-along-sine-wave");
  sv_check_close(phi, s.heading(t), "heading-and-position-carried-on");
  close(r, s.at(t), "heading-and-position-carried-on");
}
SV_ENTRY(sim_wheel) {
  const Vector3d v = vec("v"), om = vec("om"), r = vec("r");
  const Vector3d w = genWheelVelocity(v, om, r);
  close(w, Vector3d(v(0) + om(1) * r(2) - om(2) * r(1), v(1) + om(2) * r(0) - om(0) * r(2), v(2) + om(0) * r(1) - om(1) * r(0)), "velocity-of-point-on-body");
}
SV_ENTRY(sim_data) {
  SimulationParams p;
  const int free = sv_choose("free", 4);
  p.dt = sv_choose("dt", 2) ? 0.5 : 0.25;
  const int steps = SV_T(3, 4);
  p.T = (steps + (sv_choose("T", 2) ? 0.5 : 1)) * p.dt;
  // the wave, or the poses, or the sensors
  p.trajectoryParams.A = free == 0 ? sv_double("A") : 1.5;
  p.trajectoryParams.f = free == 0 ? sv_double("f") : 0.25;
  const Vector4d q0 = free == 1 ? quat("q") : turned(1);
  const Vector3d t0 = vec("t");
  p.trajectoryParams.w_T_v_0 = Transformation(q0, t0);
  const Vector4d qp = free == 1 ? quat("q") : turned(3);
  const Vector3d tp = vec("t");
  p.v_T_p = Transformation(qp, tp);
  p.b = sv_double("b");
  p.k_l = sv_double("k");
  p.k_r = sv_double("k");
  sv_lazy_int(true);
  p.t_l = sv_lint("delay", -2000, 2000) * 1e-3;
  p.t_r = sv_lint("delay", -2000, 2000) * 1e-3;
  p.sigma2_l = sv_double("variance");
  p.sigma2_r = sv_double("variance");
  const Vector3d sr = free == 2 ? vec("variance") : Vector3d(0.5, 2, 0.25), sR = free == 3 ? vec("variance") : Vector3d(0.125, 1, 4);
  sv_assume(p.sigma2_l > 1e-6 && p.sigma2_r > 1e-6);
  for (int i = 0; i < 3; ++i) sv_assume(sr(i) > 1e-6 && sR(i) > 1e-6);
  p.sigma2_w_r_wp = sr.asDiagonal();
  p.sigma2_w_R_p = sR.asDiagonal();
  SimulationData d;
  const Sine s(p.trajectoryParams.A, p.trajectoryParams.f);
  std::vector<Vector2d> vel(1, Vector2d::Zero());
  for (int k = 1; k <= steps; ++k) {
    const double t = k * p.dt;
    vel.push_back(along(s.heading(t), s.heading(k == 1 ? t : t - p.dt), s.at(t), k == 1 ? Vector2d(0, 0) : s.at(t - p.dt), p.dt));
    assumeRate(Vector3d(0, 0, vel[k](1)));
  }
  simulate(p, d);
  sv_check(d.trajectory.w_T_v.size() == steps + 1 && d.trajectory.v_v_wv.size() == steps + 1 && d.trajectory.v_om_wv.size() == steps + 1, "one-pose-per-step");
  sv_check(d.w_v_wwl.size() == steps && d.w_v_wwr.size() == steps && d.lwData.size() == steps && d.lwData_n.size() == steps && d.rwData.size() == steps && d.rwData_n.size() == steps && d.poseData.size() == steps && d.poseData_n.size() == steps, "one-measurement-per-step");
  Pose pose = {quat2r(q0), t0};
  const EulerAnglesYawPitchRoll ypr;
  const double z = standardNormal();
  const NsecTime dt = (NsecTime)(p.dt * 1e9), tl = (NsecTime)(p.t_l * 1e9), tr = (NsecTime)(p.t_r * 1e9);
  for (int k = 0; k <= steps; ++k) {
    const Vector3d v(vel[k](0), 0, 0), om(0, 0, vel[k](1));
    if (k) pose = moved(pose, v, om, p.dt);
    close(d.trajectory.w_T_v[k].C(), pose.C, "trajectory-integrates-velocities");
    close(d.trajectory.w_T_v[k].t(), pose.t, "trajectory-integrates-velocities");
    close(d.trajectory.v_v_wv[k], v, "velocities-along-sine-wave");
    close(d.trajectory.v_om_wv[k], om, "velocities-along-sine-wave");
    if (!k) continue;
    const int i = k - 1;
    const NsecTime now = i * dt;
    const Vector3d wl(v(0) - om(2) * p.b, 0, 0), wr(v(0) + om(2) * p.b, 0, 0);
    close(d.w_v_wwl[i], wl, "wheel-velocities");
    close(d.w_v_wwr[i], wr, "wheel-velocities");
    sv_check(d.lwData[i].first == now + tl && d.lwData_n[i].first == now + tl, "left-wheel-delayed");
    sv_check(d.rwData[i].first == now + tr && d.rwData_n[i].first == now + tr, "right-wheel-delayed");
    sv_check_close(d.lwData[i].second.value, p.k_l * wl(0), "left-wheel-measures-scaled-speed");
    sv_check_close(d.rwData[i].second.value, p.k_r * wr(0), "right-wheel-measures-scaled-speed");
    sv_check_close(d.lwData_n[i].second.value, p.k_l * (wl(0) + std::sqrt(p.sigma2_l) * z), "left-wheel-noise");
    sv_check_close(d.rwData_n[i].second.value, p.k_r * (wr(0) + std::sqrt(p.sigma2_r) * z), "right-wheel-noise");
    const Vector3d rp = pose.t + pose.C * tp;
    const Vector3d Rp = ypr.rotationMatrixToParameters(pose.C * quat2r(qp));
    sv_check(d.poseData[i].first == now + dt / 2 && d.poseData_n[i].first == now + dt / 2, "pose-between-steps");
    close(d.poseData[i].second.w_r_wp, rp, "pose-of-sensor");
    close(d.poseData[i].second.w_R_p, Rp, "pose-of-sensor");
    for (int j = 0; j < 3; ++j) {
      sv_check_close(d.poseData_n[i].second.w_r_wp(j), rp(j) + std::sqrt(sr(j)) * z, "pose-noise");
      sv_check_close(d.poseData_n[i].second.w_R_p(j), Rp(j) + std::sqrt(sR(j)) * z, "pose-noise");
    }
    for (auto m : {&d.poseData[i].second, &d.poseData_n[i].second}) {
      close(m->sigma2_w_r_wp, p.sigma2_w_r_wp, "pose-covariance");
      close(m->sigma2_w_R_p, p.sigma2_w_R_p, "pose-covariance");
    }
  }
}
SV_ENTRY(sim_params) {
  sm::PropertyTree t;
  std::vector<std::string> keys;
  std::map<std::string, double> value;
  auto number = [&](const std::string& k) { keys.push_back(k); };
  for (const char* k : {"b", "k_l", "t_l", "k_r", "t_r"}) number(std::string("calibration/odometry/wss/") + k);
  for (const char* v : {"calibration/v_T_p/v_R_p/", "calibration/v_T_p/v_r_vp/", "noise/pose/sigma2_w_r_wp/", "noise/pose/sigma2_w_R_p/"})
    for (const char* e : {"e1", "e2", "e3"}) number(std::string(v) + e);
  for (const char* k : {"dt", "T", "noise/odometry/wss/sigma2_l", "noise/odometry/wss/sigma2_r", "trajectory/A", "trajectory/f"}) number(k);
  const int absent = sv_choose("absent", keys.size() + 1) - 1;
  for (size_t i = 0; i < keys.size(); ++i) {
    value[keys[i]] = sv_double("number");
    if (int(i) != absent) t.setDouble("params/" + keys[i], value[keys[i]]);
  }
  bool refused = false;
  try {
    const SimulationParams p(sm::PropertyTree(t, "params"));
    auto v = [&](const char* k) { return value.at(k); };
    sv_check_close(p.b, v("calibration/odometry/wss/b"), "configured-value");
    sv_check_close(p.k_l, v("calibration/odometry/wss/k_l"), "configured-value");
    sv_check_close(p.t_l, v("calibration/odometry/wss/t_l"), "configured-value");
    sv_check_close(p.k_r, v("calibration/odometry/wss/k_r"), "configured-value");
    sv_check_close(p.t_r, v("calibration/odometry/wss/t_r"), "configured-value");
    sv_check_close(p.dt, v("dt"), "configured-value");
    sv_check_close(p.T, v("T"), "configured-value");
    sv_check_close(p.sigma2_l, v("noise/odometry/wss/sigma2_l"), "configured-value");
    sv_check_close(p.sigma2_r, v("noise/odometry/wss/sigma2_r"), "configured-value");
    sv_check_close(p.trajectoryParams.A, v("trajectory/A"), "configured-value");
    sv_check_close(p.trajectoryParams.f, v("trajectory/f"), "configured-value");
    Vector3d r, R, sr, sR;
    for (int i = 0; i < 3; ++i) {
      const std::string e = "e" + std::string(1, '1' + i);
      r(i) = value.at("calibration/v_T_p/v_r_vp/" + e);
      R(i) = value.at("calibration/v_T_p/v_R_p/" + e);
      sr(i) = value.at("noise/pose/sigma2_w_r_wp/" + e);
      sR(i) = value.at("noise/pose/sigma2_w_R_p/" + e);
    }
    close(p.v_T_p.t(), r, "configured-pose");
    close(p.v_T_p.C(), EulerAnglesYawPitchRoll().parametersToRotationMatrix(R), "configured-pose");
    close(p.sigma2_w_r_wp, Matrix3d(sr.asDiagonal()), "configured-covariance");
    close(p.sigma2_w_R_p, Matrix3d(sR.asDiagonal()), "configured-covariance");
    close(p.trajectoryParams.w_T_v_0.C(), Matrix3d(Matrix3d::Identity()), "starts-at-origin");
    close(p.trajectoryParams.w_T_v_0.t(), Vector3d(Vector3d::Zero()), "starts-at-origin");
  } catch (const std::runtime_error&) {
    refused = true;
  }
  sv_check(refused == (absent >= 0), "absent-option-refused");
}
