// The design variables of the vehicle examples.
#include "core_common.h"
#include <sstream>
#include <map>
#include <string>
#include <sm/PropertyTree.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>
#include <aslam/backend/EuclideanPoint.hpp>
#include <aslam/backend/RotationQuaternion.hpp>
#include <aslam/backend/Scalar.hpp>
#include <aslam/backend/GenericScalar.hpp>
#include <aslam/backend/FixedPointNumber.hpp>
#if defined(CAR)
#include <aslam/calibration/car/design-variables/OdometryDesignVariables.h>
#elif defined(EGO)
#include <aslam/calibration/egomotion/design-variables/DesignVariables.h>
#else
#include <aslam/calibration/time-delay/design-variables/OdometryDesignVariables.h>
#endif
#include <aslam/calibration/data-structures/VectorDesignVariable.h>
#include <aslam/calibration/core/OptimizationProblem.h>
#include <aslam/calibration/exceptions/OutOfBoundException.h>
using namespace aslam::calibration;
using namespace aslam::backend;
typedef sm::kinematics::EulerAnglesYawPitchRoll Ypr;
static sm::PropertyTree config;
static std::map<std::string, double> value;
static double num(const std::string& k) {
  double v = sv_double("config");
  config.setDouble(k, v);
  return value[k] = v;
}
static long integer(const std::string& k) {
  long v = sv_lint("delay", -2000000000, 2000000000);
  config.setInt(k, v);
  value[k] = v;
  return v;
}
static bool flag(const std::string& k) {
  bool v = sv_choose("active", 2);
  config.setBool(k, v);
  return v;
}
static Eigen::Vector3d point(const std::string& k) {
  double x = num(k + "x"), y = num(k + "y"), z = num(k + "z");
  return Eigen::Vector3d(x, y, z);
}
// what is read back of a rotation given by these angles
static Eigen::Vector3d angles(const Eigen::Matrix3d& C) { return Ypr().rotationMatrixToParameters(C); }
static Eigen::Matrix3d rotation(const std::string& k) {
  double y = num(k + "yaw"), p = num(k + "pitch"), r = num(k + "roll");
  return Ypr().parametersToRotationMatrix(Eigen::Vector3d(y, p, r));
}
static double moved(Scalar& s) {
  double d = sv_double("update"), v = s.toScalar();
  s.update(&d, 1);
  return v + d;
}
static void is(const Eigen::VectorXd& v, int at, const Eigen::VectorXd& w, const char* id) {
  for (int i = 0; i < w.size(); ++i) sv_check_close(v(at + i), w(i), id);
}
static void is(const Eigen::VectorXd& v, int at, double w, const char* id) { sv_check_close(v(at), w, id); }
// a group of the problem holds these variables, once each, and the problem nothing else
static void holds(const OptimizationProblem& p, std::vector<DesignVariable*> all, size_t group) {
  auto& g = p.getDesignVariablesGroup(group);
  sv_check(p.numDesignVariables() == all.size() && g.size() == all.size(), "every-variable-is-added-once");
  for (auto d : all) {
    int n = 0;
    for (auto& x : g) n += x.get() == d;
    sv_check(n == 1, "every-variable-is-added-once");
  }
}
#ifndef EGO
struct Odometry {
#ifdef CAR
  const char* names[8] = {"intrinsics/halfRearTrack", "intrinsics/halfFrontTrack", "intrinsics/wheelBase", "intrinsics/rlwCoefficient", "intrinsics/rrwCoefficient", "intrinsics/flwCoefficient", "intrinsics/frwCoefficient", "intrinsics/dmiCoefficient"};
  static const int N = 8;
#else
  const char* names[3] = {"intrinsics/halfWheelBase", "intrinsics/lwCoefficient", "intrinsics/rwCoefficient"};
  static const int N = 3;
#endif
};
static void all(OdometryDesignVariables& o, std::vector<DesignVariable*>& v) {
#ifdef CAR
  v = {o.e_r.get(), o.e_f.get(), o.L.get(), o.k_rl.get(), o.k_rr.get(), o.k_fl.get(), o.k_fr.get(), o.k_dmi.get(), o.a.get(), o.v_r_vr.get(), o.v_R_r.get(), o.t_r.get(), o.t_f.get(), o.t_s.get(), o.t_dmi.get()};
#else
  v = {o.b.get(), o.k_l.get(), o.k_r.get(), o.v_r_vp.get(), o.v_R_p.get(), o.t_l.get(), o.t_r.get()};
#endif
}
SV_ENTRY(odometry) {
  Odometry names;
  for (int i = 0; i < names.N; ++i) num(names.names[i]);
  Eigen::Vector3d t = point("extrinsics/translation/");
  Eigen::Matrix3d R = rotation("extrinsics/rotation/");
#ifdef CAR
  for (int i = 0; i < 4; ++i) num("intrinsics/steeringCoefficient" + std::to_string(i));
  for (auto k : {"timeDelays/rearWheels", "timeDelays/frontWheels", "timeDelays/steering", "timeDelays/dmi"}) integer(k);
  bool ta = flag("timeDelays/active"), pa = false, ra = false;
#else
  integer("intrinsics/lwTimeDelay");
  integer("intrinsics/rwTimeDelay");
  bool ta = flag("intrinsics/timeDelaysActive"), pa = flag("extrinsics/translation/active"), ra = flag("extrinsics/rotation/active");
#endif
  OdometryDesignVariables o(config);
  std::vector<DesignVariable*> v;
  all(o, v);
  for (size_t i = 0; i < v.size(); ++i)
    for (size_t j = 0; j < i; ++j) sv_check(v[i] && v[i] != v[j], "variables-are-distinct");
  // what is calibrated
#ifdef CAR
  EuclideanPoint& point = *o.v_r_vr;
  RotationQuaternion& rot = *o.v_R_r;
  for (auto x : {o.t_r, o.t_f, o.t_s, o.t_dmi}) sv_check(x->isActive() == ta, "time-delays-are-estimated-as-configured");
  sv_check(o.a->isActive(), "intrinsics-are-estimated");
#else
  EuclideanPoint& point = *o.v_r_vp;
  RotationQuaternion& rot = *o.v_R_p;
  for (auto x : {o.t_l, o.t_r}) sv_check(x->isActive() == ta, "time-delays-are-estimated-as-configured");
#endif
  for (int i = 0; i < names.N; ++i) sv_check(v[i]->isActive(), "intrinsics-are-estimated");
  sv_check(point.isActive() == pa && rot.isActive() == ra, "extrinsics-are-estimated-as-configured");
  auto look = [&] {
    Eigen::VectorXd g = o.getParameters();
#ifdef CAR
    sv_check(g.size() == 22, "all-parameters-are-listed");
    for (int i = 0; i < 8; ++i) is(g, i, value[names.names[i]], "scalar-parameters");
    for (int i = 0; i < 4; ++i) is(g, 8 + i, value["intrinsics/steeringCoefficient" + std::to_string(i)], "steering-coefficients");
    is(g, 12, t, "position");
    is(g, 15, angles(R), "orientation");
    int k = 18;
    for (auto n : {"timeDelays/rearWheels", "timeDelays/frontWheels", "timeDelays/steering", "timeDelays/dmi"}) is(g, k++, value[n] / 1e9, "time-delays");
#else
    sv_check(g.size() == 11, "all-parameters-are-listed");
    is(g, 0, value[names.names[0]], "scalar-parameters");
    is(g, 1, value[names.names[1]], "scalar-parameters");
    is(g, 2, value["intrinsics/lwTimeDelay"] / 1e9, "time-delays");
    is(g, 3, value[names.names[2]], "scalar-parameters");
    is(g, 4, value["intrinsics/rwTimeDelay"] / 1e9, "time-delays");
    is(g, 5, t, "position");
    is(g, 8, angles(R), "orientation");
#endif
  };
  look();
  // the values an optimization has left
#ifdef CAR
  Scalar* s[] = {o.e_r.get(), o.e_f.get(), o.L.get(), o.k_rl.get(), o.k_rr.get(), o.k_fl.get(), o.k_fr.get(), o.k_dmi.get()};
  Eigen::Vector4d a;
  for (int i = 0; i < 4; ++i) a(i) = value["intrinsics/steeringCoefficient" + std::to_string(i)] = sv_double("coefficient");
  o.a->setValue(a);
#else
  Scalar* s[] = {o.b.get(), o.k_l.get(), o.k_r.get()};
#endif
  for (int i = 0; i < names.N; ++i) value[names.names[i]] = moved(*s[i]);
  for (int i = 0; i < 3; ++i) t(i) = sv_double("moved");
  point.set(t);
  R = Ypr().parametersToRotationMatrix(Eigen::Vector3d(sv_double("turned"), sv_double("turned"), sv_double("turned")));
  rot.set(sm::kinematics::r2quat(R));
  look();
}
SV_ENTRY(odometry_batch) {
  Odometry names;
  for (int i = 0; i < names.N; ++i) num(names.names[i]);
  point("extrinsics/translation/");
  for (auto k : {"yaw", "pitch", "roll"}) config.setDouble(std::string("extrinsics/rotation/") + k, 0);
  config.setBool("extrinsics/translation/active", true);
  config.setBool("extrinsics/rotation/active", true);
  config.setBool("intrinsics/timeDelaysActive", true);
  config.setBool("timeDelays/active", true);
  config.setInt("intrinsics/lwTimeDelay", 1);
  config.setInt("intrinsics/rwTimeDelay", 2);
  for (int i = 0; i < 4; ++i) num("intrinsics/steeringCoefficient" + std::to_string(i));
  for (auto k : {"timeDelays/rearWheels", "timeDelays/frontWheels", "timeDelays/steering", "timeDelays/dmi"}) config.setInt(k, 3);
  OdometryDesignVariables o(config);
  std::vector<DesignVariable*> v;
  all(o, v);
  auto b = boost::make_shared<OptimizationProblem>();
  size_t g = sv_int("group", 0, 1000);
  o.addToBatch(b, g);
  holds(*b, v, g);
}
#else
static int count;
static int idx[3];
static Eigen::Vector3d ts[3];
static Eigen::Matrix3d Rs[3];
static double delay[3];
static bool active[3][3];
static std::string tag(int i) { return "sensor_" + std::to_string(i) + "/"; }
static void configure(bool values) {
  count = sv_choose("sensors", SV_T(3, 4));
  config.setInt("num", count);
  static const int perm[3][3] = {{0, 1, 2}, {2, 0, 1}, {7, 3, 5}};
  int k = sv_choose("indices", 3);
  for (int i = 0; i < count; ++i) {
    idx[i] = perm[k][i];
    config.setInt(tag(i) + "idx", idx[i]);
    ts[i] = point(tag(i) + "extrinsics/translation/");
    if (values) Rs[i] = rotation(tag(i) + "extrinsics/rotation/");
    else
      for (auto n : {"yaw", "pitch", "roll"}) config.setDouble(tag(i) + "extrinsics/rotation/" + n, 0);
    delay[i] = integer(tag(i) + "intrinsics/timeDelay");
    const char* keys[] = {"intrinsics/timeDelayActive", "extrinsics/translation/active", "extrinsics/rotation/active"};
    int a = i ? 5 : sv_choose("active", 8);
    for (int j = 0; j < 3; ++j) config.setBool(tag(i) + keys[j], active[i][j] = a >> j & 1);
  }
}
SV_ENTRY(odometry) {
  configure(true);
  DesignVariables o(config);
  sv_check(o.calibrationVariables_.size() == (size_t)count, "one-set-of-variables-per-sensor");
  auto look = [&] {
    for (int i = 0; i < count; ++i) {
      auto& c = o.calibrationVariables_.at(idx[i]);
      sv_check(std::get<0>(c)->isActive() == active[i][0] && std::get<1>(c)->isActive() == active[i][1] && std::get<2>(c)->isActive() == active[i][2], "variables-are-estimated-as-configured");
      Eigen::VectorXd g = o.getParameters(idx[i]);
      sv_check(g.size() == 7, "all-parameters-are-listed");
      is(g, 0, delay[i] / 1e9, "time-delays");
      is(g, 1, ts[i], "position");
      is(g, 4, angles(Rs[i]), "orientation");
    }
    sv_check(outcome<OutOfBoundException<size_t>>([&] { o.getParameters(9); }) == 1, "unknown-sensor-is-rejected");
  };
  look();
  for (int i = 0; i < count; ++i) {
    auto& c = o.calibrationVariables_.at(idx[i]);
    for (int j = 0; j < 3; ++j) ts[i](j) = sv_double("moved");
    std::get<1>(c)->set(ts[i]);
    Rs[i] = Ypr().parametersToRotationMatrix(Eigen::Vector3d(sv_double("turned"), 0.5, 0.25));
    std::get<2>(c)->set(sm::kinematics::r2quat(Rs[i]));
  }
  look();
}
SV_ENTRY(odometry_batch) {
  configure(false);
  DesignVariables o(config);
  auto b = boost::make_shared<OptimizationProblem>();
  size_t g = sv_int("group", 0, 1000);
  if (!count) return;
  o.addToBatch(b, g);
  std::vector<DesignVariable*> v;
  for (int i = 0; i < count; ++i) {
    auto& c = o.calibrationVariables_.at(idx[i]);
    v.push_back(std::get<0>(c).get());
    v.push_back(std::get<1>(c).get());
    v.push_back(std::get<2>(c).get());
  }
  holds(*b, v, g);
}
#endif
