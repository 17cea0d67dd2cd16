// The calibration and analysis programs of the car example, on recorded
// messages: the calibrator is a recorder of what it is handed.
#include "sv.h"
#include <algorithm>
#include <cmath>
#include <fstream>
#include <functional>
#include <iomanip>
#include <iostream>
#include <sstream>
#include <aslam/splines/OPTBSpline.hpp>
#include <aslam/calibration/core/IncrementalEstimator.h>
#include <sm/PropertyTree.hpp>
#define main program
#if defined(ANALYZER)
#include "realworld/analyzer.cpp"
#else
#include "realworld/calibrator.cpp"
#endif
#undef main
#include <aslam/calibration/car/algo/OptimizationProblemSpline.h>
#include <aslam/calibration/car/design-variables/OdometryDesignVariables.h>
namespace {
typedef Eigen::Vector3d V;
typedef Eigen::Matrix3d M;
enum Kind { pose, vel, dmi, fw, rw, st, added, predicted };
struct Event {
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  Kind kind;
  sm::timing::NsecTime time;
  PoseMeasurement p;
  VelocitiesMeasurement v;
  double a, b;
};
std::vector<std::unique_ptr<Event> >& events() { static std::vector<std::unique_ptr<Event> > e; return e; }
Event& happened(Kind k, sm::timing::NsecTime t) {
  events().emplace_back(new Event);
  events().back()->kind = k;
  events().back()->time = t;
  return *events().back();
}
bool left_over;
template <class C> struct Predictions {
  C measurements, predictions;
  std::vector<Eigen::VectorXd> errors;
  std::vector<double> errors2;
};
Predictions<CarCalibrator::PoseMeasurements> poses;
Predictions<CarCalibrator::VelocitiesMeasurements> velocities;
Predictions<CarCalibrator::DMIMeasurements> dmis;
Predictions<CarCalibrator::WheelSpeedsMeasurements> rears, fronts;
Predictions<CarCalibrator::SteeringMeasurements> steerings;
CarCalibrator::IncrementalEstimatorSP estimator;
CarCalibrator* made;
std::vector<std::string> told;  // trajectory files
V some(const char* n) {
  double x = sv_double(n), y = sv_double(n), z = sv_double(n);
  return V(x, y, z);
}
Eigen::VectorXd column(const char* n, int k) {
  Eigen::VectorXd v(k);
  for (int i = 0; i < k; ++i) v(i) = sv_double(n);
  return v;
}
Eigen::VectorXd variances;
std::vector<double> gains;
std::vector<Eigen::VectorXd> calibrations;
bool same(double a, double b, const char* id) { sv_check_close(a, b, id); return true; }
template <class A, class B> void is(const A& a, const B& b, const char* id) {
  sv_check(a.rows() == b.rows() && a.cols() == b.cols(), id);
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j) sv_check_close(a(i, j), b(i, j), id);
}
}
// ---- the recorder
namespace aslam { namespace calibration {
CarCalibrator::CarCalibrator(const sm::PropertyTree& c) {
  sv_check(!made && c.getString("which", "") == "the calibrator's part", "calibrator-is-configured-by-its-part-of-the-configuration");
  made = this;
  estimator.reset(new IncrementalEstimator(c));
}
CarCalibrator::~CarCalibrator() {}
const CarCalibrator::IncrementalEstimatorSP CarCalibrator::getEstimator() const { return estimator; }
CarCalibrator::IncrementalEstimatorSP CarCalibrator::getEstimator() { return estimator; }
bool CarCalibrator::unprocessedMeasurements() const { return left_over; }
const std::vector<double> CarCalibrator::getInformationGainHistory() const { sv_check(!left_over, "results-are-final"); return gains; }
const std::vector<Eigen::VectorXd> CarCalibrator::getOdometryVariablesHistory() const { sv_check(!left_over, "results-are-final"); return calibrations; }
Eigen::VectorXd CarCalibrator::getOdometryVariablesVariance() const { sv_check(!left_over, "results-are-final"); return variances; }
void CarCalibrator::addMeasurements() { happened(added, 0); left_over = false; }
void CarCalibrator::predict() { happened(predicted, 0); left_over = false; }
void CarCalibrator::clearMeasurements() {}
void CarCalibrator::addPoseMeasurement(const PoseMeasurement& p, sm::timing::NsecTime t) { happened(pose, t).p = p; }
void CarCalibrator::addVelocitiesMeasurement(const VelocitiesMeasurement& v, sm::timing::NsecTime t) { happened(vel, t).v = v; }
void CarCalibrator::addDMIMeasurement(const DMIMeasurement& d, sm::timing::NsecTime t) { happened(dmi, t).a = d.wheelSpeed; }
void CarCalibrator::addFrontWheelsMeasurement(const WheelSpeedsMeasurement& d, sm::timing::NsecTime t) {
  Event& e = happened(fw, t);
  e.a = d.left;
  e.b = d.right;
}
void CarCalibrator::addRearWheelsMeasurement(const WheelSpeedsMeasurement& d, sm::timing::NsecTime t) {
  Event& e = happened(rw, t);
  e.a = d.left;
  e.b = d.right;
}
void CarCalibrator::addSteeringMeasurement(const SteeringMeasurement& d, sm::timing::NsecTime t) { happened(st, t).a = d.value; }
#define PREDICTIONS(type, name, member) \
  const CarCalibrator::type& CarCalibrator::get##name##Predictions() const { sv_check(!left_over, "results-are-final"); return member.predictions; } \
  const std::vector<Eigen::VectorXd>& CarCalibrator::get##name##PredictionErrors() const { sv_check(!left_over, "results-are-final"); return member.errors; } \
  const std::vector<double>& CarCalibrator::get##name##PredictionErrors2() const { sv_check(!left_over, "results-are-final"); return member.errors2; } \
  const CarCalibrator::type& CarCalibrator::get##name##Measurements() const { return member.measurements; }
PREDICTIONS(PoseMeasurements, Pose, poses)
PREDICTIONS(VelocitiesMeasurements, Velocities, velocities)
PREDICTIONS(DMIMeasurements, DMI, dmis)
PREDICTIONS(WheelSpeedsMeasurements, RearWheels, rears)
PREDICTIONS(WheelSpeedsMeasurements, FrontWheels, fronts)
PREDICTIONS(SteeringMeasurements, Steering, steerings)
void writeSplines(const IncrementalEstimatorSP& e, double dt, std::ofstream& s) {
  sv_check(!left_over, "results-are-final");
  sv_check(e == estimator && dt > 0, "trajectory-of-the-estimator-is-written");
  told.push_back(s.f->name);
}
}}
namespace {
// ---- files
const std::vector<std::ofstream::Row>& rows(const char* name) {
  static std::vector<std::ofstream::Row> none;
  const std::vector<std::ofstream::Row>* r = nullptr;
  for (auto& f : std::ofstream::files())
    if (f->name == name) {
      sv_check(!r, "file-is-written-once");
      r = &f->rows;
    }
  sv_check(r != nullptr, "file-is-written");
  return r ? *r : none;
}
void row(const char* name, size_t k, const std::vector<double>& x, const char* id) {
  auto& r = rows(name);
  sv_check(k < r.size() && r[k].v.size() == x.size(), id);
  for (size_t i = 0; i < x.size(); ++i) sv_check_close(r[k].v[i], x[i], id);
}
template <class E> void put(std::vector<double>& x, const E& v) {
  for (int i = 0; i < v.size(); ++i) x.push_back(v(i));
}
// ---- messages
const char* topics[] = {"/vnp", "/vns", "/fw", "/rw", "/st", "/dmi"};
template <class T> boost::shared_ptr<T> message(int kind) {
  boost::shared_ptr<T> m(new T);
  m->header.seq = sv_lint("sequence number", 0, 1000000);
  m->header.stamp.nsec = sv_lint("time of arrival", 0, 4000000000000000000);
  rosbag::recorded().push_back(rosbag::MessageInstance::of(topics[kind], m));
  return m;
}
struct Message {
  int kind;
  boost::shared_ptr<poslv::VehicleNavigationSolutionMsg> vns;
  boost::shared_ptr<poslv::VehicleNavigationPerformanceMsg> vnp;
  boost::shared_ptr<poslv::TimeTaggedDMIDataMsg> dmi;
  boost::shared_ptr<can_prius::FrontWheelsSpeedMsg> fw;
  boost::shared_ptr<can_prius::RearWheelsSpeedMsg> rw;
  boost::shared_ptr<can_prius::Steering1Msg> st;
};
double lastDmi;
Message record(int kind) {
  Message m;
  m.kind = kind;
  switch (kind) {
    case 0: {
      auto& x = *(m.vnp = message<poslv::VehicleNavigationPerformanceMsg>(0));
      V p = some("position error"), v = some("velocity error"), a = some("attitude error");
      x.timeDistance.time1 = sv_double("time");
      x.northPositionRMSError = p(0), x.eastPositionRMSError = p(1), x.downPositionRMSError = p(2);
      x.northVelocityRMSError = v(0), x.eastVelocityRMSError = v(1), x.downVelocityRMSError = v(2);
      x.rollRMSError = a(0), x.pitchRMSError = a(1), x.headingRMSError = a(2);
      break;
    }
    case 1: {
      auto& x = *(m.vns = message<poslv::VehicleNavigationSolutionMsg>(1));
      V p = some("position"), v = some("velocity"), a = some("attitude"), r = some("rate");
      x.timeDistance.time1 = sv_real_in("time", 0, 1e9);
      x.latitude = p(0), x.longitude = p(1), x.altitude = p(2);
      x.northVelocity = v(0), x.eastVelocity = v(1), x.downVelocity = v(2);
      x.roll = a(0), x.pitch = a(1), x.heading = a(2);
      x.angularRateLong = r(0), x.angularRateTrans = r(1), x.angularRateDown = r(2);
      break;
    }
    case 2: {
      auto& x = *(m.fw = message<can_prius::FrontWheelsSpeedMsg>(2));
      x.Left = sv_double("wheel"), x.Right = sv_double("wheel");
      break;
    }
    case 3: {
      auto& x = *(m.rw = message<can_prius::RearWheelsSpeedMsg>(3));
      x.Left = sv_double("wheel"), x.Right = sv_double("wheel");
      break;
    }
    case 4: {
      auto& x = *(m.st = message<can_prius::Steering1Msg>(4));
      x.value = sv_double("steering");
      break;
    }
    case 5: {
      auto& x = *(m.dmi = message<poslv::TimeTaggedDMIDataMsg>(5));
      // the clock of the encoder advances
      lastDmi = x.timeDistance.time1 = lastDmi + sv_real_in("time", 1e-6, 1e6);
      x.signedDistanceTraveled = sv_double("distance");
      break;
    }
  }
  return m;
}
// the event's time is that of the next message of its stream put through a
// corrector of its own
struct Stream {
  const void* corrector;
  size_t next;
};
Stream streams[6];
void timed(int kind, const Event& e, double remote, double local) {
  const char* id = "time-of-arrival-is-corrected-by-the-sensor's-clock";
  auto& c = sm::timing::corrections();
  Stream& s = streams[kind];
  bool found = false;
  for (size_t i = s.next; i < c.size() && !found; ++i) {
    if (s.corrector ? c[i].corrector != s.corrector : [&] {
          for (auto& o : streams)
            if (o.corrector == c[i].corrector) return true;
          return false;
        }())
      continue;
    if (!s.corrector) s.corrector = c[i].corrector;
    s.next = i + 1;
    found = true;
    sv_check_close(c[i].local, local, id);
    sv_check_close(c[i].remote, remote, id);
    double d = (double)e.time - c[i].result;
    sv_check(d <= 0.5 && d >= -0.5, "corrected-time-is-rounded-to-nanoseconds");
  }
  sv_check(found, id);
}
M body(const V& rollPitchHeading) {
  // body axes (forward, right, down) in north, east, down
  const double r = rollPitchHeading(0), p = rollPitchHeading(1), h = rollPitchHeading(2);
  M x, y, z;
  x << 1, 0, 0, 0, std::cos(r), -std::sin(r), 0, std::sin(r), std::cos(r);
  y << std::cos(p), 0, std::sin(p), 0, 1, 0, -std::sin(p), 0, std::cos(p);
  z << std::cos(h), -std::sin(h), 0, std::sin(h), std::cos(h), 0, 0, 0, 1;
  return z * y * x;
}
V earth(double lat, double lon, double alt) {
  V p;
  wgs84ToEcef(lat, lon, alt, p(0), p(1), p(2));
  return p;
}
M axes(double lat, double lon) {
  // rows: east, north, up
  const double sl = std::sin(lat), cl = std::cos(lat), so = std::sin(lon), co = std::cos(lon);
  M a;
  a << -so, co, 0, -sl * co, -sl * so, cl, cl * co, cl * so, sl;
  return a;
}
M diagonal(double a, double b, double c) { return V(a * a, b * b, c * c).asDiagonal(); }
bool active[6];
void config(const std::string& path, sm::PropertyTree& t) {
  sv_check(path == "settings.xml", "configuration-is-the-one-given");
  const char* o = "car/calibrator/odometry/sensors/";
  const char* s[] = {"", "", "fws", "rws", "st", "dmi"};
  for (int i = 2; i < 6; ++i) {
    t.setBool(std::string(o) + s[i] + "/active", active[i]);
    t.setString(std::string(o) + s[i] + "/topic", topics[i]);
  }
  t.setString("car/calibrator/applanix/vns/topic", topics[1]);
  t.setString("car/calibrator/applanix/vnp/topic", topics[0]);
  t.setString("car/calibrator/which", "the calibrator's part");
}
void run() {
  sm::configFile() = config;
  sm::kinematics::checked() = false;
  std::string a[3] = {"program", "record.bag", "settings.xml"};
  char* argv[4] = {&a[0][0], &a[1][0], &a[2][0], nullptr};
  int r = program(3, argv);
  sv_check(r == 0, "succeeds");
  sv_check(made && rosbag::opened() == "record.bag", "record-is-the-one-given");
}
double rad(double a) { return deg2rad(a); }
}
SV_ENTRY(messages) {
  sv_lazy_int(true);
  const int n = SV_T(3, 4);
  left_over = sv_choose("unprocessed", 2);
  bool was_left = left_over;
  variances = Eigen::VectorXd::Ones(22);
  std::vector<Message> m;
  for (int i = 0; i < n; ++i) m.push_back(record(sv_choose("message", 6)));
  for (int i = 2; i < 6; ++i) {
    active[i] = true;
    for (auto& x : m)
      if (x.kind == i) { active[i] = sv_choose("active", 2); break; }
  }
  run();
  size_t at = 0;
  auto next = [&](const char* id) -> Event& {
    static Event none;
    sv_check(at < events().size(), id);
    return at < events().size() ? *events()[at++] : none;
  };
  const poslv::VehicleNavigationPerformanceMsg* q = nullptr;
  const poslv::VehicleNavigationSolutionMsg* first = nullptr;
  const poslv::TimeTaggedDMIDataMsg* last = nullptr;
  size_t lines[6] = {};
  for (auto& x : m) {
    if (x.kind > 1 && !active[x.kind]) continue;
    switch (x.kind) {
      case 0: q = x.vnp.get(); break;
      case 1: {
        if (!q) break;
        auto& s = *x.vns;
        if (!first) first = &s;
        const char* id = "solution-gives-a-pose-and-velocities";
        Event& e = next(id);
        Event& f = next(id);
        sv_check((e.kind == pose && f.kind == vel) || (e.kind == vel && f.kind == pose), id);
        const PoseMeasurement& p = (e.kind == pose ? e : f).p;
        const VelocitiesMeasurement& v = (e.kind == vel ? e : f).v;
        sv_check(e.time == f.time, id);
        timed(1, e, (double)secToNsec(s.timeDistance.time1), (double)s.header.stamp.nsec);
        double lat = rad(s.latitude), lon = rad(s.longitude), lat0 = rad(first->latitude), lon0 = rad(first->longitude);
        M E0 = axes(lat0, lon0), E = axes(lat, lon), B = body(V(rad(s.roll), rad(s.pitch), rad(s.heading))), flip;
        flip << 0, 1, 0, 1, 0, 0, 0, 0, -1;
        is(p.m_r_mr, V(E0 * (earth(lat, lon, s.altitude) - earth(lat0, lon0, first->altitude))), "position-is-east-north-up-of-the-first");
        // of north, east, down at the vehicle
        M R = E0 * E.transpose() * flip * B;
        EulerAnglesYawPitchRoll ypr;
        is(p.m_R_r, ypr.rotationMatrixToParameters(R), "orientation-is-in-the-frame-of-the-positions");
        is(p.sigma2_m_r_mr, diagonal(q->eastPositionRMSError, q->northPositionRMSError, q->downPositionRMSError), "variances-of-the-position-are-those-of-its-axes");
        is(p.sigma2_m_R_r, diagonal(rad(q->headingRMSError), rad(q->pitchRMSError), rad(q->rollRMSError)), "variances-of-the-orientation-are-those-of-its-angles");
        V ned(s.northVelocity, s.eastVelocity, s.downVelocity);
        is(v.r_v_mr, V(B.transpose() * ned), "velocity-is-in-the-frame-of-the-vehicle");
        is(v.sigma2_r_v_mr, M(B.transpose() * diagonal(q->northVelocityRMSError, q->eastVelocityRMSError, q->downVelocityRMSError) * B), "covariance-of-the-velocity-is-in-the-frame-of-the-vehicle");
        is(v.r_om_mr, V(rad(s.angularRateLong), rad(s.angularRateTrans), rad(s.angularRateDown)), "rates-are-in-radians");
        is(v.sigma2_r_om_mr, diagonal(rad(q->rollRMSError), rad(q->pitchRMSError), rad(q->headingRMSError)), "variances-of-the-rates-are-those-of-their-axes");
        std::vector<double> l(1, s.header.stamp.toSec());
        put(l, p.m_r_mr), put(l, p.m_R_r), put(l, p.sigma2_m_r_mr.diagonal()), put(l, p.sigma2_m_R_r.diagonal());
        row("poseData.txt", lines[1], l, "measurements-are-written");
        l.resize(1);
        put(l, v.r_v_mr), put(l, v.r_om_mr), put(l, v.sigma2_r_v_mr.diagonal()), put(l, v.sigma2_r_om_mr.diagonal());
        row("velData.txt", lines[1]++, l, "measurements-are-written");
        break;
      }
      case 2: {
        Event& e = next("message-of-a-sensor-in-use-is-a-measurement");
        sv_check(e.kind == fw, "message-of-a-sensor-in-use-is-a-measurement");
        timed(2, e, x.fw->header.seq, (double)x.fw->header.stamp.nsec);
        same(e.a, x.fw->Left, "speeds-are-those-of-the-wheels") && same(e.b, x.fw->Right, "speeds-are-those-of-the-wheels");
        row("fwData.txt", lines[2]++, {x.fw->header.stamp.toSec(), e.a, e.b}, "measurements-are-written");
        break;
      }
      case 3: {
        Event& e = next("message-of-a-sensor-in-use-is-a-measurement");
        sv_check(e.kind == rw, "message-of-a-sensor-in-use-is-a-measurement");
        timed(3, e, x.rw->header.seq, (double)x.rw->header.stamp.nsec);
        same(e.a, x.rw->Left, "speeds-are-those-of-the-wheels") && same(e.b, x.rw->Right, "speeds-are-those-of-the-wheels");
        row("rwData.txt", lines[3]++, {x.rw->header.stamp.toSec(), e.a, e.b}, "measurements-are-written");
        break;
      }
      case 4: {
        Event& e = next("message-of-a-sensor-in-use-is-a-measurement");
        sv_check(e.kind == st, "message-of-a-sensor-in-use-is-a-measurement");
        timed(4, e, x.st->header.seq, (double)x.st->header.stamp.nsec);
        same(e.a, x.st->value, "steering-is-the-one-measured");
        row("stData.txt", lines[4]++, {x.st->header.stamp.toSec(), e.a}, "measurements-are-written");
        break;
      }
      case 5: {
        auto* o = last;
        last = x.dmi.get();
        if (!o) break;
        Event& e = next("message-of-a-sensor-in-use-is-a-measurement");
        sv_check(e.kind == dmi, "message-of-a-sensor-in-use-is-a-measurement");
        double t = last->timeDistance.time1 - o->timeDistance.time1;
        sv_check_close(e.a * t, last->signedDistanceTraveled - o->signedDistanceTraveled, "encoder-speed-is-the-distance-since-the-last-message-over-the-time");
        timed(5, e, (double)secToNsec(last->timeDistance.time1), (double)last->header.stamp.nsec);
        row("dmiData.txt", lines[5]++, {last->header.stamp.toSec(), e.a}, "measurements-are-written");
        break;
      }
    }
  }
  const char* d[] = {"", "poseData.txt", "fwData.txt", "rwData.txt", "stData.txt", "dmiData.txt"};
  for (int i = 1; i < 6; ++i) sv_check(rows(d[i]).size() == lines[i], "nothing-else-is-written");
  sv_check(rows("velData.txt").size() == lines[1], "nothing-else-is-written");
#if defined(ANALYZER)
  const Kind k = predicted;
#else
  const Kind k = added;
#endif
  if (was_left) sv_check(next("measurements-left-at-the-end-are-processed").kind == k, "measurements-left-at-the-end-are-processed");
  sv_check(at == events().size(), "nothing-else-is-measured");
}
// what is written at the end
SV_ENTRY(results) {
  left_over = sv_choose("unprocessed", 2);
  for (int i = 2; i < 6; ++i) active[i] = true;
  const int n = SV_T(2, 3);
#if defined(ANALYZER)
  const size_t count = sv_choose("predictions", n + 1);
  auto time = [] { return (sm::timing::NsecTime)sv_lint("time", 0, 4000000000000000000); };
  for (size_t i = 0; i < count; ++i) {
    PoseMeasurement p;
    p.m_r_mr = some("position"), p.m_R_r = some("orientation");
    p.sigma2_m_r_mr = p.sigma2_m_R_r = M::Identity();
    poses.predictions.push_back(std::make_pair(time(), p));
    poses.errors.push_back(column("error", 6));
    VelocitiesMeasurement v;
    v.r_v_mr = some("velocity"), v.r_om_mr = some("rate");
    v.sigma2_r_v_mr = v.sigma2_r_om_mr = M::Identity();
    velocities.predictions.push_back(std::make_pair(time(), v));
    velocities.errors.push_back(column("error", 6));
    DMIMeasurement d;
    d.wheelSpeed = sv_double("wheel");
    dmis.predictions.push_back(std::make_pair(time(), d));
    dmis.errors.push_back(column("error", 3));
    WheelSpeedsMeasurement w;
    w.left = sv_double("wheel"), w.right = sv_double("wheel");
    rears.predictions.push_back(std::make_pair(time(), w));
    rears.errors.push_back(column("error", 3));
    w.left = sv_double("wheel"), w.right = sv_double("wheel");
    fronts.predictions.push_back(std::make_pair(time(), w));
    fronts.errors.push_back(column("error", 3));
    SteeringMeasurement s;
    s.value = sv_double("steering");
    steerings.predictions.push_back(std::make_pair(time(), s));
    steerings.errors.push_back(column("error", 1));
  }
  run();
  const char* id = "predictions-are-written";
  auto error = [](const char* file, size_t i, const Eigen::VectorXd& e) {
    std::vector<double> l;
    put(l, e);
    row(file, i, l, "prediction-errors-are-written");
  };
  for (size_t i = 0; i < count; ++i) {
    auto p = poses.predictions[i];
    std::vector<double> l(1, nsecToSec(p.first));
    put(l, p.second.m_r_mr), put(l, p.second.m_R_r);
    row("poseDataPred.txt", i, l, id);
    auto v = velocities.predictions[i];
    l.assign(1, nsecToSec(v.first));
    put(l, v.second.r_v_mr), put(l, v.second.r_om_mr);
    row("velDataPred.txt", i, l, id);
    auto d = dmis.predictions[i];
    row("dmiDataPred.txt", i, {nsecToSec(d.first), d.second.wheelSpeed}, id);
    auto r = rears.predictions[i], w = fronts.predictions[i];
    row("rwDataPred.txt", i, {nsecToSec(r.first), r.second.left, r.second.right}, id);
    row("fwDataPred.txt", i, {nsecToSec(w.first), w.second.left, w.second.right}, id);
    auto s = steerings.predictions[i];
    row("stDataPred.txt", i, {nsecToSec(s.first), s.second.value}, id);
    error("posePredError.txt", i, poses.errors[i]);
    error("velPredError.txt", i, velocities.errors[i]);
    error("dmiPredError.txt", i, dmis.errors[i]);
    error("rwPredError.txt", i, rears.errors[i]);
    error("fwPredError.txt", i, fronts.errors[i]);
    error("stPredError.txt", i, steerings.errors[i]);
  }
  const char* files[] = {"poseDataPred.txt", "velDataPred.txt", "dmiDataPred.txt", "rwDataPred.txt", "fwDataPred.txt", "stDataPred.txt", "posePredError.txt", "velPredError.txt", "dmiPredError.txt", "rwPredError.txt", "fwPredError.txt", "stPredError.txt"};
  for (auto x : files) sv_check(rows(x).size() == count, id);
  sv_check(told.size() == 1 && told[0] == "m_T_v.txt", "trajectory-of-the-estimator-is-written");
#else
  variances = column("variance", 22);
  for (int i = 0; i < 22; ++i) sv_assume(variances(i) >= 0);
  const char* names[] = {"e_r:", "e_f:", "L:", "a0:", "a1:", "a2:", "a3:", "k_rl:", "k_rr:", "k_fl:", "k_fr:", "k_dmi:", "v_r_vr_1:", "v_r_vr_2:", "v_r_vr_3:", "v_R_r_1:", "v_R_r_2:", "v_R_r_3:"};
  size_t count = sv_choose("batches", n + 1);
  for (size_t i = 0; i < count; ++i) {
    gains.push_back(sv_double("gain"));
    calibrations.push_back(column("calibration", 22));
  }
  run();
  const char* id = "deviations-are-those-of-the-calibration-parameters";
  auto& d = rows("deviations.txt");
  sv_check(d.size() >= 18, id);
  for (size_t i = 0; i < 18 && i < d.size(); ++i) {
    sv_check(d[i].s.size() == 1 && d[i].s[0] == names[i], id);
    sv_check(d[i].v.size() == 1 && d[i].v[0] >= 0, id);
    sv_check_close(d[i].v[0] * d[i].v[0], variances(i), id);
  }
  id = "histories-are-written";
  sv_check(rows("infoGainHist.txt").size() == count && rows("calibHist.txt").size() == count, id);
  for (size_t i = 0; i < count; ++i) {
    row("infoGainHist.txt", i, {gains[i]}, id);
    std::vector<double> l;
    put(l, calibrations[i]);
    row("calibHist.txt", i, l, id);
  }
  sv_check(told.size() == 1 && told[0] == "m_T_v_est.txt", "trajectory-of-the-estimator-is-written");
#endif
}
SV_ENTRY(usage) {
  // wrong number of arguments: nothing is done
  int n = sv_choose("arguments", 4);
  if (n == 2) ++n;
  std::string s("x");
  char* argv[6] = {&s[0], &s[0], &s[0], &s[0], nullptr, nullptr};
  argv[n + 1] = nullptr;
  int r = program(n + 1, argv);
  sv_check(r != 0 && !made && std::ofstream::files().empty(), "wrong-number-of-arguments-is-refused");
}
