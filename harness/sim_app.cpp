// The simulation programs of the time delay and egomotion examples: what is
// simulated is given, files and calibrators are recorders.
#include "sv.h"
#include <algorithm>
#include <cmath>
#include <fstream>
#include <iomanip>
#include <iostream>
#include <map>
#include <sstream>
#include <sm/BoostPropertyTree.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm/kinematics/Transformation.hpp>
#include <recorder.h>
#if defined(CAR)
#include <aslam/calibration/car/algo/OptimizationProblemSpline.h>
#include <aslam/calibration/car/algo/splinesToFile.h>
#elif defined(EGO)
#include <aslam/calibration/egomotion/simulation/SimulationParams.h>
#include <aslam/calibration/egomotion/simulation/SimulationData.h>
#include <aslam/calibration/egomotion/simulation/simulationEngine.h>
#include <aslam/calibration/egomotion/algo/Calibrator.h>
#include <aslam/calibration/egomotion/algo/OptimizationProblemSpline.h>
#include <aslam/calibration/egomotion/algo/splinesToFile.h>
#else
#include <aslam/calibration/time-delay/simulation/SimulationParams.h>
#include <aslam/calibration/time-delay/simulation/SimulationData.h>
#include <aslam/calibration/time-delay/simulation/simulationEngine.h>
#include <aslam/calibration/time-delay/algo/Calibrator.h>
#include <aslam/calibration/time-delay/algo/OptimizationProblemSpline.h>
#include <aslam/calibration/time-delay/algo/splinesToFile.h>
#endif
#if !defined(CAR)
namespace {
// names of files
struct Name {
  std::string s;
  Name& operator<<(const char* x) { s += x; return *this; }
  Name& operator<<(const std::string& x) { s += x; return *this; }
  Name& operator<<(char x) { s += x; return *this; }
  Name& operator<<(size_t x) {
    std::string d;
    do d.insert(d.begin(), '0' + x % 10);
    while (x /= 10);
    s += d;
    return *this;
  }
  Name& operator<<(int x) { return *this << (size_t)x; }
  std::string str() const { return s; }
};
}
namespace std { typedef ::Name sv_name; }
#define stringstream sv_name
#define ostringstream sv_name
#define main program
#include "simulation/simulator.cpp"
#undef main
#undef stringstream
#undef ostringstream
#endif
namespace {
using Eigen::Matrix3d;
using Eigen::Vector3d;
using Eigen::Vector4d;
typedef sm::timing::NsecTime Time;
Vector3d vec(const char* n) {
  double x = sv_double(n), y = sv_double(n), z = sv_double(n);
  return Vector3d(x, y, z);
}
sm::kinematics::Transformation pose(const char* n) {
  const double w = sv_double(n);
  Vector4d q;
  q << vec(n), w;
  return sm::kinematics::Transformation(q, vec(n));
}
int shown(const std::string& n) {
  int k = 0;
  for (auto& f : std::ofstream::files()) k += f->name == n;
  return k;
}
typedef std::vector<std::ofstream::Row> Rows;
const Rows& rows(const std::string& name) {
  static Rows none;
  sv_check(shown(name) == 1, "each-file-is-written-once");
  for (auto& x : std::ofstream::files())
    if (x->name == name) return x->rows;
  return none;
}
// a file of these lines
void file(const std::string& name, const std::vector<std::vector<double> >& e, const char* id) {
  auto& r = rows(name);
  sv_check(r.size() == e.size(), id);
  for (size_t i = 0; i < e.size(); ++i) {
    sv_check(r[i].v.size() == e[i].size() && r[i].s.empty(), id);
    for (size_t j = 0; j < e[i].size(); ++j) sv_check_close(r[i].v[j], e[i][j], id);
  }
}
template <class V> std::vector<double> numbers(const V& v) { return std::vector<double>(v.data(), v.data() + v.size()); }
std::vector<double> operator+(std::vector<double> a, const std::vector<double>& b) {
  a.insert(a.end(), b.begin(), b.end());
  return a;
}
std::vector<double> angles(const Matrix3d& C) { return numbers(Vector3d(sm::kinematics::EulerAnglesYawPitchRoll().rotationMatrixToParameters(C))); }
double dt;
#if !defined(CAR)
bool simulated;
aslam::calibration::SimulationData* given;
size_t steps;
void given_(aslam::calibration::SimulationData&);
}
// ---- stand-ins
namespace aslam { namespace calibration {
#if defined(EGO)
TrajectoryParams::TrajectoryParams(const sm::PropertyTree&) {}
SimulationParams::SimulationParams(const sm::PropertyTree& c, const sm::PropertyTree& all) : trajectoryParams(c) {
  sv_check(all.getInt("egomotion/calibrator/referenceSensor", -1) != -1, "simulation-is-configured-by-its-part-of-the-configuration");
#else
TrajectoryParams::TrajectoryParams(const sm::PropertyTree&) {}
SimulationParams::SimulationParams(const sm::PropertyTree& c) : trajectoryParams(c) {
#endif
  sv_check(c.getString("which", "") == "the simulation's part", "simulation-is-configured-by-its-part-of-the-configuration");
  dt = ::dt;
}
void simulate(const SimulationParams& p, SimulationData& d) {
  sv_check(!simulated && p.dt == ::dt, "simulated-once-as-configured");
  simulated = true;
  given_(d);
}
}}
#else
}
#endif
namespace {
using namespace aslam::calibration;
Recorder& did() { return Recorder::one(); }
// the trajectory estimated
typedef OptimizationProblemSpline Problem;
std::vector<boost::shared_ptr<Problem> > problems;
std::vector<std::pair<boost::shared_ptr<Problem::TranslationSpline>, boost::shared_ptr<Problem::RotationSpline> > > pieces;
void estimated(const std::vector<int>& shape) {
  did().estimator = boost::make_shared<IncrementalEstimator>();
  Time t = sv_lint("start", 0, 1000000) * 1000;
  for (int n : shape) {
    problems.push_back(boost::make_shared<Problem>());
    for (int i = 0; i < n; ++i) {
      static const Time length[] = {SV_T(600000000, 1200000000), 0};
      const Time end = t + length[sv_choose("length", 2)];
      pieces.emplace_back(boost::make_shared<Problem::TranslationSpline>(t, end), boost::make_shared<Problem::RotationSpline>(t, end));
      problems.back()->addSpline(pieces.back().first, 0);
      problems.back()->addSpline(pieces.back().second, 0);
      t = end + 1000000000;
    }
    did().estimator->problem->add(problems.back());
  }
}
void trajectory() {
  std::vector<std::vector<double> > e;
  for (auto& p : pieces)
    for (Time t = p.first->getMinTime(); t < p.first->getMaxTime(); t += (Time)(dt * 1e9))
      e.push_back(numbers(p.first->values.at(t)) + angles(sm::kinematics::quat2r(p.second->values.at(t))));
  file("w_T_v_est.txt", e, "estimated-trajectory-is-sampled-at-the-simulation's-step");
}
#if !defined(CAR)
void config(const std::string& path, sm::PropertyTree& t);
int run() {
  sm::configFile() = config;
  std::string a[2] = {"program", "settings.xml"};
  char* argv[3] = {&a[0][0], &a[1][0], nullptr};
  return program(2, argv);
}
void histories() {
  std::vector<std::vector<double> > e;
  for (double g : did().gains) e.push_back({g});
  file("infoGainHist.txt", e, "histories-are-written");
}
// the measurements of sensors, each handed over once, in step
struct Sensor {
  size_t id;
  std::vector<std::pair<Time, std::vector<double> > > m;
};
void handed(const std::vector<Sensor>& s) {
  auto& e = did().events;
  sv_check(e.size() == s.size() * steps, "every-measurement-is-handed-over-once");
  std::vector<size_t> n(s.size(), 0);
  for (auto& x : e) {
    size_t i = 0;
    while (i < s.size() && s[i].id != x.sensor) ++i;
    sv_check(i < s.size() && n[i] < steps, "every-measurement-is-handed-over-once");
    const char* id = "measurements-have-their-own-time-and-values";
    auto& m = s[i].m[n[i]];
    sv_check(m.first == x.time, id);
    sv_check(m.second.size() == x.v.size(), id);
    for (size_t k = 0; k < x.v.size(); ++k) sv_check_close(x.v[k], m.second[k], id);
    ++n[i];
    sv_check(*std::max_element(n.begin(), n.end()) <= *std::min_element(n.begin(), n.end()) + 1, "sensors-are-handed-over-in-step");
  }
}
void some(std::vector<Eigen::VectorXd>& h, size_t n) {
  for (size_t i = 0; i < n; ++i) {
    Eigen::VectorXd v(2);
    v << sv_double("calibration"), sv_double("calibration");
    h.push_back(v);
  }
}
std::vector<std::vector<double> > lines(const std::vector<Eigen::VectorXd>& h) {
  std::vector<std::vector<double> > e;
  for (auto& v : h) e.push_back(numbers(v));
  return e;
}
#if defined(EGO)
size_t reference;
bool noisy;
const size_t ids[] = {1, 12, 4};
size_t sensors;
void given_(SimulationData& d) {
  given = new SimulationData;
  for (int noise = 0; noise < 2; ++noise)
    for (size_t i = 0; i < sensors; ++i) {
      MeasurementsContainer<MotionMeasurement>::Type m;
      for (size_t k = 0; k < steps; ++k) {
        MotionMeasurement x;
        x.motion = pose("motion");
        x.duration = 1000 + k;
        x.sigma2.setIdentity();
        x.sigma2(2, 2) = sv_double("variance");
        m.emplace_back(sv_lint("time", 0, 1000000000), x);
      }
      (noise ? d.motionDataNoisy : d.motionData)[ids[i]] = m;
    }
  const Time end = steps * (Time)(dt * 1e9);
  d.trajectory.translationSpline = boost::make_shared<Trajectory::TranslationSpline>(Trajectory::TranslationSpline::CONF(Trajectory::TranslationSpline::CONF::ManifoldConf(3), 4));
  d.trajectory.rotationSpline = boost::make_shared<Trajectory::RotationSpline>(Trajectory::RotationSpline::CONF(Trajectory::RotationSpline::CONF::ManifoldConf(), 4));
  d.trajectory.translationSpline->times = d.trajectory.rotationSpline->times = {0, end};
  d.trajectory.translationSpline->fitted = d.trajectory.rotationSpline->fitted = true;
  *given = d;
}
void config(const std::string& path, sm::PropertyTree& t) {
  sv_check(path == "settings.xml", "configuration-is-the-one-given");
  t.setString("egomotion/simulation/params/which", "the simulation's part");
  t.setString("egomotion/calibrator/which", "the calibrator's part");
  t.setInt("egomotion/calibrator/referenceSensor", reference);
  t.setBool("egomotion/calibrator/useNoisyData", noisy);
}
std::vector<double> contents(const MotionMeasurement& m) {
  return numbers(m.motion.t()) + numbers(m.motion.q());
}
#else
void given_(SimulationData& d) {
  for (size_t k = 0; k <= steps; ++k) {
    d.trajectory.w_T_v.push_back(pose("pose"));
    d.trajectory.v_v_wv.push_back(vec("velocity"));
    d.trajectory.v_om_wv.push_back(vec("rate"));
    if (!k) continue;
    d.w_v_wwl.push_back(vec("wheel"));
    d.w_v_wwr.push_back(vec("wheel"));
    for (auto m : {&d.lwData, &d.rwData, &d.lwData_n, &d.rwData_n}) {
      WheelSpeedMeasurement x;
      x.value = sv_double("speed");
      m->emplace_back(sv_lint("time", -1000000000, 1000000000), x);
    }
    for (auto m : {&d.poseData, &d.poseData_n}) {
      PoseMeasurement x;
      x.w_r_wp = vec("position");
      x.w_R_p = vec("angles");
      x.sigma2_w_r_wp = vec("variance").asDiagonal();
      x.sigma2_w_R_p = vec("variance").asDiagonal();
      m->emplace_back(sv_lint("time", 0, 1000000000), x);
    }
  }
  given = new SimulationData(d);
}
void config(const std::string& path, sm::PropertyTree& t) {
  sv_check(path == "settings.xml", "configuration-is-the-one-given");
  t.setString("time-delay/simulation/params/which", "the simulation's part");
  t.setString("time-delay/calibrator/which", "the calibrator's part");
}
std::vector<double> contents(const PoseMeasurement& m) { return numbers(m.w_r_wp) + numbers(m.w_R_p); }
#endif
#endif
}
#if !defined(CAR)
SV_ENTRY(simulation) {
  steps = 1 + sv_choose("steps", SV_T(3, 4));
  static const double dts[] = {0.25, 0.5};
  dt = dts[sv_choose("dt", 2)];
#if defined(EGO)
  sensors = 1 + sv_choose("sensors", 3);
  reference = ids[sv_choose("reference", sensors)];
  noisy = sv_choose("noisy", 2);
  static std::map<Time, Vector3d> ts;
  static std::map<Time, Vector4d> qs;
  Trajectory::TranslationSpline::values() = [](Time t) {
    if (!ts.count(t)) ts[t] = vec("trajectory");
    return ts[t];
  };
  Trajectory::RotationSpline::values() = [](Time t) {
    if (!qs.count(t)) qs[t] = pose("trajectory").q();
    return qs[t];
  };
#endif
  did().left = sv_choose("left", 2);
  const bool left = did().left;
  static const std::vector<int> none;
  estimated(none);
  const size_t n = sv_choose("batches", 3);
  for (size_t i = 0; i < n; ++i) did().gains.push_back(sv_double("gain"));
  some(did().calibrations[0], n);
  some(did().calibrations[1], n);
  sv_check(run() == 0, "succeeds");
  sv_check(simulated && did().made && did().added == left, "measurements-left-at-the-end-are-processed-once");
  histories();
  trajectory();
  std::vector<Sensor> s;
#if defined(EGO)
  for (size_t i = 0; i < sensors; ++i) {
    s.emplace_back();
    s.back().id = ids[i];
    for (int noise = 0; noise < 2; ++noise) {
      std::vector<std::vector<double> > e;
      for (auto& x : (noise ? given->motionDataNoisy : given->motionData)[ids[i]]) {
        e.push_back(contents(x.second));
        if (noise != noisy) continue;
        Eigen::Matrix<double, 6, 1> v = x.second.sigma2.diagonal();
        s.back().m.emplace_back(x.first, e.back() + numbers(v) + std::vector<double>(1, x.second.duration));
      }
      Name f;
      f << (noise ? "motionDataNoisy_" : "motionData_") << ids[i] << ".txt";
      file(f.str(), e, "simulated-measurements-are-written");
    }
  }
  handed(s);
  std::vector<std::vector<double> > e;
  for (size_t k = 0; k < steps; ++k) e.push_back(numbers(Vector3d(ts[k * (Time)(dt * 1e9)])) + angles(sm::kinematics::quat2r(qs[k * (Time)(dt * 1e9)])));
  file("w_T_v.txt", e, "true-trajectory-is-written");
  file("calibHist_1.txt", lines(did().calibrations[0]), "histories-are-written");
  file("calibHist_4.txt", lines(did().calibrations[1]), "histories-are-written");
#else
  std::vector<std::vector<double> > e;
  for (auto& x : given->trajectory.w_T_v) e.push_back(numbers(x.t()) + angles(x.C()));
  file("w_T_v.txt", e, "true-trajectory-is-written");
  auto velocities = [](const char* name, const std::vector<Vector3d>& v) {
    std::vector<std::vector<double> > e;
    for (auto& x : v) e.push_back(numbers(x));
    file(name, e, "simulated-measurements-are-written");
  };
  velocities("w_v_wwl.txt", given->w_v_wwl);
  velocities("w_v_wwr.txt", given->w_v_wwr);
  auto wheels = [](const char* name, const MeasurementsContainer<WheelSpeedMeasurement>::Type& m) {
    std::vector<std::vector<double> > e;
    for (auto& x : m) e.push_back({x.second.value});
    file(name, e, "simulated-measurements-are-written");
  };
  wheels("rwData.txt", given->rwData);
  wheels("lwData.txt", given->lwData);
  wheels("rwData_n.txt", given->rwData_n);
  wheels("lwData_n.txt", given->lwData_n);
  auto poses = [](const char* name, const MeasurementsContainer<PoseMeasurement>::Type& m) {
    std::vector<std::vector<double> > e;
    for (auto& x : m) e.push_back(contents(x.second));
    file(name, e, "simulated-measurements-are-written");
  };
  poses("poseData.txt", given->poseData);
  poses("poseData_n.txt", given->poseData_n);
  file("calibHist.txt", lines(did().calibrations[0]), "histories-are-written");
  s.resize(3);
  s[0].id = 0, s[1].id = 1, s[2].id = 2;
  for (auto& x : given->lwData_n) s[0].m.emplace_back(x.first, std::vector<double>(1, x.second.value));
  for (auto& x : given->rwData_n) s[1].m.emplace_back(x.first, std::vector<double>(1, x.second.value));
  for (auto& x : given->poseData_n)
    s[2].m.emplace_back(x.first, contents(x.second) + numbers(Vector3d(x.second.sigma2_w_r_wp.diagonal())) + numbers(Vector3d(x.second.sigma2_w_R_p.diagonal())));
  handed(s);
#endif
}
SV_ENTRY(usage) {
  int n = sv_choose("arguments", 4);
  if (n == 1) ++n;
  std::string s("x");
  char* argv[6] = {&s[0], &s[0], &s[0], &s[0], nullptr, nullptr};
  argv[n + 1] = nullptr;
  int r = program(n + 1, argv);
  sv_check(r != 0 && !did().made && !simulated && std::ofstream::files().empty(), "wrong-number-of-arguments-is-refused");
}
#endif
SV_ENTRY(trajectories) {
  sv_lazy_int(true);
  dt = sv_lint("dt", SV_T(150, 100), 1000) * 0.001;
  static const std::vector<std::vector<int> > shapes = {{1}, {2}, {1, 1}, {0, 2}, {2, 1}};
  estimated(shapes[sv_choose("shape", SV_T(4, 5))]);
#if defined(CAR)
  {
    std::ofstream f("w_T_v_est.txt");
    writeSplines(did().estimator, dt, f);
  }
#else
  steps = 1;
#if defined(EGO)
  sensors = 1, reference = ids[0], noisy = false;
  Trajectory::TranslationSpline::values() = [](Time) { return Vector3d::Zero(); };
  Trajectory::RotationSpline::values() = [](Time) { return Vector4d(0, 0, 0, 1); };
#endif
  sv_check(run() == 0, "succeeds");
#endif
  trajectory();
}
