#!/usr/bin/env python3
# bugs in the example applications; their demonstrations use the stand-ins
from plant import plant
from plants_lib_head import HEAD
X = "incremental_calibration_examples/incremental_calibration_examples_"
SV = ["tools/plantlib/sv.h"]
BE = ["backend"]
CB = ["calib", "backend"]

plant("p25_bearing_wrap", "P25", X + "2dlrf/src/2dlrf/ErrorTermObservation.cpp", [("      error(1) = sm::kinematics::angleMod(_b - (atan2(bb, aa) -\n        (_xk->getValue())(2) - (_Theta->getValue())(2)));", "      error(1) = _b - sm::kinematics::angleMod(atan2(bb, aa) -\n        (_xk->getValue())(2) - (_Theta->getValue())(2));")], HEAD + r'''
#include <aslam/calibration/2dlrf/ErrorTermObservation.h>
#include <aslam/calibration/data-structures/VectorDesignVariable.h>
using namespace aslam::calibration;
int main() {
  VectorDesignVariable<3> x(Eigen::Vector3d(0, 0, 0)), c(Eigen::Vector3d(0, 0, 0));
  VectorDesignVariable<2> ahead(Eigen::Vector2d(1, 1)), behind(Eigen::Vector2d(-1, -0.01));
  ErrorTermObservation t(&x, &ahead, &c, 2, 0.8, Eigen::Matrix2d::Identity());
  t.evaluateError();
  NEAR(t.error()(1), 0.8 - M_PI / 4);
  // measured and predicted just at either side of the direction backwards
  ErrorTermObservation u(&x, &behind, &c, 2, 3.13, Eigen::Matrix2d::Identity());
  u.evaluateError();
  NEAR(u.error()(1), 3.13 - (std::atan2(-0.01, -1) + 2 * M_PI));
}
''', "plain", "a landmark behind the sensor, seen at one side of the direction backwards and predicted at the other", "bearing errors of a whole turn", src="$X\"_2dlrf/src/2dlrf/ErrorTermObservation.cpp\"", flags="-I${X}_2dlrf/include", stubs=BE)

plant("p26_roll_wrap", "P26", X + "car/src/error-terms/ErrorTermPose.cpp", [("      error(4) = sm::kinematics::angleMod(error(4));\n      error(5) = sm::kinematics::angleMod(error(5));", "      error(4) = sm::kinematics::angleMod(error(4));")], HEAD + r'''
#include <aslam/calibration/car/error-terms/ErrorTermPose.h>
#include <aslam/calibration/data-structures/VectorDesignVariable.h>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
using namespace aslam::calibration;
int main() {
  VectorDesignVariable<6> d;
  sm::kinematics::EulerAnglesYawPitchRoll ypr;
  for (double roll : {0.1, 3.1}) {
    Eigen::Matrix4d T = Eigen::Matrix4d::Identity();
    T.topLeftCorner<3, 3>() = ypr.parametersToRotationMatrix(Eigen::Vector3d(0.2, -0.1, roll));
    ErrorTermPose::Input m;
    m << 1, 2, 3, 0.2, -0.1, -3.1;
    ErrorTermPose t(aslam::backend::TransformationExpression(T, &d), m, ErrorTermPose::Covariance::Identity());
    t.evaluateError();
    NEAR(t.error()(2), 3);
    NEAR(t.error()(5), 2 * M_PI - 3.1 - roll);
  }
}
''', "plain", "a roll angle at one side of the half turn measured at the other", "roll errors of a whole turn", src="${X}_car/src/error-terms/ErrorTermPose.cpp", flags="-I${X}_car/include", stubs=BE)

plant("p27_assigned_front", "P27", X + "car/src/error-terms/ErrorTermWheel.cpp", [("       _measurement = other._measurement;\n       _sigma2Wheel = other._sigma2Wheel;\n       _frontEnabled = other._frontEnabled;", "       _measurement = other._measurement;\n       _sigma2Wheel = other._sigma2Wheel;")], HEAD + r'''
#include <aslam/calibration/car/error-terms/ErrorTermWheel.h>
#include <aslam/calibration/data-structures/VectorDesignVariable.h>
using namespace aslam::calibration;
using namespace aslam::backend;
int main() {
  VectorDesignVariable<3> v;
  VectorDesignVariable<1> k;
  EuclideanExpression e(Eigen::Vector3d(3, 4, 1), &v);
  ScalarExpression c(2, &k);
  ErrorTermWheel front(e, c, 20, Eigen::Matrix3d::Identity(), true), rear(e, c, 7, Eigen::Matrix3d::Identity() * 2, false);
  rear = front;
  EXPECT(rear.getFrontEnabled());
  rear.evaluateError();
  NEAR(rear.error()(0), 20 - 2 * 5);
  NEAR(rear.error()(1), 0);
}
''', "plain", "assigning the error term of a front wheel to that of a rear wheel", "the assigned term remains that of a rear wheel", src="${X}_car/src/error-terms/ErrorTermWheel.cpp", flags="-I${X}_car/include", stubs=BE)

plant("p28_scalar_part", "P28", X + "time_delay/src/algo/bestQuat.cpp", [("      if ((pquat + cquat).norm() < (pquat - cquat).norm())", "      if (pquat(3) * cquat(3) < 0)")], HEAD + r'''
#include <aslam/calibration/time-delay/algo/bestQuat.h>
using namespace aslam::calibration;
int main() {
  Eigen::Vector4d p(0, 0, 0.6, 0.8), q(0, 0, -0.59, -0.81);
  EXPECT(bestQuat(p, q) == -q);
  EXPECT(bestQuat(p, p) == p);
  // heading just about half a turn
  Eigen::Vector4d a(0, 0, 0.9999, 0.01), b(0, 0, 0.9999, -0.01);
  EXPECT(bestQuat(a, b) == b);
}
''', "plain", "two quaternions next to each other whose scalar parts have different signs (a heading of half a turn)", "the quaternion farther away is chosen", src="${X}_time_delay/src/algo/bestQuat.cpp", flags="-I${X}_time_delay/include")

plant("p29_second_beam", "P29", X + "2dlrf/src/2dlrf/utils.cpp", [("          if (!l_found[j] && r[i][j] > 0) {", "          if (r[i][j] > 0) {")], HEAD + r'''
#include <aslam/calibration/2dlrf/utils.h>
using namespace aslam::calibration;
typedef Eigen::Matrix<double, 3, 1> V3;
int main() {
  std::vector<Eigen::Matrix<double, 2, 1> > l;
  std::vector<V3> x{V3(0, 0, 0), V3(1, 0, 0), V3(2, 0, 0)};
  // the first is seen once, the second never, the third twice
  std::vector<std::vector<double> > r{{0, 0, 2}, {3, 0, 0}, {0, 0, 5}}, b{{0, 0, 0}, {0.5, 0, 0}, {0, 0, 0.1}};
  initLandmarks(l, x, V3(0.1, 0, 0), r, b);
  EXPECT(l.size() == 3);
  NEAR(l[0](0), 1.1 + 3 * std::cos(0.5));
  NEAR(l[1](0), 0);
  NEAR(l[2](0), 2.1);
  NEAR(l[2](1), 0);
}
''', "plain", "a landmark seen from several poses", "the landmark is where the last observation puts it rather than the first", src="${X}_2dlrf/src/2dlrf/utils.cpp", flags="-I${X}_2dlrf/include")

plant("p30_altitude", "P30", X + "car/src/geo/geodetic.cpp", [("      z = (R * (1 - e2) + altitude) * slat;", "      z = (R + altitude) * (1 - e2) * slat;")], HEAD + r'''
#include <sm/kinematics/Transformation.hpp>
#include <aslam/calibration/car/geo/geodetic.h>
using namespace aslam::calibration;
int main() {
  double x, y, z, u, v, w;
  wgs84ToEcef(0.8, 0.2, 0, x, y, z);
  wgs84ToEcef(0.8, 0.2, 500, u, v, w);
  EXPECT(std::fabs(u - x - 500 * std::cos(0.8) * std::cos(0.2)) < 1e-3);
  EXPECT(std::fabs(w - z - 500 * std::sin(0.8)) < 1e-3);
}
''', "plain", "a point above the ellipsoid and off the equator", "altitudes are shortened along the axis", src="${X}_car/src/geo/geodetic.cpp", flags="-I${X}_car/include", stubs=BE, extra=SV)

plant("p33_rotation_flag", "P33", X + "time_delay/src/design-variables/OdometryDesignVariables.cpp", [("      if (config.getBool(\"extrinsics/rotation/active\"))\n        v_R_p->setActive(true);\n      else\n        v_R_p->setActive(false);", "      v_R_p->setActive(v_r_vp->isActive());")], HEAD + r'''
#include <sm/PropertyTree.hpp>
#include <aslam/backend/EuclideanPoint.hpp>
#include <aslam/backend/RotationQuaternion.hpp>
#include <aslam/backend/Scalar.hpp>
#include <aslam/backend/GenericScalar.hpp>
#include <aslam/backend/FixedPointNumber.hpp>
#include <aslam/calibration/time-delay/design-variables/OdometryDesignVariables.h>
using namespace aslam::calibration;
int main() {
  for (int i = 0; i < 4; ++i) {
    sm::PropertyTree c;
    for (auto k : {"halfWheelBase", "lwCoefficient", "rwCoefficient"}) c.setDouble(std::string("intrinsics/") + k, 1);
    for (auto k : {"lwTimeDelay", "rwTimeDelay"}) c.setInt(std::string("intrinsics/") + k, 0);
    for (auto k : {"translation/x", "translation/y", "translation/z", "rotation/yaw", "rotation/pitch", "rotation/roll"}) c.setDouble(std::string("extrinsics/") + k, 0);
    c.setBool("intrinsics/timeDelaysActive", true);
    c.setBool("extrinsics/translation/active", i & 1);
    c.setBool("extrinsics/rotation/active", i & 2);
    OdometryDesignVariables o(c);
    EXPECT(o.v_r_vp->isActive() == bool(i & 1));
    EXPECT(o.v_R_p->isActive() == bool(i & 2));
  }
}
''', "plain", "a configuration that estimates the rotation but not the translation, or the other way round", "the rotation is estimated when the translation is", src="${X}_time_delay/src/design-variables/OdometryDesignVariables.cpp $I/src/core/OptimizationProblem.cpp", flags="-I${X}_time_delay/include", stubs=BE, extra=SV)

plant("p34_idle_rotation", "P34", X + "car/src/algo/OptimizationProblemSpline.cpp", [("        size_t groupId) {\n      const size_t numDV = spline->numDesignVariables();\n      for (size_t i = 0; i < numDV; ++i) {\n        spline->designVariable(i)->setActive(true);", "        size_t groupId) {\n      const size_t numDV = spline->numDesignVariables();\n      for (size_t i = 0; i < numDV; ++i) {")], HEAD + r'''
#include <sm/PropertyTree.hpp>
#include <aslam/splines/OPTBSpline.hpp>
#include <aslam/calibration/car/algo/OptimizationProblemSpline.h>
using namespace aslam::calibration;
template <class S> static void add(OptimizationProblemSpline& p) {
  boost::shared_ptr<S> s(new S(typename S::Conf(typename S::Conf::ManifoldConf(), 4)));
  s->designVariable(0)->setActive(false);
  p.addSpline(s, 0);
  EXPECT(p.isDesignVariableInProblem(s->designVariable(0)));
  EXPECT(s->designVariable(0)->isActive() && s->designVariable(1)->isActive());
}
int main() {
  OptimizationProblemSpline p;
  add<OptimizationProblemSpline::TranslationSpline>(p);
  add<OptimizationProblemSpline::RotationSpline>(p);
}
''', "plain", "a rotation spline with inactive control points", "the control points stay inactive in the problem", src="${X}_car/src/algo/OptimizationProblemSpline.cpp $I/src/core/OptimizationProblem.cpp", flags="-I${X}_car/include", stubs=CB, extra=SV)

CAL = r'''
#include <sm/PropertyTree.hpp>
#include <aslam/backend/EuclideanPoint.hpp>
#include <aslam/backend/RotationQuaternion.hpp>
#include <aslam/backend/Scalar.hpp>
#include <aslam/backend/GenericScalar.hpp>
#include <bsplines/BSplineFitter.hpp>
#include <aslam/calibration/core/IncrementalEstimator.h>
#include <aslam/calibration/time-delay/algo/Calibrator.h>
#include <aslam/calibration/time-delay/algo/OptimizationProblemSpline.h>
#include <aslam/calibration/time-delay/data/PoseMeasurement.h>
#include <aslam/calibration/time-delay/data/WheelSpeedMeasurement.h>
#include <aslam/calibration/time-delay/design-variables/OdometryDesignVariables.h>
#include <aslam/calibration/time-delay/error-terms/ErrorTermPose.h>
#include <aslam/calibration/time-delay/error-terms/ErrorTermWheel.h>
using namespace aslam::calibration;
static const long SEC = 1000000000;
struct Cal : Calibrator {
  Cal(const sm::PropertyTree& c) : Calibrator(c) { sm::kinematics::checked() = false; }
  void pose(long t) {
    PoseMeasurement p;
    p.w_r_wp = Eigen::Vector3d(t * 1e-9, 0, 0);
    p.w_R_p = Eigen::Vector3d(0, 0, 0);
    p.sigma2_w_r_wp = p.sigma2_w_R_p = Eigen::Matrix3d::Identity();
    addPoseMeasurement(p, t);
  }
  void left(double v, long t) { addLeftWheelMeasurement(WheelSpeedMeasurement{v}, t); }
  void right(double v, long t) { addRightWheelMeasurement(WheelSpeedMeasurement{v}, t); }
};
static sm::PropertyTree config(double left, double right, double window) {
  sm::PropertyTree c;
  c.setDouble("windowDuration", window);
  c.setBool("verbose", false);
  c.setDouble("splines/transSplineLambda", 0.25);
  c.setDouble("splines/rotSplineLambda", 0.5);
  c.setInt("splines/splineKnotsPerSecond", 7);
  c.setInt("splines/transSplineOrder", 5);
  c.setInt("splines/rotSplineOrder", 6);
  c.setInt("delayBound", SEC / 10);
  c.setDouble("odometry/constraints/noise/vyVariance", 0.5);
  c.setDouble("odometry/constraints/noise/vzVariance", 0.25);
  c.setDouble("odometry/sensors/wss/noise/lwVariance", 2);
  c.setDouble("odometry/sensors/wss/noise/rwVariance", 4);
  for (auto k : {"halfWheelBase", "lwCoefficient", "rwCoefficient"}) c.setDouble(std::string("odometry/intrinsics/") + k, 1);
  c.setInt("odometry/intrinsics/lwTimeDelay", left * SEC);
  c.setInt("odometry/intrinsics/rwTimeDelay", right * SEC);
  for (auto k : {"translation/x", "translation/y", "translation/z", "rotation/yaw", "rotation/pitch", "rotation/roll"}) c.setDouble(std::string("odometry/extrinsics/") + k, 0);
  for (auto k : {"intrinsics/timeDelaysActive", "extrinsics/translation/active", "extrinsics/rotation/active"}) c.setBool(std::string("odometry/") + k, true);
  return c;
}
'''
TDSRC = "${X}_time_delay/src/algo/Calibrator.cpp ${X}_time_delay/src/algo/CalibratorOptions.cpp ${X}_time_delay/src/algo/OptimizationProblemSpline.cpp ${X}_time_delay/src/algo/bestQuat.cpp ${X}_time_delay/src/design-variables/*.cpp ${X}_time_delay/src/error-terms/*.cpp $I/src/core/OptimizationProblem.cpp"
def td(id, prop, edits, demo, needs, what, file=X + "time_delay/src/algo/Calibrator.cpp"):
    plant(id, prop, file, edits, HEAD + CAL + demo, "plain", needs, what, src=TDSRC, flags="-I${X}_time_delay/include", stubs=CB, extra=SV)

td("p36_window_restarts_late", "P36", [("      clearMeasurements();\n      _currentBatchStartTimestamp = _lastTimestamp;", "      clearMeasurements();\n      // the next measurement starts the next window\n      _currentBatchStartTimestamp = -1;")], r'''
int main() {
  bsplines::Fitted::mode() = bsplines::Fitted::straight;
  Cal c(config(0, 0, 2));
  auto& b = c.getEstimator()->batches;
  for (int i = 0; i < 2; ++i) c.pose(i * SEC);
  EXPECT(b.empty());
  c.pose(2 * SEC);
  EXPECT(b.size() == 1);
  c.pose(3 * SEC);
  EXPECT(b.size() == 1);
  c.pose(4 * SEC);
  EXPECT(b.size() == 2);
  EXPECT(c.getPoseMeasurements().size() == 1);
}
''', "several windows, the later ones just full", "every window but the first starts one measurement late")

td("p38_delay_of_the_other_wheel", "P38", [("    void Calibrator::addRightWheelErrorTerms(const WheelSpeedMeasurements&\n        measurements, const OptimizationProblemSplineSP& batch) {\n      for (auto it = measurements.cbegin(); it != measurements.cend(); ++it) {\n        auto timestamp = it->first;\n        auto timeDelay = _odometryDesignVariables->t_r->toExpression();", "    void Calibrator::addRightWheelErrorTerms(const WheelSpeedMeasurements&\n        measurements, const OptimizationProblemSplineSP& batch) {\n      for (auto it = measurements.cbegin(); it != measurements.cend(); ++it) {\n        auto timestamp = it->first;\n        auto timeDelay = _odometryDesignVariables->t_l->toExpression();")], r'''
int main() {
  bsplines::Fitted::mode() = bsplines::Fitted::straight;
  for (double l : {0.0, -0.5}) {
    Cal c(config(l, 0.25, 3));
    for (int i = 0; i < 3; ++i) c.pose(i * SEC);
    c.left(100, SEC / 4);
    c.right(200, SEC / 4);
    c.pose(3 * SEC);
    auto& b = *c.getEstimator()->batches.at(0);
    // the left wheel's measurement is of before the first pose with a delay of -0.5
    int left = 0, right = 0;
    for (size_t i = 0; i < b.numErrorTerms(); ++i)
      if (auto e = dynamic_cast<ErrorTermWheel*>(b.errorTerm(i))) (e->getMeasurement() == 100 ? left : right)++;
    EXPECT(left == (l == 0));
    EXPECT(right == 1);
  }
}
''', "delays of the two wheels that differ", "measurements of the right wheel have the delay of the left one")

td("p39_squared_errors_remain", "P39", [("      _rightWheelSpeedMeasurementsPredErrors.clear();\n      _rightWheelSpeedMeasurementsPredErrors2.clear();", "      _rightWheelSpeedMeasurementsPredErrors.clear();")], r'''
int main() {
  bsplines::Fitted::mode() = bsplines::Fitted::straight;
  Cal c(config(0, 0, 100));
  for (int i = 0; i < 4; ++i) c.pose(i * SEC);
  c.left(1, SEC);
  c.right(1, SEC);
  for (int i = 0; i < 2; ++i) {
    c.predict();
    EXPECT(c.getLeftWheelPredictions().size() == 1 && c.getLeftWheelPredictionErrors().size() == 1 && c.getLeftWheelPredictionErrors2().size() == 1);
    EXPECT(c.getRightWheelPredictions().size() == 1 && c.getRightWheelPredictionErrors().size() == 1 && c.getRightWheelPredictionErrors2().size() == 1);
    c.clearPredictions();
    EXPECT(c.getRightWheelPredictions().empty() && c.getRightWheelPredictionErrors().empty());
    EXPECT(c.getRightWheelPredictionErrors2().empty() && c.getLeftWheelPredictionErrors2().empty());
  }
}
''', "predicting again after clearing the predictions", "squared errors of earlier predictions remain")

plant("p40_rotation_lambda", "P40", X + "egomotion_sensors/src/algo/CalibratorOptions.cpp", [("      rotSplineLambda = config.getDouble(\"splines/rotSplineLambda\");", "      rotSplineLambda = config.getDouble(\"splines/rotSplineLambda\",\n        transSplineLambda);"), ("      verbose = config.getBool(\"verbose\");", "      verbose = config.getBool(\"verbose\", verbose);")], HEAD + r'''
#include <sm/PropertyTree.hpp>
#include <aslam/calibration/egomotion/algo/CalibratorOptions.h>
using namespace aslam::calibration;
int main() {
  for (int i = 0; i < 3; ++i) {
    sm::PropertyTree c;
    c.setDouble("windowDuration", 3);
    if (i != 2) c.setBool("verbose", false);
    c.setInt("delayBound", 5);
    c.setInt("referenceSensor", 1);
    c.setDouble("splines/transSplineLambda", 0.25);
    if (i != 1) c.setDouble("splines/rotSplineLambda", 0.5);
    c.setInt("splines/splineKnotsPerSecond", 7);
    c.setInt("splines/transSplineOrder", 5);
    c.setInt("splines/rotSplineOrder", 6);
    EXPECT(throws([&] { CalibratorOptions o(c); }) == (i > 0));
    if (i) continue;
    CalibratorOptions o(c);
    NEAR(o.rotSplineLambda, 0.5);
    EXPECT(!o.verbose);
  }
}
''', "plain", "a configuration without the smoothing of the rotation or without the verbosity", "an incomplete configuration is accepted", src="${X}_egomotion_sensors/src/algo/CalibratorOptions.cpp", flags="-I${X}_egomotion_sensors/include", stubs=BE)

CAM = r'''
#include <functional>
#include <memory>
#include <boost/make_shared.hpp>
#include <sm/PropertyTree.hpp>
#include <sm/timing/NsecTimeUtilities.hpp>
#include <aslam/cameras.hpp>
#include <aslam/cameras/GridDetector.hpp>
#include <aslam/CameraGeometryDesignVariableContainer.hpp>
#include <aslam/ReprojectionError.hpp>
#include <aslam/backend/EuclideanPoint.hpp>
#include <aslam/backend/RotationQuaternion.hpp>
#include <aslam/backend/HomogeneousPoint.hpp>
#include <aslam/calibration/core/IncrementalEstimator.h>
#include <aslam/calibration/camera/@WHAT@.h>
using namespace aslam::calibration;
using namespace aslam::cameras;
using namespace aslam;
typedef GridCalibrationTargetCheckerboard Target;
typedef GridCalibrationTargetObservation Obs;
std::function<bool(const Eigen::VectorXd&, Eigen::VectorXd&)> CameraGeometryBase::project;
CameraGeometryBase* CameraGeometryBase::last;
std::function<Eigen::Vector3d(size_t)> Target::corner;
Target* Target::last;
std::function<bool(const cv::Mat&)> GridDetector::initialize;
std::function<bool(const cv::Mat&, const Time&, Obs&)> GridDetector::find;
GridDetector* GridDetector::last;
CameraGeometryDesignVariableContainer* CameraGeometryDesignVariableContainer::last;
std::function<double(ReprojectionError&, Eigen::Vector2d&)> ReprojectionError::evaluate;
// a target of n corners at (i, i * i, 0), each seen at pixel (10 i, 7 i)
static void scene(int n) {
  Target::corner = [](size_t i) { return Eigen::Vector3d(i, i * i, 0); };
  GridDetector::initialize = [](const cv::Mat&) { return true; };
  GridDetector::find = [n](const cv::Mat& m, const Time& t, Obs& o) {
    o.pose = sm::kinematics::Transformation(Eigen::Matrix4d(Eigen::Matrix4d::Identity()));
    o.picture = m;
    for (int i = 0; i < n; ++i) {
      o.seen.push_back(1);
      o.pixels.push_back(Eigen::Vector2d(10 * i, 7 * i));
    }
    return true;
  };
}
'''
def cam(id, prop, what, edits, demo, needs, breaks):
    f = "incremental_calibration_examples/incremental_calibration_examples_camera/src/camera/%s.cpp" % what
    plant(id, prop, f, edits, HEAD + CAM.replace("@WHAT@", what) + demo, "plain", needs, breaks, src="${X}_camera/src/camera/%s.cpp $I/src/core/OptimizationProblem.cpp $I/src/core/IncrementalOptimizationProblem.cpp $I/src/statistics/NormalDistribution1v.cpp" % what, flags="-I${X}_camera/include", stubs=["camera"] + CB, extra=SV)

cam("p41_count_after_rejection", "P41", "CameraCalibrator", [("          _batchObservations.begin(), _batchObservations.end());\n      }", "          _batchObservations.begin(), _batchObservations.end());\n        _batchNumImages = 0;\n      }"), ("      initBatch();\n      _batchNumImages = 0;", "      initBatch();")], r'''
int main() {
  for (int accept = 1; accept >= 0; --accept) {
    scene(2);
    CameraCalibrator::Options o;
    o.rows = 2;
    o.cols = 1;
    o.batchNumImages = 2;
    o.verbose = false;
    auto e = boost::make_shared<IncrementalEstimator>();
    CameraCalibrator c(e, o);
    cv::Mat m;
    EXPECT(c.initGeometry(m));
    svChoices = {accept, accept};
    for (int i = 0; i < 4; ++i) {
      c.addImage(m, i);
      EXPECT(e->batches.size() == (i + 1) / 2);
    }
    EXPECT(c.getBatchNumImages() == 0);
  }
}
''', "a batch of images that the estimator rejects", "no further batch is ever handed over")

cam("p42_largest_in_y", "P42", "CameraCalibrator", [("            maxXError = std::fabs((*it)(0));\n          if (", "            maxXError = std::fabs((*it)(0));\n          else if (")], r'''
int main() {
  for (int order = 0; order < 2; ++order) {
    scene(3);
    CameraCalibrator::Options o;
    o.rows = 3;
    o.cols = 1;
    o.batchNumImages = 1;
    o.verbose = false;
    auto e = boost::make_shared<IncrementalEstimator>();
    CameraCalibrator c(e, o);
    cv::Mat m;
    c.initGeometry(m);
    // the largest error in x comes with the largest one in y, or without
    int n = 0;
    ReprojectionError::evaluate = [&](ReprojectionError&, Eigen::Vector2d& x) {
      const double e[2][3][2] = {{{0.5, 0.25}, {-3, -4}, {1, 0}}, {{0.5, 0.25}, {-3, 1}, {1, -4}}};
      x << e[order][n % 3][0], e[order][n % 3][1];
      ++n;
      return 1.0;
    };
    svChoices = {1};
    c.addImage(m, 0);
    Eigen::VectorXd mean, var, dev;
    double x, y;
    size_t out;
    n = 0;
    c.getStatistics(mean, var, dev, x, y, out);
    EXPECT(mean.size() == 2);
    NEAR(x, 3);
    NEAR(y, 4);
  }
}
''', "an image point with the largest error in both directions", "the largest error in y is that of another point")

cam("p43_corner_behind_camera", "P43", "CameraValidator", [("          continue;\n        const Eigen::Vector2d error = predictedPoint - observedPoint;\n        _reprojectionErrorsStatistics", "          break;\n        const Eigen::Vector2d error = predictedPoint - observedPoint;\n        _reprojectionErrorsStatistics")], r'''
int main() {
  scene(4);
  sm::PropertyTree c, in;
  in.setString("projection/type", "pinhole");
  CameraValidator::Options o;
  o.rows = 4;
  o.cols = 1;
  o.verbose = false;
  CameraValidator v(in, o);
  int hidden = -1;
  CameraGeometryBase::project = [&](const Eigen::VectorXd& p, Eigen::VectorXd& k) {
    k << 10 * p(0) + 1, 7 * p(0) - p(1);
    return p(0) != hidden;
  };
  cv::Mat m;
  EXPECT(v.addImage(m, 0));
  EXPECT(v.getErrors().size() == 4);
  hidden = 3;
  EXPECT(v.addImage(m, 1));
  EXPECT(v.getErrors().size() == 7);
  hidden = 1;
  EXPECT(v.addImage(m, 2));
  EXPECT(v.getErrors().size() == 10);
  EXPECT(v.getMahalanobisDistances().size() == 10);
}
''', "a corner that cannot be projected and is not the last", "the corners after it are left out")

plant("p37_unsorted_middle", "P37", "incremental_calibration_vision/src/vision/VisionDataAssociation.cpp", [("std::vector<double>::iterator middle = disparities.begin() + middleIdx + 1;", "std::vector<double>::iterator middle = disparities.begin() + middleIdx;")], HEAD + r'''
#include <functional>
#include <map>
#include <memory>
#include <vector>
#include <boost/shared_ptr.hpp>
#include <Eigen/Core>
#include <aslam/cameras.hpp>
#include <aslam/NCameraPipeline.hpp>
#include <aslam/DescriptorTrackingAlgorithm.hpp>
#include <aslam/EpipolarMatchingAlgorithm.hpp>
#include <aslam/splines/BSplinePoseDesignVariable.hpp>
#include <aslam/calibration/core/OptimizationProblem.h>
#include <aslam/calibration/vision/VisionDataAssociation.hpp>
using namespace aslam;
using aslam::calibration::VisionDataAssociation;
static boost::shared_ptr<MultiFrame> frame(const std::vector<double>& at) {
  boost::shared_ptr<MultiFrame> f(new MultiFrame);
  f->frames.push_back(boost::shared_ptr<FrameBase>(new FrameBase));
  for (double x : at) {
    KeypointBase k;
    k.y << x, 0;
    f->frames[0]->keypoints.push_back(k);
  }
  return f;
}
// whether the second image becomes the frame that later ones are tracked from
static bool key(const std::vector<double>& moved) {
  sm::PropertyTree c;
  c.setString("pipelineName", "pipe");
  c.setString("pipe/name", "p");
  c.setString("descriptorTracking/name", "t");
  c.setString("ofovMatching/name", "s");
  c.setDouble("disparityKeyframeThreshold", 5);
  c.setInt("numTracksThreshold", 1);
  VisionDataAssociation v(c);
  boost::shared_ptr<MultiFrame> next, f[3] = {frame(std::vector<double>(moved.size(), 0)), frame(moved), frame(moved)};
  NCameraPipeline::images = [&](const std::string&, const Time&, int, const cv::Mat&) { return next; };
  const FrameBase* from = nullptr;
  DescriptorTrackingAlgorithm::track = [&](DescriptorTrackingAlgorithm& t) {
    from = t.frame[0];
    for (size_t k = 0; k < moved.size(); ++k) {
      KeypointIdentifierMatch m;
      for (int e = 0; e < 2; ++e) m.index[e].frameId = t.id[e], m.index[e].cameraIndex = 0, m.index[e].keypointIndex = k;
      t.matches.push_back(m);
    }
  };
  EpipolarMatchingAlgorithm::match = [](EpipolarMatchingAlgorithm&) {};
  for (auto& x : f) {
    next = x;
    v.addImage(Time(), 0, cv::Mat());
  }
  return from == f[1]->frames[0].get();
}
int main() {
  EXPECT(!key({1, 2, 3}));
  EXPECT(key({7, 8, 9}));
  EXPECT(key({1, 6, 7}));
  EXPECT(key({7, 1, 6}));
  EXPECT(!key({7, 6, 1, 2, 3}));
  EXPECT(!key({2, 1, 9, 8, 3}));
}
''', "plain", "tracks whose displacements lie on both sides of the threshold", "an image is kept or not by a displacement that is not the median", src="incremental_calibration_vision/src/vision/VisionDataAssociation.cpp $I/src/core/OptimizationProblem.cpp", flags="-std=c++17 -Iincremental_calibration_vision/include", stubs=["vision", "backend"], extra=SV)

plant("p44_noise_of_the_other_wheel", "P44", X + "time_delay/src/simulation/simulationEngine.cpp", [("        const NormalDistribution<1> rwDist(0, params.sigma2_r);", "        const NormalDistribution<1> rwDist(0, params.sigma2_l);")], HEAD + r'''
#include <unordered_map>
#include <sys/time.h>
#include <sm/PropertyTree.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm/kinematics/Transformation.hpp>
#include <sm/kinematics/transformations.hpp>
#include <sm/timing/NsecTimeUtilities.hpp>
#include <aslam/calibration/time-delay/simulation/SimulationData.h>
#include <aslam/calibration/time-delay/simulation/SimulationParams.h>
#include <aslam/calibration/time-delay/simulation/simulationEngine.h>
using namespace aslam::calibration;
// every sample of a distribution is the same
extern "C" long random() { return 1503238553; }
int main() {
  SimulationParams p;
  p.dt = 0.25;
  p.T = 1.1;
  p.b = 0.5;
  p.k_l = 2;
  p.k_r = 4;
  p.t_l = p.t_r = 0;
  p.sigma2_w_r_wp = p.sigma2_w_R_p = Eigen::Matrix3d::Identity();
  p.trajectoryParams.A = p.trajectoryParams.f = 0.25;
  p.sigma2_l = 9;
  p.sigma2_r = 4;
  SimulationData d;
  simulate(p, d);
  EXPECT(d.lwData.size() == 4 && d.rwData.size() == 4);
  const double z = (d.lwData_n[0].second.value - d.lwData[0].second.value) / 2 / 3;
  EXPECT(std::fabs(z) > 0.01);
  for (int i = 0; i < 4; ++i) {
    NEAR(d.lwData_n[i].second.value, d.lwData[i].second.value + 2 * 3 * z);
    NEAR(d.rwData_n[i].second.value, d.rwData[i].second.value + 4 * 2 * z);
  }
}
''', "plain", "wheels whose speeds are measured with different variances", "the right wheel has the noise of the left one", src="${X}_time_delay/src/simulation/simulationEngine.cpp ${X}_time_delay/src/simulation/*Params.cpp $I/src/statistics/NormalDistribution1v.cpp", flags="-I${X}_time_delay/include", stubs=["sim", "backend"], extra=SV)

plant("p45_noisy_on_time", "P45", X + "egomotion_sensors/src/simulation/simulationEngine.cpp", [("              data.motionDataNoisy[cov.first].push_back(std::make_pair(t +\n                timeDelay, motion));", "              data.motionDataNoisy[cov.first].push_back(std::make_pair(t,\n                motion));")], HEAD + r'''
#include <unordered_map>
#include <boost/make_shared.hpp>
#include <sm/PropertyTree.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm/kinematics/Transformation.hpp>
#include <sm/kinematics/transformations.hpp>
#include <sm/timing/NsecTimeUtilities.hpp>
#include <bsplines/EuclideanBSpline.hpp>
#include <bsplines/UnitQuaternionBSpline.hpp>
#include <aslam/calibration/egomotion/simulation/SimulationData.h>
#include <aslam/calibration/egomotion/simulation/SimulationParams.h>
#include <aslam/calibration/egomotion/simulation/simulationEngine.h>
using namespace aslam::calibration;
int main() {
  sm::PropertyTree t;
  const char* zero[] = {"noise/sensor_0/e1", "noise/sensor_0/e2", "noise/sensor_0/e3", "noise/sensor_0/e4", "noise/sensor_0/e5", "noise/sensor_0/e6", "trajectory/w_T_v_0/yaw", "trajectory/w_T_v_0/pitch", "trajectory/w_T_v_0/roll", "trajectory/w_T_v_0/x", "trajectory/w_T_v_0/y", "trajectory/w_T_v_0/z", "trajectory/splines/transSplineLambda", "trajectory/splines/rotSplineLambda"};
  for (const char* k : zero) t.setDouble(std::string("p/") + k, 0);
  for (const char* k : {"p/calibration/num", "p/noise/sensor_0/idx", "p/trajectory/splines/splineKnotsPerSecond", "p/trajectory/splines/transSplineOrder", "p/trajectory/splines/rotSplineOrder", "egomotion/calibrator/referenceSensor"}) t.setInt(k, 0);
  t.setDouble("p/dt", 0.25);
  t.setDouble("p/T", 1);
  t.setDouble("p/trajectory/A", 0.25);
  t.setDouble("p/trajectory/f", 0.25);
  t.setString("p/trajectory/type", "sine");
  SimulationParams p(sm::PropertyTree(t, "p"), t);
  p.sigma2.clear();
  p.sensorCalibration.clear();
  p.referenceSensor = 0;
  p.trajectoryParams.w_T_v_0 = sm::kinematics::Transformation();
  for (int i = 0; i < 2; ++i) p.sigma2[i] = Eigen::Matrix<double, 6, 6>::Identity();
  p.sensorCalibration[1] = std::make_pair(sm::timing::NsecTime(50000000), sm::kinematics::Transformation());
  typedef Trajectory::TranslationSpline S;
  S::values() = [](sm::timing::NsecTime t) { return Eigen::Vector3d(t * 1e-9, 0, 0); };
  Trajectory::RotationSpline::values() = [](sm::timing::NsecTime) { return Eigen::Vector4d(0, 0, 0, 1); };
  SimulationData d;
  simulate(p, d);
  for (int i = 0; i < 2; ++i) {
    auto &a = d.motionData[i], &b = d.motionDataNoisy[i];
    EXPECT(a.size() == 3 && b.size() == 3);
    for (size_t k = 0; k < a.size(); ++k) {
      EXPECT(a[k].first == long(k + 1) * 250000000 + (i ? 50000000 : 0));
      EXPECT(b[k].first == a[k].first);
    }
  }
}
''', "plain", "a sensor with a time delay, measured with noise", "noisy measurements have no time delay", src="${X}_egomotion_sensors/src/simulation/simulationEngine.cpp ${X}_egomotion_sensors/src/simulation/*Params.cpp ${X}_egomotion_sensors/src/algo/bestQuat.cpp $I/src/statistics/NormalDistribution1v.cpp", flags="-I${X}_egomotion_sensors/include", stubs=["sim", "backend"], extra=SV)

APP = ["app", "calib", "backend"]
plant("p46_first_performance", "P46", X + "car/src/realworld/calibrator.cpp", [("      lastVnp = vnp;", "      if (!lastVnp)\n        lastVnp = vnp;")], '''// two messages with the errors, then a solution
#include "car_app.cpp"
int main() {
  svChoices = {0, 0, 0, 1, 0};
  sv_entry_messages();
}
''', "plain", "errors of the solution that change during the record", "later solutions keep the covariance of the first ones", src="${X}_car/src/geo/geodetic.cpp ${X}_car/src/algo/CarCalibratorOptions.cpp", flags="-I${X}_car/include -I${X}_car/src", stubs=APP, extra=SV + ["harness/car_app.cpp"])

plant("p46_level_of_the_first", "P46", X + "car/src/realworld/analyzer.cpp", [("      const Transformation e_T_l_ned = ned2ecef(", "      static const Transformation e_T_l_ned = ned2ecef(")], '''// the errors, then two solutions at different places
#define ANALYZER
#include "car_app.cpp"
int main() {
  svChoices = {0, 0, 1, 1, 0};
  sv_entry_messages();
}
''', "plain", "solutions at places apart from each other", "attitudes at later places are taken to be relative to north and level of the first", src="${X}_car/src/geo/geodetic.cpp ${X}_car/src/algo/CarCalibratorOptions.cpp", flags="-I${X}_car/include -I${X}_car/src", stubs=APP, extra=SV + ["harness/car_app.cpp"])

LRFAPP = dict(src="${X}_2dlrf/src/2dlrf/utils.cpp ${X}_2dlrf/src/2dlrf/ErrorTerm*.cpp $I/src/core/OptimizationProblem.cpp $I/src/core/IncrementalOptimizationProblem.cpp $I/src/statistics/NormalDistribution1v.cpp", flags="-I${X}_2dlrf/include -I${X}_2dlrf/src -Iaslam_tsvd_solver/include", stubs=["lrf", "app", "backend"], extra=SV + ["harness/lrf_app.cpp"])
plant("p47_incomplete_batch", "P47", X + "2dlrf/src/2dlrf/simulate-online-new.cpp", [("  for (size_t i = 0; i < steps; i += batchSize) {", "  for (size_t i = 0; i + batchSize <= steps; i += batchSize) {")], """// three states in batches of two
#include "lrf_app.cpp"
int main() {
  svChoices = {0, 2, 1, 1};
  svValues = {-1, 4, -2, 3, 0.5, 0.75, 0.25};
  sv_entry_simulation();
}
""", "plain", "a number of steps that is no multiple of the batch size", "the last, incomplete batch is never estimated", **LRFAPP)

LRFOFF = dict(LRFAPP, src=LRFAPP["src"] + " aslam_tsvd_solver/src/aslam-tsvd-solver.cc")
plant("p47_marginal_start", "P47", X + "2dlrf/src/2dlrf/simulate-offline.cpp", [("  const size_t dim = problem->getGroupDim(2);", "  const size_t dim = problem->getGroupDim(1);")], """#define OFFLINE
#include "lrf_app.cpp"
int main() {
  svChoices = {0, 0};
  svValues = {-1, 4, -2, 3, 0.5, 0.75, 0.25};
  sv_entry_simulation();
}
""", "plain", "landmarks whose coordinates are not as many as those of the calibration", "the covariance is that of the last landmarks' coordinates and the calibration together", **LRFOFF)


def simapp(d, more=""):
    return dict(src="${X}_%s/src/algo/splinesToFile.cpp ${X}_%s/src/algo/OptimizationProblemSpline.cpp $I/src/core/OptimizationProblem.cpp $I/src/core/IncrementalOptimizationProblem.cpp %s" % (d, d, more), flags='-I"$D/stubs_simapp" -I"$D/stubs_app" -I"$D/stubs_sim" -I"$D/stubs_calib" -I"$D/stubs_backend" -I${X}_%s/include -I${X}_%s/src' % (d, d), stubs=["simapp", "app", "sim", "calib", "backend"], extra=SV + ["harness/sim_app.cpp"])


plant("p48_first_orientation", "P48", X + "time_delay/src/algo/splinesToFile.cpp", [("rotSplines.at(std::distance(\n            transSplines.cbegin(), itSplines))", "rotSplines.front()")], """// two splines in a batch
#include "sim_app.cpp"
int main() {
  svChoices = {1, 0, 0};
  sv_entry_trajectories();
}
""", "plain", "a batch with more than one spline", "positions are written with orientations of another piece of the trajectory", **simapp("time_delay", "${X}_time_delay/src/simulation/SimulationData.cpp ${X}_time_delay/src/simulation/Trajectory.cpp"))

plant("p48_history_before_the_rest", "P48", X + "egomotion_sensors/src/simulation/simulator.cpp", [("""  if (calibrator.unprocessedMeasurements())
    calibrator.addMeasurements();

""", ""), ("""  auto infoGainHist = calibrator.getInformationGainHistory();
""", """  auto infoGainHist = calibrator.getInformationGainHistory();
  if (calibrator.unprocessedMeasurements())
    calibrator.addMeasurements();
""")], """// measurements left at the end
#define EGO
#include "sim_app.cpp"
int main() {
  svChoices = {0, 0, 0, 0, 0, 1, 0};
  sv_entry_simulation();
}
""", "plain", "measurements left when the simulation ends", "the estimate is written without the last measurements", **simapp("egomotion_sensors"))
