// what the harnesses of the camera calibrator and validator share: the target,
// the images and what the detector finds in them
#pragma once
#include "core_common.h"
#include <sstream>
#include <functional>
#include <string>
#include <sm/PropertyTree.hpp>
#include <sm/timing/NsecTimeUtilities.hpp>
#include <aslam/cameras.hpp>
#include <aslam/cameras/GridDetector.hpp>
#include <aslam/CameraGeometryDesignVariableContainer.hpp>
#include <aslam/ReprojectionError.hpp>
using namespace aslam;
using namespace aslam::cameras;
using Eigen::Vector2d;
using Eigen::Vector3d;
using Eigen::Vector4d;
using Eigen::Matrix3d;
using Eigen::Matrix4d;
using Eigen::VectorXd;
using Eigen::MatrixXd;
typedef GridCalibrationTargetCheckerboard Target;
typedef GridCalibrationTargetObservation Obs;
std::function<bool(const VectorXd&, VectorXd&)> CameraGeometryBase::project;
CameraGeometryBase* CameraGeometryBase::last;
std::function<Vector3d(size_t)> Target::corner;
Target* Target::last;
std::function<bool(const cv::Mat&)> GridDetector::initialize;
std::function<bool(const cv::Mat&, const Time&, Obs&)> GridDetector::find;
GridDetector* GridDetector::last;
CameraGeometryDesignVariableContainer* CameraGeometryDesignVariableContainer::last;
std::function<double(ReprojectionError&, Vector2d&)> ReprojectionError::evaluate;

// a quarter turn about one of the axes
static Matrix3d turn(int i) {
  Matrix3d m;
  if (i % 3 == 0) m << 0, -1, 0, 1, 0, 0, 0, 0, 1;
  else if (i % 3 == 1) m << 1, 0, 0, 0, 0, -1, 0, 1, 0;
  else m << 0, 0, 1, 0, 1, 0, -1, 0, 0;
  return m;
}
static Matrix4d rigid(const Matrix3d& C, const Vector3d& t) {
  Matrix4d m = Matrix4d::Identity();
  m.topLeftCorner<3, 3>() = C;
  m.topRightCorner<3, 1>() = t;
  return m;
}
static Vector3d vec(const char* n) {
  double x = sv_double(n), y = sv_double(n), z = sv_double(n);
  return Vector3d(x, y, z);
}
// what an image shows
struct Picture {
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  bool found;
  Matrix3d C;
  Vector3d t;
  std::vector<char> seen;
  std::vector<Vector2d, Eigen::aligned_allocator<Vector2d>> pixels;
  long ns;
};
static std::vector<Picture, Eigen::aligned_allocator<Picture>> pictures;
static std::vector<Vector3d, Eigen::aligned_allocator<Vector3d>> corners;
static int lookups;
static void scene(int n) {
  for (int i = 0; i < n; ++i) corners.push_back(vec("corner"));
  Target::corner = [](size_t i) { return corners.at(i); };
  GridDetector::find = [](const cv::Mat& m, const Time& t, Obs& o) {
    ++lookups;
    const Picture& p = pictures.at(m.id);
    sv_check_close(t.seconds, p.ns * 1e-9, "target-is-looked-up-at-the-time-of-the-image");
    if (!p.found) return false;
    o.pose = sm::kinematics::Transformation(rigid(p.C, p.t));
    o.seen = p.seen;
    o.pixels = p.pixels;
    o.picture = m;
    o.time = t;
    return true;
  };
}
static cv::Mat image(int id) {
  cv::Mat m;
  m.id = id;
  m.rows = 480;
  m.cols = 640;
  return m;
}
static bool same(const MatrixXd& a, const MatrixXd& b) {
  bool r = a.rows() == b.rows() && a.cols() == b.cols();
  for (int i = 0; r && i < a.rows(); ++i)
    for (int j = 0; r && j < a.cols(); ++j) r = a(i, j) == b(i, j);
  return r;
}
static void close(const MatrixXd& a, const MatrixXd& b, const char* id) {
  sv_check(a.rows() == b.rows() && a.cols() == b.cols(), id);
  if (a.rows() != b.rows() || a.cols() != b.cols()) return;
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j) sv_check_close(a(i, j), b(i, j), id);
}
