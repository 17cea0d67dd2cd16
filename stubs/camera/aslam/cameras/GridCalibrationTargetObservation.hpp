#pragma once
#include <Eigen/Core>
#include <vector>
#include <opencv2/core/core.hpp>
#include <sm/kinematics/Transformation.hpp>
#include <aslam/Time.hpp>
namespace aslam { namespace cameras {
class GridCalibrationTargetObservation {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  const sm::kinematics::Transformation& T_t_c() { return pose; }
  bool imagePoint(size_t i, Eigen::Vector2d& p) const {
    if (i >= seen.size() || !seen[i]) return false;
    p = pixels[i];
    return true;
  }
  const cv::Mat& image() const { return picture; }
  // harness
  sm::kinematics::Transformation pose;
  std::vector<char> seen;
  std::vector<Eigen::Vector2d, Eigen::aligned_allocator<Eigen::Vector2d>> pixels;
  cv::Mat picture;
  Time time;
};
}}
