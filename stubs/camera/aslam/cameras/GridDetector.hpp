#pragma once
#include <boost/shared_ptr.hpp>
#include <aslam/cameras.hpp>
#include <aslam/cameras/GridCalibrationTargetCheckerboard.hpp>
#include <aslam/cameras/GridCalibrationTargetObservation.hpp>
namespace aslam { namespace cameras {
class GridDetector {
 public:
  struct GridDetectorOptions {
    GridDetectorOptions() : plotCornerReprojection(false), imageStepping(false), filterCornerOutliers(false), filterCornerSigmaThreshold(2), filterCornerMinReprojError(0.2) {}
    bool plotCornerReprojection, imageStepping, filterCornerOutliers;
    double filterCornerSigmaThreshold, filterCornerMinReprojError;
  };
  GridDetector(boost::shared_ptr<CameraGeometryBase> g, boost::shared_ptr<GridCalibrationTargetCheckerboard> t, const GridDetectorOptions& o) : geometry(g), target(t), options(o) { last = this; }
  bool initCameraGeometryFromObservation(const cv::Mat& m) { return initialize(m); }
  bool findTarget(const cv::Mat& m, const Time& t, GridCalibrationTargetObservation& o) const { return find(m, t, o); }
  boost::shared_ptr<CameraGeometryBase> geometry;
  boost::shared_ptr<GridCalibrationTargetCheckerboard> target;
  GridDetectorOptions options;
  static std::function<bool(const cv::Mat&)> initialize;
  static std::function<bool(const cv::Mat&, const Time&, GridCalibrationTargetObservation&)> find;
  static GridDetector* last;
};
}}
