#pragma once
#include <Eigen/Core>
#include <functional>
namespace aslam { namespace cameras {
class GridCalibrationTargetCheckerboard {
 public:
  struct CheckerboardOptions {
    CheckerboardOptions() : useAdaptiveThreshold(true), performFastCheck(true), normalizeImage(true), filterQuads(false), doSubpixelRefinement(true), showExtractionVideo(false) {}
    bool useAdaptiveThreshold, performFastCheck, normalizeImage, filterQuads, doSubpixelRefinement, showExtractionVideo;
  };
  GridCalibrationTargetCheckerboard(size_t r, size_t c, double rm, double cm, const CheckerboardOptions& o) : rows(r), cols(c), rowMeters(rm), colMeters(cm), options(o) { last = this; }
  size_t size() const { return rows * cols; }
  Eigen::Vector3d point(size_t i) const { return corner(i); }
  size_t rows, cols;
  double rowMeters, colMeters;
  CheckerboardOptions options;
  static std::function<Eigen::Vector3d(size_t)> corner;
  static GridCalibrationTargetCheckerboard* last;
};
}}
