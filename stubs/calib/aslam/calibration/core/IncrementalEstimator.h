#pragma once
#include "sv.h"
#include <aslam/calibration/core/OptimizationProblem.h>
#include <boost/shared_ptr.hpp>
#include <functional>
#include <vector>
namespace sm { class PropertyTree; }
namespace aslam { namespace calibration {
// records the batches it is given
class IncrementalEstimator {
 public:
  typedef OptimizationProblem Batch;
  typedef boost::shared_ptr<Batch> BatchSP;
  struct ReturnValue {
    bool batchAccepted;
    double informationGain;
    Eigen::VectorXd singularValuesScaled;
    Eigen::MatrixXd obsBasisScaled;
  };
  IncrementalEstimator(const sm::PropertyTree&) {}
  ReturnValue addBatch(const BatchSP& b, bool force = false) {
    sv_check(!force, "batches-are-not-forced");
    batches.push_back(b);
    if (optimize) optimize();
    ReturnValue r;
    r.batchAccepted = sv_choose("accepted", 2);
    gains.push_back(r.informationGain = sv_double("gain"));
    return r;
  }
  Eigen::MatrixXd getSigma2Theta() const { return sigma2Theta; }
  std::vector<BatchSP> batches;
  std::vector<double> gains;
  std::function<void()> optimize;
  Eigen::MatrixXd sigma2Theta;
};
}}
