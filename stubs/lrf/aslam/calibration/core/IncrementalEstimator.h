#pragma once
#include "sv.h"
#include <aslam/backend/CompressedColumnMatrix.hpp>
#include <aslam/calibration/core/IncrementalOptimizationProblem.h>
#include <aslam/calibration/core/OptimizationProblem.h>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <functional>
#include <sm/PropertyTree.hpp>
namespace aslam { namespace calibration {
class IncrementalEstimator {
 public:
  typedef OptimizationProblem Batch;
  typedef boost::shared_ptr<Batch> BatchSP;
  typedef boost::shared_ptr<IncrementalOptimizationProblem> IncrementalOptimizationProblemSP;
  struct ReturnValue {
    bool batchAccepted;
    double informationGain = 0, qrTolerance = 0, svdTolerance = 0, elapsedTime = 0;
    std::ptrdiff_t rankPsi = 0, rankPsiDeficiency = 0, rankTheta = 0, rankThetaDeficiency = 0;
    Eigen::VectorXd singularValuesScaled;
    Eigen::MatrixXd nobsBasis, nobsBasisScaled, obsBasis, obsBasisScaled, sigma2Theta, sigma2ThetaObs;
  };
  IncrementalEstimator(const sm::PropertyTree& c) : problem(boost::make_shared<IncrementalOptimizationProblem>()) {
    if (made()) made()(c);
  }
  ReturnValue addBatch(const BatchSP& b, bool force = false) {
    sv_check(!force, "batches-are-not-forced");
    ReturnValue r;
    r.batchAccepted = added()(b);
    if (r.batchAccepted) problem->add(b);
    return r;
  }
  const IncrementalOptimizationProblem* getProblem() const { return problem.get(); }
  size_t getNumBatches() const { return problem->getNumOptimizationProblems(); }
  size_t getMargGroupId() const { return 2; }
  double getInformationGain() const { return 0; }
  std::ptrdiff_t getRankPsi() const { return 0; }
  std::ptrdiff_t getRankPsiDeficiency() const { return 0; }
  std::ptrdiff_t getRankTheta() const { return 0; }
  std::ptrdiff_t getRankThetaDeficiency() const { return 0; }
  double getQRTolerance() const { return 0; }
  double getSVDTolerance() const { return 0; }
  size_t getMemoryUsage() const { return 0; }
  size_t getPeakMemoryUsage() const { return 0; }
  Eigen::MatrixXd getNobsBasis(bool = false) const { return Eigen::MatrixXd::Zero(1, 1); }
  Eigen::MatrixXd getObsBasis(bool = false) const { return Eigen::MatrixXd::Zero(1, 1); }
  Eigen::MatrixXd getSigma2Theta() const { return Eigen::MatrixXd::Zero(1, 1); }
  Eigen::MatrixXd getSigma2ThetaObs() const { return Eigen::MatrixXd::Zero(1, 1); }
  const aslam::backend::CompressedColumnMatrix<std::ptrdiff_t>& getJacobianTranspose() const { return J; }
  // harness
  static std::function<void(const sm::PropertyTree&)>& made() { static std::function<void(const sm::PropertyTree&)> f; return f; }
  static std::function<bool(const BatchSP&)>& added() { static std::function<bool(const BatchSP&)> f; return f; }
  IncrementalOptimizationProblemSP problem;
  aslam::backend::CompressedColumnMatrix<std::ptrdiff_t> J;
};
}}
