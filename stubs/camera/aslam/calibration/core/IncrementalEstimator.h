#pragma once
#include "sv.h"
#include <aslam/calibration/core/OptimizationProblem.h>
#include <aslam/calibration/core/IncrementalOptimizationProblem.h>
#include <boost/shared_ptr.hpp>
#include <vector>
#include <sm/PropertyTree.hpp>
namespace aslam { namespace calibration {
// records the batches it is given and keeps some of them
class IncrementalEstimator {
 public:
  typedef OptimizationProblem Batch;
  typedef boost::shared_ptr<Batch> BatchSP;
  struct Options { double infoGainDelta; };
  struct LinearSolverOptions { double epsSVD; };
  struct ReturnValue {
    bool batchAccepted;
    double informationGain;
    Eigen::VectorXd singularValues, singularValuesScaled;
    Eigen::MatrixXd nobsBasis, nobsBasisScaled;
  };
  IncrementalEstimator() : mark(0) {}
  IncrementalEstimator(const sm::PropertyTree& c) : mark(c.getInt("mark", -1)) {}
  ReturnValue addBatch(const BatchSP& b, bool force = false) {
    sv_check(!force, "batches-are-not-forced");
    batches.push_back(b);
    ReturnValue r;
    r.batchAccepted = sv_choose("accepted", 2);
    accepted.push_back(r.batchAccepted);
    if (r.batchAccepted) problem.add(b);
    r.informationGain = 0;
    return r;
  }
  size_t getNumBatches() const { return problem.getNumOptimizationProblems(); }
  const IncrementalOptimizationProblem* getProblem() const { return &problem; }
  const Options& getOptions() const { return options; }
  const LinearSolverOptions& getLinearSolverOptions() const { return solverOptions; }
  double getInitialCost() const { return initialCost; }
  double getFinalCost() const { return finalCost; }
  const Eigen::MatrixXd& getSigma2Theta(bool scaled = false) const { return scaled ? sigma2ThetaScaled : sigma2Theta; }
  const Eigen::MatrixXd& getNobsBasis(bool scaled = false) const { return scaled ? nobsBasisScaled : nobsBasis; }
  const Eigen::VectorXd& getSingularValues(bool scaled = false) const { return scaled ? singularValuesScaled : singularValues; }
  // harness
  int mark;  // read from the configuration
  std::vector<BatchSP> batches;
  std::vector<char> accepted;
  IncrementalOptimizationProblem problem;
  Options options;
  LinearSolverOptions solverOptions;
  double initialCost, finalCost;
  Eigen::MatrixXd sigma2Theta, sigma2ThetaScaled, nobsBasis, nobsBasisScaled;
  Eigen::VectorXd singularValues, singularValuesScaled;
};
}}
