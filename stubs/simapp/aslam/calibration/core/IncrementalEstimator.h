#pragma once
#include <aslam/calibration/core/IncrementalOptimizationProblem.h>
#include <aslam/calibration/core/OptimizationProblem.h>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
namespace aslam { namespace calibration {
class IncrementalEstimator {
 public:
  typedef OptimizationProblem Batch;
  typedef boost::shared_ptr<Batch> BatchSP;
  IncrementalEstimator() : problem(boost::make_shared<IncrementalOptimizationProblem>()) {}
  const IncrementalOptimizationProblem* getProblem() const { return problem.get(); }
  size_t getNumBatches() const { return problem->getNumOptimizationProblems(); }
  boost::shared_ptr<IncrementalOptimizationProblem> problem;
};
}}
