#pragma once
#include <boost/shared_ptr.hpp>
#include <iostream>
namespace aslam { namespace backend {
class LinearSystemSolver;
class TrustRegionPolicy;
struct Optimizer2Options {
  double convergenceDeltaJ = 1e-3, convergenceDeltaX = 1e-3, convergenceDeltaError = 1e-3;
  int maxIterations = 20;
  bool doSchurComplement = false, verbose = false;
  int nThreads = 4, numThreadsError = 4, numThreadsJacobian = 4;
  boost::shared_ptr<LinearSystemSolver> linearSystemSolver;
  boost::shared_ptr<TrustRegionPolicy> trustRegionPolicy;
};
struct SolutionReturnValue {
  double JStart = 0, JFinal = 0;
  int iterations = 0, failedIterations = 0;
  double lmLambdaFinal = 0, dXFinal = 0, dJFinal = 0;
  bool linearSolverFailure = false;
};
}}
