// concrete variables, error terms and scripted optimization outcomes
#pragma once
#include <aslam/backend/Optimizer2.hpp>
#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/ErrorTerm.hpp>
#include <aslam/calibration/core/IncrementalEstimator.h>
#include <aslam/calibration/core/IncrementalOptimizationProblem.h>
#include <aslam/calibration/core/OptimizationProblem.h>
#include <sm/PropertyTree.hpp>
#include <boost/make_shared.hpp>
#include <cstdio>
#include <cstdlib>
#include <deque>
using namespace aslam::calibration;
#define EXPECT(c) do { if (!(c)) { std::printf("failed: %s (line %d)\n", #c, __LINE__); std::exit(1); } } while (0)
struct Dv : aslam::backend::DesignVariable {
  explicit Dv(int n, double v = 0) : d(n), value(v) { setActive(true); }
  int d;
  double value;
 protected:
  int minimalDimensionsImplementation() const { return d; }
  void updateImplementation(const double* dp, int) { value += dp[0]; }
  void revertUpdateImplementation() {}
  void getParametersImplementation(Eigen::MatrixXd& v) const { v = Eigen::MatrixXd::Constant(1, 1, value); }
  void setParametersImplementation(const Eigen::MatrixXd& v) { value = v(0, 0); }
};
struct Et : aslam::backend::ErrorTerm {
  explicit Et(int n) : aslam::backend::ErrorTerm(n) {}
  void use(const std::vector<aslam::backend::DesignVariable*>& v) { setDesignVariables(v); }
 protected:
  double evaluateErrorImplementation() { return 0; }
  void evaluateJacobiansImplementation(aslam::backend::JacobianContainer&) {}
};
typedef boost::shared_ptr<Dv> DvP;
typedef boost::shared_ptr<Et> EtP;
typedef boost::shared_ptr<OptimizationProblem> Batch;
inline DvP dv(int n, double v = 0) { return boost::make_shared<Dv>(n, v); }
inline EtP et(int n) { return boost::make_shared<Et>(n); }
template <class F> bool throws(F f) {
  try { f(); } catch (const std::exception&) { return true; }
  return false;
}
#ifdef WITH_ESTIMATOR
struct Outcome {
  long rank;
  double log2sum, j0, j1;
  int it;
  double scaledLog2sum;
};
static std::deque<Outcome> script;
static aslam::backend::SolutionReturnValue run(aslam::backend::Optimizer2& o, std::vector<aslam::backend::DesignVariable*>& dvs) {
  Outcome c = script.front();
  script.pop_front();
  auto* s = o.getSolver<aslam::backend::AslamTruncatedSvdSolver>();
  s->marginalResult.svdRank = c.rank;
  s->marginalResult.log2Sum = c.log2sum;
  s->solveResult = s->marginalResult;
  s->solveResult.log2Sum = c.scaledLog2sum;
  s->dx = Eigen::VectorXd::Zero(1);
  Eigen::VectorXd dx;
  s->solveSystem(dx);
  for (auto d : dvs) static_cast<Dv*>(d)->value += 1;
  aslam::backend::SolutionReturnValue r;
  r.iterations = c.it;
  r.JStart = c.j0;
  r.JFinal = c.j1;
  return r;
}
aslam::backend::SolutionReturnValue (*aslam::backend::Optimizer2::hook)(aslam::backend::Optimizer2&, std::vector<aslam::backend::DesignVariable*>&) = &run;
#endif
