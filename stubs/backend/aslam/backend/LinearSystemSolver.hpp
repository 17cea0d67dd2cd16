#pragma once
#include "DesignVariable.hpp"
#include "ErrorTerm.hpp"
#include <string>
#include <vector>
namespace aslam { namespace backend {
class LinearSystemSolver {
 public:
  virtual ~LinearSystemSolver() {}
  void initMatrixStructure(const std::vector<DesignVariable*>& dvs, const std::vector<ErrorTerm*>& ets, bool useDiagonalConditioner) {
    size_t n = 0;
    for (auto e : ets) n += e->dimension();
    _e = Eigen::VectorXd::Zero(n);
    _errorTerms = ets;
    initMatrixStructureImplementation(dvs, ets, useDiagonalConditioner);
  }
  virtual void buildSystem(size_t numThreads, bool useMEstimator) = 0;
  virtual bool solveSystem(Eigen::VectorXd& outDx) = 0;
  virtual double rhsJtJrhs() = 0;
  virtual std::string name() const = 0;
  const Eigen::VectorXd& e() const { return _e; }
 protected:
  virtual void initMatrixStructureImplementation(const std::vector<DesignVariable*>&, const std::vector<ErrorTerm*>&, bool) = 0;
  Eigen::VectorXd _e, _rhs;
  std::vector<ErrorTerm*> _errorTerms;
};
}}
