#pragma once
#include "LinearSystemSolver.hpp"
#include "GaussNewtonTrustRegionPolicy.hpp"
#include "OptimizationProblemBase.hpp"
#include "Optimizer2Options.hpp"
#include <boost/make_shared.hpp>
#include <sm/PropertyTree.hpp>
namespace aslam { namespace backend {
// optimize() lays the system out as the real optimizer does and then lets the
// hook decide every outcome (new parameter values, costs, iterations)
class Optimizer2 {
 public:
  typedef Optimizer2Options Options;
  Optimizer2(const Options& o = Options()) : _options(o) {}
  Optimizer2(const sm::PropertyTree& c, boost::shared_ptr<LinearSystemSolver> s, boost::shared_ptr<TrustRegionPolicy> t) : _solver(s), _policy(t) {
    _options.maxIterations = c.getInt("maxIterations", _options.maxIterations);
    _options.convergenceDeltaJ = c.getDouble("convergenceDeltaJ", _options.convergenceDeltaJ);
    _options.convergenceDeltaX = c.getDouble("convergenceDeltaX", _options.convergenceDeltaX);
    _options.numThreadsJacobian = c.getInt("numThreadsJacobian", _options.numThreadsJacobian);
    _options.linearSystemSolver = s;
    _options.trustRegionPolicy = t;
  }
  virtual ~Optimizer2() {}
  Options& options() { return _options; }
  const Options& options() const { return _options; }
  void initializeLinearSolver() { _solver = _options.linearSystemSolver; }
  void initializeTrustRegionPolicy() { _policy = _options.trustRegionPolicy; }
  void setProblem(boost::shared_ptr<OptimizationProblemBase> p) { _problem = p; }
  template <class T> T* getSolver() { return dynamic_cast<T*>(_solver.get()); }
  template <class T> const T* getSolver() const { return dynamic_cast<const T*>(_solver.get()); }
  SolutionReturnValue optimize() {
    std::vector<DesignVariable*> dvs;
    int cols = 0;
    for (size_t i = 0; i < _problem->numDesignVariables(); ++i) {
      DesignVariable* d = _problem->designVariable(i);
      if (!d->isActive()) {
        d->setBlockIndex(-1);
        continue;
      }
      d->setBlockIndex(dvs.size());
      d->setColumnBase(cols);
      cols += d->minimalDimensions();
      dvs.push_back(d);
    }
    std::vector<ErrorTerm*> ets;
    size_t rows = 0;
    for (size_t i = 0; i < _problem->numErrorTerms(); ++i) {
      ErrorTerm* e = _problem->errorTerm(i);
      e->setRowBase(rows);
      rows += e->dimension();
      ets.push_back(e);
    }
    _solver->initMatrixStructure(dvs, ets, false);
    _solver->buildSystem(_options.numThreadsJacobian, true);
    return hook(*this, dvs);
  }
  OptimizationProblemBase* problem() { return _problem.get(); }
  LinearSystemSolver* solver() { return _solver.get(); }
  static SolutionReturnValue (*hook)(Optimizer2&, std::vector<DesignVariable*>&);
 private:
  Options _options;
  boost::shared_ptr<LinearSystemSolver> _solver;
  boost::shared_ptr<TrustRegionPolicy> _policy;
  boost::shared_ptr<OptimizationProblemBase> _problem;
};
}}
