#pragma once
#include "DesignVariable.hpp"
#include "JacobianContainer.hpp"
#include <Eigen/Dense>
#include <algorithm>
#include <string>
#include <vector>
namespace aslam { namespace backend {
class MEstimator;
class ErrorTerm {
 public:
  ErrorTerm(int dim) : _dim(dim), _rowBase(-1), _squaredError(0) {}
  virtual ~ErrorTerm() {}
  double evaluateError() { return _squaredError = evaluateErrorImplementation(); }
  double getRawSquaredError() const { return _squaredError; }
  double getWeightedSquaredError() const { return _squaredError; }
  double getSquaredError() const { return _squaredError; }
  void evaluateJacobians(JacobianContainer& J) { evaluateJacobiansImplementation(J); }
  size_t dimension() const { return _dim; }
  size_t rowBase() const { return _rowBase; }
  void setRowBase(size_t r) { _rowBase = r; }
  size_t numDesignVariables() const { return _dvs.size(); }
  DesignVariable* designVariable(size_t i) { return _dvs.at(i); }
  const DesignVariable* designVariable(size_t i) const { return _dvs.at(i); }
  const std::vector<DesignVariable*>& designVariables() const { return _dvs; }
  template <class P> void setMEstimatorPolicy(const P&) {}
 protected:
  virtual double evaluateErrorImplementation() = 0;
  virtual void evaluateJacobiansImplementation(JacobianContainer& J) = 0;
  void setDesignVariables(const std::vector<DesignVariable*>& v) { _dvs = v; }
  void setDesignVariables(DesignVariable* a) { _dvs.clear(); add(a); }
  void setDesignVariables(DesignVariable* a, DesignVariable* b) { setDesignVariables(a); add(b); }
  void setDesignVariables(DesignVariable* a, DesignVariable* b, DesignVariable* c) { setDesignVariables(a, b); add(c); }
  void setDesignVariables(DesignVariable* a, DesignVariable* b, DesignVariable* c, DesignVariable* d) { setDesignVariables(a, b, c); add(d); }
  template <class It> void setDesignVariablesIterator(It b, It e) {
    _dvs.clear();
    for (; b != e; ++b) add(*b);
  }
 private:
  void add(DesignVariable* d) { _dvs.push_back(d); }
  std::vector<DesignVariable*> _dvs;
  size_t _dim, _rowBase;
  double _squaredError;
};
template <int C> class ErrorTermFs : public ErrorTerm {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  enum { Dimension = C };
  typedef Eigen::Matrix<double, C, 1> error_t;
  typedef Eigen::Matrix<double, C, C> inverse_covariance_t;
  ErrorTermFs() : ErrorTerm(C), _error(error_t::Zero()), _invR(inverse_covariance_t::Identity()) {}
  virtual ~ErrorTermFs() {}
  const error_t& error() const { return _error; }
  const error_t& vsError() const { return _error; }
  inverse_covariance_t invR() const { return _invR; }
  inverse_covariance_t vsInvR() const { return _invR; }
  template <class D> void setInvR(const Eigen::MatrixBase<D>& m) { _invR = m; }
  template <class D> void setSqrtInvR(const Eigen::MatrixBase<D>& m) { _invR = m * m.transpose(); }
 protected:
  template <class D> void setError(const Eigen::MatrixBase<D>& e) { _error = e; }
  double evaluateChiSquaredError() const { return _error.dot(_invR * _error); }
 private:
  error_t _error;
  inverse_covariance_t _invR;
};
class ScalarNonSquaredErrorTerm {};
}}
