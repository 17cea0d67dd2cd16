#pragma once
#include "DesignVariable.hpp"
#include <aslam/backend/ScalarExpression.hpp>
namespace aslam { namespace backend {
class Scalar : public DesignVariable {
 public:
  Scalar(const double& v) : _v(v), _p(v) {}
  double toScalar() const { return _v; }
  using DesignVariable::getParameters;
  Eigen::MatrixXd getParameters() const { return Eigen::MatrixXd::Constant(1, 1, _v); }
  ScalarExpression toExpression() { return ScalarExpression(_v, this); }
 protected:
  virtual int minimalDimensionsImplementation() const { return 1; }
  virtual void updateImplementation(const double* dp, int n) {
    if (n != 1) throw std::runtime_error("wrong size");
    _p = _v;
    _v += dp[0];
  }
  virtual void revertUpdateImplementation() { _v = _p; }
  virtual void getParametersImplementation(Eigen::MatrixXd& v) const { v = getParameters(); }
  virtual void setParametersImplementation(const Eigen::MatrixXd& v) { _v = v(0, 0); }
 private:
  double _v, _p;
};
}}
