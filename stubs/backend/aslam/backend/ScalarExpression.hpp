#pragma once
#include "DesignVariable.hpp"
#include "JacobianContainer.hpp"
namespace aslam { namespace backend {
// an expression of one design variable with the identity as its Jacobian
class ScalarExpression {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  ScalarExpression() : _dv(nullptr) {}
  ScalarExpression(const double& value, DesignVariable* dv) : _value(value), _dv(dv) {}
  double toScalar() const { return _value; }
  void getDesignVariables(DesignVariable::set_t& dvs) const { dvs.insert(_dv); }
  void evaluateJacobians(JacobianContainer& J, const Eigen::MatrixXd& chain) const {
    if (chain.cols() != 1 || chain.rows() != J.rows()) throw std::runtime_error("chain rule of the wrong size");
    J.add(_dv, chain);
  }
 private:
  double _value;
  DesignVariable* _dv;
};
}}
