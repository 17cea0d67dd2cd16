#pragma once
#include "DesignVariable.hpp"
#include "JacobianContainer.hpp"
namespace aslam { namespace backend {
// an expression of one design variable with the identity as its Jacobian
class EuclideanExpression {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  EuclideanExpression() : _dv(nullptr) {}
  EuclideanExpression(const Eigen::Vector3d& value, DesignVariable* dv) : _value(value), _dv(dv) {}
  Eigen::Vector3d toValue() const { return _value; }
  void getDesignVariables(DesignVariable::set_t& dvs) const { dvs.insert(_dv); }
  void evaluateJacobians(JacobianContainer& J, const Eigen::MatrixXd& chain) const {
    if (chain.cols() != 3 || chain.rows() != J.rows()) throw std::runtime_error("chain rule of the wrong size");
    J.add(_dv, chain);
  }
 private:
  Eigen::Vector3d _value;
  DesignVariable* _dv;
};
}}
