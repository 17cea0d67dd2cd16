#pragma once
#include <aslam/backend/ErrorTerm.hpp>
#include <aslam/backend/Expressions.hpp>
#include <sm/kinematics/Transformation.hpp>
namespace aslam { namespace backend {
// some measure of the difference of two transformations
class ErrorTermTransformation : public ErrorTermFs<6> {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  ErrorTermTransformation(TransformationExpression T, sm::kinematics::Transformation m, const Eigen::Matrix<double, 6, 6>& c) : predicted(T), measured(m), covariance(c) {
    DesignVariable::set_t dvs;
    T.getDesignVariables(dvs);
    setDesignVariablesIterator(dvs.begin(), dvs.end());
  }
  TransformationExpression predicted;
  sm::kinematics::Transformation measured;
  Eigen::Matrix<double, 6, 6> covariance;
 protected:
  virtual double evaluateErrorImplementation() {
    Eigen::Matrix4d T = predicted.toTransformationMatrix(), M = measured.T();
    error_t e;
    e << T(0, 3) - M(0, 3), T(1, 3) - M(1, 3), T(2, 3) - M(2, 3), T(1, 0) - M(1, 0), T(2, 0) - M(2, 0), T(2, 1) - M(2, 1);
    setError(e);
    return e(0) * e(0) / covariance(0, 0) + e(5) * e(5) / covariance(5, 5);
  }
  virtual void evaluateJacobiansImplementation(JacobianContainer&) { throw std::runtime_error("the stand-in has no Jacobians"); }
};
}}
