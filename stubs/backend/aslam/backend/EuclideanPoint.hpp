#pragma once
#include "DesignVariable.hpp"
#include <aslam/backend/EuclideanExpression.hpp>
namespace aslam { namespace backend {
class EuclideanPoint : public DesignVariable {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  EuclideanPoint(const Eigen::Vector3d& v) : _v(v), _p(v) {}
  Eigen::Vector3d toEuclidean() const { return _v; }
  void set(const Eigen::Vector3d& v) { _v = v; }
  using DesignVariable::getParameters;
  Eigen::MatrixXd getParameters() const { return _v; }
  EuclideanExpression toExpression() { return EuclideanExpression(_v, this); }
 protected:
  virtual int minimalDimensionsImplementation() const { return 3; }
  virtual void updateImplementation(const double* dp, int n) {
    if (n != 3) throw std::runtime_error("wrong size");
    _p = _v;
    for (int i = 0; i < 3; ++i) _v(i) += dp[i];
  }
  virtual void revertUpdateImplementation() { _v = _p; }
  virtual void getParametersImplementation(Eigen::MatrixXd& v) const { v = _v; }
  virtual void setParametersImplementation(const Eigen::MatrixXd& v) { _v = v; }
 private:
  Eigen::Vector3d _v, _p;
};
}}
