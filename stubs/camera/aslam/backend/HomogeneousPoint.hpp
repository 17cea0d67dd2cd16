#pragma once
#include <aslam/backend/HomogeneousExpression.hpp>
namespace aslam { namespace backend {
class HomogeneousPoint : public DesignVariable {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  HomogeneousPoint(const Eigen::Vector4d& v) : p(v) {}
  const Eigen::Vector4d& toHomogeneous() const { return p; }
  HomogeneousExpression toExpression() {
    return HomogeneousExpression([this] { return p; }, {this});
  }
  Eigen::Vector4d p;
 protected:
  virtual int minimalDimensionsImplementation() const { return 3; }
  virtual void updateImplementation(const double*, int) {}
  virtual void revertUpdateImplementation() {}
  virtual void getParametersImplementation(Eigen::MatrixXd& v) const { v = p; }
  virtual void setParametersImplementation(const Eigen::MatrixXd& v) { p = v; }
};
}}
