#pragma once
#include <aslam/backend/ErrorTerm.hpp>
#include <aslam/backend/MEstimatorPolicies.hpp>
#include <aslam/backend/HomogeneousExpression.hpp>
#include <aslam/CameraGeometryDesignVariableContainer.hpp>
namespace aslam {
// measured minus predicted pixel of a point
class ReprojectionError : public backend::ErrorTermFs<2> {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  ReprojectionError(const Eigen::Vector2d& y, const Eigen::Matrix2d& r, const backend::HomogeneousExpression& p, CameraGeometryDesignVariableContainer* c) : measured(y), weight(r), point(p), camera(c) {
    backend::DesignVariable::set_t s;
    p.getDesignVariables(s);
    c->getDesignVariables(s);
    setDesignVariablesIterator(s.begin(), s.end());
  }
  void setMEstimatorPolicy(const boost::shared_ptr<backend::BlakeZissermanMEstimator>& m) { policy = m; }
  Eigen::Vector2d measured;
  Eigen::Matrix2d weight;
  backend::HomogeneousExpression point;
  CameraGeometryDesignVariableContainer* camera;
  boost::shared_ptr<backend::BlakeZissermanMEstimator> policy;
  // harness: the error and its weighted square
  static std::function<double(ReprojectionError&, Eigen::Vector2d&)> evaluate;
 protected:
  virtual double evaluateErrorImplementation() {
    Eigen::Vector2d e;
    double s = evaluate(*this, e);
    setError(e);
    return s;
  }
  virtual void evaluateJacobiansImplementation(backend::JacobianContainer&) {}
};
}
