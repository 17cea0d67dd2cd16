#pragma once
#include "DesignVariable.hpp"
#include <sm/kinematics/quaternion_algebra.hpp>
namespace aslam { namespace backend {
class RotationQuaternion : public DesignVariable {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  RotationQuaternion(const Eigen::Matrix3d& C) : _q(sm::kinematics::r2quat(C)) {}
  RotationQuaternion(const Eigen::Vector4d& q) : _q(q) {}
  const Eigen::Vector4d& getQuaternion() const { return _q; }
  Eigen::Matrix3d toRotationMatrix() const { return sm::kinematics::quat2r(_q); }
  void set(const Eigen::Vector4d& q) { _q = q; }
 protected:
  virtual int minimalDimensionsImplementation() const { return 3; }
  virtual void updateImplementation(const double*, int) { throw std::runtime_error("not a stand-in for updates"); }
  virtual void revertUpdateImplementation() {}
  virtual void getParametersImplementation(Eigen::MatrixXd& v) const { v = _q; }
  virtual void setParametersImplementation(const Eigen::MatrixXd& v) { _q = v; }
 private:
  Eigen::Vector4d _q;
};
}}
