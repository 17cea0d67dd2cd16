#pragma once
#include "quaternion_algebra.hpp"
namespace sm { namespace kinematics {
class Transformation {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  Transformation() : _C(Eigen::Matrix3d::Identity()), _t(Eigen::Vector3d::Zero()) {}
  Transformation(const Eigen::Vector4d& q, const Eigen::Vector3d& t) : _C(quat2r(q)), _t(t) {}
  Transformation(const Eigen::Matrix4d& T) : _C(T.topLeftCorner<3, 3>()), _t(T.topRightCorner<3, 1>()) { rotation(_C); }
  Eigen::Matrix3d C() const { return _C; }
  const Eigen::Vector3d& t() const { return _t; }
  Eigen::Vector4d q() const { return r2quat(_C); }
  Eigen::Matrix4d T() const {
    Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
    m.topLeftCorner<3, 3>() = _C;
    m.topRightCorner<3, 1>() = _t;
    return m;
  }
  Transformation inverse() const {
    Transformation r;
    r._C = _C.transpose();
    r._t = -(r._C * _t);
    return r;
  }
  Transformation operator*(const Transformation& o) const {
    Transformation r;
    r._C = _C * o._C;
    r._t = _C * o._t + _t;
    return r;
  }
  Eigen::Vector3d operator*(const Eigen::Vector3d& p) const { return _C * p + _t; }
 private:
  Eigen::Matrix3d _C;
  Eigen::Vector3d _t;
};
}}
