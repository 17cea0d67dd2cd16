#pragma once
#include "quaternion_algebra.hpp"
#include <stdexcept>
namespace sm { namespace kinematics {
class Transformation {
 public:
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  Transformation() : _q(quatIdentity()), _C(quat2r(_q)), _t(Eigen::Vector3d::Zero()), _named(true) {}
  Transformation(const Eigen::Vector4d& q, const Eigen::Vector3d& t) : _q(q), _C(quat2r(q)), _t(t), _named(true) {}
  Transformation(const Eigen::Matrix4d& T) : _q(quatIdentity()), _C(T.topLeftCorner<3, 3>()), _t(T.topRightCorner<3, 1>()), _named(false) {}
  const Eigen::Matrix3d& C() const { return _C; }
  const Eigen::Vector3d& t() const { return _t; }
  const Eigen::Vector4d& q() const {
    if (!_named) throw std::runtime_error("not a stand-in for quaternions of matrices");
    return _q;
  }
  Eigen::Matrix4d T() const {
    Eigen::Matrix4d m = Eigen::Matrix4d::Identity();
    m.topLeftCorner<3, 3>() = _C;
    m.topRightCorner<3, 1>() = _t;
    return m;
  }
  Transformation inverse() const {
    Transformation r(quatInv(q()), Eigen::Vector3d::Zero());
    r._t = -(r._C * _t);
    return r;
  }
  Transformation operator*(const Transformation& o) const { return Transformation(qplus(q(), o.q()), _C * o._t + _t); }
  Eigen::Vector3d operator*(const Eigen::Vector3d& p) const { return _C * p + _t; }
 private:
  Eigen::Vector4d _q;
  Eigen::Matrix3d _C;
  Eigen::Vector3d _t;
  bool _named;
};
}}
