#pragma once
#include <Eigen/Dense>
#include <cmath>
namespace sm { namespace kinematics {
inline Eigen::Matrix3d quat2r(const Eigen::Vector4d& q) {
  const double a = q(0), b = q(1), c = q(2), n = q(3);
  Eigen::Matrix3d C;
  C << n * n + a * a - b * b - c * c, 2 * (a * b + n * c), 2 * (a * c - n * b),
    2 * (a * b - n * c), n * n - a * a + b * b - c * c, 2 * (b * c + n * a),
    2 * (a * c + n * b), 2 * (b * c - n * a), n * n - a * a - b * b + c * c;
  return C;
}
inline Eigen::Vector4d quatInv(const Eigen::Vector4d& q) { return Eigen::Vector4d(-q(0), -q(1), -q(2), q(3)); }
inline Eigen::Vector4d qplus(const Eigen::Vector4d& q, const Eigen::Vector4d& p) {
  return Eigen::Vector4d(q(3) * p(0) + q(2) * p(1) - q(1) * p(2) + q(0) * p(3),
    -q(2) * p(0) + q(3) * p(1) + q(0) * p(2) + q(1) * p(3),
    q(1) * p(0) - q(0) * p(1) + q(3) * p(2) + q(2) * p(3),
    -q(0) * p(0) - q(1) * p(1) - q(2) * p(2) + q(3) * p(3));
}
inline Eigen::Vector3d quatRotate(const Eigen::Vector4d& q, const Eigen::Vector3d& v) { return quat2r(q) * v; }
// a rotation that depends on v, of no particular angle
inline Eigen::Vector4d qexp(const Eigen::Vector3d& v) { return Eigen::Vector4d(v(0) / 2, v(1) / 2, v(2) / 2, 1); }
inline Eigen::Vector4d quatIdentity() { return Eigen::Vector4d(0, 0, 0, 1); }
}}
