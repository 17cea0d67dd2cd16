#pragma once
#include <Eigen/Core>
#include <cmath>
namespace sm { namespace kinematics {
// the representative of an angle in [-pi, pi)
inline double angleMod(double a) { return a - 2 * M_PI * std::floor((a + M_PI) / (2 * M_PI)); }
inline Eigen::Matrix3d crossMx(double x, double y, double z) {
  Eigen::Matrix3d m;
  m << 0, -z, y, z, 0, -x, -y, x, 0;
  return m;
}
inline Eigen::Matrix3d crossMx(const Eigen::Vector3d& v) { return crossMx(v(0), v(1), v(2)); }
}}
