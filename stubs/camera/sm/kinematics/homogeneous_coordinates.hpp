#pragma once
#include <Eigen/Core>
namespace sm { namespace kinematics {
inline Eigen::Vector4d toHomogeneous(const Eigen::Vector3d& v) { return Eigen::Vector4d(v(0), v(1), v(2), 1); }
}}
