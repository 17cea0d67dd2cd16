#pragma once
#include_next <sm/kinematics/rotations.hpp>
namespace sm { namespace kinematics {
inline double deg2rad(double a) { return a * M_PI / 180; }
}}
