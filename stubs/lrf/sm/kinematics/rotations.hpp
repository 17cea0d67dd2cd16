// angleMod() is some function: what it does is none of the programs' business
#pragma once
#define angleMod angle_mod_of_the_others
#include_next <sm/kinematics/rotations.hpp>
#undef angleMod
namespace sm { namespace kinematics {
inline double angleMod(double a) { return std::cbrt(a); }
}}
