// Shared by the simulators: the motion along a sine wave and its integration,
// written out with rotation matrices.
#pragma once
#include "sv.h"
#include <cmath>
#include <cstdlib>
#include <functional>
#include <limits>
#include <map>
#include <sstream>
#include <stdexcept>
#include <string>
#include <sys/time.h>
#include <unordered_map>
#include <utility>
#include <vector>
#include <boost/make_shared.hpp>
#include <sm/PropertyTree.hpp>
#include <sm/kinematics/EulerAnglesYawPitchRoll.hpp>
#include <sm/kinematics/Transformation.hpp>
#include <sm/kinematics/transformations.hpp>
#include <sm/timing/NsecTimeUtilities.hpp>
#include <aslam/calibration/exceptions/BadArgumentException.h>
#include <aslam/calibration/statistics/NormalDistribution.h>
using namespace sm::kinematics;
using namespace sm::timing;
using Eigen::Matrix3d;
using Eigen::Vector2d;
using Eigen::Vector3d;
using Eigen::Vector4d;
// all samples of a normal distribution are the same
extern "C" long random() { return 1503238553; }
extern "C" void srandom(unsigned) {}
extern "C" int gettimeofday(struct timeval* t, void*) {
  t->tv_sec = 1000;
  t->tv_usec = 5;
  return 0;
}
static double standardNormal() { return aslam::calibration::NormalDistribution<1>(0, 1).getSample(); }
template <class M> static void close(const M& a, const M& b, const char* id) {
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j) sv_check_close(a(i, j), b(i, j), id);
}
static Vector3d vec(const char* n) {
  double x = sv_double(n), y = sv_double(n), z = sv_double(n);
  return Vector3d(x, y, z);
}
static Vector4d quat(const char* n) {
  double x = sv_double(n), y = sv_double(n), z = sv_double(n), w = sv_double(n);
  return Vector4d(x, y, z, w);
}
// some rotations that do not commute
static Vector4d turned(int i) {
  static const double q[6][4] = {{0, 0, 0, 1}, {0.5, 0.5, 0.5, 0.5}, {0, 1, 0, 0}, {0.5, -0.5, 0.5, 0.5}, {0.5, 0.5, -0.5, 0.5}, {0, 0, 1, 0}};
  return Vector4d(q[i % 6][0], q[i % 6][1], q[i % 6][2], q[i % 6][3]);
}
struct Pose { Matrix3d C; Vector3d t; };
// the rotation by the angular rate during dt
static Matrix3d rotated(const Vector3d& om, double dt) {
  const double n2 = om.dot(om);
  if (n2 == 0) return Matrix3d::Identity();
  const double n = std::sqrt(n2);
  const double s = std::sin(n / 2.0 * dt), c = std::cos(n / 2.0 * dt);
  const Vector3d e = om / n * s;
  // Rodrigues' formula for twice the half angle, times c^2 + |e|^2 = 1
  Matrix3d x;
  x << 0, -e(2), e(1), e(2), 0, -e(0), -e(1), e(0), 0;
  return (c * c - e.dot(e)) * Matrix3d::Identity() + 2 * e * e.transpose() + 2 * c * x;
}
static Pose moved(const Pose& p, const Vector3d& v, const Vector3d& om, double dt) {
  Pose r;
  r.C = p.C * rotated(om, dt);
  r.t = p.t + p.C * v * dt;
  return r;
}
// a rate is nothing, or more than rounding
static void assumeRate(const Vector3d& om) {
  const double n2 = om.dot(om);
  sv_assume(n2 == 0 || n2 > 1e-30);
}
struct Sine {
  Sine(double A, double f) : A(A), f(f) {}
  double A, f;
  double heading(double t) const { return std::atan(2 * M_PI * f * A * std::cos(2 * M_PI * f * t)); }
  Vector2d at(double t) const { return Vector2d(t, A * std::sin(2 * M_PI * f * t)); }
};
// forward velocity and turning rate that lead along r with headings phi
static Vector2d along(double phi, double phiBefore, const Vector2d& r, const Vector2d& rBefore, double dt) {
  const Vector2d v = (r - rBefore) / dt;
  return Vector2d(std::cos(phi) * v(0) + std::sin(phi) * v(1), (phi - phiBefore) / dt);
}
