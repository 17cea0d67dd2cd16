// Geodetic conversion and local frames of the car example.
#include "sv.h"
#include <cmath>
#include <sm/kinematics/Transformation.hpp>
#include <aslam/calibration/car/geo/geodetic.h>
using namespace aslam::calibration;
using sm::kinematics::Transformation;
static Eigen::Vector3d vec(const char* n) {
  Eigen::Vector3d v;
  for (int i = 0; i < 3; ++i) v(i) = sv_double(n);
  return v;
}
static const double A = 6378137, B = 6356752.314245;
SV_ENTRY(wgs84) {
  double lat = sv_double("latitude"), lon = sv_double("longitude"), h = sv_double("altitude"), g = sv_double("altitude");
  double x, y, z, u, v, w, o, p, q;
  wgs84ToEcef(lat, lon, h, x, y, z);
  wgs84ToEcef(lat, lon, 0, o, p, q);
  double sl = std::sin(lat), cl = std::cos(lat), so = std::sin(lon), co = std::cos(lon);
  // the normal of the ellipsoid at this latitude and longitude
  Eigen::Vector3d n(cl * co, cl * so, sl);
  sv_check_close(x - o, h * n(0), "altitude-is-along-the-normal");
  sv_check_close(y - p, h * n(1), "altitude-is-along-the-normal");
  sv_check_close(z - q, h * n(2), "altitude-is-along-the-normal");
  // the point without altitude lies on the ellipsoid, where its normal is n
  double e = (o * o + p * p) / A / A + q * q / B / B - 1;
  sv_check(e < 1e-10 && e > -1e-10, "point-without-altitude-lies-on-the-ellipsoid");
  // gradient (o/a^2, p/a^2, q/b^2) is parallel to n
  double f = (o * n(1) - p * n(0)) / A, k = (o / A * A / B * n(2) * B / A - q / B * A / B * n(0)), l = (p / A * A / B * n(2) * B / A - q / B * A / B * n(1));
  sv_check_close(f, 0, "normal-has-the-longitude");
  sv_check(k < 1e-10 && k > -1e-10 && l < 1e-10 && l > -1e-10, "normal-has-the-latitude");
  sv_check(o * n(0) + p * n(1) + q * n(2) > 0, "normal-points-outwards");
}
SV_ENTRY(wgs84_known) {
  double x, y, z;
  wgs84ToEcef(0, 0, 0, x, y, z);
  sv_check(std::fabs(x - A) < 1e-3 && std::fabs(y) < 1e-3 && std::fabs(z) < 1e-3, "origin-of-the-grid");
  wgs84ToEcef(M_PI / 2, 0, 0, x, y, z);
  sv_check(std::fabs(z - B) < 1e-3 && std::fabs(x) < 1e-3 && std::fabs(y) < 1e-3, "north-pole");
}
static void is(const Eigen::Vector3d& a, const Eigen::Vector3d& b, const char* id) {
  for (int i = 0; i < 3; ++i) sv_check_close(a(i), b(i), id);
}
template <class F, class G> static void frame(F to, G from, bool ned) {
  Eigen::Vector3d r = vec("reference"), p = vec("point");
  double lat = sv_double("latitude"), lon = sv_double("longitude");
  Transformation e = to(r(0), r(1), r(2), lat, lon), l = from(r(0), r(1), r(2), lat, lon);
  is(e * Eigen::Vector3d::Zero(), r, "local-origin-is-the-reference");
  is(l * r, Eigen::Vector3d::Zero(), "reference-is-the-local-origin");
  is(l * (e * p), p, "directions-are-inverses");
  is(e * (l * p), p, "directions-are-inverses");
  double sl = std::sin(lat), cl = std::cos(lat), so = std::sin(lon), co = std::cos(lon);
  Eigen::Vector3d up(cl * co, cl * so, sl), north(-sl * co, -sl * so, cl), east(-so, co, 0);
  Eigen::Matrix3d C = e.C();
  is(C.col(ned ? 1 : 0), east, "east-axis");
  is(C.col(ned ? 0 : 1), north, "north-axis");
  is(C.col(2), ned ? Eigen::Vector3d(-up) : up, "vertical-axis");
}
SV_ENTRY(frame_enu) { frame(enu2ecef, ecef2enu, false); }
SV_ENTRY(frame_ned) { frame(ned2ecef, ecef2ned, true); }
