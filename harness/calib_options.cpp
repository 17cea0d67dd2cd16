// The options of the calibrators of the examples, from a configuration.
#include "sv.h"
#include <cstring>
#include <functional>
#include <stdexcept>
#include <string>
#include <vector>
#include <sm/PropertyTree.hpp>
#if defined(CAR)
#include <aslam/calibration/car/algo/CarCalibratorOptions.h>
typedef aslam::calibration::CarCalibratorOptions Options;
#elif defined(EGO)
#include <aslam/calibration/egomotion/algo/CalibratorOptions.h>
typedef aslam::calibration::CalibratorOptions Options;
#else
#include <aslam/calibration/time-delay/algo/CalibratorOptions.h>
typedef aslam::calibration::CalibratorOptions Options;
#endif
static bool bitEqual(double a, double b) { return !std::memcmp(&a, &b, 8); }
static std::vector<std::function<void(sm::PropertyTree&)>> put;
static std::vector<std::function<bool(const Options&)>> holds;
static std::vector<std::string> keys;
static void number(const char* k, double Options::*m) {
  double v = sv_double("number");
  keys.push_back(k);
  put.push_back([=](sm::PropertyTree& t) { t.setDouble(k, v); });
  holds.push_back([=](const Options& o) { return bitEqual(o.*m, v); });
}
template <class T> static void integer(const char* k, T Options::*m, long lo, long hi) {
  long v = sv_int("integer", lo, hi);
  keys.push_back(k);
  put.push_back([=](sm::PropertyTree& t) { t.setInt(k, v); });
  holds.push_back([=](const Options& o) { return o.*m == v; });
}
static void flag(const char* k, bool Options::*m) {
  bool v = sv_choose("flag", 2);
  keys.push_back(k);
  put.push_back([=](sm::PropertyTree& t) { t.setBool(k, v); });
  holds.push_back([=](const Options& o) { return o.*m == v; });
}
SV_ENTRY(options) {
  const long lo = -2147483647L - 1, hi = 2147483647L;
  number("windowDuration", &Options::windowDuration);
  flag("verbose", &Options::verbose);
  number("splines/transSplineLambda", &Options::transSplineLambda);
  number("splines/rotSplineLambda", &Options::rotSplineLambda);
  integer("splines/splineKnotsPerSecond", &Options::splineKnotsPerSecond, lo, hi);
  integer("splines/transSplineOrder", &Options::transSplineOrder, lo, hi);
  integer("splines/rotSplineOrder", &Options::rotSplineOrder, lo, hi);
#ifdef CAR
#define S "odometry/sensors/"
  integer("odometry/timeDelays/delayBound", &Options::delayBound, lo, hi);
  flag("usePose", &Options::usePose);
  flag("useVelocities", &Options::useVelocities);
  number(S "linearVelocityTolerance", &Options::linearVelocityTolerance);
  number(S "dmi/noise/dmiPercentError", &Options::dmiPercentError);
  number(S "dmi/noise/dmiVariance", &Options::dmiVariance);
  number(S "fws/noise/flwPercentError", &Options::flwPercentError);
  number(S "fws/noise/flwVariance", &Options::flwVariance);
  number(S "fws/noise/frwPercentError", &Options::frwPercentError);
  number(S "fws/noise/frwVariance", &Options::frwVariance);
  number(S "rws/noise/rlwPercentError", &Options::rlwPercentError);
  number(S "rws/noise/rlwVariance", &Options::rlwVariance);
  number(S "rws/noise/rrwPercentError", &Options::rrwPercentError);
  number(S "rws/noise/rrwVariance", &Options::rrwVariance);
  number(S "st/noise/steeringVariance", &Options::steeringVariance);
  integer(S "wheelSpeedSensorCutoff", &Options::wheelSpeedSensorCutoff, 0, 65535);
#else
  integer("delayBound", &Options::delayBound, lo, hi);
#endif
#ifdef EGO
  integer("referenceSensor", &Options::referenceSensor, 0, hi);
#else
  number("odometry/constraints/noise/vyVariance", &Options::vyVariance);
  number("odometry/constraints/noise/vzVariance", &Options::vzVariance);
#ifndef CAR
  number("odometry/sensors/wss/noise/lwVariance", &Options::lwVariance);
  number("odometry/sensors/wss/noise/rwVariance", &Options::rwVariance);
#endif
#endif
  // at most one key is absent
  const size_t n = keys.size(), absent = sv_choose("absent", n + 1);
  sm::PropertyTree t;
  for (size_t i = 0; i < n; ++i)
    if (i != absent) put[i](t);
  // memory that was used before
  Options* o = static_cast<Options*>(::operator new(sizeof(Options)));
  bool refused = false;
  try {
    new (o) Options(t);
  } catch (const std::runtime_error&) {
    refused = true;
  }
  bool optional = absent == n || keys[absent] == "splines/transSplineOrder";
  sv_check(refused == !optional, "incomplete-configuration-is-refused");
  if (refused) return;
  for (size_t i = 0; i < n; ++i)
    if (i != absent) sv_check(holds[i](*o), "options-are-as-configured");
  if (absent < n) sv_check(o->transSplineOrder == Options().transSplineOrder, "absent-option-has-its-default");
}
