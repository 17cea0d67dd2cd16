#pragma once
#include "sv.h"
#include <Eigen/Core>
#include <aslam/calibration/core/IncrementalEstimator.h>
#include <functional>
#include <sm/PropertyTree.hpp>
#include <sm/timing/NsecTimeUtilities.hpp>
#include <vector>
// what a program has done with its calibrator
struct Recorder {
  struct Event {
    size_t sensor;
    sm::timing::NsecTime time;
    std::vector<double> v;
  };
  std::vector<Event> events;
  bool made = false, left = false;
  size_t added = 0;
  boost::shared_ptr<aslam::calibration::IncrementalEstimator> estimator;
  std::vector<double> gains;
  std::vector<Eigen::VectorXd> calibrations[2];
  void make(const sm::PropertyTree& c) {
    sv_check(!made && c.getString("which", "") == "the calibrator's part", "calibrator-is-configured-by-its-part-of-the-configuration");
    made = true;
  }
  void add() {
    ++added;
    left = false;
  }
  void final() { sv_check(!left, "results-are-final"); }
  void happened(size_t sensor, sm::timing::NsecTime t, const std::vector<double>& v) {
    sv_check(added == 0, "results-are-final");
    events.push_back(Event{sensor, t, v});
  }
  static Recorder& one() { static Recorder r; return r; }
};
