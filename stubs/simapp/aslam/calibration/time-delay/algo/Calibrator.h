#pragma once
#include <aslam/calibration/time-delay/data/PoseMeasurement.h>
#include <aslam/calibration/time-delay/data/WheelSpeedMeasurement.h>
#include <recorder.h>
namespace aslam { namespace calibration {
class Calibrator {
 public:
  typedef boost::shared_ptr<IncrementalEstimator> IncrementalEstimatorSP;
  Calibrator(const sm::PropertyTree& c) { Recorder::one().make(c); }
  Calibrator(const Calibrator&) = delete;
  const IncrementalEstimatorSP getEstimator() const { return Recorder::one().final(), Recorder::one().estimator; }
  const std::vector<double> getInformationGainHistory() const { return Recorder::one().final(), Recorder::one().gains; }
  const std::vector<Eigen::VectorXd> getOdometryVariablesHistory() const { return Recorder::one().final(), Recorder::one().calibrations[0]; }
  bool unprocessedMeasurements() const { return Recorder::one().left; }
  void addMeasurements() { Recorder::one().add(); }
  void addLeftWheelMeasurement(const WheelSpeedMeasurement& d, sm::timing::NsecTime t) { Recorder::one().happened(0, t, {d.value}); }
  void addRightWheelMeasurement(const WheelSpeedMeasurement& d, sm::timing::NsecTime t) { Recorder::one().happened(1, t, {d.value}); }
  void addPoseMeasurement(const PoseMeasurement& p, sm::timing::NsecTime t) {
    std::vector<double> v;
    for (int i = 0; i < 3; ++i) v.push_back(p.w_r_wp(i));
    for (int i = 0; i < 3; ++i) v.push_back(p.w_R_p(i));
    for (int i = 0; i < 3; ++i) v.push_back(p.sigma2_w_r_wp(i, i));
    for (int i = 0; i < 3; ++i) v.push_back(p.sigma2_w_R_p(i, i));
    Recorder::one().happened(2, t, v);
  }
};
}}
