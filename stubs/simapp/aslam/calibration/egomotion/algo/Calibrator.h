#pragma once
#include <aslam/calibration/egomotion/data/MotionMeasurement.h>
#include <recorder.h>
#include <unordered_map>
namespace aslam { namespace calibration {
class Calibrator {
 public:
  typedef boost::shared_ptr<IncrementalEstimator> IncrementalEstimatorSP;
  Calibrator(const sm::PropertyTree& c) { Recorder::one().make(c); }
  Calibrator(const Calibrator&) = delete;
  const IncrementalEstimatorSP getEstimator() const { return Recorder::one().final(), Recorder::one().estimator; }
  const std::vector<double>& getInformationGainHistory() const { return Recorder::one().final(), Recorder::one().gains; }
  const std::unordered_map<size_t, std::vector<Eigen::VectorXd> >& getDesignVariablesHistory() const {
    Recorder::one().final();
    static std::unordered_map<size_t, std::vector<Eigen::VectorXd> > m;
    m[1] = Recorder::one().calibrations[0];
    m[4] = Recorder::one().calibrations[1];
    return m;
  }
  bool unprocessedMeasurements() const { return Recorder::one().left; }
  void addMeasurements() { Recorder::one().add(); }
  void addMotionMeasurement(const MotionMeasurement& m, sm::timing::NsecTime t, size_t sensor) {
    std::vector<double> v;
    for (int i = 0; i < 3; ++i) v.push_back(m.motion.t()(i));
    for (int i = 0; i < 4; ++i) v.push_back(m.motion.q()(i));
    for (int i = 0; i < 6; ++i) v.push_back(m.sigma2(i, i));
    v.push_back(m.duration);
    Recorder::one().happened(sensor, t, v);
  }
};
}}
