#pragma once
#include <Eigen/Core>
#include <set>
#include <stdexcept>
#include <boost/shared_ptr.hpp>
namespace aslam { namespace backend {
class DesignVariable {
 public:
  typedef std::set<DesignVariable*> set_t;
  DesignVariable() : _blockIndex(-1), _columnBase(-1), _isMarginalized(false), _isActive(false), _scaling(1.0) {}
  virtual ~DesignVariable() {}
  int minimalDimensions() const { return minimalDimensionsImplementation(); }
  void update(const double* dp, int size) { updateImplementation(dp, size); }
  void revertUpdate() { revertUpdateImplementation(); }
  int blockIndex() const { return _blockIndex; }
  void setBlockIndex(int i) { _blockIndex = i; }
  int columnBase() const { return _columnBase; }
  void setColumnBase(int i) { _columnBase = i; }
  bool isMarginalized() const { return _isMarginalized; }
  void setMarginalized(bool m) { _isMarginalized = m; }
  bool isActive() const { return _isActive; }
  void setActive(bool a) { _isActive = a; }
  double scaling() const { return _scaling; }
  void setScaling(double s) { _scaling = s; }
  void getParameters(Eigen::MatrixXd& value) const { getParametersImplementation(value); }
  void setParameters(const Eigen::MatrixXd& value) { setParametersImplementation(value); }
  void minimalDifference(const Eigen::MatrixXd& xHat, Eigen::VectorXd& d) const { minimalDifferenceImplementation(xHat, d); }
 protected:
  virtual int minimalDimensionsImplementation() const = 0;
  virtual void updateImplementation(const double* dp, int size) = 0;
  virtual void revertUpdateImplementation() = 0;
  virtual void getParametersImplementation(Eigen::MatrixXd& value) const = 0;
  virtual void setParametersImplementation(const Eigen::MatrixXd& value) = 0;
  virtual void minimalDifferenceImplementation(const Eigen::MatrixXd&, Eigen::VectorXd&) const { throw std::runtime_error("not implemented"); }
 private:
  int _blockIndex, _columnBase;
  bool _isMarginalized, _isActive;
  double _scaling;
};
}}
