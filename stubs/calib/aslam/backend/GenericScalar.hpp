#pragma once
#include <aslam/backend/Expressions.hpp>
namespace aslam { namespace backend {
template <typename S> class GenericScalar : public DesignVariable {
 public:
  GenericScalar(const S& v) : _v(v), _p(v) {}
  template <class T> explicit GenericScalar(T v) : _v(v), _p(v) {}
  S toScalar() const { return _v; }
  void set(const S& v) { _v = v; }
  GenericScalarExpression<S> toExpression() {
    auto p = this;
    return GenericScalarExpression<S>(std::function<S()>([p] { return p->_v; }), {this});
  }
  using DesignVariable::getParameters;
  Eigen::MatrixXd getParameters() const { return Eigen::MatrixXd::Constant(1, 1, (double)_v); }
 protected:
  virtual int minimalDimensionsImplementation() const { return 1; }
  virtual void updateImplementation(const double*, int) { throw std::runtime_error("not a stand-in for updates"); }
  virtual void revertUpdateImplementation() { _v = _p; }
  virtual void getParametersImplementation(Eigen::MatrixXd& v) const { v = getParameters(); }
  virtual void setParametersImplementation(const Eigen::MatrixXd&) { throw std::runtime_error("not a stand-in for updates"); }
 private:
  S _v, _p;
};
}}
