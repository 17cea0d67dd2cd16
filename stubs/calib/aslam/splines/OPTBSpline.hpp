#pragma once
#include "sv.h"
#include <aslam/backend/Expressions.hpp>
#include <sm/timing/NsecTimeUtilities.hpp>
#include <cmath>
#include <memory>
#include <vector>
namespace aslam { namespace splines {
struct ControlPoint : backend::DesignVariable {
  EIGEN_MAKE_ALIGNED_OPERATOR_NEW
  ControlPoint(int d) : dimension(d), v(Eigen::Vector3d::Zero()), p(v) {}
  int dimension;
  Eigen::Vector3d v, p;
  virtual int minimalDimensionsImplementation() const { return dimension; }
  virtual void updateImplementation(const double* d, int n) {
    p = v;
    for (int i = 0; i < n; ++i) v(i) += d[i];
  }
  virtual void revertUpdateImplementation() { v = p; }
  virtual void getParametersImplementation(Eigen::MatrixXd& m) const { m = v; }
  virtual void setParametersImplementation(const Eigen::MatrixXd& m) { v = m; }
};
inline size_t& controlPoints() { static size_t n = 2; return n; }
template <class C, bool rotation> struct Factory;
template <class C> struct Spline {
  typedef C Conf;
  typedef sm::timing::NsecTime Time;
  typedef Eigen::Matrix<double, C::size, 1> Point;
  Spline(const C& c) : conf(c), segments(-1), lambda(0), fitted(false) {
    for (size_t i = 0; i < controlPoints(); ++i) points.emplace_back(new ControlPoint(C::rotation ? 3 : 3));
  }
  size_t numDesignVariables() const { return points.size(); }
  ControlPoint* designVariable(size_t i) { return points.at(i).get(); }
  Time getMinTime() const { return times.front(); }
  Time getMaxTime() const { return times.back(); }
  double at(Time t) const { return constant ? 1 : std::atan((double)(t - getMinTime()) * 1e-9 + 2); }
  backend::DesignVariable::set_t dvs() const {
    backend::DesignVariable::set_t s;
    for (auto& p : points) s.insert(p.get());
    return s;
  }
  template <int N> Factory<C, C::rotation> getExpressionFactoryAt(Time t) {
    sv_check(fitted && getMinTime() <= t && t <= getMaxTime(), "spline-is-asked-within-its-range");
    return Factory<C, C::rotation>{this, N, [t] { return t; }, dvs()};
  }
  template <int N, class T> Factory<C, C::rotation> getExpressionFactoryAt(const backend::GenericScalarExpression<T>& e, Time lo, Time up) {
    auto f = e.f;
    Time t = f().getNumerator();
    sv_check(fitted && getMinTime() <= lo && lo <= t && t <= up && up <= getMaxTime(), "spline-is-asked-within-its-range");
    this->lo = lo;
    this->up = up;
    return Factory<C, C::rotation>{this, N, [f] { return (Time)f().getNumerator(); }, backend::both(e.dvs, dvs())};
  }
  // of the spline fitted: any vectors, and any matrix, varying with the time
  Eigen::Vector3d value(Time t, int k) const {
    if (k > 1) throw std::runtime_error("not a stand-in for higher derivatives");
    return (k ? c1 : c0) * at(t);
  }
  Eigen::Matrix3d rotation(Time t) const { return steady ? R : Eigen::Matrix3d(R * at(t)); }
  Eigen::Vector3d rate(Time t) const { return c1 * at(t); }
  C conf;
  std::vector<std::unique_ptr<ControlPoint>> points;
  std::vector<Time> times;
  std::vector<Point> fit;
  int segments;
  double lambda;
  bool fitted;
  Time lo, up;
  Eigen::Vector3d c0, c1;
  Eigen::Matrix3d R;
  bool constant, steady;
};
template <class C> struct Factory<C, false> {
  Spline<C>* s;
  int max;
  std::function<sm::timing::NsecTime()> t;
  backend::DesignVariable::set_t dvs;
  backend::VectorExpression<3> getValueExpression(int k = 0) const {
    sv_check(k <= max, "derivative-is-available");
    auto s = this->s;
    auto t = this->t;
    return backend::VectorExpression<3>([s, t, k] { return s->value(t(), k); }, dvs);
  }
};
template <class C> struct Factory<C, true> {
  Spline<C>* s;
  int max;
  std::function<sm::timing::NsecTime()> t;
  backend::DesignVariable::set_t dvs;
  backend::RotationVectorExpression getValueExpression() const {
    auto s = this->s;
    auto t = this->t;
    return backend::RotationVectorExpression([s, t] { return s->rotation(t()); }, dvs);
  }
  backend::VectorExpression<3> getAngularVelocityExpression() const {
    sv_check(1 <= max, "derivative-is-available");
    auto s = this->s;
    auto t = this->t;
    return backend::VectorExpression<3>([s, t] { return s->rate(t()); }, dvs);
  }
};
template <class C> struct OPTBSpline { typedef Spline<C> BSpline; };
}}
