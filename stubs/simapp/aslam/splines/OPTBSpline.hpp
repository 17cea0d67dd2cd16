#pragma once
#include "sv.h"
#include <aslam/backend/DesignVariable.hpp>
#include <map>
#include <memory>
#include <sm/timing/NsecTimeUtilities.hpp>
#include <vector>
namespace aslam { namespace splines {
struct ControlPoint : backend::DesignVariable {
  double v, p;
  virtual int minimalDimensionsImplementation() const { return 1; }
  virtual void updateImplementation(const double* d, int) { p = v; v += *d; }
  virtual void revertUpdateImplementation() { v = p; }
  virtual void getParametersImplementation(Eigen::MatrixXd& m) const { m.resize(1, 1); m(0, 0) = v; }
  virtual void setParametersImplementation(const Eigen::MatrixXd& m) { v = m(0, 0); }
};
// any value at each time
template <class P> struct Values {
  const P& at(sm::timing::NsecTime t) const {
    for (auto& x : v)
      if (x->first == t) return x->second;
    P p;
    for (int i = 0; i < p.size(); ++i) p(i) = sv_double("value");
    v.emplace_back(new std::pair<sm::timing::NsecTime, P>(t, p));
    return v.back()->second;
  }
  mutable std::vector<std::unique_ptr<std::pair<sm::timing::NsecTime, P> > > v;
};
template <class C> struct Spline {
  typedef C Conf;
  typedef sm::timing::NsecTime Time;
  typedef Eigen::Matrix<double, C::size, 1> Point;
  Spline(Time a, Time b) : lo(a), up(b) {}
  size_t numDesignVariables() const { return 1; }
  ControlPoint* designVariable(size_t) { return &point; }
  Time getMinTime() const { return lo; }
  Time getMaxTime() const { return up; }
  struct Factory {
    struct Expression {
      Point p;
      Point toValue() const { return p; }
      Point evaluate() const { return p; }
    };
    Point p;
    Expression getValueExpression(int k = 0) const {
      sv_check(k == 0, "value-and-not-derivatives");
      return Expression{p};
    }
  };
  template <int N> Factory getExpressionFactoryAt(Time t) const {
    sv_check(lo <= t && t <= up, "spline-is-asked-within-its-range");
    return Factory{values.at(t)};
  }
  Time lo, up;
  Values<Point> values;
  ControlPoint point;
};
template <class C> struct OPTBSpline { typedef Spline<C> BSpline; };
}}
