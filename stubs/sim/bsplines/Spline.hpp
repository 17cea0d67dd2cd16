#pragma once
#include "sv.h"
#include <bsplines/NsecTimePolicy.hpp>
#include <Eigen/Core>
#include <functional>
#include <stdexcept>
#include <vector>
namespace bsplines {
template <class C> struct Spline {
  typedef C CONF;
  typedef sm::timing::NsecTime Time;
  typedef Eigen::Matrix<double, C::size, 1> Point;
  Spline(const C& c) : conf(c), segments(-1), lambda(0), fitted(false) {}
  Time getMinTime() const { return times.front(); }
  Time getMaxTime() const { return times.back(); }
  struct Evaluator {
    Point p;
    Point eval() const { return p; }
    Point evalD(int k) const {
      if (k) throw std::runtime_error("not a stand-in for derivatives");
      return p;
    }
  };
  template <int N> Evaluator getEvaluatorAt(Time t) const {
    sv_check(fitted && getMinTime() <= t && t <= getMaxTime(), "spline-is-asked-within-its-range");
    return Evaluator{values()(t)};
  }
  // harness: the value of the fitted spline at a time
  static std::function<Point(Time)>& values() { static std::function<Point(Time)> f; return f; }
  C conf;
  std::vector<Time> times;
  std::vector<Point> fit;
  int segments;
  double lambda;
  bool fitted;
};
}
