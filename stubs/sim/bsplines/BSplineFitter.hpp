#pragma once
#include <bsplines/Spline.hpp>
namespace bsplines {
template <class S> struct BSplineFitter {
  static void initUniformSpline(S& s, const std::vector<sm::timing::NsecTime>& t, const std::vector<typename S::Point>& p, int n, double lambda) {
    sv_check(!s.fitted && t.size() == p.size() && t.size() >= 2, "spline-is-fitted-to-its-samples");
    s.times = t;
    s.fit = p;
    s.segments = n;
    s.lambda = lambda;
    s.fitted = true;
  }
};
}
