#pragma once
#include <bsplines/Spline.hpp>
namespace bsplines {
template <int O, class T> struct UnitQuaternionBSpline {
  struct CONF {
    struct ManifoldConf {};
    CONF(const ManifoldConf& m, int o) : manifold(m), order(o) {}
    ManifoldConf manifold;
    int order;
    enum { size = 4 };
  };
  typedef Spline<CONF> TYPE;
};
}
