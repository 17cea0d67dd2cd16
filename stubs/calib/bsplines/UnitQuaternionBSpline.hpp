#pragma once
#include <bsplines/NsecTimePolicy.hpp>
namespace bsplines {
template <int O, class T> struct UnitQuaternionBSpline {
  struct CONF {
    struct ManifoldConf {};
    CONF(const ManifoldConf& m, int o) : manifold(m), order(o) {}
    ManifoldConf manifold;
    int order;
    enum { rotation = 1, size = 4 };
  };
};
}
