#pragma once
#include <bsplines/NsecTimePolicy.hpp>
namespace bsplines {
template <int O, int D, class T> struct EuclideanBSpline {
  struct CONF {
    struct ManifoldConf { ManifoldConf(int d = D) : dimension(d) {} int dimension; };
    CONF(const ManifoldConf& m, int o) : manifold(m), order(o) {}
    ManifoldConf manifold;
    int order;
    enum { rotation = 0, size = D };
  };
};
}
