#pragma once
#include <aslam/splines/OPTBSpline.hpp>
namespace bsplines {
// harness: gives a fitted spline its coefficients
struct Fitted {
  enum Mode { arbitrary, turned, straight };
  static Mode& mode() { static Mode m = arbitrary; return m; }
};
template <class S> struct BSplineFitter {
  static Eigen::Vector3d some(const char* n) {
    double x = sv_double(n), y = sv_double(n), z = sv_double(n);
    return Eigen::Vector3d(x, y, z);
  }
  static void initUniformSpline(S& s, const std::vector<sm::timing::NsecTime>& t, const std::vector<typename S::Point>& p, int n, double lambda) {
    sv_check(!s.fitted && t.size() == p.size() && t.size() >= 2, "spline-is-fitted-to-its-samples");
    s.times = t;
    s.fit = p;
    s.segments = n;
    s.lambda = lambda;
    s.fitted = true;
    Fitted::Mode m = Fitted::mode();
    s.constant = m == Fitted::straight;
    s.steady = false;
    s.c0 = s.c1 = Eigen::Vector3d::Zero();
    s.R = Eigen::Matrix3d::Identity();
    if (s.constant) {
      // driving straight on
      if (S::Point::RowsAtCompileTime == 3) s.c1(0) = 1;
      return;
    }
    if (S::Point::RowsAtCompileTime == 3) s.c0 = some("position");
    else if (m == Fitted::turned) s.R << 0, 0, 1, 1, 0, 0, 0, 1, 0;
    else for (int i = 0; i < 3; ++i) s.R.col(i) = some("rotation");
    s.steady = m == Fitted::turned;
    s.c1 = some("derivative");
  }
};
}
