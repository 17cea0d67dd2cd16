#pragma once
#include "sv.h"
#include <Eigen/Core>
#include <vector>
namespace aslam { namespace calibration {
template <class T, int M> class UniformDistribution {
 public:
  typedef Eigen::Matrix<T, M, 1> Point;
  UniformDistribution(const Point& lo, const Point& hi) : lo(lo), hi(hi) { made() = *this; }
  UniformDistribution() : lo(Point::Zero()), hi(Point::Zero()) {}
  Point getMinSupport() const { return lo; }
  Point getMaxSupport() const { return hi; }
  Point getSample() const {
    Point p;
    for (int i = 0; i < M; ++i) p(i) = sv_double("landmark");
    return p;
  }
  void getSamples(std::vector<Point>& s, size_t n) const {
    s.clear();
    for (size_t i = 0; i < n; ++i) s.push_back(getSample());
  }
  // harness: the last one made
  static UniformDistribution& made() { static UniformDistribution d; return d; }
 private:
  Point lo, hi;
};
}}
