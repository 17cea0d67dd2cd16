#pragma once
#include <cstdint>
namespace aslam { namespace backend {
// I units of one D-th
template <typename I, std::uintmax_t D> class FixedPointNumber {
 public:
  typedef I Integer;
  FixedPointNumber() : _n(0) {}
  FixedPointNumber(I n) : _n(n) {}
  FixedPointNumber(int n) : _n(n) {}
  I getNumerator() const { return _n; }
  double toDouble() const { return (double)_n / (double)D; }
  operator double() const { return toDouble(); }
  FixedPointNumber operator+(const FixedPointNumber& o) const { return FixedPointNumber(I(_n + o._n)); }
  FixedPointNumber operator-(const FixedPointNumber& o) const { return FixedPointNumber(I(_n - o._n)); }
 private:
  I _n;
};
}}
