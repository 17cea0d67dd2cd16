// design variables and error terms used by the core harnesses
#pragma once
#include "sv.h"
#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/ErrorTerm.hpp>
#include <aslam/backend/JacobianContainer.hpp>
#include <aslam/calibration/exceptions/Exception.h>
#include <boost/make_shared.hpp>
#include <stdexcept>
#include <vector>

struct HDv : aslam::backend::DesignVariable {
  explicit HDv(int dim) : d(dim), value(0) {}
  int d;
  double value;  // the variable's parameters: `dim` copies are not needed, one value identifies them
  long sets = 0;
 protected:
  int minimalDimensionsImplementation() const { return d; }
  void updateImplementation(const double* dp, int) { value += dp[0]; }
  void revertUpdateImplementation() {}
  void getParametersImplementation(Eigen::MatrixXd& v) const {
    v.resize(1, 1);
    v(0, 0) = value;
  }
  void setParametersImplementation(const Eigen::MatrixXd& v) {
    value = v(0, 0);
    ++sets;
  }
};

struct HEt : aslam::backend::ErrorTerm {
  explicit HEt(int dim) : aslam::backend::ErrorTerm(dim) {}
  void use(const std::vector<aslam::backend::DesignVariable*>& v) { setDesignVariables(v); }
 protected:
  double evaluateErrorImplementation() { return 0; }
  void evaluateJacobiansImplementation(aslam::backend::JacobianContainer&) {}
};

inline bool bitEqual(double a, double b) {
  if (sv_real()) return a == b;
  uint64_t x, y;
  __builtin_memcpy(&x, &a, 8);
  __builtin_memcpy(&y, &b, 8);
  return x == y;
}

// 0: no exception, 1: an exception of the given type, 2: any other exception
template <class E, class F> int outcome(F f) {
  try {
    f();
  } catch (const E&) {
    return 1;
  } catch (const std::exception&) {
    return 2;
  }
  return 0;
}
