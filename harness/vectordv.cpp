// VectorDesignVariable, driven through the DesignVariable interface
#include "core_common.h"
#include <aslam/calibration/data-structures/VectorDesignVariable.h>
#include <aslam/calibration/exceptions/OutOfBoundException.h>
using namespace aslam::calibration;

template <class V> static bool eq(const V& a, const V& b) {
  if (a.size() != b.size()) return false;
  for (int i = 0; i < a.size(); ++i)
    if (!bitEqual(a(i), b(i))) return false;
  return true;
}
template <int M> struct Ref {
  Eigen::Matrix<double, M, 1> now, before;
};
template <int M> static Eigen::Matrix<double, M, 1> fresh(int n, const char* name) {
  Eigen::Matrix<double, M, 1> v(n);
  for (int i = 0; i < n; ++i) v(i) = sv_double(name);
  return v;
}
template <int M> static void same(const VectorDesignVariable<M>& dv, const Ref<M>& r, const char* id) {
  sv_check(dv.minimalDimensions() == r.now.size(), "dimension-is-the-length-of-the-vector");
  sv_check(eq(dv.getValue(), r.now), id);
  Eigen::MatrixXd p;
  dv.getParameters(p);
  sv_check(p.cols() == 1 && p.rows() == r.now.size(), "parameters-are-one-column-of-the-vector's-length");
  for (int i = 0; i < p.rows() && i < r.now.size(); ++i) sv_check(bitEqual(p(i, 0), r.now(i)), "parameters-are-the-value");
}
// one operation on dv, mirrored in the reference
template <int M> static void step(VectorDesignVariable<M>& dv, Ref<M>& r, int n) {
  switch (sv_choose("operation", 5)) {
    case 0: {
      Eigen::Matrix<double, M, 1> d = fresh<M>(n, "step");
      dv.update(d.data(), n);
      r.before = r.now;
      for (int i = 0; i < n; ++i) r.now(i) = r.now(i) + d(i);
      same(dv, r, "update-adds-the-step");
      break;
    }
    case 1:
      dv.revertUpdate();
      r.now = r.before;
      same(dv, r, "revert-restores-the-value-before-the-last-change");
      break;
    case 2: {
      Eigen::Matrix<double, M, 1> v = fresh<M>(n, "value");
      Eigen::MatrixXd p = v;
      dv.setParameters(p);
      r.before = r.now;
      r.now = v;
      same(dv, r, "set-parameters-are-the-value");
      break;
    }
    case 3: {
      Eigen::Matrix<double, M, 1> v = fresh<M>(n, "value");
      dv.setValue(v);
      r.before = r.now;
      r.now = v;
      same(dv, r, "set-value-is-the-value");
      break;
    }
    default: {
      long rows = sv_choose("rows", n + 2), cols = sv_choose("cols", 3);
      if (rows == n && cols == 1) return;
      Eigen::MatrixXd p(rows, cols);
      for (long i = 0; i < rows * cols; ++i) p.data()[i] = sv_double("wrong");
      sv_check(outcome<OutOfBoundException<int> >([&] { dv.setParameters(p); }) == 1, "parameters-of-the-wrong-size-are-rejected");
      same(dv, r, "rejected-parameters-change-nothing");
    }
  }
}
template <int M> static void history(int n) {
  Eigen::Matrix<double, M, 1> v0 = fresh<M>(n, "init");
  VectorDesignVariable<M> dv(v0);
  Ref<M> r{v0, v0};
  same(dv, r, "constructed-with-the-given-value");
  int k = SV_T(2, 3);
  for (int i = 0; i < k; ++i) step(dv, r, n);
  // a copy carries value and undo state, and is independent
  bool assign = sv_bool("assign");
  VectorDesignVariable<M> other(assign ? fresh<M>(n, "other") : v0);
  if (assign) other = dv;
  VectorDesignVariable<M> cp(assign ? other : dv);
  same(cp, r, "a-copy-has-the-value-of-the-original");
  Ref<M> rc = r;
  if (sv_bool("change-copy")) {
    step(cp, rc, n);
    same(dv, r, "changing-a-copy-does-not-change-the-original");
    dv.revertUpdate();
    r.now = r.before;
    same(dv, r, "the-original-keeps-its-undo-state");
    same(cp, rc, "changing-the-original-does-not-change-a-copy");
  } else {
    step(dv, r, n);
    same(cp, rc, "changing-the-original-does-not-change-a-copy");
    cp.revertUpdate();
    rc.now = rc.before;
    same(cp, rc, "a-copy-carries-the-undo-state");
  }
  dv = dv;
  same(dv, r, "self-assignment-changes-nothing");
}
SV_ENTRY(dv_fixed) { history<2>(2); }
SV_ENTRY(dv_scalar) { history<1>(1); }
SV_ENTRY(dv_dynamic) { history<Eigen::Dynamic>(1 + (int)sv_choose("n", SV_T(2, 3))); }
SV_ENTRY(dv_default) {
  VectorDesignVariable<3> dv;
  Ref<3> r;
  r.now.setZero();
  r.before.setZero();
  same(dv, r, "default-is-zero");
}
