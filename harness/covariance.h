#pragma once
#include <Eigen/Dense>
// any symmetric positive definite matrix of up to three dimensions
template <int N> Eigen::Matrix<double, N, N> covariance(const char* n) {
  Eigen::Matrix<double, N, N> m;
  for (int i = 0; i < N; ++i)
    for (int j = 0; j <= i; ++j) m(i, j) = m(j, i) = sv_double(n);
  double d = 1;
  sv_assume(m(0, 0) > 0);
  if (N > 1) sv_assume(m(0, 0) * m(1, 1) - m(0, 1) * m(0, 1) > 0);
  if (N > 2)
    sv_assume(m(0, 0) * (m(1, 1) * m(2, 2) - m(1, 2) * m(1, 2)) - m(0, 1) * (m(0, 1) * m(2, 2) - m(1, 2) * m(0, 2)) + m(0, 2) * (m(0, 1) * m(1, 2) - m(1, 1) * m(0, 2)) > 0);
  return m;
}
template <int N> Eigen::Matrix<double, N, N> diagonal(const char* n) {
  Eigen::Matrix<double, N, N> m = Eigen::Matrix<double, N, N>::Zero();
  for (int i = 0; i < N; ++i) {
    m(i, i) = sv_double(n);
    sv_assume(m(i, i) > 0);
  }
  return m;
}
// the term weights with the inverse of Q, and its squared error is that of its error
template <class T, int N> void weighted(T& t, const Eigen::Matrix<double, N, N>& Q) {
  Eigen::Matrix<double, N, N> W = t.invR(), I = W * Q;
  for (int i = 0; i < N; ++i)
    for (int j = 0; j < N; ++j) sv_check_close(I(i, j), i == j, "weight-is-the-inverse-covariance");
  double e2 = t.evaluateError(), s = 0;
  Eigen::Matrix<double, N, 1> e = t.error();
  for (int i = 0; i < N; ++i)
    for (int j = 0; j < N; ++j) s += e(i) * W(i, j) * e(j);
  sv_check_close(e2, s, "squared-error-is-weighted");
}
// t was built with Q, o with S
template <class T, int N, class F> void life(T& t, T& o, const Eigen::Matrix<double, N, N>& Q, const Eigen::Matrix<double, N, N>& S, F also) {
  also(t, Q);
  weighted(t, Q);
  switch (sv_choose("life", 4)) {
    case 0: {
      T c(t);
      also(c, Q);
      weighted(c, Q);
      break;
    }
    case 1:
      t.setCovariance(S);
      also(t, S);
      weighted(t, S);
      break;
    case 2: {
      T c(o);
      c = t;
      weighted(c, Q);
      also(c, Q);
      weighted(o, S);
      break;
    }
    default:
      t = t;
      weighted(t, Q);
  }
}
