#include "sv.h"
#include <Eigen/Core>
#include <aslam/calibration/geometry/Transformation.h>
#include <cmath>
using namespace aslam::calibration;
typedef Transformation<double, 2> T2;
typedef Transformation<double, 3> T3;

template <int N, class TR> static void roundtrip(const TR& t, const TR& inv, const char* a, const char* b) {
  Eigen::Matrix<double, N, 1> p, q, r;
  for (int i = 0; i < N; ++i) p(i) = sv_double("p");
  q = t(p);
  t.transform(p, r);
  for (int i = 0; i < N; ++i) sv_check_close(q(i), r(i), "both-ways-of-applying-agree");
  for (int i = 0; i < N; ++i) sv_obs_d("q", q(i));
  r = inv(q);
  for (int i = 0; i < N; ++i) sv_check_close(r(i), p(i), a);
  q = inv(p);
  r = t(q);
  for (int i = 0; i < N; ++i) sv_check_close(r(i), p(i), b);
}
template <int N, class TR> static void same(TR x, TR y, const char* id) {
  for (int i = 0; i <= N; ++i)
    for (int j = 0; j <= N; ++j) sv_check_close(x.getTransformationMatrix()(i, j), y.getTransformationMatrix()(i, j), id);
}
template <int N, class TR> static void laws(TR t) {
  TR orig(t);
  const TR inv = t.getInverse();
  same<N>(t, orig, "asking-for-the-inverse-does-not-change-the-transformation");
  roundtrip<N>(t, inv, "inverse-undoes-the-transformation", "transformation-undoes-its-inverse");
  same<N>(inv.getInverse(), orig, "inverse-of-the-inverse-is-the-original");
  TR u(t);
  u.inverse();
  same<N>(u, inv, "in-place-inverse-equals-the-returned-inverse");
  u.inverse();
  same<N>(u, orig, "inverting-in-place-twice-restores-the-original");
  TR w(inv);
  w = t;
  same<N>(w, orig, "assignment-copies");
  w.inverse();
  same<N>(w, inv, "a-copy-behaves-like-the-original");
}
SV_ENTRY(t2d) {
  double x = sv_double("x"), y = sv_double("y"), a = sv_double("a");
  T2 t(x, y, a);
  Eigen::Vector2d p(sv_double("u"), sv_double("v"));
  Eigen::Vector2d q = t(p);
  sv_check_close(q(0), std::cos(a) * p(0) - std::sin(a) * p(1) + x, "2d-transformation-rotates-then-translates");
  sv_check_close(q(1), std::sin(a) * p(0) + std::cos(a) * p(1) + y, "2d-transformation-rotates-then-translates");
  laws<2>(t);
  T2 s(1, 2, 3);
  s.setTransformation(x, y, a);
  same<2>(s, t, "setter-equals-constructor");
}
SV_ENTRY(t2d_matrix) {
  double x = sv_double("x"), y = sv_double("y"), a = sv_double("a");
  T2 t(x, y, a), m(t.getTransformationMatrix()), s(1, 2, 3);
  s.setTransformationMatrix(t.getTransformationMatrix());
  same<2>(m, t, "built-from-its-matrix-is-the-same-transformation");
  same<2>(s, t, "set-from-its-matrix-is-the-same-transformation");
  same<2>(m.getInverse(), t.getInverse(), "inverse-does-not-depend-on-how-it-was-built");
  same<2>(s.getInverse(), t.getInverse(), "inverse-does-not-depend-on-how-it-was-set");
}
SV_ENTRY(t3d) {
  double x = sv_double("x"), y = sv_double("y"), z = sv_double("z"), r = sv_double("roll"), p = sv_double("pitch"), w = sv_double("yaw");
  T3 t(x, y, z, r, p, w);
  Eigen::Matrix3d Rx, Ry, Rz;
  Rx << 1, 0, 0, 0, std::cos(r), -std::sin(r), 0, std::sin(r), std::cos(r);
  Ry << std::cos(p), 0, std::sin(p), 0, 1, 0, -std::sin(p), 0, std::cos(p);
  Rz << std::cos(w), -std::sin(w), 0, std::sin(w), std::cos(w), 0, 0, 0, 1;
  Eigen::Matrix3d R = Rz * Ry * Rx;
  const Eigen::Matrix4d& M = t.getTransformationMatrix();
  for (int i = 0; i < 3; ++i) {
    for (int j = 0; j < 3; ++j) sv_check_close(M(i, j), R(i, j), "3d-rotation-is-yaw-pitch-roll");
    sv_check_close(M(3, i), 0, "3d-bottom-row");
    sv_check_close(M(i, 3), i == 0 ? x : i == 1 ? y : z, "3d-translation");
  }
  sv_check_close(M(3, 3), 1, "3d-bottom-row");
}
SV_ENTRY(t3d_laws) {
  double x = sv_double("x"), y = sv_double("y"), z = sv_double("z"), r = sv_double("roll"), p = sv_double("pitch"), w = sv_double("yaw");
  laws<3>(T3(x, y, z, r, p, w));
  T3 t(x, y, z, r, p, w), m(t.getTransformationMatrix()), s(1, 2, 3, 4, 5, 6);
  s.setTransformation(x, y, z, r, p, w);
  same<3>(s, t, "setter-equals-constructor");
  s = T3(1, 2, 3, 4, 5, 6);
  s.setTransformationMatrix(t.getTransformationMatrix());
  same<3>(m.getInverse(), t.getInverse(), "inverse-does-not-depend-on-how-it-was-built");
  same<3>(s.getInverse(), t.getInverse(), "inverse-does-not-depend-on-how-it-was-set");
}
