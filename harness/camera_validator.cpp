// The camera validator: reprojection errors of given intrinsics.
#include "camera_common.h"
#include "camera_options.h"
#include <boost/math/distributions/chi_squared.hpp>
#include <aslam/calibration/statistics/EstimatorML.h>
#include <aslam/calibration/statistics/NormalDistribution.h>
#include <aslam/calibration/camera/CameraValidator.h>
#include <aslam/calibration/exceptions/BadArgumentException.h>
using namespace aslam::calibration;
typedef CameraValidator Val;
static Val::Options options;
static sm::PropertyTree intrinsics;
static void setup(int n, bool omni = false) {
  options.rows = n;
  options.cols = 1;
  intrinsics.setString("projection/type", omni ? "omni" : "pinhole");
  scene(n);
}
struct Projection { VectorXd p; Vector2d k; bool ok; };
static std::vector<Projection> projections;
SV_ENTRY(validator_errors) {
  const int n = 2;
  options.sigma2 = sv_double("sigma2");
  sv_assume(options.sigma2 > 0);
  setup(n);
  Val c(intrinsics, options);
  const int free = sv_choose("free", 2), coordinate = sv_choose("coordinate", 2);
  int count = 0;
  CameraGeometryBase::project = [&](const VectorXd& p, VectorXd& k) {
    Projection q;
    q.p = p;
    q.ok = sv_choose("visible", 2);
    // any pixel, but only for one corner: the statistics need only one free number
    q.k = Vector2d(count * 3 + 0.5, 7 - count);
    if (count++ == free) q.k(coordinate) = sv_double("u");
    projections.push_back(q);
    if (q.ok) k = q.k;
    return q.ok;
  };
  std::vector<Vector2d, Eigen::aligned_allocator<Vector2d>> errors;
  std::vector<double> md2;
  std::vector<int> found;
  double max[2] = {0, 0};
  sv_check(c.getReprojectionErrorMaxXError() == 0 && c.getReprojectionErrorMaxYError() == 0 && c.getErrors().empty() && c.getObservations().empty() && c.getMahalanobisDistances().empty() && c.getNumOutliers() == 0, "starts-without-errors");
  sv_check(c.getReprojectionErrorMean().size() == 0 && c.getReprojectionErrorVariance().size() == 0 && c.getReprojectionErrorStandardDeviation().size() == 0, "starts-without-errors");
  const int images = SV_T(2, 3);
  for (int i = 0; i < images; ++i) {
    Picture p;
    const int what = sv_choose("image", i == 0 ? 4 : SV_T(2, 3));
    p.found = what > 0;
    p.C = turn(i);
    p.t = vec("t");
    p.ns = sv_lint("ns", 0, 4000000000L);
    for (int j = 0; j < n; ++j) {
      p.seen.push_back(what == 1 || (what == 2 && j == 1) || (what == 3 && j == 0));
      p.pixels.push_back(Vector2d(i - 0.25 * j, 2 * j + i));
      if (i == 0 && j == free) p.pixels.back()(coordinate) = sv_double("pixel");
    }
    pictures.push_back(p);
    projections.clear();
    bool r = c.addImage(image(i), p.ns);
    sv_check(r == p.found, "addition-tells-whether-the-target-was-found");
    if (p.found) {
      found.push_back(i);
      size_t q = 0;
      for (int j = 0; j < n; ++j) {
        if (!p.seen[j]) continue;
        const char* id = "every-corner-seen-is-projected";
        sv_check(q < projections.size(), id);
        if (q >= projections.size()) return;
        auto& x = projections[q++];
        Vector3d y = p.C.transpose() * (corners[j] - p.t);
        close(x.p, Vector4d(y(0), y(1), y(2), 1), "corner-is-projected-from-where-the-target-was-seen");
        if (!x.ok) continue;
        Vector2d e = x.k - p.pixels[j];
        errors.push_back(e);
        md2.push_back((e(0) * e(0) + e(1) * e(1)) / options.sigma2);
        for (int k = 0; k < 2; ++k) {
          if (e(k) > max[k]) max[k] = e(k);
          if (-e(k) > max[k]) max[k] = -e(k);
        }
      }
      sv_check(q == projections.size(), "only-corners-seen-are-projected");
    } else sv_check(projections.empty(), "only-corners-seen-are-projected");
    const char* id = "errors-are-predicted-minus-observed";
    sv_check(c.getErrors().size() == errors.size(), id);
    for (size_t k = 0; k < errors.size() && k < c.getErrors().size(); ++k) close(c.getErrors()[k], errors[k], id);
    auto& d = c.getMahalanobisDistances();
    sv_check(d.size() == md2.size(), "distances-are-weighted-squared-errors");
    for (size_t k = 0; k < md2.size() && k < d.size(); ++k) sv_check_close(d[k], md2[k], "distances-are-weighted-squared-errors");
    sv_check_close(c.getReprojectionErrorMaxXError(), max[0], "largest-error-is-the-largest-magnitude");
    sv_check_close(c.getReprojectionErrorMaxYError(), max[1], "largest-error-is-the-largest-magnitude");
    auto& o = c.getObservations();
    sv_check(o.size() == found.size(), "observations-are-the-images-with-the-target");
    for (size_t k = 0; k < found.size() && k < o.size(); ++k) sv_check(o[k]->picture.id == found[k], "observations-are-the-images-with-the-target");
  }
}
// one or two images with these errors of their corners
SV_ENTRY(validator_statistics) {
  const int n = sv_choose("corners", SV_T(4, 5)), free = sv_choose("free", SV_T(3, 4)), coordinate = sv_choose("coordinate", 2), images = n == 1 ? 2 : 1;
  options.sigma2 = sv_choose("variance", 2) ? 4 : 1;
  setup(n);
  Val c(intrinsics, options);
  std::vector<Vector2d, Eigen::aligned_allocator<Vector2d>> e;
  for (int j = 0; j < n; ++j) {
    Vector2d x(j - 1, 0.5 * j * j);
    if (j == free) x(coordinate) = sv_double("error");
    e.push_back(x);
  }
  int j = 0;
  CameraGeometryBase::project = [&](const VectorXd&, VectorXd& k) {
    k = e.at(j) + Vector2d(100, 200 + j);
    ++j;
    return true;
  };
  for (int i = 0; i < images; ++i) {
    Picture p;
    p.found = true;
    p.C = turn(i);
    p.t = Vector3d(1, 2, 3);
    p.ns = 0;
    for (int k = 0; k < n; ++k) {
      p.seen.push_back(1);
      p.pixels.push_back(Vector2d(100, 200 + k));
    }
    pictures.push_back(p);
    j = 0;
    c.addImage(image(i), 0);
  }
  const double count = n;
  Vector2d mean(0, 0), square(0, 0);
  double cross = 0;
  for (auto& x : e) mean += x / count;
  for (auto& x : e)
    for (int k = 0; k < 2; ++k) {
      square(k) += (x(k) - mean(k)) * (x(k) - mean(k)) / count;
      if (k) cross += (x(0) - mean(0)) * (x(1) - mean(1)) / count;
    }
  // rounding decides whether points are nearly on a line
  if (n > 2) sv_assume(square(0) * square(1) - cross * cross > 1e-6);
  const bool valid = n && square(0) > 0 && square(0) * square(1) - cross * cross > 0;
  VectorXd m = c.getReprojectionErrorMean(), v = c.getReprojectionErrorVariance(), s = c.getReprojectionErrorStandardDeviation();
  if (!valid) sv_check(m.size() == 0 && v.size() == 0 && s.size() == 0, "no-statistics-without-spread");
  else {
    close(m, mean, "mean-is-that-of-the-errors");
    close(v, square, "variance-is-that-of-the-errors");
    const char* id = "standard-deviations-are-the-roots-of-the-variances";
    sv_check(s.size() == 2, id);
    for (int i = 0; i < s.size() && i < 2; ++i) {
      sv_check(s(i) >= 0, id);
      sv_check_close(s(i) * s(i), square(i), id);
    }
  }
  const double p = sv_choose("quantile", 2) ? 0.5 : 0.975, q = boost::math::quantile(boost::math::chi_squared_distribution<>(2), p);
  size_t outliers = 0;
  for (auto& x : e) outliers += images * ((x(0) * x(0) + x(1) * x(1)) / options.sigma2 > q);
  sv_check((p == 0.975 ? c.getNumOutliers() : c.getNumOutliers(p)) == outliers, "outliers-are-beyond-the-quantile");
}
// the picture with the last image's corners
SV_ENTRY(validator_image) {
  setup(2);
  Val c(intrinsics, options);
  cv::Mat m = image(77);
  c.getLastImage(m);
  sv_check(m.id == 77 && m.marks.empty() && !m.color, "no-picture-without-an-image");
  CameraGeometryBase::project = [](const VectorXd& p, VectorXd& k) {
    Projection q;
    q.p = p;
    q.ok = projections.size() > 1 || sv_choose("visible", 2);
    q.k = Vector2d(10 + projections.size(), 20);
    projections.push_back(q);
    if (q.ok) k = q.k;
    return q.ok;
  };
  for (int i = 0; i < 2; ++i) {
    Picture p;
    p.found = true;
    p.C = turn(i);
    p.t = vec("t");
    p.ns = 0;
    const int what = sv_choose("seen", i ? 3 : 1);
    for (int j = 0; j < 2; ++j) {
      p.seen.push_back(what != 1 + j);
      p.pixels.push_back(Vector2d(3 * i - j, i + 4 * j));
    }
    pictures.push_back(p);
    c.addImage(image(i), 0);
  }
  const size_t errors = c.getErrors().size();
  const double max = c.getReprojectionErrorMaxXError();
  projections.clear();
  c.getLastImage(m);
  sv_check(c.getErrors().size() == errors && c.getReprojectionErrorMaxXError() == max && c.getObservations().size() == 2, "drawing-changes-nothing");
  sv_check(m.id == 1 && m.color, "picture-is-the-last-image");
  size_t q = 0, k = 0;
  auto cross = [&](const Vector2d& x, double blue, double green, double red) {
    const char* id = "corners-are-marked-where-observed-and-predicted";
    sv_check(k + 3 <= m.marks.size(), id);
    if (k + 3 > m.marks.size()) return;
    auto &a = m.marks[k], &b = m.marks[k + 1], &d = m.marks[k + 2];
    k += 3;
    sv_check(a.kind == 'c' && b.kind == 'l' && d.kind == 'l' && a.u > 0, id);
    for (auto x : {&a, &b, &d}) sv_check(x->color.v[0] == blue && x->color.v[1] == green && x->color.v[2] == red, id);
    sv_check_close(a.x, x(0), id);
    sv_check_close(a.y, x(1), id);
    for (auto l : {&b, &d}) {
      sv_check_close((l->x + l->u) / 2, x(0), id);
      sv_check_close((l->y + l->v) / 2, x(1), id);
    }
  };
  auto& p = pictures[1];
  for (int j = 0; j < 2; ++j) {
    if (!p.seen[j]) continue;
    sv_check(q < projections.size(), "every-corner-seen-is-projected");
    if (q >= projections.size()) return;
    auto& x = projections[q++];
    Vector3d y = p.C.transpose() * (corners[j] - p.t);
    close(x.p, Vector4d(y(0), y(1), y(2), 1), "corner-is-projected-from-where-the-target-was-seen");
    if (!x.ok) continue;
    cross(p.pixels[j], 0, 255, 0);
    cross(x.k, 0, 0, 255);
  }
  for (; k < m.marks.size(); ++k) sv_check(m.marks[k].kind == 't', "corners-are-marked-where-observed-and-predicted");
}
SV_ENTRY(validator_options) {
  Configured<Val::Options> k;
  k.vision();
  const int type = sv_choose("type", 3);
  k.text("cameraProjectionType", &Val::Options::cameraProjectionType, sv_choose("unused", 2) ? "pinhole" : "omni");
  sm::PropertyTree t;
  const size_t absent = k.write(t);
  intrinsics.setString("projection/type", type == 0 ? "pinhole" : type == 1 ? "omni" : "box");
  Target::corner = [](size_t i) { return Vector3d(i, 0, 0); };
  boost::shared_ptr<Val> c;
  try {
    c = boost::make_shared<Val>(intrinsics, t);
  } catch (const BadArgumentException<std::string>&) {
    sv_check(type == 2, "only-an-unknown-camera-type-is-refused");
    return;
  } catch (const std::runtime_error&) {
    sv_check(absent < k.keys.size(), "a-complete-configuration-is-accepted");
    return;
  }
  sv_check(type != 2, "an-unknown-camera-type-is-refused");
  k.check(c->getOptions(), absent);
  made(c->getOptions(), type == 1);
  sv_check(CameraGeometryBase::last->configuration == &intrinsics, "camera-has-the-given-intrinsics");
}
