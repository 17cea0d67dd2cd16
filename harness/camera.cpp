// The camera calibrator: batches of images, and the results it reports.
#include "camera_common.h"
#include <boost/math/distributions/chi_squared.hpp>
#include <aslam/backend/EuclideanPoint.hpp>
#include <aslam/backend/RotationQuaternion.hpp>
#include <aslam/backend/HomogeneousPoint.hpp>
#include <aslam/calibration/core/IncrementalEstimator.h>
#include <aslam/calibration/camera/CameraCalibrator.h>
#include <aslam/calibration/exceptions/InvalidOperationException.h>
#include <aslam/calibration/exceptions/BadArgumentException.h>
#include <aslam/calibration/exceptions/OutOfBoundException.h>
using namespace aslam::calibration;
using namespace aslam::backend;
typedef CameraCalibrator Cal;
static boost::shared_ptr<IncrementalEstimator> estimator;
static CameraCalibrator::Options options;
static const size_t LANDMARKS = 5, CAMERA = 3, POSES = 9;
static void setup(int n) {
  options.rows = n;
  options.cols = 1;
  options.landmarksGroupId = LANDMARKS;
  options.calibrationGroupId = CAMERA;
  options.transformationsGroupId = POSES;
  options.verbose = false;
  estimator = boost::make_shared<IncrementalEstimator>();
  scene(n);
}
// a new image: whether the target is in it, and which corners
static int picture(int kinds) {
  Picture p;
  const int k = pictures.size(), what = sv_choose("image", kinds);
  p.found = what > 0;
  p.C = turn(k);
  p.t = vec("t");
  p.ns = sv_lint("ns", 0, 4000000000L);
  for (size_t i = 0; i < corners.size(); ++i) {
    p.seen.push_back(what == 1 || (what == 2 && i == 1) || (what == 3 && i == 0));
    double u = sv_double("u"), v = sv_double("v");
    p.pixels.push_back(Vector2d(u, v));
  }
  pictures.push_back(p);
  return k;
}
static DesignVariable* get(const boost::shared_ptr<DesignVariable>& p) { return p.get(); }
static DesignVariable* get(const DesignVariable* p) { return const_cast<DesignVariable*>(p); }
// the batch has exactly the variables and error terms of these images
static void batch(Cal& c, OptimizationProblem& b, const std::vector<int>& ids, std::vector<DesignVariable*>& landmarks) {
  const size_t n = corners.size();
  const char* id = "batch-has-landmarks-camera-and-one-pose-per-image";
  auto& cam = *CameraGeometryDesignVariableContainer::last;
  sv_check(b.numDesignVariables() == n + 2 + 2 * ids.size() && b.getNumGroups() == (ids.empty() ? 2u : 3u), id);
  auto l = b.getDesignVariablesGroup(LANDMARKS);
  sv_check(l.size() == n, id);
  for (size_t i = 0; i < n; ++i) {
    auto p = dynamic_cast<HomogeneousPoint*>(get(l.at(i)));
    sv_check(p && p->isActive() == options.estimateLandmarks, "landmarks-are-estimated-only-on-request");
    if (!p) return;
    if (landmarks.size() < n) landmarks.push_back(p);
    sv_check(landmarks[i] == p, "all-batches-share-the-landmarks");
    sv_check(same(p->toHomogeneous(), Vector4d(corners[i](0), corners[i](1), corners[i](2), 1)), "landmarks-are-the-corners-of-the-target");
  }
  auto k = b.getDesignVariablesGroup(CAMERA);
  sv_check(k.size() == 2 && ((get(k[0]) == &cam.projection && get(k[1]) == &cam.distortion) || (get(k[0]) == &cam.distortion && get(k[1]) == &cam.projection)), "projection-and-distortion-are-estimated");
  std::vector<EuclideanPoint*> t;
  std::vector<RotationQuaternion*> q;
  if (!ids.empty()) {
    auto d = b.getDesignVariablesGroup(POSES);
    sv_check(d.size() == 2 * ids.size(), id);
    for (size_t i = 0; i < ids.size(); ++i) {
      q.push_back(dynamic_cast<RotationQuaternion*>(get(d.at(2 * i))));
      t.push_back(dynamic_cast<EuclideanPoint*>(get(d.at(2 * i + 1))));
      sv_check(q[i] && t[i] && q[i]->isActive() && t[i]->isActive(), id);
      if (!q[i] || !t[i]) return;
      auto& p = pictures[ids[i]];
      sv_check(same(q[i]->toRotationMatrix(), p.C) && same(t[i]->toEuclidean(), p.t), "pose-starts-where-the-target-was-seen-from");
    }
  }
  // the estimator moves everything
  std::vector<Vector4d, Eigen::aligned_allocator<Vector4d>> m;
  for (auto l : landmarks) {
    auto p = static_cast<HomogeneousPoint*>(l);
    m.push_back(p->p);
    p->p = Vector4d(p->p(0) + 1, p->p(1) - 2, p->p(2) + 3, 1);
  }
  size_t e = 0;
  for (size_t i = 0; i < ids.size(); ++i) {
    auto& p = pictures[ids[i]];
    const Matrix3d C = turn(ids[i] + 1);
    const Vector3d moved = p.t + Vector3d(0.5, -0.25, 2);
    q[i]->set(sm::kinematics::r2quat(C));
    t[i]->set(moved);
    for (size_t j = 0; j < n; ++j) {
      if (!p.seen[j]) continue;
      const char* id = "one-reprojection-error-per-corner-seen";
      sv_check(e < b.numErrorTerms(), id);
      if (e >= b.numErrorTerms()) return;
      auto r = dynamic_cast<ReprojectionError*>(b.errorTerm(e++));
      sv_check(r != nullptr, id);
      if (!r) return;
      sv_check(same(r->measured, p.pixels[j]), "error-term-has-the-observed-pixel");
      sv_check(same(r->weight, options.sigma2 * Eigen::Matrix2d::Identity()), "error-term-has-the-configured-variance");
      sv_check(r->camera == &cam, "error-term-uses-the-camera");
      sv_check((bool)r->policy == options.useMEstimator && (!r->policy || r->policy->dimension == 2), "robust-weights-only-on-request");
      DesignVariable::set_t s;
      r->point.getDesignVariables(s);
      sv_check(s == DesignVariable::set_t({q[i], t[i], landmarks[j]}), "point-depends-on-its-landmark-and-pose");
      Vector4d x = static_cast<HomogeneousPoint*>(landmarks[j])->p;
      Vector3d y = C.transpose() * (x.head<3>() - moved);
      close(r->point.toHomogeneous(), Vector4d(y(0), y(1), y(2), 1), "point-is-the-landmark-seen-from-the-camera");
    }
  }
  sv_check(e == b.numErrorTerms(), "one-reprojection-error-per-corner-seen");
  for (size_t i = 0; i < n; ++i) static_cast<HomogeneousPoint*>(landmarks[i])->p = m[i];
}
static bool observes(const std::vector<Cal::ObservationPtr>& o, const std::vector<int>& ids) {
  bool r = o.size() == ids.size();
  for (size_t i = 0; r && i < ids.size(); ++i) r = o[i] && o[i]->picture.id == ids[i];
  return r;
}
SV_ENTRY(camera_batches) {
  const int variant = sv_choose("variant", 3);
  options.estimateLandmarks = variant == 1;
  options.useMEstimator = variant == 2;
  options.cameraProjectionType = options.useMEstimator ? "omni" : "pinhole";
  options.sigma2 = sv_double("sigma2");
  options.batchNumImages = 1 + sv_choose("size", SV_T(2, 3));
  setup(2);
  Cal c(estimator, options);
  std::vector<DesignVariable*> landmarks;
  bool ready = false;
  GridDetector::initialize = [](const cv::Mat& m) { return pictures.at(m.id).found; };
  std::vector<int> waiting, used;
  size_t handed = 0;
  int last = -1;
  // whatever was handed over since
  auto given = [&](bool expected) {
    sv_check(estimator->batches.size() == handed + expected, expected ? "a-full-batch-is-handed-over" : "a-batch-is-handed-over-only-when-full-or-on-request");
    if (estimator->batches.size() != handed + 1 || !expected) return;
    batch(c, *estimator->batches[handed], waiting, landmarks);
    if (estimator->accepted[handed]) used.insert(used.end(), waiting.begin(), waiting.end());
    ++handed;
    waiting.clear();
  };
  const int steps = SV_T(4, 5);
  for (int i = 0; i < steps; ++i) {
    int op = i == 0 ? sv_choose("op", 3) : i == steps - 1 ? sv_choose("op", 2) : 0;
    if (op == 2) {
      // an image before the camera is initialized is refused
      int k = picture(2), before = lookups;
      int r = outcome<InvalidOperationException>([&] { c.addImage(image(k), pictures[k].ns); });
      sv_check(r == 1 && lookups == before, "images-are-refused-before-the-camera-is-initialized");
    }
    if (!ready) {
      int k = picture(2);
      bool r = c.initGeometry(image(k));
      sv_check(r == pictures[k].found, "initialization-succeeds-when-the-detector-can");
      if (!r) {
        sv_check(outcome<InvalidOperationException>([&] { c.addImage(image(k), pictures[k].ns); }) == 1, "images-are-refused-before-the-camera-is-initialized");
        return;
      }
      ready = true;
      sv_check(c.initGeometry(image(k)), "an-initialized-camera-stays-so");
    }
    if (op == 1) {
      bool any = last >= 0;
      if (!any) {
        c.processBatch();
        given(false);
      } else if (!waiting.empty()) {
        c.processBatch();
        given(true);
      }
    }
    // few combinations of corners in the later images
    int k = picture(i < SV_T(1, 2) ? 4 : 2);
    bool r = c.addImage(image(k), pictures[k].ns);
    sv_check(r == pictures[k].found, "addition-tells-whether-the-target-was-found");
    if (r) {
      last = k;
      waiting.push_back(k);
    }
    given(r && waiting.size() == options.batchNumImages);
    sv_check(c.getBatchNumImages() == waiting.size() && observes(c.getBatchObservations(), waiting), "images-wait-for-a-full-batch");
    sv_check(observes(c.getEstimatorObservations(), used), "observations-are-those-of-accepted-batches-in-order");
    cv::Mat m;
    c.getLastCheckerboardImage(m);
    sv_check(m.id == last, "last-image-is-the-last-one-with-the-target");
  }
  for (size_t i = 0; i < used.size(); ++i) {
    // the estimator moved the poses (see above)
    Matrix4d T = c.getTransformation(i);
    auto& p = pictures[used[i]];
    close(T, rigid(turn(used[i] + 1), p.t + Vector3d(0.5, -0.25, 2)), "transformation-is-that-of-the-observation");
  }
  sv_check(outcome<OutOfBoundException<size_t>>([&] { c.getTransformation(used.size() + sv_choose("beyond", 2)); }) == 1, "absent-observation-is-out-of-bounds");
}
static VectorXd numbers(const char* n, int size) {
  VectorXd v(size);
  for (int i = 0; i < size; ++i) v(i) = sv_double(n);
  return v;
}
static MatrixXd matrix(const char* n, int r, int c) {
  MatrixXd m(r, c);
  for (int i = 0; i < r; ++i)
    for (int j = 0; j < c; ++j) m(i, j) = sv_double(n);
  return m;
}
static void deviations(const VectorXd& s, const VectorXd& v) {
  const char* id = "standard-deviations-are-the-roots-of-the-variances";
  sv_check(s.size() == v.size(), id);
  for (int i = 0; i < s.size() && i < v.size(); ++i) {
    sv_check(s(i) >= 0, id);
    sv_check_close(s(i) * s(i), v(i), id);
  }
}
static void intrinsics(Cal& c, CameraGeometryBase& g) {
  const int n = g.omni ? 5 : 4;
  g.params = numbers("projection", n);
  g.dist = numbers("distortion", 4);
  close(c.getProjection(), g.params, "projection-is-that-of-the-camera");
  close(c.getDistortion(), g.dist, "distortion-is-that-of-the-camera");
}
static void estimate(int n) {
  auto& e = *estimator;
  e.sigma2Theta = matrix("sigma2", n, n);
  for (int i = 0; i < n; ++i) sv_assume(e.sigma2Theta(i, i) >= 0);
  e.sigma2ThetaScaled = MatrixXd::Zero(n, n);
  e.nobsBasis = matrix("nobs", n, 2);
  e.nobsBasisScaled = matrix("nobs", n, 1);
  e.singularValues = numbers("sv", n);
  e.singularValuesScaled = numbers("sv", n);
  e.initialCost = sv_double("cost");
  e.finalCost = sv_double("cost");
  e.options.infoGainDelta = sv_double("delta");
  e.solverOptions.epsSVD = sv_double("eps");
}
SV_ENTRY(camera_results) {
  const bool omni = sv_choose("omni", 2);
  options.cameraProjectionType = omni ? "omni" : "pinhole";
  setup(2);
  Cal c(estimator, options);
  auto& g = *CameraGeometryBase::last;
  sv_check(g.omni == omni, "camera-is-of-the-configured-type");
  intrinsics(c, g);
  sv_check(c.getProjectionVariance().size() == 0 && c.getDistortionVariance().size() == 0 && c.getProjectionStandardDeviation().size() == 0 && c.getDistortionStandardDeviation().size() == 0, "no-variances-without-an-estimate");
  const int p = omni ? 5 : 4, n = p + 4;
  auto b = boost::make_shared<OptimizationProblem>();
  b->addDesignVariable(boost::make_shared<HDv>(1), CAMERA);
  estimator->problem.add(b);
  estimate(n);
  intrinsics(c, g);
  VectorXd pv = estimator->sigma2Theta.diagonal().head(p), dv = estimator->sigma2Theta.diagonal().segment(p, 4);
  close(c.getProjectionVariance(), pv, "projection-variance-is-its-part-of-the-marginal-covariance");
  close(c.getDistortionVariance(), dv, "distortion-variance-is-its-part-of-the-marginal-covariance");
  deviations(c.getProjectionStandardDeviation(), pv);
  deviations(c.getDistortionStandardDeviation(), dv);
  sv_check_close(c.getInitialCost(), estimator->initialCost, "costs-are-those-of-the-estimator");
  sv_check_close(c.getFinalCost(), estimator->finalCost, "costs-are-those-of-the-estimator");
  close(c.getNobsBasis(), estimator->nobsBasis, "unobservable-basis-is-that-of-the-estimator");
  close(c.getNobsBasis(true), estimator->nobsBasisScaled, "unobservable-basis-is-that-of-the-estimator");
  // the calibration file
  g.resolution = Resolution{(int)sv_int("u", 1, 10000), (int)sv_int("v", 1, 10000)};
  sm::PropertyTree t;
  c.write(t);
  const char* id = "calibration-file-has-the-estimates";
  auto number = [&](const std::string& k, double v) {
    sv_check(t.doesKeyExist(k), id);
    if (t.doesKeyExist(k)) sv_check_close(t.getDouble(k), v, id);
  };
  VectorXd ps = c.getProjectionStandardDeviation(), ds = c.getDistortionStandardDeviation();
  const char* names[] = {"xi", "fu", "fv", "cu", "cv"};
  for (int i = 0; i < p; ++i) {
    std::string k = names[omni ? i : i + 1];
    number("projection/" + k, g.params(i));
    number("projection/sigma_" + k, ps(i));
  }
  const char* coefficients[] = {"k1", "k2", "p1", "p2"};
  for (int i = 0; i < 4; ++i) {
    number(std::string("projection/distortion/") + coefficients[i], g.dist(i));
    number(std::string("projection/distortion/sigma_") + coefficients[i], ds(i));
  }
  sv_check(t.getInt("projection/ru") == g.resolution.u && t.getInt("projection/rv") == g.resolution.v, "calibration-file-has-the-resolution");
  sv_check(t.getString("projection/type") == options.cameraProjectionType, "calibration-file-has-the-type");
  auto basis = [&](const std::string& k, const MatrixXd& m) {
    for (int j = 0; j < m.cols(); ++j)
      for (int i = 0; i < m.rows(); ++i) number(k + "/c" + std::to_string(j) + "/r" + std::to_string(i), m(i, j));
  };
  basis("nobsBasis", estimator->nobsBasis);
  basis("nobsBasisScaled", estimator->nobsBasisScaled);
  for (int i = 0; i < n; ++i) {
    number("singularValues/x" + std::to_string(i), estimator->singularValues(i));
    number("scaledSingularValues/x" + std::to_string(i), estimator->singularValuesScaled(i));
  }
  number("epsSVD", estimator->solverOptions.epsSVD);
  number("infoGainDelta", estimator->options.infoGainDelta);
}
// the errors of the images used
SV_ENTRY(camera_statistics) {
  setup(2);
  Cal c(estimator, options);
  const int n = sv_choose("terms", 5), free = sv_choose("free", 4), coordinate = sv_choose("coordinate", 2);
  std::vector<Vector2d, Eigen::aligned_allocator<Vector2d>> e;
  std::vector<double> md2;
  auto& cam = *CameraGeometryDesignVariableContainer::last;
  for (int k = 0, j = 0; k < 2; ++k) {
    auto b = boost::make_shared<OptimizationProblem>();
    b->addDesignVariable(boost::make_shared<HDv>(1), CAMERA);
    b->addDesignVariable(boost::shared_ptr<DesignVariable>(&cam.projection, [](DesignVariable*) {}), CAMERA);
    b->addDesignVariable(boost::shared_ptr<DesignVariable>(&cam.distortion, [](DesignVariable*) {}), CAMERA);
    for (; j < (k ? n : n / 2); ++j) {
      Vector2d x(j - 1, 0.5 * j * j);
      if (j == free) x(coordinate) = sv_double("error");
      e.push_back(x);
      md2.push_back(sv_double("md2"));
      b->addErrorTerm(boost::make_shared<ReprojectionError>(Vector2d(j, 0), Eigen::Matrix2d::Identity(), HomogeneousExpression([] { return Vector4d(0, 0, 1, 1); }, {}), &cam));
    }
    estimator->problem.add(b);
  }
  ReprojectionError::evaluate = [&](ReprojectionError& r, Vector2d& out) {
    const int j = r.measured(0);
    out = e.at(j);
    return md2.at(j);
  };
  if (sv_choose("errors", 2)) {
    std::vector<Vector2d> errors(1, Vector2d(1, 2));
    std::vector<double> d(2, 7);
    c.getErrors(errors, d);
    const char* id = "errors-are-those-of-all-terms-in-order";
    sv_check((int)errors.size() == n && (int)d.size() == n, id);
    for (int i = 0; i < n && i < (int)errors.size() && i < (int)d.size(); ++i) {
      close(errors[i], e[i], id);
      sv_check_close(d[i], md2[i], id);
    }
    return;
  }
  Vector2d mean(0, 0), square(0, 0);
  double cross = 0, max[2] = {0, 0};
  for (auto& x : e) mean += x / n;
  for (auto& x : e)
    for (int k = 0; k < 2; ++k) {
      square(k) += (x(k) - mean(k)) * (x(k) - mean(k)) / n;
      if (x(k) > max[k]) max[k] = x(k);
      if (-x(k) > max[k]) max[k] = -x(k);
      if (k) cross += (x(0) - mean(0)) * (x(1) - mean(1)) / n;
    }
  // rounding decides whether points are nearly on a line
  if (n > 2) sv_assume(square(0) * square(1) - cross * cross > 1e-6);
  const bool valid = n && square(0) > 0 && square(0) * square(1) - cross * cross > 0;
  size_t outliers = 0;
  const double q = boost::math::quantile(boost::math::chi_squared_distribution<>(2), 0.975);
  for (auto x : md2) outliers += x > q;
  for (int repeat = 0; repeat < 2; ++repeat) {
    VectorXd m = VectorXd::Ones(1), v, s;
    double mx = -1, my = -1;
    size_t o = 99;
    c.getStatistics(m, v, s, mx, my, o);
    if (!valid) {
      sv_check(m.size() == 0 && v.size() == 0 && s.size() == 0 && mx == 0 && my == 0 && o == 0, "no-statistics-without-spread");
      continue;
    }
    close(m, mean, "mean-is-that-of-the-errors");
    close(v, square, "variance-is-that-of-the-errors");
    deviations(s, square);
    sv_check_close(mx, max[0], "largest-error-is-the-largest-magnitude");
    sv_check_close(my, max[1], "largest-error-is-the-largest-magnitude");
    sv_check(o == outliers, "outliers-are-beyond-the-quantile");
  }
}
#include "camera_options.h"
SV_ENTRY(camera_options) {
  Configured<Cal::Options> k;
  k.vision();
  const int type = sv_choose("type", 3);
  k.text("cameraProjectionType", &Cal::Options::cameraProjectionType, type == 0 ? "pinhole" : type == 1 ? "omni" : "box");
  k.flag("estimateLandmarks", &Cal::Options::estimateLandmarks);
  k.integer("landmarksGroupId", &Cal::Options::landmarksGroupId, sv_int("group", 0, 2147483647));
  k.integer("calibrationGroupId", &Cal::Options::calibrationGroupId, sv_int("group", 0, 2147483647));
  k.integer("transformationsGroupId", &Cal::Options::transformationsGroupId, sv_int("group", 0, 2147483647));
  k.integer("batchNumImages", &Cal::Options::batchNumImages, sv_int("images", 0, 2147483647));
  k.flag("useMEstimator", &Cal::Options::useMEstimator);
  sm::PropertyTree t;
  const size_t absent = k.write(t);
  const int mark = sv_int("mark", 0, 1000);
  t.setInt("estimator/mark", mark);
  Target::corner = [](size_t i) { return Vector3d(i, 0, 0); };
  const bool typed = absent < k.keys.size() && k.keys[absent] == "cameraProjectionType";
  boost::shared_ptr<Cal> c;
  try {
    c = boost::make_shared<Cal>(t);
  } catch (const BadArgumentException<std::string>&) {
    sv_check(type == 2 && !typed, "only-an-unknown-camera-type-is-refused");
    return;
  } catch (const std::runtime_error&) {
    sv_check(absent < k.keys.size(), "a-complete-configuration-is-accepted");
    return;
  }
  sv_check(type != 2 || typed, "an-unknown-camera-type-is-refused");
  k.check(c->getOptions(), absent);
  made(c->getOptions(), type == 1 && !typed);
  sv_check(c->getEstimator() && c->getEstimator()->mark == mark, "estimator-is-configured");
}
