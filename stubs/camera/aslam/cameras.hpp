#pragma once
#include <Eigen/Core>
#include <functional>
#include <sm/PropertyTree.hpp>
#include <opencv2/core/core.hpp>
namespace aslam { namespace cameras {
struct Resolution {
  int u, v;
  int ru() const { return u; }
  int rv() const { return v; }
};
class CameraGeometryBase {
 public:
  CameraGeometryBase(int p, bool o) : omni(o), configuration(nullptr), params(p), dist(4), resolution{640, 480} { params.setZero(); dist.setZero(); }
  virtual ~CameraGeometryBase() {}
  void getParameters(Eigen::MatrixXd& P, bool projection, bool distortion, bool shutter) const {
    Eigen::VectorXd x((projection ? params.size() : 0) + (distortion ? dist.size() : 0) + shutter);
    int n = 0;
    if (projection) for (int i = 0; i < params.size(); ++i) x(n++) = params(i);
    if (distortion) for (int i = 0; i < dist.size(); ++i) x(n++) = dist(i);
    if (shutter) x(n++) = 0;
    P = x;
  }
  int minimalDimensionsProjection() const { return params.size(); }
  int minimalDimensionsDistortion() const { return dist.size(); }
  int minimalDimensionsShutter() const { return 1; }
  bool vsHomogeneousToKeypoint(const Eigen::VectorXd& p, Eigen::VectorXd& k) const {
    k.resize(2);
    return project(p, k);
  }
  const Resolution& projection() const { return resolution; }
  // harness
  bool omni;
  const sm::PropertyTree* configuration;
  Eigen::VectorXd params, dist;
  Resolution resolution;
  static std::function<bool(const Eigen::VectorXd&, Eigen::VectorXd&)> project;
  static CameraGeometryBase* last;
};
struct DistortedOmniCameraGeometry : CameraGeometryBase {
  DistortedOmniCameraGeometry() : CameraGeometryBase(5, true) { last = this; }
  DistortedOmniCameraGeometry(const sm::PropertyTree& t) : CameraGeometryBase(5, true) { configuration = &t; last = this; }
};
struct DistortedPinholeCameraGeometry : CameraGeometryBase {
  DistortedPinholeCameraGeometry() : CameraGeometryBase(4, false) { last = this; }
  DistortedPinholeCameraGeometry(const sm::PropertyTree& t) : CameraGeometryBase(4, false) { configuration = &t; last = this; }
};
}}
