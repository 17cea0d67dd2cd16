#pragma once
#include <aslam/backend/DesignVariable.hpp>
#include <aslam/backend/JacobianContainer.hpp>
#include <aslam/backend/FixedPointNumber.hpp>
#include <sm/kinematics/quaternion_algebra.hpp>
#include <Eigen/Dense>
#include <boost/shared_ptr.hpp>
#include <functional>
namespace aslam { namespace backend {
class Scalar;
class EuclideanPoint;
class RotationQuaternion;
// a value computed on request, and the design variables it depends on
template <typename T> struct Lazy {
  std::function<T()> f;
  DesignVariable::set_t dvs;
  Lazy() {}
  Lazy(std::function<T()> g, DesignVariable::set_t d) : f(g), dvs(d) {}
  void getDesignVariables(DesignVariable::set_t& s) const { s.insert(dvs.begin(), dvs.end()); }
  void evaluateJacobians(JacobianContainer&, const Eigen::MatrixXd&) const { throw std::runtime_error("the stand-in has no Jacobians"); }
};
inline DesignVariable::set_t both(const DesignVariable::set_t& a, const DesignVariable::set_t& b) {
  DesignVariable::set_t s(a);
  s.insert(b.begin(), b.end());
  return s;
}
template <int D> struct VectorExpression : Lazy<Eigen::Matrix<double, D, 1>> {
  using Lazy<Eigen::Matrix<double, D, 1>>::Lazy;
  Eigen::Matrix<double, D, 1> toValue() const { return this->f(); }
};
// what the quaternion of a spline stands for
struct RotationVectorExpression : Lazy<Eigen::Matrix3d> {
  using Lazy<Eigen::Matrix3d>::Lazy;
  Eigen::Vector4d toValue() const { return sm::kinematics::r2quat(f()); }
};
struct ScalarExpression : Lazy<double> {
  ScalarExpression() {}
  ScalarExpression(std::function<double()> g, DesignVariable::set_t d) : Lazy(g, d) {}
  ScalarExpression(double v, DesignVariable* d) : Lazy([v] { return v; }, {d}) {}
  template <class S> ScalarExpression(const boost::shared_ptr<S>& s) : Lazy([s] { return s->toScalar(); }, {s.get()}) {}
  double toScalar() const { return f(); }
  double toValue() const { return f(); }
};
struct EuclideanExpression : Lazy<Eigen::Vector3d> {
  EuclideanExpression() {}
  EuclideanExpression(std::function<Eigen::Vector3d()> g, DesignVariable::set_t d) : Lazy(g, d) {}
  EuclideanExpression(const Eigen::Vector3d& v, DesignVariable* d) : Lazy([v] { return v; }, {d}) {}
  EuclideanExpression(const Eigen::Vector3d& v) : Lazy([v] { return v; }, {}) {}
  EuclideanExpression(const VectorExpression<3>& e) : Lazy(e.f, e.dvs) {}
  template <class P> EuclideanExpression(const boost::shared_ptr<P>& p) : Lazy([p] { return Eigen::Vector3d(p->toEuclidean()); }, {p.get()}) {}
  Eigen::Vector3d toValue() const { return f(); }
  Eigen::Vector3d toEuclidean() const { return f(); }
  EuclideanExpression operator+(const EuclideanExpression& o) const {
    auto a = f, b = o.f;
    return EuclideanExpression([a, b] { return Eigen::Vector3d(a() + b()); }, both(dvs, o.dvs));
  }
  EuclideanExpression operator-(const EuclideanExpression& o) const {
    auto a = f, b = o.f;
    return EuclideanExpression([a, b] { return Eigen::Vector3d(a() - b()); }, both(dvs, o.dvs));
  }
  EuclideanExpression operator-() const {
    auto a = f;
    return EuclideanExpression([a] { return Eigen::Vector3d(-a()); }, dvs);
  }
  EuclideanExpression operator*(const ScalarExpression& o) const {
    auto a = f;
    auto b = o.f;
    return EuclideanExpression([a, b] { return Eigen::Vector3d(a() * b()); }, both(dvs, o.dvs));
  }
  EuclideanExpression cross(const EuclideanExpression& o) const {
    auto a = f, b = o.f;
    return EuclideanExpression([a, b] { return Eigen::Vector3d(a().cross(b())); }, both(dvs, o.dvs));
  }
};
struct RotationExpression : Lazy<Eigen::Matrix3d> {
  RotationExpression() {}
  RotationExpression(std::function<Eigen::Matrix3d()> g, DesignVariable::set_t d) : Lazy(g, d) {}
  template <class Q> RotationExpression(const boost::shared_ptr<Q>& q) : Lazy([q] { return Eigen::Matrix3d(q->toRotationMatrix()); }, {q.get()}) {}
  Eigen::Matrix3d toRotationMatrix() const { return f(); }
  RotationExpression inverse() const {
    auto a = f;
    return RotationExpression([a] { return Eigen::Matrix3d(a().transpose()); }, dvs);
  }
  EuclideanExpression operator*(const EuclideanExpression& o) const {
    auto a = f;
    auto b = o.f;
    return EuclideanExpression([a, b] { return Eigen::Vector3d(a() * b()); }, both(dvs, o.dvs));
  }
  RotationExpression operator*(const RotationExpression& o) const {
    auto a = f, b = o.f;
    return RotationExpression([a, b] { return Eigen::Matrix3d(a() * b()); }, both(dvs, o.dvs));
  }
};
struct TransformationExpression : Lazy<Eigen::Matrix4d> {
  TransformationExpression() {}
  TransformationExpression(std::function<Eigen::Matrix4d()> g, DesignVariable::set_t d) : Lazy(g, d) {}
  TransformationExpression(const Eigen::Matrix4d& v, DesignVariable* d) : Lazy([v] { return v; }, {d}) {}
  TransformationExpression(const RotationExpression& R, const EuclideanExpression& t) {
    auto a = R.f;
    auto b = t.f;
    f = [a, b] {
      Eigen::Matrix4d T = Eigen::Matrix4d::Identity();
      T.topLeftCorner<3, 3>() = a();
      T.topRightCorner<3, 1>() = b();
      return T;
    };
    dvs = both(R.dvs, t.dvs);
  }
  bool root() const { return (bool)f; }
  Eigen::Matrix4d toTransformationMatrix() const { return f(); }
  TransformationExpression inverse() const {
    auto a = f;
    return TransformationExpression([a] {
      Eigen::Matrix4d T = a(), I = Eigen::Matrix4d::Identity();
      I.topLeftCorner<3, 3>() = T.topLeftCorner<3, 3>().transpose();
      I.topRightCorner<3, 1>() = -(I.topLeftCorner<3, 3>() * T.topRightCorner<3, 1>());
      return I;
    }, dvs);
  }
  TransformationExpression operator*(const TransformationExpression& o) const {
    auto a = f, b = o.f;
    return TransformationExpression([a, b] { return Eigen::Matrix4d(a() * b()); }, both(dvs, o.dvs));
  }
};
template <typename S> struct GenericScalarExpression : Lazy<S> {
  GenericScalarExpression(std::function<S()> g, DesignVariable::set_t d) : Lazy<S>(g, d) {}
  template <class V> explicit GenericScalarExpression(V v) : Lazy<S>([v] { return S(v); }, {}) {}
  S toScalar() const { return this->f(); }
  GenericScalarExpression operator+(const GenericScalarExpression& o) const {
    auto a = this->f, b = o.f;
    return GenericScalarExpression(std::function<S()>([a, b] { return a() + b(); }), both(this->dvs, o.dvs));
  }
  GenericScalarExpression operator-(const GenericScalarExpression& o) const {
    auto a = this->f, b = o.f;
    return GenericScalarExpression(std::function<S()>([a, b] { return a() - b(); }), both(this->dvs, o.dvs));
  }
};
}}
