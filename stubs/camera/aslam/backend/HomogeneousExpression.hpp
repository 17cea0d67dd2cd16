#pragma once
#include <aslam/backend/Expressions.hpp>
namespace aslam { namespace backend {
struct HomogeneousExpression : Lazy<Eigen::Vector4d> {
  HomogeneousExpression() {}
  HomogeneousExpression(std::function<Eigen::Vector4d()> g, DesignVariable::set_t d) : Lazy(g, d) {}
  Eigen::Vector4d toHomogeneous() const { return f(); }
};
inline HomogeneousExpression operator*(const TransformationExpression& T, const HomogeneousExpression& p) {
  auto a = T.f;
  auto b = p.f;
  return HomogeneousExpression([a, b] { return Eigen::Vector4d(a() * b()); }, both(T.dvs, p.dvs));
}
}}
