#pragma once
#include <aslam/backend/Expressions.hpp>
namespace aslam { namespace backend {
struct Vector2RotationQuaternionExpressionAdapter {
  static RotationExpression adapt(const RotationVectorExpression& e) { return RotationExpression(e.f, e.dvs); }
};
}}
