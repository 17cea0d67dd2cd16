#pragma once
#include "DesignVariable.hpp"
#include <vector>
namespace aslam { namespace backend {
// accumulates dense Jacobians; chain rules are applied by the caller
class JacobianContainer {
 public:
  explicit JacobianContainer(int rows) : _rows(rows) {}
  virtual ~JacobianContainer() {}
  int rows() const { return _rows; }
  void add(DesignVariable* dv, const Eigen::Ref<const Eigen::MatrixXd>& J) {
    if (J.rows() != _rows || J.cols() != dv->minimalDimensions()) throw std::runtime_error("Jacobian has the wrong size");
    for (auto& e : _j)
      if (e.first == dv) {
        e.second += J;
        return;
      }
    _j.push_back(std::make_pair(dv, Eigen::MatrixXd(J)));
  }
  bool has(const DesignVariable* dv) const {
    for (auto& e : _j)
      if (e.first == dv) return true;
    return false;
  }
  const Eigen::MatrixXd& Jacobian(const DesignVariable* dv) const {
    for (auto& e : _j)
      if (e.first == dv) return e.second;
    throw std::runtime_error("no Jacobian for this design variable");
  }
  size_t numDesignVariables() const { return _j.size(); }
  void clear() { _j.clear(); }
 private:
  int _rows;
  std::vector<std::pair<DesignVariable*, Eigen::MatrixXd> > _j;
};
}}
