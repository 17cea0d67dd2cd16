#pragma once
#include <Eigen/Core>
#include <cholmod.h>
namespace truncated_svd_solver {
inline void eigenDenseToCholmodDenseView(const Eigen::VectorXd& v, cholmod_dense* d) {
  d->nrow = v.size();
  d->ncol = 1;
  d->x = const_cast<double*>(v.data());
}
}
