#pragma once
namespace truncated_svd_solver {
struct TruncatedSvdSolverOptions {
  bool columnScaling = false;
  double epsNorm = 1e-4, epsSVD = 1e-4, epsQR = 1e-4, svdTol = -1.0, qrTol = -1.0;
  bool verbose = false;
};
}
