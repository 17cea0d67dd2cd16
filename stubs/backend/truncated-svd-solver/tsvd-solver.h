#pragma once
#include <Eigen/Core>
#include <cholmod.h>
#include <cstddef>
#include <truncated-svd-solver/tsvd-solver-options.h>
namespace truncated_svd_solver {
// the numeric results are whatever the harness installs
struct SvdResult {
  std::ptrdiff_t svdRank = -1, svdRankDeficiency = -1, qrRank = -1, qrRankDeficiency = -1;
  double svdTol = -1, qrTol = -1, log2Sum = 0, flops = 0;
  size_t peak = 0, mem = 0;
  Eigen::VectorXd sv;
  Eigen::MatrixXd nullSpace, rowSpace, cov, rowCov, V;
};
class TruncatedSvdSolver {
 public:
  typedef TruncatedSvdSolverOptions Options;
  TruncatedSvdSolver(const Options& o = Options()) : tsvd_options_(o), margStartIndex_(0) {
    cholmod_.live = 0;
    cholmod_.failTranspose = false;
  }
  virtual ~TruncatedSvdSolver() {}
  const Options& getOptions() const { return tsvd_options_; }
  Options& getOptions() { return tsvd_options_; }
  std::ptrdiff_t getSVDRank() const { return res.svdRank; }
  std::ptrdiff_t getSVDRankDeficiency() const { return res.svdRankDeficiency; }
  std::ptrdiff_t getQRRank() const { return res.qrRank; }
  std::ptrdiff_t getQRRankDeficiency() const { return res.qrRankDeficiency; }
  std::ptrdiff_t getMargStartIndex() const { return margStartIndex_; }
  void setMargStartIndex(std::ptrdiff_t i) { margStartIndex_ = i; ++margSets; }
  double getQRTolerance() const { return res.qrTol; }
  double getSVDTolerance() const { return res.svdTol; }
  const Eigen::VectorXd& getSingularValues() const { return res.sv; }
  const Eigen::MatrixXd& getMatrixU() const { return res.V; }
  const Eigen::MatrixXd& getMatrixV() const { return res.V; }
  Eigen::MatrixXd getNullSpace() const { return res.nullSpace; }
  Eigen::MatrixXd getRowSpace() const { return res.rowSpace; }
  Eigen::MatrixXd getCovariance() const { return res.cov; }
  Eigen::MatrixXd getRowSpaceCovariance() const { return res.rowCov; }
  double getSingularValuesLog2Sum() const { return res.log2Sum; }
  size_t getPeakMemoryUsage() const { return res.peak; }
  size_t getMemoryUsage() const { return res.mem; }
  double getNumFlops() const { return res.flops; }
  double getLinearSolverTime() const { return 0; }
  double getMarginalAnalysisTime() const { return 0; }
  double getSymbolicFactorizationTime() const { return 0; }
  double getNumericFactorizationTime() const { return 0; }
  void clear() { res = SvdResult(); ++clears; }
  void solve(cholmod_sparse* A, cholmod_dense* b, size_t j, Eigen::VectorXd& x) {
    lastA = *A;
    lastB = *b;
    lastJ = j;
    ++solves;
    res = solveResult;
    x = dx;
  }
  void analyzeMarginal(cholmod_sparse* A, size_t j) {
    lastA = *A;
    lastJ = j;
    ++analyses;
    res = marginalResult;
  }
  // hooks
  SvdResult res, solveResult, marginalResult;
  Eigen::VectorXd dx;
  cholmod_sparse lastA = {};
  cholmod_dense lastB = {};
  size_t lastJ = 0;
  int solves = 0, analyses = 0, clears = 0, margSets = 0;
  cholmod_common& common() { return cholmod_; }
 protected:
  Options tsvd_options_;
  std::ptrdiff_t margStartIndex_;
  cholmod_common cholmod_;
};
}
