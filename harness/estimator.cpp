// The incremental estimator with its real problem containers and its real
// solver wrapper; the optimizer and the SVD are replaced by stand-ins whose
// outcomes (new parameter values, costs, iterations, ranks, singular value
// sums, bases, covariances, ...) are symbolic.
#include "core_common.h"
#include <aslam/backend/Optimizer2.hpp>
#include <aslam/calibration/core/IncrementalEstimator.h>
#include <aslam/calibration/core/IncrementalOptimizationProblem.h>
#include <aslam/calibration/core/OptimizationProblem.h>
#include <aslam/calibration/exceptions/InvalidOperationException.h>
#include <aslam/calibration/exceptions/OutOfBoundException.h>
#include <sm/PropertyTree.hpp>
#include <sys/time.h>
using namespace aslam::calibration;
using aslam::backend::DesignVariable;
using aslam::backend::Optimizer2;
using aslam::backend::SolutionReturnValue;
typedef std::ptrdiff_t idx_t;
typedef aslam::backend::CompressedColumnJacobianTransposeBuilder<idx_t> Builder;
typedef truncated_svd_solver::SvdResult Svd;

extern "C" int gettimeofday(struct timeval* tv, void*) noexcept {
  static long t = 0;
  tv->tv_sec = ++t;
  tv->tv_usec = 0;
  return 0;
}

struct World;
static World* W;
static Svd symSvd(int n) {
  Svd r;
  r.svdRank = sv_int("rank", 0, 8);
  r.svdRankDeficiency = sv_int("def", 0, 8);
  r.qrRank = sv_int("qrank", 0, 8);
  r.qrRankDeficiency = sv_int("qdef", 0, 8);
  r.svdTol = sv_double("svdTol");
  r.qrTol = sv_double("qrTol");
  r.log2Sum = sv_double("log2sum");
  r.flops = sv_double("flops");
  r.peak = sv_int("peak", 0, 1000);
  r.mem = sv_int("mem", 0, 1000);
  r.sv = Eigen::VectorXd::Constant(n, sv_double("sv"));
  r.nullSpace = Eigen::MatrixXd::Constant(1, n, sv_double("null"));
  r.rowSpace = Eigen::MatrixXd::Constant(n, 1, sv_double("row"));
  r.cov = Eigen::MatrixXd::Constant(1, 1, sv_double("cov"));
  r.rowCov = Eigen::MatrixXd::Constant(1, n, sv_double("rowcov"));
  return r;
}

template <class A, class B> static bool same(const A& a, const B& b) {
  if (a.rows() != b.rows() || a.cols() != b.cols()) return false;
  bool r = true;
  for (int i = 0; i < a.rows(); ++i)
    for (int j = 0; j < a.cols(); ++j) r &= bitEqual(a(i, j), b(i, j));
  return r;
}

// everything the estimator publishes
struct Stats {
  double gain, svdTol, qrTol, flops, j0, j1;
  idx_t rt, rtd, rp, rpd;
  size_t peak, mem;
  Eigen::MatrixXd m[10];
  explicit Stats(const IncrementalEstimator& e)
      : gain(e.getInformationGain()), svdTol(e.getSVDTolerance()), qrTol(e.getQRTolerance()), flops(e.getNumFlops()), j0(e.getInitialCost()), j1(e.getFinalCost()), rt(e.getRankTheta()),
        rtd(e.getRankThetaDeficiency()), rp(e.getRankPsi()), rpd(e.getRankPsiDeficiency()), peak(e.getPeakMemoryUsage()), mem(e.getMemoryUsage()) {
    for (int s = 0; s < 2; ++s) {
      m[s] = e.getNobsBasis(s);
      m[2 + s] = e.getObsBasis(s);
      m[4 + s] = e.getSigma2Theta(s);
      m[6 + s] = e.getSigma2ThetaObs(s);
      m[8 + s] = e.getSingularValues(s);
    }
  }
  bool operator==(const Stats& o) const {
    bool r = bitEqual(gain, o.gain) & bitEqual(svdTol, o.svdTol) & bitEqual(qrTol, o.qrTol) & bitEqual(flops, o.flops) & bitEqual(j0, o.j0) & bitEqual(j1, o.j1) & (rt == o.rt) & (rtd == o.rtd) & (rp == o.rp) &
             (rpd == o.rpd) & (peak == o.peak) & (mem == o.mem);
    for (int i = 0; i < 10; ++i) r &= same(m[i], o.m[i]);
    return r;
  }
};

struct World {
  enum { ND = 4, MARG = 2 };
  IncrementalEstimator e;
  boost::shared_ptr<HDv> dv[ND];  // 0, 1: group 7; 2: group 4; 3: the marginalized group
  size_t grp[ND];
  boost::shared_ptr<OptimizationProblem> batch[3];
  boost::shared_ptr<HEt> et[3][2];
  // last optimization
  int runs = 0;
  bool fail = false;
  SolutionReturnValue srv;
  Svd scaled, unscaled;
  bool margLast = false;
  long margStart = -1, margWant = -1;
  static IncrementalEstimator::Options opts(double delta, bool check) {
    IncrementalEstimator::Options o;
    o.infoGainDelta = delta;
    o.checkValidity = check;
    return o;
  }
  static LinearSolverOptions lopts(bool scaling) {
    LinearSolverOptions o;
    o.columnScaling = scaling;
    return o;
  }
  static aslam::backend::Optimizer2Options oopts(int maxIt) {
    aslam::backend::Optimizer2Options o;
    o.maxIterations = maxIt;
    o.numThreadsJacobian = 3;
    return o;
  }
  World(double delta, bool check, bool scaling, int maxIt) : e(MARG, opts(delta, check), lopts(scaling), oopts(maxIt)) {
    W = this;
    Optimizer2::hook = &optimizeHook;
    static const size_t g[ND] = {7, 7, 4, MARG};
    for (int i = 0; i < ND; ++i) {
      dv[i] = boost::make_shared<HDv>(i + 1);
      dv[i]->setActive(true);
      dv[i]->value = sv_double("v");
      grp[i] = g[i];
    }
  }
  void makeBatch(int b, const std::vector<int>& d, int nEt) {
    batch[b] = boost::make_shared<OptimizationProblem>();
    for (int i : d) batch[b]->addDesignVariable(dv[i], grp[i]);
    for (int k = 0; k < nEt; ++k) {
      et[b][k] = boost::make_shared<HEt>(k + 2);
      batch[b]->addErrorTerm(et[b][k]);
    }
  }
  aslam::backend::AslamTruncatedSvdSolver* solver() { return e.getOptimizer().getSolver<aslam::backend::AslamTruncatedSvdSolver>(); }
  static SolutionReturnValue optimizeHook(Optimizer2& o, std::vector<DesignVariable*>& dvs) {
    World& w = *W;
    ++w.runs;
    auto p = w.e.getProblem();
    auto& ord = p->getGroupsOrdering();
    w.margLast = !ord.empty() && ord.back() == MARG;
    auto s = w.solver();
    w.margStart = s->getMargStartIndex();
    w.margWant = 0;
    for (auto d : dvs)
      if (p->getGroupId(d) != MARG) w.margWant += d->minimalDimensions();
    if (w.fail) throw std::runtime_error("optimizer failure");
    w.scaled = symSvd(1);
    w.unscaled = symSvd(2);
    s->solveResult = w.scaled;
    s->marginalResult = w.unscaled;
    s->dx = Eigen::VectorXd::Zero(1);
    Eigen::VectorXd dx;
    s->solveSystem(dx);
    for (auto d : dvs) static_cast<HDv*>(d)->value = sv_double("opt");
    w.srv.iterations = sv_int("it", 0, 5);
    w.srv.JStart = sv_double("J0");
    w.srv.JFinal = sv_double("J1");
    return w.srv;
  }
  std::vector<double> values() const {
    std::vector<double> v;
    for (int i = 0; i < ND; ++i) v.push_back(dv[i]->value);
    return v;
  }
  static bool sameValues(const std::vector<double>& a, const std::vector<double>& b) {
    bool r = true;
    for (size_t i = 0; i < a.size(); ++i) r &= bitEqual(a[i], b[i]);
    return r;
  }
  struct Layout {
    std::vector<const DesignVariable*> dvs;
    std::vector<size_t> groups;
    std::vector<const aslam::backend::ErrorTerm*> ets;
    std::vector<const OptimizationProblem*> batches;
    bool operator==(const Layout& o) const { return dvs == o.dvs && groups == o.groups && ets == o.ets && batches == o.batches; }
  };
  Layout layout() const {
    Layout l;
    auto p = e.getProblem();
    for (size_t i = 0; i < p->numDesignVariables(); ++i) l.dvs.push_back(p->designVariable(i));
    for (size_t i = 0; i < p->numErrorTerms(); ++i) l.ets.push_back(p->errorTerm(i));
    for (size_t i = 0; i < p->getNumOptimizationProblems(); ++i) l.batches.push_back(p->getOptimizationProblem(i));
    l.groups = p->getGroupsOrdering();
    return l;
  }
  // the published statistics are those of the last optimization
  void checkStats(double gain, bool scaling) {
    Stats s(e);
    sv_check(bitEqual(s.gain, gain) & (s.rt == unscaled.svdRank) & (s.rtd == unscaled.svdRankDeficiency) & (s.rp == unscaled.qrRank) & (s.rpd == unscaled.qrRankDeficiency), "gain-and-ranks-are-those-of-the-solution");
    sv_check(bitEqual(s.svdTol, unscaled.svdTol) & bitEqual(s.qrTol, unscaled.qrTol) & bitEqual(s.flops, unscaled.flops) & (s.peak == unscaled.peak) & (s.mem == unscaled.mem) & bitEqual(s.j0, srv.JStart) &
                 bitEqual(s.j1, srv.JFinal),
             "tolerances-costs-and-memory-are-those-of-the-solution");
    sv_check(same(s.m[0], unscaled.nullSpace) & same(s.m[2], unscaled.rowSpace) & same(s.m[4], unscaled.cov) & same(s.m[6], unscaled.rowCov) & same(s.m[8], unscaled.sv), "bases-and-covariances-are-those-of-the-solution");
    if (scaling)
      sv_check(same(s.m[1], scaled.nullSpace) & same(s.m[3], scaled.rowSpace) & same(s.m[5], scaled.cov) & same(s.m[7], scaled.rowCov) & same(s.m[9], scaled.sv), "scaled-results-are-those-of-the-scaled-solution");
    else
      sv_check(s.m[1].size() + s.m[3].size() + s.m[5].size() + s.m[7].size() + s.m[9].size() == 0, "no-scaled-results-without-scaling");
  }
  void checkReturn(const IncrementalEstimator::ReturnValue& r, bool scaling) {
    sv_check((r.rankPsi == unscaled.qrRank) & (r.rankPsiDeficiency == unscaled.qrRankDeficiency) & (r.rankTheta == unscaled.svdRank) & (r.rankThetaDeficiency == unscaled.svdRankDeficiency) & bitEqual(r.svdTolerance, unscaled.svdTol) &
                 bitEqual(r.qrTolerance, unscaled.qrTol) & same(r.nobsBasis, unscaled.nullSpace) & same(r.obsBasis, unscaled.rowSpace) & same(r.sigma2Theta, unscaled.cov) & same(r.sigma2ThetaObs, unscaled.rowCov) &
                 same(r.singularValues, unscaled.sv) & (r.numIterations == (size_t)srv.iterations) & bitEqual(r.JStart, srv.JStart) & bitEqual(r.JFinal, srv.JFinal),
             "returned-statistics-are-those-of-the-solution");
    if (scaling)
      sv_check(same(r.nobsBasisScaled, scaled.nullSpace) & same(r.obsBasisScaled, scaled.rowSpace) & same(r.sigma2ThetaScaled, scaled.cov) & same(r.sigma2ThetaObsScaled, scaled.rowCov) & same(r.singularValuesScaled, scaled.sv),
               "returned-scaled-statistics");
    else
      sv_check(r.nobsBasisScaled.size() + r.obsBasisScaled.size() + r.sigma2ThetaScaled.size() + r.sigma2ThetaObsScaled.size() + r.singularValuesScaled.size() == 0, "returned-scaled-statistics");
  }
  // the solver was last laid out for exactly the current problem
  void checkSolverLayout() {
    auto p = e.getProblem();
    Builder* b = Builder::last;
    sv_check(b != nullptr, "solver-initialised");
    size_t k = 0;
    int col = 0;
    bool ok = true;
    for (size_t i = 0; i < p->numDesignVariables(); ++i) {
      const DesignVariable* d = p->designVariable(i);
      if (!d->isActive()) continue;
      ok = ok && k < b->layout.dvs.size() && b->layout.dvs[k] == d && b->layout.blockIndex[k] == (int)k && b->layout.columnBase[k] == col && d->blockIndex() == (int)k && d->columnBase() == col;
      ++k;
      col += d->minimalDimensions();
    }
    ok = ok && k == b->layout.dvs.size();
    sv_check(ok, "solver-columns-follow-the-active-variables");
    size_t row = 0;
    ok = b->layout.ets.size() == p->numErrorTerms();
    for (size_t i = 0; ok && i < p->numErrorTerms(); ++i) {
      ok = b->layout.ets[i] == p->errorTerm(i) && b->layout.rowBase[i] == row && p->errorTerm(i)->rowBase() == row;
      row += p->errorTerm(i)->dimension();
    }
    sv_check(ok, "solver-rows-follow-the-error-terms");
    sv_check(b->layout.builds == 1 && b->threads == 3 && b->mEstimator, "jacobian-rebuilt-with-the-optimizer-options");
    sv_check(e.getJacobianTranspose().rows() == col && e.getJacobianTranspose().cols() == (idx_t)row, "published-jacobian-has-the-size-of-the-problem");
  }
};
SolutionReturnValue (*aslam::backend::Optimizer2::hook)(Optimizer2&, std::vector<DesignVariable*>&) = nullptr;

// batch contents: theta first or last, shared or new variables, new groups
static void symBatch(World& w, int b, int nEt) {
  switch (sv_choose("content", SV_T(4, 6))) {
    case 0: w.makeBatch(b, {0, 3}, nEt); break;
    case 1: w.makeBatch(b, {3, 1}, nEt); break;
    case 2: w.makeBatch(b, {3, 1, 2}, nEt); break;
    case 3: w.makeBatch(b, {2, 0, 3}, nEt); break;
    case 4: w.makeBatch(b, {3}, nEt); break;
    default: w.makeBatch(b, {2, 3, 1, 0}, nEt);
  }
}

// P01: a rejected batch leaves no trace, an accepted one is in
SV_ENTRY(reject_or_accept) {
  bool scaling = sv_choose("scaling", 2), check = sv_choose("check", 2);
  World w(sv_double("delta"), check, scaling, sv_int("maxIt", 1, 5));
  w.dv[1]->setActive(sv_choose("active", 2));
  symBatch(w, 0, 1);
  symBatch(w, 1, 2);
  long n0 = sv_choose("first", 2);
  if (n0) w.e.addBatch(w.batch[0], true);
  std::vector<double> before = w.values();
  Stats s0(w.e);
  World::Layout l0 = w.layout();
  bool force = sv_choose("force", 2);
  auto r = w.e.addBatch(w.batch[1], force);
  std::vector<double> after = w.values();
  w.checkReturn(r, scaling);
  if (force) sv_check(r.batchAccepted, "forced-batch-is-accepted");
  if (r.batchAccepted) {
    sv_check(w.e.getNumBatches() == (size_t)n0 + 1 && w.e.getProblem()->getOptimizationProblem(n0) == w.batch[1].get(), "accepted-batch-is-in-the-estimator");
    w.checkStats(r.informationGain, scaling);
    w.checkSolverLayout();
  } else {
    sv_check(World::sameValues(before, after), "rejected-batch-leaves-every-parameter-as-it-was");
    sv_check(w.layout() == l0 && w.e.getNumBatches() == (size_t)n0, "rejected-batch-is-not-in-the-estimator");
    sv_check(Stats(w.e) == s0, "rejected-batch-leaves-the-statistics-as-they-were");
    if (n0) w.checkSolverLayout();
  }
}

// P02: the decision, over histories of outcomes
static void decide(int batches) {
  double delta = sv_double("delta");
  bool check = sv_bool("checkValidity");
  long maxIt = sv_int("maxIt", 1, 5);
  World w(delta, check, false, maxIt);
  w.makeBatch(0, {0, 3}, 1);
  w.makeBatch(1, {1, 3}, 1);
  w.makeBatch(2, {2, 3}, 1);
  double sum = 0;
  long rank = -1, n = 0;
  for (int b = 0; b < batches; ++b) {
    bool force = sv_bool("force");
    auto r = w.e.addBatch(w.batch[b], force);
    double gain = 0.5 * (w.unscaled.log2Sum - sum);
    sv_check(bitEqual(r.informationGain, gain) | ((r.informationGain != r.informationGain) & (gain != gain)), "information-gain-is-relative-to-the-last-accepted-batch");
    bool valid = !(check && (w.srv.iterations == maxIt || w.srv.JFinal >= w.srv.JStart));
    bool keep = force || (valid && (gain > delta || (long)w.unscaled.svdRank > rank));
    sv_check(r.batchAccepted == keep, "accepted-iff-forced-or-valid-and-informative");
    if (r.batchAccepted) {
      sum = w.unscaled.log2Sum;
      rank = w.unscaled.svdRank;
      ++n;
      sv_check(bitEqual(w.e.getInformationGain(), r.informationGain) && w.e.getRankTheta() == rank, "published-gain-and-rank");
    }
    sv_check((long)w.e.getNumBatches() == n, "number-of-batches");
  }
}

SV_ENTRY(decision) { decide(SV_T(2, 3)); }
SV_ENTRY(decision_three) { decide(3); }

// the decision right after options were changed through the accessors
SV_ENTRY(decision_options) {
  World w(sv_double("d0"), sv_bool("c0"), false, 20);
  double delta = sv_double("delta");
  bool check = sv_bool("checkValidity");
  long maxIt = sv_int("maxIt", 1, 5);
  w.e.getOptions().infoGainDelta = delta;
  w.e.getOptions().checkValidity = check;
  w.e.getOptimizerOptions().maxIterations = maxIt;
  w.makeBatch(0, {0, 3}, 1);
  auto r = w.e.addBatch(w.batch[0]);
  double gain = 0.5 * w.unscaled.log2Sum;
  bool valid = !(check && (w.srv.iterations == maxIt || w.srv.JFinal >= w.srv.JStart));
  sv_check(r.batchAccepted == (valid && (gain > delta || (long)w.unscaled.svdRank > -1)), "accepted-iff-valid-and-informative");
}

// P03: the marginalized group is last and the boundary is right whenever the
// optimizer runs
SV_ENTRY(marginal_boundary) {
  World w(sv_double("delta"), false, false, 5);
  for (int i = 0; i < 4; ++i) w.dv[i]->setActive(sv_choose("active", 2));
  symBatch(w, 0, 1);
  symBatch(w, 1, 2);
  for (int b = 0; b < 2; ++b) {
    auto r = w.e.addBatch(w.batch[b], sv_choose("force", 2));
    sv_check(w.runs == b + 1, "the-optimizer-runs-once");
    sv_check(w.margLast, "marginalized-group-is-last");
    sv_check(w.margStart == w.margWant, "marginalization-starts-after-all-other-active-variables");
    if (r.batchAccepted || w.e.getNumBatches()) w.checkSolverLayout();
  }
  if (w.e.getNumBatches() == 0) return;
  w.e.reoptimize();
  sv_check(w.runs == 3 && w.margLast && w.margStart == w.margWant, "the-same-for-reoptimization");
  w.checkSolverLayout();
}

// P07: a batch that cannot be added leaves the estimator as it was
SV_ENTRY(failed_add) {
  World w(sv_double("delta"), false, false, 5);
  symBatch(w, 0, 1);
  bool first = sv_choose("first", 2);
  if (first) w.e.addBatch(w.batch[0], true);
  std::vector<double> before = w.values();
  Stats s0(w.e);
  World::Layout l0 = w.layout();
  long kind = sv_choose("kind", 4);
  bool mustThrow = true;
  if (kind == 0) {
    w.makeBatch(1, {0, 1}, 1);  // no marginalized variable
    mustThrow = !first;
  } else if (kind == 1) {
    w.makeBatch(1, {1, 3}, 2);
    w.batch[1]->addErrorTerm(w.et[0][0]);  // a term of batch 0
    mustThrow = first;
  } else if (kind == 2) {
    w.grp[3] = 7;  // another group for a known variable
    w.makeBatch(1, {1, 2, 3}, 1);
  } else
    w.batch[1] = boost::shared_ptr<OptimizationProblem>();
  bool thrown = false;
  try {
    w.e.addBatch(w.batch[1], true);
  } catch (const Exception&) {
    thrown = true;
  }
  sv_check(thrown == mustThrow, "inconsistent-batch-is-refused-with-an-exception");
  if (!thrown) return;
  sv_check(w.layout() == l0 && w.e.getNumBatches() == (size_t)first, "refused-batch-is-not-in-the-estimator");
  sv_check(World::sameValues(before, w.values()) && Stats(w.e) == s0, "refused-batch-leaves-parameters-and-statistics-as-they-were");
}

// P04: re-optimization and removal
SV_ENTRY(reoptimize) {
  bool scaling = sv_choose("scaling", 2);
  World w(sv_double("delta"), false, scaling, 5);
  symBatch(w, 0, 1);
  symBatch(w, 1, 2);
  w.e.addBatch(w.batch[0], true);
  w.e.addBatch(w.batch[1], true);
  long op = sv_choose("op", 5);
  std::vector<double> before = w.values();
  Stats s0(w.e);
  World::Layout l0 = w.layout();
  if (op == 0) {
    auto r = w.e.reoptimize();
    sv_check(w.runs == 3 && w.layout() == l0, "reoptimization-keeps-the-batches");
    sv_check(r.batchAccepted && r.informationGain == 0, "reoptimization-reports-no-gain");
    w.checkReturn(r, scaling);
    w.checkStats(0, scaling);
    w.checkSolverLayout();
  } else if (op == 1 || op == 2) {
    long i = sv_choose("i", 3);
    bool thrown = false;
    try {
      if (op == 1)
        w.e.removeBatch((size_t)i);
      else if (i < 2)
        w.e.removeBatch(w.batch[i]);
      else
        w.e.removeBatch(boost::make_shared<OptimizationProblem>());
    } catch (const OutOfBoundException<size_t>&) {
      thrown = true;
    }
    sv_check(thrown == (op == 1 && i == 2), "removal-index-checked");
    if (i == 2) {
      sv_check(w.runs == 2 && w.layout() == l0 && Stats(w.e) == s0 && World::sameValues(before, w.values()), "removing-an-unknown-batch-changes-nothing");
      return;
    }
    sv_check(w.e.getNumBatches() == 1 && w.e.getProblem()->getOptimizationProblem((size_t)0) == w.batch[1 - i].get(), "only-the-given-batch-is-removed");
    sv_check(w.runs == 3 && w.margLast && w.margStart == w.margWant, "the-rest-is-reoptimized");
    w.checkStats(0, scaling);
    w.checkSolverLayout();
  } else if (op == 3) {
    // after a re-optimization, gains and ranks are relative to it
    w.e.reoptimize();
    double sum = w.unscaled.log2Sum;
    long rank = w.unscaled.svdRank;
    w.makeBatch(2, {0, 1, 3}, 1);
    auto r = w.e.addBatch(w.batch[2], false);
    double gain = 0.5 * (w.unscaled.log2Sum - sum);
    sv_check(bitEqual(r.informationGain, gain) | ((r.informationGain != r.informationGain) & (gain != gain)), "gain-after-reoptimization-is-relative-to-it");
    if (w.unscaled.svdRank > rank) sv_check(r.batchAccepted, "rank-after-reoptimization-is-relative-to-it");
  } else {
    // a rejected batch does not change the reference either
    w.makeBatch(2, {0, 1, 3}, 1);
    double sum = w.unscaled.log2Sum;
    auto r = w.e.addBatch(w.batch[2], false);
    if (r.batchAccepted) return;
    r = w.e.addBatch(w.batch[2], true);
    double gain = 0.5 * (w.unscaled.log2Sum - sum);
    sv_check(bitEqual(r.informationGain, gain) | ((r.informationGain != r.informationGain) & (gain != gain)), "gain-after-a-rejection-is-relative-to-the-last-accepted-batch");
    sv_check(r.batchAccepted && w.e.getNumBatches() == 3, "a-rejected-batch-can-be-added-again");
  }
}

// removing the only batch
SV_ENTRY(remove_last) {
  World w(sv_double("delta"), false, false, 5);
  symBatch(w, 0, 1);
  w.e.addBatch(w.batch[0], true);
  bool thrown = false;
  try {
    w.e.removeBatch((size_t)0);
  } catch (const Exception&) {
    thrown = true;
  }
  sv_check(w.e.getNumBatches() == 0, "the-batch-is-removed");
  sv_check(!thrown, "removing-the-only-batch-succeeds");
}

// P35: options from a property tree, with defaults
SV_ENTRY(property_tree) {
  sm::PropertyTree t;
  long g = sv_int("groupId", 0, 1000);
  t.setInt("groupId", g);
  IncrementalEstimator::Options d;
  LinearSolverOptions l;
  double delta = d.infoGainDelta;
  bool check = d.checkValidity, verbose = d.verbose;
  if (sv_choose("hasDelta", 2)) t.setDouble("infoGainDelta", delta = sv_double("delta"));
  if (sv_choose("hasCheck", 2)) t.setBool("checkValidity", check = sv_bool("check"));
  if (sv_choose("hasVerbose", 2)) t.setBool("verbose", verbose = sv_bool("verbose"));
  std::string p = "optimizer/linearSolver/";
  bool some = sv_choose("solver", 2);
  if (some) {
    t.setBool(p + "columnScaling", l.columnScaling = sv_bool("scaling"));
    t.setDouble(p + "epsNorm", l.epsNorm = sv_double("epsNorm"));
    t.setDouble(p + "epsSVD", l.epsSVD = sv_double("epsSVD"));
    t.setDouble(p + "epsQR", l.epsQR = sv_double("epsQR"));
  }
  if (sv_choose("solver2", 2)) {
    t.setDouble(p + "svdTol", l.svdTol = sv_double("svdTol"));
    t.setDouble(p + "qrTol", l.qrTol = sv_double("qrTol"));
    t.setBool(p + "verbose", l.verbose = sv_bool("lverbose"));
  }
  int it = aslam::backend::Optimizer2Options().maxIterations;
  if (sv_choose("opt", 2)) t.setInt("optimizer/maxIterations", it = sv_int("maxIt", 1, 100));
  IncrementalEstimator e(t);
  sv_check(e.getMargGroupId() == (size_t)g, "group-to-marginalize");
  sv_check(bitEqual(e.getOptions().infoGainDelta, delta) && e.getOptions().checkValidity == check && e.getOptions().verbose == verbose, "estimator-options");
  auto& o = e.getLinearSolverOptions();
  sv_check(o.columnScaling == l.columnScaling && bitEqual(o.epsNorm, l.epsNorm) && bitEqual(o.epsSVD, l.epsSVD) && bitEqual(o.epsQR, l.epsQR) && bitEqual(o.svdTol, l.svdTol) && bitEqual(o.qrTol, l.qrTol) && o.verbose == l.verbose,
           "solver-options");
  sv_check(e.getOptimizerOptions().maxIterations == it, "optimizer-options");
  sv_check(e.getNumBatches() == 0 && e.getRankTheta() == -1 && e.getInformationGain() == 0, "a-new-estimator-is-empty");
  sm::PropertyTree none;
  sv_check(outcome<Exception>([&] { IncrementalEstimator x(none); }) == 2, "missing-group-is-rejected");
}

// P13: the solver wrapper
SV_ENTRY(tsvd) {
  World w(0, false, false, 5);
  w.makeBatch(0, {0, 2, 3}, 2);
  w.e.addBatch(w.batch[0], true);
  auto s = w.solver();
  long j = sv_int("marg", 0, 6);
  s->setMargStartIndex(j);
  s->common().failTranspose = sv_choose("fail", 2);
  bool failed = s->common().failTranspose;
  int solves = s->solves, analyses = s->analyses;
  s->solveResult = symSvd(1);
  s->marginalResult = symSvd(2);
  s->dx = Eigen::VectorXd::Constant(3, sv_double("dx"));
  Eigen::VectorXd dx = Eigen::VectorXd::Zero(1);
  if (sv_choose("what", 2)) {
    bool r = s->solveSystem(dx);
    sv_check(r == !failed, "solving-fails-iff-the-matrix-cannot-be-formed");
    sv_check(s->solves == solves + !failed, "one-solve");
    if (r) {
      sv_check(same(dx, s->dx), "the-step-is-the-solution");
      sv_check(s->lastB.x == s->e().data() && s->lastB.nrow == (size_t)s->e().size(), "solved-against-the-error-vector");
    }
  } else {
    bool r = s->analyzeMarginal();
    sv_check(r == !failed, "analysis-fails-iff-the-matrix-cannot-be-formed");
    sv_check(s->analyses == analyses + !failed, "one-analysis");
    if (r) sv_check(same(s->getSingularValues(), s->marginalResult.sv), "analysis-results-are-published");
  }
  if (!failed)
    sv_check(s->lastJ == (size_t)j && s->lastA.transposed && s->lastA.nrow == (size_t)w.e.getJacobianTranspose().cols() && s->lastA.ncol == (size_t)w.e.getJacobianTranspose().rows() && s->lastA.stamp == &w.e.getJacobianTranspose(),
             "the-jacobian-and-the-boundary-are-handed-over");
  sv_check(s->common().live == 0, "no-matrix-leaks");
  int clears = s->clears;
  std::vector<DesignVariable*> dvs(1, w.dv[3].get());
  std::vector<aslam::backend::ErrorTerm*> ets(1, w.et[0][1].get());
  s->initMatrixStructure(dvs, ets, false);
  sv_check(s->clears == clears + 1 && s->getSVDRank() == -1, "a-new-structure-drops-the-old-results");
  sv_check(s->getJacobianTranspose().rows() == 4 && s->getJacobianTranspose().cols() == 3, "a-new-structure-has-the-new-size");
  size_t th = sv_int("threads", 1, 64);
  bool m = sv_bool("mest");
  s->buildSystem(th, m);
  sv_check(Builder::last->threads == th && Builder::last->mEstimator == m && Builder::last->layout.builds == 1, "the-system-is-built-as-requested");
}
