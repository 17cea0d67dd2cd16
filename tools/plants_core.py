#!/usr/bin/env python3
from plant import plant
C = "incremental_calibration/src/core/"
INC, EST, OPT = C + "IncrementalOptimizationProblem.cpp", C + "IncrementalEstimator.cpp", C + "OptimizationProblem.cpp"

plant("p06_count_inactive", "P06", INC, [("          _designVariablesCounts[dv].first++;", "          if (dv->isActive())\n            _designVariablesCounts[dv].first++;")], r'''
#include "world.h"
int main() {
  IncrementalOptimizationProblem p;
  DvP a = dv(1), b = dv(2);
  b->setActive(false);
  Batch x = boost::make_shared<OptimizationProblem>(), y = boost::make_shared<OptimizationProblem>();
  x->addDesignVariable(a, 0); x->addDesignVariable(b, 1);
  y->addDesignVariable(b, 1);
  p.add(x); p.add(y);
  p.remove(x);
  EXPECT(p.isDesignVariableInProblem(b.get()));
  EXPECT(p.numDesignVariables() == 1 && p.isGroupInProblem(1) && !p.isGroupInProblem(0));
}
''', "core", "an inactive variable used by two batches, one of which is removed", "the incremental problem loses a variable that a remaining batch still uses")

plant("p08_save_active", "P08", INC, [("""          it != _designVariablesCounts.cend(); ++it)
        it->first->getParameters(
          _designVariablesBackup[const_cast<DesignVariable*>(it->first)]);""", """          it != _designVariablesCounts.cend(); ++it) {
        // inactive design variables cannot change during the optimization
        if (!it->first->isActive())
          continue;
        it->first->getParameters(
          _designVariablesBackup[const_cast<DesignVariable*>(it->first)]);
      }""")], r'''
#include "world.h"
int main() {
  IncrementalOptimizationProblem p;
  DvP a = dv(1, 2.5), b = dv(2, 3.5);
  Batch x = boost::make_shared<OptimizationProblem>();
  x->addDesignVariable(a, 0); x->addDesignVariable(b, 1);
  p.add(x);
  b->setActive(false);
  p.saveDesignVariables();
  a->value = 7; b->value = 8;
  p.restoreDesignVariables();
  EXPECT(a->value == 2.5);
  EXPECT(b->value == 3.5);
}
''', "core", "a variable that is inactive when the values are saved and is changed before they are restored", "restoring leaves the variable at its new value")

plant("p02_reference_of_rejected", "P02", EST, [("""      const double svLog2Sum = linearSolver->getSingularValuesLog2Sum();
      ret.informationGain = 0.5 * (svLog2Sum - _svLog2Sum);
""", """      const double svLog2Sum = linearSolver->getSingularValuesLog2Sum();
      ret.informationGain = 0.5 * (svLog2Sum - _svLog2Sum);
      if (solutionValid)
        _svLog2Sum = svLog2Sum;
"""), ("""        _informationGain = ret.informationGain;
        _svLog2Sum = svLog2Sum;
""", """        _informationGain = ret.informationGain;
        if (force)
          _svLog2Sum = svLog2Sum;
""")], r'''
#include "world.h"
int main() {
  IncrementalEstimator::Options o;
  o.infoGainDelta = 0.5;
  IncrementalEstimator e(0, o);
  DvP t = dv(2);
  Batch b[3];
  for (auto& x : b) {
    x = boost::make_shared<OptimizationProblem>();
    x->addDesignVariable(dv(1), 1);
    x->addDesignVariable(t, 0);
    x->addErrorTerm(et(2));
  }
  script = {{2, 10, 5, 1, 1, 0}, {2, 10.8, 5, 1, 1, 0}, {2, 11.6, 5, 1, 1, 0}};
  EXPECT(e.addBatch(b[0]).batchAccepted);
  EXPECT(!e.addBatch(b[1]).batchAccepted);
  auto r = e.addBatch(b[2]);
  EXPECT(std::abs(r.informationGain - 0.8) < 1e-9);
  EXPECT(r.batchAccepted);
}
''', "est", "a valid but uninformative batch is rejected before another batch is offered", "the information gain of the next batch is measured against the rejected solution")

plant("p01_restore_after_removal", "P01", EST, [("""        // restore variables
        _problem->restoreDesignVariables();

        // kick out the problem from the container
        _problem->remove(problem);
""", """        // kick out the problem from the container
        _problem->remove(problem);

        // restore variables
        _problem->restoreDesignVariables();
""")], r'''
#include "world.h"
int main() {
  IncrementalEstimator e(0);
  DvP t = dv(2, 4), s = dv(1, 9);
  Batch b[2];
  for (auto& x : b) x = boost::make_shared<OptimizationProblem>();
  b[0]->addDesignVariable(t, 0);
  b[1]->addDesignVariable(s, 1);
  b[1]->addDesignVariable(t, 0);
  script = {{2, 10, 5, 1, 1, 0}, {2, 10, 5, 1, 1, 0}};
  EXPECT(e.addBatch(b[0]).batchAccepted);
  EXPECT(!e.addBatch(b[1]).batchAccepted);
  EXPECT(t->value == 5);
  EXPECT(s->value == 9);
}
''', "est", "a rejected batch that brings a variable of its own", "the variables used only by the rejected batch keep the values of the discarded optimization")

plant("p03_column_base", "P03", EST, [("""          dv->setColumnBase(columnBase);
          columnBase += dv->minimalDimensions();
        }
""", """          dv->setColumnBase(columnBase);
        }
        columnBase += dv->minimalDimensions();
""")], r'''
#include "world.h"
int main() {
  IncrementalEstimator e(0);
  DvP t = dv(2), s = dv(3), u = dv(1);
  s->setActive(false);
  Batch b[2];
  for (auto& x : b) x = boost::make_shared<OptimizationProblem>();
  b[0]->addDesignVariable(s, 1);
  b[0]->addDesignVariable(u, 1);
  b[0]->addDesignVariable(t, 0);
  b[1]->addDesignVariable(t, 0);
  script = {{2, 10, 5, 1, 1, 0}, {2, 10, 5, 1, 1, 0}};
  EXPECT(e.addBatch(b[0]).batchAccepted);
  EXPECT(!e.addBatch(b[1]).batchAccepted);
  EXPECT(u->columnBase() == 0 && t->columnBase() == 1);
}
''', "est", "a rejected batch while an inactive variable precedes an active one", "the solver's columns are laid out with a gap after a rejection")

plant("p04_scaled_sum", "P04", EST, [("""      // analyze the unscaled marginal system
      linearSolver->analyzeMarginal();

      // retrieve informations from the linear solver
      _informationGain = 0.0;
      _svLog2Sum = linearSolver->getSingularValuesLog2Sum();
""", """      _informationGain = 0.0;
      _svLog2Sum = linearSolver->getSingularValuesLog2Sum();

      // analyze the unscaled marginal system
      linearSolver->analyzeMarginal();

      // retrieve informations from the linear solver
""")], r'''
#include "world.h"
int main() {
  LinearSolverOptions lo;
  lo.columnScaling = true;
  IncrementalEstimator e(0, IncrementalEstimator::Options(), lo);
  DvP t = dv(2);
  Batch b[2];
  for (auto& x : b) {
    x = boost::make_shared<OptimizationProblem>();
    x->addDesignVariable(t, 0);
  }
  script = {{2, 10, 5, 1, 1, 3}, {2, 12, 5, 1, 1, 5}, {2, 14, 5, 1, 1, 6}};
  EXPECT(e.addBatch(b[0]).batchAccepted);
  e.reoptimize();
  auto r = e.addBatch(b[1]);
  EXPECT(std::abs(r.informationGain - 1.0) < 1e-9);
}
''', "est", "column scaling, a re-optimization and then another batch", "the gain of the batch after a re-optimization is relative to the scaled solution")

plant("p05_clear_lookup", "P05", OPT, [("""      _errorTermsLookup.clear();
      _designVariables.clear();
      _errorTerms.clear();
""", """      _designVariables.clear();
      _errorTerms.clear();
""")], r'''
#include "world.h"
int main() {
  OptimizationProblem p;
  DvP a = dv(1);
  EtP t = et(2);
  p.addDesignVariable(a, 0);
  p.addErrorTerm(t);
  p.clear();
  EXPECT(p.numErrorTerms() == 0 && !p.isErrorTermInProblem(t.get()));
  p.addDesignVariable(a, 0);
  p.addErrorTerm(t);
  EXPECT(p.numErrorTerms() == 1);
}
''', "core", "clearing a problem that has error terms", "a cleared problem still claims to contain its error terms and refuses to take them again")

plant("p05_group_lookup", "P05", OPT, [("""        if ((idxRunning + groupSize) > idx) {
          groupIdRunning = *it;
          break;
        }
        else
          idxRunning += groupSize;
      }
      groupId = groupIdRunning;
      idxGroup = idx - idxRunning;""", """        if ((idxRunning + groupSize) > idx) {
          groupIdRunning = _groupsOrdering[*it < _groupsOrdering.size() ?
            *it : it - _groupsOrdering.cbegin()];
          break;
        }
        else
          idxRunning += groupSize;
      }
      groupId = groupIdRunning;
      idxGroup = idx - idxRunning;""")], r'''
#include "world.h"
int main() {
  OptimizationProblem p;
  DvP a = dv(1), b = dv(2);
  p.addDesignVariable(a, 0);
  p.addDesignVariable(b, 1);
  EXPECT(p.designVariable(0) == a.get() && p.designVariable(1) == b.get());
  OptimizationProblem q;
  DvP c[3] = {dv(1), dv(2), dv(3)};
  q.addDesignVariable(c[0], 1);
  q.addDesignVariable(c[1], 2);
  q.addDesignVariable(c[2], 0);
  for (int i = 0; i < 3; ++i) EXPECT(q.designVariable(i) == c[i].get());
}
''', "core", "a group order that is not an involution and small group numbers", "variables are enumerated in the wrong group order")

plant("p09_ghost_group", "P09", INC, [("""      if (isGroupInProblem(groupId))
        permute(_designVariables.at(groupId), permutation);
      else
        throw OutOfBoundException<size_t>(groupId, "unknown group", __FILE__,
          __LINE__, __PRETTY_FUNCTION__);""", """      if (isGroupInProblem(groupId) || permutation.empty())
        permute(_designVariables[groupId], permutation);
      else
        throw OutOfBoundException<size_t>(groupId, "unknown group", __FILE__,
          __LINE__, __PRETTY_FUNCTION__);""")], r'''
#include "world.h"
int main() {
  IncrementalOptimizationProblem p;
  DvP a = dv(1);
  Batch x = boost::make_shared<OptimizationProblem>();
  x->addDesignVariable(a, 0);
  p.add(x);
  EXPECT(throws([&] { p.permuteDesignVariables(std::vector<size_t>(), 5); }));
  EXPECT(!p.isGroupInProblem(5) && p.getNumGroups() == 1);
}
''', "core", "an empty permutation for a group that is not in the problem", "the refused permutation leaves an empty group behind, and later batches never get that group into the order")

plant("p05_two_groups", "P05", OPT, [("""      _designVariablesLookup.insert(std::make_pair(designVariable.get(),
        groupId));
      if (!isGroupInProblem(groupId))""", """      _designVariablesLookup[designVariable.get()] = groupId;
      if (!isGroupInProblem(groupId))"""), ("""      if (isDesignVariableInProblem(designVariable.get()))
        throw InvalidOperationException("design variable already included",
          __FILE__, __LINE__, __PRETTY_FUNCTION__);
""", """      if (isDesignVariableInProblem(designVariable.get()) &&
          getGroupId(designVariable.get()) == groupId)
        throw InvalidOperationException("design variable already included",
          __FILE__, __LINE__, __PRETTY_FUNCTION__);
""")], r'''
#include "world.h"
int main() {
  OptimizationProblem p;
  DvP a = dv(1);
  p.addDesignVariable(a, 0);
  EXPECT(throws([&] { p.addDesignVariable(a, 1); }));
  EXPECT(p.getGroupId(a.get()) == 0 && p.getNumGroups() == 1);
}
''', "core", "adding a variable of the problem again under another group", "a variable ends up in two groups")

plant("p35_default_threshold", "P35", EST, [("""      _margGroupId = config.getInt("groupId");""", """      _margGroupId = config.getInt("groupId", _margGroupId);"""), ("""        _informationGain(0.0),
        _svLog2Sum(0.0),
        _svdTolerance(0.0),
        _qrTolerance(-1.0),
        _rankTheta(-1),
        _rankThetaDeficiency(-1),
        _rankPsi(-1),
        _rankPsiDeficiency(-1),
        _peakMemoryUsage(0),
        _memoryUsage(0),
        _numFlops(0.0),
        _initialCost(0.0),
        _finalCost(0.0) {
      // create the optimizer, linear solver, and trust region policy
      boost::shared_ptr<LinearSolver> linearSolver = boost::make_shared<LinearSolver>(sm::PropertyTree""", """        _margGroupId(0),
        _informationGain(0.0),
        _svLog2Sum(0.0),
        _svdTolerance(0.0),
        _qrTolerance(-1.0),
        _rankTheta(-1),
        _rankThetaDeficiency(-1),
        _rankPsi(-1),
        _rankPsiDeficiency(-1),
        _peakMemoryUsage(0),
        _memoryUsage(0),
        _numFlops(0.0),
        _initialCost(0.0),
        _finalCost(0.0) {
      // create the optimizer, linear solver, and trust region policy
      boost::shared_ptr<LinearSolver> linearSolver = boost::make_shared<LinearSolver>(sm::PropertyTree""")], r'''
#include "world.h"
int main() {
  sm::PropertyTree t;
  t.setDouble("infoGainDelta", 0.3);
  EXPECT(throws([&] { IncrementalEstimator e(t); }));
  t.setInt("groupId", 3);
  IncrementalEstimator e(t);
  EXPECT(e.getMargGroupId() == 3 && e.getOptions().infoGainDelta == 0.3);
}
''', "est", "a configuration without the group to marginalize", "an incomplete configuration is accepted and group 0 silently marginalized")

TS = "aslam_tsvd_solver/src/aslam-tsvd-solver.cc"
plant("p13_stale_results", "P13", TS, [("""  clear();
  jacobian_builder_.initMatrixStructure(dvs, errors);""", """  if (jacobian_builder_.J_transpose().cols() == 0)
    clear();
  jacobian_builder_.initMatrixStructure(dvs, errors);""")], r'''
#include "world.h"
int main() {
  aslam::backend::AslamTruncatedSvdSolver s;
  DvP a = dv(2);
  EtP x = et(3);
  a->setBlockIndex(0);
  a->setColumnBase(0);
  std::vector<aslam::backend::DesignVariable*> d = {a.get()};
  std::vector<aslam::backend::ErrorTerm*> e = {x.get()};
  x->setRowBase(0);
  s.initMatrixStructure(d, e, false);
  s.marginalResult.svdRank = 2;
  s.analyzeMarginal();
  EXPECT(s.getSVDRank() == 2);
  s.initMatrixStructure(d, e, false);
  EXPECT(s.getSVDRank() == -1);
}
''', "est", "a second problem laid out with the same solver", "results of the previous problem are still reported for the new one")

plant("p07_duplicate_after_empty", "P07", INC, [("""          it != _optimizationProblems.cend(); ++it)
        if ((*it)->isErrorTermInProblem(errorTerm))
          return true;
      return false;""", """          it != _optimizationProblems.cend(); ++it) {
        if ((*it)->numErrorTerms() == 0)
          break;
        if ((*it)->isErrorTermInProblem(errorTerm))
          return true;
      }
      return false;""")], r'''
#include "world.h"
int main() {
  IncrementalOptimizationProblem p;
  DvP a = dv(1);
  EtP t = et(1);
  Batch x[3];
  for (auto& b : x) {
    b = boost::make_shared<OptimizationProblem>();
    b->addDesignVariable(a, 0);
  }
  x[1]->addErrorTerm(t);
  x[2]->addErrorTerm(t);
  p.add(x[0]);
  p.add(x[1]);
  EXPECT(throws([&] { p.add(x[2]); }));
  EXPECT(p.getNumOptimizationProblems() == 2 && p.numErrorTerms() == 1);
}
''', "core", "a batch without error terms precedes the batch whose error term is offered again", "an error term that is already present is accepted a second time")
