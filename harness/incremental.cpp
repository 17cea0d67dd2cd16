#include "core_common.h"
#include <aslam/calibration/core/IncrementalOptimizationProblem.h>
#include <aslam/calibration/core/OptimizationProblem.h>
#include <aslam/calibration/exceptions/InvalidOperationException.h>
#include <aslam/calibration/exceptions/NullPointerException.h>
#include <aslam/calibration/exceptions/OutOfBoundException.h>
using namespace aslam::calibration;
typedef std::vector<size_t> Idx;
static const size_t G[3] = {3, 0, 8};

// A union of batches against a reference model that recomputes everything
// from the list of batches added so far.
struct World {
  enum { ND = 3, MAXB = 4 };
  IncrementalOptimizationProblem p;
  int nb;
  boost::shared_ptr<HDv> dv[ND];
  boost::shared_ptr<OptimizationProblem> batch[MAXB];
  boost::shared_ptr<HEt> et[MAXB][2];
  int has[MAXB][ND];  // position + 1 of a variable in a batch, 0: absent
  int grp[MAXB][ND];
  std::vector<int> seqOf[MAXB];  // variables of a batch in enumeration order
  std::vector<int> etOf[MAXB];   // error terms of a batch (ids b*2+k)
  // model
  std::vector<int> in;        // batches in the container
  std::vector<int> group[2];  // variables per group, in order
  std::vector<int> order;
  int cnt[ND], gid[ND];
  World(int n, bool activeSym) : nb(n) {
    for (int i = 0; i < ND; ++i) {
      dv[i] = boost::make_shared<HDv>(i + 1);
      dv[i]->setActive(activeSym ? sv_bool("active") : i != 1);
      cnt[i] = 0;
      gid[i] = -1;
    }
  }
  // content: bit d of mask: variable d in batch b; group of d, unless bit d of odd
  void makeBatch(int b, int mask, int odd, int nEt) {
    batch[b] = boost::make_shared<OptimizationProblem>();
    std::vector<int> first, second;
    int firstGroup = -1;
    for (int d = 0; d < ND; ++d) {
      has[b][d] = (mask >> d) & 1;
      grp[b][d] = (d == 2) ^ ((odd >> d) & 1);
      if (!has[b][d]) continue;
      batch[b]->addDesignVariable(dv[d], G[grp[b][d]]);
      if (firstGroup < 0) firstGroup = grp[b][d];
      (grp[b][d] == firstGroup ? first : second).push_back(d);
    }
    seqOf[b] = first;
    for (int x : second) seqOf[b].push_back(x);
    for (int k = 0; k < nEt; ++k) {
      et[b][k] = boost::make_shared<HEt>(k + 1);
      batch[b]->addErrorTerm(et[b][k]);
      etOf[b].push_back(b * 2 + k);
    }
  }
  bool hasGroup(int g) const {
    for (int x : order)
      if (x == g) return true;
    return false;
  }
  bool hasEt(int id) const {
    for (int b : in)
      for (int x : etOf[b])
        if (x == id) return true;
    return false;
  }
  bool contains(int b) const {
    for (int x : in)
      if (x == b) return true;
    return false;
  }
  bool addable(int b) const {
    for (int d = 0; d < ND; ++d)
      if (has[b][d] && cnt[d] && gid[d] != grp[b][d]) return false;
    for (int x : etOf[b])
      if (hasEt(x)) return false;
    return true;
  }
  void modelAdd(int b) {
    for (int d : seqOf[b]) {
      int g = grp[b][d];
      if (!hasGroup(g)) order.push_back(g);
      if (!cnt[d]++) {
        gid[d] = g;
        group[g].push_back(d);
      }
    }
    in.push_back(b);
  }
  template <class V, class X> static void erase(V& v, X x) {
    for (size_t i = 0; i < v.size(); ++i)
      if (v[i] == x) {
        v.erase(v.begin() + i);
        return;
      }
  }
  void modelRemove(size_t pos) {
    int b = in[pos];
    in.erase(in.begin() + pos);
    for (int d : seqOf[b])
      if (!--cnt[d]) {
        erase(group[gid[d]], d);
        if (group[gid[d]].empty()) erase(order, gid[d]);
        gid[d] = -1;
      }
  }
  void verify() {
    const IncrementalOptimizationProblem& c = p;
    sv_check(p.getNumOptimizationProblems() == in.size() && p.getOptimizationProblems().size() == in.size(), "number-of-batches");
    bool ok = true;
    for (size_t i = 0; i < in.size(); ++i)
      ok = ok && p.getOptimizationProblem(i) == batch[in[i]].get() && c.getOptimizationProblem(i) == batch[in[i]].get() && p.getOptimizationProblems()[i] == batch[in[i]] &&
           &p.getErrorTerms(i) == &batch[in[i]]->getErrorTerms();
    sv_check(ok, "batches-in-order");
    sv_check(outcome<OutOfBoundException<size_t>>([&] { p.getOptimizationProblem(in.size()); }) == 1, "batch-index-past-the-end-is-rejected");
    sv_check(outcome<OutOfBoundException<size_t>>([&] { p.getErrorTerms(in.size()); }) == 1, "batch-index-past-the-end-is-rejected");
    for (int b = 0; b < nb; ++b) {
      if (!batch[b]) continue;
      auto it = p.getOptimizationProblem(batch[b]);
      size_t pos = 0;
      while (pos < in.size() && in[pos] != b) ++pos;
      sv_check((size_t)std::distance(p.getOptimizationProblemBegin(), it) == pos && (it == p.getOptimizationProblemEnd()) == (pos == in.size()), "lookup-of-a-batch");
    }
    size_t n = 0;
    ok = true;
    for (int g : order)
      for (int d : group[g]) {
        ok = ok && n < p.numDesignVariables() && p.designVariable(n) == dv[d].get() && c.designVariable(n) == dv[d].get();
        ++n;
      }
    sv_check(p.numDesignVariables() == n, "each-shared-variable-counted-once");
    sv_check(ok, "design-variables-enumerated-by-group-order");
    sv_check(outcome<OutOfBoundException<size_t>>([&] { p.designVariable(n); }) == 1, "design-variable-index-past-the-end-is-rejected");
    n = 0;
    ok = true;
    for (int b : in)
      for (int x : etOf[b]) {
        ok = ok && n < p.numErrorTerms() && p.errorTerm(n) == et[x / 2][x % 2].get() && c.errorTerm(n) == et[x / 2][x % 2].get();
        ++n;
      }
    sv_check(p.numErrorTerms() == n, "number-of-error-terms");
    sv_check(ok, "error-terms-enumerated-batch-by-batch");
    sv_check(outcome<OutOfBoundException<size_t>>([&] { p.errorTerm(n); }) == 1, "error-term-index-past-the-end-is-rejected");
    ok = true;
    for (int d = 0; d < ND; ++d) {
      ok = ok && p.isDesignVariableInProblem(dv[d].get()) == (cnt[d] > 0);
      size_t got = 0;
      int r = outcome<InvalidOperationException>([&] { got = p.getGroupId(dv[d].get()); });
      ok = ok && (cnt[d] ? r == 0 && got == G[gid[d]] : r == 1);
    }
    sv_check(ok, "a-variable-is-present-iff-some-batch-uses-it");
    ok = true;
    for (int b = 0; b < nb; ++b)
      for (int x : etOf[b]) ok = ok && p.isErrorTermInProblem(et[x / 2][x % 2].get()) == hasEt(x);
    sv_check(ok, "an-error-term-is-present-iff-its-batch-is");
    ok = p.getNumGroups() == order.size() && p.getGroupsOrdering().size() == order.size() && p.getDesignVariablesGroups().size() == order.size();
    for (size_t i = 0; ok && i < order.size(); ++i) ok = p.getGroupsOrdering()[i] == G[order[i]];
    sv_check(ok, "groups-and-their-order");
    for (int g = 0; g < 3; ++g) {
      bool here = g < 2 && hasGroup(g);
      sv_check(p.isGroupInProblem(G[g]) == here, "membership-of-groups");
      size_t dim = 0, want = 0;
      int r = outcome<OutOfBoundException<size_t>>([&] { dim = p.getGroupDim(G[g]); });
      sv_check(r == (here ? 0 : 1), "unknown-group-is-rejected");
      r = outcome<OutOfBoundException<size_t>>([&] {
        auto& v = p.getDesignVariablesGroup(G[g]);
        bool same = here && v.size() == group[g].size();
        for (size_t i = 0; same && i < v.size(); ++i) same = v[i] == dv[group[g][i]].get();
        sv_check(same, "design-variables-of-a-group");
      });
      sv_check(r == (here ? 0 : 1), "unknown-group-is-rejected");
      if (!here) continue;
      for (int d : group[g]) want += dv[d]->isActive() ? d + 1 : 0;
      sv_check(dim == want, "group-dimension-counts-active-variables");
    }
  }
  void add(int b) {
    int r = outcome<InvalidOperationException>([&] { p.add(batch[b]); });
    sv_check(r == (addable(b) ? 0 : 1), "batch-accepted-iff-consistent-with-the-problem");
    if (!r) modelAdd(b);
  }
  void removeAt(size_t i, int how) {
    bool ok = i < in.size();
    int r = outcome<OutOfBoundException<size_t>>([&] {
      if (how)
        p.remove(p.getOptimizationProblemBegin() + i);
      else
        p.remove(i);
    });
    sv_check(r == (ok ? 0 : 1), "removal-index-checked");
    if (ok) modelRemove(i);
  }
  void removeBatch(int b) {
    size_t pos = 0;
    while (pos < in.size() && in[pos] != b) ++pos;
    bool ok = pos < in.size();
    int r = outcome<InvalidOperationException>([&] { p.remove(batch[b]); });
    sv_check(r == (ok ? 0 : 1), "removal-of-an-unknown-batch-is-rejected");
    if (ok) modelRemove(pos);
  }
  void clear() {
    p.clear();
    in.clear();
    for (int g = 0; g < 2; ++g) group[g].clear();
    order.clear();
    for (int d = 0; d < ND; ++d) cnt[d] = 0, gid[d] = -1;
  }
};

// ---- histories of additions and removals over batches of any content
SV_ENTRY(incremental_history) {
  World w(2, false);
  for (int b = 0; b < 2; ++b) w.makeBatch(b, sv_choose("mask", 8), 0, 1 + b);
  w.add(0);
  int n = SV_T(3, 4);
  for (int i = 0; i < n; ++i) {
    long op = sv_choose("op", 7);
    if (op < 2)
      w.add(op);
    else if (op < 4)
      w.removeAt(op - 2, i % 2);
    else if (op < 6)
      w.removeBatch(op - 4);
    else
      w.clear();
  }
  w.verify();
}

// ---- three batches, any content, any removal, re-addition
SV_ENTRY(incremental_three) {
  World w(3, false);
  for (int b = 0; b < 3; ++b) {
    w.makeBatch(b, sv_choose("mask", 8), 0, b == 1 ? 2 * sv_choose("terms", 2) : 1);
    w.add(b);
  }
  w.verify();
  w.removeAt(sv_choose("i", 4), 0);
  w.verify();
  if (sv_choose("again", 2)) {
    w.add(sv_choose("b", 3));
    w.removeAt(0, 1);
    w.verify();
  }
}

SV_ENTRY(incremental_dims) {
  World w(2, true);
  for (int b = 0; b < 2; ++b) {
    w.makeBatch(b, sv_choose("mask", 8), 0, 1);
    w.add(b);
  }
  w.verify();
}

// ---- failed operations leave no trace: group mismatch, duplicate terms, null
SV_ENTRY(incremental_rejected) {
  World w(3, false);
  w.makeBatch(0, sv_choose("mask", 8), 0, 1);
  w.makeBatch(1, sv_choose("mask", 8), sv_choose("odd", 8), 1);
  long pre = sv_choose("pre", 3);  // nothing, an empty batch, a batch of terms only
  w.makeBatch(2, 0, 0, pre == 2);
  if (pre) w.add(2);
  w.add(0);
  if (sv_choose("dup", 2)) {
    // a term already in batch 0 comes after a fresh one
    w.batch[1]->addErrorTerm(w.et[0][0]);
    w.etOf[1].push_back(0);
  }
  w.add(1);
  w.verify();
  sv_check(outcome<NullPointerException>([&] { w.p.add(IncrementalOptimizationProblem::OptimizationProblemSP()); }) == 1, "null-batch-is-rejected");
  w.verify();
  if (sv_choose("then", 2)) {
    w.removeAt(0, 0);
    w.verify();
    w.add(1);
    w.verify();
  }
}

// ---- ordering and permutations
static bool choosePerm(size_t n, Idx& v) {
  bool ok = true;
  for (size_t i = 0; i < n; ++i) {
    size_t x = sv_choose("perm", n + 1);
    for (size_t y : v) ok = ok && x != y;
    ok = ok && x < n;
    v.push_back(x);
  }
  return ok;
}
template <class V> static void applyPerm(V& m, const Idx& v) {
  V o = m;
  for (size_t i = 0; i < v.size(); ++i) m[i] = o[v[i]];
}
SV_ENTRY(incremental_order) {
  World w(3, false);
  for (int b = 0; b < 2; ++b) {
    w.makeBatch(b, sv_choose("mask", 8), 0, 1);
    w.add(b);
  }
  for (int k = 0; k < SV_T(1, 2); ++k) switch (sv_choose("op", 3)) {
    case 0: {
      size_t n = sv_choose("n", 4);
      Idx v;
      std::vector<int> m;
      bool ok = n == w.order.size();
      bool seen[3] = {false, false, false};
      for (size_t i = 0; i < n; ++i) {
        long g = sv_choose("og", 3);
        v.push_back(G[g]);
        m.push_back(g);
        ok = ok && g < 2 && w.hasGroup(g) && !seen[g];
        seen[g] = true;
      }
      int r = outcome<OutOfBoundException<size_t>>([&] { w.p.setGroupsOrdering(v); });
      sv_check(r == (ok ? 0 : 1), "group-order-accepted-iff-a-permutation-of-the-groups");
      if (ok) w.order = m;
      break;
    }
    case 1: {
      Idx v;
      size_t n = sv_choose("len", 4);
      bool ok = choosePerm(n, v) && n == 2;
      int r = outcome<Exception>([&] { w.p.permuteOptimizationProblems(v); });
      sv_check((r != 0) == !ok, "batch-permutation-accepted-iff-valid");
      if (!r && ok) applyPerm(w.in, v);
      break;
    }
    default: {
      long g = sv_choose("pg", 3);
      bool here = g < 2 && w.hasGroup(g);
      Idx v;
      size_t n = sv_choose("len", 4);
      bool ok = choosePerm(n, v);
      ok = ok && here && n == w.group[g].size();
      int r = outcome<OutOfBoundException<size_t>>([&] { w.p.permuteDesignVariables(v, G[g]); });
      sv_check((r != 0) == !ok, "design-variable-permutation-accepted-iff-valid");
      if (!r && ok) applyPerm(w.group[g], v);
    }
  }
  w.verify();
  if (sv_choose("remove", 2)) {
    w.removeAt(sv_choose("at", 2), 0);
    w.verify();
    w.makeBatch(2, 7, 0, 1);
    w.add(2);
    w.verify();
  }
}

// ---- save and restore
SV_ENTRY(save_restore) {
  World w(2, false);
  for (int b = 0; b < 2; ++b) w.makeBatch(b, sv_choose("mask", 8), 0, 1);
  double v0[3], saved[3], cur[3];
  bool have[3] = {false, false, false};
  for (int d = 0; d < 3; ++d) w.dv[d]->value = cur[d] = v0[d] = sv_double("v");
  w.add(0);
  int n = SV_T(4, 5);
  for (int i = 0; i < n; ++i) switch (sv_choose("op", 6)) {
    case 0:
      w.p.saveDesignVariables();
      for (int d = 0; d < 3; ++d)
        if (w.cnt[d]) {
          saved[d] = cur[d];
          have[d] = true;
        }
      break;
    case 1:
      for (int d = 0; d < 3; ++d) w.dv[d]->value = cur[d] = sv_double("w");
      break;
    case 2:
      w.p.restoreDesignVariables();
      for (int d = 0; d < 3; ++d)
        if (have[d]) cur[d] = saved[d];
      break;
    case 3:
      if (w.contains(1)) return;
      w.add(1);
      break;
    case 4:
      if (w.in.empty()) return;
      w.removeAt(0, 0);
      for (int d = 0; d < 3; ++d)
        if (!w.cnt[d]) have[d] = false;
      break;
    default:
      w.clear();
      for (int d = 0; d < 3; ++d) have[d] = false;
  }
  for (int d = 0; d < 3; ++d) sv_check(bitEqual(w.dv[d]->value, cur[d]), "restore-brings-back-the-saved-values-of-the-variables-still-present");
}

SV_ENTRY(save_restore_single) {
  OptimizationProblem p;
  boost::shared_ptr<HDv> dv[3];
  double cur[3], saved[3];
  bool in[3] = {false, false, false}, have[3] = {false, false, false};
  for (int d = 0; d < 3; ++d) {
    dv[d] = boost::make_shared<HDv>(1);
    dv[d]->value = cur[d] = sv_double("v");
  }
  int n = SV_T(5, 6);
  for (int i = 0; i < n; ++i) switch (sv_choose("op", 5)) {
    case 0: {
      long d = sv_choose("dv", 3);
      if (in[d]) return;
      p.addDesignVariable(dv[d], d % 2);
      in[d] = true;
      break;
    }
    case 1:
      p.saveDesignVariables();
      for (int d = 0; d < 3; ++d)
        if (in[d]) have[d] = true, saved[d] = cur[d];
      break;
    case 2:
      for (int d = 0; d < 3; ++d) dv[d]->value = cur[d] = sv_double("w");
      break;
    case 3:
      p.restoreDesignVariables();
      for (int d = 0; d < 3; ++d)
        if (have[d]) cur[d] = saved[d];
      break;
    default:
      p.clear();
      for (int d = 0; d < 3; ++d) in[d] = have[d] = false;
  }
  for (int d = 0; d < 3; ++d) sv_check(bitEqual(dv[d]->value, cur[d]), "restore-brings-back-the-saved-values");
}
