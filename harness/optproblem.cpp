#include "core_common.h"
#include <aslam/calibration/core/OptimizationProblem.h>
#include <aslam/calibration/exceptions/InvalidOperationException.h>
#include <aslam/calibration/exceptions/NullPointerException.h>
#include <aslam/calibration/exceptions/OutOfBoundException.h>
using namespace aslam::calibration;
typedef std::vector<size_t> Idx;

static const size_t G[3] = {5, 0, 9};  // group ids; the last one is never used

struct World {
  enum { ND = 3, NE = 3 };
  OptimizationProblem p;
  boost::shared_ptr<HDv> dv[ND];
  boost::shared_ptr<HEt> et[NE];
  // reference model
  std::vector<int> group[2];  // variables per group, in order
  std::vector<int> order;     // group indices, in order
  std::vector<int> ets;
  explicit World(bool activeSym) {
    for (int i = 0; i < ND; ++i) {
      dv[i] = boost::make_shared<HDv>(i + 1);
      dv[i]->setActive(activeSym ? sv_bool("active") : i != 1);
    }
    for (int i = 0; i < NE; ++i) et[i] = boost::make_shared<HEt>(2);
    et[0]->use({dv[0].get()});
    et[1]->use({dv[0].get(), dv[1].get()});
    et[2]->use({dv[2].get()});
  }
  int groupOf(int d) const {
    for (int g = 0; g < 2; ++g)
      for (int x : group[g])
        if (x == d) return g;
    return -1;
  }
  bool hasEt(int e) const {
    for (int x : ets)
      if (x == e) return true;
    return false;
  }
  bool hasGroup(int g) const {
    for (int x : order)
      if (x == g) return true;
    return false;
  }
  bool usable(int e) const {
    static const int use[3][2] = {{0, 0}, {0, 1}, {2, 2}};
    return groupOf(use[e][0]) >= 0 && groupOf(use[e][1]) >= 0;
  }
  void modelAddDv(int d, int g) {
    if (!hasGroup(g)) order.push_back(g);
    group[g].push_back(d);
  }
  void verify() {
    const OptimizationProblem& c = p;
    size_t n = 0;
    bool ok = true;
    for (int g : order)
      for (int d : group[g]) {
        ok = ok && n < p.numDesignVariables() && p.designVariable(n) == dv[d].get() && c.designVariable(n) == dv[d].get();
        ++n;
      }
    sv_check(p.numDesignVariables() == n, "number-of-design-variables");
    sv_check(ok, "design-variables-enumerated-by-group-order");
    sv_check(p.numErrorTerms() == ets.size() && p.getErrorTerms().size() == ets.size(), "number-of-error-terms");
    ok = true;
    for (size_t i = 0; i < ets.size(); ++i)
      ok = ok && p.errorTerm(i) == et[ets[i]].get() && c.errorTerm(i) == et[ets[i]].get() && p.getErrorTerms()[i] == et[ets[i]];
    sv_check(ok, "error-terms-in-order");
    sv_check(outcome<OutOfBoundException<size_t>>([&] { p.errorTerm(ets.size()); }) == 1, "error-term-index-past-the-end-is-rejected");
    sv_check(outcome<OutOfBoundException<size_t>>([&] { p.designVariable(n); }) == 1, "design-variable-index-past-the-end-is-rejected");
    ok = true;
    for (int d = 0; d < ND; ++d) {
      int g = groupOf(d);
      ok = ok && p.isDesignVariableInProblem(dv[d].get()) == (g >= 0);
      size_t got = 0;
      int r = outcome<InvalidOperationException>([&] { got = p.getGroupId(dv[d].get()); });
      ok = ok && (g >= 0 ? r == 0 && got == G[g] : r == 1);
    }
    sv_check(ok, "membership-and-group-of-design-variables");
    ok = true;
    for (int e = 0; e < NE; ++e) ok = ok && p.isErrorTermInProblem(et[e].get()) == hasEt(e);
    sv_check(ok, "membership-of-error-terms");
    ok = p.getNumGroups() == order.size() && p.getGroupsOrdering().size() == order.size() && p.getDesignVariablesGroups().size() == order.size();
    for (size_t i = 0; ok && i < order.size(); ++i) ok = p.getGroupsOrdering()[i] == G[order[i]];
    sv_check(ok, "groups-and-their-order");
    for (int g = 0; g < 3; ++g) {
      bool in = g < 2 && hasGroup(g);
      sv_check(p.isGroupInProblem(G[g]) == in, "membership-of-groups");
      size_t dim = 0, want = 0;
      int r = outcome<OutOfBoundException<size_t>>([&] { dim = p.getGroupDim(G[g]); });
      sv_check(r == (in ? 0 : 1), "dimension-of-an-unknown-group-is-rejected");
      r = outcome<OutOfBoundException<size_t>>([&] {
        auto& v = p.getDesignVariablesGroup(G[g]);
        bool same = in && v.size() == group[g].size();
        for (size_t i = 0; same && i < v.size(); ++i) same = v[i] == dv[group[g][i]];
        sv_check(same, "design-variables-of-a-group");
      });
      sv_check(r == (in ? 0 : 1), "unknown-group-is-rejected");
      if (!in) continue;
      for (int d : group[g]) want += dv[d]->isActive() ? d + 1 : 0;
      sv_check(dim == want, "group-dimension-counts-active-variables");
    }
    for (int d = 0; d < ND; ++d) {
      static const bool uses[3][3] = {{1, 1, 0}, {0, 1, 0}, {0, 0, 1}};
      std::set<aslam::backend::ErrorTerm*> out;
      p.getErrors(dv[d].get(), out);
      bool same = true;
      size_t cnt = 0;
      for (int e = 0; e < NE; ++e) {
        bool want = uses[d][e] && hasEt(e);
        cnt += want;
        same = same && (out.count(et[e].get()) == (size_t)want);
      }
      sv_check(same && out.size() == cnt, "error-terms-of-a-design-variable");
    }
  }
  void build() {
    for (int d = 0; d < ND; ++d) {
      long g = sv_choose("group", 3);
      if (g == 2) continue;
      p.addDesignVariable(dv[d], G[g]);
      modelAddDv(d, g);
    }
    for (int e = 0; e < NE; ++e)
      if (usable(e) && sv_choose("term", 2)) {
        p.addErrorTerm(et[e]);
        ets.push_back(e);
      }
  }
  void addDv() {
    long d = sv_choose("dv", ND + 1), g = sv_choose("g", 2);
    if (d == ND) {
      sv_check(outcome<NullPointerException>([&] { p.addDesignVariable(OptimizationProblem::DesignVariableSP(), G[g]); }) == 1, "null-design-variable-is-rejected");
      return;
    }
    int r = outcome<InvalidOperationException>([&] { p.addDesignVariable(dv[d], G[g]); });
    sv_check(r == (groupOf(d) >= 0 ? 1 : 0), "duplicate-design-variable-is-rejected");
    if (!r) modelAddDv(d, g);
  }
  void addEt() {
    long e = sv_choose("et", NE + 1);
    if (e == NE) {
      sv_check(outcome<NullPointerException>([&] { p.addErrorTerm(OptimizationProblem::ErrorTermSP()); }) == 1, "null-error-term-is-rejected");
      return;
    }
    int r = outcome<InvalidOperationException>([&] { p.addErrorTerm(et[e]); });
    sv_check(r == (hasEt(e) || !usable(e) ? 1 : 0), "error-term-accepted-iff-new-and-its-variables-are-present");
    if (!r) ets.push_back(e);
  }
  void reorder(int maxSize = 3) {
    size_t n = sv_choose("n", maxSize + 1);
    Idx v;
    std::vector<int> m;
    bool ok = n == order.size();
    bool seen[3] = {false, false, false};
    for (size_t i = 0; i < n; ++i) {
      long g = sv_choose("og", 3);
      v.push_back(G[g]);
      m.push_back(g);
      ok = ok && g < 2 && hasGroup(g) && !seen[g];
      seen[g] = true;
    }
    int r = outcome<OutOfBoundException<size_t>>([&] { p.setGroupsOrdering(v); });
    sv_check(r == (ok ? 0 : 1), "group-order-accepted-iff-a-permutation-of-the-groups");
    if (ok) order = m;
  }
  static bool choosePerm(size_t n, Idx& v) {
    // a vector of n entries in [0, n], possibly not a permutation
    bool ok = true;
    for (size_t i = 0; i < n; ++i) {
      size_t x = sv_choose("perm", n + 1);
      for (size_t y : v) ok = ok && x != y;
      ok = ok && x < n;
      v.push_back(x);
    }
    return ok;
  }
  template <class V> static void applyPerm(V& m, const Idx& v) {
    V o = m;
    for (size_t i = 0; i < v.size(); ++i) m[i] = o[v[i]];
  }
  bool wide = false;  // index vectors of any length up to 3
  void permuteEts() {
    Idx v;
    size_t n = wide ? sv_choose("len", 4) : ets.size();
    bool ok = choosePerm(n, v) && n == ets.size();
    int r = outcome<Exception>([&] { p.permuteErrorTerms(v); });
    sv_check((r != 0) == !ok, "error-term-permutation-accepted-iff-valid");
    if (!r && ok) applyPerm(ets, v);
  }
  void permuteDvs() {
    long g = sv_choose("pg", 3);
    bool in = g < 2 && hasGroup(g);
    Idx v;
    size_t n = wide ? sv_choose("len", 4) : in ? group[g].size() : 0;
    bool ok = choosePerm(n, v) && in && n == group[g].size();
    int r = outcome<OutOfBoundException<size_t>>([&] { p.permuteDesignVariables(v, G[g]); });
    if (!in)
      sv_check(r == 1, "permuting-an-unknown-group-is-rejected");
    else
      sv_check((r != 0) == !ok, "design-variable-permutation-accepted-iff-valid");
    if (!r && ok) applyPerm(group[g], v);
  }
  void op() {
    switch (sv_choose("op", 6)) {
      case 0: addDv(); break;
      case 1: addEt(); break;
      case 2: reorder(); break;
      case 3: permuteEts(); break;
      case 4: permuteDvs(); break;
      default:
        p.clear();
        group[0].clear();
        group[1].clear();
        order.clear();
        ets.clear();
    }
  }
};

// any problem built from the pool, then any operation
SV_ENTRY(optproblem_step) {
  World w(true);
  w.build();
  w.wide = true;
  w.op();
  w.verify();
}

// histories from the empty problem
SV_ENTRY(optproblem_history) {
  World w(false);
  int n = SV_T(3, 4);
  for (int i = 0; i < n; ++i) {
    switch (sv_choose("kind", 4)) {
      case 0: w.addDv(); break;
      case 1: w.addEt(); break;
      case 2: w.reorder(2); break;
      default:
        w.p.clear();
        w.group[0].clear();
        w.group[1].clear();
        w.order.clear();
        w.ets.clear();
    }
  }
  w.verify();
}
