// The optimization problems of the examples, with splines among the variables.
#include "core_common.h"
#include <sstream>
#include <aslam/splines/OPTBSpline.hpp>
#include <aslam/calibration/exceptions/OutOfBoundException.h>
#include <aslam/calibration/exceptions/InvalidOperationException.h>
#if defined(CAR)
#include <aslam/calibration/car/algo/OptimizationProblemSpline.h>
#elif defined(EGO)
#include <aslam/calibration/egomotion/algo/OptimizationProblemSpline.h>
#else
#include <aslam/calibration/time-delay/algo/OptimizationProblemSpline.h>
#endif
using namespace aslam::calibration;
using aslam::backend::DesignVariable;
using aslam::splines::ControlPoint;
typedef OptimizationProblemSpline P;
typedef P::TranslationSpline T;
typedef P::RotationSpline R;
struct Shown {
  std::vector<ControlPoint*> points;
  size_t group;
  bool rotation;
  void* spline;
};
template <class F> static bool outOfBound(F f) {
  try {
    f();
  } catch (const OutOfBoundException<size_t>&) {
    return true;
  }
  return false;
}
static void holds(P& p, const std::vector<Shown>& all, size_t extra) {
  const char* id = "every-control-point-is-a-variable-of-its-group";
  size_t n = extra;
  std::vector<std::vector<DesignVariable*>> groups(3);
  for (auto& s : all)
    for (auto x : s.points) {
      ++n;
      sv_check(p.isDesignVariableInProblem(x) && p.getGroupId(x) == s.group && x->isActive(), id);
      groups[s.group].push_back(x);
    }
  sv_check(p.numDesignVariables() == n, id);
  // those of a group in the order they were added
  for (size_t g = 0; g < 3; ++g) {
    if (groups[g].empty()) continue;
    auto& v = p.getDesignVariablesGroup(g);
    size_t k = 0;
    for (auto& x : v)
      if (k < groups[g].size() && x.get() == groups[g][k]) ++k;
    sv_check(k == groups[g].size(), id);
  }
  const char* as = "splines-are-available-in-the-order-added";
  size_t t = 0, r = 0;
  const P& q = p;
  for (auto& s : all)
    if (s.rotation) {
      sv_check(r < p.getNumRotationSplines() && p.getRotationSpline(r) == s.spline && q.getRotationSpline(r) == s.spline && p.getRotationSplines()[r].get() == s.spline, as);
      ++r;
    } else {
      sv_check(t < p.getNumTranslationSplines() && p.getTranslationSpline(t) == s.spline && q.getTranslationSpline(t) == s.spline && p.getTranslationSplines()[t].get() == s.spline, as);
      ++t;
    }
  sv_check(p.getNumRotationSplines() == r && p.getNumTranslationSplines() == t && p.getRotationSplines().size() == r && p.getTranslationSplines().size() == t, as);
#if !defined(EGO) || !defined(NDEBUG)  // there only with assertions
  const char* ob = "absent-spline-is-out-of-bounds";
  sv_check(outOfBound([&] { p.getRotationSpline(r); }) && outOfBound([&] { q.getRotationSpline(r); }), ob);
  sv_check(outOfBound([&] { p.getTranslationSpline(t); }) && outOfBound([&] { q.getTranslationSpline(t); }), ob);
#endif
}
template <class S> static Shown insert(P& p, S*, bool rotation) {
  Shown s;
  aslam::splines::controlPoints() = 1 + sv_choose("points", SV_T(2, 3));
  boost::shared_ptr<S> x(new S(typename S::Conf(typename S::Conf::ManifoldConf(), 4)));
  for (auto& c : x->points) {
    s.points.push_back(c.get());
    c->setActive(sv_choose("active", 2));
  }
  s.group = sv_choose("group", 3);
  s.rotation = rotation;
  s.spline = x.get();
  p.addSpline(x, s.group);
  return s;  // only the problem keeps the spline
}
SV_ENTRY(spline_problem) {
  boost::shared_ptr<P> p(new P);
  std::vector<Shown> all;
  size_t extra = 0;
  holds(*p, all, extra);
  const int n = SV_T(2, 3);
  for (int i = 0; i < n; ++i) {
    switch (sv_choose("what", i ? 4 : 3)) {
      case 0: all.push_back(insert(*p, (T*)nullptr, false)); break;
      case 1: all.push_back(insert(*p, (R*)nullptr, true)); break;
      case 2: {
        boost::shared_ptr<ControlPoint> x(new ControlPoint(3));
        p->addDesignVariable(x, sv_choose("group", 3));
        ++extra;
        break;
      }
      case 3: {
        // a spline added once more is refused
        if (all.empty()) return;
        auto& s = all[sv_choose("again", all.size())];
        bool refused = false;
        try {
          if (s.rotation) {
            size_t k = 0;
            while (p->getRotationSpline(k) != s.spline) ++k;
            p->addSpline(boost::shared_ptr<R>(p->getRotationSplines()[k]), sv_choose("group", 3));
          } else {
            size_t k = 0;
            while (p->getTranslationSpline(k) != s.spline) ++k;
            p->addSpline(boost::shared_ptr<T>(p->getTranslationSplines()[k]), sv_choose("group", 3));
          }
        } catch (const InvalidOperationException&) {
          refused = true;
        }
        sv_check(refused, "spline-is-added-only-once");
        break;
      }
    }
    holds(*p, all, extra);
  }
  // saved and restored like any variable
  std::vector<ControlPoint*> points;
  for (auto& s : all) points.insert(points.end(), s.points.begin(), s.points.end());
  std::vector<double> before;
  auto move = [&] {
    for (auto x : points) {
      double d[3] = {sv_double("step"), sv_double("step"), sv_double("step")};
      x->update(d, 3);
    }
  };
  move();
  for (auto x : points)
    for (int i = 0; i < 3; ++i) before.push_back(x->v(i));
  p->saveDesignVariables();
  move();
  p->restoreDesignVariables();
  size_t k = 0;
  for (auto x : points)
    for (int i = 0; i < 3; ++i) sv_check(x->v(i) == before[k++], "control-points-are-restored");
  // cleared: the variables are gone
  p->clear();
  sv_check(p->numDesignVariables() == 0 && p->numErrorTerms() == 0, "cleared-problem-has-no-variables");
}
