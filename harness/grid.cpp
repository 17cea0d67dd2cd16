#include "sv.h"
#include <Eigen/Core>
#include <aslam/calibration/data-structures/Grid.h>
#include <cmath>
#include <stdexcept>
using namespace aslam::calibration;

// ---- cell semantics, exact arithmetic, one and two dimensions
template <int M> static void cells(int maxCells) {
  typedef Grid<double, int, M> G;
  typename G::Coordinate mn(M), mx(M), rs(M), p(M);
  for (int i = 0; i < M; ++i) {
    mn(i) = sv_double("min");
    mx(i) = sv_double("max");
    rs(i) = sv_double("res");
    sv_assume(rs(i) > 1e-3 && rs(i) < 1e3 && mn(i) > -1e3 && mn(i) < 1e3 && mx(i) - mn(i) <= maxCells * rs(i));
  }
  bool valid = true;
  for (int i = 0; i < M; ++i) valid = valid && mn(i) < mx(i) && rs(i) <= mx(i) - mn(i);
  sv_assume(valid);
  G g(mn, mx, rs);
  size_t tot = 1;
  for (int i = 0; i < M; ++i) {
    int n = g.getNumCells()(i);
    tot *= n;
    sv_check(n * rs(i) >= mx(i) - mn(i) && (n - 1) * rs(i) < mx(i) - mn(i), "smallest-number-of-cells-that-covers-the-range");
  }
  sv_check(g.getNumCellsTot() == tot && g.getCells().size() == tot, "total-number-of-cells");
  bool in = true;
  for (int i = 0; i < M; ++i) {
    p(i) = sv_double("p");
    in = in && p(i) >= mn(i) && p(i) <= mx(i);
  }
  sv_check(g.isInRange(p) == in, "in-range-test");
  bool thrown = false;
  typename G::Index idx(M);
  try {
    idx = g.getIndex(p);
  } catch (const std::exception&) {
    thrown = true;
  }
  sv_check(thrown == !in, "points-outside-the-range-are-rejected");
  if (thrown) return;
  sv_check(g.isValidIndex(idx), "index-of-a-point-in-range-is-valid");
  for (int i = 0; i < M; ++i) {
    bool inside = mn(i) + idx(i) * rs(i) <= p(i) && (p(i) < mn(i) + (idx(i) + 1) * rs(i) || p(i) == mx(i));
    sv_check(inside, "the-cell-of-a-point-contains-it");
    sv_obs_i("idx", idx(i));
  }
  g(p) = 7;
  sv_check(g.getCell(idx) == 7 && g[idx] == 7 && g.getCells()[g.computeLinearIndex(idx)] == 7, "coordinates-and-index-reach-the-same-cell");
  typename G::Coordinate c = g.getCoordinates(idx);
  for (int i = 0; i < M; ++i) sv_check_close(c(i), mn(i) + (idx(i) + 0.5) * rs(i), "coordinates-are-the-cell-centre");
  if (g.isInRange(c)) sv_check(g.getIndex(c) == idx, "a-cell-centre-maps-back-to-its-cell");
}
SV_ENTRY(grid_cells_1d) { cells<1>(SV_T(3, 4)); }
SV_ENTRY(grid_cells_2d) { cells<2>(SV_T(2, 3)); }

// ---- rejection of bad parameters
SV_ENTRY(grid_ctor) {
  typedef Grid<double, int, 2> G;
  G::Coordinate mn, mx, rs;
  bool ok = true;
  for (int i = 0; i < 2; ++i) {
    mn(i) = sv_double("min");
    mx(i) = sv_double("max");
    rs(i) = sv_double("res");
    sv_assume(mn(i) > -1e3 && mn(i) < 1e3 && mx(i) > -1e3 && mx(i) < 1e3 && rs(i) > -1e3 && rs(i) < 1e3);
    ok = ok && rs(i) > 0 && mn(i) < mx(i) && rs(i) <= mx(i) - mn(i);
    if (mx(i) > mn(i) && rs(i) > 0) sv_assume(mx(i) - mn(i) <= 2 * rs(i));
  }
  bool thrown = false;
  try {
    G g(mn, mx, rs);
  } catch (const std::exception&) {
    thrown = true;
  }
  sv_check(thrown == !ok, "constructor-rejects-exactly-the-bad-parameters");
}

// ---- the same with IEEE rounding (single precision instantiation)
SV_ENTRY(grid_ieee) {
  typedef Grid<float, int, 1> G;
  G::Coordinate mn, mx, rs, p;
  mn(0) = sv_float("min");
  mx(0) = sv_float("max");
  const float r[4] = {0.1f, 0.3f, 1.f, 7.f};
  rs(0) = SV_TIER ? sv_float("res") : r[sv_choose("res-case", 4)];
  p(0) = sv_float("p");
  sv_assume(rs(0) >= 0.0078125f && rs(0) <= 128.f && mn(0) >= -64.f && mn(0) <= 64.f && mx(0) <= 64.f);
  sv_assume(mx(0) - mn(0) <= 3 * rs(0) && mn(0) < mx(0) && rs(0) <= mx(0) - mn(0));
  G g(mn, mx, rs);
  sv_assume(g.isInRange(p));
  G::Index idx = g.getIndex(p);
  sv_check(g.isValidIndex(idx), "index-of-a-point-in-range-is-valid-despite-rounding");
  sv_obs_i("idx", idx(0));
}

// ---- index space
template <int M> static void indices(const int* n) {
  typedef Grid<double, int, M> G;
  typename G::Coordinate mn(M), mx(M), rs(M);
  size_t tot = 1;
  for (int i = 0; i < M; ++i) {
    mn(i) = 0;
    mx(i) = n[i];
    rs(i) = 1;
    tot *= n[i];
  }
  G g(mn, mx, rs);
  // every index vector is either accepted and inside the container or rejected
  typename G::Index idx(M), other(M);
  bool ok = true, ok2 = true, same = true;
  for (int i = 0; i < M; ++i) {
    idx(i) = (int)sv_int("i", -2147483648L, 2147483647L);
    ok = ok && idx(i) >= 0 && idx(i) < n[i];
  }
  sv_check(g.isValidIndex(idx) == ok, "exactly-the-indices-inside-the-grid-are-valid");
  bool t1 = false, t2 = false, t3 = false;
  try { g.getCell(idx) = 1; } catch (const std::exception&) { t1 = true; }
  try { g[idx] = 1; } catch (const std::exception&) { t2 = true; }
  try { g.getCoordinates(idx); } catch (const std::exception&) { t3 = true; }
  sv_check(t1 == !ok && t2 == !ok && t3 == !ok, "access-through-an-index-outside-the-grid-is-rejected");
  if (!ok) return;
  size_t l = g.computeLinearIndex(idx);
  sv_check(l < tot, "linear-index-inside-the-container");
  for (int i = 0; i < M; ++i) {
    other(i) = (int)sv_choose("o", n[i]);
    same = same && other(i) == idx(i);
  }
  sv_check((g.computeLinearIndex(other) == l) == same, "different-cells-have-different-storage");
}
SV_ENTRY(grid_index_2d) {
  int n[2] = {1 + (int)sv_choose("n", 3), 1 + (int)sv_choose("n", 3)};
  indices<2>(n);
}
SV_ENTRY(grid_index_3d) {
  int n[3] = {2, 1 + (int)sv_choose("n", 2), 3};
  indices<3>(n);
}
// enumeration of all cells by incrementing
SV_ENTRY(grid_increment) {
  typedef Grid<double, int, 3> G;
  G::Coordinate mn(0, 0, 0), mx, rs(1, 1, 1);
  int n[3];
  for (int i = 0; i < 3; ++i) mx(i) = n[i] = 1 + sv_choose("n", 3);
  G g(mn, mx, rs);
  int tot = n[0] * n[1] * n[2];
  std::vector<int> seen(tot, 0);
  G::Index idx = G::Index::Zero();
  bool once = true;
  int steps = 0;
  while (idx != g.getNumCells() && steps <= tot) {
    if (!g.isValidIndex(idx)) break;
    once = once && seen[g.computeLinearIndex(idx)]++ == 0;
    g.incrementIndex(idx);
    ++steps;
  }
  sv_check(once && steps == tot && idx == g.getNumCells(), "incrementing-visits-every-cell-once-then-ends");
}
// copies, assignment, reset
SV_ENTRY(grid_copy) {
  typedef Grid<double, int, 2> G;
  G g(G::Coordinate(0, 0), G::Coordinate(2, 2), G::Coordinate(1, 1)), h(G::Coordinate(5, 5), G::Coordinate(6, 6), G::Coordinate(1, 1));
  G::Coordinate p(sv_double("p"), sv_double("p"));
  sv_assume(g.isInRange(p));
  int v = (int)sv_int("v", 1, 1000);
  g(p) = v;
  G c(g);
  h = g;
  sv_check(c.getMinimum() == g.getMinimum() && c.getMaximum() == g.getMaximum() && c.getResolution() == g.getResolution() && c.getNumCellsTot() == 4, "copy-has-the-same-geometry");
  sv_check(h.getMinimum() == g.getMinimum() && h.getMaximum() == g.getMaximum() && h.getResolution() == g.getResolution() && h.getNumCells() == g.getNumCells() && h.getNumCellsTot() == 4, "assignment-has-the-same-geometry");
  sv_check(c(p) == v && h(p) == v, "copies-have-the-same-cells");
  int sum = 0;
  for (auto it = h.getCellBegin(); it != h.getCellEnd(); ++it) sum += *it;
  sv_check(sum == v, "only-the-addressed-cell-changed");
  c(p) = v + 1;
  sv_check(g(p) == v, "copies-are-independent");
  g.reset();
  sum = 0;
  for (auto it = g.getCellBegin(); it != g.getCellEnd(); ++it) sum += *it;
  sv_check(sum == 0 && g.getNumCellsTot() == 4 && g.getMaximum() == h.getMaximum() && h(p) == v, "reset-clears-the-cells-and-only-those");
}
// integer coordinates
SV_ENTRY(grid_integer) {
  typedef Grid<int, int, 1> G;
  G::Coordinate mn, mx, rs, p;
  mn(0) = (int)sv_int("min", -20, 20);
  mx(0) = (int)sv_int("max", -20, 20);
  rs(0) = (int)sv_int("res", -3, 20);
  bool bad = rs(0) <= 0 || mn(0) >= mx(0) || rs(0) > mx(0) - mn(0);
  if (!bad) sv_assume(mx(0) - mn(0) <= 6 * rs(0));
  bool thrown = false;
  try {
    G g(mn, mx, rs);
    p(0) = (int)sv_int("p", -50, 50);
    bool in = p(0) >= mn(0) && p(0) <= mx(0), t = false;
    G::Index idx;
    try { idx = g.getIndex(p); } catch (const std::exception&) { t = true; }
    sv_check(t == !in, "integer-points-outside-the-range-are-rejected");
    if (!t) {
      sv_check(g.isValidIndex(idx), "integer-index-valid");
      sv_check(mn(0) + idx(0) * rs(0) <= p(0) && p(0) < mn(0) + (idx(0) + 1) * rs(0), "the-integer-cell-contains-the-point");
      G::Coordinate c = g.getCoordinates(idx);
      sv_check(mn(0) + idx(0) * rs(0) <= c(0) && c(0) < mn(0) + (idx(0) + 1) * rs(0), "the-integer-centre-lies-in-its-cell");
    }
  } catch (const std::exception&) {
    thrown = true;
  }
  sv_check(thrown == bad, "integer-constructor-rejects-exactly-the-bad-parameters");
}
