#pragma once
#include <cstddef>
struct cholmod_sparse { size_t nrow, ncol, nzmax; const void* stamp; bool transposed; };
struct cholmod_dense { size_t nrow, ncol; double* x; };
struct cholmod_common { int live; bool failTranspose; };
inline cholmod_sparse* cholmod_l_transpose(cholmod_sparse* a, int, cholmod_common* c) {
  if (c->failTranspose) return nullptr;
  ++c->live;
  return new cholmod_sparse{a->ncol, a->nrow, a->nzmax, a->stamp, !a->transposed};
}
inline int cholmod_l_free_sparse(cholmod_sparse** a, cholmod_common* c) {
  if (a && *a) {
    delete *a;
    *a = nullptr;
    --c->live;
  }
  return 1;
}
