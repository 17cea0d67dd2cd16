#pragma once
#include <cholmod.h>
#include <Eigen/Core>
#include <vector>
namespace aslam { namespace backend {
template <typename I> class CompressedColumnMatrix {
 public:
  CompressedColumnMatrix() : _rows(0), _cols(0), _nnz(0) {}
  I rows() const { return _rows; }
  I cols() const { return _cols; }
  size_t nnz() const { return _nnz; }
  void getView(cholmod_sparse* s) {
    s->nrow = _rows;
    s->ncol = _cols;
    s->nzmax = _nnz;
    s->stamp = this;
    s->transposed = false;
  }
  template <class S> void writeMATLAB(S& s) const { s << (double)_rows; }
  I _rows, _cols;
  size_t _nnz;
};
}}
