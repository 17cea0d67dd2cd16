#pragma once
#include "CompressedColumnMatrix.hpp"
#include "DesignVariable.hpp"
#include "ErrorTerm.hpp"
namespace aslam { namespace backend {
// records the layout it was given; the numeric values are not modelled
template <typename I> class CompressedColumnJacobianTransposeBuilder {
 public:
  struct Layout {
    std::vector<DesignVariable*> dvs;
    std::vector<ErrorTerm*> ets;
    std::vector<int> columnBase, blockIndex;
    std::vector<size_t> rowBase;
    int builds = 0;
  };
  void initMatrixStructure(const std::vector<DesignVariable*>& dvs, const std::vector<ErrorTerm*>& ets) {
    layout = Layout();
    layout.dvs = dvs;
    layout.ets = ets;
    _jt._rows = _jt._cols = 0;
    for (auto d : dvs) {
      layout.columnBase.push_back(d->columnBase());
      layout.blockIndex.push_back(d->blockIndex());
      _jt._rows += d->minimalDimensions();
    }
    for (auto e : ets) {
      layout.rowBase.push_back(e->rowBase());
      _jt._cols += e->dimension();
    }
    last = this;
  }
  void buildSystem(size_t numThreads, bool useMEstimator) {
    ++layout.builds;
    threads = numThreads;
    mEstimator = useMEstimator;
  }
  CompressedColumnMatrix<I>& J_transpose() { return _jt; }
  const CompressedColumnMatrix<I>& J_transpose() const { return _jt; }
  Layout layout;
  size_t threads = 0;
  bool mEstimator = false;
  static CompressedColumnJacobianTransposeBuilder* last;
 private:
  CompressedColumnMatrix<I> _jt;
};
template <typename I> CompressedColumnJacobianTransposeBuilder<I>* CompressedColumnJacobianTransposeBuilder<I>::last = nullptr;
}}
