#pragma once
#include <cholmod.h>
namespace truncated_svd_solver {
template <class T> class SelfFreeingCholmodPtr {
 public:
  SelfFreeingCholmodPtr(T* p, cholmod_common& c) : _p(p), _c(c) {}
  ~SelfFreeingCholmodPtr() { cholmod_l_free_sparse(&_p, &_c); }
  operator T*() { return _p; }
  T* operator->() { return _p; }
 private:
  SelfFreeingCholmodPtr(const SelfFreeingCholmodPtr&) = delete;
  SelfFreeingCholmodPtr& operator=(const SelfFreeingCholmodPtr&) = delete;
  T* _p;
  cholmod_common& _c;
};
}
