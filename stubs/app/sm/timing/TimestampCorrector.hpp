#pragma once
#include "sv.h"
#include <vector>
namespace sm { namespace timing {
struct Correction {
  const void* corrector;
  double remote, local, result;
};
inline std::vector<Correction>& corrections() { static std::vector<Correction> c; return c; }
template <class T> class TimestampCorrector {
 public:
  T correctTimestamp(const T& remote, const T& local) {
    Correction c;
    c.corrector = this;
    c.remote = remote;
    c.local = local;
    c.result = sv_real_in("corrected", 0, 4e18);
    corrections().push_back(c);
    return c.result;
  }
};
}}
