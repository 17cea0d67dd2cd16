#pragma once
#include <stddef.h>
#include <cstdint>
namespace sm { namespace timing {
typedef std::int64_t NsecTime;
inline double nsecToSec(const NsecTime& t) { return (double)t * 1e-9; }
inline NsecTime secToNsec(const double& t) { return (NsecTime)(t * 1e9); }
}}
