#pragma once
#include <ostream>
namespace sv_log { struct Null { template <class T> const Null& operator<<(const T&) const { return *this; } }; }
#define SM_INFO_STREAM(x) do { sv_log::Null() << x; } while (0)
#define SM_ASSERT_LT(E, a, b, m) do { if (!((a) < (b))) throw E(m); } while (0)
