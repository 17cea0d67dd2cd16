#pragma once
#include <sm/timing/NsecTimeUtilities.hpp>
namespace bsplines {
struct NsecTimePolicy { static sm::timing::NsecTime getOne() { return 1000000000; } };
}
