# what the demonstrations start with
HEAD = r'''
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <sstream>
#define EXPECT(c) do { if (!(c)) { std::printf("failed: %s (line %d)\n", #c, __LINE__); std::exit(1); } } while (0)
#define NEAR(a, b) EXPECT(std::fabs((a) - (b)) <= 1e-9 * (1 + std::fabs(b)))
template <class F> static bool throws(F f) { try { f(); } catch (const std::exception&) { return true; } return false; }
'''
