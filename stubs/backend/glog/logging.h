#pragma once
#include <cstdlib>
#include <iostream>
namespace sv_glog {
struct Null { template <class T> Null& operator<<(const T&) { return *this; } };
struct Fatal { ~Fatal() { std::abort(); } template <class T> Fatal& operator<<(const T&) { return *this; } };
struct Voidify { template <class T> void operator&(T&&) {} };
}
#define CHECK(c) (c) ? (void)0 : sv_glog::Voidify() & sv_glog::Fatal()
#define CHECK_EQ(a, b) CHECK((a) == (b))
#define CHECK_NE(a, b) CHECK((a) != (b))
#define CHECK_LT(a, b) CHECK((a) < (b))
#define CHECK_LE(a, b) CHECK((a) <= (b))
#define CHECK_GT(a, b) CHECK((a) > (b))
#define CHECK_GE(a, b) CHECK((a) >= (b))
#define CHECK_NOTNULL(p) (p)
#define DCHECK(c) CHECK(true)
#define LOG(x) sv_glog::Null()
#define VLOG(x) sv_glog::Null()
