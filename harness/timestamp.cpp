// Timestamps with any value and any reading of the clock.
#include "sv.h"
#include <cmath>
#include <cstring>
#include <sstream>
#include <sys/time.h>
#include <time.h>
#include <aslam/calibration/base/Timestamp.h>
using namespace aslam::calibration;

static long clockSec, clockUsec;
static double dated;  // what was turned into a date
static int clocks, dates;
extern "C" int gettimeofday(struct timeval* t, void*) noexcept {
  t->tv_sec = clockSec;
  t->tv_usec = clockUsec;
  ++clocks;
  return 0;
}
static struct tm theDate;
extern "C" struct tm* localtime(const time_t* t) noexcept {
  dated = (double)*t;
  return &theDate;
}
extern "C" size_t strftime(char* s, size_t n, const char*, const struct tm* t) noexcept {
  ++dates;
  sv_check(t == &theDate, "date-is-the-converted-one");
  sv_check(n >= 20, "room-for-the-date");
  memcpy(s, "2000-01-01-00-00-00", 20);
  return 19;
}
SV_ENTRY(timestamp_clock) {
  clockSec = sv_lint("sec", 0, 4102444800L);
  clockUsec = sv_lint("usec", 0, 999999);
  double x = (double)clockSec + (double)clockUsec / 1e6;
  switch (sv_choose("op", 4)) {
    case 0: sv_check_close(Timestamp::now(), x, "clock-reading-is-in-seconds-with-the-fraction"); break;
    case 1: {
      Timestamp t;
      sv_check_close(t.getSeconds(), x, "default-timestamp-is-the-present");
      sv_check(clocks == 1, "clock-is-read-once");
      break;
    }
    case 2: {
      std::string s = Timestamp::getDate();
      sv_check(dates == 1 && s == "2000-01-01-00-00-00", "date-is-returned");
      sv_check_close(dated, (double)clockSec, "date-of-the-present-second");
      break;
    }
    default: {
      double y = sv_double("seconds");
      sv_assume(y >= 0 && y < 4e9);
      sv_lazy_int(true);
      std::string s = Timestamp::getDate(y);
      sv_check(dates == 1 && s == "2000-01-01-00-00-00", "date-is-returned");
      sv_check(dated <= y && y < dated + 1, "date-of-the-second-the-time-lies-in");
    }
  }
}
SV_ENTRY(timestamp_timespec) {
  double x = sv_double("seconds");
  sv_assume(x > -4e9 && x < 4e9);
  sv_lazy_int(true);
  Timestamp t(x);
  timespec s = t;
  double a = (double)s.tv_sec, b = (double)s.tv_nsec;
  sv_check(b + 0.5 > 0 && b + 0.5 < 1e9, "nanoseconds-are-in-range");
  sv_check(a <= x && x < a + 1, "seconds-are-the-whole-ones");
  sv_check(a + b / 1e9 <= x && x < a + (b + 1) / 1e9, "seconds-and-nanoseconds-are-those-of-the-time");
}
// with the rounding of the conversion
SV_ENTRY(timestamp_timespec_ieee) {
  double x = sv_double("seconds");
  sv_assume(x > -4e9 && x < 4e9);
  Timestamp t(x);
  timespec s = t;
  sv_check(s.tv_nsec >= 0 && s.tv_nsec < 1000000000, "nanoseconds-are-in-range");
}
SV_ENTRY(timestamp_order) {
  double x = sv_double("seconds"), y = sv_double("seconds");
  Timestamp a(x), b(y);
  sv_check((a == b) == (x == y) && (a == y) == (x == y), "equality");
  sv_check((a != b) == (x != y) && (a != y) == (x != y), "inequality");
  sv_check((a < b) == (x < y) && (a < y) == (x < y), "less");
  sv_check((a <= b) == (x <= y) && (a <= y) == (x <= y), "less-or-equal");
  sv_check((a > b) == (x > y) && (a > y) == (x > y), "greater");
  sv_check((a >= b) == (x >= y) && (a >= y) == (x >= y), "greater-or-equal");
}
static bool same(double a, double b) { return a == b || (std::isnan(a) && std::isnan(b)); }
SV_ENTRY(timestamp_arithmetic) {
  double x = sv_double("seconds"), y = sv_double("seconds");
  Timestamp a(x), b(y), c(a);
  sv_check(same(a.getSeconds(), x) && same((double)a, x) && same(c.getSeconds(), x), "value-is-held");
  sv_check(same(a + b, x + y) && same(a + y, x + y), "sum");
  sv_check(same(a - b, x - y) && same(a - y, x - y), "difference");
  c += y;
  sv_check(same(c.getSeconds(), x + y) && same(a.getSeconds(), x), "increment");
  c = a;
  sv_check(same(c.getSeconds(), x), "assignment");
  c -= y;
  sv_check(same(c.getSeconds(), x - y) && same(a.getSeconds(), x), "decrement");
  a = a;
  sv_check(same(a.getSeconds(), x), "self-assignment");
  sv_check(same((b += x).getSeconds(), y + x) && same((b -= x).getSeconds(), (y + x) - x), "chained");
}
