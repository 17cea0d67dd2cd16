#pragma once
namespace aslam {
struct Time {
  Time() : seconds(0) {}
  explicit Time(double s) : seconds(s) {}
  double toSec() const { return seconds; }
  double seconds;
};
}
