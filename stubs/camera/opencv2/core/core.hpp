#pragma once
#include <string>
#include <vector>
#define CV_8UC3 16
#define CV_AA 16
namespace cv {
struct Scalar {
  Scalar(double a = 0, double b = 0, double c = 0) : v{a, b, c} {}
  double v[3];
};
struct Point {
  Point(double a, double b) : x(a), y(b) {}
  double x, y;
};
struct Mark { char kind; double x, y, u, v; Scalar color; std::string text; };
// an image is a number and what was drawn on it
class Mat {
 public:
  Mat() : id(-1), rows(0), cols(0), color(false) {}
  Mat(int r, int c, int) : id(-1), rows(r), cols(c), color(false) {}
  int id, rows, cols;
  bool color;
  std::vector<Mark> marks;
};
}
inline double cvRound(double x) { return x; }
