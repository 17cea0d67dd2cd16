#pragma once
#include <opencv2/core/core.hpp>
#define CV_GRAY2RGB 8
namespace cv {
enum { FONT_HERSHEY_COMPLEX = 3 };
inline void cvtColor(const Mat& a, Mat& b, int) {
  b.id = a.id;
  b.color = true;
}
inline void circle(Mat& m, Point c, int r, Scalar s, int, int) { m.marks.push_back(Mark{'c', c.x, c.y, (double)r, 0, s, ""}); }
inline void line(Mat& m, Point a, Point b, Scalar s, int, int) { m.marks.push_back(Mark{'l', a.x, a.y, b.x, b.y, s, ""}); }
inline void putText(Mat& m, const std::string& t, Point p, int, double, Scalar s, int, int) { m.marks.push_back(Mark{'t', p.x, p.y, 0, 0, s, t}); }
}
