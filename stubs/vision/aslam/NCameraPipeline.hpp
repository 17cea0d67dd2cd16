#pragma once
#include <aslam/cameras.hpp>
#include <sm/PropertyTree.hpp>
namespace aslam {
class NCameraPipeline {
 public:
  NCameraPipeline(const sm::PropertyTree& c) : name(c.getString("name", "")) {}
  boost::shared_ptr<MultiFrame> addImage(const Time& t, int camera, const cv::Mat& image) { return images(name, t, camera, image); }
  std::string name;
  static inline std::function<boost::shared_ptr<MultiFrame>(const std::string&, const Time&, int, const cv::Mat&)> images;
};
}
