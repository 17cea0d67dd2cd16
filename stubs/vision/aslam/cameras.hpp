#pragma once
#include <functional>
#include <map>
#include <stdexcept>
#include <string>
#include <vector>
#include <boost/shared_ptr.hpp>
#include <Eigen/Core>
#include <aslam/backend/DesignVariable.hpp>
#include <sm/kinematics/Transformation.hpp>
namespace cv { struct Mat { int id = -1; }; }
namespace aslam {
struct Time { double seconds = 0; };
template <class Tag> struct Id {
  Id() : value(-1) {}
  explicit Id(long v) : value(v) {}
  bool isSet() const { return value != -1; }
  Id& operator++() { ++value; return *this; }
  Id operator++(int) { Id old(*this); ++value; return old; }
  bool operator<(const Id& o) const { return value < o.value; }
  bool operator>(const Id& o) const { return value > o.value; }
  bool operator==(const Id& o) const { return value == o.value; }
  bool operator!=(const Id& o) const { return value != o.value; }
  long getId() const { return value; }
  long value;
};
typedef Id<struct MultiFrameTag> MultiFrameId;
typedef Id<struct LandmarkTag> LandmarkId;
namespace cameras { class ImageMask; }
struct KeypointBase {
  Eigen::Vector2d y;
  const Eigen::VectorXd vsMeasurement() const { return y; }
};
struct KeypointIdentifier {
  MultiFrameId frameId;
  int cameraIndex = -1;
  size_t keypointIndex = 0;
};
struct KeypointIdentifierMatch { KeypointIdentifier index[2]; };
struct FrameBase {
  int camera = -1;
  std::vector<KeypointBase> keypoints;
};
class MultiFrame {
 public:
  MultiFrameId id() const { return _id; }
  void setId(MultiFrameId id) { _id = id; }
  size_t numCameras() const { return frames.size(); }
  size_t numFrames() const { return frames.size(); }
  boost::shared_ptr<FrameBase> getFrame(size_t i) const { return frames.at(i); }
  KeypointBase& keypoint(const KeypointIdentifier& k) const { return frames.at(k.cameraIndex)->keypoints.at(k.keypointIndex); }
  sm::kinematics::Transformation T_ci_cj(size_t i, size_t j) const {
    Eigen::Matrix4d T = Eigen::Matrix4d::Identity();
    T.topRightCorner<3, 1>() << number, i, j;
    return sm::kinematics::Transformation(T);
  }
  std::vector<boost::shared_ptr<FrameBase>> frames;
  int number = -1;
 private:
  MultiFrameId _id;
};
}
