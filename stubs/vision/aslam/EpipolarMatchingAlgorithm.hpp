#pragma once
#include <aslam/DenseMatcher.hpp>
#include <sm/PropertyTree.hpp>
namespace aslam {
struct EpipolarMatchingAlgorithm : MatchingAlgorithm {
  EpipolarMatchingAlgorithm(const sm::PropertyTree& c) : name(c.getString("name", "")) {}
  void setMatchData(MultiFrameId idA, int cameraA, const FrameBase* A, MultiFrameId idB, int cameraB, const FrameBase* B,
                    const cameras::ImageMask*, const cameras::ImageMask*, const sm::kinematics::Transformation& T) {
    id[0] = idA, id[1] = idB, camera[0] = cameraA, camera[1] = cameraB, frame[0] = A, frame[1] = B, t = T.t();
  }
  void run() override { match(*this); }
  std::string name;
  MultiFrameId id[2];
  int camera[2];
  const FrameBase* frame[2];
  Eigen::Vector3d t;
  static inline std::function<void(EpipolarMatchingAlgorithm&)> match;
};
}
