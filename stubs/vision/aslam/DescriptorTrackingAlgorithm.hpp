#pragma once
#include <aslam/DenseMatcher.hpp>
#include <sm/PropertyTree.hpp>
namespace aslam {
struct DescriptorTrackingAlgorithm : MatchingAlgorithm {
  DescriptorTrackingAlgorithm(const sm::PropertyTree& c) : name(c.getString("name", "")) {}
  void setFrames(MultiFrameId idA, int cameraA, const FrameBase* A, MultiFrameId idB, int cameraB, const FrameBase* B) {
    id[0] = idA, id[1] = idB, camera[0] = cameraA, camera[1] = cameraB, frame[0] = A, frame[1] = B;
  }
  void run() override { track(*this); }
  std::string name;
  MultiFrameId id[2];
  int camera[2];
  const FrameBase* frame[2];
  static inline std::function<void(DescriptorTrackingAlgorithm&)> track;
};
}
