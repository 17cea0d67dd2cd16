// Data association of images: key frames, their identifiers and the matches
// between the observations of features.
#include <algorithm>
#include <functional>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <vector>
#include <boost/shared_ptr.hpp>
#include <Eigen/Core>
#include <aslam/cameras.hpp>
#include <aslam/NCameraPipeline.hpp>
#include <aslam/DescriptorTrackingAlgorithm.hpp>
#include <aslam/EpipolarMatchingAlgorithm.hpp>
#include <aslam/splines/BSplinePoseDesignVariable.hpp>
#include <aslam/calibration/core/OptimizationProblem.h>
#include "sv.h"
#define private public
#define protected public
#include <aslam/calibration/vision/VisionDataAssociation.hpp>
#undef private
#undef protected
using namespace aslam;
using aslam::calibration::VisionDataAssociation;
typedef boost::shared_ptr<MultiFrame> Frame;

// what is kept, as long as it is kept under these names
template <class C> auto keptMatches(C& c, int) -> decltype(&c._matches) { return &c._matches; }
template <class C> std::vector<KeypointIdentifierMatch>* keptMatches(C&, long) { return nullptr; }
template <class C> auto keptFrames(C& c, int) -> decltype(&c._frames) { return &c._frames; }
template <class C> std::map<MultiFrameId, Frame>* keptFrames(C&, long) { return nullptr; }

struct Match { Frame a; int ca; size_t ka; Frame b; int cb; size_t kb; };

static Frame makeFrame(int number, int cameras) {
  Frame f(new MultiFrame);
  f->number = number;
  for (int i = 0; i < cameras; ++i) {
    f->frames.push_back(boost::shared_ptr<FrameBase>(new FrameBase));
    f->frames.back()->camera = i;
    f->frames.back()->keypoints.resize(4);
    for (int k = 0; k < 4; ++k) f->frames.back()->keypoints[k].y << 10 * number + k, 100 * i + k;
  }
  return f;
}

SV_ENTRY(vision_keyframes) {
  const int cameras = 1 + sv_choose("cameras", 2);
  const double disparity = sv_double("disparityKeyframeThreshold");
  sv_assume(disparity >= 0);
  const int threshold = sv_choose("numTracksThreshold", SV_T(2, 3));
  sm::PropertyTree config;
  config.setString("pipelineName", "pipe");
  config.setString("pipe/name", "pipeline");
  config.setString("descriptorTracking/name", "tracking");
  config.setString("ofovMatching/name", "stereo");
  config.setDouble("disparityKeyframeThreshold", disparity);
  config.setInt("numTracksThreshold", threshold);
  VisionDataAssociation v(config);
  Frame next, reference;
  std::vector<Match> tracks, stereo, expected;
  std::vector<double> displacements;
  std::map<int, MultiFrameId> given;   // identifiers the trackers were told
  int counts[2] = {0, 0};
  Time stamp;
  stamp.seconds = 4.5;
  cv::Mat image;
  image.id = 7;
  int asked = 0;
  NCameraPipeline::images = [&](const std::string& name, const Time& t, int c, const cv::Mat& m) {
    sv_check(name == "pipeline" && t.seconds == 4.5 && c == 1 && m.id == 7, "image-passed-to-pipeline");
    ++asked;
    return next;
  };
  DescriptorTrackingAlgorithm::track = [&](DescriptorTrackingAlgorithm& t) {
    sv_check(t.name == "tracking", "tracker-configured");
    const int c = t.camera[0];
    sv_check(reference && next && c == t.camera[1] && c >= 0 && c < cameras && t.frame[0] == reference->getFrame(c).get() && t.frame[1] == next->getFrame(c).get(), "tracks-from-reference-frame");
    sv_check(t.id[0].value == reference->id().value, "tracks-name-their-frames");
    given[next->number] = t.id[1];
    for (int k = 0; k < counts[c]; ++k) {
      KeypointIdentifierMatch m;
      for (int e = 0; e < 2; ++e) m.index[e].frameId = t.id[e], m.index[e].cameraIndex = c;
      m.index[0].keypointIndex = k;
      m.index[1].keypointIndex = k + 1;
      t.matches.push_back(m);
      tracks.push_back(Match{reference, c, size_t(k), next, c, size_t(k + 1)});
    }
  };
  EpipolarMatchingAlgorithm::match = [&](EpipolarMatchingAlgorithm& t) {
    sv_check(t.name == "stereo", "stereo-configured");
    const int i = t.camera[0], j = t.camera[1];
    sv_check(next && 0 <= i && i < j && j < cameras && t.frame[0] == next->getFrame(i).get() && t.frame[1] == next->getFrame(j).get() && t.t == Eigen::Vector3d(next->number, i, j), "stereo-between-cameras-of-frame");
    sv_check(t.id[0].value == next->id().value && t.id[1].value == next->id().value, "stereo-names-its-frame");
    KeypointIdentifierMatch m;
    for (int e = 0; e < 2; ++e) m.index[e].frameId = t.id[e], m.index[e].cameraIndex = e ? j : i, m.index[e].keypointIndex = e;
    t.matches.push_back(m);
    stereo.push_back(Match{next, i, 0, next, j, 1});
  };
  std::vector<Frame> key;
  const int images = SV_T(3, 4);
  int used = 0;
  bool wasReset = false;
  for (int n = 0; n < images; ++n) {
    tracks.clear();
    stereo.clear();
    next.reset();
    if (n > 1 && !wasReset && sv_choose("reset", 2)) {
      v.reset();
      reference.reset();
      expected.clear();
      key.clear();
      wasReset = true;
    }
    const bool complete = n == 0 || used == n - 1 ? sv_choose("complete", 2) : true;
    if (complete) {
      ++used;
      next = makeFrame(n, cameras);
      const int what = reference ? sv_choose("tracks", SV_T(4, 5)) : 0;
      static const int table[5][2] = {{0, 0}, {1, 0}, {2, 1}, {3, 0}, {0, 2}};
      for (int c = 0; c < cameras; ++c) counts[c] = table[what][c];
    }
    displacements.clear();
    if (reference && next)
      for (int c = 0; c < cameras; ++c)
        for (int k = 0; k < counts[c]; ++k) {
          // moved along one axis by anything, along the other not at all or by a fixed amount
          const double d = sv_double("d"), o = (k == 1 && n == 1) ? 0.75 : 0;
          auto& a = reference->getFrame(c)->keypoints[k].y;
          auto& b = next->getFrame(c)->keypoints[k + 1].y;
          b << a(0) + o, a(1) + d;
          displacements.push_back(d * d + o * o);
        }
    v.addImage(stamp, 1, image);
    if (!next) {
      sv_check(tracks.empty() && stereo.empty(), "incomplete-frame-only-waits");
    } else if (!reference) {
      sv_check(tracks.empty() && stereo.empty(), "first-frame-is-reference");
      reference = next;
    } else {
      sv_check(tracks.size() == displacements.size(), "every-camera-tracked");
      bool accepted = false;
      if (int(tracks.size()) > threshold) {
        // more than the threshold for the upper median: at most n/2 displacements are not above it
        size_t above = 0;
        for (double d : displacements)
          if (d > disparity * disparity) ++above;
        accepted = above >= displacements.size() - displacements.size() / 2;
      }
      sv_check(accepted || stereo.empty(), "key-frame-needs-disparity");
      if (accepted) {
        sv_check(next->id().value == given[next->number].value && next->id().isSet(), "key-frame-has-tracked-identifier");
        sv_check(reference->id().isSet() && reference->id().value != next->id().value, "identifiers-differ");
        for (auto& k : key) sv_check(k == reference || k->id().value != next->id().value, "identifiers-differ");
        sv_check(int(stereo.size()) == cameras * (cameras - 1) / 2, "stereo-between-all-cameras");
        if (key.empty() || key.back() != reference) key.push_back(reference);
        key.push_back(next);
        expected.insert(expected.end(), tracks.begin(), tracks.end());
        expected.insert(expected.end(), stereo.begin(), stereo.end());
        reference = next;
      } else if (int(tracks.size()) <= threshold) {
        reference = next;
      }
    }
    sv_check(asked == n + 1, "image-passed-to-pipeline");
    auto matches = keptMatches(v, 0);
    auto frames = keptFrames(v, 0);
    if (matches) {
      sv_check(matches->size() == expected.size(), "matches-of-key-frames-kept");
      for (size_t i = 0; i < expected.size(); ++i) {
        const KeypointIdentifierMatch& m = (*matches)[i];
        const Match& e = expected[i];
        sv_check(m.index[0].frameId.value == e.a->id().value && m.index[0].cameraIndex == e.ca && m.index[0].keypointIndex == e.ka && m.index[1].frameId.value == e.b->id().value && m.index[1].cameraIndex == e.cb && m.index[1].keypointIndex == e.kb, "matches-name-their-observations");
        if (frames)
          for (const Frame& f : {e.a, e.b}) sv_check(frames->count(f->id()) && (*frames)[f->id()] == f, "matches-refer-to-kept-frames");
      }
    }
    if (frames) sv_check(frames->size() == key.size(), "key-frames-kept");
  }
  sv_check(v.numCalibrationDesignVariables() == 0, "no-calibration-variables");
  bool refused = false;
  try { v.getCalibrationDesignVariable(0); } catch (const std::runtime_error&) { refused = true; }
  sv_check(refused, "calibration-variable-out-of-range");
}
