#pragma once
#include <aslam/cameras.hpp>
namespace aslam {
struct MatchingAlgorithm {
  virtual ~MatchingAlgorithm() {}
  virtual void run() = 0;
  const std::vector<KeypointIdentifierMatch>& getMatches() const { return matches; }
  void insertMatches(std::vector<KeypointIdentifierMatch>& out) const { out.insert(out.end(), matches.begin(), matches.end()); }
  void swapMatches(std::vector<KeypointIdentifierMatch>& out) { out.swap(matches); }
  std::vector<KeypointIdentifierMatch> matches;
};
struct DenseMatcher {
  void match(MatchingAlgorithm& a) { a.matches.clear(); a.run(); }
};
}
