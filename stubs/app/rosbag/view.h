#pragma once
#include "bag.h"
namespace rosbag {
struct TopicQuery {
  TopicQuery(const std::vector<std::string>& t) : topics(t) {}
  std::vector<std::string> topics;
};
class View {
 public:
  typedef std::vector<MessageInstance>::iterator iterator;
  View(const Bag&, const TopicQuery& q) {
    for (auto& m : recorded()) {
      bool asked = false;
      for (auto& t : q.topics) asked |= t == m.topic;
      if (asked) messages.push_back(m);
    }
  }
  iterator begin() { return messages.begin(); }
  iterator end() { return messages.end(); }
  size_t size() const { return messages.size(); }
 private:
  std::vector<MessageInstance> messages;
};
}
