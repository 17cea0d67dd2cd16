#pragma once
#include <boost/shared_ptr.hpp>
#include <cstdint>
#include <string>
#include <typeinfo>
#include <vector>
namespace ros {
struct Time {
  std::uint64_t nsec;
  Time() : nsec(0) {}
  std::uint64_t toNSec() const { return nsec; }
  double toSec() const { return (double)nsec * 1e-9; }
};
struct Header {
  std::uint32_t seq;
  Time stamp;
};
}
namespace rosbag {
class MessageInstance {
 public:
  template <class M> static MessageInstance of(const std::string& topic, const boost::shared_ptr<M>& m) {
    MessageInstance i;
    i.topic = topic;
    i.message = m;
    i.type = &typeid(M);
    return i;
  }
  const std::string& getTopic() const { return topic; }
  template <class M> boost::shared_ptr<M> instantiate() const { return *type == typeid(M) ? boost::static_pointer_cast<M>(message) : boost::shared_ptr<M>(); }
  std::string topic;
  boost::shared_ptr<void> message;
  const std::type_info* type;
};
// harness: the messages of the bag, and its name
inline std::vector<MessageInstance>& recorded() { static std::vector<MessageInstance> m; return m; }
inline std::string& opened() { static std::string s; return s; }
class Bag {
 public:
  explicit Bag(const std::string& f) { opened() = f; }
};
}
