#pragma once
#include "sv.h"
#include <functional>
#include <sm/PropertyTree.hpp>
namespace sm {
// harness: the contents of config files
inline std::function<void(const std::string&, PropertyTree&)>& configFile() { static std::function<void(const std::string&, PropertyTree&)> f; return f; }
class BoostPropertyTree : public PropertyTree {
 public:
  void loadXml(const std::string& p) { configFile()(p, *this); }
};
}
