#pragma once
#include <map>
#include <memory>
#include <stdexcept>
#include <string>
namespace sm {
class PropertyTree {
 public:
  struct Value { double d; long i; bool b; std::string s; };
  typedef std::map<std::string, Value> Map;
  PropertyTree() : _m(std::make_shared<Map>()) {}
  PropertyTree(const PropertyTree& o, const std::string& child) : _m(o._m), _prefix(o._prefix + child + "/") {}
  virtual ~PropertyTree() {}
  double getDouble(const std::string& k) const { return get(k).d; }
  double getDouble(const std::string& k, double def) const { auto v = find(k); return v ? v->d : def; }
  int getInt(const std::string& k) const { return get(k).i; }
  int getInt(const std::string& k, int def) const { auto v = find(k); return v ? v->i : def; }
  bool getBool(const std::string& k) const { return get(k).b; }
  bool getBool(const std::string& k, bool def) const { auto v = find(k); return v ? v->b : def; }
  std::string getString(const std::string& k) const { return get(k).s; }
  std::string getString(const std::string& k, const std::string& def) const { auto v = find(k); return v ? v->s : def; }
  bool doesKeyExist(const std::string& k) const { return find(k) != nullptr; }
  void setDouble(const std::string& k, double v) { (*_m)[_prefix + k].d = v; }
  void setInt(const std::string& k, int v) { (*_m)[_prefix + k].i = v; }
  void setBool(const std::string& k, bool v) { (*_m)[_prefix + k].b = v; }
  void setString(const std::string& k, const std::string& v) { (*_m)[_prefix + k].s = v; }
 private:
  const Value* find(const std::string& k) const {
    auto it = _m->find(_prefix + k);
    return it == _m->end() ? nullptr : &it->second;
  }
  const Value& get(const std::string& k) const {
    auto v = find(k);
    if (!v) throw std::runtime_error("key not found: " + _prefix + k);
    return *v;
  }
  std::shared_ptr<Map> _m;
  std::string _prefix;
};
}
