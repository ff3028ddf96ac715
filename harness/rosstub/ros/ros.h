// stand-in for roscpp: virtual time, a parameter map, late subscribers, and a recorder of every published message
#pragma once
#include <cstdio>
#include <map>
#include <memory>
#include <sstream>
#include <string>
#include <type_traits>
#include <typeinfo>
#include <vector>
namespace rosstub
{
struct Msg { std::string topic, type; std::shared_ptr<void> data; bool delivered; double t; };
struct World
{
  double now = 0; long ok_calls = 0, max_ok = 1; long advertised = 0, spins = 0, polls = 0;
  std::map<std::string, double> params; std::vector<Msg> msgs;
  double (*latency)() = nullptr; // time until a subscriber of a new publisher is connected
};
inline World &world() { static World w; return w; }
} // namespace rosstub
namespace ros
{
struct Duration
{
  double s; explicit Duration(double v = 0) : s(v) {}
  Duration(int sec, int nsec) : s(sec + 1e-9 * nsec) {}
  bool sleep() const { rosstub::world().now += s; return true; }
  double toSec() const { return s; }
};
struct Time
{
  double s; explicit Time(double v = 0) : s(v) {}
  static Time now() { return Time(rosstub::world().now); }
  double toSec() const { return s; }
  Duration operator-(const Time &o) const { return Duration(s - o.s); }
};
typedef Duration WallDuration; typedef Time WallTime;
struct Rate { double p; explicit Rate(double hz) : p(1 / hz) {} bool sleep() { rosstub::world().now += p; return true; } };
inline void init(int &, char **, const std::string &, unsigned = 0) {}
inline bool ok() { return rosstub::world().ok_calls++ < rosstub::world().max_ok; }
inline void spinOnce() { rosstub::world().spins++; }
inline void shutdown() { rosstub::world().ok_calls = rosstub::world().max_ok; }
class Publisher
{
  std::string topic_; double up_ = 1e300;
public:
  Publisher() {}
  Publisher(const std::string &t, double up) : topic_(t), up_(up) {}
  unsigned getNumSubscribers() const { rosstub::world().polls++; rosstub::world().now += 1e-6; return rosstub::world().now >= up_ ? 1 : 0; }
  std::string getTopic() const { return topic_; }
  template <class M> void publish(const M &m) const
  {
    rosstub::World &w = rosstub::world();
    w.msgs.push_back(rosstub::Msg{ topic_, typeid(M).name(), std::make_shared<M>(m), w.now >= up_, w.now });
  }
};
class NodeHandle
{
  std::string ns_;
public:
  NodeHandle() {}
  NodeHandle(const std::string &ns) : ns_(ns) { while (!ns_.empty() && ns_[0] == '/') ns_.erase(0, 1); }
  NodeHandle(const char *ns) : NodeHandle(std::string(ns)) {}
  NodeHandle(const NodeHandle &p, const std::string &ns) : ns_(p.full(ns)) {}
  const std::string &getNamespace() const { return ns_; }
  std::string full(const std::string &n) const { return n.empty() ? ns_ : n[0] == '/' ? n.substr(1) : n[0] == '~' ? n : ns_ == "~" ? "~" + n : ns_.empty() ? n : ns_ + "/" + n; }
  std::string resolveName(const std::string &n) const { return full(n); }
  template <class M> Publisher advertise(const std::string &t, unsigned, bool = false) { rosstub::World &w = rosstub::world(); w.advertised++; return Publisher(full(t), w.now + (w.latency ? w.latency() : 0)); }
  template <class T> bool getParam(const std::string &n, T &v) const { auto &p = rosstub::world().params; auto i = p.find(full(n)); if (i == p.end()) return false; v = (T)i->second; return true; }
  template <class T> bool param(const std::string &n, T &v, const T &d) const { if (getParam(n, v)) return true; v = d; return false; }
  template <class T> T param(const std::string &n, const T &d) const { T v; param(n, v, d); return v; }
  bool hasParam(const std::string &n) const { return rosstub::world().params.count(full(n)); }
};
} // namespace ros
#define ROS_STUB_LOG(...) do { char b_[1024]; snprintf(b_, sizeof b_, __VA_ARGS__); (void)b_; } while (0)
#define ROS_DEBUG(...) ROS_STUB_LOG(__VA_ARGS__)
#define ROS_INFO(...) ROS_STUB_LOG(__VA_ARGS__)
#define ROS_WARN(...) ROS_STUB_LOG(__VA_ARGS__)
#define ROS_ERROR(...) ROS_STUB_LOG(__VA_ARGS__)
#define ROS_FATAL(...) ROS_STUB_LOG(__VA_ARGS__)
#define ROS_INFO_STREAM(x) do { std::ostringstream o_; o_ << x; } while (0)
#define ROS_WARN_STREAM(x) ROS_INFO_STREAM(x)
#define ROS_ERROR_STREAM(x) ROS_INFO_STREAM(x)
