#ifndef SHIM_DYN_SERVER_H
#define SHIM_DYN_SERVER_H
#include <boost/function.hpp>
#include <boost/thread/recursive_mutex.hpp>
#include <ros/ros.h>
namespace shim
{
struct ReconfLoad
{
  ros::NodeHandle nh;
  template <class T>
  void operator()(const char* n, T& v)
  {
    nh.getParam(n, v);
  }
  template <class T>
  void operator()(const char* n, T& v, T lo, T hi)
  {
    nh.getParam(n, v);
    if (v < lo)
      v = lo;
    if (v > hi)
      v = hi;
  }
};
struct ReconfSave
{
  ros::NodeHandle nh;
  template <class T>
  void operator()(const char* n, T& v)
  {
    nh.setParam(n, v);
  }
  template <class T>
  void operator()(const char* n, T& v, T, T)
  {
    nh.setParam(n, v);
  }
};
struct ReconfClamp
{
  template <class T>
  void operator()(const char*, T&)
  {
  }
  template <class T>
  void operator()(const char*, T& v, T lo, T hi)
  {
    if (v < lo)
      v = lo;
    if (v > hi)
      v = hi;
  }
};
// harness side of one server
template <class C>
struct ReconfPort
{
  std::function<void(C)> set;
  std::function<C()> get;
};
template <class C>
std::shared_ptr<ReconfPort<C>> reconfPort(const std::string& ns)
{
  auto& e = Core::get().extras["reconf:" + ns];
  if (!e)
    e = std::make_shared<ReconfPort<C>>();
  return std::static_pointer_cast<ReconfPort<C>>(e);
}
}  // namespace shim
namespace dynamic_reconfigure
{
template <class C>
class Server
{
public:
  typedef boost::function<void(C&, uint32_t)> CallbackType;
  Server(const ros::NodeHandle& nh = ros::NodeHandle("~"))
    : nh_(nh)
    , mutex_(&own_)
  {
    init();
  }
  Server(boost::recursive_mutex& m, const ros::NodeHandle& nh = ros::NodeHandle("~"))
    : nh_(nh)
    , mutex_(&m)
  {
    init();
  }
  ~Server()
  {
    port_->set = nullptr;
    port_->get = nullptr;
  }
  void setCallback(const CallbackType& cb)
  {
    boost::recursive_mutex::scoped_lock l(*mutex_);
    cb_ = cb;
    call(~0u);
    store();
  }
  void clearCallback()
  {
    cb_.clear();
  }
  void updateConfig(const C& c)
  {
    boost::recursive_mutex::scoped_lock l(*mutex_);
    config_ = c;
    store();
  }
  void getConfigDefault(C& c)
  {
    c = C();
  }

private:
  void init()
  {
    config_ = C();
    shim::ReconfLoad v{nh_};
    config_.visit(v);
    store();
    port_ = shim::reconfPort<C>(nh_.getNamespace());
    port_->set = [this](C c)
    {
      shim::ReconfClamp v;
      c.visit(v);
      boost::recursive_mutex::scoped_lock l(*mutex_);
      config_ = c;
      call(0);
      store();
    };
    port_->get = [this]()
    { return config_; };
  }
  void call(uint32_t level)
  {
    if (!cb_)
      return;
    try
    {
      cb_(config_, level);
    }
    catch (std::exception& e)
    {
      ROS_WARN("Reconfigure callback failed with exception %s: ", e.what());
      shim::Core::get().service_exceptions++;
    }
  }
  void store()
  {
    shim::ReconfSave v{nh_};
    config_.visit(v);
  }
  ros::NodeHandle nh_;
  boost::recursive_mutex own_;
  boost::recursive_mutex* mutex_;
  C config_;
  CallbackType cb_;
  std::shared_ptr<shim::ReconfPort<C>> port_;
};
}  // namespace dynamic_reconfigure
#endif
