#ifndef SHIM_IM_SERVER_H
#define SHIM_IM_SERVER_H
#include <boost/function.hpp>
#include <ros/ros.h>
#include <visualization_msgs/InteractiveMarkerFeedback.h>
#include <visualization_msgs/InteractiveMarkerUpdate.h>
namespace shim
{
struct ImPort
{
  typedef boost::function<void(const boost::shared_ptr<visualization_msgs::InteractiveMarkerFeedback const>&)> Cb;
  // what the user sees, after applyChanges
  std::map<std::string, std::pair<visualization_msgs::InteractiveMarker, Cb>> shown, pending;
};
inline std::shared_ptr<ImPort> imPort(const std::string& ns)
{
  auto& e = Core::get().extras["im:" + ns];
  if (!e)
    e = std::make_shared<ImPort>();
  return std::static_pointer_cast<ImPort>(e);
}
}  // namespace shim
namespace interactive_markers
{
class InteractiveMarkerServer
{
public:
  typedef shim::ImPort::Cb FeedbackCallback;
  InteractiveMarkerServer(const std::string& ns, const std::string& = "", bool = false)
    : p_(shim::imPort(ns))
  {
  }
  void insert(const visualization_msgs::InteractiveMarker& m)
  {
    p_->pending[m.name].first = m;
  }
  void insert(const visualization_msgs::InteractiveMarker& m, FeedbackCallback cb, uint8_t = 255)
  {
    p_->pending[m.name] = std::make_pair(m, cb);
  }
  bool erase(const std::string& n)
  {
    return p_->pending.erase(n) > 0;
  }
  void clear()
  {
    p_->pending.clear();
  }
  void applyChanges()
  {
    p_->shown = p_->pending;
  }
  bool setPose(const std::string& n, const geometry_msgs::Pose& pose, const std_msgs::Header& = std_msgs::Header())
  {
    auto it = p_->pending.find(n);
    if (it == p_->pending.end())
      return false;
    it->second.first.pose = pose;
    return true;
  }

private:
  std::shared_ptr<shim::ImPort> p_;
};
}  // namespace interactive_markers
#endif
