// Client side: the harness plays the server through shim::ClientPort.
#ifndef SHIM_ACTION_CLIENT_H
#define SHIM_ACTION_CLIENT_H
#include <actionlib/client/simple_client_goal_state.h>
#include <ros/ros.h>
namespace shim
{
template <class A>
struct ClientPort
{
  std::function<void(const typename A::Goal&)> on_goal;
  std::function<void()> on_cancel;
  std::function<bool()> server_up;
  actionlib::SimpleClientGoalState::StateEnum state = actionlib::SimpleClientGoalState::LOST;
  std::string text;
  std::vector<typename A::Goal> goals;
  int cancels = 0;
};
template <class A>
std::shared_ptr<ClientPort<A>> clientPort(const std::string& name)
{
  auto& e = Core::get().extras["client:" + name];
  if (!e)
    e = std::make_shared<ClientPort<A>>();
  return std::static_pointer_cast<ClientPort<A>>(e);
}
}  // namespace shim
namespace actionlib
{
template <class A>
class SimpleActionClient
{
public:
  SimpleActionClient(const std::string& name, bool = true)
    : port_(shim::clientPort<A>(ros::NodeHandle().resolveName(name)))
  {
  }
  SimpleActionClient(ros::NodeHandle& nh, const std::string& name, bool = true)
    : port_(shim::clientPort<A>(nh.resolveName(name)))
  {
  }
  bool waitForServer(const ros::Duration& t = ros::Duration(0, 0)) const
  {
    if (t > ros::Duration(0) && !isServerConnected())
      t.sleep();
    return isServerConnected();
  }
  bool isServerConnected() const
  {
    return port_->server_up ? port_->server_up() : true;
  }
  void sendGoal(const typename A::Goal& g)
  {
    port_->state = SimpleClientGoalState::PENDING;
    port_->goals.push_back(g);
    if (port_->on_goal)
      port_->on_goal(g);
  }
  void cancelAllGoals()
  {
    port_->cancels++;
    if (port_->on_cancel)
      port_->on_cancel();
  }
  void cancelGoal()
  {
    cancelAllGoals();
  }
  bool waitForResult(const ros::Duration& = ros::Duration(0, 0))
  {
    return getState().isDone();
  }
  SimpleClientGoalState getState() const
  {
    return SimpleClientGoalState(port_->state, port_->text);
  }

private:
  std::shared_ptr<shim::ClientPort<A>> port_;
};
}  // namespace actionlib
#endif
