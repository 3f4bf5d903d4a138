// SimpleActionServer of actionlib, single threaded: goals and cancels arrive through shim::ActionPort.
#ifndef SHIM_ACTION_SERVER_H
#define SHIM_ACTION_SERVER_H
#include <actionlib_msgs/GoalStatus.h>
#include <boost/function.hpp>
#include <ros/ros.h>
#include <std_msgs/Empty.h>
namespace shim
{
struct ActionGoalRec
{
  int id = 0;
  int status = 0;  // actionlib_msgs/GoalStatus
  std::string text;
  int terminals = 0;  // terminal transitions seen
  int feedbacks = 0;
  ros::Time done;
};
struct ActionPortBase
{
  virtual ~ActionPortBase() = default;
};
template <class A>
struct ActionPort : public ActionPortBase
{
  std::function<int(const typename A::Goal&)> send;  // returns goal id
  std::function<void(int)> cancel;
  std::vector<ActionGoalRec> goals;
  std::vector<typename A::Feedback> feedback;
  std::vector<std::string> misuse;  // calls a real server would log as errors
  bool started = false;
};
template <class A>
std::shared_ptr<ActionPort<A>> actionPort(const std::string& name)
{
  auto& e = Core::get().extras["action:" + name];
  if (!e)
    e = std::make_shared<ActionPort<A>>();
  return std::static_pointer_cast<ActionPort<A>>(e);
}
}  // namespace shim
namespace actionlib
{
template <class A>
class SimpleActionServer
{
public:
  typedef typename A::Goal Goal;
  typedef boost::shared_ptr<const Goal> GoalConstPtr;
  typedef typename A::Result Result;
  typedef typename A::Feedback Feedback;
  typedef boost::function<void(const GoalConstPtr&)> ExecuteCallback;
  SimpleActionServer(ros::NodeHandle nh, std::string name, bool auto_start)
  {
    init(nh.resolveName(name), auto_start);
  }
  SimpleActionServer(std::string name, bool auto_start)
  {
    init(ros::NodeHandle().resolveName(name), auto_start);
  }
  ~SimpleActionServer()
  {
    port_->send = nullptr;
    port_->cancel = nullptr;
  }
  void registerGoalCallback(boost::function<void()> cb)
  {
    goal_cb_ = cb;
  }
  void registerPreemptCallback(boost::function<void()> cb)
  {
    preempt_cb_ = cb;
  }
  void start()
  {
    port_->started = true;
    port_->send = [this](const Goal& g)
    { return onGoal(g); };
    port_->cancel = [this](int id)
    { onCancel(id); };
  }
  void shutdown()
  {
  }
  GoalConstPtr acceptNewGoal()
  {
    if (!new_goal_ || next_ < 0)
    {
      port_->misuse.push_back("acceptNewGoal without a new goal");
      return GoalConstPtr();
    }
    if (isActive() && cur_ >= 0 && cur_ != next_)
      terminal(cur_, actionlib_msgs::GoalStatus::PREEMPTED,
               "This goal was canceled because another goal was received by the simple action server");
    cur_ = next_;
    new_goal_ = false;
    preempt_ = new_goal_preempt_;
    new_goal_preempt_ = false;
    // setAccepted: PENDING -> ACTIVE, RECALLING -> PREEMPTING
    auto& r = rec(cur_);
    if (r.status == actionlib_msgs::GoalStatus::PENDING)
      r.status = actionlib_msgs::GoalStatus::ACTIVE;
    else if (r.status == actionlib_msgs::GoalStatus::RECALLING)
      r.status = actionlib_msgs::GoalStatus::PREEMPTING;
    return goals_[cur_];
  }
  bool isNewGoalAvailable()
  {
    return new_goal_;
  }
  bool isPreemptRequested()
  {
    return preempt_;
  }
  bool isActive()
  {
    if (cur_ < 0)
      return false;
    const int s = rec(cur_).status;
    return s == actionlib_msgs::GoalStatus::ACTIVE || s == actionlib_msgs::GoalStatus::PREEMPTING;
  }
  void setSucceeded(const Result& = Result(), const std::string& text = "")
  {
    terminal(cur_, actionlib_msgs::GoalStatus::SUCCEEDED, text);
  }
  void setAborted(const Result& = Result(), const std::string& text = "")
  {
    terminal(cur_, actionlib_msgs::GoalStatus::ABORTED, text);
  }
  void setPreempted(const Result& = Result(), const std::string& text = "")
  {
    terminal(cur_, actionlib_msgs::GoalStatus::PREEMPTED, text);
  }
  void publishFeedback(const Feedback& f)
  {
    port_->feedback.push_back(f);
    if (cur_ < 0)
      port_->misuse.push_back("feedback without a goal");
    else
    {
      if (rec(cur_).terminals)
        port_->misuse.push_back("feedback for a finished goal");
      rec(cur_).feedbacks++;
    }
  }

private:
  void init(const std::string& name, bool auto_start)
  {
    port_ = shim::actionPort<A>(name);
    if (auto_start)
      start();
  }
  shim::ActionGoalRec& rec(int i)
  {
    return port_->goals[i];
  }
  void terminal(int i, int status, const std::string& text)
  {
    if (i < 0)
    {
      port_->misuse.push_back("terminal state without a goal: " + text);
      return;
    }
    auto& r = rec(i);
    if (r.status != actionlib_msgs::GoalStatus::ACTIVE && r.status != actionlib_msgs::GoalStatus::PREEMPTING &&
        !(status == actionlib_msgs::GoalStatus::PREEMPTED &&
          (r.status == actionlib_msgs::GoalStatus::PENDING || r.status == actionlib_msgs::GoalStatus::RECALLING)))
    {
      port_->misuse.push_back("terminal state for a goal that is not active: " + text);
      return;
    }
    if (status == actionlib_msgs::GoalStatus::PREEMPTED &&
        (r.status == actionlib_msgs::GoalStatus::PENDING || r.status == actionlib_msgs::GoalStatus::RECALLING))
      status = actionlib_msgs::GoalStatus::RECALLED;
    r.status = status;
    r.text = text;
    r.terminals++;
    r.done = ros::Time::now();
  }
  int onGoal(const Goal& g)
  {
    shim::ActionGoalRec r;
    r.id = static_cast<int>(port_->goals.size());
    r.status = actionlib_msgs::GoalStatus::PENDING;
    port_->goals.push_back(r);
    goals_.push_back(boost::make_shared<Goal>(g));
    const int id = r.id;
    if (next_ >= 0 && (cur_ < 0 || next_ != cur_))
      terminal(next_, actionlib_msgs::GoalStatus::PREEMPTED,
               "This goal was canceled because another goal was received by the simple action server");
    next_ = id;
    new_goal_ = true;
    new_goal_preempt_ = false;
    if (isActive())
    {
      preempt_ = true;
      if (preempt_cb_)
        preempt_cb_();
    }
    if (goal_cb_)
      goal_cb_();
    return id;
  }
  void onCancel(int id)
  {
    auto& r = rec(id);
    // ActionServer sets the cancel status first
    if (r.status == actionlib_msgs::GoalStatus::PENDING)
      r.status = actionlib_msgs::GoalStatus::RECALLING;
    else if (r.status == actionlib_msgs::GoalStatus::ACTIVE)
      r.status = actionlib_msgs::GoalStatus::PREEMPTING;
    else
      return;
    if (id == cur_)
    {
      preempt_ = true;
      if (preempt_cb_)
        preempt_cb_();
    }
    else if (id == next_)
      new_goal_preempt_ = true;
  }
  std::shared_ptr<shim::ActionPort<A>> port_;
  std::vector<GoalConstPtr> goals_;
  boost::function<void()> goal_cb_, preempt_cb_;
  int cur_ = -1, next_ = -1;
  bool new_goal_ = false, preempt_ = false, new_goal_preempt_ = false;
};
}  // namespace actionlib
#endif
