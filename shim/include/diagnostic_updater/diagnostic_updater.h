#ifndef SHIM_DIAG_H
#define SHIM_DIAG_H
#include <boost/function.hpp>
#include <diagnostic_msgs/DiagnosticArray.h>
#include <diagnostic_msgs/DiagnosticStatus.h>
#include <ros/ros.h>
namespace diagnostic_updater
{
class DiagnosticStatusWrapper : public diagnostic_msgs::DiagnosticStatus
{
public:
  void summary(unsigned char l, const std::string s)
  {
    level = l;
    message = s;
  }
  void summaryf(unsigned char l, const char* f, ...)
  {
    va_list va;
    char buf[1000];
    va_start(va, f);
    vsnprintf(buf, sizeof buf, f, va);
    va_end(va);
    summary(l, buf);
  }
  void clearSummary()
  {
    summary(0, "");
  }
  template <class T>
  void add(const std::string& k, const T& v)
  {
    std::stringstream ss;
    ss << v;
    diagnostic_msgs::KeyValue kv;
    kv.key = k;
    kv.value = ss.str();
    values.push_back(kv);
  }
  void addf(const std::string& k, const char* f, ...)
  {
    va_list va;
    char buf[1000];
    va_start(va, f);
    vsnprintf(buf, sizeof buf, f, va);
    va_end(va);
    add(k, buf);
  }
};
typedef boost::function<void(DiagnosticStatusWrapper&)> TaskFunction;
class Updater
{
public:
  Updater(ros::NodeHandle h = ros::NodeHandle(), ros::NodeHandle ph = ros::NodeHandle("~"), std::string = "")
  {
    pub_ = h.advertise<diagnostic_msgs::DiagnosticArray>("/diagnostics", 1);
    ph.param("diagnostic_period", period_, 1.0);
    next_ = ros::Time::now() + ros::Duration(period_);
  }
  void add(const std::string& name, TaskFunction f)
  {
    tasks_.push_back(std::make_pair(name, f));
  }
  template <class T>
  void add(const std::string name, T* c, void (T::*f)(DiagnosticStatusWrapper&))
  {
    tasks_.push_back(std::make_pair(name, TaskFunction([c, f](DiagnosticStatusWrapper& s)
                                                       { (c->*f)(s); })));
  }
  void setHardwareID(const std::string& h)
  {
    hw_ = h;
  }
  void setHardwareIDf(const char*, ...)
  {
  }
  void update()
  {
    if (ros::Time::now() < next_)
      return;
    next_ = ros::Time::now() + ros::Duration(period_);
    force_update();
  }
  void force_update()
  {
    diagnostic_msgs::DiagnosticArray a;
    a.header.stamp = ros::Time::now();
    for (auto& t : tasks_)
    {
      DiagnosticStatusWrapper s;
      s.name = t.first;
      s.level = 2;
      s.message = "No message was set";
      s.hardware_id = hw_;
      t.second(s);
      a.status.push_back(s);
    }
    pub_.publish(a);
  }

private:
  ros::Publisher pub_;
  std::vector<std::pair<std::string, TaskFunction>> tasks_;
  std::string hw_;
  double period_;
  ros::Time next_;
};
}  // namespace diagnostic_updater
#endif
