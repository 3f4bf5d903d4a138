#ifndef SHIM_MF_SUB_H
#define SHIM_MF_SUB_H
#include <ros/ros.h>
namespace message_filters
{
template <class M>
class Subscriber
{
public:
  Subscriber()
  {
  }
  Subscriber(ros::NodeHandle& nh, const std::string& topic, uint32_t q, const ros::TransportHints& = ros::TransportHints(), void* = nullptr)
  {
    sub_ = nh.subscribe<M>(topic, q, boost::function<void(const boost::shared_ptr<M const>&)>([this](const boost::shared_ptr<M const>& m)
                                                                                              {
                                                                                                if (cb_)
                                                                                                  cb_(m);
                                                                                              }));
  }
  void connectTo(std::function<void(const boost::shared_ptr<M const>&)> f)
  {
    cb_ = f;
  }

private:
  ros::Subscriber sub_;
  std::function<void(const boost::shared_ptr<M const>&)> cb_;
};
}  // namespace message_filters
#endif
