#ifndef SHIM_SHAPE_SHIFTER_H
#define SHIM_SHAPE_SHIFTER_H
#include <shim/core.h>
namespace topic_tools
{
class ShapeShifter
{
public:
  typedef boost::shared_ptr<ShapeShifter> Ptr;
  typedef boost::shared_ptr<ShapeShifter const> ConstPtr;
  shim::AnyMsg any;
  const std::string& getDataType() const
  {
    return any.datatype;
  }
  std::string getMD5Sum() const
  {
    return any.datatype;
  }
  std::string getMessageDefinition() const
  {
    return any.datatype;
  }
  ros::Publisher advertise(ros::NodeHandle& nh, const std::string& topic, uint32_t, bool latch = false) const
  {
    return nh.advertiseRaw(topic, any.type, any.datatype, latch);
  }
  template <class M>
  boost::shared_ptr<M> instantiate() const
  {
    return boost::make_shared<M>(*any.as<M>());
  }
  uint32_t size() const
  {
    return 0;
  }
};
}  // namespace topic_tools
namespace shim
{
template <>
struct MsgCast<topic_tools::ShapeShifter>
{
  static constexpr bool any = true;
  static boost::shared_ptr<topic_tools::ShapeShifter const> cast(const AnyMsg& a)
  {
    auto s = boost::make_shared<topic_tools::ShapeShifter>();
    s->any = a;
    return s;
  }
};
}  // namespace shim
namespace ros
{
template <>
inline void Publisher::publish<topic_tools::ShapeShifter>(const topic_tools::ShapeShifter& m) const
{
  if (p_ && p_->type != m.any.type)
    shim::assertFail("ros::Publisher::publish", "message type matches the advertised one", p_->topic.c_str(), 0);
  publishAny(m.any);
}
template <>
inline void Publisher::publish<topic_tools::ShapeShifter>(const boost::shared_ptr<topic_tools::ShapeShifter>& m) const
{
  publish(*m);
}
template <>
inline void Publisher::publish<const topic_tools::ShapeShifter>(const boost::shared_ptr<const topic_tools::ShapeShifter>& m) const
{
  publish(*m);
}
}  // namespace ros
#endif
