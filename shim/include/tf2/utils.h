#ifndef SHIM_TF2_UTILS_H
#define SHIM_TF2_UTILS_H
#include <tf2_geometry_msgs/tf2_geometry_msgs.h>
namespace tf2
{
namespace impl
{
inline Quaternion toQuaternion(const Quaternion& q)
{
  return q;
}
inline Quaternion toQuaternion(const geometry_msgs::Quaternion& m)
{
  Quaternion q;
  fromMsg(m, q);
  return q;
}
inline Quaternion toQuaternion(const geometry_msgs::QuaternionStamped& m)
{
  return toQuaternion(m.quaternion);
}
inline Quaternion toQuaternion(const Stamped<Quaternion>& q)
{
  return q;
}
// as tf2/impl/utils.h
inline void getEulerYPR(const Quaternion& q, double& yaw, double& pitch, double& roll)
{
  const double sqw = q.w() * q.w(), sqx = q.x() * q.x(), sqy = q.y() * q.y(), sqz = q.z() * q.z();
  const double sarg = -2 * (q.x() * q.z() - q.w() * q.y()) / (sqx + sqy + sqz + sqw);
  if (sarg <= -0.99999)
  {
    pitch = -0.5 * M_PI;
    roll = 0;
    yaw = -2 * std::atan2(q.y(), q.x());
  }
  else if (sarg >= 0.99999)
  {
    pitch = 0.5 * M_PI;
    roll = 0;
    yaw = 2 * std::atan2(q.y(), q.x());
  }
  else
  {
    pitch = std::asin(sarg);
    roll = std::atan2(2 * (q.y() * q.z() + q.w() * q.x()), sqw - sqx - sqy + sqz);
    yaw = std::atan2(2 * (q.x() * q.y() + q.w() * q.z()), sqw + sqx - sqy - sqz);
  }
}
}  // namespace impl
template <class A>
void getEulerYPR(const A& a, double& yaw, double& pitch, double& roll)
{
  impl::getEulerYPR(impl::toQuaternion(a), yaw, pitch, roll);
}
template <class A>
double getYaw(const A& a)
{
  double y, p, r;
  impl::getEulerYPR(impl::toQuaternion(a), y, p, r);
  return y;
}
template <class A>
A getTransformIdentity()
{
  A t;
  t.setIdentity();
  return t;
}
}  // namespace tf2
#endif
