#ifndef SHIM_TF2_GEOMETRY_MSGS_H
#define SHIM_TF2_GEOMETRY_MSGS_H
#include <geometry_msgs/Point.h>
#include <geometry_msgs/PointStamped.h>
#include <geometry_msgs/Pose.h>
#include <geometry_msgs/PoseStamped.h>
#include <geometry_msgs/PoseWithCovarianceStamped.h>
#include <geometry_msgs/Quaternion.h>
#include <geometry_msgs/QuaternionStamped.h>
#include <geometry_msgs/Transform.h>
#include <geometry_msgs/TransformStamped.h>
#include <geometry_msgs/Vector3.h>
#include <geometry_msgs/Vector3Stamped.h>
#include <tf2/convert.h>
namespace tf2
{
// --- to message
inline geometry_msgs::Vector3 toMsg(const Vector3& v)
{
  geometry_msgs::Vector3 m;
  m.x = v.x();
  m.y = v.y();
  m.z = v.z();
  return m;
}
template <class P>
inline P& toMsg(const Vector3& v, P& m)
{
  m.x = v.x();
  m.y = v.y();
  m.z = v.z();
  return m;
}
inline geometry_msgs::Quaternion toMsg(const Quaternion& q)
{
  geometry_msgs::Quaternion m;
  m.x = q.x();
  m.y = q.y();
  m.z = q.z();
  m.w = q.w();
  return m;
}
inline geometry_msgs::Transform toMsg(const Transform& t)
{
  geometry_msgs::Transform m;
  m.translation = toMsg(t.getOrigin());
  m.rotation = toMsg(t.getRotation());
  return m;
}
inline geometry_msgs::Pose& toMsg(const Transform& t, geometry_msgs::Pose& m)
{
  m.position.x = t.getOrigin().x();
  m.position.y = t.getOrigin().y();
  m.position.z = t.getOrigin().z();
  m.orientation = toMsg(t.getRotation());
  return m;
}
inline geometry_msgs::TransformStamped toMsg(const Stamped<Transform>& t)
{
  geometry_msgs::TransformStamped m;
  m.header.stamp = t.stamp_;
  m.header.frame_id = t.frame_id_;
  m.transform = toMsg(static_cast<const Transform&>(t));
  return m;
}
inline geometry_msgs::PoseStamped toMsg(const Stamped<Transform>& t, geometry_msgs::PoseStamped& m)
{
  m.header.stamp = t.stamp_;
  m.header.frame_id = t.frame_id_;
  toMsg(static_cast<const Transform&>(t), m.pose);
  return m;
}
inline geometry_msgs::Vector3Stamped toMsg(const Stamped<Vector3>& v)
{
  geometry_msgs::Vector3Stamped m;
  m.header.stamp = v.stamp_;
  m.header.frame_id = v.frame_id_;
  m.vector = toMsg(static_cast<const Vector3&>(v));
  return m;
}
inline geometry_msgs::QuaternionStamped toMsg(const Stamped<Quaternion>& v)
{
  geometry_msgs::QuaternionStamped m;
  m.header.stamp = v.stamp_;
  m.header.frame_id = v.frame_id_;
  m.quaternion = toMsg(static_cast<const Quaternion&>(v));
  return m;
}
template <class M>
inline M toMsg(const M& m)
{
  return m;
}
// --- from message
inline void fromMsg(const geometry_msgs::Vector3& m, Vector3& v)
{
  v.setValue(m.x, m.y, m.z);
}
inline void fromMsg(const geometry_msgs::Point& m, Vector3& v)
{
  v.setValue(m.x, m.y, m.z);
}
inline void fromMsg(const geometry_msgs::Quaternion& m, Quaternion& q)
{
  q.setValue(m.x, m.y, m.z, m.w);
}
inline void fromMsg(const geometry_msgs::Transform& m, Transform& t)
{
  Vector3 v;
  fromMsg(m.translation, v);
  t.setOrigin(v);
  Quaternion q;
  fromMsg(m.rotation, q);
  t.setRotation(q);
}
inline void fromMsg(const geometry_msgs::Pose& m, Transform& t)
{
  t.setOrigin(Vector3(m.position.x, m.position.y, m.position.z));
  t.setRotation(Quaternion(m.orientation.x, m.orientation.y, m.orientation.z, m.orientation.w));
}
inline void fromMsg(const geometry_msgs::TransformStamped& m, Stamped<Transform>& t)
{
  t.stamp_ = m.header.stamp;
  t.frame_id_ = m.header.frame_id;
  fromMsg(m.transform, static_cast<Transform&>(t));
}
inline void fromMsg(const geometry_msgs::PoseStamped& m, Stamped<Transform>& t)
{
  t.stamp_ = m.header.stamp;
  t.frame_id_ = m.header.frame_id;
  fromMsg(m.pose, static_cast<Transform&>(t));
}
inline void fromMsg(const geometry_msgs::QuaternionStamped& m, Stamped<Quaternion>& t)
{
  t.stamp_ = m.header.stamp;
  t.frame_id_ = m.header.frame_id;
  fromMsg(m.quaternion, static_cast<Quaternion&>(t));
}
inline void fromMsg(const geometry_msgs::Vector3Stamped& m, Stamped<Vector3>& t)
{
  t.stamp_ = m.header.stamp;
  t.frame_id_ = m.header.frame_id;
  fromMsg(m.vector, static_cast<Vector3&>(t));
}
template <class M>
inline void fromMsg(const M& m, M& o)
{
  o = m;
}
template <class A, class B>
inline auto convert(const A& a, B& b) -> decltype(fromMsg(a, b), void())
{
  fromMsg(a, b);
}
template <class A, class B>
inline auto convert(const A& a, B& b) -> decltype(b = toMsg(a), typename std::enable_if<!std::is_same<A, B>::value, void>::type())
{
  b = toMsg(a);
}
// --- transforming
template <>
inline void doTransform(const geometry_msgs::Point& i, geometry_msgs::Point& o, const geometry_msgs::TransformStamped& t)
{
  Transform x;
  fromMsg(t.transform, x);
  const Vector3 v = x * Vector3(i.x, i.y, i.z);
  o.x = v.x();
  o.y = v.y();
  o.z = v.z();
}
template <>
inline void doTransform(const geometry_msgs::PointStamped& i, geometry_msgs::PointStamped& o, const geometry_msgs::TransformStamped& t)
{
  doTransform(i.point, o.point, t);
  o.header.stamp = t.header.stamp;
  o.header.frame_id = t.header.frame_id;
}
template <>
inline void doTransform(const geometry_msgs::Vector3& i, geometry_msgs::Vector3& o, const geometry_msgs::TransformStamped& t)
{
  Transform x;
  fromMsg(t.transform, x);
  o = toMsg(x.getBasis() * Vector3(i.x, i.y, i.z));
}
template <>
inline void doTransform(const geometry_msgs::Vector3Stamped& i, geometry_msgs::Vector3Stamped& o, const geometry_msgs::TransformStamped& t)
{
  doTransform(i.vector, o.vector, t);
  o.header.stamp = t.header.stamp;
  o.header.frame_id = t.header.frame_id;
}
template <>
inline void doTransform(const geometry_msgs::Quaternion& i, geometry_msgs::Quaternion& o, const geometry_msgs::TransformStamped& t)
{
  Quaternion a, b;
  fromMsg(t.transform.rotation, a);
  fromMsg(i, b);
  o = toMsg(a * b);
}
template <>
inline void doTransform(const geometry_msgs::QuaternionStamped& i, geometry_msgs::QuaternionStamped& o, const geometry_msgs::TransformStamped& t)
{
  doTransform(i.quaternion, o.quaternion, t);
  o.header.stamp = t.header.stamp;
  o.header.frame_id = t.header.frame_id;
}
template <>
inline void doTransform(const geometry_msgs::Pose& i, geometry_msgs::Pose& o, const geometry_msgs::TransformStamped& t)
{
  Vector3 v(i.position.x, i.position.y, i.position.z);
  Quaternion r;
  fromMsg(i.orientation, r);
  Transform x;
  fromMsg(t.transform, x);
  toMsg(x * Transform(r, v), o);
}
template <>
inline void doTransform(const geometry_msgs::PoseStamped& i, geometry_msgs::PoseStamped& o, const geometry_msgs::TransformStamped& t)
{
  doTransform(i.pose, o.pose, t);
  o.header.stamp = t.header.stamp;
  o.header.frame_id = t.header.frame_id;
}
template <>
inline void doTransform(const geometry_msgs::PoseWithCovarianceStamped& i, geometry_msgs::PoseWithCovarianceStamped& o, const geometry_msgs::TransformStamped& t)
{
  Transform x;
  fromMsg(t.transform, x);
  doTransform(i.pose.pose, o.pose.pose, t);
  // covariance turned into the target frame, as tf2::transformCovariance
  const Matrix3x3 R = x.getBasis(), Rt = R.transpose();
  auto blk = [&](int r, int c)
  {
    Matrix3x3 m;
    m.setValue(0, 0, 0, 0, 0, 0, 0, 0, 0);
    for (int a = 0; a < 3; a++)
      for (int b = 0; b < 3; b++)
        m[a][b] = i.pose.covariance[(r + a) * 6 + c + b];
    return R * m * Rt;
  };
  boost::array<double, 36> out;
  for (int r = 0; r < 6; r += 3)
    for (int c = 0; c < 6; c += 3)
    {
      const Matrix3x3 m = blk(r, c);
      for (int a = 0; a < 3; a++)
        for (int b = 0; b < 3; b++)
          out[(r + a) * 6 + c + b] = m[a][b];
    }
  o.pose.covariance = out;
  o.header.stamp = t.header.stamp;
  o.header.frame_id = t.header.frame_id;
}
template <>
inline void doTransform(const geometry_msgs::TransformStamped& i, geometry_msgs::TransformStamped& o, const geometry_msgs::TransformStamped& t)
{
  Transform a, b;
  fromMsg(t.transform, a);
  fromMsg(i.transform, b);
  o.transform = toMsg(a * b);
  o.header.stamp = t.header.stamp;
  o.header.frame_id = t.header.frame_id;
}
template <>
inline void doTransform(const Stamped<Vector3>& i, Stamped<Vector3>& o, const geometry_msgs::TransformStamped& t)
{
  Transform a;
  fromMsg(t.transform, a);
  o = Stamped<Vector3>(a * i, t.header.stamp, t.header.frame_id);
}
template <>
inline void doTransform(const Stamped<Transform>& i, Stamped<Transform>& o, const geometry_msgs::TransformStamped& t)
{
  Transform a;
  fromMsg(t.transform, a);
  o = Stamped<Transform>(a * static_cast<const Transform&>(i), t.header.stamp, t.header.frame_id);
}
// covariance access used by tf2::transform of PoseWithCovarianceStamped
}  // namespace tf2
#endif
