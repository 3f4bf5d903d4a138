#ifndef SHIM_TF2_LINMATH_H
#define SHIM_TF2_LINMATH_H
// Linear math as in tf2 (Bullet derived)
#include <cassert>
#include <cmath>
#include <ros/time.h>
#include <string>
#define TF2SIMD_PI 3.14159265358979323846
#define TF2SIMD_2_PI (2.0 * TF2SIMD_PI)
#define TF2SIMD_HALF_PI (TF2SIMD_PI * 0.5)
typedef double tf2Scalar;
namespace tf2
{
class Quaternion;
inline tf2Scalar tf2Acos(tf2Scalar x)
{
  if (x < -1)
    x = -1;
  if (x > 1)
    x = 1;
  return std::acos(x);
}
class Vector3
{
public:
  tf2Scalar m_floats[4];
  Vector3()
  {
  }
  Vector3(const tf2Scalar& x, const tf2Scalar& y, const tf2Scalar& z)
  {
    m_floats[0] = x;
    m_floats[1] = y;
    m_floats[2] = z;
    m_floats[3] = 0;
  }
  Vector3& operator+=(const Vector3& v)
  {
    for (int i = 0; i < 3; i++)
      m_floats[i] += v.m_floats[i];
    return *this;
  }
  Vector3& operator-=(const Vector3& v)
  {
    for (int i = 0; i < 3; i++)
      m_floats[i] -= v.m_floats[i];
    return *this;
  }
  Vector3& operator*=(const tf2Scalar& s)
  {
    for (int i = 0; i < 3; i++)
      m_floats[i] *= s;
    return *this;
  }
  Vector3& operator/=(const tf2Scalar& s)
  {
    return *this *= 1.0 / s;
  }
  tf2Scalar dot(const Vector3& v) const
  {
    return m_floats[0] * v.m_floats[0] + m_floats[1] * v.m_floats[1] + m_floats[2] * v.m_floats[2];
  }
  tf2Scalar length2() const
  {
    return dot(*this);
  }
  tf2Scalar length() const
  {
    return std::sqrt(length2());
  }
  tf2Scalar distance2(const Vector3& v) const;
  tf2Scalar distance(const Vector3& v) const;
  Vector3& normalize()
  {
    return *this /= length();
  }
  Vector3 normalized() const
  {
    Vector3 v = *this;
    return v.normalize();
  }
  tf2Scalar angle(const Vector3& v) const
  {
    return tf2Acos(dot(v) / std::sqrt(length2() * v.length2()));
  }
  Vector3 absolute() const
  {
    return Vector3(std::abs(x()), std::abs(y()), std::abs(z()));
  }
  Vector3 cross(const Vector3& v) const
  {
    return Vector3(m_floats[1] * v.m_floats[2] - m_floats[2] * v.m_floats[1], m_floats[2] * v.m_floats[0] - m_floats[0] * v.m_floats[2],
                   m_floats[0] * v.m_floats[1] - m_floats[1] * v.m_floats[0]);
  }
  Vector3 rotate(const Vector3& axis, const tf2Scalar angle) const;
  Vector3 lerp(const Vector3& v, const tf2Scalar& t) const
  {
    return Vector3(x() + (v.x() - x()) * t, y() + (v.y() - y()) * t, z() + (v.z() - z()) * t);
  }
  const tf2Scalar& getX() const { return m_floats[0]; }
  const tf2Scalar& getY() const { return m_floats[1]; }
  const tf2Scalar& getZ() const { return m_floats[2]; }
  void setX(tf2Scalar v) { m_floats[0] = v; }
  void setY(tf2Scalar v) { m_floats[1] = v; }
  void setZ(tf2Scalar v) { m_floats[2] = v; }
  const tf2Scalar& x() const { return m_floats[0]; }
  const tf2Scalar& y() const { return m_floats[1]; }
  const tf2Scalar& z() const { return m_floats[2]; }
  const tf2Scalar& w() const { return m_floats[3]; }
  operator tf2Scalar*() { return &m_floats[0]; }
  operator const tf2Scalar*() const { return &m_floats[0]; }
  bool operator==(const Vector3& o) const
  {
    return x() == o.x() && y() == o.y() && z() == o.z();
  }
  bool operator!=(const Vector3& o) const
  {
    return !(*this == o);
  }
  void setValue(const tf2Scalar& x, const tf2Scalar& y, const tf2Scalar& z)
  {
    m_floats[0] = x;
    m_floats[1] = y;
    m_floats[2] = z;
    m_floats[3] = 0;
  }
  void setZero()
  {
    setValue(0, 0, 0);
  }
  bool isZero() const
  {
    return x() == 0 && y() == 0 && z() == 0;
  }
};
inline Vector3 operator+(const Vector3& a, const Vector3& b)
{
  return Vector3(a.x() + b.x(), a.y() + b.y(), a.z() + b.z());
}
inline Vector3 operator-(const Vector3& a, const Vector3& b)
{
  return Vector3(a.x() - b.x(), a.y() - b.y(), a.z() - b.z());
}
inline Vector3 operator-(const Vector3& a)
{
  return Vector3(-a.x(), -a.y(), -a.z());
}
inline Vector3 operator*(const Vector3& a, const Vector3& b)
{
  return Vector3(a.x() * b.x(), a.y() * b.y(), a.z() * b.z());
}
inline Vector3 operator*(const Vector3& a, const tf2Scalar& s)
{
  return Vector3(a.x() * s, a.y() * s, a.z() * s);
}
inline Vector3 operator*(const tf2Scalar& s, const Vector3& a)
{
  return a * s;
}
inline Vector3 operator/(const Vector3& a, const tf2Scalar& s)
{
  return a * (1.0 / s);
}
inline tf2Scalar tf2Dot(const Vector3& a, const Vector3& b)
{
  return a.dot(b);
}
inline Vector3 tf2Cross(const Vector3& a, const Vector3& b)
{
  return a.cross(b);
}
inline Vector3 lerp(const Vector3& a, const Vector3& b, const tf2Scalar& t)
{
  return a.lerp(b, t);
}
inline tf2Scalar tf2Distance(const Vector3& a, const Vector3& b)
{
  return (b - a).length();
}
inline tf2Scalar Vector3::distance2(const Vector3& v) const
{
  return (v - *this).length2();
}
inline tf2Scalar Vector3::distance(const Vector3& v) const
{
  return (v - *this).length();
}
inline Vector3 Vector3::rotate(const Vector3& axis, const tf2Scalar angle) const
{
  Vector3 o = axis * axis.dot(*this);
  Vector3 x = *this - o;
  Vector3 y = axis.cross(*this);
  return o + x * std::cos(angle) + y * std::sin(angle);
}

class Quaternion
{
  tf2Scalar q_[4];

public:
  Quaternion()
  {
  }
  Quaternion(const tf2Scalar& x, const tf2Scalar& y, const tf2Scalar& z, const tf2Scalar& w)
  {
    setValue(x, y, z, w);
  }
  Quaternion(const Vector3& axis, const tf2Scalar& angle)
  {
    setRotation(axis, angle);
  }
  Quaternion(const tf2Scalar& yaw, const tf2Scalar& pitch, const tf2Scalar& roll)
  {
    setEuler(yaw, pitch, roll);
  }
  void setValue(const tf2Scalar& x, const tf2Scalar& y, const tf2Scalar& z, const tf2Scalar& w)
  {
    q_[0] = x;
    q_[1] = y;
    q_[2] = z;
    q_[3] = w;
  }
  const tf2Scalar& x() const { return q_[0]; }
  const tf2Scalar& y() const { return q_[1]; }
  const tf2Scalar& z() const { return q_[2]; }
  const tf2Scalar& w() const { return q_[3]; }
  const tf2Scalar& getX() const { return q_[0]; }
  const tf2Scalar& getY() const { return q_[1]; }
  const tf2Scalar& getZ() const { return q_[2]; }
  const tf2Scalar& getW() const { return q_[3]; }
  void setX(tf2Scalar v) { q_[0] = v; }
  void setY(tf2Scalar v) { q_[1] = v; }
  void setZ(tf2Scalar v) { q_[2] = v; }
  void setW(tf2Scalar v) { q_[3] = v; }
  tf2Scalar& operator[](int i) { return q_[i]; }
  const tf2Scalar& operator[](int i) const { return q_[i]; }
  void setRotation(const Vector3& axis, const tf2Scalar& angle)
  {
    const tf2Scalar d = axis.length();
    const tf2Scalar s = std::sin(angle * 0.5) / d;
    setValue(axis.x() * s, axis.y() * s, axis.z() * s, std::cos(angle * 0.5));
  }
  void setEuler(const tf2Scalar& yaw, const tf2Scalar& pitch, const tf2Scalar& roll)
  {
    const tf2Scalar cy = std::cos(yaw * 0.5), sy = std::sin(yaw * 0.5), cp = std::cos(pitch * 0.5), sp = std::sin(pitch * 0.5),
                    cr = std::cos(roll * 0.5), sr = std::sin(roll * 0.5);
    setValue(cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy, sr * cp * cy - cr * sp * sy, cr * cp * cy + sr * sp * sy);
  }
  void setRPY(const tf2Scalar& roll, const tf2Scalar& pitch, const tf2Scalar& yaw)
  {
    const tf2Scalar cy = std::cos(yaw * 0.5), sy = std::sin(yaw * 0.5), cp = std::cos(pitch * 0.5), sp = std::sin(pitch * 0.5),
                    cr = std::cos(roll * 0.5), sr = std::sin(roll * 0.5);
    setValue(sr * cp * cy - cr * sp * sy, cr * sp * cy + sr * cp * sy, cr * cp * sy - sr * sp * cy, cr * cp * cy + sr * sp * sy);
  }
  Quaternion& operator+=(const Quaternion& q)
  {
    for (int i = 0; i < 4; i++)
      q_[i] += q.q_[i];
    return *this;
  }
  Quaternion& operator-=(const Quaternion& q)
  {
    for (int i = 0; i < 4; i++)
      q_[i] -= q.q_[i];
    return *this;
  }
  Quaternion& operator*=(const tf2Scalar& s)
  {
    for (int i = 0; i < 4; i++)
      q_[i] *= s;
    return *this;
  }
  Quaternion& operator/=(const tf2Scalar& s)
  {
    return *this *= 1.0 / s;
  }
  Quaternion& operator*=(const Quaternion& q)
  {
    setValue(w() * q.x() + x() * q.w() + y() * q.z() - z() * q.y(), w() * q.y() + y() * q.w() + z() * q.x() - x() * q.z(),
             w() * q.z() + z() * q.w() + x() * q.y() - y() * q.x(), w() * q.w() - x() * q.x() - y() * q.y() - z() * q.z());
    return *this;
  }
  tf2Scalar dot(const Quaternion& q) const
  {
    return x() * q.x() + y() * q.y() + z() * q.z() + w() * q.w();
  }
  tf2Scalar length2() const
  {
    return dot(*this);
  }
  tf2Scalar length() const
  {
    return std::sqrt(length2());
  }
  Quaternion& normalize()
  {
    return *this /= length();
  }
  Quaternion normalized() const
  {
    Quaternion q = *this;
    return q.normalize();
  }
  Quaternion operator*(const tf2Scalar& s) const
  {
    return Quaternion(x() * s, y() * s, z() * s, w() * s);
  }
  Quaternion operator/(const tf2Scalar& s) const
  {
    return *this * (1.0 / s);
  }
  Quaternion operator+(const Quaternion& q) const
  {
    return Quaternion(x() + q.x(), y() + q.y(), z() + q.z(), w() + q.w());
  }
  Quaternion operator-(const Quaternion& q) const
  {
    return Quaternion(x() - q.x(), y() - q.y(), z() - q.z(), w() - q.w());
  }
  Quaternion operator-() const
  {
    return Quaternion(-x(), -y(), -z(), -w());
  }
  tf2Scalar angle(const Quaternion& q) const
  {
    return tf2Acos(dot(q) / std::sqrt(length2() * q.length2()));
  }
  tf2Scalar angleShortestPath(const Quaternion& q) const
  {
    const tf2Scalar s = std::sqrt(length2() * q.length2());
    return dot(q) < 0 ? tf2Acos(dot(-q) / s) * 2.0 : tf2Acos(dot(q) / s) * 2.0;
  }
  tf2Scalar getAngle() const
  {
    return 2.0 * tf2Acos(w());
  }
  tf2Scalar getAngleShortestPath() const
  {
    return dot(*this) < 0 ? 2.0 * tf2Acos(-w()) : 2.0 * tf2Acos(w());
  }
  Vector3 getAxis() const
  {
    const tf2Scalar s2 = 1.0 - w() * w();
    if (s2 < 10.0 * 2.2204460492503131e-16)
      return Vector3(1, 0, 0);
    const tf2Scalar s = std::sqrt(s2);
    return Vector3(x() / s, y() / s, z() / s);
  }
  Quaternion inverse() const
  {
    return Quaternion(-x(), -y(), -z(), w());
  }
  Quaternion slerp(const Quaternion& q, const tf2Scalar& t) const
  {
    const tf2Scalar theta = angleShortestPath(q) / 2.0;
    if (theta != 0.0)
    {
      const tf2Scalar d = 1.0 / std::sin(theta), s0 = std::sin((1.0 - t) * theta), s1 = std::sin(t * theta);
      if (dot(q) < 0)
        return Quaternion((x() * s0 - q.x() * s1) * d, (y() * s0 - q.y() * s1) * d, (z() * s0 - q.z() * s1) * d, (w() * s0 - q.w() * s1) * d);
      return Quaternion((x() * s0 + q.x() * s1) * d, (y() * s0 + q.y() * s1) * d, (z() * s0 + q.z() * s1) * d, (w() * s0 + q.w() * s1) * d);
    }
    return *this;
  }
  static const Quaternion& getIdentity()
  {
    static const Quaternion i(0, 0, 0, 1);
    return i;
  }
  bool operator==(const Quaternion& o) const
  {
    return x() == o.x() && y() == o.y() && z() == o.z() && w() == o.w();
  }
};
inline Quaternion operator*(const Quaternion& a, const Quaternion& b)
{
  Quaternion q = a;
  return q *= b;
}
inline Quaternion operator*(const Quaternion& q, const Vector3& v)
{
  return Quaternion(q.w() * v.x() + q.y() * v.z() - q.z() * v.y(), q.w() * v.y() + q.z() * v.x() - q.x() * v.z(),
                    q.w() * v.z() + q.x() * v.y() - q.y() * v.x(), -q.x() * v.x() - q.y() * v.y() - q.z() * v.z());
}
inline Vector3 quatRotate(const Quaternion& rotation, const Vector3& v)
{
  Quaternion q = rotation * v;
  q *= rotation.inverse();
  return Vector3(q.x(), q.y(), q.z());
}
inline tf2Scalar dot(const Quaternion& a, const Quaternion& b)
{
  return a.dot(b);
}
inline tf2Scalar length(const Quaternion& q)
{
  return q.length();
}
inline tf2Scalar angle(const Quaternion& a, const Quaternion& b)
{
  return a.angle(b);
}
inline tf2Scalar angleShortestPath(const Quaternion& a, const Quaternion& b)
{
  return a.angleShortestPath(b);
}
inline Quaternion inverse(const Quaternion& q)
{
  return q.inverse();
}
inline Quaternion slerp(const Quaternion& a, const Quaternion& b, const tf2Scalar& t)
{
  return a.slerp(b, t);
}
inline Quaternion shortestArcQuat(const Vector3& a, const Vector3& b)
{
  const Vector3 c = a.cross(b);
  const tf2Scalar d = a.dot(b);
  if (d < -1.0 + 2.2204460492503131e-16)
  {
    const Vector3 n = std::abs(a.z()) > 0.7071067811865475244 ? Vector3(0, -a.z(), a.y()).normalized() : Vector3(-a.y(), a.x(), 0).normalized();
    return Quaternion(n.x(), n.y(), n.z(), 0);
  }
  const tf2Scalar s = std::sqrt((1.0 + d) * 2.0), rs = 1.0 / s;
  return Quaternion(c.x() * rs, c.y() * rs, c.z() * rs, s * 0.5);
}
inline Quaternion shortestArcQuatNormalize2(Vector3& a, Vector3& b)
{
  a.normalize();
  b.normalize();
  return shortestArcQuat(a, b);
}

class Matrix3x3
{
  Vector3 m_el[3];

public:
  Matrix3x3()
  {
  }
  explicit Matrix3x3(const Quaternion& q)
  {
    setRotation(q);
  }
  Matrix3x3(const tf2Scalar& xx, const tf2Scalar& xy, const tf2Scalar& xz, const tf2Scalar& yx, const tf2Scalar& yy, const tf2Scalar& yz,
            const tf2Scalar& zx, const tf2Scalar& zy, const tf2Scalar& zz)
  {
    setValue(xx, xy, xz, yx, yy, yz, zx, zy, zz);
  }
  void setValue(const tf2Scalar& xx, const tf2Scalar& xy, const tf2Scalar& xz, const tf2Scalar& yx, const tf2Scalar& yy, const tf2Scalar& yz,
                const tf2Scalar& zx, const tf2Scalar& zy, const tf2Scalar& zz)
  {
    m_el[0].setValue(xx, xy, xz);
    m_el[1].setValue(yx, yy, yz);
    m_el[2].setValue(zx, zy, zz);
  }
  Vector3 getColumn(int i) const
  {
    return Vector3(m_el[0][i], m_el[1][i], m_el[2][i]);
  }
  const Vector3& getRow(int i) const
  {
    return m_el[i];
  }
  Vector3& operator[](int i)
  {
    return m_el[i];
  }
  const Vector3& operator[](int i) const
  {
    return m_el[i];
  }
  void setRotation(const Quaternion& q)
  {
    const tf2Scalar d = q.length2(), s = 2.0 / d;
    const tf2Scalar xs = q.x() * s, ys = q.y() * s, zs = q.z() * s;
    const tf2Scalar wx = q.w() * xs, wy = q.w() * ys, wz = q.w() * zs;
    const tf2Scalar xx = q.x() * xs, xy = q.x() * ys, xz = q.x() * zs;
    const tf2Scalar yy = q.y() * ys, yz = q.y() * zs, zz = q.z() * zs;
    setValue(1.0 - (yy + zz), xy - wz, xz + wy, xy + wz, 1.0 - (xx + zz), yz - wx, xz - wy, yz + wx, 1.0 - (xx + yy));
  }
  void setIdentity()
  {
    setValue(1, 0, 0, 0, 1, 0, 0, 0, 1);
  }
  static const Matrix3x3& getIdentity()
  {
    static const Matrix3x3 m(1, 0, 0, 0, 1, 0, 0, 0, 1);
    return m;
  }
  void getRotation(Quaternion& q) const
  {
    const tf2Scalar trace = m_el[0].x() + m_el[1].y() + m_el[2].z();
    tf2Scalar t[4];
    if (trace > 0.0)
    {
      tf2Scalar s = std::sqrt(trace + 1.0);
      t[3] = s * 0.5;
      s = 0.5 / s;
      t[0] = (m_el[2].y() - m_el[1].z()) * s;
      t[1] = (m_el[0].z() - m_el[2].x()) * s;
      t[2] = (m_el[1].x() - m_el[0].y()) * s;
    }
    else
    {
      const int i = m_el[0].x() < m_el[1].y() ? (m_el[1].y() < m_el[2].z() ? 2 : 1) : (m_el[0].x() < m_el[2].z() ? 2 : 0);
      const int j = (i + 1) % 3, k = (i + 2) % 3;
      tf2Scalar s = std::sqrt(m_el[i][i] - m_el[j][j] - m_el[k][k] + 1.0);
      t[i] = s * 0.5;
      s = 0.5 / s;
      t[3] = (m_el[k][j] - m_el[j][k]) * s;
      t[j] = (m_el[j][i] + m_el[i][j]) * s;
      t[k] = (m_el[k][i] + m_el[i][k]) * s;
    }
    q.setValue(t[0], t[1], t[2], t[3]);
  }
  void getEulerYPR(tf2Scalar& yaw, tf2Scalar& pitch, tf2Scalar& roll, unsigned int solution = 1) const
  {
    struct E
    {
      tf2Scalar yaw, pitch, roll;
    } o, o2;
    if (std::abs(m_el[2].x()) >= 1)
    {
      o.yaw = o2.yaw = 0;
      const tf2Scalar delta = std::atan2(m_el[2].y(), m_el[2].z());
      if (m_el[2].x() < 0)
      {
        o.pitch = o2.pitch = TF2SIMD_PI / 2.0;
        o.roll = o2.roll = delta;
      }
      else
      {
        o.pitch = o2.pitch = -TF2SIMD_PI / 2.0;
        o.roll = o2.roll = delta;
      }
    }
    else
    {
      o.pitch = -std::asin(m_el[2].x());
      o2.pitch = TF2SIMD_PI - o.pitch;
      o.roll = std::atan2(m_el[2].y() / std::cos(o.pitch), m_el[2].z() / std::cos(o.pitch));
      o2.roll = std::atan2(m_el[2].y() / std::cos(o2.pitch), m_el[2].z() / std::cos(o2.pitch));
      o.yaw = std::atan2(m_el[1].x() / std::cos(o.pitch), m_el[0].x() / std::cos(o.pitch));
      o2.yaw = std::atan2(m_el[1].x() / std::cos(o2.pitch), m_el[0].x() / std::cos(o2.pitch));
    }
    const E& e = solution == 1 ? o : o2;
    yaw = e.yaw;
    pitch = e.pitch;
    roll = e.roll;
  }
  void getRPY(tf2Scalar& r, tf2Scalar& p, tf2Scalar& y, unsigned int s = 1) const
  {
    getEulerYPR(y, p, r, s);
  }
  void setRPY(tf2Scalar r, tf2Scalar p, tf2Scalar y)
  {
    Quaternion q;
    q.setRPY(r, p, y);
    setRotation(q);
  }
  void setEulerYPR(tf2Scalar y, tf2Scalar p, tf2Scalar r)
  {
    setRPY(r, p, y);
  }
  tf2Scalar tdotx(const Vector3& v) const { return m_el[0].x() * v.x() + m_el[1].x() * v.y() + m_el[2].x() * v.z(); }
  tf2Scalar tdoty(const Vector3& v) const { return m_el[0].y() * v.x() + m_el[1].y() * v.y() + m_el[2].y() * v.z(); }
  tf2Scalar tdotz(const Vector3& v) const { return m_el[0].z() * v.x() + m_el[1].z() * v.y() + m_el[2].z() * v.z(); }
  Matrix3x3 transpose() const
  {
    return Matrix3x3(m_el[0].x(), m_el[1].x(), m_el[2].x(), m_el[0].y(), m_el[1].y(), m_el[2].y(), m_el[0].z(), m_el[1].z(), m_el[2].z());
  }
  tf2Scalar determinant() const
  {
    return m_el[0].dot(m_el[1].cross(m_el[2]));
  }
  Matrix3x3 inverse() const
  {
    const Vector3 co = m_el[1].cross(m_el[2]);
    const tf2Scalar s = 1.0 / m_el[0].dot(co);
    const Vector3 c1 = m_el[2].cross(m_el[0]), c2 = m_el[0].cross(m_el[1]);
    return Matrix3x3(co.x() * s, c1.x() * s, c2.x() * s, co.y() * s, c1.y() * s, c2.y() * s, co.z() * s, c1.z() * s, c2.z() * s);
  }
  Matrix3x3& operator*=(const Matrix3x3& m);
};
inline Vector3 operator*(const Matrix3x3& m, const Vector3& v)
{
  return Vector3(m[0].dot(v), m[1].dot(v), m[2].dot(v));
}
inline Vector3 operator*(const Vector3& v, const Matrix3x3& m)
{
  return Vector3(m.tdotx(v), m.tdoty(v), m.tdotz(v));
}
inline Matrix3x3 operator*(const Matrix3x3& a, const Matrix3x3& b)
{
  return Matrix3x3(b.tdotx(a[0]), b.tdoty(a[0]), b.tdotz(a[0]), b.tdotx(a[1]), b.tdoty(a[1]), b.tdotz(a[1]), b.tdotx(a[2]), b.tdoty(a[2]), b.tdotz(a[2]));
}
inline Matrix3x3& Matrix3x3::operator*=(const Matrix3x3& m)
{
  return *this = *this * m;
}

class Transform
{
  Matrix3x3 m_basis;
  Vector3 m_origin;

public:
  Transform()
  {
  }
  explicit Transform(const Quaternion& q, const Vector3& c = Vector3(0, 0, 0))
    : m_basis(q)
    , m_origin(c)
  {
  }
  explicit Transform(const Matrix3x3& b, const Vector3& c = Vector3(0, 0, 0))
    : m_basis(b)
    , m_origin(c)
  {
  }
  Vector3 operator()(const Vector3& x) const
  {
    return Vector3(m_basis[0].dot(x) + m_origin.x(), m_basis[1].dot(x) + m_origin.y(), m_basis[2].dot(x) + m_origin.z());
  }
  Vector3 operator*(const Vector3& x) const
  {
    return (*this)(x);
  }
  Quaternion operator*(const Quaternion& q) const
  {
    return getRotation() * q;
  }
  Matrix3x3& getBasis()
  {
    return m_basis;
  }
  const Matrix3x3& getBasis() const
  {
    return m_basis;
  }
  Vector3& getOrigin()
  {
    return m_origin;
  }
  const Vector3& getOrigin() const
  {
    return m_origin;
  }
  Quaternion getRotation() const
  {
    Quaternion q;
    m_basis.getRotation(q);
    return q;
  }
  void setOrigin(const Vector3& o)
  {
    m_origin = o;
  }
  void setBasis(const Matrix3x3& b)
  {
    m_basis = b;
  }
  void setRotation(const Quaternion& q)
  {
    m_basis.setRotation(q);
  }
  void setIdentity()
  {
    m_basis.setIdentity();
    m_origin.setValue(0, 0, 0);
  }
  Vector3 invXform(const Vector3& v) const
  {
    return m_basis.transpose() * (v - m_origin);
  }
  Transform inverse() const
  {
    Matrix3x3 inv = m_basis.transpose();
    return Transform(inv, inv * -m_origin);
  }
  Transform inverseTimes(const Transform& t) const
  {
    return Transform(m_basis.transpose() * t.m_basis, (t.getOrigin() - getOrigin()) * m_basis);
  }
  Transform operator*(const Transform& t) const
  {
    return Transform(m_basis * t.m_basis, (*this)(t.m_origin));
  }
  Transform& operator*=(const Transform& t)
  {
    return *this = *this * t;
  }
  void mult(const Transform& a, const Transform& b)
  {
    *this = a * b;
  }
  static const Transform& getIdentity()
  {
    static const Transform t(Matrix3x3::getIdentity());
    return t;
  }
};
}  // namespace tf2
#endif
