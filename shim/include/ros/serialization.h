#ifndef SHIM_ROS_SERIALIZATION_H
#define SHIM_ROS_SERIALIZATION_H
#include <boost/array.hpp>
#include <boost/make_shared.hpp>
#include <boost/shared_array.hpp>
#include <boost/shared_ptr.hpp>
#include <cstdint>
#include <cstring>
#include <memory>
#include <ros/time.h>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
namespace ros
{
class Exception : public std::runtime_error
{
public:
  explicit Exception(const std::string& w)
    : std::runtime_error(w)
  {
  }
};
namespace message_traits
{
template <class M>
struct DataType
{
  static const char* value()
  {
    return M::__s_getDataType().c_str();
  }
};
template <class M>
inline const char* datatype()
{
  return DataType<M>::value();
}
template <class M>
inline const char* datatype(const M&)
{
  return DataType<M>::value();
}
}  // namespace message_traits
namespace serialization
{
class StreamOverrunException : public ros::Exception
{
public:
  explicit StreamOverrunException(const std::string& w)
    : Exception(w)
  {
  }
};
template <class T>
struct Serializer
{
  template <class S, class M>
  static void allInOne(S& s, M& m)
  {
    static_assert(std::is_arithmetic<T>::value, "no serializer");
    s.raw(m);
  }
};
template <>
struct Serializer<std::string>
{
  template <class S, class M>
  static void allInOne(S& s, M& m)
  {
    s.str(m);
  }
};
template <>
struct Serializer<ros::Time>
{
  template <class S, class M>
  static void allInOne(S& s, M& m)
  {
    s.raw(m.sec);
    s.raw(m.nsec);
  }
};
template <>
struct Serializer<ros::Duration>
{
  template <class S, class M>
  static void allInOne(S& s, M& m)
  {
    s.raw(m.sec);
    s.raw(m.nsec);
  }
};
template <class T, class A>
struct Serializer<std::vector<T, A>>
{
  template <class S, class M>
  static void allInOne(S& s, M& m)
  {
    s.vec(m);
  }
};
template <class T, size_t N>
struct Serializer<boost::array<T, N>>
{
  template <class S, class M>
  static void allInOne(S& s, M& m)
  {
    for (auto& e : m)
      s.next(e);
  }
};
class Stream
{
public:
  uint8_t* getData()
  {
    return data_;
  }
  uint32_t getLength()
  {
    return static_cast<uint32_t>(end_ - data_);
  }
  uint8_t* advance(uint32_t len)
  {
    uint8_t* old = data_;
    // as roscpp: the pointer is compared after the addition
    if (len > static_cast<size_t>(end_ - data_))
      throw StreamOverrunException("Buffer Overrun");
    data_ += len;
    return old;
  }

protected:
  Stream(uint8_t* d, uint32_t n)
    : data_(d)
    , end_(d + n)
  {
  }
  uint8_t *data_, *end_;
};
class OStream : public Stream
{
public:
  OStream(uint8_t* d, uint32_t n)
    : Stream(d, n)
  {
  }
  template <class T>
  void next(const T& t)
  {
    Serializer<T>::allInOne(*this, t);
  }
  template <class T>
  OStream& operator<<(const T& t)
  {
    next(t);
    return *this;
  }
  template <class T>
  void raw(const T& t)
  {
    memcpy(advance(sizeof t), &t, sizeof t);
  }
  void str(const std::string& s)
  {
    raw(static_cast<uint32_t>(s.size()));
    if (!s.empty())
      memcpy(advance(s.size()), s.data(), s.size());
  }
  template <class V>
  void vec(const V& v)
  {
    raw(static_cast<uint32_t>(v.size()));
    for (const auto& e : v)
      next(e);
  }
};
class IStream : public Stream
{
public:
  IStream(uint8_t* d, uint32_t n)
    : Stream(d, n)
  {
  }
  template <class T>
  void next(T& t)
  {
    Serializer<T>::allInOne(*this, t);
  }
  template <class T>
  IStream& operator>>(T& t)
  {
    next(t);
    return *this;
  }
  template <class T>
  void raw(T& t)
  {
    memcpy(&t, advance(sizeof t), sizeof t);
  }
  void str(std::string& s)
  {
    uint32_t n;
    raw(n);
    if (n > 0)
    {
      const uint8_t* p = advance(n);
      s.assign(reinterpret_cast<const char*>(p), n);
    }
    else
      s.clear();
  }
  template <class V>
  void vec(V& v)
  {
    uint32_t n;
    raw(n);
    v.resize(n);
    for (auto& e : v)
      next(e);
  }
};
class LStream
{
public:
  uint32_t count_ = 0;
  template <class T>
  void next(const T& t)
  {
    Serializer<T>::allInOne(*this, t);
  }
  template <class T>
  void raw(const T& t)
  {
    count_ += sizeof t;
  }
  void str(const std::string& s)
  {
    count_ += 4 + s.size();
  }
  template <class V>
  void vec(const V& v)
  {
    count_ += 4;
    for (const auto& e : v)
      next(e);
  }
  uint32_t getLength() const
  {
    return count_;
  }
};
template <class M>
inline uint32_t serializationLength(const M& m)
{
  LStream s;
  s.next(m);
  return s.getLength();
}
template <class M, class S>
inline void serialize(S& s, const M& m)
{
  s.next(m);
}
template <class M, class S>
inline void deserialize(S& s, M& m)
{
  s.next(m);
}
}  // namespace serialization
}  // namespace ros
#endif
