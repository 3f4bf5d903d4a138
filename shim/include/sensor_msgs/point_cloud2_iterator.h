#ifndef SHIM_PC2_ITER_H
#define SHIM_PC2_ITER_H
#include <cstdarg>
#include <sensor_msgs/PointCloud2.h>
#include <stdexcept>
#include <string>
#include <vector>
namespace sensor_msgs
{
enum
{
  SHIM_PF_DUMMY = 0
};
namespace shim_pc
{
inline int sizeOf(int dt)
{
  switch (dt)
  {
    case 1:
    case 2:
      return 1;
    case 3:
    case 4:
      return 2;
    case 5:
    case 6:
    case 7:
      return 4;
    case 8:
      return 8;
  }
  throw std::runtime_error("PointField of unknown type");
}
}  // namespace shim_pc
template <typename T, typename TT, typename U, typename C, template <typename> class V>
class PointCloud2IteratorBase
{
public:
  PointCloud2IteratorBase()
    : data_char_(nullptr)
    , data_(nullptr)
    , data_end_(nullptr)
  {
  }
  PointCloud2IteratorBase(C& cloud, const std::string& field)
  {
    const int offset = set_field(cloud, field);
    data_char_ = cloud.data.data() + offset;
    data_ = reinterpret_cast<TT*>(data_char_);
    data_end_ = reinterpret_cast<TT*>(cloud.data.data() + cloud.data.size() + offset);
  }
  V<T> operator+(int i)
  {
    V<T> r = *static_cast<V<T>*>(this);
    r.data_char_ += i * point_step_;
    r.data_ = reinterpret_cast<TT*>(r.data_char_);
    return r;
  }
  V<T>& operator+=(int i)
  {
    data_char_ += i * point_step_;
    data_ = reinterpret_cast<TT*>(data_char_);
    return *static_cast<V<T>*>(this);
  }
  V<T>& operator++()
  {
    return *this += 1;
  }
  TT& operator[](size_t i) const
  {
    return *(data_ + i);
  }
  TT& operator*() const
  {
    return *data_;
  }
  bool operator!=(const V<T>& o) const
  {
    return o.data_ != data_;
  }
  bool operator==(const V<T>& o) const
  {
    return o.data_ == data_;
  }
  V<T> end() const
  {
    V<T> r = *static_cast<const V<T>*>(this);
    r.data_ = data_end_;
    return r;
  }

protected:
  int set_field(const PointCloud2& c, const std::string& name)
  {
    is_bigendian_ = c.is_bigendian;
    point_step_ = c.point_step;
    for (const auto& f : c.fields)
      if (f.name == name)
        return f.offset;
    static const std::string rgb = "rgba";
    const size_t k = rgb.find(name);
    if (name.size() == 1 && k != std::string::npos)
      for (const auto& f : c.fields)
        if (f.name == "rgb" || f.name == "rgba")
          return f.offset + (name == "r" ? 2 : name == "g" ? 1 : name == "b" ? 0 : 3);
    throw std::runtime_error("Field " + name + " does not exist");
  }
  int point_step_ = 0;
  U* data_char_;
  TT* data_;
  TT* data_end_;
  bool is_bigendian_ = false;
};
template <typename T>
class PointCloud2Iterator : public PointCloud2IteratorBase<T, T, unsigned char, PointCloud2, PointCloud2Iterator>
{
public:
  PointCloud2Iterator(PointCloud2& c, const std::string& f)
    : PointCloud2IteratorBase<T, T, unsigned char, PointCloud2, sensor_msgs::PointCloud2Iterator>(c, f)
  {
  }
};
template <typename T>
class PointCloud2ConstIterator : public PointCloud2IteratorBase<T, const T, const unsigned char, const PointCloud2, PointCloud2ConstIterator>
{
public:
  PointCloud2ConstIterator(const PointCloud2& c, const std::string& f)
    : PointCloud2IteratorBase<T, const T, const unsigned char, const PointCloud2, sensor_msgs::PointCloud2ConstIterator>(c, f)
  {
  }
};
class PointCloud2Modifier
{
public:
  explicit PointCloud2Modifier(PointCloud2& c)
    : c_(c)
  {
  }
  size_t size() const
  {
    return c_.point_step ? c_.data.size() / c_.point_step : 0;
  }
  void reserve(size_t n)
  {
    c_.data.reserve(n * c_.point_step);
  }
  void resize(size_t n)
  {
    c_.data.resize(n * c_.point_step);
    if (c_.height != 1)
      c_.height = 1;
    c_.width = n;
    c_.row_step = c_.width * c_.point_step;
  }
  void clear()
  {
    c_.data.clear();
    c_.width = 0;
    c_.height = 1;
    c_.row_step = 0;
  }
  void setPointCloud2Fields(int n, ...)
  {
    c_.fields.clear();
    va_list vl;
    va_start(vl, n);
    int offset = 0;
    for (int i = 0; i < n; ++i)
    {
      const std::string name = va_arg(vl, char*);
      const int count = va_arg(vl, int);
      const int dt = va_arg(vl, int);
      add(name, count, dt, offset);
    }
    va_end(vl);
    finish(offset);
  }
  void setPointCloud2FieldsByString(int n, ...)
  {
    c_.fields.clear();
    va_list vl;
    va_start(vl, n);
    int offset = 0;
    for (int i = 0; i < n; ++i)
    {
      const std::string name = va_arg(vl, char*);
      if (name == "xyz")
      {
        add("x", 1, 7, offset);
        add("y", 1, 7, offset);
        add("z", 1, 7, offset);
        offset += 4;
      }
      else if (name == "rgb" || name == "rgba")
      {
        add(name, 1, 7, offset);
        offset += 12;
      }
      else
        throw std::runtime_error("Field " + name + " does not exist");
    }
    va_end(vl);
    finish(offset);
  }

private:
  void add(const std::string& name, int count, int dt, int& offset)
  {
    PointField f;
    f.name = name;
    f.count = count;
    f.datatype = dt;
    f.offset = offset;
    c_.fields.push_back(f);
    offset += count * shim_pc::sizeOf(dt);
  }
  void finish(int offset)
  {
    c_.point_step = offset;
    c_.row_step = c_.width * c_.point_step;
    c_.data.resize(c_.height * c_.row_step);
  }
  PointCloud2& c_;
};
}  // namespace sensor_msgs
#endif
