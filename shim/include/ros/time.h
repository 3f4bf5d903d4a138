#ifndef SHIM_ROS_TIME_H
#define SHIM_ROS_TIME_H
#include <cmath>
#include <cstdint>
#include <limits>
#include <ostream>
#include <stdexcept>
#include <string>

namespace ros
{
class TimeNotInitializedException : public std::runtime_error
{
public:
  TimeNotInitializedException()
    : std::runtime_error("Cannot use ros::Time::now() before the first NodeHandle has been created or ros::start() has been called.")
  {
  }
};

template <class T>
class DurationBase
{
public:
  int32_t sec, nsec;
  DurationBase()
    : sec(0)
    , nsec(0)
  {
  }
  DurationBase(int32_t s, int32_t n)
  {
    set(s, n);
  }
  T operator+(const T& r) const
  {
    T t;
    t.set(static_cast<int64_t>(sec) + r.sec, static_cast<int64_t>(nsec) + r.nsec);
    return t;
  }
  T operator-(const T& r) const
  {
    T t;
    t.set(static_cast<int64_t>(sec) - r.sec, static_cast<int64_t>(nsec) - r.nsec);
    return t;
  }
  T operator-() const
  {
    T t;
    t.set(-static_cast<int64_t>(sec), -static_cast<int64_t>(nsec));
    return t;
  }
  T operator*(double s) const
  {
    T t;
    t.fromSec(toSec() * s);
    return t;
  }
  T& operator+=(const T& r)
  {
    *this = *this + r;
    return *static_cast<T*>(this);
  }
  T& operator-=(const T& r)
  {
    *this = *this - r;
    return *static_cast<T*>(this);
  }
  T& operator*=(double s)
  {
    fromSec(toSec() * s);
    return *static_cast<T*>(this);
  }
  DurationBase& operator=(const DurationBase&) = default;
  DurationBase(const DurationBase&) = default;
  bool operator==(const T& r) const
  {
    return sec == r.sec && nsec == r.nsec;
  }
  bool operator!=(const T& r) const
  {
    return !(*this == r);
  }
  bool operator<(const T& r) const
  {
    return sec != r.sec ? sec < r.sec : nsec < r.nsec;
  }
  bool operator>(const T& r) const
  {
    return r < *static_cast<const T*>(this);
  }
  bool operator<=(const T& r) const
  {
    return !(*this > r);
  }
  bool operator>=(const T& r) const
  {
    return !(*this < r);
  }
  double toSec() const
  {
    return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec);
  }
  int64_t toNSec() const
  {
    return static_cast<int64_t>(sec) * 1000000000LL + nsec;
  }
  T& fromSec(double d)
  {
    int64_t s = 0;
    if (!(std::abs(d) < 9e18))
      throw std::runtime_error("Duration is out of dual 32-bit range");
    s = static_cast<int64_t>(std::floor(d));
    if (s < std::numeric_limits<int32_t>::min() || s > std::numeric_limits<int32_t>::max())
      throw std::runtime_error("Duration is out of dual 32-bit range");
    int64_t n = static_cast<int64_t>(std::round((d - s) * 1e9));
    set(s, n);
    return *static_cast<T*>(this);
  }
  T& fromNSec(int64_t t)
  {
    set(0, t);
    return *static_cast<T*>(this);
  }
  bool isZero() const
  {
    return sec == 0 && nsec == 0;
  }
  void set(int64_t s, int64_t n)
  {
    int64_t carry = n / 1000000000LL;
    n = n % 1000000000LL;
    if (n < 0)
    {
      n += 1000000000LL;
      --carry;
    }
    s += carry;
    if (s < std::numeric_limits<int32_t>::min() || s > std::numeric_limits<int32_t>::max())
      throw std::runtime_error("Duration is out of dual 32-bit range");
    sec = static_cast<int32_t>(s);
    nsec = static_cast<int32_t>(n);
  }
};

class Duration : public DurationBase<Duration>
{
public:
  Duration()
  {
  }
  Duration(int32_t s, int32_t n)
    : DurationBase<Duration>(s, n)
  {
  }
  explicit Duration(double t)
  {
    fromSec(t);
  }
  bool sleep() const;
};
class WallDuration : public DurationBase<WallDuration>
{
public:
  WallDuration()
  {
  }
  WallDuration(int32_t s, int32_t n)
    : DurationBase<WallDuration>(s, n)
  {
  }
  explicit WallDuration(double t)
  {
    fromSec(t);
  }
  bool sleep() const;
};
const Duration DURATION_MAX(std::numeric_limits<int32_t>::max(), 999999999);
const Duration DURATION_MIN(std::numeric_limits<int32_t>::min(), 0);

template <class T, class D>
class TimeBase
{
public:
  uint32_t sec, nsec;
  TimeBase()
    : sec(0)
    , nsec(0)
  {
  }
  TimeBase(uint32_t s, uint32_t n)
  {
    set(s, n);
  }
  TimeBase(const TimeBase&) = default;
  TimeBase& operator=(const TimeBase&) = default;
  D operator-(const T& r) const
  {
    D d;
    d.set(static_cast<int64_t>(sec) - r.sec, static_cast<int64_t>(nsec) - r.nsec);
    return d;
  }
  T operator+(const D& r) const
  {
    T t;
    t.set(static_cast<int64_t>(sec) + r.sec, static_cast<int64_t>(nsec) + r.nsec);
    return t;
  }
  T operator-(const D& r) const
  {
    T t;
    t.set(static_cast<int64_t>(sec) - r.sec, static_cast<int64_t>(nsec) - r.nsec);
    return t;
  }
  T& operator+=(const D& r)
  {
    *this = *this + r;
    return *static_cast<T*>(this);
  }
  T& operator-=(const D& r)
  {
    *this = *this - r;
    return *static_cast<T*>(this);
  }
  bool operator==(const T& r) const
  {
    return sec == r.sec && nsec == r.nsec;
  }
  bool operator!=(const T& r) const
  {
    return !(*this == r);
  }
  bool operator<(const T& r) const
  {
    return sec != r.sec ? sec < r.sec : nsec < r.nsec;
  }
  bool operator>(const T& r) const
  {
    return r < *static_cast<const T*>(this);
  }
  bool operator<=(const T& r) const
  {
    return !(*this > r);
  }
  bool operator>=(const T& r) const
  {
    return !(*this < r);
  }
  double toSec() const
  {
    return static_cast<double>(sec) + 1e-9 * static_cast<double>(nsec);
  }
  uint64_t toNSec() const
  {
    return static_cast<uint64_t>(sec) * 1000000000ULL + nsec;
  }
  T& fromSec(double t)
  {
    if (!(std::abs(t) < 9e18))
      throw std::runtime_error("Time is out of dual 32-bit range");
    int64_t s = static_cast<int64_t>(std::floor(t));
    if (s < 0 || s > std::numeric_limits<uint32_t>::max())
      throw std::runtime_error("Time is out of dual 32-bit range");
    set(s, static_cast<int64_t>(std::round((t - s) * 1e9)));
    return *static_cast<T*>(this);
  }
  T& fromNSec(uint64_t t)
  {
    set(0, static_cast<int64_t>(t));
    return *static_cast<T*>(this);
  }
  bool isZero() const
  {
    return sec == 0 && nsec == 0;
  }
  bool is_zero() const
  {
    return isZero();
  }
  void set(int64_t s, int64_t n)
  {
    int64_t carry = n / 1000000000LL;
    n = n % 1000000000LL;
    if (n < 0)
    {
      n += 1000000000LL;
      --carry;
    }
    s += carry;
    if (s < 0 || s > std::numeric_limits<uint32_t>::max())
      throw std::runtime_error("Time is out of dual 32-bit range");
    sec = static_cast<uint32_t>(s);
    nsec = static_cast<uint32_t>(n);
  }
};

class Time : public TimeBase<Time, Duration>
{
public:
  Time()
  {
  }
  Time(uint32_t s, uint32_t n)
    : TimeBase<Time, Duration>(s, n)
  {
  }
  explicit Time(double t)
  {
    fromSec(t);
  }
  static Time now();
  static bool sleepUntil(const Time& end);
  static void init()
  {
  }
  static void shutdown()
  {
  }
  static bool isValid()
  {
    return true;
  }
  static bool isSystemTime()
  {
    return false;
  }
  static bool isSimTime()
  {
    return true;
  }
  static bool waitForValid()
  {
    return true;
  }
};
class WallTime : public TimeBase<WallTime, WallDuration>
{
public:
  WallTime()
  {
  }
  WallTime(uint32_t s, uint32_t n)
    : TimeBase<WallTime, WallDuration>(s, n)
  {
  }
  explicit WallTime(double t)
  {
    fromSec(t);
  }
  static WallTime now();
};
const Time TIME_MIN(0, 1);
const Time TIME_MAX(std::numeric_limits<uint32_t>::max(), 999999999);

inline std::ostream& operator<<(std::ostream& o, const Time& t)
{
  return o << t.toSec();
}
inline std::ostream& operator<<(std::ostream& o, const Duration& t)
{
  return o << t.toSec();
}
class Rate
{
public:
  explicit Rate(double hz)
    : Rate(Duration(1.0 / hz))
  {
  }
  explicit Rate(const Duration& d)
    : start_(Time::now())
    , expected_(d)
    , actual_(0.0)
  {
  }
  bool sleep();
  void reset()
  {
    start_ = Time::now();
  }
  Duration cycleTime() const
  {
    return actual_;
  }
  Duration expectedCycleTime() const
  {
    return expected_;
  }

private:
  Time start_;
  Duration expected_, actual_;
};
class WallRate
{
public:
  explicit WallRate(double hz)
    : r_(hz)
  {
  }
  bool sleep()
  {
    return r_.sleep();
  }
  Rate r_;
};
}  // namespace ros
#endif
