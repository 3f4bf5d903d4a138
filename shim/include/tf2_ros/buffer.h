#ifndef SHIM_TF2_ROS_BUFFER_H
#define SHIM_TF2_ROS_BUFFER_H
#include <shim/core.h>
#include <tf2/utils.h>
namespace shim
{
// One transform tree for all buffers, with history and interpolation
struct TfTree
{
  struct Sample
  {
    ros::Time t;
    std::string parent;
    tf2::Vector3 p;
    tf2::Quaternion q;
  };
  struct Link
  {
    bool is_static = false;
    std::deque<Sample> h;
  };
  std::map<std::string, Link> links;
  long lookups = 0, failures = 0;
  std::function<void(const ros::Duration&)> on_wait;  // time passes while a lookup with timeout waits
  static TfTree& get()
  {
    static TfTree* t = nullptr;
    if (!t)
    {
      t = new TfTree();
      Core::get().reset_tf = []()
      {
        TfTree::get().links.clear();
        TfTree::get().on_wait = nullptr;
      };
    }
    return *t;
  }
  static std::string strip(const std::string& s)
  {
    return !s.empty() && s[0] == '/' ? s.substr(1) : s;
  }
  bool set(const geometry_msgs::TransformStamped& m, bool is_static)
  {
    Sample s;
    s.t = m.header.stamp;
    s.parent = strip(m.header.frame_id);
    const std::string child = strip(m.child_frame_id);
    s.p.setValue(m.transform.translation.x, m.transform.translation.y, m.transform.translation.z);
    s.q.setValue(m.transform.rotation.x, m.transform.rotation.y, m.transform.rotation.z, m.transform.rotation.w);
    if (child == s.parent || child.empty() || s.parent.empty())
      return false;
    if (std::isnan(s.p.x()) || std::isnan(s.p.y()) || std::isnan(s.p.z()) || std::isnan(s.q.length2()))
      return false;
    if (std::abs(s.q.length2() - 1.0) > 1e-6)
      return false;
    Link& l = links[child];
    if (is_static || l.is_static)
    {
      l.is_static = is_static;
      l.h.clear();
    }
    auto it = l.h.end();
    while (it != l.h.begin() && s.t < (it - 1)->t)
      --it;
    if (!l.h.empty() && s.t + ros::Duration(10.0) < l.h.back().t)
      return false;
    l.h.insert(it, s);
    while (!l.h.empty() && l.h.front().t + ros::Duration(10.0) < l.h.back().t)
      l.h.pop_front();
    return true;
  }
  // newest stamp of the link, or zero for static ones
  bool at(const Link& l, const ros::Time& t, Sample& out, std::string& err) const
  {
    if (l.is_static || t.isZero())
    {
      out = l.h.back();
      return true;
    }
    if (l.h.size() == 1)
    {
      if (l.h.front().t == t)
      {
        out = l.h.front();
        return true;
      }
      err = "Lookup would require extrapolation: only one sample";
      return false;
    }
    if (t > l.h.back().t)
    {
      err = "Lookup would require extrapolation into the future";
      return false;
    }
    if (t < l.h.front().t)
    {
      err = "Lookup would require extrapolation into the past";
      return false;
    }
    size_t k = 0;
    while (k + 1 < l.h.size() && l.h[k + 1].t <= t)
      k++;
    if (k + 1 == l.h.size() || l.h[k].t == t)
    {
      out = l.h[k];
      return true;
    }
    const Sample &a = l.h[k], &b = l.h[k + 1];
    const double r = (t - a.t).toSec() / (b.t - a.t).toSec();
    out = a;
    if (a.parent != b.parent)
      return true;
    out.p = a.p.lerp(b.p, r);
    out.q = a.q.slerp(b.q, r);
    return true;
  }
  bool known(const std::string& f) const
  {
    if (links.count(f))
      return true;
    for (auto& l : links)
      for (auto& s : l.second.h)
        if (s.parent == f)
          return true;
    return false;
  }
  std::vector<std::string> chain(const std::string& f) const
  {
    std::vector<std::string> c{f};
    std::string x = f;
    while (c.size() < 100)
    {
      auto it = links.find(x);
      if (it == links.end() || it->second.h.empty())
        break;
      x = it->second.h.back().parent;
      c.push_back(x);
    }
    return c;
  }
  // transform of source expressed in target
  tf2::Transform lookup(const std::string& target_, const std::string& source_, const ros::Time& time, ros::Time& stamp)
  {
    lookups++;
    const std::string target = strip(target_), source = strip(source_);
    auto fail = [&]()
    { failures++; };
    if (target.empty() || source.empty())
    {
      fail();
      throw tf2::InvalidArgumentException("Invalid argument passed to lookupTransform: frame_ids cannot be empty");
    }
    for (auto& f : {target, source})
      if (!known(f))
      {
        fail();
        throw tf2::LookupException("\"" + f + "\" passed to lookupTransform argument does not exist.");
      }
    if (target == source)
    {
      stamp = time;
      if (time.isZero())
      {
        auto it = links.find(target);
        stamp = it == links.end() ? time : it->second.is_static ? time : it->second.h.back().t;
      }
      return tf2::Transform::getIdentity();
    }
    const auto ct = chain(target), cs = chain(source);
    size_t it = 0, is = 0;
    bool found = false;
    for (is = 0; is < cs.size() && !found; is++)
      for (it = 0; it < ct.size(); it++)
        if (ct[it] == cs[is])
        {
          found = true;
          break;
        }
    if (!found)
    {
      fail();
      throw tf2::ConnectivityException("Could not find a connection between '" + target + "' and '" + source + "' because they are not part of the same tree.");
    }
    is--;
    ros::Time t = time;
    if (t.isZero())
    {
      bool any = false;
      for (size_t k = 0; k < is; k++)
        if (!links[cs[k]].is_static)
        {
          const ros::Time n = links[cs[k]].h.back().t;
          t = any ? std::min(t, n) : n;
          any = true;
        }
      for (size_t k = 0; k < it; k++)
        if (!links[ct[k]].is_static)
        {
          const ros::Time n = links[ct[k]].h.back().t;
          t = any ? std::min(t, n) : n;
          any = true;
        }
    }
    auto up = [&](const std::vector<std::string>& c, size_t n)
    {
      tf2::Transform x = tf2::Transform::getIdentity();
      for (size_t k = 0; k < n; k++)
      {
        Sample s;
        std::string err;
        if (!at(links[c[k]], t, s, err))
        {
          fail();
          throw tf2::ExtrapolationException(err + ", when looking up transform from frame [" + source + "] to frame [" + target + "]");
        }
        x = tf2::Transform(s.q, s.p) * x;
      }
      return x;
    };
    const tf2::Transform s = up(cs, is), d = up(ct, it);
    stamp = t;
    return d.inverse() * s;
  }
};
}  // namespace shim
namespace tf2
{
class BufferCore
{
public:
  virtual ~BufferCore()
  {
  }
  bool setTransform(const geometry_msgs::TransformStamped& t, const std::string&, bool is_static = false)
  {
    return shim::TfTree::get().set(t, is_static);
  }
  void clear()
  {
  }
};
}  // namespace tf2
namespace tf2_ros
{
class BufferInterface
{
};
class Buffer : public tf2::BufferCore, public BufferInterface
{
public:
  Buffer(ros::Duration = ros::Duration(10.0), bool = false)
  {
    shim::TfTree::get();
  }
  geometry_msgs::TransformStamped lookupTransform(const std::string& target, const std::string& source, const ros::Time& time,
                                                  const ros::Duration timeout = ros::Duration(0.0)) const
  {
    geometry_msgs::TransformStamped m;
    ros::Time st;
    tf2::Transform x;
    auto& tree = shim::TfTree::get();
    try
    {
      x = tree.lookup(target, source, time, st);
    }
    catch (tf2::TransformException&)
    {
      if (!tree.on_wait || timeout <= ros::Duration(0.0))
        throw;
      tree.on_wait(timeout);
      x = tree.lookup(target, source, time, st);
    }
    m.transform = tf2::toMsg(x);
    m.header.stamp = st;
    m.header.frame_id = target;
    m.child_frame_id = source;
    return m;
  }
  geometry_msgs::TransformStamped lookupTransform(const std::string& target, const ros::Time& tt, const std::string& source, const ros::Time& ts,
                                                  const std::string& fixed, const ros::Duration timeout = ros::Duration(0.0)) const
  {
    (void)timeout;
    ros::Time a, b;
    const tf2::Transform x1 = shim::TfTree::get().lookup(fixed, source, ts, a);
    const tf2::Transform x2 = shim::TfTree::get().lookup(target, fixed, tt, b);
    geometry_msgs::TransformStamped m;
    m.transform = tf2::toMsg(x2 * x1);
    m.header.stamp = b;
    m.header.frame_id = target;
    m.child_frame_id = source;
    return m;
  }
  bool canTransform(const std::string& target, const std::string& source, const ros::Time& time, const ros::Duration timeout = ros::Duration(0.0),
                    std::string* err = nullptr) const
  {
    (void)timeout;
    try
    {
      ros::Time st;
      shim::TfTree::get().lookup(target, source, time, st);
      return true;
    }
    catch (tf2::TransformException& e)
    {
      if (err)
        *err = e.what();
      return false;
    }
  }
  bool canTransform(const std::string& target, const ros::Time& tt, const std::string& source, const ros::Time& ts, const std::string& fixed,
                    const ros::Duration timeout = ros::Duration(0.0), std::string* err = nullptr) const
  {
    return canTransform(fixed, source, ts, timeout, err) && canTransform(target, fixed, tt, timeout, err);
  }
  template <class T>
  T& transform(const T& in, T& out, const std::string& target, ros::Duration timeout = ros::Duration(0.0)) const
  {
    tf2::doTransform(in, out, lookupTransform(target, tf2::getFrameId(in), tf2::getTimestamp(in), timeout));
    return out;
  }
  template <class T>
  T transform(const T& in, const std::string& target, ros::Duration timeout = ros::Duration(0.0)) const
  {
    T out;
    return transform(in, out, target, timeout);
  }
  template <class T>
  T& transform(const T& in, T& out, const std::string& target, const ros::Time& tt, const std::string& fixed, ros::Duration timeout = ros::Duration(0.0)) const
  {
    tf2::doTransform(in, out, lookupTransform(target, tt, tf2::getFrameId(in), tf2::getTimestamp(in), fixed, timeout));
    return out;
  }
  template <class T>
  T transform(const T& in, const std::string& target, const ros::Time& tt, const std::string& fixed, ros::Duration timeout = ros::Duration(0.0)) const
  {
    T out;
    return transform(in, out, target, tt, fixed, timeout);
  }
  bool getFrames(...)
  {
    return true;
  }
  void setUsingDedicatedThread(bool)
  {
  }
};
}  // namespace tf2_ros
#endif
