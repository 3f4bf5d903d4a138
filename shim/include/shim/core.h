// In-process stand-in for roscpp: simulated time, parameters, topics, services, timers. Single threaded and deterministic.
#ifndef SHIM_CORE_H
#define SHIM_CORE_H
#include <algorithm>
#include <climits>
#include <boost/bind/bind.hpp>
#include <boost/function.hpp>
#include <boost/make_shared.hpp>
#include <boost/shared_ptr.hpp>
#include <boost/thread.hpp>
#include <boost/weak_ptr.hpp>
#include <cassert>
#include <deque>
#include <functional>
#include <iostream>
#include <list>
#include <map>
#include <memory>
#include <ros/console.h>
#include <ros/serialization.h>
#include <ros/time.h>
#include <set>
#include <sstream>
#include <typeindex>
#include <unordered_map>
#include <utility>
#include <vector>
#include <xmlrpcpp/XmlRpcValue.h>

// roscpp pulls in the global boost placeholders
using namespace boost::placeholders;

namespace ros
{
typedef boost::shared_ptr<void const> VoidConstPtr;
typedef boost::shared_ptr<void> VoidPtr;
typedef boost::weak_ptr<void const> VoidConstWPtr;
typedef std::map<std::string, std::string> M_string;
typedef std::vector<std::string> V_string;

struct TimerEvent
{
  Time last_expected, last_real, current_expected, current_real;
  struct
  {
    WallDuration last_duration;
  } profile;
};
typedef boost::function<void(const TimerEvent&)> TimerCallback;
struct WallTimerEvent
{
  WallTime last_expected, last_real, current_expected, current_real;
};
typedef boost::function<void(const WallTimerEvent&)> WallTimerCallback;
typedef TimerEvent SteadyTimerEvent;
}  // namespace ros

namespace shim
{
struct AnyMsg
{
  boost::shared_ptr<void const> p;
  std::type_index type = typeid(void);
  std::string datatype;
  ros::Time published;
  template <class M>
  boost::shared_ptr<M const> as() const
  {
    if (type != typeid(M))
      return boost::shared_ptr<M const>();
    return boost::static_pointer_cast<M const>(p);
  }
};
struct Sub
{
  std::string topic;
  std::type_index type = typeid(void);  // void: any
  size_t queue = 0;
  bool alive = true;
  std::function<void(const AnyMsg&)> cb;
  bool tracked = false;
  boost::weak_ptr<void const> track;
};
struct Pub
{
  std::string topic;
  std::type_index type = typeid(void);
  std::string datatype;
  bool latch = false;
  bool alive = true;
  bool has = false;
  AnyMsg last;
};
struct Srv
{
  std::string name;
  std::function<bool(void*, void*)> cb;
  std::type_index req = typeid(void), res = typeid(void);
  bool alive = true;
};
struct TimerImpl
{
  ros::Duration period;
  ros::TimerCallback cb;
  bool oneshot = false, running = false;
  ros::Time next, last_expected, last_real;
  bool queued = false;
};
struct StopNode
{
};

class Core
{
public:
  static Core& get()
  {
    static Core* c = new Core();
    return *c;
  }
  void reset()
  {
    subs.clear();
    pubs.clear();
    srvs.clear();
    timers.clear();
    queue.clear();
    observers.clear();
    any_observers.clear();
    params = XmlRpc::XmlRpcValue();
    reconf.clear();
    extras.clear();
    now = ros::Time(1000, 0);
    ok = true;
    node = "/node";
    on_sleep = nullptr;
    on_spin = nullptr;
    on_spin_once = nullptr;
    logBuffer().clear();
    setParam("/neonavigation_compatible", 1);
    callbacks = 0;
    if (reset_tf)
      reset_tf();
  }
  // --- names
  std::string resolve(const std::string& ns, const std::string& n) const
  {
    if (n.empty())
      return ns.empty() ? "/" : ns;
    std::string r;
    if (n[0] == '/')
      r = n;
    else if (n[0] == '~')
      r = node + "/" + n.substr(1);
    else
      r = ns + "/" + n;
    std::string o;
    for (char c : r)
      if (!(c == '/' && !o.empty() && o.back() == '/'))
        o += c;
    if (o.size() > 1 && o.back() == '/')
      o.pop_back();
    return o;
  }
  // --- parameters
  XmlRpc::XmlRpcValue* findParam(const std::string& name, bool make)
  {
    XmlRpc::XmlRpcValue* v = &params;
    std::stringstream ss(name);
    std::string part;
    while (std::getline(ss, part, '/'))
    {
      if (part.empty())
        continue;
      if (!make && !v->hasMember(part))
        return nullptr;
      if (make && v->getType() != XmlRpc::XmlRpcValue::TypeStruct && v->valid())
        v->clear();
      v = &(*v)[part];
    }
    return v;
  }
  template <class T>
  void setParam(const std::string& name, const T& v)
  {
    *findParam(name, true) = XmlRpc::XmlRpcValue(v);
  }
  // --- topics
  void deliver(const boost::shared_ptr<Sub>& s, const AnyMsg& m)
  {
    if (!s->alive)
      return;
    if (s->type != typeid(void) && s->type != m.type)
      return;
    if (s->queue > 0)
    {
      size_t n = 0;
      auto first = queue.end();
      for (auto it = queue.begin(); it != queue.end(); ++it)
        if (it->sub == s)
        {
          if (n == 0)
            first = it;
          n++;
        }
      if (n >= s->queue)
      {
        queue.erase(first);
        dropped++;
      }
    }
    Entry e;
    e.sub = s;
    e.msg = m;
    queue.push_back(e);
  }
  void publish(const boost::shared_ptr<Pub>& p, AnyMsg m)
  {
    if (!p || !p->alive)
      return;
    m.published = now;
    if (p->latch)
    {
      p->last = m;
      p->has = true;
    }
    published++;
    publishOn(p->topic, m);
  }
  void publishOn(const std::string& topic, const AnyMsg& m)
  {
    auto r = observers.find(topic);
    if (r != observers.end())
    {
      auto copy = r->second;
      for (auto& o : copy)
        o(m);
    }
    for (auto& o : any_observers)
      o(topic, m);
    auto copy = subs;
    for (auto& s : copy)
      if (s->topic == topic)
        deliver(s, m);
  }
  // --- callbacks
  struct Entry
  {
    boost::shared_ptr<Sub> sub;
    boost::shared_ptr<TimerImpl> timer;
    std::function<void()> fn;
    AnyMsg msg;
  };
  void queueTimers()
  {
    for (auto it = timers.begin(); it != timers.end();)
    {
      boost::shared_ptr<TimerImpl> t = it->lock();
      if (!t)
      {
        it = timers.erase(it);
        continue;
      }
      ++it;
      if (t->running && !t->queued && t->next <= now)
      {
        t->queued = true;
        Entry e;
        e.timer = t;
        queue.push_back(e);
      }
    }
  }
  void callOne(Entry& e)
  {
    callbacks++;
    if (e.fn)
    {
      e.fn();
      return;
    }
    if (e.timer)
    {
      boost::shared_ptr<TimerImpl> t = e.timer;
      t->queued = false;
      if (!t->running)
        return;
      ros::TimerEvent ev;
      ev.last_expected = t->last_expected;
      ev.last_real = t->last_real;
      ev.current_expected = t->next;
      ev.current_real = now;
      t->last_expected = t->next;
      t->last_real = now;
      if (!t->oneshot)
      {
        t->next = t->next + t->period;
        // as roscpp: when overrun, skip what has been missed
        if (t->next < now)
          t->next = now;
      }
      t->cb(ev);
      // as roscpp: a fired one-shot timer stays started and is armed again by setPeriod(reset = true) only
      if (t->oneshot)
        t->next = ros::Time(INT_MAX, 999999999);
      return;
    }
    if (e.sub && e.sub->alive)
    {
      boost::shared_ptr<void const> hold;
      if (e.sub->tracked)
      {
        hold = e.sub->track.lock();
        if (!hold)
          return;
      }
      e.sub->cb(e.msg);
    }
  }
  // calls everything ready at the time of the call
  void spinOnce()
  {
    queueTimers();
    std::deque<Entry> batch;
    batch.swap(queue);
    while (!batch.empty())
    {
      Entry e = batch.front();
      batch.pop_front();
      if (!ok)
        continue;
      callOne(e);
    }
  }
  // runs until nothing is ready
  void drain(int limit = 1000)
  {
    queueTimers();
    while (!queue.empty() && ok && limit-- > 0)
    {
      spinOnce();
      if (queue.empty())
        break;
    }
  }
  void sleepUntil(const ros::Time& t)
  {
    if (on_sleep)
      on_sleep(t);
    if (now < t)
      now = t;
  }
  template <class M>
  static AnyMsg wrap(const boost::shared_ptr<M const>& p)
  {
    AnyMsg a;
    a.p = p;
    a.type = typeid(M);
    a.datatype = ros::message_traits::DataType<M>::value();
    return a;
  }
  // --- harness side
  template <class M>
  void send(const std::string& topic, const M& m)
  {
    AnyMsg a = wrap<M>(boost::make_shared<M>(m));
    a.published = now;
    publishOn(topic, a);
  }
  template <class M>
  void observe(const std::string& topic, std::function<void(const M&)> f)
  {
    auto g = [f, topic](const AnyMsg& a)
    {
      if (auto m = a.as<M>())
        f(*m);
      else
      {
        fprintf(stderr, "VF-HARNESS-ERROR observed type %s on %s is not the expected one\n", a.datatype.c_str(), topic.c_str());
        _exit(96);
      }
    };
    observers[topic].push_back(g);
    for (auto& p : pubs)
      if (p->topic == topic && p->has)
        g(p->last);
  }
  template <class S>
  bool call(const std::string& name, S& srv)
  {
    for (auto& s : srvs)
      if (s->alive && s->name == name && s->req == typeid(typename S::Request))
      {
        try
        {
          return s->cb(&srv.request, &srv.response);
        }
        catch (std::exception& e)
        {
          // as roscpp does
          logf(3, "Exception thrown while processing service call: %s", e.what());
          service_exceptions++;
          return false;
        }
      }
    return false;
  }
  bool hasService(const std::string& name) const
  {
    for (auto& s : srvs)
      if (s->alive && s->name == name)
        return true;
    return false;
  }
  int numSubs(const std::string& topic) const
  {
    int n = 0;
    for (auto& s : subs)
      n += s->alive && s->topic == topic;
    return n;
  }
  int numPubs(const std::string& topic) const
  {
    int n = 0;
    for (auto& s : pubs)
      n += s->alive && s->topic == topic;
    return n;
  }

  std::vector<boost::shared_ptr<Sub>> subs;
  std::vector<boost::shared_ptr<Pub>> pubs;
  std::vector<boost::shared_ptr<Srv>> srvs;
  std::list<boost::weak_ptr<TimerImpl>> timers;
  std::deque<Entry> queue;
  std::map<std::string, std::vector<std::function<void(const AnyMsg&)>>> observers;
  std::vector<std::function<void(const std::string&, const AnyMsg&)>> any_observers;
  XmlRpc::XmlRpcValue params;
  std::map<std::string, void*> reconf;       // dynamic_reconfigure servers by namespace
  std::map<std::string, std::shared_ptr<void>> extras;
  ros::Time now = ros::Time(1000, 0);
  bool ok = true;
  std::string node = "/node";
  std::function<void(const ros::Time&)> on_sleep;  // may inject messages; time advances after it
  std::function<void()> on_spin_once;               // before the node's ros::spinOnce()
  std::function<void()> on_spin;                   // body of ros::spin()
  std::function<void()> reset_tf;
  long dropped = 0, published = 0, callbacks = 0, service_exceptions = 0;
};

template <class P>
struct ParamAdapter;
template <class M>
struct ParamAdapter<const boost::shared_ptr<M const>&>
{
  typedef M Msg;
  static boost::shared_ptr<M const> get(const boost::shared_ptr<M const>& m)
  {
    return m;
  }
};
template <class M>
struct ParamAdapter<boost::shared_ptr<M const>>
{
  typedef M Msg;
  static boost::shared_ptr<M const> get(const boost::shared_ptr<M const>& m)
  {
    return m;
  }
};
template <class M>
struct ParamAdapter<const boost::shared_ptr<M>&>
{
  typedef M Msg;
  static boost::shared_ptr<M> get(const boost::shared_ptr<M const>& m)
  {
    return boost::make_shared<M>(*m);
  }
};
template <class M>
struct ParamAdapter<boost::shared_ptr<M>>
{
  typedef M Msg;
  static boost::shared_ptr<M> get(const boost::shared_ptr<M const>& m)
  {
    return boost::make_shared<M>(*m);
  }
};
template <class M>
struct ParamAdapter<const M&>
{
  typedef M Msg;
  static const M& get(const boost::shared_ptr<M const>& m)
  {
    return *m;
  }
};
template <class M>
struct ParamAdapter
{
  typedef M Msg;
  static M get(const boost::shared_ptr<M const>& m)
  {
    return *m;
  }
};
// lets a subscriber type see any message (topic_tools::ShapeShifter)
template <class M>
struct MsgCast
{
  static constexpr bool any = false;
  static boost::shared_ptr<M const> cast(const AnyMsg& a)
  {
    return a.as<M>();
  }
};
}  // namespace shim

namespace ros
{
inline Time Time::now()
{
  return shim::Core::get().now;
}
inline WallTime WallTime::now()
{
  return WallTime(shim::Core::get().now.sec, shim::Core::get().now.nsec);
}
inline bool Time::sleepUntil(const Time& t)
{
  shim::Core::get().sleepUntil(t);
  return true;
}
inline bool Duration::sleep() const
{
  shim::Core::get().sleepUntil(Time::now() + *this);
  return true;
}
inline bool WallDuration::sleep() const
{
  shim::Core::get().sleepUntil(Time::now() + Duration(sec, nsec));
  return true;
}
inline bool Rate::sleep()
{
  Time expected_end = start_ + expected_;
  Time actual_end = Time::now();
  if (actual_end < start_)
    expected_end = actual_end + expected_;
  Duration sleep_time = expected_end - actual_end;
  actual_ = actual_end - start_;
  start_ = expected_end;
  if (sleep_time <= Duration(0.0))
  {
    if (actual_end > expected_end + expected_)
      start_ = actual_end;
    // the loop is overloaded; still give the driver its turn
    shim::Core::get().sleepUntil(actual_end);
    return false;
  }
  shim::Core::get().sleepUntil(expected_end);
  return true;
}
inline bool ok()
{
  return shim::Core::get().ok;
}
inline bool isShuttingDown()
{
  return !ok();
}
inline bool isStarted()
{
  return true;
}
inline void shutdown()
{
  shim::Core::get().ok = false;
}
inline void requestShutdown()
{
  shim::Core::get().ok = false;
}
inline void spinOnce()
{
  if (shim::Core::get().on_spin_once)
    shim::Core::get().on_spin_once();
  shim::Core::get().spinOnce();
}
inline void spin()
{
  if (shim::Core::get().on_spin)
    shim::Core::get().on_spin();
}
inline void waitForShutdown()
{
  spin();
}
namespace init_options
{
enum InitOption
{
  NoSigintHandler = 1,
  AnonymousName = 2,
  NoRosout = 4
};
}
inline void init(int&, char**, const std::string& name, uint32_t = 0)
{
  shim::Core::get().node = "/" + name;
}
inline bool isInitialized()
{
  return true;
}
inline void start()
{
}
namespace this_node
{
inline const std::string& getName()
{
  return shim::Core::get().node;
}
inline const std::string& getNamespace()
{
  static const std::string s = "/";
  return s;
}
}  // namespace this_node
namespace names
{
inline std::string append(const std::string& a, const std::string& b)
{
  return shim::Core::get().resolve(a, b);
}
inline std::string resolve(const std::string& n, bool = true)
{
  return shim::Core::get().resolve("", n);
}
}  // namespace names

class TransportHints
{
public:
  TransportHints& tcp()
  {
    return *this;
  }
  TransportHints& reliable()
  {
    return *this;
  }
  TransportHints& unreliable()
  {
    return *this;
  }
  TransportHints& udp()
  {
    return *this;
  }
  TransportHints& tcpNoDelay(bool = true)
  {
    return *this;
  }
};
template <class M>
struct MsgEvent
{
};

class Publisher
{
public:
  Publisher()
  {
  }
  explicit Publisher(const boost::shared_ptr<shim::Pub>& p)
    : p_(p)
  {
  }
  template <class M>
  void publish(const boost::shared_ptr<M>& m) const
  {
    typedef typename std::remove_const<M>::type T;
    check(typeid(T));
    send<T>(boost::shared_ptr<T const>(m));
  }
  template <class M>
  void publish(const M& m) const
  {
    if (!p_)
    {
      shim::logf(4, "Call to publish() on an invalid Publisher");
      return;
    }
    check(typeid(M));
    send<M>(boost::make_shared<M>(m));
  }
  void publishAny(const shim::AnyMsg& a) const
  {
    shim::Core::get().publish(p_, a);
  }
  void shutdown()
  {
    if (p_)
      p_->alive = false;
    p_.reset();
  }
  std::string getTopic() const
  {
    return p_ ? p_->topic : std::string();
  }
  uint32_t getNumSubscribers() const
  {
    return p_ ? shim::Core::get().numSubs(p_->topic) : 0;
  }
  bool isLatched() const
  {
    return p_ && p_->latch;
  }
  operator void*() const
  {
    return p_ ? reinterpret_cast<void*>(1) : nullptr;
  }
  bool operator==(const Publisher& o) const
  {
    return p_ == o.p_;
  }
  bool operator!=(const Publisher& o) const
  {
    return p_ != o.p_;
  }
  bool operator<(const Publisher& o) const
  {
    return p_ < o.p_;
  }

private:
  template <class T>
  void send(const boost::shared_ptr<T const>& m) const
  {
    if (!p_)
      return;
    shim::Core::get().publish(p_, shim::Core::wrap<T>(m));
  }
  void check(const std::type_info& t) const
  {
    if (p_ && p_->type != t)
      shim::assertFail("ros::Publisher::publish", "message type matches the advertised one", p_->topic.c_str(), 0);
  }
  boost::shared_ptr<shim::Pub> p_;
};
class Subscriber
{
public:
  Subscriber()
  {
  }
  explicit Subscriber(const boost::shared_ptr<shim::Sub>& s)
    : s_(new Holder{s})
  {
  }
  void shutdown()
  {
    if (s_)
    {
      s_->s->alive = false;
      s_.reset();
    }
  }
  std::string getTopic() const
  {
    return s_ ? s_->s->topic : std::string();
  }
  uint32_t getNumPublishers() const
  {
    return s_ ? shim::Core::get().numPubs(s_->s->topic) : 0;
  }
  operator void*() const
  {
    return s_ ? reinterpret_cast<void*>(1) : nullptr;
  }
  bool operator==(const Subscriber& o) const
  {
    return s_ == o.s_;
  }

private:
  struct Holder
  {
    boost::shared_ptr<shim::Sub> s;
    ~Holder()
    {
      s->alive = false;
      auto& v = shim::Core::get().subs;
      v.erase(std::remove(v.begin(), v.end(), s), v.end());
    }
  };
  boost::shared_ptr<Holder> s_;
};
class ServiceServer
{
public:
  ServiceServer()
  {
  }
  explicit ServiceServer(const boost::shared_ptr<shim::Srv>& s)
    : s_(s)
  {
  }
  void shutdown()
  {
    if (s_)
      s_->alive = false;
    s_.reset();
  }
  std::string getService() const
  {
    return s_ ? s_->name : std::string();
  }
  operator void*() const
  {
    return s_ ? reinterpret_cast<void*>(1) : nullptr;
  }

private:
  boost::shared_ptr<shim::Srv> s_;
};
class ServiceClient
{
public:
  ServiceClient()
  {
  }
  explicit ServiceClient(const std::string& n)
    : n_(n)
  {
  }
  template <class S>
  bool call(S& s)
  {
    return shim::Core::get().call(n_, s);
  }
  template <class Q, class R>
  bool call(Q& q, R& r)
  {
    struct Pair
    {
      typedef Q Request;
      typedef R Response;
      Q request;
      R response;
    } p;
    p.request = q;
    const bool ok = shim::Core::get().call(n_, p);
    r = p.response;
    return ok;
  }
  bool exists()
  {
    return shim::Core::get().hasService(n_);
  }
  bool waitForExistence(Duration = Duration(-1, 0))
  {
    return exists();
  }
  bool isValid() const
  {
    return !n_.empty();
  }
  std::string getService()
  {
    return n_;
  }
  operator void*() const
  {
    return n_.empty() ? nullptr : reinterpret_cast<void*>(1);
  }

private:
  std::string n_;
};
class Timer
{
public:
  Timer()
  {
  }
  explicit Timer(const boost::shared_ptr<shim::TimerImpl>& t)
    : t_(t)
  {
  }
  void start()
  {
    if (t_ && !t_->running)
    {
      t_->running = true;
      t_->last_expected = Time::now();
      t_->next = Time::now() + t_->period;
    }
  }
  void stop()
  {
    if (t_)
    {
      t_->running = false;
      t_->queued = false;
      auto& q = shim::Core::get().queue;
      for (auto it = q.begin(); it != q.end();)
        it = it->timer == t_ ? q.erase(it) : it + 1;
    }
  }
  bool hasPending()
  {
    return t_ && (t_->queued || t_->next <= Time::now());
  }
  void setPeriod(const Duration& p, bool reset = true)
  {
    if (!t_)
      return;
    t_->period = p;
    if (!t_->running)
      return;
    if (reset)
    {
      // as roscpp: a call already queued still happens
      t_->next = Time::now() + p;
    }
    else
    {
      // as roscpp's TimerManager::setPeriod(reset = false): from the last call, or at once when that is past
      const Time n = t_->last_real.isZero() ? t_->last_expected + p : t_->last_real + p;
      t_->next = n < Time::now() ? Time::now() : n;
    }
  }
  bool hasStarted() const
  {
    return t_ && t_->running;
  }
  bool isValid() const
  {
    return static_cast<bool>(t_);
  }
  operator void*() const
  {
    return t_ ? reinterpret_cast<void*>(1) : nullptr;
  }
  bool operator==(const Timer& o) const
  {
    return t_ == o.t_;
  }

private:
  boost::shared_ptr<shim::TimerImpl> t_;
};
typedef Timer SteadyTimer;
class WallTimer : public Timer
{
public:
  using Timer::Timer;
  WallTimer()
  {
  }
  WallTimer(const Timer& t)
    : Timer(t)
  {
  }
};

class InvalidNameException : public ros::Exception
{
public:
  using ros::Exception::Exception;
};

class NodeHandle
{
public:
  NodeHandle(const std::string& ns = std::string(), const M_string& = M_string())
    : unresolved_(ns)
  {
    auto& c = shim::Core::get();
    if (ns.empty())
      ns_ = "";
    else if (ns == "/")
      ns_ = "";
    else if (ns[0] == '~')
      ns_ = c.resolve("", ns == "~" ? c.node : c.node + "/" + ns.substr(1));
    else
      ns_ = c.resolve("", ns[0] == '/' ? ns : "/" + ns);
    if (ns == "~")
      unresolved_ = c.node;
    if (ns_ == "/")
      ns_ = "";
  }
  NodeHandle(const NodeHandle& p, const std::string& ns)
    : unresolved_(ns)
  {
    ns_ = shim::Core::get().resolve(p.ns_, ns);
    if (ns_ == "/")
      ns_ = "";
  }
  NodeHandle(const NodeHandle& p, const std::string& ns, const M_string&)
    : NodeHandle(p, ns)
  {
  }
  NodeHandle(const NodeHandle&) = default;
  NodeHandle& operator=(const NodeHandle&) = default;
  const std::string& getNamespace() const
  {
    static const std::string root = "/";
    return ns_.empty() ? root : ns_;
  }
  const std::string& getUnresolvedNamespace() const
  {
    return unresolved_;
  }
  std::string resolveName(const std::string& n, bool = true) const
  {
    return shim::Core::get().resolve(ns_, n);
  }
  bool ok() const
  {
    return ros::ok();
  }
  void shutdown()
  {
  }
  // --- topics
  template <class M>
  Publisher advertise(const std::string& topic, uint32_t, bool latch = false)
  {
    return advertiseRaw(topic, typeid(M), message_traits::DataType<M>::value(), latch);
  }
  Publisher advertiseRaw(const std::string& topic, std::type_index type, const std::string& dt, bool latch)
  {
    auto p = boost::make_shared<shim::Pub>();
    p->topic = resolveName(topic);
    p->type = type;
    p->datatype = dt;
    p->latch = latch;
    shim::Core::get().pubs.push_back(p);
    return Publisher(p);
  }
  // M given or deduced, member function taking the message pointer
  template <class M, class T>
  Subscriber subscribe(const std::string& t, uint32_t q, void (T::*fp)(M), T* obj, const TransportHints& = TransportHints())
  {
    return add<M>(t, q, [fp, obj](auto&& m)
                  { (obj->*fp)(m); });
  }
  template <class M, class T>
  Subscriber subscribe(const std::string& t, uint32_t q, void (T::*fp)(M) const, T* obj, const TransportHints& = TransportHints())
  {
    return add<M>(t, q, [fp, obj](auto&& m)
                  { (obj->*fp)(m); });
  }
  template <class M, class T>
  Subscriber subscribe(const std::string& t, uint32_t q, void (T::*fp)(const boost::shared_ptr<M const>&), T* obj, const TransportHints& = TransportHints())
  {
    return add<const boost::shared_ptr<M const>&>(t, q, [fp, obj](const boost::shared_ptr<M const>& m)
                                                  { (obj->*fp)(m); });
  }
  template <class M, class T>
  Subscriber subscribe(const std::string& t, uint32_t q, void (T::*fp)(const boost::shared_ptr<M const>&) const, T* obj, const TransportHints& = TransportHints())
  {
    return add<const boost::shared_ptr<M const>&>(t, q, [fp, obj](const boost::shared_ptr<M const>& m)
                                                  { (obj->*fp)(m); });
  }
  template <class M, class T>
  Subscriber subscribe(const std::string& t, uint32_t q, void (T::*fp)(M), const boost::shared_ptr<T>& obj, const TransportHints& = TransportHints())
  {
    T* o = obj.get();
    return add<M>(t, q, [fp, o](auto&& m)
                  { (o->*fp)(m); },
                  obj);
  }
  template <class M>
  Subscriber subscribe(const std::string& t, uint32_t q, void (*fp)(M), const TransportHints& = TransportHints())
  {
    return add<M>(t, q, [fp](auto&& m)
                  { fp(m); });
  }
  template <class M>
  Subscriber subscribe(const std::string& t, uint32_t q, void (*fp)(const boost::shared_ptr<M const>&), const TransportHints& = TransportHints())
  {
    return add<const boost::shared_ptr<M const>&>(t, q, [fp](const boost::shared_ptr<M const>& m)
                                                  { fp(m); });
  }
  template <class M>
  Subscriber subscribe(const std::string& t, uint32_t q, const boost::function<void(const boost::shared_ptr<M const>&)>& cb,
                       const VoidConstPtr& tracked = VoidConstPtr(), const TransportHints& = TransportHints())
  {
    return add<const boost::shared_ptr<M const>&>(t, q, [cb](const boost::shared_ptr<M const>& m)
                                                  { cb(m); },
                                                  tracked);
  }
  template <class M, class C>
  Subscriber subscribe(const std::string& t, uint32_t q, const boost::function<void(C)>& cb,
                       const VoidConstPtr& tracked = VoidConstPtr(), const TransportHints& = TransportHints())
  {
    return add<C>(t, q, [cb](auto&& m)
                  { cb(m); },
                  tracked);
  }
  // --- services
  template <class T, class Q, class R>
  ServiceServer advertiseService(const std::string& n, bool (T::*f)(Q&, R&), T* obj)
  {
    return addSrv<Q, R>(n, [f, obj](Q& q, R& r)
                        { return (obj->*f)(q, r); });
  }
  template <class T, class Q, class R>
  ServiceServer advertiseService(const std::string& n, bool (T::*f)(Q&, R&), const boost::shared_ptr<T>& obj)
  {
    return addSrv<Q, R>(n, [f, obj](Q& q, R& r)
                        { return (obj.get()->*f)(q, r); });
  }
  template <class Q, class R>
  ServiceServer advertiseService(const std::string& n, bool (*f)(Q&, R&))
  {
    return addSrv<Q, R>(n, [f](Q& q, R& r)
                        { return f(q, r); });
  }
  template <class Q, class R>
  ServiceServer advertiseService(const std::string& n, const boost::function<bool(Q&, R&)>& f, const VoidConstPtr& = VoidConstPtr())
  {
    return addSrv<Q, R>(n, [f](Q& q, R& r)
                        { return f(q, r); });
  }
  template <class S>
  ServiceClient serviceClient(const std::string& n, bool = false)
  {
    return ServiceClient(resolveName(n));
  }
  template <class Q, class R>
  ServiceClient serviceClient(const std::string& n, bool = false)
  {
    return ServiceClient(resolveName(n));
  }
  // --- timers
  template <class H, class T>
  Timer createTimer(Duration p, void (T::*f)(const H&), T* obj, bool oneshot = false, bool autostart = true) const
  {
    return mkTimer(p, [f, obj](const TimerEvent& e)
                   { (obj->*f)(e); },
                   oneshot, autostart);
  }
  template <class T>
  Timer createTimer(Duration p, void (T::*f)(const TimerEvent&) const, T* obj, bool oneshot = false, bool autostart = true) const
  {
    return mkTimer(p, [f, obj](const TimerEvent& e)
                   { (obj->*f)(e); },
                   oneshot, autostart);
  }
  template <class H, class T>
  Timer createTimer(Rate r, void (T::*f)(const H&), T* obj, bool oneshot = false, bool autostart = true) const
  {
    return createTimer(r.expectedCycleTime(), f, obj, oneshot, autostart);
  }
  Timer createTimer(Duration p, const TimerCallback& f, bool oneshot = false, bool autostart = true) const
  {
    return mkTimer(p, f, oneshot, autostart);
  }
  template <class T>
  WallTimer createWallTimer(WallDuration p, void (T::*f)(const WallTimerEvent&), T* obj, bool oneshot = false, bool autostart = true) const
  {
    return mkTimer(Duration(p.sec, p.nsec), [f, obj](const TimerEvent&)
                   { WallTimerEvent w; (obj->*f)(w); },
                   oneshot, autostart);
  }
  // --- parameters
  bool hasParam(const std::string& k) const
  {
    auto* v = shim::Core::get().findParam(resolveName(k), false);
    return v && v->valid();
  }
  template <class T>
  bool getParam(const std::string& k, T& out) const
  {
    auto* v = shim::Core::get().findParam(resolveName(k), false);
    if (!v || !v->valid())
      return false;
    return conv(*v, out);
  }
  template <class T>
  bool getParamCached(const std::string& k, T& out) const
  {
    return getParam(k, out);
  }
  template <class T>
  bool param(const std::string& k, T& out, const T& def) const
  {
    if (hasParam(k) && getParam(k, out))
      return true;
    out = def;
    return false;
  }
  template <class T>
  T param(const std::string& k, const T& def) const
  {
    T v;
    param(k, v, def);
    return v;
  }
  std::string param(const std::string& k, const char* def) const
  {
    return param<std::string>(k, std::string(def));
  }
  void setParam(const std::string& k, const XmlRpc::XmlRpcValue& v) const
  {
    *shim::Core::get().findParam(resolveName(k), true) = v;
  }
  bool deleteParam(const std::string& k) const
  {
    auto* v = shim::Core::get().findParam(resolveName(k), false);
    if (!v)
      return false;
    v->clear();
    return true;
  }
  bool searchParam(const std::string& k, std::string& r) const
  {
    r = resolveName(k);
    return hasParam(k);
  }

private:
  typedef XmlRpc::XmlRpcValue XV;
  static bool conv(const XV& v, XV& o)
  {
    o = v;
    return true;
  }
  static bool conv(const XV& v, std::string& o)
  {
    if (v.getType() != XV::TypeString)
      return false;
    o = static_cast<const std::string&>(v);
    return true;
  }
  static bool conv(const XV& v, double& o)
  {
    if (v.getType() == XV::TypeInt)
      o = static_cast<const int&>(v);
    else if (v.getType() == XV::TypeDouble)
      o = static_cast<const double&>(v);
    else
      return false;
    return true;
  }
  static bool conv(const XV& v, float& o)
  {
    double d;
    if (!conv(v, d))
      return false;
    o = static_cast<float>(d);
    return true;
  }
  static bool conv(const XV& v, int& o)
  {
    if (v.getType() == XV::TypeDouble)
    {
      double d = static_cast<const double&>(v);
      if (std::fmod(d, 1.0) < 0.5)
        d = std::floor(d);
      else
        d = std::ceil(d);
      o = static_cast<int>(d);
    }
    else if (v.getType() == XV::TypeInt)
      o = static_cast<const int&>(v);
    else
      return false;
    return true;
  }
  static bool conv(const XV& v, bool& o)
  {
    if (v.getType() != XV::TypeBoolean)
      return false;
    o = static_cast<const bool&>(v);
    return true;
  }
  template <class T>
  static bool conv(const XV& v, std::vector<T>& o)
  {
    if (v.getType() != XV::TypeArray)
      return false;
    o.resize(v.size());
    for (int i = 0; i < v.size(); i++)
    {
      T t;
      if (!conv(v[i], t))
        return false;
      o[i] = t;
    }
    return true;
  }
  template <class T>
  static bool conv(const XV& v, std::map<std::string, T>& o)
  {
    if (v.getType() != XV::TypeStruct)
      return false;
    for (auto& e : v)
    {
      T t;
      if (!conv(e.second, t))
        return false;
      o[e.first] = t;
    }
    return true;
  }
  template <class P, class F>
  Subscriber add(const std::string& topic, uint32_t q, F f, const VoidConstPtr& tracked = VoidConstPtr())
  {
    typedef shim::ParamAdapter<P> A;
    typedef typename std::remove_const<typename std::remove_reference<typename A::Msg>::type>::type M;
    auto s = boost::make_shared<shim::Sub>();
    auto& c = shim::Core::get();
    s->topic = resolveName(topic);
    s->type = shim::MsgCast<M>::any ? std::type_index(typeid(void)) : std::type_index(typeid(M));
    s->queue = q;
    s->tracked = static_cast<bool>(tracked);
    s->track = tracked;
    s->cb = [f](const shim::AnyMsg& a)
    {
      const boost::shared_ptr<M const> m = shim::MsgCast<M>::cast(a);
      f(A::get(m));
    };
    c.subs.push_back(s);
    // latched messages
    for (auto& p : c.pubs)
      if (p->alive && p->latch && p->has && p->topic == s->topic)
        c.deliver(s, p->last);
    return Subscriber(s);
  }
  template <class Q, class R, class F>
  ServiceServer addSrv(const std::string& n, F f)
  {
    auto s = boost::make_shared<shim::Srv>();
    s->name = resolveName(n);
    s->req = typeid(Q);
    s->res = typeid(R);
    s->cb = [f](void* q, void* r)
    { return f(*static_cast<Q*>(q), *static_cast<R*>(r)); };
    shim::Core::get().srvs.push_back(s);
    return ServiceServer(s);
  }
  Timer mkTimer(const Duration& p, const TimerCallback& f, bool oneshot, bool autostart) const
  {
    auto t = boost::make_shared<shim::TimerImpl>();
    t->period = p;
    t->cb = f;
    t->oneshot = oneshot;
    shim::Core::get().timers.push_back(t);
    Timer r(t);
    if (autostart)
      r.start();
    return r;
  }
  std::string ns_, unresolved_;
};
namespace param
{
template <class T>
bool get(const std::string& k, T& v)
{
  return NodeHandle().getParam(k, v);
}
inline bool has(const std::string& k)
{
  return NodeHandle().hasParam(k);
}
template <class T>
bool param(const std::string& k, T& v, const T& d)
{
  return NodeHandle().param(k, v, d);
}
template <class T>
T param(const std::string& k, const T& d)
{
  return NodeHandle().param(k, d);
}
inline void set(const std::string& k, const XmlRpc::XmlRpcValue& v)
{
  NodeHandle().setParam(k, v);
}
}  // namespace param
class AsyncSpinner
{
public:
  explicit AsyncSpinner(uint32_t)
  {
  }
  void start()
  {
  }
  void stop()
  {
  }
};
namespace topic
{
template <class M>
boost::shared_ptr<M const> waitForMessage(const std::string&, NodeHandle&, Duration = Duration())
{
  return boost::shared_ptr<M const>();
}
}  // namespace topic
}  // namespace ros
#endif
