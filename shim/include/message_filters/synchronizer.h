#ifndef SHIM_MF_SYNC_H
#define SHIM_MF_SYNC_H
#include <message_filters/subscriber.h>
namespace message_filters
{
template <class Policy>
class Synchronizer
{
public:
  template <class S0, class S1>
  Synchronizer(const Policy& p, S0& a, S1& b)
    : p_(p)
  {
    a.connectTo([this](const boost::shared_ptr<typename Policy::M0 const>& m)
                { p_.add0(m); });
    b.connectTo([this](const boost::shared_ptr<typename Policy::M1 const>& m)
                { p_.add1(m); });
  }
  template <class F>
  void registerCallback(const F& f)
  {
    p_.out = [f](const boost::shared_ptr<typename Policy::M0 const>& a, const boost::shared_ptr<typename Policy::M1 const>& b)
    { f(a, b); };
  }

private:
  Policy p_;
};
}  // namespace message_filters
#endif
