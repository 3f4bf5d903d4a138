#ifndef SHIM_METRICS_HELPER_H
#define SHIM_METRICS_HELPER_H
#include <neonavigation_metrics_msgs/Metric.h>
#include <string>
#include <vector>
namespace neonavigation_metrics_msgs
{
template <typename V>
inline Metric metric(const std::string& name, const V& value, const std::string& unit)
{
  Metric m;
  m.name = name;
  m.value = static_cast<double>(value);
  m.unit = unit;
  return m;
}
inline Metric metric(const std::string& name, const double value, const std::string& unit, const std::vector<std::string>& tags)
{
  Metric m;
  m.name = name;
  m.value = value;
  m.unit = unit;
  m.tags = tags;
  return m;
}
}  // namespace neonavigation_metrics_msgs
#endif
