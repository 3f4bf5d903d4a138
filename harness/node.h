// Node harness helpers: the node's main is compiled with -Dmain=node_main and driven by the ROS stand-in.
#ifndef NODE_H
#define NODE_H
#include <ros/ros.h>
#include "vf.h"
int node_main(int argc, char** argv);
namespace node
{
inline shim::Core& core()
{
  return shim::Core::get();
}
// runs main of the node under test; an exception leaving it would end the real process
inline int run()
{
  char name[] = "node";
  char* argv[] = {name, nullptr};
  try
  {
    return node_main(1, argv);
  }
  catch (std::exception& e)
  {
    vf::violation("crash:exception", std::string("an exception left the node: ") + e.what());
    return -1;
  }
}
template <class F>
void spinWith(F f)
{
  core().on_spin = f;
  run();
}
inline void advance(double s)
{
  core().now += ros::Duration(s);
}
}  // namespace node
#endif
