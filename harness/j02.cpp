// J02: joystick_mux node on arbitrary interleavings of two inputs and joystick messages.
#include "node.h"
#include <geometry_msgs/PoseStamped.h>
#include <sensor_msgs/Joy.h>
typedef geometry_msgs::PoseStamped Msg;
static void body(vf::Rng& r, long)
{
  auto& core = node::core();
  core.reset();
  const std::string ns = "/joystick_mux";
  double timeout = 0.5;
  int button = 5;
  if (r.p(0.8))
  {
    timeout = r.u(0, 1);
    button = r.i(0, 6);
    core.setParam(ns + "/timeout", timeout);
    core.setParam(ns + "/interrupt_button", button);
  }
  std::vector<Msg> out;
  core.observe<Msg>("/mux_output", [&](const Msg& t)
                    { out.push_back(t); });
  long alt = 0, main_ = 0, late = 0, switches = 0;
  node::spinWith([&]()
                 {
    bool pressed = false;
    ros::Time last_joy = core.now;
    const int steps = r.i(50, 250);
    const double pause = r.u(0.01, 0.2);
    long seq = 0;
    auto feed = [&](int id)
    {
      Msg m;
      m.header.stamp = core.now - ros::Duration(r.u(0, 3));
      m.header.frame_id = "f" + std::to_string(++seq);
      m.pose.position.x = r.u(-1, 1);
      m.pose.position.z = id;
      m.pose.orientation.w = r.u(-1, 1);
      out.clear();
      core.send<Msg>(id ? "/mux_input1" : "/mux_input0", m);
      core.drain();
      vf::evaluated(1);
      VF_CHECK(out.size() <= 1, "forwarded more than once", "%zu", out.size());
      if (!out.empty())
        VF_CHECK(out[0].header.stamp == m.header.stamp && out[0].header.frame_id == m.header.frame_id && out[0].pose.position.x == m.pose.position.x && out[0].pose.position.z == id && out[0].pose.orientation.w == m.pose.orientation.w,
                 "forwarded another message", "%s for %s", out[0].header.frame_id.c_str(), m.header.frame_id.c_str());
      return !out.empty();
    };
    auto both = [&]()
    {
      const bool first = r.p(0.5);
      const bool a = feed(first), b = feed(!first);
      VF_CHECK(a != b, "not exactly one input forwarded", "%d %d", a, b);
      const bool sel = a ? first : !first;
      const double age = (core.now - last_joy).toSec();
      if (!pressed)
        VF_CHECK(!sel, "alternative input though the button is not pressed", "age %g of %g", age, timeout);
      else if (age <= timeout)
        VF_CHECK(sel, "default input though the button is pressed", "age %g of %g", age, timeout);
      else if (age > timeout + 0.1 + 0.012)
        VF_CHECK(!sel, "alternative input after timeout", "age %g of %g", age, timeout);
      else
        late++;
      (sel ? alt : main_)++;
    };
    for (int i = 0; i < steps; i++)
    {
      double h = r.u(0, pause) + (r.p(0.05) ? timeout * r.u(0.8, 1.4) : 0);
      for (; h > 0; h -= 0.01)
      {
        node::advance(0.00913);
        core.drain();
        if (r.p(0.02))
          both();
      }
      if (r.p(0.5))
        both();
      else if (r.p(0.3))
        feed(r.p(0.5));
      if (r.p(0.4))
      {
        sensor_msgs::Joy j;
        const int nb = r.p(0.85) ? 7 : r.i(0, 7);
        for (int k = 0; k < nb; k++)
          j.buttons.push_back(r.p(0.5));
        if (button < nb && r.p(0.4))
          j.buttons[button] = pressed;
        out.clear();
        core.send<sensor_msgs::Joy>("/joy", j);
        core.drain();
        VF_CHECK(out.empty(), "forwarded a message without input", "%zu", out.size());
        if (button < nb)
        {
          switches += pressed != j.buttons[button];
          pressed = j.buttons[button];
          last_joy = core.now;
        }
        else
          vf::count("messages without the button");
        if (r.p(0.5))
          both();
      }
    } });
  vf::count("alternative forwarded", alt);
  vf::count("default forwarded", main_);
  vf::count("within the polling period", late);
  vf::count("switches", switches);
  if (alt > 3 && main_ > 3)
    vf::nontrivial(vf::hashAdd(vf::hashAdd(alt, timeout), main_));
}
int main(int argc, char** argv)
{
  return vf::run(argc, argv, body);
}
