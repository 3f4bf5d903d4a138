// J01: joystick_interrupt node on arbitrary interleavings of joystick and command messages.
#include "node.h"
#include <geometry_msgs/Twist.h>
#include <sensor_msgs/Joy.h>
#include <std_msgs/Bool.h>
#include <cmath>
typedef geometry_msgs::Twist Twist;
static bool same(const Twist& a, const Twist& b)
{
  return a.linear.x == b.linear.x && a.linear.y == b.linear.y && a.linear.z == b.linear.z && a.angular.x == b.angular.x && a.angular.y == b.angular.y && a.angular.z == b.angular.z;
}
static bool near(double a, double b)
{
  return std::fabs(a - b) <= 1e-6 * (1 + std::fabs(a));
}
static std::string str(const Twist& t)
{
  return vf::fmt("(%g %g %g %g %g %g)", t.linear.x, t.linear.y, t.linear.z, t.angular.x, t.angular.y, t.angular.z);
}
static void body(vf::Rng& r, long)
{
  auto& core = node::core();
  core.reset();
  const std::string ns = "/joystick_interrupt";
  const bool defaults = r.p(0.1);
  double lin = 0.5, ang = 0.8, liny = 0, ratio_l = 1.3, ratio_a = 1.1, timeout = 0.5;
  int ax = 1, aa = 0, ax2 = -1, aa2 = -1, ay = -1, ay2 = -1, button = 6, high = -1;
  if (!defaults)
  {
    lin = r.u(0, 2);
    ang = r.u(0, 2);
    liny = r.p(0.5) ? 0 : r.u(0, 2);
    ratio_l = r.u(0, 3);
    ratio_a = r.u(0, 3);
    timeout = r.p(0.1) ? 0 : r.u(0.05, 1);
    ax = r.i(0, 5);
    aa = r.i(0, 5);
    ax2 = r.i(-1, 5);
    aa2 = r.i(-1, 5);
    ay = r.i(-1, 5);
    ay2 = r.i(-1, 5);
    button = r.i(0, 6);
    high = r.i(-1, 6);
    if (r.p(0.02))
      (r.p(0.5) ? button : r.p(0.5) ? ax : aa) = -1;
    core.setParam(ns + "/linear_vel", lin);
    core.setParam(ns + "/angular_vel", ang);
    core.setParam(ns + "/linear_y_vel", liny);
    core.setParam(ns + "/linear_high_speed_ratio", ratio_l);
    core.setParam(ns + "/angular_high_speed_ratio", ratio_a);
    core.setParam(ns + "/timeout", timeout);
    core.setParam(ns + "/linear_axis", ax);
    core.setParam(ns + "/angular_axis", aa);
    core.setParam(ns + "/linear_axis2", ax2);
    core.setParam(ns + "/angular_axis2", aa2);
    core.setParam(ns + "/linear_y_axis", ay);
    core.setParam(ns + "/linear_y_axis2", ay2);
    core.setParam(ns + "/interrupt_button", button);
    core.setParam(ns + "/high_speed_button", high);
  }
  const bool invalid = button < 0 || ax < 0 || aa < 0;
  std::vector<Twist> out;
  std::vector<bool> status;
  core.observe<Twist>("/cmd_vel", [&](const Twist& t)
                      { out.push_back(t); });
  core.observe<std_msgs::Bool>(ns + "/interrupt_status", [&](const std_msgs::Bool& b)
                               { status.push_back(b.data); });
  bool held = false;
  ros::Time last_joy(0);
  Twist last_in;
  long blocked = 0, forwarded = 0, operated = 0, timeouts = 0, shorts = 0, released = 0;
  node::spinWith([&]()
                 {
    if (invalid)
    {
      VF_CHECK(!core.ok, "started with an invalid button or axis", "%d %d %d", button, ax, aa);
      return;
    }
    const int steps = r.i(50, 200);
    const double pause = r.u(0.01, 0.3);
    for (int i = 0; i < steps; i++)
    {
      node::advance(0.000731 + (r.p(0.2) ? 0 : r.u(0, pause)) + (r.p(0.05) ? timeout * r.u(0.8, 1.3) : 0));
      core.drain();
      out.clear();
      status.clear();
      vf::evaluated(1);
      if (r.p(0.5))
      {
        Twist t;
        t.linear.x = r.u(-1, 1);
        t.linear.y = r.p(0.5) ? 0 : r.u(-1, 1);
        t.linear.z = r.p(0.8) ? 0 : r.u(-1, 1);
        t.angular.x = r.p(0.8) ? 0 : r.u(-1, 1);
        t.angular.y = r.p(0.8) ? 0 : r.u(-1, 1);
        t.angular.z = r.u(-1, 1);
        core.send<Twist>("/cmd_vel_input", t);
        core.drain();
        last_in = t;
        const double age = (core.now - last_joy).toSec();
        const bool fresh = held && age <= timeout;
        VF_CHECK(status.size() == 1 && status[0] == !fresh, "interrupt status", "%zu status messages, %d, held %d age %g of %g", status.size(), status.empty() ? -1 : static_cast<int>(status[0]), held, age, timeout);
        if (fresh)
        {
          VF_CHECK(out.empty(), "input command passed while the operator has control", "%s", str(out.empty() ? t : out[0]).c_str());
          blocked++;
        }
        else
        {
          VF_CHECK(out.size() == 1 && same(out[0], t), "input command not forwarded unchanged exactly once", "%zu outputs, %s for %s, held %d age %g of %g", out.size(), out.empty() ? "" : str(out[0]).c_str(), str(t).c_str(), held, age, timeout);
          forwarded++;
          if (held)
            timeouts++;
        }
      }
      else
      {
        sensor_msgs::Joy j;
        const int na = r.p(0.7) ? 6 : r.i(0, 6), nb = r.p(0.85) ? 7 : r.i(0, 7);
        for (int k = 0; k < na; k++)
          j.axes.push_back(r.p(0.2) ? 0 : r.p(0.1) ? r.pick({-1.0, 1.0}) : r.u(-1, 1));
        for (int k = 0; k < nb; k++)
          j.buttons.push_back(r.p(0.5));
        if (button < nb && r.p(0.5))
          j.buttons[button] = held;
        core.send<sensor_msgs::Joy>("/joy", j);
        core.drain();
        VF_CHECK(status.empty(), "interrupt status without an input", "%zu", status.size());
        if (button >= nb)
        {
          VF_CHECK(out.empty(), "robot moved by a joystick message without the button", "%s", out.empty() ? "" : str(out[0]).c_str());
          held = false;
          shorts++;
        }
        else if (!j.buttons[button])
        {
          const bool fresh = held && (core.now - last_joy).toSec() <= timeout;
          if (fresh)
            VF_CHECK(out.size() == 1 && same(out[0], last_in), "latest input command not resumed on release", "%zu outputs, %s for %s", out.size(), out.empty() ? "" : str(out[0]).c_str(), str(last_in).c_str());
          else if (held)
            VF_CHECK(out.empty() || (out.size() == 1 && same(out[0], last_in)), "other than the latest input command on release", "%s", out.empty() ? "" : str(out[0]).c_str());
          else
            VF_CHECK(out.empty(), "robot moved by a joystick message without pressed button", "%s", out.empty() ? "" : str(out[0]).c_str());
          released += held;
          held = false;
        }
        else
        {
          held = true;
          last_joy = core.now;
          auto axis = [&](int a, int b)
          {
            const float x = a >= 0 && a < na ? j.axes[a] : 0, y = b >= 0 && b < na ? j.axes[b] : 0;
            return std::fabs(y) > std::fabs(x) ? y : x;
          };
          const bool fast = high >= 0 && high < nb && j.buttons[high];
          Twist e;
          e.linear.x = axis(ax, ax2) * lin * (fast ? ratio_l : 1);
          e.linear.y = axis(ay, ay2) * liny * (fast ? ratio_l : 1);
          e.angular.z = axis(aa, aa2) * ang * (fast ? ratio_a : 1);
          VF_CHECK(out.size() == 1 && near(out[0].linear.x, e.linear.x) && near(out[0].linear.y, e.linear.y) && near(out[0].angular.z, e.angular.z) && out[0].linear.z == 0 && out[0].angular.x == 0 && out[0].angular.y == 0,
                   "joystick command", "%zu outputs, %s, expected %s", out.size(), out.empty() ? "" : str(out[0]).c_str(), str(e).c_str());
          operated++;
          if (na < 6)
            vf::count("operations with few axes");
        }
      }
    } });
  vf::count("blocked", blocked);
  vf::count("forwarded", forwarded);
  vf::count("operated", operated);
  vf::count("forwarded after timeout", timeouts);
  vf::count("messages without the button", shorts);
  vf::count("released", released);
  vf::count("invalid settings", invalid);
  if (blocked > 3 && forwarded > 3 && released)
    vf::nontrivial(vf::hashAdd(vf::hashAdd(blocked, timeout), lin));
}
int main(int argc, char** argv)
{
  return vf::run(argc, argv, body);
}
