// T05: paths written by trajectory_saver come back from trajectory_server; broken files and any editing sequence are survived.
#include "node.h"
#include <interactive_markers/interactive_marker_server.h>
#include <nav_msgs/Path.h>
#include <trajectory_tracker_msgs/ChangePath.h>
#include <trajectory_tracker_msgs/TrajectoryServerStatus.h>
#include <visualization_msgs/InteractiveMarkerFeedback.h>
#include <array>
#include <cmath>
#include <cstring>
#include <fstream>
#include <unistd.h>
#include <sys/stat.h>
int saver_main(int, char**);
int server_main(int, char**);
typedef std::array<double, 7> P7;
typedef std::vector<P7> Poses;
static int call(int (*f)(int, char**), std::string name)
{
  char* argv[] = { &name[0], nullptr };
  try
  {
    return f(1, argv);
  }
  catch (std::exception& e)
  {
    vf::violation("crash:exception", std::string("an exception left ") + name + ": " + e.what());
    return -1;
  }
}
static P7 p7(const geometry_msgs::Pose& p)
{
  return P7{ { p.position.x, p.position.y, p.position.z, p.orientation.x, p.orientation.y, p.orientation.z, p.orientation.w } };
}
static geometry_msgs::Pose msg(const P7& a)
{
  geometry_msgs::Pose p;
  p.position.x = a[0];
  p.position.y = a[1];
  p.position.z = a[2];
  p.orientation.x = a[3];
  p.orientation.y = a[4];
  p.orientation.z = a[5];
  p.orientation.w = a[6];
  return p;
}
static bool same(const Poses& a, const Poses& b)
{
  return a.size() == b.size() && (a.empty() || std::memcmp(a.data(), b.data(), a.size() * sizeof(P7)) == 0);
}
static Poses poses(const nav_msgs::Path& p)
{
  Poses v;
  for (auto& q : p.poses)
    v.push_back(p7(q.pose));
  return v;
}
// the wire format of nav_msgs/Path read on its own; false if it ends too early
static bool parse(const std::string& d, Poses& out, std::string& frame, uint32_t& count, bool& finite, bool& trailing)
{
  size_t o = 0;
  count = 0;
  finite = true;
  out.clear();
  auto u32 = [&](uint32_t& v)
  {
    if (d.size() - o < 4)
      return false;
    std::memcpy(&v, &d[o], 4);
    o += 4;
    return true;
  };
  auto header = [&](std::string& f)
  {
    uint32_t v, n;
    if (!u32(v) || !u32(v) || !u32(v) || !u32(n) || d.size() - o < n)
      return false;
    f = d.substr(o, n);
    o += n;
    return true;
  };
  uint32_t n;
  if (!header(frame) || !u32(n))
    return false;
  count = n;
  if (n > 20000)
    return false;
  std::string f;
  for (uint32_t i = 0; i < n; i++)
  {
    P7 p;
    if (!header(f) || d.size() - o < sizeof(p))
      return false;
    std::memcpy(&p, &d[o], sizeof(p));
    o += sizeof(p);
    for (int k = 0; k < 3; k++)
      finite = finite && std::fabs(p[k]) < 1e30;
    out.push_back(p);
  }
  trailing = o < d.size();
  return true;
}
static P7 rndPose(vf::Rng& r)
{
  const double a = r.u(-3, 3);
  return P7{ { r.u(-100, 100), r.u(-100, 100), r.p(0.5) ? 0 : r.u(-3, 3), 0, 0, std::sin(a / 2), std::cos(a / 2) } };
}
static void body(vf::Rng& r, long)
{
  auto& core = node::core();
  char dir[] = "/tmp/vf_t05_XXXXXX";
  if (!mkdtemp(dir))
    exit(3);
  const std::string base = dir;
  struct File
  {
    std::string name;
    Poses poses;
    std::string frame;
    int kind;  // 0 good, 1 must not load, 2 may load if it parses
  };
  std::vector<File> files;
  const int n = r.i(1, 3);
  for (int i = 0; i < n; i++)
  {
    nav_msgs::Path p;
    p.header.frame_id = r.pick({ "map", "odom", "a_very_long_frame_name/with/slashes" });
    const int len = r.p(0.1) ? 0 : r.p(0.1) ? 1 : r.i(2, 20);
    for (int k = 0; k < len; k++)
    {
      geometry_msgs::PoseStamped q;
      q.header.frame_id = r.p(0.8) ? p.header.frame_id : "";
      q.header.seq = k;
      q.pose = msg(k > 0 && r.p(0.1) ? p7(p.poses.back().pose) : rndPose(r));
      p.poses.push_back(q);
    }
    const std::string fn = base + "/" + std::to_string(i) + ".path";
    core.reset();
    core.setParam("/trajectory_saver/file", fn);
    int waits = r.i(0, 3);
    core.on_sleep = [&](const ros::Time&)
    {
      if (waits-- == 0)
        core.send("/path", p);
      if (waits < -3)
        core.ok = false;
    };
    call(saver_main, "trajectory_saver");
    VF_CHECK(core.ok, "saver-waits", "the saver goes on waiting after a path of %d poses", len);
    files.push_back(File{ fn, poses(p), p.header.frame_id, 0 });
    std::ifstream in(fn, std::ios::binary);
    const std::string d((std::istreambuf_iterator<char>(in)), std::istreambuf_iterator<char>());
    Poses back;
    std::string frame;
    uint32_t count;
    bool finite, trailing = false;
    VF_CHECK(parse(d, back, frame, count, finite, trailing) && same(back, poses(p)) && frame == p.header.frame_id && !trailing, "saved-file", "file of %zu bytes has %zu poses instead of %d", d.size(), back.size(), len);
    vf::count("paths saved", 1);
    // broken relatives of the file
    for (int b = 0; b < 3; b++)
    {
      std::string e = d;
      const int kind = r.i(0, 4);
      if (kind == 0)
        e = e.substr(0, r.i(0, std::max<int>(0, e.size() - 1)));
      else if (kind == 1)
        for (int k = r.i(1, 4); k > 0 && !e.empty(); k--)
          e[r.i(0, e.size() - 1)] ^= 1 << r.i(0, 7);
      else if (kind == 2)
        e += std::string(r.i(1, 50), static_cast<char>(r.i(0, 255)));
      else if (kind == 3)
      {
        e.resize(r.i(0, 200));
        for (auto& c : e)
          c = r.p(0.5) ? 0 : r.i(0, 255);
      }
      else if (e.size() > 100)
      {
        // a special number in the last poses
        const double v = r.pick({ static_cast<double>(NAN), static_cast<double>(INFINITY), 1e300, 1e39, -1e308 });
        std::memcpy(&e[e.size() - 8 * r.i(1, 7)], &v, 8);
      }
      File f;
      f.kind = parse(e, f.poses, f.frame, count, finite, trailing) ? 2 : 1;
      // counts that need gigabytes before the end of the file is noticed are left out
      if (f.kind == 1 && count > 20000)
        continue;
      f.name = fn + ".broken" + std::to_string(b);
      std::ofstream(f.name, std::ios::binary) << e;
      files.push_back(f);
    }
  }
  files.push_back(File{ base + "/missing.path", Poses(), "", 1 });
  files.push_back(File{ base, Poses(), "", 1 });
  files.push_back(File{ "", Poses(), "", 1 });

  core.reset();
  const double filter = r.p(0.25) ? r.u(0.5, 20) : 0;
  if (filter > 0)
    core.setParam("/trajectory_server/filter_step", filter);
  core.setParam("/trajectory_server/hz", r.u(1, 20));
  std::vector<nav_msgs::Path> got;
  trajectory_tracker_msgs::TrajectoryServerStatus status;
  core.observe<nav_msgs::Path>("/path", [&](const nav_msgs::Path& p) { got.push_back(p); });
  core.observe<trajectory_tracker_msgs::TrajectoryServerStatus>("/trajectory_server/status", [&](const trajectory_tracker_msgs::TrajectoryServerStatus& s) { status = s; });
  std::vector<Poses> alts(1);  // paths the server may hold
  std::string frame;
  int step = 0;
  const int steps = r.i(10, 40);
  long loads = 0, fails = 0, edits = 0;
  std::string want_file;
  int want_id = -1;
  uint64_t h = 0;
  auto published = [&](const char* what)
  {
    for (auto& g : got)
    {
      const Poses p = poses(g);
      bool ok = false;
      for (auto& a : alts)
        if (same(a, p))
        {
          alts = { Poses(a) };
          ok = true;
          break;
        }
      if (!VF_OK(ok, "invented-poses", "%s: path of %zu poses published, %zu were given", what, p.size(), alts.back().size()))
        alts = { p };
    }
    got.clear();
  };
  core.on_sleep = [&](const ros::Time&)
  {
    if (want_id >= 0)
      VF_CHECK(status.filename == want_file && status.id == want_id, "status", "status of %s (%d) instead of %s (%d)", status.filename.c_str(), static_cast<int>(status.id), want_file.c_str(), want_id);
    want_id = -1;
    if (step++ >= steps)
    {
      core.ok = false;
      return;
    }
    vf::evaluated(1);
    auto port = shim::imPort("trajectory_server");
    if (r.p(0.3))
    {
      const File& f = files[r.i(0, files.size() - 1)];
      trajectory_tracker_msgs::ChangePath srv;
      srv.request.filename = f.name;
      srv.request.id = r.i(0, 1000);
      srv.response.success = false;
      const bool ok = core.call("/change_path", srv) && srv.response.success;
      if (f.kind == 0)
        VF_CHECK(ok, "not-loaded", "%s with %zu poses was not loaded", f.name.c_str() + base.size(), f.poses.size());
      if (f.kind == 1)
        VF_CHECK(!ok, "loaded-broken", "loading %s is reported as success", f.name.size() > base.size() ? f.name.c_str() + base.size() : "a directory");
      if (ok && f.kind != 1)
      {
        loads++;
        h = vf::hashAdd(h, f.poses.size());
        want_file = f.name;
        want_id = srv.request.id;
        if (VF_OK(got.size() == 1, "load-publish", "%zu paths published on loading", got.size()))
        {
          const Poses p = poses(got[0]);
          frame = f.frame;
          VF_CHECK(got[0].header.frame_id == frame, "frame", "path in %s instead of %s", got[0].header.frame_id.c_str(), frame.c_str());
          if (filter == 0)
            VF_CHECK(same(p, f.poses), "loaded-path", "%zu poses loaded differ from %zu given", p.size(), f.poses.size());
          else
          {
            bool good = p.size() == f.poses.size();
            for (int k = 0; good && k < 7; k++)
            {
              double lo = 1e300, hi = -1e300;
              for (auto& q : f.poses)
              {
                lo = std::min(lo, q[k]);
                hi = std::max(hi, q[k]);
              }
              for (size_t i = 0; good && i < p.size(); i++)
                if (k < 2)
                {
                  const double e = 1e-4 * (1 + std::max(std::fabs(lo), std::fabs(hi))) * (1 + filter);
                  good = p[i][k] >= lo - e && p[i][k] <= hi + e && (i > 0 || std::fabs(p[i][k] - f.poses[i][k]) <= e);
                }
                else
                  good = std::memcmp(&p[i][k], &f.poses[i][k], 8) == 0;
            }
            VF_CHECK(good, "filtered-path", "filtered path of %zu poses leaves the range of %zu given poses", p.size(), f.poses.size());
          }
          alts = { p };
        }
        got.clear();
        VF_CHECK(port->shown.size() == alts[0].size(), "markers", "%zu markers for %zu poses", port->shown.size(), alts[0].size());
      }
      else
      {
        fails++;
        alts.push_back(Poses());
        published("after a failed load");
      }
    }
    else if (!port->shown.empty())
    {
      auto it = port->shown.begin();
      std::advance(it, r.i(0, port->shown.size() - 1));
      auto cb = it->second.second;
      auto fb = boost::make_shared<visualization_msgs::InteractiveMarkerFeedback>();
      fb->marker_name = it->first;
      const size_t id = atoi(it->first.c_str());
      const int what = r.i(0, 9);
      const P7 np = rndPose(r);
      typedef visualization_msgs::InteractiveMarkerFeedback F;
      edits++;
      if (what < 4)
      {
        fb->event_type = F::POSE_UPDATE;
        fb->pose = msg(np);
        for (auto& a : alts)
          if (id < a.size())
            a[id] = np;
      }
      else if (what < 6)
        fb->event_type = F::MOUSE_UP;
      else if (what < 9)
      {
        fb->event_type = F::MENU_SELECT;
        fb->menu_entry_id = r.p(0.05) ? 7 : r.i(1, 2);
        for (auto& a : alts)
          if (id < a.size())
          {
            if (fb->menu_entry_id == 1)
              a.erase(a.begin() + id);
            else if (fb->menu_entry_id == 2)
              a.insert(a.begin() + id, P7(a[id]));
          }
      }
      else
        fb->event_type = r.pick({ 0, 3, 4 });
      const bool sure = alts.size() == 1 && id < alts[0].size() + 1;
      const bool pub = what >= 4 && what < 9;
      cb(fb);
      if (pub && sure)
        VF_CHECK(!got.empty(), "edit-not-published", "no path published after editing pose %zu of %zu", id, alts[0].size());
      published("after editing");
      if (pub && alts.size() == 1 && fb->event_type == F::MENU_SELECT)
      {
        // markers show the poses
        bool ok = port->shown.size() == alts[0].size();
        for (size_t i = 0; ok && i < alts[0].size(); i++)
        {
          auto m = port->shown.find(std::to_string(i));
          ok = m != port->shown.end() && same(Poses{ p7(m->second.first.pose) }, Poses{ alts[0][i] });
        }
        if (alts[0].size() < 1000)
          VF_CHECK(ok, "markers", "%zu markers do not show the %zu poses of the edited path", port->shown.size(), alts[0].size());
      }
    }
  };
  call(server_main, "trajectory_server");
  for (auto& f : files)
    if (f.name.size() > base.size())
      unlink(f.name.c_str());
  rmdir(dir);
  vf::count("paths loaded", loads);
  vf::count("failed loads", fails);
  vf::count("edits", edits);
  if (loads && edits)
    vf::nontrivial(vf::hashAdd(h, edits));
}
int main(int argc, char** argv)
{
  return vf::run(argc, argv, body);
}
