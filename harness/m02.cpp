// M02: floor maps written by save_maps and read by tie_maps come back the same; select_map follows selections and map set replacements.
#include "node.h"
#include <fstream>
#include <map_organizer_msgs/OccupancyGridArray.h>
#include <nav_msgs/OccupancyGrid.h>
#include <std_msgs/Int32.h>
#include <geometry_msgs/TransformStamped.h>
#include <sys/stat.h>
#include <unistd.h>
#include <cmath>
#include <set>
typedef nav_msgs::OccupancyGrid Grid;
typedef map_organizer_msgs::OccupancyGridArray Arr;
int save_main(int, char**);
int tie_main(int, char**);
int select_main(int, char**);
static Arr randomMaps(vf::Rng& r, int nmin, int nmax)
{
  Arr a;
  const int n = r.i(nmin, nmax);
  for (int i = 0; i < n; i++)
  {
    Grid g;
    g.header.frame_id = "map";
    g.info.width = r.p(0.1) ? 1 : r.i(1, 25);
    g.info.height = r.p(0.1) ? 1 : r.i(1, 25);
    g.info.resolution = r.pick({ 0.05, 0.1, 0.02, 0.5, 1.0, 1.0 / 3, 0.0333 });
    g.info.origin.position.x = r.p(0.2) ? 0 : r.u(-300, 300);
    g.info.origin.position.y = r.p(0.2) ? 0 : r.u(-300, 300);
    g.info.origin.position.z = r.p(0.2) ? 0 : r.u(-20, 50);
    const double yaw = r.p(0.5) ? 0 : r.u(-3.1, 3.1);
    g.info.origin.orientation.z = std::sin(yaw / 2);
    g.info.origin.orientation.w = std::cos(yaw / 2);
    for (unsigned k = 0; k < g.info.width * g.info.height; k++)
      g.data.push_back(r.p(0.6) ? 0 : r.p(0.5) ? 100 : -1);
    a.maps.push_back(g);
  }
  return a;
}
static int call(int (*f)(int, char**), std::vector<std::string> args)
{
  std::vector<char*> argv;
  for (auto& a : args)
    argv.push_back(&a[0]);
  argv.push_back(nullptr);
  try
  {
    return f(args.size(), argv.data());
  }
  catch (std::exception& e)
  {
    vf::violation("crash:exception", std::string("an exception left ") + args[0] + ": " + e.what());
    return -1;
  }
}
static void saveAndLoad(vf::Rng& r)
{
  auto& core = node::core();
  char cwd[4096], dir[] = "/tmp/vf_m02_XXXXXX";
  if (!getcwd(cwd, sizeof(cwd)) || !mkdtemp(dir))
    exit(fprintf(stderr, "no scratch directory\n") ? 3 : 3);
  const int style = r.i(0, 3);
  std::string base, sub = r.pick({ "floors", "a.b", "x-1" });
  mkdir((std::string(dir) + "/" + sub).c_str(), 0700);
  if (chdir(dir))
    exit(fprintf(stderr, "no scratch directory\n") ? 3 : 3);
  const std::string stem = r.pick({ "map", "building_a", "f", "map-2" });
  if (style == 0)
    base = std::string(dir) + "/" + stem;
  else if (style == 1)
    base = stem;
  else if (style == 2)
    base = sub + "/" + stem;
  else
    base = "./" + sub + "/../" + sub + "/" + stem;
  const Arr in = randomMaps(r, 1, r.p(0.1) ? 12 : 4);
  {
    core.reset();
    ros::NodeHandle nh;
    auto p = nh.advertise<Arr>("/maps", 1, true);
    p.publish(in);
    std::vector<std::string> args = { "save_maps", "-f", base };
    if (style == 1 && r.p(0.3) && stem == "map")
      args.resize(1);
    call(save_main, args);
  }
  // as many floors, in any selection and order, tied together
  std::vector<int> order;
  for (size_t i = 0; i < in.maps.size(); i++)
    order.push_back(i);
  if (r.p(0.3))
  {
    for (size_t i = order.size(); i > 1; i--)
      std::swap(order[i - 1], order[r.i(0, i - 1)]);
    if (r.p(0.5))
      order.push_back(order[0]);
  }
  std::string files;
  bool all = true;
  for (int i : order)
  {
    const std::string y = base + std::to_string(i) + ".yaml";
    all = all && access(y.c_str(), R_OK) == 0;
    files += (files.empty() ? "" : ",") + y;
  }
  // files written by hand may lack the height, and name the mode or an absolute image
  std::vector<bool> ground(in.maps.size(), false);
  if (all && r.p(0.4))
  {
    for (size_t i = 0; i < in.maps.size(); i++)
    {
      const std::string y = base + std::to_string(i) + ".yaml";
      const bool drop = r.p(0.5);
      ground[i] = drop;
      std::ifstream f(y);
      std::string text, line;
      while (std::getline(f, line))
        if (!drop || line.compare(0, 7, "height:"))
          text += line + "\n";
      f.close();
      if (r.p(0.3))
        text += "mode: trinary\n";
      std::ofstream(y) << text;
      if (drop)
        vf::count("files without height", 1);
    }
  }
  VF_CHECK(all, "not-saved", "not every one of %zu floors has been saved to %s", in.maps.size(), base.c_str());
  if (all)
  {
    core.reset();
    core.setParam("/tie_maps/map_files", files);
    const std::string frame = r.p(0.5) ? "map" : "floor_frame";
    if (frame != "map")
      core.setParam("/tie_maps/frame_id", frame);
    std::vector<Arr> out;
    std::vector<std::vector<Grid>> single(order.size());
    core.observe<Arr>("/maps", [&](const Arr& m) { out.push_back(m); });
    for (size_t i = 0; i < order.size(); i++)
      core.observe<Grid>("/map" + std::to_string(i), [&, i](const Grid& m) { single[i].push_back(m); });
    call(tie_main, { "tie_maps" });
    vf::evaluated(1);
    vf::count("map sets saved and loaded", 1);
    if (style >= 2)
      vf::count("map sets in relative directories", 1);
    if (VF_OK(out.size() == 1 && out[0].maps.size() == order.size(), "floors-loaded", "%zu arrays with %zu floors loaded from %zu files", out.size(), out.empty() ? 0 : out[0].maps.size(), order.size()))
    {
      uint64_t h = 0;
      for (size_t k = 0; k < order.size(); k++)
      {
        const Grid &a = in.maps[order[k]], &b = out[0].maps[k];
        VF_CHECK(a.info.width == b.info.width && a.info.height == b.info.height, "size", "floor %zu of %u x %u cells is %u x %u after loading", k, a.info.width, a.info.height, b.info.width, b.info.height);
        VF_CHECK(std::fabs(a.info.resolution - b.info.resolution) < 2e-6, "resolution", "floor %zu: resolution %.9g is %.9g after loading", k, a.info.resolution, b.info.resolution);
        const auto &pa = a.info.origin.position, &pb = b.info.origin.position;
        VF_CHECK(std::fabs(pa.x - pb.x) < 2e-6 && std::fabs(pa.y - pb.y) < 2e-6, "origin", "floor %zu: origin (%g, %g) is (%g, %g) after loading", k, pa.x, pa.y, pb.x, pb.y);
        const double z = ground[order[k]] ? 0 : pa.z;
        VF_CHECK(std::fabs(z - pb.z) < 2e-6, "height", "floor %zu: height %g is %g after loading", k, z, pb.z);
        const auto &qa = a.info.origin.orientation, &qb = b.info.origin.orientation;
        VF_CHECK(std::fabs(std::fabs(qa.z * qb.z + qa.w * qb.w + qa.x * qb.x + qa.y * qb.y) - 1) < 1e-9, "orientation", "floor %zu: orientation z %g w %g is z %g w %g after loading", k, qa.z, qa.w, qb.z, qb.w);
        if (a.data.size() == b.data.size())
        {
          for (size_t c = 0; c < a.data.size(); c++)
            if (!VF_OK(a.data[c] == b.data[c], "cells", "floor %zu: cell %zu of value %d is %d after loading", k, c, a.data[c], b.data[c]))
              break;
        }
        else
          VF_CHECK(false, "cells", "floor %zu: %zu cells are %zu after loading", k, a.data.size(), b.data.size());
        VF_CHECK(b.header.frame_id == frame, "frame", "floor %zu in frame %s instead of %s", k, b.header.frame_id.c_str(), frame.c_str());
        VF_CHECK(single[k].size() == 1 && single[k][0] == b, "single-map", "map%zu differs from floor %zu of the array (%zu messages)", k, k, single[k].size());
        h = vf::hashAdd(vf::hashAdd(h, a.info.width * 100 + a.info.height), pa.x);
      }
      vf::count("floors compared", order.size());
      vf::nontrivial(h);
    }
  }
  for (size_t i = 0; i < in.maps.size(); i++)
    for (const char* e : { ".pgm", ".yaml" })
      unlink((base + std::to_string(i) + e).c_str());
  if (chdir(cwd))
    exit(fprintf(stderr, "lost the working directory\n") ? 3 : 3);
  rmdir((std::string(dir) + "/" + sub).c_str());
  rmdir(dir);
}
static void selectFloors(vf::Rng& r)
{
  auto& core = node::core();
  core.reset();
  std::vector<Grid> published;
  std::vector<geometry_msgs::TransformStamped> tfs;
  core.observe<Grid>("/map", [&](const Grid& m) { published.push_back(m); });
  core.observe<geometry_msgs::TransformStamped>("/tf", [&](const geometry_msgs::TransformStamped& t) { tfs.push_back(t); });

  // the node keeps its state in globals: a run starts from an empty map set and floor 0
  Arr latest;
  int floor = 0, step = 0;
  bool shown = false, started = false;
  Grid current;
  double height = 0;
  const int steps = r.i(20, 60);
  uint64_t h = 0;
  bool pending_reset = true;
  bool any_maps = false;
  int changes = 0, repl = 0, oor = 0;
  core.on_sleep = [&](const ros::Time&)
  {
    if (started && !pending_reset)
    {
      // outcome of the previous cycle
      vf::evaluated(1);
      const bool in = floor >= 0 && floor < static_cast<int>(latest.maps.size());
      if (in)
      {
        Grid want = latest.maps[floor];
        height = want.info.origin.position.z;
        want.info.origin.position.z = 0;
        if (!shown || !(want == current))
          changes++;
        current = want;
        shown = true;
      }
      else if (!latest.maps.empty())
        oor++;
      if (shown)
      {
        if (VF_OK(!published.empty(), "no-map", "no map published with floor %d of %zu selected", floor, latest.maps.size()))
          VF_CHECK(published.back() == current, in ? "wrong-map" : "out-of-range",
                   "floor %d of %zu selected: published map is %u x %u at height %g, expected %u x %u at ground level", floor, latest.maps.size(), published.back().info.width,
                   published.back().info.height, published.back().info.origin.position.z, current.info.width, current.info.height);
      }
      else
        VF_CHECK(published.empty(), "early-map", "map published with floor %d of %zu selected", floor, latest.maps.size());
      if (shown && !latest.maps.empty())
      {
        if (VF_OK(!tfs.empty(), "no-transform", "no transform sent with floor %d of %zu selected", floor, latest.maps.size()))
        {
          const auto& t = tfs.back();
          VF_CHECK(t.header.frame_id == "map_ground" && t.child_frame_id == "map", "frames", "transform from %s to %s", t.header.frame_id.c_str(), t.child_frame_id.c_str());
          const auto &v = t.transform.translation;
          const auto& q = t.transform.rotation;
          VF_CHECK(std::fabs(v.z - height) < 1e-9 && v.x == 0 && v.y == 0 && q.x == 0 && q.y == 0 && q.z == 0 && std::fabs(q.w) == 1, "transform-height", "floor %d: transform to (%g, %g, %g) instead of height %g", floor, v.x, v.y, v.z, height);
          VF_CHECK(t.header.stamp >= core.now - ros::Duration(0.2), "transform-stamp", "transform is stamped %.3f s ago", (core.now - t.header.stamp).toSec());
        }
      }
    }
    if (step++ >= steps)
    {
      core.ok = false;
      return;
    }
    if (pending_reset)
    {
      if (step == 1)
      {
        std_msgs::Int32 f;
        f.data = 0;
        core.send("/floor", f);
        core.send("/maps", Arr());
        return;
      }
      pending_reset = false;
      published.clear();
      tfs.clear();
    }
    started = true;
    tfs.clear();
    if (r.p(0.15))
    {
      latest = r.p(0.05) ? Arr() : randomMaps(r, 1, 4);
      if (any_maps)
        repl++;
      any_maps = true;
      core.send("/maps", latest);
      h = vf::hashAdd(h, latest.maps.size());
    }
    if (r.p(0.3))
    {
      floor = r.p(0.75) ? r.i(0, 3) : r.pick({ -1, -2, 4, 100, 2147483647, -2147483647 - 1 });
      std_msgs::Int32 f;
      f.data = floor;
      core.send("/floor", f);
      h = vf::hashAdd(h, floor);
    }
  };
  call(select_main, { "select_map" });
  vf::count("selections histories", 1);
  vf::count("published floors changed", changes);
  vf::count("map sets replaced", repl);
  vf::count("cycles with an out-of-range floor", oor);
  if (changes > 1 && repl)
    vf::nontrivial(h);
}
static void body(vf::Rng& r, long)
{
  if (r.p(0.5))
    saveAndLoad(r);
  else
    selectFloors(r);
}
int main(int argc, char** argv)
{
  return vf::run(argc, argv, body);
}
