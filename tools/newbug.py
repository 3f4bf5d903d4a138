"""Helper to write /verif/seeded/<id>/ from edits given as (file, old, new)."""
import json, os, subprocess, tempfile, shutil
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = """#!/bin/bash
# run with cwd /repo; exit 0 when the behaviour is right
set -u
export OMP_NUM_THREADS=1
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -r "$tmp"' EXIT
g++ -std=c++17 -O1 -w %s -Iplanner_cspace/include -Icostmap_cspace/include -Itrajectory_tracker/include -Itrack_odometry/include -I/usr/include/eigen3 -I"$here" "$here/demo.cpp" %s -o "$tmp/demo" || exit 99
timeout 120 "$tmp/demo"
"""


def bug(bid, prop, edits, needs, breaks, demo, flags="", tail="", extra=None):
    d = os.path.join(H, "seeded", bid)
    os.makedirs(d, exist_ok=True)
    tmp = tempfile.mkdtemp(prefix="nb_", dir="/tmp")
    w = os.path.join(tmp, "repo")
    subprocess.run(["git", "clone", "-q", "/repo", w], check=True)
    for f, old, new in edits:
        p = os.path.join(w, f)
        s = open(p).read()
        assert s.count(old) == 1, (bid, f, s.count(old), old)
        open(p, "w").write(s.replace(old, new))
    diff = subprocess.run(["git", "-C", w, "diff"], capture_output=True, text=True).stdout
    shutil.rmtree(tmp)
    open(os.path.join(d, "patch.diff"), "w").write(diff)
    open(os.path.join(d, "demo.cpp"), "w").write(demo)
    open(os.path.join(d, "demo.sh"), "w").write(DEMO % (flags, tail))
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    for n, t in (extra or {}).items():
        open(os.path.join(d, n), "w").write(t)
    json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(os.path.join(d, "meta.json"), "w"), indent=1)


NDEMO = """#!/bin/bash
# run with cwd /repo; exit 0 when the behaviour is right. shim.tgz stands in for ROS.
set -u
export OMP_NUM_THREADS=1
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -r "$tmp"' EXIT
tar xzf "$here/shim.tgz" -C "$tmp"
inc="-I$tmp/include -I$tmp/gen -I. -Iplanner_cspace/include -Icostmap_cspace/include -Itrajectory_tracker/include -Itrack_odometry/include -Ineonavigation_common/include -Imap_organizer/include -I/usr/include/eigen3"
objs=""
for s in %s; do
  o="$tmp/$(basename "$s").o"
  g++ -std=c++14 -O1 -w $inc -c "$s" -o "$o" || exit 99
  objs="$objs $o"
done
g++ -std=c++14 -O1 -w -fopenmp $inc -Dmain=node_main -c %s -o "$tmp/node.o" || exit 99
g++ -std=c++14 -O1 -w $inc -c "$here/demo.cpp" -o "$tmp/demo.o" || exit 99
g++ -fopenmp "$tmp/demo.o" "$tmp/node.o" $objs -o "$tmp/demo" -lboost_thread -lboost_system -lboost_chrono -lpthread || exit 99
cd "$tmp" && timeout 200 "$tmp/demo"
"""
HEAD = """#include <ros/ros.h>
#include <cmath>
#include <cstdio>
int node_main(int argc, char** argv);
static int run()
{
  char name[] = "node";
  char* argv[] = {name, nullptr};
  return node_main(1, argv);
}
"""


def node(bid, prop, edits, needs, breaks, src, demo, srcs=""):
    bug(bid, prop, edits, needs, breaks, HEAD + demo)
    d = os.path.join(H, "seeded", bid)
    open(os.path.join(d, "demo.sh"), "w").write(NDEMO % (srcs, src))
    subprocess.run(["tar", "czf", os.path.join(d, "shim.tgz"), "-C", os.path.join(H, "shim"), "include", "-C", os.path.join(H, "build"), "gen"], check=True)
