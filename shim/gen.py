#!/usr/bin/env python3
"""Generates message, service, action and dynamic_reconfigure headers for the in-process ROS stand-in.

usage: gen.py OUTDIR REPO
Messages come from msgs.txt beside this file, reconfigure structs from the cfg files of the repository under test.
"""
import os, re, sys, types

HERE = os.path.dirname(os.path.abspath(__file__))
OUT, REPO = sys.argv[1], sys.argv[2]

PRIM = {"bool": "uint8_t", "int8": "int8_t", "uint8": "uint8_t", "int16": "int16_t", "uint16": "uint16_t",
        "int32": "int32_t", "uint32": "uint32_t", "int64": "int64_t", "uint64": "uint64_t",
        "float32": "float", "float64": "double"}


def write(path, text):
    path = os.path.join(OUT, path)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    try:
        if open(path).read() == text:
            return
    except OSError:
        pass
    with open(path, "w") as f:
        f.write(text)


msgs = []
cur = None
for line in open(os.path.join(HERE, "msgs.txt")):
    line = line.strip()
    if not line:
        continue
    if line.startswith("==="):
        cur = (line[4:].strip(), [], [])
        msgs.append(cur)
        continue
    m = re.match(r"const (\S+) (\w+)=(.*)$", line)
    if m:
        cur[2].append(m.groups())
        continue
    t, n = line.split()
    cur[1].append((t, n))


def base(t):
    return re.sub(r"\[.*$", "", t)


def ctype(t):
    m = re.match(r"^(.*?)(\[(\d*)\])?$", t)
    b, arr, num = m.group(1), m.group(2), m.group(3)
    if b in PRIM:
        c = PRIM[b]
    elif b == "string":
        c = "std::string"
    elif b == "time":
        c = "ros::Time"
    elif b == "duration":
        c = "ros::Duration"
    else:
        c = "::" + b.replace("/", "::")
    if arr:
        return "boost::array<%s, %s>" % (c, num) if num else "std::vector<%s>" % c
    return c


def guard(s):
    return "SHIM_GEN_" + re.sub(r"\W", "_", s).upper()


for full, fields, consts in msgs:
    pkg, name = full.split("/")
    o = ["#ifndef " + guard(full), "#define " + guard(full), "#include <shim/msg_base.h>"]
    for t, _ in fields:
        if "/" in t:
            o.append("#include <%s.h>" % base(t))
    o.append("namespace %s\n{" % pkg)
    o.append("template <class ContainerAllocator>\nstruct %s_\n{" % name)
    o.append("  typedef %s_<ContainerAllocator> Type;" % name)
    for t, n in fields:
        o.append("  typedef %s _%s_type;" % (ctype(t), n))
        o.append("  _%s_type %s;" % (n, n))
    init = ", ".join("%s()" % n for _, n in fields)
    o.append("  %s_()%s\n  {" % (name, (" : " + init) if init else ""))
    for t, n in fields:
        if re.match(r".*\[\d+\]$", t) and base(t) in PRIM:
            o.append("    %s.assign(0);" % n)
    o.append("  }")
    if consts:
        o.append("  enum\n  {")
        for t, n, v in consts:
            o.append("    %s = %s," % (n, v))
        o.append("  };")
    o.append("  typedef boost::shared_ptr<%s_<ContainerAllocator>> Ptr;" % name)
    o.append("  typedef boost::shared_ptr<%s_<ContainerAllocator> const> ConstPtr;" % name)
    o.append("};")
    o.append("typedef %s_<std::allocator<void>> %s;" % (name, name))
    o.append("typedef boost::shared_ptr<%s> %sPtr;" % (name, name))
    o.append("typedef boost::shared_ptr<%s const> %sConstPtr;" % (name, name))
    eq = " && ".join("a.%s == b.%s" % (n, n) for _, n in fields) or "true"
    o.append("template <class A>\nbool operator==(const %s_<A>& a, const %s_<A>& b)\n{\n  (void)a;\n  (void)b;\n  return %s;\n}" % (name, name, eq))
    o.append("template <class A>\nbool operator!=(const %s_<A>& a, const %s_<A>& b)\n{\n  return !(a == b);\n}" % (name, name))
    o.append("}  // namespace %s" % pkg)
    o.append("namespace ros\n{\nnamespace message_traits\n{")
    o.append("template <class A>\nstruct DataType<::%s::%s_<A>>\n{\n  static const char* value()\n  {\n    return \"%s\";\n  }\n};" % (pkg, name, full))
    o.append("}\nnamespace serialization\n{")
    o.append("template <class A>\nstruct Serializer<::%s::%s_<A>>\n{\n  template <typename Stream, typename T>\n  static void allInOne(Stream& s, T& m)\n  {\n    (void)s;\n    (void)m;" % (pkg, name))
    for _, n in fields:
        o.append("    s.next(m.%s);" % n)
    o.append("  }\n};")
    o.append("}\n}\n#endif")
    write("%s/%s.h" % (pkg, name), "\n".join(o) + "\n")

for pkg, name in [("nav_msgs", "GetMap"), ("nav_msgs", "GetPlan"), ("std_srvs", "Empty"), ("trajectory_tracker_msgs", "ChangePath")]:
    write("%s/%s.h" % (pkg, name), """#ifndef {g}
#define {g}
#include <{p}/{n}Request.h>
#include <{p}/{n}Response.h>
namespace {p}
{{
struct {n}
{{
  typedef {n}Request Request;
  typedef {n}Response Response;
  Request request;
  Response response;
  typedef Request RequestType;
  typedef Response ResponseType;
}};
}}
#endif
""".format(g=guard(pkg + "/srv/" + name), p=pkg, n=name))

for pkg, name in [("move_base_msgs", "MoveBase"), ("planner_cspace_msgs", "MoveWithTolerance")]:
    write("%s/%sAction.h" % (pkg, name), """#ifndef {g}
#define {g}
#include <{p}/{n}Goal.h>
#include <{p}/{n}Result.h>
#include <{p}/{n}Feedback.h>
namespace {p}
{{
struct {n}Action
{{
  typedef {n}Goal Goal;
  typedef {n}Result Result;
  typedef {n}Feedback Feedback;
}};
}}
#endif
""".format(g=guard(pkg + "/action/" + name), p=pkg, n=name))

# ---- dynamic_reconfigure
current = []


class ParameterGenerator(object):
    def __init__(self):
        self.params = []
        self.groups = []

    def add(self, name, paramtype, level=0, description="", default=None, min=None, max=None, edit_method=""):
        self.params.append((name, paramtype, level, default, min, max))

    def add_group(self, *a, **k):
        return self

    def const(self, *a, **k):
        return {}

    def enum(self, *a, **k):
        return ""

    def generate(self, pkg, node, cls):
        current.append((pkg, cls, self.params))
        return 0


mod = types.ModuleType("dynamic_reconfigure.parameter_generator_catkin")
mod.ParameterGenerator = ParameterGenerator
mod.double_t, mod.int_t, mod.bool_t, mod.str_t = "double", "int", "bool", "std::string"
pk = types.ModuleType("dynamic_reconfigure")
pk.parameter_generator_catkin = mod
sys.modules["dynamic_reconfigure"] = pk
sys.modules["dynamic_reconfigure.parameter_generator_catkin"] = mod

for pkg in ("planner_cspace", "trajectory_tracker", "safety_limiter"):
    d = os.path.join(REPO, pkg, "cfg")
    if not os.path.isdir(d):
        continue
    for fn in sorted(os.listdir(d)):
        if not fn.endswith(".cfg"):
            continue
        try:
            exec(compile(open(os.path.join(d, fn)).read(), fn, "exec"), {"__name__": "__main__"})
        except SystemExit:
            pass


def lit(t, v):
    if t == "bool":
        return "true" if v else "false"
    if t == "double":
        return repr(float(v))
    if t == "int":
        return str(int(v))
    return '"%s"' % v


for pkg, cls, params in current:
    o = ["#ifndef " + guard(pkg + cls + "Config"), "#define " + guard(pkg + cls + "Config"),
         "#include <shim/msg_base.h>", "#include <limits>", "namespace %s\n{" % pkg, "class %sConfig\n{\npublic:" % cls]
    for n, t, lv, dflt, mn, mx in params:
        o.append("  %s %s;" % (t, n))
    o.append("  %sConfig()\n    %s\n  {\n  }" % (cls, "\n    ".join((": " if i == 0 else ", ") + "%s(%s)" % (p[0], lit(p[1], p[3])) for i, p in enumerate(params))))
    o.append("  template <class V>\n  void visit(V& v)\n  {")
    for n, t, lv, dflt, mn, mx in params:
        if t in ("double", "int") and mn is not None and mx is not None:
            o.append("    v(\"%s\", %s, %s, %s);" % (n, n, lit(t, mn), lit(t, mx)))
        else:
            o.append("    v(\"%s\", %s);" % (n, n))
    o.append("  }")
    o.append("  static %sConfig __getDefault__()\n  {\n    return %sConfig();\n  }" % (cls, cls))
    o.append("};\n}\n#endif")
    write("%s/%sConfig.h" % (pkg, cls), "\n".join(o) + "\n")
