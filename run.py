#!/usr/bin/env python3
"""Builds and runs one check.

  run.py <ID> quick|thorough      run the check of property <ID>
  run.py replay <file>            re-run the case a replay file names
  run.py setup                    sanity check of the tools needed
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, subprocess, sys, time

HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VF_REPO", "/repo")
BUILD = os.environ.get("VF_BUILD", os.path.join(HERE, "build"))
sys.path.insert(0, HERE)
from checks import CHECKS, INCLUDES, EXTRA_HASH  # noqa: E402

JOBS = os.cpu_count() or 8
SAN = {
    "asan": ["-fsanitize=address,undefined,float-cast-overflow", "-fno-sanitize=vptr", "-fno-sanitize-recover=all",
             "-fno-omit-frame-pointer"],
    "ubsan": ["-fsanitize=undefined,float-cast-overflow", "-fno-sanitize=vptr", "-fno-sanitize-recover=all",
              "-fno-omit-frame-pointer"],
    "tsan": ["-fsanitize=thread", "-fno-omit-frame-pointer"],
    "none": [],
}
WARN = ["-w"]


class BuildError(Exception):
    pass


def sh(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        h.update(f.read())
    return h.hexdigest()


_hash_cache = {}


def fhash(path):
    if path not in _hash_cache:
        try:
            _hash_cache[path] = sh(path)
        except OSError:
            _hash_cache[path] = "missing"
    return _hash_cache[path]


def parse_deps(d):
    try:
        t = open(d).read()
    except OSError:
        return None
    t = t.replace("\\\n", " ")
    return [x for x in t.split(":", 1)[1].split()] if ":" in t else None


def gen_headers():
    out = os.path.join(BUILD, "gen")
    os.makedirs(out, exist_ok=True)
    r = subprocess.run([sys.executable, os.path.join(HERE, "shim", "gen.py"), out, REPO], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("message generation failed:\n" + r.stderr)
    return out


def compile_one(cmd, src, tag):
    """Object files are reused only while the command and the content of every dependency are the same."""
    key = hashlib.sha256((" ".join(cmd) + src).encode()).hexdigest()[:20]
    d = os.path.join(BUILD, "obj")
    os.makedirs(d, exist_ok=True)
    obj, dep, meta = (os.path.join(d, key + e) for e in (".o", ".d", ".h"))
    deps = parse_deps(dep) if os.path.exists(obj) and os.path.exists(meta) else None
    if deps:
        cur = {p: fhash(p) for p in deps if p.startswith(("/repo", HERE, REPO, BUILD))}
        try:
            if json.load(open(meta)) == cur:
                return obj
        except ValueError:
            pass
    tmp = obj + ".tmp%d" % os.getpid()
    r = subprocess.run(cmd + ["-MMD", "-MF", dep, "-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode:
        raise BuildError("compile failed: %s\n%s" % (src, r.stderr[-6000:]))
    os.replace(tmp, obj)
    deps = parse_deps(dep) or []
    json.dump({p: fhash(p) for p in deps if p.startswith(("/repo", HERE, REPO, BUILD))}, open(meta, "w"))
    return obj


def build(units):
    """Builds all units' binaries; returns their paths."""
    gen = gen_headers() if any(u.get("shim", True) for u in units) else None
    jobs, plan = [], []
    for u in units:
        san = u.get("san", "asan")
        flags = ["g++", "-std=" + u.get("std", "gnu++17"), u.get("opt", "-O1"), "-g1"] + SAN[san] + WARN
        if u.get("omp"):
            flags += ["-fopenmp"]
        flags += u.get("flags", [])
        flags += ["-I" + os.path.join(HERE, "harness")]
        if u.get("shim", True):
            flags += ["-I" + os.path.join(HERE, "shim/include"), "-I" + gen]
        for i in INCLUDES:
            flags += ["-I" + os.path.join(REPO, i)]
        flags += ["-isystem", "/usr/include/eigen3"]
        srcs = []
        for s in u["srcs"]:
            extra = []
            if isinstance(s, tuple):
                s, extra = s
            path = os.path.join(REPO, s[5:]) if s.startswith("repo:") else os.path.join(HERE, s)
            srcs.append((flags + extra, path))
        plan.append((u, srcs, san))
        jobs += [(c, p) for c, p in srcs]
    objs = {}
    uniq = {(" ".join(c), p): (c, p) for c, p in jobs}
    with cf.ThreadPoolExecutor(JOBS) as ex:
        fut = {k: ex.submit(compile_one, c, p, "") for k, (c, p) in uniq.items()}
        for k, f in fut.items():
            objs[k] = f.result()
    bins = []

    def link(args):
        u, srcs, san = args
        o = [objs[(" ".join(c), p)] for c, p in srcs]
        out = os.path.join(BUILD, "bin", u["name"])
        os.makedirs(os.path.dirname(out), exist_ok=True)
        # g++ adds libgomp only when asked; the tsan unit brings its own runtime
        lf = ["g++"] + SAN[san] + (["-fopenmp"] if u.get("omp") and not u.get("own_gomp") else [])
        r = subprocess.run(lf + o + ["-o", out + ".tmp"] + u.get("libs", []) + ["-lpthread"], capture_output=True, text=True)
        if r.returncode:
            raise BuildError("link failed: %s\n%s" % (u["name"], r.stderr[-6000:]))
        os.replace(out + ".tmp", out)
        return out
    with cf.ThreadPoolExecutor(JOBS) as ex:
        bins = list(ex.map(link, plan))
    return bins


def clean_func(f):
    f = re.sub(r"\[abi:\w+\]", "", f)
    f = f.replace("(anonymous namespace)::", "")
    # drop template arguments and parameter lists
    out, depth = "", 0
    for ch in f:
        if ch == "<":
            depth += 1
        elif ch == ">" and depth > 0:
            depth -= 1
        elif depth == 0:
            out += ch
    out = re.sub(r"\(.*$", "", out).strip()
    return out.split(" ")[-1] if " " in out else out


FRAME = re.compile(r"^\s*#(\d+)\s+(?:0x[0-9a-f]+\s+)?(?:in\s+)?(.+?)\s+(/[^\s]+?|<null>|\([^)]*\))(?::\d+)*(?:\s.*)?$")


def frames(text):
    out = []
    for l in text.splitlines():
        m = FRAME.match(l)
        if m:
            out.append((m.group(2), m.group(3)))
        elif out and not l.strip():
            break
    return out


def repo_func(fr):
    for f, p in fr:
        if p.startswith((REPO + "/", "/repo/")):
            return clean_func(f), os.path.basename(p.split(":")[0])
    return None


def norm(msg):
    return re.sub(r"-?\d+(\.\d+)?(e[+-]?\d+)?|0x[0-9a-f]+|-?nan|-?inf", "N", msg).strip()


def crash_keys(err, rc, tsan=False):
    """Maps what a dead process printed to (key, detail, blame) list. blame False: no code of the repository involved."""
    res = []
    if tsan:
        for rep in re.split(r"={18,}", err):
            m = re.search(r"WARNING: ThreadSanitizer: ([^(\n]+)", rep)
            if not m:
                continue
            stacks = re.split(r"\n\s*\n", rep)
            fs = []
            for s in stacks[:2]:
                rf = repo_func(frames(s))
                fs.append(":".join(rf) if rf else "?")
            blame = any(f != "?" for f in fs)
            res.append(("tsan:%s:%s" % (m.group(1).strip(), "|".join(sorted(set(fs)))), rep.strip()[:1500], blame))
        if res:
            return res
    m = re.search(r"ERROR: AddressSanitizer:? ([\w-]+)", err)
    if m:
        rf = repo_func(frames(err[m.start():]))
        kind = m.group(1)
        if kind in ("requested", "allocator"):
            kind = "allocation-size-too-big"
        if kind == "ABRT" or kind == "SEGV" or True:
            return [("asan:%s:%s" % (kind, ":".join(rf) if rf else "?"), err[m.start():][:1800], rf is not None)]
    m = re.search(r"^(\S+?):(\d+):\d+: runtime error: (.*)$", err, re.M)
    if m:
        rf = repo_func(frames(err[m.start():]))
        blame = rf is not None or m.group(1).startswith((REPO, "/repo"))
        return [("ubsan:%s:%s" % (norm(m.group(3)), ":".join(rf) if rf else os.path.basename(m.group(1))), err[m.start():][:1500], blame)]
    m = re.search(r"^(.*?):(\d+): (.*?): Assertion [`'](.*)' failed", err, re.M)
    if m:
        return [("assert:%s:%s" % (clean_func(m.group(3)), m.group(4)), m.group(0), True)]
    m = re.search(r"SHIM-ASSERT (\S+) (.*)", err)
    if m:
        return [("ros_assert:%s:%s" % (m.group(1), m.group(2)), m.group(0), True)]
    m = re.search(r"terminate called after throwing an instance of '(.*)'(?:\s*what\(\):\s*(.*))?", err)
    if m:
        return [("terminate:%s:%s" % (m.group(1), norm(m.group(2) or "")), m.group(0), True)]
    if "VF-HANG" in err or rc == 97:
        return [("hang", "case did not finish", True)]
    if "VF-HARNESS-ERROR" in err:
        return [("harness", err[-1500:], False)]
    return [("died:%s" % rc, err[-1500:], True)]


def env_for(u):
    e = dict(os.environ)
    e["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:exitcode=99:allocator_may_return_null=0:max_allocation_size_mb=6000:detect_stack_use_after_return=1:handle_abort=0:" + os.environ.get("VF_ASAN", "")
    e["UBSAN_OPTIONS"] = "print_stacktrace=1:exitcode=98"
    e["TSAN_OPTIONS"] = "halt_on_error=0:exitcode=0:report_signal_unsafe=0:history_size=4:suppress_equal_stacks=1"
    e["OMP_NUM_THREADS"] = str(u.get("threads", 2))
    e["OMP_WAIT_POLICY"] = "passive"
    return e


def launch(binp, u, outdir, seed, shard, shards, frm, to, thorough, limit, errname):
    cmd = [binp, "--seed", str(seed), "--shard", str(shard), "--shards", str(shards), "--from", str(frm), "--to", str(to), "--out", outdir,
           "--limit", str(limit)]
    if thorough:
        cmd.append("--thorough")
    for o in u.get("opts", []):
        cmd += ["--opt", o]
    with open(errname, "wb") as ef:
        # wall limit only as a backstop against a blocked process: inconclusive, never a verdict
        try:
            p = subprocess.run(cmd, stdout=ef, stderr=subprocess.STDOUT, env=env_for(u), cwd=outdir, timeout=3 * 3600 if thorough else 600)
            rc = p.returncode
        except subprocess.TimeoutExpired:
            rc = "timeout"
    size = os.path.getsize(errname)
    with open(errname, "rb") as ef:
        if size > 4000000:
            ef.seek(size - 4000000)
        err = ef.read().decode("utf8", "replace")
    return rc, err, cmd


def run_shard(binp, u, outdir, seed, shard, shards, n, thorough):
    frm, found, cmds = 0, [], []
    inconclusive = 0
    limit = u.get("limit", 60)
    for attempt in range(u.get("restarts", 12)):
        rc, err, cmd = launch(binp, u, outdir, seed, shard, shards, frm, n, thorough, limit, os.path.join(outdir, "log.%d.%d" % (shard, attempt)))
        mark = -1
        try:
            mark = int.from_bytes(open(os.path.join(outdir, "mark.%d" % shard), "rb").read(8), "little", signed=True)
        except OSError:
            pass
        tsan = u.get("san") == "tsan"
        if tsan and "WARNING: ThreadSanitizer" in err:
            for k, d, b in crash_keys(err, rc, True):
                found.append((mark if mark >= 0 else 0, k, d, b))
        if rc == 0 and mark == -2:
            return found, inconclusive, False
        if rc == "timeout":
            return found, inconclusive + 1, True
        if mark < 0:
            return found + [(-1, "harness", "died outside a case: rc=%s %s" % (rc, err[-1500:]), False)], inconclusive, True
        ks = crash_keys(err, rc)
        if ks[0][0] == "hang":
            rc2, err2, _ = launch(binp, u, outdir, seed, shard, shards, mark, mark + 1, thorough, limit * 3, os.path.join(outdir, "log.%d.%dh" % (shard, attempt)))
            if rc2 == 0:
                inconclusive += 1
                ks = []
            else:
                ks = crash_keys(err2, rc2)
        for k, d, b in ks:
            found.append((mark, k, d, b))
        frm = mark + 1
        if frm >= n:
            break
    return found, inconclusive, False


def load_known(pid):
    try:
        ks = json.load(open(os.path.join(HERE, "known_findings.json")))
    except OSError:
        return []
    return [k for k in ks["findings"] if k["property"] == pid]


def check(pid, tier):
    t0 = time.time()
    thorough = tier == "thorough"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    spec = CHECKS[pid]
    units = [dict(u, name="%s_%d" % (pid, i)) for i, u in enumerate(spec["units"])]
    evp = os.path.join(HERE, "evidence", pid + ".json")
    os.makedirs(os.path.dirname(evp), exist_ok=True)
    try:
        os.remove(evp)
    except OSError:
        pass
    try:
        bins = build(units)
    except BuildError as e:
        print("ERROR: cannot build check %s\n%s" % (pid, e))
        return 2
    tb = time.time() - t0
    known = load_known(pid)
    total = dict(evaluations=0, counters={}, samples=[], distinct=set())
    viols = []  # (unit index, case, key, detail, blame)
    inconclusive, broken = 0, False
    per_unit = []
    for ui, (u, b) in enumerate(zip(units, bins)):
        n = u["cases"][1 if thorough else 0]
        if os.environ.get("VF_SCALE"):
            n = max(8, int(n * float(os.environ["VF_SCALE"])))
        outdir = os.path.join(BUILD, "run", pid + "_%d" % ui)
        if os.path.isdir(outdir):
            shutil.rmtree(outdir)
        os.makedirs(outdir)
        shards = max(1, JOBS // u.get("threads", 1)) if u.get("threads", 1) > 1 else JOBS
        shards = max(1, min(shards, n))
        with cf.ThreadPoolExecutor(shards) as ex:
            rs = list(ex.map(lambda s: run_shard(b, u, outdir, seed, s, shards, n, thorough), range(shards)))
        for found, inc, br in rs:
            inconclusive += inc
            broken = broken or br
            for c, k, d, bl in found:
                viols.append((ui, c, k, d, bl))
        for p in glob.glob(os.path.join(outdir, "viol.*.tsv")):
            for l in open(p, errors="replace"):
                f = l.rstrip("\n").split("\t")
                if len(f) >= 3:
                    viols.append((ui, int(f[0]), f[1], f[2], True))
        ev = 0
        for p in sorted(glob.glob(os.path.join(outdir, "res.*.json"))):
            j = json.load(open(p))
            total["evaluations"] += j["evaluations"]
            ev += j["evaluations"]
            for k, v in j["counters"].items():
                total["counters"][k] = max(total["counters"].get(k, 0), v) if k.startswith("max ") else total["counters"].get(k, 0) + v
            if len(total["samples"]) < 4:
                total["samples"] += j["samples"][:2]
            total["distinct"] |= set(j["distinct"])
        per_unit.append({"unit": u.get("label", u["name"]), "cases": n, "evaluations": ev})
        for p in glob.glob(os.path.join(outdir, "log.*")):
            if os.path.getsize(p) > 1000000:
                os.remove(p)
    news, olds, harness_err = {}, {}, []
    for ui, c, k, d, blame in viols:
        if not blame:
            harness_err.append((ui, c, k, d))
            continue
        m = next((x for x in known if re.fullmatch(x["key"], k)), None)
        if m:
            olds[m["key"]] = olds.get(m["key"], 0) + 1
        else:
            news.setdefault(k, []).append((ui, c, d))
    rc = 0
    for x in known:
        print("KNOWN-FINDING: property=%s %s (seen in this run: %s)" % (pid, x["what"], "yes" if x["key"] in olds else "no"))
    rdir = os.path.join(HERE, "replays")
    for k, lst in sorted(news.items()):
        ui, c, d = lst[0]
        os.makedirs(rdir, exist_ok=True)
        rp = os.path.join(rdir, "%s-%s.json" % (pid, hashlib.sha256(k.encode()).hexdigest()[:10]))
        json.dump({"property": pid, "unit": ui, "case": c, "seed": seed, "tier": tier, "key": k, "detail": d, "times": len(lst)},
                  open(rp, "w"), indent=1)
        print("VIOLATION property=%s replay=%s" % (pid, rp))
        print("  key: %s\n  %s" % (k, d[:1500].replace("\n", "\n  ")))
        rc = 1
    if total["evaluations"] == 0 and rc == 0:
        print("ERROR: nothing was evaluated")
        broken = True
    cov = {"evaluations": total["evaluations"], "distinct_nontrivial": len(total["distinct"]), "rule": spec["rule"],
           "samples": total["samples"] or ["none"], "observed": dict(sorted(total["counters"].items())), "units": per_unit,
           "known_findings_seen": olds, "inconclusive_cases": inconclusive, "build_s": round(tb, 1)}
    json.dump({"property": pid, "tier": "thorough" if thorough else "quick", "seed": seed, "level": spec.get("level", "exploration"), "coverage": cov,
               "assumptions": spec.get("assumptions", []), "wall_s": round(time.time() - t0, 2), "violations": len(news)}, open(evp, "w"), indent=1)
    for req, least in spec.get("require", {}).items():
        if total["counters"].get(req, 0) < least and rc == 0:
            print("ERROR: observed too little: %s = %d, expected at least %d" % (req, total["counters"].get(req, 0), least))
            broken = True
    if harness_err and rc == 0:
        for ui, c, k, d in harness_err[:3]:
            print("ERROR: harness failed (unit %d case %s): %s\n%s" % (ui, c, k, d))
        broken = True
    print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d new violation keys, %.1f s (build %.1f s)" % (
        pid, tier, seed, total["evaluations"], len(total["distinct"]), len(news), time.time() - t0, tb))
    if rc == 1:
        return 1
    return 3 if broken else 0


def replay(path):
    r = json.load(open(path))
    spec = CHECKS[r["property"]]
    u = dict(spec["units"][r["unit"]], name="%s_%d" % (r["property"], r["unit"]))
    b = build([u])[0]
    out = os.path.join(BUILD, "run", "replay")
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    cmd = [b, "--seed", str(r["seed"]), "--from", str(r["case"]), "--to", str(r["case"] + 1), "--out", out, "--verbose"]
    if r["tier"] == "thorough":
        cmd.append("--thorough")
    for o in u.get("opts", []):
        cmd += ["--opt", o]
    print(" ".join(cmd))
    return subprocess.run(cmd, env=env_for(u), cwd=out).returncode


if __name__ == "__main__":
    if len(sys.argv) >= 3 and sys.argv[1] == "replay":
        sys.exit(replay(sys.argv[2]))
    if len(sys.argv) >= 2 and sys.argv[1] == "setup":
        for tool in ("g++",):
            if not shutil.which(tool):
                print("missing", tool)
                sys.exit(1)
        print("checks build themselves from the working tree:", len(CHECKS))
        sys.exit(0)
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    sys.exit(check(pid, tier))
