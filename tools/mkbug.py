#!/usr/bin/env python3
"""Confirms a planted bug in a scratch copy: mkbug.py <id>  (seeded/<id>/ holds patch.diff, demo.sh, meta.json).

Builds the scratch copy, runs the repository's tests with the patch, and the demo without and with it. --check also runs the property's check on the patched copy."""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def main(bid, docheck):
    d = os.path.join(H, "seeded", bid)
    tmp = tempfile.mkdtemp(prefix="bug_", dir="/tmp")
    w = os.path.join(tmp, "repo")
    subprocess.run(["cp", "-a", "/repo", w], check=True)
    demo = os.path.join(tmp, "demo")
    shutil.copytree(d, demo)
    ok = True
    try:
        r0 = subprocess.run(["bash", os.path.join(demo, "demo.sh")], cwd=w, capture_output=True, text=True)
        r = subprocess.run(["git", "apply", os.path.join(d, "patch.diff")], cwd=w, capture_output=True, text=True)
        if r.returncode:
            print(bid, "patch does not apply", r.stderr)
            return False
        shutil.rmtree(os.path.join(w, "_build"), ignore_errors=True)
        b = subprocess.run("export CC=gcc CXX=g++; cmake -S /opt/vp/cmake -B %s/_build -G Ninja -DREPO=%s -DCMAKE_BUILD_TYPE= -DCMAKE_CXX_FLAGS='-O1' >/dev/null && ninja -k 0 -C %s/_build" % (w, w, w), shell=True, capture_output=True, text=True)
        t = subprocess.run("cd %s/_build && ctest 2>&1 | tail -4; for t in $(find . -maxdepth 2 -type f -executable -not -name '*performance*' -name '*test*'); do $t >/tmp/_o 2>&1 || { echo FAIL $t; grep FAILED /tmp/_o | head -3; }; done" % w, shell=True, capture_output=True, text=True)
        r1 = subprocess.run(["bash", os.path.join(demo, "demo.sh")], cwd=w, capture_output=True, text=True)
        failing = [l for l in t.stdout.splitlines() if "FAIL" in l]
        ok = r0.returncode == 0 and r1.returncode != 0 and b.returncode == 0 and not failing
        print("%s: demo clean %d, patched %d, build %d, failing tests %s -> %s" % (bid, r0.returncode, r1.returncode, b.returncode, failing, "OK" if ok else "NOT OK"))
        if r0.returncode:
            print(r0.stdout[-1500:], r0.stderr[-1500:])
        if b.returncode:
            print(b.stdout[-1500:])
        if docheck:
            p = json.load(open(os.path.join(d, "meta.json")))["property"]
            e = dict(os.environ, VF_REPO=w)
            c = subprocess.run([sys.executable, os.path.join(H, "run.py"), p, "quick"], env=e, cwd=H, capture_output=True, text=True)
            print("   check %s exit %d: %s" % (p, c.returncode, "; ".join(l.strip() for l in c.stdout.splitlines() if "key:" in l or "ERROR" in l)[:400] or c.stdout[-300:]))
    finally:
        shutil.rmtree(tmp)
    return ok


if __name__ == "__main__":
    ids = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(os.path.join(H, "seeded")))
    bad = [i for i in ids if not main(i, "--check" in sys.argv)]
    sys.exit(1 if bad else 0)
