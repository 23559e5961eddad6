#!/usr/bin/env python3
"""plant.py SPEC.py -- confirm a planted bug in /repo and store it under seeded/.

SPEC.py defines ID, PROPERTY, NEEDS, BREAKS, EDITS = [(file, old, new), ...] and
DEMO (python source). The bug is kept only if the tree still builds, the stable
tests pass, the demo fails with the change and passes without it. /repo is
restored whatever happens."""

import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SH = """#!/bin/bash
# run with cwd /repo after the build
export PATH=/opt/venv/bin:/usr/local/bin:/usr/bin:/bin PYTHONPATH=$PWD PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=agg
exec timeout 120 python "$(cd "$(dirname "$0")" && pwd)/demo.py"
"""


def sh(*a, **kw):
    return subprocess.run(a, capture_output=True, text=True, **kw)


def main(spec, fast=False):
    ns = {}
    exec(open(spec).read(), ns)
    out = os.path.join(HERE, "seeded", ns["ID"])
    assert not sh("git", "-C", "/repo", "status", "--porcelain").stdout.strip(), "/repo not clean"
    os.makedirs(out, exist_ok=True)
    with open(out + "/demo.py", "w") as f:
        f.write(ns["DEMO"].lstrip())
    with open(out + "/demo.sh", "w") as f:
        f.write(SH)
    with open(out + "/meta.json", "w") as f:
        json.dump({"property": ns["PROPERTY"], "needs": ns["NEEDS"], "what_it_breaks": ns["BREAKS"]}, f, indent=1)
        f.write("\n")
    ok = True
    r = sh("bash", out + "/demo.sh", cwd="/repo")
    if r.returncode:
        print("demo fails on the unchanged tree:", r.stdout[-1500:], r.stderr[-1500:])
        ok = False
    try:
        for path, old, new in ns["EDITS"]:
            p = os.path.join("/repo", path)
            s = open(p).read()
            if s.count(old) != 1:
                print("edit matches %d times in %s:\n%s" % (s.count(old), path, old))
                ok = False
                continue
            with open(p, "w") as f:
                f.write(s.replace(old, new))
        d = sh("git", "-C", "/repo", "diff")
        with open(out + "/patch.diff", "w") as f:
            f.write(d.stdout)
        if ok:
            b = sh("bash", "/opt/vp/build.sh")
            if b.returncode:
                print("build fails", b.stderr[-800:])
                ok = False
        if ok:
            r = sh("bash", out + "/demo.sh", cwd="/repo")
            if r.returncode == 0:
                print("demo passes with the change")
                ok = False
            else:
                print("demo:", (r.stdout + r.stderr).strip().splitlines()[-1:])
        if ok and not fast:
            sh("bash", "/opt/vp/test.sh", "/tmp/plant.json")
            st = set(json.load(open("/opt/vp/BASELINE.json"))["stable"])
            ps = set(json.load(open("/tmp/plant.json"))["passed"])
            if st - ps:
                print("tests fail:", sorted(st - ps)[:5])
                ok = False
        if ok:
            c = sh(sys.executable, HERE + "/check.py", ns["PROPERTY"])
            print("CHECK exit", c.returncode, [l[:220] for l in c.stdout.splitlines() if l.startswith("  ") and " at hatchet/" in l][:3] or c.stdout[-200:] + c.stderr[-300:])
    finally:
        sh("git", "-C", "/repo", "checkout", "--", ".")
        sh("bash", "/opt/vp/build.sh")
    print(ns["ID"], "KEPT" if ok else "NOT KEPT")
    if not ok:
        for n in os.listdir(out):
            os.unlink(os.path.join(out, n))
        os.rmdir(out)
    return ok


if __name__ == "__main__":
    rc = [main(s) for s in sys.argv[1:]]
    sys.exit(0 if all(rc) else 1)
