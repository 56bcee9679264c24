#!/usr/bin/env python3-vt
"""mkseed.py SPEC.py...   Each SPEC defines SEEDS: list of dicts
{id, prop, needs, breaks, edits: [(file, old, new)], demo, srcs: [..]} and is
turned into seeded/<id>/ after confirming, in a scratch copy of /repo, that the
demo passes without and fails with the change, and (in /repo, undone straight
afterwards) that build and stable tests pass with it."""
import json, os, shutil, subprocess, sys, tempfile, runpy
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
LIB = {"lib": "autodiff/jacobian.cpp autodiff/hessian.cpp autodiff/gradient.cpp autodiff/variable_matrix.cpp",
       "ipm": "optimization/solver/interior_point.cpp optimization/solver/sqp.cpp optimization/solver/newton.cpp",
       "matrix": "autodiff/variable_matrix.cpp",
       "solve": "optimization/problem.cpp optimization/solver/interior_point.cpp optimization/solver/newton.cpp optimization/solver/sqp.cpp autodiff/jacobian.cpp autodiff/hessian.cpp autodiff/gradient.cpp autodiff/variable_matrix.cpp",
       "ocp": "optimization/ocp.cpp optimization/problem.cpp optimization/solver/interior_point.cpp optimization/solver/newton.cpp optimization/solver/sqp.cpp autodiff/jacobian.cpp autodiff/hessian.cpp autodiff/gradient.cpp autodiff/variable_matrix.cpp",
       "": ""}


def sh(c, cwd=None, t=900):
    r = subprocess.run(c, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return r.returncode, r.stdout


def make(s):
    d = os.path.join(V, "seeded", s["id"])
    tmp = tempfile.mkdtemp(prefix="seed")
    os.rmdir(tmp)
    try:
        sh("git worktree prune; git -C %s worktree add --detach %s HEAD -f" % (REPO, tmp), REPO)
        for f, old, new in s["edits"]:
            p = os.path.join(tmp, f)
            t = open(p).read()
            n = s.get("count", 1)
            if t.count(old) != n and not s.get("first"):
                return "edit of %s matches %d times" % (f, t.count(old))
            open(p, "w").write(t.replace(old, new) if not s.get("first") else t.replace(old, new, 1))
        rc, diff = sh("git diff", tmp)
        sh("git checkout -- .", tmp)
        os.makedirs(d, exist_ok=True)
        open(d + "/patch.diff", "w").write(diff)
        if s.get("demo_sh"):
            open(d + "/demo.sh", "w").write(s["demo_sh"])
        else:
            open(d + "/demo.cpp", "w").write(s["demo"])
            shutil.copytree(os.path.join(V, "tools/demokit"), d + "/kit", dirs_exist_ok=True)
            open(d + "/demo.sh", "w").write("""#!/bin/bash
HERE=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
export DEMOFLAGS="%s"
bash "$HERE/kit/build.sh" "$T/demo" "$HERE/demo.cpp" %s || exit 1
cd "$T" && timeout 120 ./demo
""" % (s.get("flags", ""), LIB.get(s.get("srcs", ""), s.get("srcs", ""))))
        for k, v in s.get("files", {}).items():
            open(d + "/" + k, "w").write(v)
        json.dump({"property": s["prop"], "needs": s["needs"], "what_it_breaks": s["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        rc, o = sh("bash %s/demo.sh" % d, tmp)
        if rc:
            return "demo fails on the unchanged tree: " + o[-600:]
        rc, o = sh("git apply %s/patch.diff" % d, tmp)
        if rc:
            return "patch: " + o
        rc, o = sh("bash %s/demo.sh" % d, tmp)
        if rc == 0:
            return "demo passes with the change: " + o[-300:]
        if ": error:" in o:
            return "demo does not compile: " + o[-500:]
    finally:
        sh("git -C %s worktree remove --force %s" % (REPO, tmp))
    try:
        rc, o = sh("git apply %s/patch.diff && bash /opt/vp/build.sh && bash /opt/vp/test.sh /tmp/seedtest.json" % d, REPO)
        r = json.load(open("/tmp/seedtest.json"))
        if rc or r["failed"]:
            return "build or tests fail: " + o[-500:]
    finally:
        sh("git checkout -- .", REPO)
    return None


for spec in sys.argv[1:]:
    for s in runpy.run_path(spec)["SEEDS"]:
        d = os.path.join(V, "seeded", s["id"])
        if os.path.exists(d + "/meta.json"):
            continue
        e = make(s)
        print(s["id"], e or "ok", flush=True)
        if e:
            shutil.rmtree(d, ignore_errors=True)
