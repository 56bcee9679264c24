#!/usr/bin/env python3-vt
"""tryseed.py [ids...]  runs the seed's property check (or every check with
-a) against a scratch copy of /repo with the change applied."""
import json, os, subprocess, sys
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
al = "-a" in sys.argv
ids = [a for a in sys.argv[1:] if a != "-a"] or sorted(os.listdir(V + "/seeded"))
M = json.load(open(V + "/MANIFEST.json"))
ps = [c["property"] for c in M["checks"]]


def sh(c, env=None):
    r = subprocess.run(c, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=env)
    return r.returncode, r.stdout


def one(i):
    t = "/tmp/ts_" + i
    b = "/tmp/tsb_" + i
    sh("git -C /repo worktree add --detach %s HEAD -f" % t)
    out = []
    try:
        rc, o = sh("cd %s && git apply %s/seeded/%s/patch.diff" % (t, V, i))
        if rc:
            return i + " PATCH " + o
        p = json.load(open(V + "/seeded/%s/meta.json" % i))["property"]
        os.makedirs(b, exist_ok=True)
        for x in ([p] + [q for q in ps if q != p] if al else [p]):
            env = dict(os.environ, VERIF_REPO=t, VERIF_BUILD=b, VERIF_EVIDENCE=b)
            rc, o = sh("python3-vt %s/engine/run.py %s" % (V, x), env)
            hit = "VIOLATION property=%s" % x in o
            if x == p or hit:
                why = [l.strip() for l in o.splitlines() if "violated:" in l or "ANALYSIS" in l or "undecided:" in l]
                out.append("%s %s rc=%d %s" % (x, "CAUGHT" if hit and rc == 1 else "missed", rc, (why or [""])[0][:200]))
    finally:
        sh("git -C /repo worktree remove --force %s" % t)
        sh("rm -rf %s" % b)
    return i + ": " + "; ".join(out)


with ThreadPoolExecutor(6) as ex:
    for r in ex.map(one, ids):
        print(r, flush=True)
