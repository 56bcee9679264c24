"""N03: no mutable state is shared between threads that use the library."""
import re
from frame import check, REPO
from vx import Undecided

SYNC = re.compile(r"^(const )?(std::(mutex|shared_mutex|recursive_mutex|once_flag|timed_mutex|condition_variable))\b")


def rel(p):
    return p[len(REPO) + 1:] if p.startswith(REPO + "/") else p


def shared(vs):
    """why a variable with static storage is shared mutable state, or None"""
    v = vs[0]
    if any(x.get("tls") for x in vs):
        return None
    dep = [x["dep"] for x in vs if x.get("dep")]
    if dep:
        return "%s keeps the value of '%s' from the first call for all later ones" % (v["n"], dep[0])
    if any(x.get("constexpr") for x in vs) or SYNC.match(v["ts"]):
        return None
    w = [x for x in vs if x["writes"]]
    if all(x.get("const") for x in vs) and not w:
        if any(x.get("mut") for x in vs):
            raise Undecided("%s has mutable members" % v["n"])
        return None
    if w:
        if v["ts"].startswith("std::atomic"):
            raise Undecided("%s is atomic" % v["n"])
        return "%s is shared by all threads and %s at %s:%s" % (v["q"], w[0]["how"], rel(w[0]["wf"]), w[0]["wl"])
    if v["refs"] > v["reads"]:
        raise Undecided("%s may be modified" % v["n"])
    return None


@check("N03", "Every variable with static storage duration that the library's headers and sources declare (namespace scope, class static, function local; templates included) is listed with everything the program does to it: each must be constant, thread local, a lock, or only ever read, and no function local one may remember the call that happened to come first. No non-reentrant function of the C library is called.", expect=3)
def n03(R):
    u = R.unit("lib")
    by = {}
    for v in u.statics:
        by.setdefault((v["f"], v["l"], v["n"]), []).append(v)
    R.sites = len(by) + len(u.nonre)
    R.saw(u, [f for f in u.fns.values() if "body" in f])
    for (f, l, n), vs in sorted(by.items()):
        R.check("static variable %s" % vs[0]["q"], "%s:%s" % (rel(f), l), lambda: shared(vs))
    seen = {c["n"]: c for c in u.nonre}
    for n, c in sorted(seen.items()):
        R.check("call of " + n, "%s:%s" % (rel(c["f"]), c["l"]), lambda: "%s is not safe to call from several threads" % n)
    R.check("non-reentrant functions", "include, src", lambda: None)
