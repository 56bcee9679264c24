"""P06: multistart.

The function is executed abstractly for a symbolic list of guesses with the
user's solve function uninterpreted; the calls made and the rule by which one
result is preferred over another are extracted and compared with the
documented order for every pair of exit statuses."""
from frame import check, Broken
from sem import Interp, State, Unsupported
import term as TM
from term import *
from decide import canon, Cases
from vx import Undecided
from chk_sutil import find
import itertools

WHERE = "include/sleipnir/optimization/multistart.hpp"
VIS = ("H", "visits")
G, SOLVE = sym("guesses"), sym("solve")
RES = "slp::MultistartResult::"


def res(i):
    return raw("res", sel(G, i))


def applied(I, st, fr, c, av):
    st.store[VIS] = push(st.store.get(VIS, raw("list")), raw("visit", *av))
    if c is not SOLVE:
        raise Unsupported("call of something else")
    return raw("res", *av)


def extract(u):
    fs = [f for f in find(u, "slp::multistart") if f.get("body")]
    if not fs:
        raise Broken("no multistart")
    I = Interp(u)
    I.hooks["app"] = applied
    st = State()
    st.store[VIS] = raw("list")
    f = fs[0]
    av = [I.alloc(st, x, p["n"]) if I.ty(p["t"]).get("ref") else x for p, x in zip(f["params"], (SOLVE, G))]
    v, st = I.call_fn(st, f, None, av)
    if I.islv(v):
        v = I.load(st, v)
    return I, canon(v), canon(st.store[VIS])


class Small:
    """the result for a few guesses: it depends on the costs through their
    order alone, so the ranks stand for them"""

    def __init__(self, u, status, cost):
        self.n = len(status)
        fs = [f for f in find(u, "slp::multistart") if f.get("body")]
        if not fs:
            raise Broken("no multistart")
        gs = [sym("guess", str(k)) for k in range(self.n)]
        rs = {g: rec("slp::MultistartResult", {RES + "status": s, RES + "cost": num(c), RES + "variables": sym("solution", str(k))}) for k, (g, s, c) in enumerate(zip(gs, status, cost))}
        self.calls = []

        def applied(I, st, fr, c, av):
            if c is not SOLVE or len(av) != 1 or av[0] not in rs:
                raise Unsupported("call of something else")
            self.calls.append(av[0])
            return rs[av[0]]
        I = Interp(u)
        I.unrollmax = 16
        I.hooks["app"] = applied
        st = State()
        f = fs[0]
        G = raw("list", *gs)
        av = [I.alloc(st, x, p["n"]) if I.ty(p["t"]).get("ref") else x for p, x in zip(f["params"], (SOLVE, G))]
        v, st = I.call_fn(st, f, None, av)
        if I.islv(v):
            v = I.load(st, v)
        v = self.settle(canon(v))
        rs2 = list(rs.values())
        if v not in rs2:
            raise Undecided("result " + show(v)[:200])
        self.win = rs2.index(v)

    def settle(self, t):
        def f(x):
            if x.op != "argext":
                return x
            fn, a, b, n, less = x.a
            if not TM.isnum(n):
                return x
            k = 0
            for i in range(1, int(n.a[0])):
                lo = canon(TM.subst(less, {a: num(i), b: num(k)} if "min" in fn else {a: num(k), b: num(i)}))
                if lo is TRUE:
                    k = i
                elif lo is not FALSE:
                    raise Undecided("order " + show(lo)[:150])
            return num(k)
        for x in [x for x in TM.walk(t) if x.op == "argext"]:
            t = canon(TM.subst(t, {x: f(x)}))
        return t


def small(u):
    """every mix of outcomes and order of costs of up to three guesses"""
    S = statuses(u)
    ok = [s for s in S if s.a[0].endswith("::SUCCESS")][0]
    some = [ok] + [s for s in S if s.a[0].endswith(("MAX_ITERATIONS_EXCEEDED", "CALLBACK_REQUESTED_STOP"))]
    nm = lambda s: s.a[0].split("::")[-1]
    for n in (1, 2, 3):
        for st in itertools.product(some, repeat=n):
            for c in itertools.permutations(range(1, n + 1)):
                r = Small(u, st, c)
                if n != len(r.calls) or len(set(r.calls)) != n:
                    return "%d guesses are solved %d times" % (n, len(r.calls))
                best = min(range(n), key=lambda k: (st[k] is not ok, c[k]))
                if r.win != best:
                    return "of %s the result %s is returned" % (", ".join("(%s, cost %d)" % (nm(s), k) for s, k in zip(st, c)), "(%s, cost %d)" % (nm(st[r.win]), c[r.win]))


def calls(I, w):
    if I.races:
        return "%s changes while the solves that read it run" % ", ".join(sorted(set(I.races)))
    if w.op == "list" and not w.a:
        return "the solver is never run"
    if w.op != "comp" or len(w.a[0]) != 1:
        raise Undecided("calls " + show(w)[:150])
    h, lo, hi = w.a[0][0]
    if w.a[1] is not TRUE:
        raise Undecided("calls under " + show(w.a[1])[:100])
    n = canon(sub(hi, lo))
    x = w.a[2]
    ok = {"sym", "len", "num", "poly", "bv", "sel", "visit"}
    if n is not canon(length(G)):
        if all(y.op in ok for y in TM.walk(n)):
            return "the solver is run %s times for %s guesses" % (show(n), show(length(G)))
        raise Undecided("calls " + show(w)[:150])
    if x is raw("visit", sel(G, canon(add(h, neg(lo))))):
        return None
    if all(y.op in ok for y in TM.walk(x)):
        if x.op == "visit" and len(x.a) == 1 and x.a[0].op == "sel" and x.a[0].a[0] is G:
            d = canon(add(x.a[0].a[1], h))
            if h not in set(TM.walk(d)):        # backwards
                r = canon(TM.subst(x.a[0].a[1], {h: lo}))
                if r is canon(sub(length(G), ONE)):
                    return None
        return "run %s is given %s" % (show(h), show(x.a[0])[:100])
    raise Undecided("calls " + show(w)[:150])


def rule(v):
    """(a, b, condition): the result at a replaces the one at b"""
    n = canon(length(G))
    a, b = raw("bv", "challenger"), raw("bv", "champion")

    def ends(lo, hi, init):
        if canon(hi) is not n:
            raise Undecided("search up to " + show(hi)[:80])
        if init is not ZERO or lo not in (ZERO, ONE):
            raise Undecided("search from " + show(lo)[:80])
    if v.op == "res" and len(v.a) == 1 and v.a[0].op == "sel" and v.a[0].a[0] is G:
        i = v.a[0].a[1]
        if i.op == "argext":
            fn, x, y, m, less = i.a
            if canon(m) is not n:
                raise Undecided("search over " + show(m)[:80])
            # min: the element that is less than the champion; max: the one the champion is less than
            return a, b, canon(TM.subst(less, {x: a, y: b} if "min" in fn else {x: b, y: a}))
        if i.op == "fold" and len(i.a[0]) == 1:
            h, lo, hi = i.a[0][0]
            ends(lo, hi, i.a[2])
            t = i.a[3]
            if t.op == "ite" and {t.a[1], t.a[2]} == {h, i.a[1]}:
                c = t.a[0] if t.a[1] is h else Not(t.a[0])
                return a, b, canon(TM.subst(c, {h: a, i.a[1]: b}))
        if TM.isnum(i) or i is canon(sub(n, ONE)):
            return a, b, "the result of guess %s is returned whatever the others give" % show(i)
    if v.op == "fold" and len(v.a[0]) == 1:
        h, lo, hi = v.a[0][0]
        z = v.a[2]
        if z.op == "res" and z is res(ZERO):
            ends(lo, hi, ZERO)
            t = v.a[3]
            if t.op == "ite" and {t.a[1], t.a[2]} == {res(h), v.a[1]}:
                c = t.a[0] if t.a[1] is res(h) else Not(t.a[0])
                return a, b, canon(TM.subst(TM.subst(c, {h: a}), {v.a[1]: res(b)}))
    raise Undecided("result " + show(v)[:200])


def statuses(u):
    return [raw("enumc", "slp::ExitStatus::" + e["n"], int(e["v"])) for e in u.enums["slp::ExitStatus"]["e"]]


def prefers(u, v, which):
    a, b, c = rule(v)
    if isinstance(c, str):
        return c
    fs = {}
    for x in TM.walk(c):
        if x.op == "fld" and x.a[0] in (RES + "status", RES + "cost"):
            fs[x] = 1
    sa, sb = getf(res(a), RES + "status"), getf(res(b), RES + "status")
    ca, cb = getf(res(a), RES + "cost"), getf(res(b), RES + "cost")
    S = statuses(u)
    ok = [s for s in S if s.a[0].endswith("::SUCCESS")][0]
    XA, XB = sym("cost a"), sym("cost b")
    n = 0
    for x in S:
        for y in S:
            t = canon(TM.subst(c, {sa: x, sb: y, ca: XA, cb: XB}))
            for z in TM.walk(t):
                if z.op in ("res", "fld", "fold", "argext") or z is a or z is b:
                    raise Undecided("preference " + show(c)[:150])
            nm = lambda s: s.a[0].split("::")[-1]
            cases = []
            if which == "success":
                if x is ok and y is not ok:
                    cases = [((), TRUE)]
                elif x is not ok and y is ok:
                    cases = [((), FALSE)]
            elif (x is ok) == (y is ok):
                cases = [((cmp("flt", XA, XB),), TRUE), ((cmp("flt", XB, XA),), FALSE)]
            for assume, want in cases:
                n += 1
                k = Cases(nonan=True)
                r = k.check(t, want, list(assume))
                if r is None:
                    raise Undecided("preference " + show(t)[:100])
                if r is False:
                    return "a result with status %s%s %s one with status %s" % (nm(x), " and lower cost" if assume and want is TRUE else " and higher cost" if assume else "", "does not replace" if want is TRUE else "can replace", nm(y))
    if not n:
        raise Broken("no pair of statuses")


@check("P06", "multistart is executed for a symbolic list of guesses with the solve function uninterpreted: the calls made are one per guess with that guess, and the condition under which one result is kept over another is decided for every pair of exit statuses and every order of costs.", expect=1)
def p06(R):
    u = R.unit("opt")
    got = []

    def ex():
        if not got:
            got.append(extract(u))
            R.saw(u, [g for g in u.fns.values() if g.get("body") and g["id"] in got[0][0].inlined])
        return got[0]
    R.check("one run per guess", WHERE, lambda: calls(ex()[0], ex()[2]))

    def prefer(which):
        """for any number of guesses; a rule of another form is still refuted
        by few guesses"""
        try:
            return prefers(u, ex()[1], which)
        except (Undecided, Unsupported, Broken):
            r = small(u)
            if r:
                return r
            raise
    R.check("success before failure", WHERE, lambda: prefer("success"))
    R.check("lowest cost among equals", WHERE, lambda: prefer("cost"))
