"""S06, S08, S09, S11, S12, S14, S15: helpers of the solvers."""
from frame import check, Broken
from sem import Interp, State, Unsupported
import sem, libmodel as LM, term as TM, numev
from term import *
from decide import canon, Cases
from vx import Undecided
from numev import same
from chk_sutil import V, M, mm, plus, minus, times, n1, ninf, rows, filled, fmax, find, fcall, sampler
import math, random
import numpy as np


import os
STATS = os.environ.get('STATS')
def one(u, q):
    return find(u, "sclient::" + q)[0]


def shortf(t):
    """fields of a value by short name"""
    if t.op != "rec":
        raise Undecided("value of " + show(t)[:80])
    return {k.split("::")[-1]: (k, v) for k, v in t.a[1]}


def accs(t):
    """accumulators of folds named by their nesting"""
    memos = {}

    def go(t, env, key, d):
        if t in env:
            return env[t]
        if not t.a or t.op in ("sym", "num", "phi", "bv"):
            return t
        memo = memos.setdefault(key, {})
        r = memo.get(t)
        if r is None:
            if t.op == "fold":
                new = sym("acc", str(d))
                r = raw("fold", sub(t.a[0], env, key, d), new, go(t.a[2], env, key, d), go(t.a[3], {**env, t.a[1]: new}, key + ((t.a[1], d),), d + 1))
            elif t.op == "rec":
                r = rec(t.a[0], {k: go(v, env, key, d) for k, v in t.a[1]})
            else:
                args = tuple(sub(x, env, key, d) for x in t.a)
                r = t if args == t.a else raw(t.op, *args)
            TM.carry(t, r)
            memo[t] = r
        return r

    def sub(x, env, key, d):
        return go(x, env, key, d) if isinstance(x, T) else tuple(sub(y, env, key, d) for y in x) if isinstance(x, tuple) else x
    return canon(go(t, {}, (), 0)) if any(x.op == "fold" for x in TM.walk(t)) else t


def settled(a, b, deep=0, assume=(), nonan=False):
    """equality by case analysis; sums, quantifiers and lists over the same
    ranges by their bodies"""
    if a is b:
        return True
    if a.op == b.op and a.op in ("sum", "exists", "forall", "comp") and a.a[0] == b.a[0] and deep < 3:
        # bound variables are free in the bodies
        m = {v: sym("bound", str(v.a), deep) for v, _, _ in a.a[0]}
        return all(settled(canon(TM.subst(x, m)), canon(TM.subst(y, m)), deep + 1, assume, nonan) for x, y in zip(a.a[1:], b.a[1:]))
    if a.op == "not" and b.op == "not":
        return settled(a.a[0], b.a[0], deep, assume, nonan)
    try:
        return Cases(nonan=nonan, limit=5000).check(a, b, list(assume) + [cmp("flt", ZERO, raw("eps"))]) is True
    except Undecided:
        return False


def alike(got, want, sample, n=300, key=None, what="value", assume=(), nonan=False):
    """None or a description of a point at which the two formulas differ"""
    a, b = accs(canon(got)), accs(canon(want))
    if a is b:
        return None
    if settled(a, b, 0, assume, nonan):
        return None
    if STATS:
        print('SAMPLED', what, show(a)[:700], 'WANT', show(b)[:700])
    rng = random.Random(7)
    for k in range(n):
        env = sample(rng, k)
        y = numev.Ev(env)(b)
        try:
            x = numev.Ev(env)(a)
        except IndexError:
            return "%s reads outside of a vector at %s; extracted: %s" % (what, ", ".join("%s=%s" % (show(t)[:30], numev.fmt(v)) for t, v in env.items())[:400], show(a)[:600])
        if key:
            x, y = key(x), key(y)
        if not numev.close(x, y) and all(differs(a, b, jiggle(env, rng), key) for _ in range(6)):
            return "%s is %s instead of %s at %s; extracted: %s" % (what, x, y, ", ".join("%s=%s" % (show(t)[:30], numev.fmt(v)) for t, v in env.items())[:400], show(a)[:300])


def differs(a, b, env, key):
    x, y = numev.Ev(env)(a), numev.Ev(env)(b)
    return not numev.close(key(x) if key else x, key(y) if key else y)


def jiggle(env, rng):
    """the values moved by a rounding error's worth, equal ones alike, so that
    a difference that only rounding at a tie makes does not count"""
    m = {}

    def go(v):
        if isinstance(v, dict):
            return {k: go(x) for k, x in v.items()}
        if isinstance(v, list):
            return [go(x) for x in v]
        if isinstance(v, np.ndarray):
            return np.vectorize(go)(v) if v.size else v
        if isinstance(v, (bool, int)):
            return v
        v = float(v)
        if v not in m:
            m[v] = v * (1 + rng.uniform(-1, 1) * 1e-12)
        return m[v]
    return {k: go(v) for k, v in env.items()}


# ------------------------------------------------------------------ S06

FE = "slp::FilterEntry::"


def fsample(rng, k):
    def mag():
        return rng.choice([0.0, 1.0, 10 ** rng.uniform(-13, 3), 10 ** rng.uniform(-9, 5)])
    inf = rng.choice([1e4, 2e4, 1e7])
    mn, mx = inf * 1e-8, inf
    cv = rng.choice([mag(), mn, mn * 0.5, mn * 1.5, mn * 10 ** rng.uniform(-3, 0)])
    a = rng.choice([1.0, 0.5, 0.25, 10 ** rng.uniform(-6, 0)])
    D = rng.choice([-1, -1, -1, 1, 0]) * mag()
    cc = rng.choice([0.0, 1.0, -2.0, mag()])
    d = rng.choice([0.0, 1, -1]) * 10 ** rng.uniform(-18, 2)
    tc = cc + rng.choice([d, 1e-8 * a * D, 1e-8 * a * D * 1.001, 1e-8 * a * D * .999, -a ** 1.5 * 1e-8 * cv, -a ** 1.5 * 1e-8 * cv * 1.01])
    tv = rng.choice([cv, mag(), mx, mx * 1.1, cv * (1 - a ** 1.5 * 1e-5), cv * (1 - a ** 1.5 * .9e-5), cv * (1 - a ** 1.5 * 1.1e-5)])
    if rng.random() < 0.05:
        tc = rng.choice([math.inf, -math.inf, math.nan])
    if rng.random() < 0.05:
        tv = rng.choice([math.inf, math.nan])
    ents = [{"cost": rng.choice([tc, tc + 1, tc - 1, mag() - 1, cc, cc - 1e-7]), "constraint_violation": rng.choice([tv, tv / 2, tv * 2, mag(), cv])} for _ in range(rng.choice([0, 0, 1, 2, 3]))]
    return {sym("f"): {"min_constraint_violation": mn, "max_constraint_violation": mx, "#list": ents, "#flag": rng.random() < .5},
            sym("cur"): {"cost": cc, "constraint_violation": cv}, sym("trial"): {"cost": tc, "constraint_violation": tv}, sym("D"): D, sym("a"): a}


def entries(x):
    if not isinstance(x, list):
        return x
    return sorted(({k: float(v) for k, v in e.items()} for e in x), key=lambda e: (e["cost"], e["constraint_violation"]))


@check("S06", "The filter's accept decision and its entries, flag and limits after try_add, reset and construction are extracted as closed forms in the entries' cost and violation and compared with the documented rule; entries are compared with the documented merit and violation.", expect=4)
def s06(R):
    u = R.unit("sclient")
    fs = {n: one(u, n) for n in ("filter_try", "filter_reset", "filter_last", "filter_new", "entry_f", "entry_sqp", "entry_ipm")}
    R.saw(u, list(fs.values()) + [f for f in u.fns.values() if f["q"].startswith(("slp::Filter::", "slp::FilterEntry::")) and f.get("body")])
    where = "include/sleipnir/optimization/solver/util/filter.hpp"
    box = {}

    def new():
        cv = sym("cv")
        v, *_ = fcall(u, fs["filter_new"], [cv])
        d = shortf(canon(v))
        top = fmax(ONE, cv)
        for n, c in (("min_constraint_violation", 1e-4), ("max_constraint_violation", 1e4)):
            if n not in d:
                raise Undecided("no " + n)
            b = same(d[n][1], mul(num(c), top), sampler({cv: ("ps",)}), what=n)
            if b:
                return b
        rest = [(n, k, v) for n, (k, v) in d.items() if n not in ("min_constraint_violation", "max_constraint_violation")]
        ls = [k for n, k, v in rest if v.op == "list"]
        fl = [k for n, k, v in rest if v in (TRUE, FALSE)]
        if len(ls) != 1 or len(fl) != 1 or len(rest) != 2:
            raise Undecided("members of a filter: " + ", ".join(n for n, _, _ in rest))
        box["list"], box["flag"] = ls[0], fl[0]
        v = [v for n, k, v in rest if k == ls[0]][0]
        if v.a:
            return "a new filter has entries"
        if dict((k, v) for n, k, v in rest)[fl[0]] is not FALSE:
            return "a new filter reports a rejection"
    R.check("construction", where, new)

    def need():
        if not box:
            raise Undecided("members of a filter")
        short = {box["list"].split("::")[-1]: "#list", box["flag"].split("::")[-1]: "#flag"}

        def sample(rng, k):
            e = fsample(rng, k)
            f = e[sym("f")]
            e[sym("f")] = {**{n: f["#" + m] for n, m in ((box["list"].split("::")[-1], "list"), (box["flag"].split("::")[-1], "flag"))}, **{k: v for k, v in f.items() if k[0] != "#"}}
            return e
        return sample

    f, cur, trial, D, a = sym("f"), sym("cur"), sym("trial"), sym("D"), sym("a")

    def spec():
        g = lambda x, n: getf(x, FE + n)
        cc, cv, tc, tv = g(cur, "cost"), g(cur, "constraint_violation"), g(trial, "cost"), g(trial, "constraint_violation")
        mn, mx = getf(f, "slp::Filter::min_constraint_violation"), getf(f, "slp::Filter::max_constraint_violation")
        pw = lambda x, y: raw("fn:pow", x, num(y))
        sw = And(cmp("flt", D, ZERO), cmp("flt", pw(cv, 1.1), mul(a, pw(neg(D), 2.3))))
        arm = cmp("fle", tc, add(cc, mul(mul(num(1e-8), a), D)))
        phi = pw(a, 1.5)
        mc = sub(cc, mul(mul(phi, num(1e-8)), cv))
        mv = mul(sub(ONE, mul(phi, num(1e-5))), cv)
        suff = Or(cmp("fle", tc, mc), cmp("fle", tv, mv))
        L = getf(f, box["list"])
        h = raw("bv", "h")
        e = sel(L, h)
        dom = raw("exists", ((h, ZERO, raw("len", L)),), And(cmp("fle", g(e, "cost"), tc), cmp("fle", g(e, "constraint_violation"), tv)))
        pre = And(raw("isfinite", tc), raw("isfinite", tv), Not(cmp("flt", mx, tv)), ite(And(cmp("fle", cv, mn), sw), arm, suff))
        acc = And(pre, Not(dom))
        flag = ite(acc, getf(f, box["flag"]), ite(pre, TRUE, FALSE))
        keep = raw("comp", ((h, ZERO, raw("len", L)),), Not(And(cmp("fle", mc, g(e, "cost")), cmp("fle", mv, g(e, "constraint_violation")))), e)
        lst = ite(And(acc, Not(And(sw, arm))), raw("push", keep, rec("slp::FilterEntry<double>", {FE + "cost": mc, FE + "constraint_violation": mv})), L)
        return acc, lst, flag

    def tried():
        v, st, I, lv = fcall(u, fs["filter_try"], [f, cur, trial, D, a])
        return v, I.load(st, lv[0]), st, I, lv

    def accept():
        sample = need()
        return alike(tried()[0], spec()[0], sample, 4000, what="acceptance")
    R.check("acceptance", where, accept)

    def stored():
        sample = need()
        return alike(getf(tried()[1], box["list"]), spec()[1], sample, 2500, key=entries, what="the filter after a trial")
    R.check("entries", where, stored)

    def flag():
        sample = need()
        return alike(getf(tried()[1], box["flag"]), spec()[2], sample, 2500, what="the recorded reason of the last rejection")
    R.check("rejection reason", where, flag)

    def limits():
        need()
        x = tried()[1]
        for n in ("min_constraint_violation", "max_constraint_violation"):
            k = "slp::Filter::" + n
            if canon(getf(x, k)) is not canon(getf(f, k)):
                return "a trial changes %s to %s" % (n, show(canon(getf(x, k)))[:200])
    R.check("limits stay", where, limits)

    def reset():
        need()
        v, st, I, lv = fcall(u, fs["filter_reset"], [f])
        x = I.load(st, lv[0])
        l = canon(getf(x, box["list"]))
        if l.op != "list" or l.a:
            return "after a reset the filter holds " + show(l)[:200]
        if canon(getf(x, box["flag"])) is not FALSE:
            return "after a reset the last rejection's reason is " + show(canon(getf(x, box["flag"])))[:100]
        for n in ("min_constraint_violation", "max_constraint_violation"):
            k = "slp::Filter::" + n
            if canon(getf(x, k)) is not canon(getf(f, k)):
                return "a reset changes %s to %s" % (n, show(canon(getf(x, k)))[:200])
    R.check("reset", where, reset)

    def last():
        need()
        v, *_ = fcall(u, fs["filter_last"], [f])
        if canon(v) is not canon(getf(f, box["flag"])):
            return "last_rejection_due_to_filter() is " + show(canon(v))[:200]
    R.check("last_rejection_due_to_filter", where, last)

    x, c_e, c_i, s, mu = sym("f"), V("c_e"), V("c_i"), V("s"), sym("mu")
    sh = {x: ("s",), c_e: ("v", "e"), c_i: ("v", "i"), s: ("pv", "i"), mu: ("ps",)}
    for n, args, cost, viol in (("entry_f", [x], x, ZERO), ("entry_sqp", [x, c_e], x, n1(c_e)),
                                ("entry_ipm", [x, s, c_e, c_i, mu], sub(x, mul(mu, raw("red:sum", raw("ew:log", s)))), add(n1(c_e), n1(minus(c_i, s))))):
        def entry(n=n, args=args, cost=cost, viol=viol):
            v, *_ = fcall(u, fs[n], args)
            v = canon(v)
            for k, w in (("cost", cost), ("constraint_violation", viol)):
                b = same(getf(v, FE + k), w, sampler({t: sh[t] for t in args}), what=k)
                if b:
                    return b
        R.check(n, where, entry)


# ------------------------------------------------------------------ S09

EPS = 2.0 ** -52


@check("S09", "The three counts extracted from both constructions of an inertia are compared, as sums over the entries, with the documented thresholds; equality of inertias compares all three counts.", expect=1)
def s09(R):
    u = R.unit("sclient")
    where = "include/sleipnir/optimization/solver/util/inertia.hpp"
    fs = {n: one(u, n) for n in ("inertia_vec", "inertia_diag", "inertia_eq")}
    R.saw(u, list(fs.values()) + [f for f in u.fns.values() if f["q"].startswith("slp::Inertia::") and f.get("body")])
    d = V("d")

    def spec():
        h = raw("bv", "h")
        e, eps = sel(d, h), raw("eps")
        r = ((h, ZERO, rows(d)),)
        pos, ng = cmp("flt", eps, e), cmp("flt", e, neg(eps))
        cnt = lambda c: raw("sum", r, ite(c, ONE, ZERO))
        return {"positive": cnt(pos), "negative": cnt(ng), "zero": cnt(And(Not(pos), Not(ng)))}

    def sample(rng, k):
        def x():
            return rng.choice([-1, 1]) * rng.choice([0.0, 1.0, EPS * 1.01, EPS * .99, EPS * 2, EPS / 2, 1e-15, 1e-17, 1e-300, 1e300, math.inf, 10 ** rng.uniform(-20, 5)])
        return {d: np.array([x() for _ in range(rng.choice([0, 1, 2, 3, 5]))])}

    def counted(n):
        def go():
            f = fs[n]
            a = sym(f["params"][0]["n"])
            v, st, I, lv = fcall(u, f, [a])
            v = canon(v)
            if n == "inertia_diag":
                subs = {t: d for t in TM.walk(v) if t.op == "ref" and any(k == ("p", "diagonal") for k in t.a[-1])}
                if len(subs) > 1:
                    raise Undecided("several views of the matrix")
                v = TM.subst(v, subs)
            else:
                v = TM.subst(v, {a: d})
            v = TM.subst(v, {raw("dim:size", d): rows(d)})
            g = shortf(v)
            for k, w in spec().items():
                if k not in g:
                    raise Undecided("no count " + k)
                b = alike(g[k][1], w, sample, 500, what="the number of %s entries" % k)
                if b:
                    return b
        return go
    R.check("counts of a vector", where, counted("inertia_vec"))
    R.check("counts of a diagonal", where, counted("inertia_diag"))

    def eq():
        f = fs["inertia_eq"]
        a, b = sym("a"), sym("b")
        v, *_ = fcall(u, f, [a, b])
        want = And(*[cmp("ieq", getf(a, "slp::Inertia::" + n), getf(b, "slp::Inertia::" + n)) for n in ("positive", "negative", "zero")])

        def sm(rng, k):
            one = lambda: {n: rng.choice([0, 1, 2]) for n in ("positive", "negative", "zero")}
            x = one()
            y = dict(x) if rng.random() < .4 else one()
            if rng.random() < .5:
                y = dict(x)
                y[rng.choice(list(y))] += 1
            return {a: x, b: y}
        return alike(v, want, sm, 200, what="equality")
    R.check("equality", where, eq)


# ------------------------------------------------------------------ S12

@check("S12", "The local infeasibility tests and the finiteness tests, extracted as formulas over the Jacobian and the constraint values, are compared with the documented rule, and are the ones whose outcome the solvers report (S02).", expect=1)
def s12(R):
    u = R.unit("sclient")
    where = "include/sleipnir/optimization/solver/util/is_locally_infeasible.hpp"
    fs = {n: one(u, n) for n in ("eq_infeasible", "in_infeasible", "finite_m", "finite_v")}
    R.saw(u, list(fs.values()) + [f for f in u.fns.values() if f["q"] in ("slp::is_equality_locally_infeasible", "slp::is_inequality_locally_infeasible", "slp::all_finite") and f.get("body")])
    A, c = M("A"), V("c")
    nrm = lambda v: raw("red:norm", v)

    def sample(tols):
        def go(rng, k):
            m, n = rng.choice([0, 1, 2, 3]), rng.choice([1, 2])
            t = rng.choice(tols) * rng.choice([1, .5, 2, .99, 1.01, 1e3, 1e-3])
            cv = np.array([rng.choice([-1, 1]) * rng.choice([0.0, 1.0, rng.random()]) for _ in range(m)])
            s = np.linalg.norm(cv)
            if s and rng.random() < .8:
                cv = cv / s * t
            Am = np.array([[rng.uniform(-2, 2) for _ in range(n)] for _ in range(m)]).reshape(m, n)
            z = rng.random()
            if z < .3:
                Am = Am * 0
            elif z < .8 and m:
                w = np.linalg.norm(Am.T @ np.minimum(cv, 0)) if rng.random() < .5 else np.linalg.norm(Am.T @ cv)
                if w:
                    Am = Am / w * 1e-6 * rng.choice([.5, 2, .99, 1.01])
            return {A: Am, c: cv}
        return go

    def rule(n, v, big):
        def go():
            f = fs[n]
            r, *_ = fcall(u, f, [A, c])
            r = TM.subst(canon(r), {sym(f["params"][0]["n"]): A, sym(f["params"][1]["n"]): c})
            want = And(cmp("ilt", ZERO, rows(A)), cmp("flt", nrm(mm(TM.tr(A), v)), num(1e-6)), cmp("flt", num(big), nrm(v)))
            return alike(r, want, sample([1e-6, 1e-2, 1.0]), 4000, what="the test")
        return go
    R.check("equality constraints", where, rule("eq_infeasible", c, 1e-2))
    R.check("inequality constraints", where, rule("in_infeasible", TM.markvec(TM.markmat(raw("ew:min", c, ZERO))), 1e-6))

    def finite(n, two):
        def go():
            f = fs[n]
            a = sym("B" if two else "b")
            r, *_ = fcall(u, f, [a])
            h, k = raw("bv", "h"), raw("bv", "k")
            want = Not(raw("exists", ((h, ZERO, raw("dim:outerSize", a)),), raw("exists", ((k, ZERO, raw("nzcount", a, h)),), Not(raw("isfinite", raw("nzvalue", a, h, k))))))

            def sm(rng, k):
                x = lambda: rng.choice([0.0, 1.0, -2.5]) if rng.random() < .9 else rng.choice([math.inf, -math.inf, math.nan])
                m, k = rng.choice([1, 2, 3]), rng.choice([1, 2, 3])
                return {a: np.array([[x() for _ in range(k)] for _ in range(m)]) if two else np.array([x() for _ in range(m)])}
            return alike(r, want, sm, 500, what="the finiteness of a matrix")
        return go
    R.check("finiteness of a matrix", "include/sleipnir/optimization/solver/util/all_finite.hpp", finite("finite_m", True))
    R.check("finiteness of a vector", "include/sleipnir/optimization/solver/util/all_finite.hpp", finite("finite_v", False))


# ------------------------------------------------------------------ S14

ASG = ("H", "valuation")


def valuation(f, av):
    """variables' values as one heap value: value() reads it, set_value()
    changes it, type() doesn't depend on it"""
    q = f["q"]

    def val(I, st):
        return st.store.get(ASG, sym("valuation"))

    def rd(I, st, x):
        return I.load(st, x) if I.islv(x) else x
    if q == "slp::Variable<double>::value":
        return lambda I, st, fr, e, f, obj, av: raw("varvalue", val(I, st), rd(I, st, obj))
    if q == "slp::Variable<double>::set_value":
        def go(I, st, fr, e, f, obj, av):
            st.store[ASG] = raw("assign", val(I, st), rd(I, st, obj), rd(I, st, av[0]))
            return UNIT
        return go
    if q == "slp::Variable<double>::type":
        return lambda I, st, fr, e, f, obj, av: raw("vartype", rd(I, st, obj))


def pairs(t):
    m = {x: rec("pair", dict(x.a[1])) for x in TM.walk(t) if x.op == "rec" and [k for k, _ in x.a[1]] == ["t0", "t1"]}
    while m:
        # innermost first
        t2 = TM.subst(t, m)
        m = {x: rec("pair", dict(x.a[1])) for x in TM.walk(t2) if x.op == "rec" and x.a[0] != "pair" and [k for k, _ in x.a[1]] == ["t0", "t1"]}
        if t2 is t:
            break
        t = t2
    return canon(t)


def rowmajor(t):
    """rows of a row-major sparse matrix by outer index"""
    m = {}
    for x in TM.walk(t):
        if x.op in ("nzvalue", "nzindex", "nzcol") and isinstance(x.a[0], T) and x.a[0].op == "part:innerVector":
            p = x.a[0]
            m[x] = raw("nzvalue" if x.op == "nzvalue" else "nzcol", p.a[0], p.a[1], x.a[2])
        elif x.op in ("dim:nonZeros", "nzcount") and isinstance(x.a[0], T) and x.a[0].op == "part:innerVector":
            m[x] = raw("nzcount", x.a[0].a[0], x.a[0].a[1])
    return TM.subst(t, m) if m else t


@check("S14", "Bound detection is extracted as one-step transitions of the mask, the bounds, the conflicts and the variables' values, and the projection as a closed form; both are compared, by case analysis over the order of the bounds and signs, with the solution set of a single-variable linear constraint and the documented projection.", expect=3)
def s14(R):
    u = R.unit("sclient")
    where = "include/sleipnir/optimization/solver/util/bounds.hpp"
    fs = {n: one(u, n) for n in ("bounds", "project", "project_k")}
    R.saw(u, list(fs.values()) + [f for f in u.fns.values() if f["q"] in ("slp::get_bounds", "slp::project_onto_bounds") and f.get("body")])
    v_, c_, A_ = sym("v"), sym("c"), M("A")
    box = {}

    def steps():
        if box:
            return box
        f = fs["bounds"]
        r, st, I, lv = fcall(u, f, [v_, c_, A_], opaque=valuation)
        g = shortf(canon(r))
        G, K = sym("G"), sym("K")
        rng = []

        def step(t):
            """(initial value, one step) of a summarised loop's variable"""
            t = rowmajor(canon(t))
            if t.op == "fold" and len(t.a[0]) == 1:
                b = t.a[0][0]
                rng.append(b[1:])
                return t.a[1], t.a[2], TM.subst(t.a[3], {b[0]: K})
            if t.op == "forupd" and len(t.a[1]) == 1:
                b = t.a[1][0]
                rng.append(b[1:])
                acc = sym("acc", "mask")
                return acc, t.a[0], ite(TM.subst(t.a[4], {b[0]: K}), raw("upd", acc, *[TM.subst(i, {b[0]: K}) for i in t.a[2]], TM.subst(t.a[3], {b[0]: K})), acc)
            raise Undecided("not a single loop over the constraints: " + show(t)[:100])
        for n in ("bound_constraint_mask", "bounds", "conflicting_bound_indices"):
            if n not in g:
                raise Undecided("no " + n)
            box[n] = step(g[n][1])
        if ASG in st.store:
            box["asg"] = step(st.store[ASG])
        others = {}
        for k, x in st.store.items():
            if isinstance(x, T) and x.op in ("fold", "forupd") and k != ASG:
                try:
                    a, i, b = step(x)
                    others[a] = (i, b)
                except Undecided:
                    pass
        if any(r != (ZERO, raw("len", c_)) for r in rng):
            raise Undecided("a loop doesn't range over the constraints")
        box["others"] = others
        box["G"], box["K"] = G, K
        return box

    def atoms():
        b = steps()
        K = b["K"]
        a, j, cnt = raw("nzvalue", A_, K, ZERO), raw("nzcol", A_, K, ZERO), raw("nzcount", A_, K)
        gacc = b["asg"][0] if "asg" in b else sym("valuation")
        lin = [x for t in b.values() if isinstance(t, tuple) for x in TM.walk(t[2]) if x.op == "peq" and any(y.op == "vartype" for y in TM.walk(x))]
        names = {show(x) for x in lin}
        if not lin or not all("LINEAR" in n for n in names):
            return dict(b=b, K=K, a=a, j=j, cnt=cnt, asg=gacc, lin=None)
        lin = set(lin)
        if len(lin) != 1:
            raise Undecided("tests of a constraint's type")
        return dict(b=b, K=K, a=a, j=j, cnt=cnt, asg=gacc, lin=lin.pop())

    def simple(t, A):
        """values of constraints at valuations in terms of the constant"""
        x, G, c = sel(v_, A["j"]), A["asg"], sel(c_, A["K"])
        k0 = raw("varvalue", raw("assign", G, x, ZERO), c)
        for _ in range(4):
            m = {}
            for y in TM.walk(t):
                if y.op == "assign" and y.a[0].op == "assign" and y.a[0].a[1] is y.a[1]:
                    m[y] = raw("assign", y.a[0].a[0], y.a[1], y.a[2])
                elif y.op == "assign" and y.a[2].op == "varvalue" and y.a[2].a[0] is y.a[0] and y.a[2].a[1] is y.a[1]:
                    m[y] = y.a[0]
                elif y.op == "varvalue" and y.a[0].op == "assign" and y.a[0].a[1] is y.a[1]:
                    m[y] = y.a[0].a[2]
            if not m:
                break
            t = canon(TM.subst(t, m))
        return t, k0, raw("varvalue", G, x), raw("varvalue", G, c)

    def compare(t, want, A, what, key=None):
        """equality of one step in both cases for the variable's value"""
        t, k0, xv, cv = simple(t, A)
        zero = cmp("feq", ZERO, xv)
        CK, AK = sym("constant"), sym("coefficient")
        J, CNT, LIN = sym("J"), sym("count"), A["lin"]
        for at0 in (True, False):
            m = {k0: CK, A["a"]: AK, A["j"]: J, A["cnt"]: CNT}
            x = canon(TM.subst(t, m))
            xv2, cv2 = TM.subst(xv, m), TM.subst(cv, m)
            if at0:
                x = TM.subst(x, {cv2: CK})
                x = canon(TM.subst(x, {xv2: ZERO}))
            else:
                x = canon(TM.subst(x, {canon(cmp("feq", ZERO, xv2)): FALSE}))
            x, w = pairs(x), want(CK, AK, J, CNT, LIN)
            for y in TM.walk(canon(x)):
                if y.op in ("varvalue", "assign") and at0 or y.op in ("nzvalue", "nzcol", "nzcount", "nzindex", "part:innerVector"):
                    raise Undecided("one step reads " + show(y)[:80])

            def sample(rng, k):
                e = {CK: rng.choice([0.0, 1.0, -2.0, rng.uniform(-5, 5)]), AK: rng.choice([0.0, 1.0, -1.0, 2.5, -3.0, 1e-9, -1e-12, 1e9]), J: rng.choice([0, 1]), CNT: rng.choice([0, 1, 1, 1, 2]), A["K"]: rng.choice([0, 1, 2, 3, 3]), LIN: rng.random() < .8,
                     xv2: rng.uniform(1, 2), cv2: rng.uniform(5, 9)}
                lo, hi = (lambda: rng.choice([-math.inf, -2.0, 0.0, rng.uniform(-3, 3)])), (lambda: rng.choice([math.inf, 2.0, 0.0, rng.uniform(-3, 3)]))
                ix = lambda: rng.choice([-1, 0, 1, 2])
                for n in ("bounds", "conflicting_bound_indices"):
                    e[A["b"][n][0]] = [{"t0": lo(), "t1": hi()} for _ in range(2)] if n == "bounds" else [{"t0": 0, "t1": 1}] * rng.choice([0, 1])
                for o in A["b"]["others"]:
                    if o not in e:
                        e[o] = [{"t0": ix(), "t1": ix()} for _ in range(2)]
                e[A["b"]["bound_constraint_mask"][0]] = [rng.random() < .5 for _ in range(4)]
                return e
            b = alike(x, w, sample, 1500, key=key, what=what + (" (variable at zero)" if at0 else ""), nonan=True)
            if b:
                return b

    def isb(A, AK, CNT):
        if A["lin"] is None:
            return None
        return And(A["lin"], cmp("ieq", CNT, ONE), Not(cmp("feq", AK, ZERO)))

    def cond(A):
        if A["lin"] is None:
            return "constraints are bounds without regard to their being linear"

    def mask():
        A = atoms()
        if cond(A):
            return cond(A)
        acc, init, body = A["b"]["bound_constraint_mask"]
        if not (init.op == "vfill" and init.a[1] is FALSE):
            if init.op == "vfill":
                return "constraints start as %s" % show(init.a[1])
            raise Undecided("initial mask " + show(init)[:80])
        return compare(body, lambda CK, AK, J, CNT, LIN: ite(isb(A, AK, CNT), raw("upd", acc, A["K"], TRUE), acc), A, "the mask of bound constraints")
    R.check("mask", where, mask)

    def pr(t, i):
        return getf(t, "t%d" % i)

    def newbounds(B, CK, AK, J, A, CNT):
        nb = div(neg(CK), AK)
        up = And(isb(A, AK, CNT), cmp("flt", AK, ZERO), cmp("flt", nb, pr(sel(B, J), 1)))
        lo = And(isb(A, AK, CNT), cmp("flt", ZERO, AK), cmp("flt", pr(sel(B, J), 0), nb))
        return nb, lo, up

    def bnds():
        A = atoms()
        if cond(A):
            return cond(A)
        acc, init, body = A["b"]["bounds"]
        want = raw("fill", raw("len", v_), rec("pair", {"t0": neg(INF), "t1": INF}))
        if init.op != "fill":
            raise Undecided("initial bounds " + show(init)[:80])
        ib = shortf(init.a[1])
        if canon(init.a[0]) is not canon(raw("len", v_)) or [canon(ib[k][1]) for k in ("t0", "t1")] != [canon(neg(INF)), canon(INF)]:
            return "initially the bounds are " + show(init)[:150]

        def w(CK, AK, J, CNT, LIN):
            nb, lo, up = newbounds(acc, CK, AK, J, A, CNT)
            s = lambda i: raw("upd", acc, J, TM.setf(sel(acc, J), "t%d" % i, nb))
            return ite(lo, s(0), ite(up, s(1), acc))
        return compare(body, w, A, "the bounds after one constraint")
    R.check("bounds", where, bnds)

    def conf():
        A = atoms()
        if cond(A):
            return cond(A)
        acc, init, body = A["b"]["conflicting_bound_indices"]
        if init.op != "list":
            raise Undecided("initial conflicts " + show(init)[:80])
        if init.a:
            return "conflicts are reported without constraints"
        oth = [o for o in A["b"]["others"] if o in TM.leaves(body) and o is not A["b"]["bounds"][0] and o is not acc and o is not A["asg"]]
        if len(oth) != 1:
            raise Undecided("the record of which constraints bound a variable")
        Ix = oth[0]
        B = A["b"]["bounds"][0]

        def w(CK, AK, J, CNT, LIN):
            nb, lo, up = newbounds(B, CK, AK, J, A, CNT)
            l, h = ite(lo, nb, pr(sel(B, J), 0)), ite(up, nb, pr(sel(B, J), 1))
            li, hi = ite(lo, A["K"], pr(sel(Ix, J), 0)), ite(up, A["K"], pr(sel(Ix, J), 1))
            return ite(And(isb(A, AK, CNT), cmp("flt", h, l)), raw("push", acc, rec("pair", {"t0": li, "t1": hi})), acc)
        b = compare(body, w, A, "the conflicts after one constraint")
        if b:
            return b
        ii, ib = A["b"]["others"][Ix]

        def wi(CK, AK, J, CNT, LIN):
            nb, lo, up = newbounds(B, CK, AK, J, A, CNT)
            s = lambda i: raw("upd", Ix, J, TM.setf(sel(Ix, J), "t%d" % i, A["K"]))
            return ite(lo, s(0), ite(up, s(1), Ix))
        return compare(ib, wi, A, "the record of which constraints bound a variable")
    R.check("conflicts", where, conf)

    def restored():
        b = steps()
        if "asg" not in b:
            return None
        A = atoms()
        acc, init, body = b["asg"]
        t, k0, xv, cv = simple(body, A)
        if not settled(canon(t), acc, nonan=True):
            # a state with an assignment that isn't undone
            left = [x for x in TM.walk(t) if x.op == "assign"]
            if left and canon(left[0].a[2]) is not canon(raw("varvalue", left[0].a[0], left[0].a[1])):
                return "after a constraint was examined a variable is left at " + show(left[0].a[2])[:150]
            raise Undecided("values of the variables after one constraint: " + show(t)[:150])
    R.check("variables keep their values", where, restored)

    def project(n):
        def go():
            f = fs[n]
            x, b = V("x"), sym("b")
            k1, k2 = (num(0.01), num(0.01)) if n == "project" else (sym("k1"), sym("k2"))
            args = [x, b] + ([] if n == "project" else [k1, k2])
            r, st, I, lv = fcall(u, f, args)
            got = TM.subst(canon(I.load(st, lv[0])), {sym(p["n"]): a for p, a in zip(f["params"], args)})
            h = raw("bv", "h")
            lo, hi, xi = pr(sel(b, h), 0), pr(sel(b, h), 1), sel(x, h)
            mag = lambda t: mul(k1, fmax(ONE, raw("fn:abs", t)))
            wid = mul(k2, sub(hi, lo))
            mn = lambda p, q: raw("min", p, q)
            pL, pU = mn(mag(lo), wid), mn(mag(hi), wid)
            fl, fh = raw("isfinite", lo), raw("isfinite", hi)
            both = mn(fmax(add(lo, pL), xi), sub(hi, pU))
            val = ite(And(fl, fh), both, ite(fl, fmax(xi, add(lo, mag(lo))), mn(xi, sub(hi, mag(hi)))))
            want = raw("forupd", x, ((h, ZERO, raw("len", b)),), (h,), val, Or(fl, fh))

            def sample(rng, k):
                m = rng.choice([1, 2, 3])
                bs, xs = [], []
                for _ in range(m):
                    l = rng.choice([-math.inf, 0.0, rng.uniform(-5, 5), rng.uniform(-500, 500)])
                    w = rng.choice([math.inf, 0.0, 1.0, 10 ** rng.uniform(-3, 3)])
                    h = rng.uniform(-5, 5) if l == -math.inf and rng.random() < .7 else l + w if l != -math.inf else math.inf
                    bs.append({"t0": l, "t1": h})
                    xs.append(rng.choice([0.0, l if math.isfinite(l) else 1.0, h if math.isfinite(h) else -1.0, rng.uniform(-6, 6), rng.uniform(-600, 600), l + rng.uniform(0, 1) * w if math.isfinite(l) and math.isfinite(w) else 2.0]))
                e = {x: np.array(xs), b: bs}
                if n != "project":
                    e[k1], e[k2] = 10 ** rng.uniform(-4, 0), rng.uniform(0.001, 0.499)
                return e
            return alike(got, want, sample, 1500, what="the projected variables", nonan=True)
        return go
    R.check("projection", where, project("project_k"))
    R.check("projection with the default margins", where, project("project"))


# ------------------------------------------------------------------ S11

def rownorms(A):
    """largest magnitude in each row of a sparse matrix, entry by entry"""
    h, k, acc = raw("bv", "h"), raw("bv", "k"), sym("acc", "norms")
    at = raw("nzrow", A, h, k)
    body = raw("upd", acc, at, raw("max", sel(acc, at), raw("fn:abs", raw("nzvalue", A, h, k))))
    z = LM.vmark(raw("vfill", raw("dims", rows(A)), ZERO))
    return LM.vmark(raw("fold", ((h, ZERO, raw("dim:outerSize", A)),), acc, z, raw("fold", ((k, ZERO, raw("nzcount", A, h)),), acc, acc, body)))


def ssample(shapes):
    """sparse matrices with rows of zeros, of large and of small entries"""
    def go(rng, k):
        n = rng.choice([1, 2, 3])

        def x():
            return rng.choice([0.0, 0.0, 1.0, -50.0, 100.0, -100.5, 99.5, rng.uniform(-300, 300), 10 ** rng.uniform(-4, 6)])
        env = {}
        for t, kind in shapes.items():
            m = rng.choice([1, 2, 3])
            env[t] = np.array([x() for _ in range(n)]) if kind == "v" else np.array([[x() for _ in range(n)] for _ in range(m)])
        return env
    return go


@check("S11", "Scaling factors are extracted as formulas in the gradient and the rows of the Jacobians and compared with the documented rule; the largest entry of each row is a fold over every stored entry.", expect=2)
def s11(R):
    u = R.unit("sclient")
    where = "include/sleipnir/optimization/solver/util/problem_scaling.hpp"
    fs = {n: one(u, n) for n in ("scaling_g", "scaling_sparse_g", "scaling_ge", "scaling_gei", "row_norms")}
    R.saw(u, list(fs.values()) + [f for f in u.fns.values() if f["q"].startswith(("slp::ProblemScaling", "slp::sparse_inf_norms")) and f.get("body")])

    def norms():
        A = M("A")
        f = fs["row_norms"]
        v, *_ = fcall(u, f, [A])
        return alike(TM.subst(canon(v), {sym(f["params"][0]["n"]): A}), rownorms(A), ssample({A: "m"}), 300, what="the norms of the rows")
    R.check("norms of rows", "include/sleipnir/optimization/solver/util/sparse_inf_norms.hpp", norms)

    def factors(n, k):
        def go():
            f = fs[n]
            args = [V("g"), M("A_e"), M("A_i")][:k]
            v, *_ = fcall(u, f, args)
            d = shortf(TM.subst(canon(v), {sym(p["n"]): a for p, a in zip(f["params"], args)}))
            want = {"f": raw("min", ONE, div(num(100), ninf(args[0])))}
            for i, nm in ((1, "c_e"), (2, "c_i")):
                if k > i:
                    want[nm] = LM.vmark(raw("ew:min", times(num(100), raw("vinv", rownorms(args[i]))), ONE))
            sm = ssample({a: "v" if i == 0 else "m" for i, a in enumerate(args)})
            for nm in ("f", "c_e", "c_i"):
                if nm not in d:
                    raise Undecided("no factor " + nm)
                if nm in want:
                    b = alike(d[nm][1], want[nm], sm, 300, what="the factor of " + nm)
                    if b:
                        return b
                elif not (d[nm][1].op == "eigen0" and d[nm][1].a and d[nm][1].a[0] == "empty"):
                    z = canon(rows(d[nm][1]))
                    if z is not ZERO:
                        raise Undecided("factor of absent constraints " + show(d[nm][1])[:80])
        return go
    R.check("factor of the cost", where, factors("scaling_g", 1))
    R.check("factor of the cost (sparse gradient)", where, factors("scaling_sparse_g", 1))
    R.check("factors with equality constraints", where, factors("scaling_ge", 2))
    R.check("factors with both kinds of constraints", where, factors("scaling_gei", 3))
    import chk_problem
    chk_problem.scaled(R)


# ------------------------------------------------------------------ S15

def assembled(t):
    """a vector assembled from adjacent segments is their stack; filling a
    segment gives a vector of its length"""
    def go(x):
        if x.op == "vfill" and x.a[0].op == "dims_of" and x.a[0].a[0].op == "part:segment":
            return LM.vmark(raw("vfill", raw("dims", x.a[0].a[0].a[2]), x.a[1]))
        if x.op == "dim:rows" and x.a[0].op == "part:segment":
            return x.a[0].a[2]
        if x.op != "updp":
            return x
        bs, y = [], x
        while y.op == "updp" and y.a[1][0] == "segment" and len(y.a[1]) == 3:
            bs.append((canon(y.a[1][1]), canon(y.a[1][2]), y.a[2]))
            y = y.a[0]
        if y.op != "eigen0" or len(y.a) != 2 or y.a[0] != "dim":
            return x
        at, out = ZERO, []
        while bs:
            b = [b for b in bs if b[0] is at]
            if len(b) != 1:
                return x
            bs.remove(b[0])
            out.append(b[0][2])
            at = canon(add(at, b[0][1]))
        return LM.vmark(raw("vcat", *out)) if at is canon(y.a[1]) else x
    m = {}
    for x in TM.walk(t):
        y = go(x)
        if y is not x:
            m[x] = y
    if not m:
        return t
    m = {x: TM.subst(y, {k: v for k, v in m.items() if k is not x and k.op in ("vfill", "dim:rows")}) for x, y in m.items()}
    return canon(TM.subst(t, m))


def listed(t):
    """traversals of a known list read its elements"""
    m = {x: x.a[2] for x in TM.walk(t) if x.op == "iter" and len(x.a) == 3 and x.a[1] is ZERO}
    return canon(TM.subst(t, m)) if m else t


def colmajor(mats, r, c):
    """entries of matrices stacked on each other, column after column"""
    L = raw("list", *mats)
    h, b, k = raw("bv", "h"), raw("bv", "b"), raw("bv", "k")
    m = sel(L, b) if len(mats) > 1 else mats[0]
    offs = [ZERO]
    for x in mats[:-1]:
        offs.append(add(offs[-1], rows(x)))
    e = {"row": add(add(r, sel(raw("list", *offs), b)), raw("nzrow", m, h, k)), "col": add(c, raw("nzcol", m, h, k)), "value": raw("nzvalue", m, h, k)}
    return raw("comp", ((h, ZERO, raw("dim:cols", mats[0])), (b, ZERO, num(len(mats))), (k, ZERO, raw("nzcount", m, h))), TRUE, rec("Triplet", e))


def triplets(t):
    m = {x: rec("Triplet", {k.split("::")[-1].replace("m_", ""): y for k, y in x.a[1]}) for x in TM.walk(t) if x.op == "rec" and {k.split("::")[-1].replace("m_", "") for k, _ in x.a[1]} == {"row", "col", "value"}}
    return canon(TM.subst(t, m)) if m else t


@check("S15", "The multiplier estimates are extracted as the linear system they solve and compared with the documented least-squares system; the triplet helpers as the list of entries, in order, they append.", expect=1)
def s15(R):
    u = R.unit("sclient")
    where = "include/sleipnir/optimization/solver/util/lagrange_multiplier_estimate.hpp"
    tw = "include/sleipnir/optimization/solver/util/append_as_triplets.hpp"
    fs = {n: one(u, n) for n in ("estimate_y", "estimate_yz", "trip2", "trip4", "tripdiag")}
    R.saw(u, list(fs.values()) + [f for f in u.fns.values() if f["q"] in ("slp::lagrange_multiplier_estimate", "slp::append_as_triplets", "slp::append_diagonal_as_triplets") and f.get("body")])
    g, A_e, A_i, s, mu = V("g"), M("A_e"), M("A_i"), V("s"), sym("mu")

    def solve(m, b):
        return LM.vmark(raw("fact:solve", raw("ctor:Eigen::SimplicialLDLT", m), b))

    def sample(rng, k):
        e, i = rng.choice([1, 2]), rng.choice([1, 2])
        n = rng.choice([3, 4])
        m = lambda r: np.array([[rng.uniform(-2, 2) if i == j or rng.random() < .8 else 0.0 for i in range(n)] for j in range(r)])
        return {g: np.array([rng.uniform(-3, 3) for _ in range(n)]), A_e: m(e), A_i: m(i), s: np.array([rng.uniform(.05, 3) for _ in range(i)]), mu: 10 ** rng.uniform(-12, 12)}

    def full(n, args):
        f = fs[n]
        v, *_ = fcall(u, f, args)
        v = TM.subst(canon(v), {sym(p["n"]): a for p, a in zip(f["params"], args)})
        return assembled(triplets(listed(canon(v))))

    def y():
        return alike(full("estimate_y", [g, A_e]), solve(mm(A_e, TM.tr(A_e)), mm(A_e, g)), sample, 100, what="the estimate")
    R.check("equality multipliers", where, y)

    def yz():
        d = shortf(full("estimate_yz", [g, A_e, A_i, s, mu]))
        h = raw("bv", "h")
        diag = raw("comp", ((h, ZERO, rows(s)),), TRUE, rec("Triplet", {"row": add(rows(A_e), h), "col": add(raw("dim:cols", A_i), h), "value": sel(neg(s), h)}))
        hat = TM.markmat(raw("fromtrip", raw("dims", add(rows(A_e), rows(A_i)), add(raw("dim:cols", A_e), rows(s))), raw("cat", colmajor([A_e, A_i], ZERO, ZERO), diag)))
        rhs = LM.vmark(raw("vcat", g, filled(s, neg(mu))))
        sol = solve(mm(hat, TM.tr(hat)), mm(hat, rhs))
        y = raw("part:segment", sol, ZERO, rows(A_e))
        z = raw("part:segment", sol, rows(A_e), rows(s))
        lo, hi = div(mul(num(1e-10), mu), sel(s, h)), div(mul(num(10 ** 10), mu), sel(s, h))
        zc = raw("forupd", z, ((h, ZERO, rows(s)),), (h,), raw("min", raw("max", sel(z, h), lo), hi), TRUE)
        for nm, w in (("y", y), ("z", zc)):
            if nm not in d:
                raise Undecided("no estimate " + nm)
            b = alike(d[nm][1], w, sample, 150, what="the estimate of " + nm)
            if b:
                return b
    R.check("both kinds of multipliers", where, yz)

    t, r, c, a, b, a3, a4 = sym("t"), sym("r"), sym("c"), M("a"), M("b"), M("a3"), M("a4")

    def after(n, args):
        f = fs[n]
        v, st, I, lv = fcall(u, f, args)
        x = TM.subst(canon(I.load(st, lv[0])), {sym(p["n"]): a for p, a in zip(f["params"], args)})
        return triplets(listed(canon(x)))

    def tsample(rng, k):
        n = rng.choice([1, 2, 3])
        m = lambda: np.array([[rng.choice([0.0, 1.0, -2.5, 7.0]) for _ in range(n)] for _ in range(rng.choice([1, 2, 3]))])
        return {t: [{"row": 0, "col": 0, "value": 5.0}] * rng.choice([0, 1]), r: rng.choice([0, 1, 3]), c: rng.choice([0, 2]), a: m(), b: m(), a3: m(), a4: m(), sym("d"): np.array([rng.choice([1.0, 2.0, -3.0, 0.0]) for _ in range(rng.choice([0, 1, 3]))])}

    def stacked():
        return alike(after("trip2", [t, r, c, a, b]), raw("cat", t, colmajor([a, b], r, c)), tsample, 300, what="the list of triplets")
    R.check("matrices as triplets", tw, stacked)

    def four():
        return alike(after("trip4", [t, r, c, a, b, a3, a4]), raw("cat", t, colmajor([a, b, a3, a4], r, c)), tsample, 300, what="the list of triplets of four matrices")
    R.check("four matrices as triplets", tw, four)

    def diagonal():
        d, h = V("d"), raw("bv", "h")
        w = raw("cat", t, raw("comp", ((h, ZERO, rows(d)),), TRUE, rec("Triplet", {"row": add(r, h), "col": add(c, h), "value": sel(d, h)})))
        return alike(after("tripdiag", [t, r, c, d]), w, lambda rng, k: {**tsample(rng, k), d: tsample(rng, k)[sym("d")]}, 200, what="the list of triplets")
    R.check("a diagonal as triplets", tw, diagonal)
