"""S08: the regularized factorizations.

compute() is executed abstractly with the factorization itself uninterpreted.
Every way it can return is a path of the extracted summary: on each, what the
object then reports (through its own observers) is compared with what was
factorized.  The retry rule is the extracted transfer function of the loop; it
depends on finitely many discrete facts (factorization ok, three counts that
sum to the size) and on two numbers, and is checked over all of those for
every small size."""
from frame import check, Broken
from sem import Interp, State, Unsupported
import sem, libmodel as LM, term as TM, numev
from term import *
from decide import canon, Cases
from vx import Undecided
from chk_sutil import V, find, fcall
from chk_sfn import one
import itertools, random
import numpy as np

DIR = "include/sleipnir/optimization/solver/util/"
N_, M_, GMIN, LHS = sym("n"), sym("m"), sym("γ_min"), sym("lhs")
BIG = 1e30


def leaves(vals, path=(), depth=0):
    """(path conditions, values without conditionals) for every path"""
    if depth > 40:
        raise Undecided("too many paths")
    for v in vals:
        if v.op == "ite":
            c = v.a[0]
            for b, pick in ((TRUE, 1), (FALSE, 2)):
                lit = c if pick == 1 else canon(Not(c))
                if canon(Not(lit)) in path:
                    continue
                new = [under(x, c, pick) for x in vals]
                yield from leaves(new, path if lit in path else path + (lit,), depth + 1)
            return
    yield path, vals


def opened(path):
    """a loop left under a condition was left with it true"""
    for c in path:
        for x in c.a if c.op == "and" else (c,):
            yield x.a[-1] if x.op == "loopexit" else x


def under(v, c, pick):
    while v.op == "ite" and v.a[0] is c:
        v = v.a[pick]
    if v.op == "ite":
        return ite(v.a[0], under(v.a[1], c, pick), under(v.a[2], c, pick))
    return v


def mk(u, which):
    """an object as its constructor makes it, and the classes' fields that
    stay as they are"""
    v, *_ = fcall(u, one(u, "ldlt_gamma"), [sym("sparse"), N_, M_, GMIN])
    v = canon(v)
    cls = "slp::%sRegularizedLDLT" % which
    for x in TM.walk(v):
        if x.op == "rec" and str(x.a[0]).split("<")[0].split("::")[-1] == cls.split("::")[-1]:
            return x
    raise Undecided("no %s member" % cls)


def mkfree(u, which):
    v = mk(u, which)
    return rec(v.a[0], {k: sym("old_" + k.split("::")[-1]) for k, x in v.a[1]})


class Model:
    def __init__(self, u, which):
        self.u, self.which = u, which
        self.cls = "slp::%sRegularizedLDLT<double>::" % which
        self.new = mk(u, which)
        given = {N_, M_, GMIN}
        self.kept, self.free, f = {}, {}, {}
        for k, v in self.new.a[1]:
            if any(x in given for x in TM.walk(v)):
                self.kept[k] = f[k] = v
            else:
                s = sym("old_" + k.split("::")[-1])
                if v.op.startswith("eigen0"):
                    TM.markmat(s)
                TM.carry(v, s)
                self.free[k] = f[k] = s
        self.this0 = rec(self.new.a[0], f)
        self.reg = [g for g in u.fns.values() if g["q"] == self.cls + "regularization" and g.get("body")]
        self.loops = []
        self.run()

    def policy(self, f, av):
        q = f["q"]
        if q == self.cls + "regularization":
            return lambda I, st, fr, e, f, obj, av: TM.markmat(raw("reg", *[I.load(st, x) if I.islv(x) else x for x in av]))
        if q.startswith("slp::Inertia::Inertia"):
            return lambda I, st, fr, e, f, obj, av: raw("inertia", *[I.load(st, x) if I.islv(x) else x for x in av])

    def run(self):
        f = [g for g in find(self.u, self.cls + "compute")][0]
        self.f = f
        I = Interp(self.u, opaque=self.policy)
        st = State()
        this = I.alloc(st, self.this0, "this")
        TM.markmat(LHS)
        v, st = I.call_fn(st, f, I.addr(this), [I.alloc(st, LHS, "lhs")])
        if not (I.islv(v) and v is this):
            raise Undecided("what compute returns")
        self.I, self.st, self.this = I, st, this
        self.end = I.load(st, this)
        if self.end.op != "rec":
            raise Undecided("object after compute")

    def observe(self, name, st=None, obj=None, args=()):
        f = find(self.u, self.cls + name)[0]
        I = Interp(self.u)
        s = State()
        this = I.alloc(s, obj if obj is not None else self.end, "this")
        av = [I.alloc(s, x, "arg") for x in args]
        v, s = I.call_fn(s, f, I.addr(this), av)
        if I.islv(v):
            v = I.load(s, v)
        return canon(v)

    def solver(self, obj):
        x = self.observe("solve", obj=obj, args=(V("rhs"),))
        if x.op != "fact:solve":
            raise Undecided("solution " + show(x)[:80])
        self.rhs = x.a[1]
        return x.a[0]

    def seen(self, obj):
        """(info, solver, δ, γ) as the object's own observers tell them"""
        return [self.observe("info", obj=obj), self.solver(obj), self.observe("hessian_regularization", obj=obj), self.observe("constraint_jacobian_regularization", obj=obj)]


class Ev(numev.Ev):
    def go(self, t):
        if t.op == "reg":
            n, m = int(self(N_)), int(self(M_))
            return np.diag([float(self(t.a[0]))] * n + [-float(self(t.a[1]))] * m)
        return super().go(t)


def outcome(t, solvers):
    """the facts about a factorization as symbols"""
    m = {}
    for x in TM.walk(t):
        if x.op == "ord" and x.a[0].op == "fact:info":
            m[x] = ("ok", x.a[0].a[0])
        elif x.op == "inertia":
            if x.a[0].op != "fact:vectorD":
                raise Undecided("inertia of " + show(x.a[0])[:80])
            m[x] = ("inertia", x.a[0].a[0])
    for k, (w, s) in m.items():
        if s not in solvers:
            raise Undecided("outcome of " + show(s)[:120])
    return TM.subst(t, {k: sym(w, str(solvers.index(s))) for k, (w, s) in m.items()})


@check("S08", "compute() of both regularized factorizations is executed abstractly with the factorization uninterpreted; on every return path what the object reports is compared with the outcome and the matrix of the last factorization; the retry transfer function is checked for every small size, outcome and regularization.", expect=6)
def s08(R):
    for name in ("interior_point", "sqp", "newton"):
        built(R, name)
    u = R.unit("sclient")
    fs = [f for f in u.fns.values() if f["q"].startswith(("slp::DenseRegularizedLDLT<double>::", "slp::SparseRegularizedLDLT<double>::", "slp::RegularizedLDLT<double>::")) and f.get("body")]
    R.saw(u, fs)
    for which in ("Sparse", "Dense"):
        where = DIR + which.lower() + "_regularized_ldlt.hpp"
        box = {}

        def model(which=which, box=box):
            if "e" in box:
                raise box["e"]
            if "m" not in box:
                try:
                    box["m"] = Model(u, which)
                except Exception as e:
                    box["e"] = e
                    raise
            return box["m"]

        def constructed(which=which):
            x = mk(u, which)
            bad = []
            for k, v in x.a[1]:
                if v.op == "rec" and str(v.a[0]).endswith("Inertia"):
                    got = {n.split("::")[-1]: y for n, y in v.a[1]}
                    want = {"positive": N_, "negative": M_, "zero": ZERO}
                    for n in want:
                        if n not in got:
                            raise Undecided("fields of an inertia")
                        if got[n] is not want[n]:
                            return "the ideal inertia has %s = %s, not %s" % (n, show(got[n]), show(want[n]))
                    bad = None
            if bad is not None:
                raise Undecided("no ideal inertia")
        R.check(which + ": ideal inertia", where, constructed)

        def regular(which=which):
            f = [g for g in u.fns.values() if g["q"] == "slp::%sRegularizedLDLT<double>::regularization" % which and g.get("body")]
            if not f:
                raise Undecided("no regularization()")
            I = Interp(u)
            st = State()
            this = I.alloc(st, mk(u, which), "this")
            d, g = sym("δ"), sym("γ")
            av = [I.alloc(st, x, "x") if I.ty(p["t"]).get("ref") else x for p, x in zip(f[0]["params"], (d, g))]
            v, st = I.call_fn(st, f[0], I.addr(this), av)
            v = canon(I.load(st, v) if I.islv(v) else v)
            for n, m in itertools.product(range(4), range(3)):
                if n + m == 0:
                    continue
                env = {N_: n, M_: m, d: 2.0, g: 3.0}
                if not numev.close(Ev(env)(v), Ev(env)(raw("reg", d, g))):
                    return "the regularization is %s for n=%d, m=%d" % (numev.fmt(Ev(env)(v)), n, m)
        R.check(which + ": regularization matrix", where, regular)

        def kept():
            m = model()
            got = dict(m.end.a[1])
            for k, v in m.kept.items():
                if canon(got[k]) is not canon(v):
                    return "%s changes from %s to %s" % (k.split("::")[-1], show(v), show(got[k])[:200])
        R.check(which + ": sizes and minimum regularization stay", where, kept)

        def paths(m):
            n = 0
            for path, (info, s, d, g) in leaves(m.seen(m.end)):
                n += 1
                yield tuple(opened(path)), info, s, d, g
            if not n:
                raise Undecided("no path")

        def okay(x):
            return cmp("ieq", ZERO, raw("ord", raw("fact:info", x)))

        def ideal(x):
            i = raw("inertia", raw("fact:vectorD", x))
            return And(*[cmp("ieq", w, fld_(i, "slp::Inertia::" + k)) for k, w in (("positive", N_), ("negative", M_), ("zero", ZERO))])

        def fld_(x, k):
            return TM.getf(x, k)

        def implied(path, claim):
            c = canon(claim)
            if c is TRUE:
                return True
            try:
                return Cases(limit=4000).check(c, TRUE, list(path))
            except Exception as e:
                raise Undecided(str(e)[:80])

        def feasible(path):
            try:
                return Cases(limit=4000).check(TRUE, FALSE, list(path)) is not True
            except Exception:
                return True

        def reported():
            m = model()
            n = 0
            for path, info, s, d, g in paths(m):
                if info.op == "enumc" and str(info.a[0]).split("::")[-1] != "Success":
                    continue
                if not feasible(path):
                    continue
                F = s
                if not str(F.op).startswith("factor:"):
                    return "success can be reported with nothing factorized (solve uses %s)" % show(F)[:100]
                assume = list(path)
                if info.op == "fact:info":
                    assume.append(cmp("ieq", ZERO, raw("ord", info)))
                elif info.op != "enumc":
                    raise Undecided("info " + show(info)[:80])
                n += 1
                for what, claim in (("the factorization succeeded", okay(F)), ("its inertia is the ideal one", ideal(F))):
                    r = implied(assume, claim)
                    if r is False:
                        return "success can be reported for %s although it is not the case that %s; path: %s" % (show(F)[:160], what, " and ".join(show(c)[:160] for c in path)[:700])
                    if r is None:
                        raise Undecided("whether %s on path %s" % (what, " and ".join(show(c)[:120] for c in path)[:400]))
            if not n:
                return "success is never reported"
        R.check(which + ": success only with the ideal inertia", where, reported)

        def matrix():
            m = model()
            n = 0
            for path, info, s, d, g in paths(m):
                if info.op == "enumc" and str(info.a[0]).split("::")[-1] != "Success" or not feasible(path):
                    continue
                if not str(s.op).startswith("factor:"):
                    raise Undecided("factorization " + show(s)[:80])
                if m.rhs is not V("rhs"):
                    return "the right-hand side used is " + show(m.rhs)[:80]
                A = s.a[0]
                n += 1
                for k in range(24):
                    rng = random.Random(k)
                    some = (lambda: rng.uniform(.1, 4)) if k < 12 else (lambda: 10 ** rng.uniform(-3, 19))
                    env = {N_: 1 + k % 3, M_: k % 2}
                    z = env[N_] + env[M_]
                    env[LHS] = numev.rmat(rng, z, z)
                    for x in TM.walk(A):
                        if x.op == "phi" or x.op == "sym" and x not in env and x not in (LHS,):
                            env[x] = some()
                    for y in (d, g):
                        for x in TM.walk(y):
                            if x.op == "phi" or x.op == "sym" and x not in env:
                                env[x] = some()
                    got = Ev(env)(A)
                    want = Ev(env)(LHS) + Ev(env)(raw("reg", d, g))
                    if not numev.close(got, want):
                        return "the factorized matrix is %s although the regularizations reported are %s and %s" % (show(A)[:200], show(d)[:80], show(g)[:80])
            if not n:
                raise Undecided("no success")
        R.check(which + ": the matrix is the given one plus the reported regularization", where, matrix)

        if which == "Sparse":
            def pattern():
                m = model()
                n = 0
                flag = [k for k, v in m.new.a[1] if v is FALSE]
                for x in set(TM.walk(m.end)) | {y for L in m.I.loops for k in L["changed"] for y in TM.walk(L["next"].store[k])}:
                    if x.op == "factor:factorize" and len(x.a) > 1:
                        n += 1
                        o = x.a[1]
                        for path, (o1,) in leaves([canon(o)]):
                            if o1.op in ("phi", "factor:factorize", "factor:analyzePattern", "factor:compute"):
                                continue
                            if o1.op == "sym" and flag:      # analysed before, as the flag tells
                                fl = m.free[flag[0]]
                                if fl in path or implied(path, fl) is True:
                                    continue
                                if not path or canon(Not(fl)) in path:
                                    return "a factorization can start without its pattern analysed"
                            raise Undecided("factorization from " + show(o1)[:80])
                if not n:
                    raise Undecided("no factorization")
                end = {y for t in [m.end] + [L[w].store[k] for L in m.I.loops for k in L["changed"] for w in ("next", "init")] for y in TM.walk(canon(t))}
                uses = {(y.op.split(":")[1], any(z.op == "reg" for z in TM.walk(y.a[0]))) for y in end if y.op in ("factor:analyzePattern", "factor:factorize")}
                if ("analyzePattern", True) in uses and ("factorize", False) in uses:
                    return "a matrix without the diagonal of the regularization is factorized with the pattern of one that has it"
                if ("analyzePattern", False) in uses and ("factorize", True) in uses:
                    return "the pattern analysed lacks the diagonal of the regularization"
            R.check(which + ": pattern analysed before factorizing", where, pattern)

        def loop(m):
            Ls = [L for L in m.I.loops if any(str(x.op).startswith("factor:") and x.op != "factor:analyzePattern" for k in L["changed"] for x in TM.walk(L["next"].store[k]))]
            if len(Ls) != 1:
                raise Undecided("%d retry loops" % len(Ls))
            L = Ls[0]
            fac = {x for k in L["changed"] for x in TM.walk(canon(L["next"].store[k])) if str(x.op).startswith("factor:") and x.op != "factor:analyzePattern" and any(y.op == "reg" for y in TM.walk(x.a[0]))}
            if len(fac) != 1:
                raise Undecided("%d factorizations in the retry loop" % len(fac))
            F = fac.pop()
            rg = [y for y in TM.walk(F.a[0]) if y.op == "reg"]
            if len(rg) != 1:
                raise Undecided("matrix " + show(F.a[0])[:100])
            nx = {}
            for k in L["changed"]:
                phis(L["h0"].store[k], L["next"].store[k], L["init"].store[k], nx)
            return L, F, rg[0].a[0], rg[0].a[1], nx

        def phis(h, n, i, out):
            if h.op == "phi":
                out[h] = (canon(n), canon(i))
            elif h.op == "rec" and n.op == "rec" and i.op == "rec":
                n, i = dict(n.a[1]), dict(i.a[1])
                for k, v in h.a[1]:
                    if any(x.op == "phi" for x in TM.walk(v)):
                        phis(v, n[k], i[k], out)

        def grows():
            m = model()
            L, F, a, b, nx = loop(m)
            sub1 = {k: v[0] for k, v in nx.items()}
            a2, b2 = (canon(TM.subst(x, sub1)) for x in (a, b))
            ng = canon(L["ng"])
            fin = [outcome(t, [F]) for t in (a, b, a2, b2, ng)]
            free = {x for t in fin for x in TM.walk(t) if x.op == "phi"}
            da, db = ({x for x in TM.walk(t) if x.op == "phi"} for t in fin[:2])
            if len(da) != 1 or len(db) != 1 or da == db:
                raise Undecided("regularization from " + show(a)[:80])
            pa, pb = da.pop(), db.pop()
            extra = free - {pa, pb}
            if extra:
                raise Undecided("retry depends on " + ", ".join(show(x)[:40] for x in extra))
            pts = 0
            for n, k in itertools.product(range(4), range(4)):
                if not n + k:
                    continue
                for p in range(n + k + 1):
                    for q in range(n + k + 1 - p):
                        for ok in (0, 1):
                            if ok == 0 and (p, q) == (n, k):
                                continue    # accepted
                            for dv, gv in itertools.product((2e-16, 1e-4, 1.0, 1e9, 1e19), (0.0, 1e-10, 1.0, 1e19)):
                                env = {N_: n, M_: k, pa: dv, pb: gv, sym("ok", "0"): ok, sym("inertia", "0"): {"positive": p, "negative": q, "zero": n + k - p - q}}
                                e = Ev(env)
                                x, y, x2, y2 = (float(e(t)) for t in fin[:4])
                                if not e(fin[4]):
                                    continue
                                pts += 1
                                at = "after inertia (%d, %d, %d) for ideal (%d, %d, 0)%s the regularization goes from δ=%.3g, γ=%.3g to δ=%.3g, γ=%.3g" % (p, q, n + k - p - q, n, k, " and a failed factorization" if ok else "", x, y, x2, y2)
                                if x2 <= 0 or y2 < 0:
                                    return at + ", which is not positive"
                                if x2 < x or y2 < y:
                                    return at + ", which is less"
                                up, gp = x2 >= 1.5 * x, (y2 >= 1.5 * y and y2 > 0)
                                if not up and not gp:
                                    return at + ": it does not grow"
                                if not ok and p + q == n + k:
                                    if q > k and not up:
                                        return at + ": too many negative eigenvalues, but δ does not grow"
                                    if p > n and not gp:
                                        return at + ": too many positive eigenvalues, but γ does not grow"
            if not pts:
                return "no attempt is ever repeated with more regularization"
        R.check(which + ": every retry regularizes more", where, grows)

        def ends():
            m = model()
            L, F, a, b, nx = loop(m)
            fin = [outcome(t, [F]) for t in (a, b, canon(L["ng"]))]
            ph = [{x for x in TM.walk(t) if x.op == "phi"} for t in fin[:2]]
            if len(ph[0]) != 1 or len(ph[1]) != 1 or {x for x in TM.walk(fin[2]) if x.op == "phi"} - ph[0] - ph[1]:
                raise Undecided("end of the retries " + show(fin[2])[:100])
            pa, pb = ph[0].pop(), ph[1].pop()
            for n, k in itertools.product(range(3), range(3)):
                if not n + k:
                    continue
                for p in range(n + k + 1):
                    for q in range(n + k + 1 - p):
                        for ok in (0, 1):
                            for dv, gv in ((BIG, 1.0), (1.0, BIG), (BIG, 0.0), (BIG, BIG)):
                                env = {N_: n, M_: k, pa: dv, pb: gv, sym("ok", "0"): ok, sym("inertia", "0"): {"positive": p, "negative": q, "zero": n + k - p - q}}
                                if Ev(env)(fin[2]):
                                    return "the retries go on at δ=%g, γ=%g" % (dv, gv)
                                if not ok and (p, q) == (n, k):
                                    env = {**env, pa: 1.0, pb: 1.0}
                                    if Ev(env)(fin[2]):
                                        return "the retries go on after an ideal inertia"
        R.check(which + ": the retries end", where, ends)

        def start():
            m = model()
            L, F, a, b, nx = loop(m)
            sub0 = {k: v[1] for k, v in nx.items()}
            a0, b0 = (canon(TM.subst(x, sub0)) for x in (a, b))
            old = m.observe("hessian_regularization", obj=m.this0)
            if old.op != "sym":
                raise Undecided("previous δ")
            if b0 is not GMIN:
                if all(x.op in ("sym", "num", "poly", "max", "min", "eps") for x in TM.walk(b0)):
                    for gv in (0.0, 1e-10, 1.0):
                        if float(Ev({GMIN: gv, m.observe("constraint_jacobian_regularization", obj=m.this0): 7.0})(b0)) != gv:
                            return "γ starts at %s, not at its minimum" % show(b0)[:100]
                else:
                    raise Undecided("first γ " + show(b0)[:80])
            for pv in (0.0, 5e-324, 1e-300, 1e-16, 1e-8, 1e-4, 1.0, 1e10, 1e20):
                x = float(Ev({old: pv, GMIN: 1e-10})(a0))
                if not x > 0:
                    return "the first δ after %g is %g" % (pv, x)
                if x > 1e-4 if pv == 0 else x >= pv and pv > 1e-12:
                    return "the first δ after %g is %g: it never trends downward" % (pv, x)
        R.check(which + ": first regularization", where, start)

    where = DIR + "regularized_ldlt.hpp"

    def dispatch():
        f = one(u, "ldlt_compute")

        def pol(f, av):
            q = f["q"]
            for w in ("Sparse", "Dense"):
                if q == "slp::%sRegularizedLDLT<double>::compute" % w:
                    def go(I, st, fr, e, f, obj, av, w=w):
                        lv = obj
                        I.store(st, lv, raw("computed", w, I.load(st, lv), *[I.load(st, x) if I.islv(x) else x for x in av]))
                        return obj
                    return go
        a = sym("s")
        lhs = TM.markmat(sym("lhs"))
        v, st, I, lv = fcall(u, f, [a, lhs], opaque=pol)
        end = canon(I.load(st, lv[0]))
        sel_ = {}
        for n in ("ldlt_info", "ldlt_solve", "ldlt_solve_sparse", "ldlt_delta", "ldlt_gam"):
            g = one(u, n)
            v, *_ = fcall(u, g, [a] + ([V("rhs")] if "solve" in n else []))
            sel_[n] = canon(v)
        flag = {x.a[0] for x in sel_.values() if x.op == "ite"}
        if len(flag) != 1 or any(x.op != "ite" for x in sel_.values()):
            if any(x.op != "ite" for x in sel_.values()) and all(y.op in ("ite", "fld", "sym", "fact:solve", "not") for x in sel_.values() for y in TM.walk(x)):
                return "one of info, solve and the regularization factors always asks the same solver: " + "; ".join("%s: %s" % (k[5:], show(v)[:80]) for k, v in sel_.items())
            if len(flag) != 1 and all(c.op in ("fld", "not") for c in flag):
                return "the solver asked depends on different flags: " + ", ".join(show(c) for c in flag)
            raise Undecided("dispatch")
        c = flag.pop()

        def member(t):
            ms = {x.a[0] for x in TM.walk(t) if x.op == "fld" and x.a[1] is a and x is not c}
            if len(ms) != 1:
                raise Undecided("solver asked: " + show(t)[:80])
            return ms.pop()
        for side in (1, 2):
            who = {n: member(x.a[side]) for n, x in sel_.items()}
            if len(set(who.values())) != 1:
                return "when %s is %s, different solvers are asked: %s" % (show(c), side == 1, ", ".join("%s: %s" % (k[5:], v.split("::")[-1]) for k, v in who.items()))
            k = who["ldlt_info"]
            got = canon(TM.subst(end, {c: TRUE if side == 1 else FALSE}))
            comp = [x for x in TM.walk(got) if x.op == "computed"]
            mine = [x for x in comp if x.a[1].op == "fld" and x.a[1].a[0] == k]
            if not mine:
                if comp:
                    return "when %s is %s the matrix is factorized by %s but the answers come from %s" % (show(c), side == 1, show(comp[0].a[1])[:60], k.split("::")[-1])
                raise Undecided("who factorizes")
            if mine[0].a[2] is not lhs and not (mine[0].a[2].op == "ite"):
                if all(x.op in ("sym", "num", "poly") for x in TM.walk(mine[0].a[2])):
                    return "the matrix factorized is " + show(mine[0].a[2])[:80]
                raise Undecided("matrix " + show(mine[0].a[2])[:80])
        want = {}
        for w in ("Sparse", "Dense"):
            for n, o in (("ldlt_delta", "hessian_regularization"), ("ldlt_gam", "constraint_jacobian_regularization")):
                g = find(u, "slp::%sRegularizedLDLT<double>::%s" % (w, o))[0]
                I = Interp(u)
                s = State()
                v, s = I.call_fn(s, g, I.addr(I.alloc(s, mkfree(u, w), "this")), [])
                want.setdefault(n, []).append(canon(I.load(s, v) if I.islv(v) else v))
        for n, ws in want.items():
            if any(x.op != "sym" for x in ws):
                continue
            for s in sel_[n].a[1:]:
                if s.op == "fld" and str(s.a[0]).split("::")[-1] not in [str(x.a[0])[4:] for x in ws]:
                    return "the %s regularization is answered with %s" % ("Hessian" if n == "ldlt_delta" else "constraint Jacobian", show(s)[:80])
        for n in ("solve", "solve_sparse"):
            for s in sel_["ldlt_" + n].a[1:]:
                if s.op != "fact:solve" or s.a[1] is not V("rhs"):
                    if s.op == "fact:solve":
                        return "the right-hand side used is " + show(s.a[1])[:80]
                    raise Undecided("solution " + show(s)[:80])
    R.check("the factorization asked is the one computed", where, dispatch)

    def made():
        for n, args, g in (("ldlt_new", [sym("sp"), N_, M_], None), ("ldlt_gamma", [sym("sp"), N_, M_, GMIN], GMIN)):
            v, *_ = fcall(u, one(u, n), args)
            v = canon(v)
            ms = [x for x in TM.walk(v) if x.op == "rec" and "RegularizedLDLT" in str(x.a[0]) and x is not v]
            if len(ms) != 2:
                raise Undecided("members")
            for x in ms:
                vals = [y for k, y in x.a[1]]
                ine = [y for y in vals if y.op == "rec"]
                if len(ine) != 1:
                    raise Undecided("ideal inertia")
                got = {k.split("::")[-1]: y for k, y in ine[0].a[1]}
                if (got.get("positive"), got.get("negative"), got.get("zero")) != (N_, M_, ZERO):
                    return "%s for n decision variables and m constraints has the ideal inertia %s" % (str(x.a[0]).split("::")[-1], show(ine[0]))
                if g is not None and g not in vals:
                    return "%s drops the minimum regularization" % str(x.a[0]).split("::")[-1]
            if v.op == "rec" and sym("sp") not in [y for k, y in v.a[1]]:
                if any(y.op in ("not", "true", "false") for k, y in v.a[1]):
                    return "the choice of solver is not the one given"
                raise Undecided("choice of solver")
    R.check("construction", where, made)


def built(R, name):
    """the factorization each solver builds asks for one positive eigenvalue
    per decision variable and one negative per equality constraint"""
    from chk_solver import run
    S = run(R, name)

    def go():
        ts = set()
        for L in S.loops[-1:]:
            for st in (L["init"], L["h0"]):
                for v in st.store.values():
                    if isinstance(v, T):
                        ts |= {x for x in walk(v) if x.op == "ldlt0"}
        if len(ts) != 1:
            raise Undecided("factorizations built: %d" % len(ts))
        a = next(iter(ts)).a
        if len(a) not in (3, 4):
            raise Undecided("a factorization built from %d values" % len(a))
        want = []
        for k in range(3):
            v = {"num_decision_variables": (3, 7, 5)[k], "num_equality_constraints": (2, 1, 4)[k], "num_inequality_constraints": (6, 11, 1)[k]}
            m = {t: num(v[show(t).split(".")[-1]]) for b in (a[1], a[2]) for t in walk(canon(b)) if t.op == "fld" and show(t).split(".")[-1] in v}
            for p, n in (("x", "num_decision_variables"), ("y", "num_equality_constraints"), ("z", "num_inequality_constraints"), ("s", "num_inequality_constraints")):
                if p in S.arg:
                    m[canon(raw("dim:rows", S.arg[p]))] = num(v[n])
            for t, n in ((a[1], v["num_decision_variables"]), (a[2], v["num_equality_constraints"] if "y" in S.arg else 0)):
                g = canon(subst(canon(t), m))
                if not isnum(g):
                    raise Undecided("the inertia asked for is " + show(canon(t))[:100])
                if g.a[0] != n:
                    return "the factorization asks for %s %s eigenvalues with %d decision variables and %d equality constraints" % (show(g), "positive" if t is a[1] else "negative", v["num_decision_variables"], v["num_equality_constraints"])
        if len(a) == 4:
            f = S.arg.get("in_feasibility_restoration")
            for b in (TRUE, FALSE):
                g = canon(subst(canon(a[3]), {f: b})) if f is not None else canon(a[3])
                if not isnum(g):
                    raise Undecided("the constraint regularization is " + show(g)[:80])
                if g.a[0] < 0:
                    return "the constraint regularization starts at " + show(g)
                if b is TRUE and f is not None and g.a[0] != 0:
                    return "the constraint regularization starts at %s in feasibility restoration" % show(g)
                if b is FALSE and name == "interior_point" and g.a[0] == 0:
                    return "equality constraints with dependent gradients are never regularized"
    R.check(name + "/required inertia", S.where, go)
