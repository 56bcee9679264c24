"""S13: feasibility restoration.

Both restoration functions are executed abstractly with the nested solve
uninterpreted.  What it is handed - start values, scaling, and the cost,
constraint and derivative closures of the subproblem - is extracted as closed
forms over uninterpreted parent callbacks and compared with the documented
subproblem; so is everything handed back, and what the solvers hand in."""
from frame import check, Broken
from sem import Interp, State, Unsupported
import sem, libmodel as LM, term as TM, numev
from term import *
from decide import canon, Cases
from vx import Undecided
from chk_sutil import V, fcall, n1, minus
import chk_solver as CS
import chk_steps as CT
import numpy as np
import random, math

WHERE = "include/sleipnir/optimization/solver/util/feasibility_restoration.hpp"
RHO = 1e3


class Parent:
    """a parent problem with arbitrary values: every callback is a fixed but
    arbitrary function of its arguments"""

    def __init__(self, n, me, mi, rng):
        self.n, self.me, self.mi, self.rng = n, me, mi, rng
        self.shape = {"f": (), "g": (n,), "H": (n, n), "H_c": (n, n), "c_e": (me,), "A_e": (me, n), "c_i": (mi,), "A_i": (mi, n)}
        self.seed = rng.randrange(10 ** 6)

    def call(self, name, *xs):
        if name not in self.shape:
            raise Undecided("callback " + name)
        h = sum((i + 2) * float(np.sum(np.asarray(x, dtype=float) * np.cos(np.arange(np.size(x)) + i + 1).reshape(np.shape(x)))) for i, x in enumerate(xs))
        k = sum(map(ord, name)) + self.seed
        s = self.shape[name]
        m = int(np.prod(s)) if s else 1
        v = np.sin(h * (1 + .1 * np.arange(m)) + k + 1.7 * np.arange(m)) * 1.5
        return v.reshape(s) if s else float(v[0])


def estimate(*xs):
    """a fixed but arbitrary function of the arguments"""
    h = sum((i + 2) * float(np.sum(np.asarray(x, dtype=float) * np.cos(np.arange(np.size(x)) + i + 1).reshape(np.shape(x)))) + np.size(x) for i, x in enumerate(xs))
    return h


class Ev(numev.Ev):
    def go(self, t):
        o, a = t.op, t.a
        if o == "app":
            c = a[0]
            if c.op == "fld" and c.a[1] is sym("matrix_callbacks"):
                return self.env["#p"].call(c.a[0].split("::")[-1], *[self(x) for x in a[1:]])
            raise Undecided("call of " + show(c)[:80])
        if o == "estimate":
            h = estimate(*[self(x) for x in a])
            return {"y": h, "z": h + 1} if len(a) > 2 else h
        if o == "padded":
            x = self(a[0])
            m, n = int(self(a[1])), int(self(a[2]))
            y = np.zeros((m, n))
            k, l = min(m, x.shape[0]), min(n, x.shape[1])
            y[:k, :l] = x[:k, :l]
            return y
        if o == "fromtrip" and self.env.get("#sorted") is not None:
            ts = self(a[1])
            ks = [(int(t["col"]), int(t["row"])) for t in ts]
            if any(p > q for p, q in zip(ks, ks[1:])) and a[1] in self.env["#sorted"]:
                self.env["#bad"].append("triplets out of order: entry (%d, %d) after (%d, %d)" % next((q[1], q[0], p[1], p[0]) for p, q in zip(ks, ks[1:]) if p > q))
            m, n = [int(self(k)) for k in a[0].a]
            for c, r in ks:
                if not (0 <= c < n and 0 <= r < m):
                    self.env["#bad"].append("an entry at (%d, %d) of a %d by %d matrix" % (r, c, m, n))
                    return np.zeros((m, n))
        return super().go(t)


def pn(c, mu):
    """p and n of the documented formula (33)"""
    c = np.asarray(c)
    q = (mu - RHO * c) / (2 * RHO)
    n = q + np.sqrt(q * q + mu * c / (2 * RHO))
    return c + n, n


class Restoration:
    def __init__(self, u, f):
        self.u, self.f = u, f
        self.names = [p["n"] for p in f["params"]]
        self.ipm = len(self.names) > 7
        self.call = None
        I = Interp(u)
        I.opaque = self.policy
        self.I = I
        args = [sym(n) for n in self.names]
        self.ret, self.st, _, self.lv = fcall(u, f, args, I=I)
        self.arg = dict(zip(self.names, args))
        if self.call is None:
            raise Undecided("no nested solve")

    def policy(self, g, av):
        if g["q"] == "slp::interior_point":
            return self.nested
        if g["q"] == "slp::lagrange_multiplier_estimate":
            return "estimate"

    def nested(self, I, st, fr, e, g, obj, av):
        F = self.u.fns.get(g["id"]) or g
        ps = F.get("params")
        if ps is None:
            raise Unsupported("parameters of the nested solve")
        vs = [I.load(st, a) if I.islv(a) else a for a in av]
        self.call = {p["n"]: v for p, v in zip(ps, vs)}
        self.at = st.copy()
        self.out = {}
        for p, a in zip(ps, av):
            t = I.ty(p["t"])
            if I.islv(a) and t.get("ref") and not t.get("const"):
                v = LM.typemark(I, p["t"], sym("out_" + p["n"]))
                self.out[p["n"]] = v
                I.store(st, a, v)
        return sym("status")

    def field(self, n):
        c = self.call["matrix_callbacks"]
        if c.op != "rec":
            raise Undecided("callbacks " + show(c)[:80])
        for k, v in c.a[1]:
            if k.split("::")[-1] == n:
                return v
        raise Undecided("no callback " + n)

    def value(self, n, *args):
        c = self.field(n)
        if c.op != "clo":
            raise Undecided("callback " + show(c)[:80])
        st = self.at.copy()
        r = self.I.call_closure(st, None, c, [self.I.alloc(st, a, "arg") for a in args])
        if self.I.islv(r):
            r = self.I.load(st, r)
        return canon(r)

    def env(self, k):
        rng = random.Random(k)
        n = 1 + k % 3
        if self.ipm:
            me, mi = ((0, 1), (1, 1), (2, 1), (1, 2), (2, 2))[k % 5]
        else:
            me, mi = 1 + k % 2, 0
        p = Parent(n, me, mi, rng)
        mc = {"num_decision_variables": n, "num_equality_constraints": me, "num_inequality_constraints": mi,
              "scaling": {"f": rng.uniform(.1, 1), "c_e": numev.rvec(rng, me, .1, 1), "c_i": numev.rvec(rng, mi, .1, 1)}}
        N = n + 2 * me + 2 * mi
        e = {"#p": p, sym("matrix_callbacks"): mc, sym("x"): numev.rvec(rng, n, -4, 4), sym("y"): numev.rvec(rng, me),
             sym("options"): {"tolerance": 10 ** rng.uniform(-9, 1.5), "max_iterations": 100}, sym("iterations"): 5,
             V("X"): numev.rvec(rng, N), V("Y"): numev.rvec(rng, me), V("Z"): numev.rvec(rng, 2 * me + 3 * mi, .1, 2),
             sym("out_x"): numev.rvec(rng, N), sym("out_s"): numev.rvec(rng, 2 * me + 3 * mi, .1, 3), sym("out_iterations"): 9, sym("out_μ"): 10 ** rng.uniform(-9, 1.5), sym("out_y"): numev.rvec(rng, me), sym("out_z"): numev.rvec(rng, 2 * me + 3 * mi, .1, 3)}
        if self.ipm:
            e[sym("s")] = numev.rvec(rng, mi, .1, 4)
            e[sym("z")] = numev.rvec(rng, mi, .1, 4)
            e[sym("μ")] = 10 ** rng.uniform(-9, 1.5)
        e["#bad"] = []
        e["#sorted"] = {canon(x) for x in getattr(self.I, "sortedtrips", ())}
        return e

    def ref(self, e):
        """the documented subproblem at a point"""
        p = e["#p"]
        x = e[sym("x")]
        n, me, mi = p.n, p.me, p.mi
        ce = p.call("c_e", x)
        d = {"n": n, "me": me, "mi": mi}
        if self.ipm:
            s = e[sym("s")]
            ci = p.call("c_i", x)
            mu = max([e[sym("μ")]] + list(np.abs(ce)) + list(np.abs(ci - s)))
            pe, ne = pn(ce, mu)
            pi, ni = pn(ci - s, mu)
        else:
            s = np.zeros(0)
            mu = max([e[sym("options")]["tolerance"] / 10] + list(np.abs(ce)))
            pe, ne = pn(ce, mu)
            pi = ni = np.zeros(0)
        d["mu"] = mu
        d["x"] = np.concatenate([x, pe, ne, pi, ni])
        d["z"] = np.concatenate([mu / s, mu / pe, mu / ne, mu / pi, mu / ni])
        d["s"] = s
        zeta = math.sqrt(mu)
        D = np.diag(np.minimum(1, 1 / x ** 2))
        X = e[V("X")]
        X0, PE, NE, PI, NI = np.split(X, np.cumsum([n, me, me, mi]))
        df = X0 - x
        N = len(X)
        d["f"] = RHO * float(np.sum(X[n:])) + zeta / 2 * float(df @ D @ df)
        d["g"] = np.concatenate([zeta * D @ df, np.full(N - n, RHO)])
        H = np.zeros((N, N))
        Z = e[V("Z")][:mi]
        H[:n, :n] = zeta * D + p.call("H_c", X0, e[V("Y")], *([Z] if self.ipm else []))
        d["H"] = H
        d["c_e"] = p.call("c_e", X0) - PE + NE
        Ie, Ii = np.eye(me), np.eye(mi)
        d["A_e"] = np.hstack([p.call("A_e", X0), -Ie, Ie, np.zeros((me, 2 * mi))])
        if self.ipm:
            d["c_i"] = np.concatenate([p.call("c_i", X0) - PI + NI, PE, NE, PI, NI])
            R = 2 * me + 2 * mi
            d["A_i"] = np.vstack([np.hstack([p.call("A_i", X0), np.zeros((mi, 2 * me)), -Ii, Ii]), np.hstack([np.zeros((R, n)), np.eye(R)])])
        else:
            d["c_i"] = X[n:]
            d["A_i"] = np.hstack([np.zeros((2 * me, n)), np.eye(2 * me)])
        return d


def differs(Rn, t, want, what, pts=15):
    """None or where the term differs from the documented value"""
    for k in range(pts):
        e = Rn.env(k)
        w = want(Rn.ref(e), e)
        try:
            v = Ev(e)(t)
        except (IndexError, ValueError) as ex:
            return "%s is not of a consistent size for %d variables, %d equality and %d inequality constraints (%s)" % (what, e["#p"].n, e["#p"].me, e["#p"].mi, str(ex)[:80])
        if e["#bad"]:
            return "%s: %s" % (what, e["#bad"][0])
        v, w = np.asarray(v, dtype=float), np.asarray(w, dtype=float)
        if v.size == 0 and w.size == 0:
            continue
        if v.shape != w.shape and not (v.size == w.size == 1):
            if v.ndim == 0:
                v = np.full(w.shape, float(v))
            else:
                return "%s has shape %s, not %s, for %d variables, %d equality and %d inequality constraints" % (what, v.shape, w.shape, e["#p"].n, e["#p"].me, e["#p"].mi)
        if not numev.close(v.reshape(w.shape), w, 1e-7):
            i = tuple(int(j) for j in np.argwhere(~np.isclose(v.reshape(w.shape), w, 1e-7))[0]) if w.ndim else ()
            return "%s is not the documented one: entry %s is %.6g instead of %.6g with %d variables, %d equality and %d inequality constraints" % (what, i, v.reshape(w.shape)[i], w[i], e["#p"].n, e["#p"].me, e["#p"].mi)


@check("S13", "Both restoration functions are executed abstractly; the subproblem's sizes, start values, scaling, cost, constraints and derivatives, and what is handed back for every nested status, are extracted as closed forms over uninterpreted parent callbacks and compared with the documented subproblem; the solvers' calls are checked to hand in the current iterate and a stop test that requires less violation and the filter's acceptance.", expect=15)
def s13(R):
    u = R.unit("solver")
    fs = sorted([f for f in u.fns.values() if f["q"] == "slp::feasibility_restoration" and f.get("body")], key=lambda f: len(f["params"]))
    if not fs:
        raise Broken("no definition of slp::feasibility_restoration")
    R.saw(u, fs + [f for f in u.fns.values() if f["q"] == "slp::compute_p_n" and f.get("body")])
    for f in fs:
        tag = "after SQP" if len(f["params"]) < 8 else "after interior point"
        box = {}

        def get(f=f, box=box):
            if "e" in box:
                raise box["e"]
            if "r" not in box:
                try:
                    box["r"] = Restoration(u, f)
                except Exception as e:
                    box["e"] = e
                    raise
            return box["r"]

        def sizes():
            r = get()
            for n, w in (("num_decision_variables", lambda d: d["n"] + 2 * d["me"] + 2 * d["mi"]), ("num_equality_constraints", lambda d: d["me"]), ("num_inequality_constraints", lambda d: 2 * d["me"] + (3 * d["mi"]))):
                b = differs(r, canon(r.field(n)), lambda d, e: w(d), n)
                if b:
                    return b
        R.check(tag + ": sizes", WHERE, sizes)

        for n, what in (("x", "the starting point"), ("z", "the starting inequality multipliers")):
            R.check(tag + ": " + what, WHERE, lambda n=n, what=what: differs(get(), canon(get().call[n]), lambda d, e: d[n], what))
        R.check(tag + ": barrier parameter", WHERE, lambda: differs(get(), canon(get().call["μ"]), lambda d, e: d["mu"], "the barrier parameter"))

        def slacks():
            r = get()
            t = canon(r.call["s"])
            for k in range(15):
                e = r.env(k)
                d = r.ref(e)
                v = np.asarray(Ev(e)(t), dtype=float)
                if v.shape != (2 * d["me"] + 3 * d["mi"],):
                    return "there are %s slacks for %d constraints" % (v.shape, 2 * d["me"] + 3 * d["mi"])
                if len(d["s"]) and not numev.close(v[:d["mi"]], d["s"]):
                    return "the slacks of the original inequality constraints do not start at their current values"
                if not (v > 0).all():
                    return "a slack starts at %g" % v.min()
            y = canon(r.call["y"])
            for k in range(5):
                e = r.env(k)
                v = np.asarray(Ev(e)(y), dtype=float)
                if v.shape != (e["#p"].me,):
                    return "there are %s equality multipliers for %d constraints" % (v.shape, e["#p"].me)
        R.check(tag + ": starting slacks", WHERE, slacks)

        def scaling():
            r = get()
            sc = canon(r.field("scaling"))
            if sc.op != "rec":
                raise Undecided("scaling " + show(sc)[:80])
            s = {k.split("::")[-1]: v for k, v in sc.a[1]}
            for n, w in (("f", lambda d, e: 1.0), ("c_e", lambda d, e: e[sym("matrix_callbacks")]["scaling"]["c_e"]),
                         ("c_i", lambda d, e: np.concatenate([e[sym("matrix_callbacks")]["scaling"]["c_i"], np.ones(2 * d["me"] + 2 * d["mi"])]))):
                if n not in s:
                    raise Undecided("no scaling of " + n)
                b = differs(r, s[n], w, "the scaling of " + n)
                if b:
                    return b
        R.check(tag + ": scaling", WHERE, scaling)

        for n, args in (("f", ("X",)), ("g", ("X",)), ("H", ("X", "Y", "Z")), ("c_e", ("X",)), ("A_e", ("X",)), ("c_i", ("X",)), ("A_i", ("X",))):
            def fn(n=n, args=args):
                r = get()
                t = r.value(n, *[V(a) for a in args])
                return differs(r, t, lambda d, e: d[n], {"f": "the cost", "g": "the cost gradient", "H": "the Lagrangian Hessian", "c_e": "the equality constraints", "A_e": "the equality constraint Jacobian", "c_i": "the inequality constraints", "A_i": "the inequality constraint Jacobian"}[n])
            R.check(tag + ": " + n, WHERE, fn)

        def options():
            r = get()
            for n, w in (("options", "options"), ("iteration_callbacks", "iteration_callbacks"), ("iterations", "iterations")):
                v = canon(r.call[n])
                if v is not r.arg[w]:
                    if n != "iteration_callbacks" and all(x.op in ("sym", "num", "poly", "fld", "setf", "rec") for x in TM.walk(v)):
                        return "the nested solve is given other %s: %s" % (n, show(v)[:100])
                    raise Undecided("%s of the nested solve" % n)
            v = canon(r.call["in_feasibility_restoration"])
            if v is FALSE:
                return "the nested solve is not told that it restores, so it may nest again"
            if v is not TRUE:
                raise Undecided("restoration flag " + show(v)[:60])
            i = canon(r.I.load(r.st, r.lv[r.names.index("iterations")]))
            if i is not r.out.get("iterations"):
                if all(x.op in ("sym", "num", "poly") for x in TM.walk(i)):
                    return "the iteration count becomes %s" % show(i)
                raise Undecided("iteration count " + show(i)[:60])
        R.check(tag + ": options, limits and counter", WHERE, options)

        def status():
            r = get()
            en = u.enums["slp::ExitStatus"]["e"]
            for e in en:
                v = raw("enumc", "slp::ExitStatus::" + e["n"], int(e["v"]))
                got = canon(TM.subst(canon(r.ret), {sym("status"): v}))
                if got.op != "enumc":
                    raise Undecided("status " + show(got)[:80])
                want = {"CALLBACK_REQUESTED_STOP": "SUCCESS", "SUCCESS": "LOCALLY_INFEASIBLE"}.get(e["n"], "FEASIBILITY_RESTORATION_FAILED")
                if got.a[0].split("::")[-1] != want:
                    return "when the nested solve ends with %s, restoration reports %s instead of %s" % (e["n"], got.a[0].split("::")[-1], want)
        R.check(tag + ": status", WHERE, status)

        def back():
            r = get()
            stop = raw("enumc", "slp::ExitStatus::CALLBACK_REQUESTED_STOP", [int(e["v"]) for e in u.enums["slp::ExitStatus"]["e"] if e["n"] == "CALLBACK_REQUESTED_STOP"][0])
            vals = {n: canon(r.I.load(r.st, l)) for n, l in zip(r.names, r.lv) if r.I.islv(l)}

            def head(d, e, n):
                return e[sym("out_" + n)][:d["n"] if n == "x" else d["mi"]]
            for n in ("x",) + (("s",) if r.ipm else ()):
                seen = set()
                for e in u.enums["slp::ExitStatus"]["e"]:
                    t = canon(TM.subst(vals[n], {sym("status"): raw("enumc", "slp::ExitStatus::" + e["n"], int(e["v"]))}))
                    if t in seen:
                        continue
                    seen.add(t)
                    b = differs(r, t, lambda d, e, n=n: head(d, e, n), "the %s handed back" % ("point" if n == "x" else "slack vector"))
                    if b:
                        return b + (", when the nested solve ends with " + e["n"] if sym("status") in set(TM.walk(vals[n])) else "")

            def est(d, e):
                p = e["#p"]
                x = head(d, e, "x")
                a = [p.call("g", x), p.call("A_e", x)]
                if r.ipm:
                    a += [p.call("A_i", x), head(d, e, "s"), e[sym("μ")]]
                return estimate(*a)
            for n in ("y",) + (("z",) if r.ipm else ()):
                t = canon(TM.subst(vals[n], {sym("status"): stop}))
                if not any(x.op == "estimate" for x in TM.walk(t)):
                    if t is sym(n) or t.op in ("part:segment", "part:head", "sym"):
                        return "the multipliers %s are not estimated at the restored point" % n
                    raise Undecided("multipliers " + show(t)[:80])
                b = differs(r, t, lambda d, e, n=n: est(d, e) + (1 if n == "z" else 0), "the multiplier estimate %s" % n)
                if b:
                    return "the multipliers %s are not the estimate at the restored point" % n
        R.check(tag + ": what is handed back", WHERE, back)

    for name in ("sqp", "interior_point"):
        S = CS.run(R, name)

        def handed(S=S):
            calls = getattr(S, "frcall", None)
            if not calls:
                raise Undecided("restoration is not called")
            vs, st, av = calls[-1]
            f = [f for f in fs if len(f["params"]) == len(vs)]
            if not f:
                raise Undecided("which restoration")
            for p, v in zip(f[0]["params"], vs):
                n = p["n"]
                if n in ("x", "s", "y", "z", "μ", "iterations"):
                    want = canon(subst(S.I.load(S.L["h0"], S.lv[n]) if n in S.lv else S.head[n], S.sub)) if (n in S.lv or n in S.head) else None
                    if want is None:
                        raise Undecided("current " + n)
                    got = canon(subst(v, S.sub))
                    if got is not want:
                        if all(x.op in ("sym", "phi", "poly", "num", "fld") for x in TM.walk(got)):
                            return "restoration is given %s as %s, not the current one" % (show(got)[:80], n)
                        ls = leaves(got)
                        if want not in ls and any(l.op == "poly" and any(y.op == "ldlt:solve" for y in TM.walk(l)) for l in ls):
                            return "restoration is given %s after a step, not the current one" % n
                        raise Undecided("%s given to restoration: %s" % (n, show(got)[:80]))
                elif n == "options":
                    if canon(v) is not sym("options"):
                        raise Undecided("options given to restoration")
        R.check(name + ": restoration starts from the current iterate", S.where, handed)

        def problem(S=S):
            vs, st, av = S.frcall[-1]
            m = canon(vs[0])
            if m is sym("matrix_callbacks"):
                return
            if m.op != "rec":
                raise Undecided("problem given to restoration")
            for k, v in m.a[1]:
                n = k.split("::")[-1]
                if v.op == "clo":
                    ps = [y for i in v.a[0] if i in u.fns for y in u.fns[i]["params"]]
                    s2 = st.copy()
                    xs = [V("a%d" % i) for i in range(len(ps))]
                    r = S.I.call_closure(s2, None, v, [S.I.alloc(s2, x, "a") for x in xs])
                    r = canon(S.I.load(s2, r) if S.I.islv(r) else r)
                    if r.op != "app" or r.a[0] is not CS.MC(k):
                        if r.op == "app" and r.a[0].op == "fld":
                            return "the %s given to restoration is %s" % (n, show(r)[:80])
                        raise Undecided("%s given to restoration" % n)
                    if tuple(r.a[1:]) != tuple(xs):
                        return "the %s given to restoration passes its arguments on as %s" % (n, show(r)[:80])
                elif canon(v) is not canon(CS.MC(k)):
                    if v.op in ("num", "fld"):
                        return "the %s given to restoration is %s" % (n, show(v)[:80])
                    raise Undecided("%s given to restoration" % n)
        R.check(name + ": restoration is given the same problem", S.where, problem)

        def callbacks(S=S):
            vs, st, av = S.frcall[-1]
            c = canon(vs[1])
            its = sym("iteration_callbacks")
            if c.op == "push" and len(c.a) == 2 and c.a[1].op == "clo":
                base, own = c.a[0], c.a[1]
            else:
                if c.op == "list" and not any(x is its for x in TM.walk(c)):
                    return "the user's callbacks are not shown the iterations of restoration"
                raise Undecided("callbacks given to restoration: " + show(c)[:100])
            if not any(x is its for x in TM.walk(base)):
                if base.op == "list" and not base.a:
                    return "the user's callbacks are not shown the iterations of restoration"
                raise Undecided("callbacks given to restoration: " + show(base)[:100])
            s2 = st.copy()
            info = sym("info")
            r = S.I.call_closure(s2, None, own, [S.I.alloc(s2, info, "info")])
            r = canon(subst(r, S.sub))
            tries = outermost(r, "try_add")
            if len(tries) != 1:
                if not tries and r.op in ("flt", "fle", "true", "and"):
                    return "restoration stops without the filter accepting the point"
                raise Undecided("when restoration stops: " + show(r)[:100])
            t = tries[0]
            cur, trial = CT.entry(S, t.a[1]), CT.entry(S, t.a[2])
            here = S.I.load(S.L["h0"], S.lv["x"]), S.I.load(S.L["h0"], S.lv["s"]) if "s" in S.lv else None
            acc = sym("accepted")
            rr = canon(TM.subst(r, {t: acc}))
            va, vb = (canon(subst(spec(S, *q)["constraint_violation"], S.sub)) for q in (heads(S, info), here))
            for k in range(60):
                e = point(S, k, (rr, va, vb, canon(subst(t.a[3], S.sub))))
                for ok in (True, False):
                    e[acc] = ok
                    if not Ev(e)(rr):
                        continue
                    if not ok:
                        return "restoration can stop although the filter does not accept the point"
                    a, b = Ev(e)(va), Ev(e)(vb)
                    D, want = Ev(e)(canon(subst(t.a[3], S.sub))), slope(S, e, info)
                    if want is not None and not numev.close(D, want):
                        return "the filter is asked with the slope %.4g of the merit function instead of %.4g" % (D, want)
                    if a > b:
                        return "restoration can stop at a point with constraint violation %.4g, more than the %.4g it started from: %s" % (a, b, show(rr)[:200])
            # the same over all pairs of violations, whatever the points
            na = {y for y in TM.walk(va) if y in norms(va)}
            nb = {y for y in TM.walk(vb) if y in norms(vb)}
            used = {y for y in TM.walk(rr) if y in na | nb}
            if used and not na & nb:
                m = {y: sym("norm%d" % i) for i, y in enumerate(sorted(na | nb, key=show))}
                r2, a2, b2 = (canon(TM.subst(q, m)) for q in (rr, va, vb))
                if all(y.op == "sym" and (y in m.values() or y is acc) for y in lvs(r2)):
                    rng = random.Random(7)
                    for k in range(200):
                        e = {"#bad": [], acc: bool(k % 2)}
                        t = 10 ** rng.uniform(-6, 1)
                        for y in na | nb:
                            e[m[y]] = rng.uniform(.1, 2) * (t if y in na else 1)
                        if not Ev(e)(r2):
                            continue
                        if not k % 2:
                            return "restoration can stop although the filter does not accept the point: " + show(rr)[:200]
                        if Ev(e)(a2) > Ev(e)(b2):
                            return "restoration can stop at a point with more constraint violation than it started from: " + show(rr)[:200]
            # the entries are those of the two points
            for e, x, s, what in ((trial, *heads(S, info), "tried"), (cur, *here, "current")):
                want = spec(S, x, s)
                for k in want:
                    got = canon(subst(e[k], S.sub))
                    w = canon(subst(want[k], S.sub))
                    if got is w:
                        continue
                    d = evaluate(S, got, w)
                    if d:
                        return "the %s of the %s point is not that of its iterate: %s" % (k.replace("_", " "), what, d)
        R.check(name + ": restoration stops only at a better, accepted point", S.where, callbacks)


def leaves(t):
    if t.op == "ite":
        return leaves(t.a[1]) | leaves(t.a[2])
    return {t}


def outermost(t, op):
    out, st, seen = [], [t], set()
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        if x.op == op:
            out.append(x)
        else:
            st.extend(TM.children(x))
    return out


def fieldname(S, n):
    return ("slp::SQPMatrixCallbacks::" if S.name == "sqp" else "slp::InteriorPointMatrixCallbacks::") + n


def heads(S, info):
    def seg(f, n):
        t = raw("part:segment", TM.getf(info, "slp::IterationInfo::" + f), ZERO, CS.MC(fieldname(S, n)))
        TM.markmat(t)
        TM.markvec(t)
        return t
    return seg("x", "num_decision_variables"), seg("s", "num_inequality_constraints") if S.name == "interior_point" else None


def norms(t):
    """the norms a violation is the sum of"""
    t = canon(t)
    if t.op != "poly":
        return {t}
    return {a for (cm, w), c in t.a[0] for a, e in cm}


def lvs(t):
    return {y for y in TM.walk(t) if not TM.children(y) and y.op not in ("num", "true", "false")}


def spec(S, x, s):
    def app(n):
        t = raw("app", CS.MC(fieldname(S, n)), x)
        if n != "f":
            TM.markvec(TM.markmat(t))
        return t
    cost, cv = app("f"), n1(app("c_e"))
    if S.name == "interior_point":
        cv = add(cv, n1(minus(app("c_i"), s)))
        mu = S.I.load(S.L["h0"], S.lv["μ"])
        cost = sub(cost, mul(mu, raw("red:sum", TM.carry(s, raw("ew:log", s)))))
    return {"cost": cost, "constraint_violation": cv}


def slope(S, e, info):
    """derivative of the merit function along the step to the tried point"""
    x = S.I.load(S.L["h0"], S.lv["x"])
    p = e["#p"]
    x0 = e.get(x)
    if x0 is None:
        return None
    r = float(p.call("g", x0) @ (e[info]["x"][:p.n] - x0))
    if S.name == "interior_point":
        s, mu = e.get(S.I.load(S.L["h0"], S.lv["s"])), e.get(S.I.load(S.L["h0"], S.lv["μ"]))
        if s is None or mu is None:
            return None
        r -= mu * float(np.sum((e[info]["s"][:p.mi] - s) / s))
    return r


def point(S, k, ts):
    rng = random.Random(k)
    n, me, mi = 1 + k % 3, 1 + k % 2, 1 + k % 2
    p = Parent(n, me, mi, rng)
    e = {"#p": p, "#bad": [], sym("matrix_callbacks"): {"num_decision_variables": n, "num_equality_constraints": me, "num_inequality_constraints": mi}}
    e[sym("info")] = {"x": numev.rvec(rng, n + 2 * me + 2 * mi), "s": numev.rvec(rng, 2 * me + 3 * mi, .1, 2)}
    for x in sorted({y for t in ts for y in TM.walk(t) if y.op == "phi"}, key=show):
        nm = str(x.a[-1])
        e[x] = rng.uniform(.1, 2) if nm == "μ" else numev.rvec(rng, {"x": n, "s": mi, "y": me, "z": mi}.get(nm, 1), .1, 2)
    return e


def evaluate(S, got, want):
    for k in range(8):
        e = point(S, k, (got, want))
        a, b = Ev(e)(got), Ev(e)(want)
        if not numev.close(a, b):
            return "%s instead of %s; extracted: %s" % (numev.fmt(a), numev.fmt(b), show(got)[:200])
