"""P01-P04 and the second half of S11: the problem layer.

Problem::solve is executed abstractly with the differentiation objects, the
variables' values, bound detection, the scaling constructor and the solvers as
uninterpreted operations; the arguments of every solver call are captured and
the callbacks handed to the solvers are then executed at symbolic points."""
import re, random
import numpy as np
from frame import check, Broken
from sem import Interp, State, Unsupported, UNIT
import sem, libmodel as LM, term as TM, numev
from term import *
from decide import canon, Cases
from vx import Undecided
from chk_sutil import V, M, mm, plus, minus, times, rows, find
from chk_sfn import settled

PB = "slp::Problem<double>::"
ASG = ("H", "valuation")
WHERE = "include/sleipnir/optimization/problem.hpp"
SOLVERS = {"newton": 0, "sqp": 1, "interior_point": 2}


def rd(I, st, x):
    return I.load(st, x) if I.islv(x) else x


def vec(t):
    return TM.markvec(TM.markmat(t))


def asg(st):
    return st.store.get(ASG, sym("valuation"))


def fieldsof(t):
    return {k.split("::")[-1]: v for k, v in t.a[1]}


class Policy:
    """which operations stay uninterpreted"""

    def __init__(self):
        self.fresh = 0
        self.calls = []
        self.apps = []
        self.adds = []

    def __call__(self, f, av):
        q = f["q"]
        if q in ("slp::print", "slp::println") or q.startswith(("slp::SetupProfiler::", "slp::print_")):
            return lambda I, st, fr, e, f, obj, av: UNIT if f["n"] != "SetupProfiler" else raw(f["n"])
        if q.startswith("slp::Spy<"):
            def spy(I, st, fr, e, f, obj, av):
                a = [rd(I, st, x) for x in av]
                if f["n"] == "Spy":
                    return raw("Spy", *a)
                if f["n"] == "add":
                    self.adds.append((rd(I, st, obj), a))
                return UNIT
            return spy
        m = re.match(r"slp::(Gradient|Jacobian|Hessian)<([^>]*)>::(\w+)$", q)
        if m:
            c, targs, n = m.groups()
            if n == c:
                op = "ad:" + c
                if c == "Hessian":
                    op += {"1": "", "3": ""}.get(targs.split(",")[-1].strip(), ":" + targs.split(",")[-1].strip())
                return lambda I, st, fr, e, f, obj, av: raw(op, *[rd(I, st, a) for a in av])
            if n == "value":
                def val(I, st, fr, e, f, obj, av):
                    t = TM.markmat(raw("value", rd(I, st, obj), asg(st)))
                    return TM.markvec(t) if c == "Gradient" else t
                return val
            return None
        if q == "slp::Variable<double>::value":
            return lambda I, st, fr, e, f, obj, av: raw("value", rd(I, st, obj), asg(st))
        if q == "slp::Variable<double>::type":
            return lambda I, st, fr, e, f, obj, av: raw("vartype", rd(I, st, obj))
        if q == "slp::Variable<double>::Variable":
            def var(I, st, fr, e, f, obj, av):
                a = [rd(I, st, x) for x in av]
                if not a:
                    self.fresh += 1
                    return raw("newvar", num(self.fresh))
                return a[0] if len(a) == 1 else raw("vnew", *a)
            return var
        if q in ("slp::VariableMatrix<double>::set_value", "slp::Variable<double>::set_value"):
            def setv(I, st, fr, e, f, obj, av):
                st.store[ASG] = raw("assign", asg(st), rd(I, st, obj), rd(I, st, av[0]))
                return UNIT
            return setv
        if self.matrices(q):
            return self.matrices(q)
        if q == "slp::get_bounds":
            return "get_bounds"
        if q == "slp::ProblemScaling<double>::ProblemScaling":
            def scal(I, st, fr, e, f, obj, av):
                a = [rd(I, st, x) for x in av]
                return rec("scaling", {"slp::ProblemScaling::" + k: raw("scal:f", *a) if k == "f" else vec(raw("scal:" + k, *a)) for k in ("f", "c_e", "c_i")})
            return scal
        if q in ("slp::newton", "slp::sqp", "slp::interior_point"):
            def solver(I, st, fr, e, f, obj, av):
                n = q.split("::")[-1]
                self.calls.append((n, [rd(I, st, a) for a in av], st.copy(), I))
                I.store(st, av[-1], vec(raw("solution", n)))
                st.store[ASG] = raw("after", n)
                return raw("status", n)
            return solver
        if f["n"] == "operator()" and "exercise_problem" in q:
            def app(I, st, fr, e, f, obj, av):
                self.apps.append((rd(I, st, obj), [rd(I, st, a) for a in av]))
                return UNIT if I.ty(f["rt"])["c"] == "void" else raw("answer", rd(I, st, obj))
            return app

    def matrices(self, q):
        if q == "slp::VariableMatrix<double>::value":
            return lambda I, st, fr, e, f, obj, av: vec(raw("value", rd(I, st, obj), asg(st)))
        if q == "slp::VariableMatrix<double>::VariableMatrix":
            def vm(I, st, fr, e, f, obj, av):
                a = [rd(I, st, x) for x in av]
                if len(a) == 1 and I.ty(f["pt"][0])["c"] in ("int", "uint"):
                    self.fresh += 1
                    return vec(raw("vmnew", a[0], num(self.fresh)))
                return vec(raw("vm", *a)) if len(a) == 1 else TM.markmat(raw("vm", *a))
            return vm
        if q == "slp::VariableMatrix<double>::T":
            return lambda I, st, fr, e, f, obj, av: TM.tr(rd(I, st, obj))
        if q == "slp::VariableMatrix<double>::operator Variable":
            return lambda I, st, fr, e, f, obj, av: rd(I, st, obj)
        if q in ("slp::operator-", "slp::operator+", "slp::operator*"):
            def op(I, st, fr, e, f, obj, av):
                a = [rd(I, st, x) for x in av]
                if len(a) == 1:
                    return TM.carry(a[0], neg(a[0]))
                if not (TM.ismat(a[0]) or TM.ismat(a[1])):
                    return {"-": sub, "+": add, "*": mul}[q[-1]](*a)
                if q[-1] == "*" and not (TM.ismat(a[0]) and TM.ismat(a[1])):
                    return TM.markmat(mul(*a))
                return TM.markmat({"-": sub, "+": add, "*": TM.mmul}[q[-1]](*a))
            return op


class VarsOnly(Policy):
    """only the creation of variables stays uninterpreted"""

    def __call__(self, f, av):
        q = f["q"]
        if q == "slp::Variable<double>::Variable" and not f["params"] if "params" in f else q == "slp::Variable<double>::Variable" and not f["pt"]:
            return super().__call__(f, av)
        if q.startswith("slp::Variable<double>::Variable"):
            return None
        if f["n"] == "operator-" and q == "slp::operator-":
            return self.matrices(q)
        if f["n"] == "operator()":
            return super().__call__(f, av)


def member(t, n):
    k = "slp::Problem::" + n
    if t.op == "fold":
        # the member of a summarised loop's record is a summarised loop
        new = sym("acc", n)
        body = TM.subst(member(t.a[3], n), {canon(getf(t.a[1], k)): new})
        if t.a[1] not in set(TM.walk(body)):
            body = canon(body)
            init = member(t.a[2], n)
            if body is new:
                return init
            if body.op == "push" and body.a[0] is new and new not in set(TM.walk(body.a[1])):
                return canon(flat(raw("cat", init, raw("comp", t.a[0], TRUE, body.a[1]))))
            if body.op == "cat" and body.a[0] is new and len(body.a) == 2 and body.a[1].op == "comp" and new not in set(TM.walk(body.a[1])):
                c = body.a[1]
                return canon(raw("cat", init, raw("comp", tuple(t.a[0]) + tuple(c.a[0]), *c.a[1:])))
    return canon(getf(t, k))


def recorder(I, st, fr, e, f):
    """a sparsity recording, by what it was opened with"""
    if "slp::Spy<" not in I.ty(f["rt"]).get("s", ""):
        return None
    return raw("obj", raw("Spy", *[rd(I, st, I.val(st, fr, a)) for a in e["a"]]))


class Solve:
    def __init__(self, u, spy):
        f = find(u, PB + "solve")[0]
        self.P = P = Policy()
        I = self.I = Interp(u, opaque=P)
        I.hooks["std::make_unique"] = recorder
        st = State()
        self.this = sym("this")
        ref = I.alloc(st, self.this, "this")
        args = [I.alloc(st, sym("options"), "options"), spy]
        v, s = I.call_fn(st, f, I.addr(ref), args)
        self.ret = canon(rd(I, s, v))
        self.end = canon(s.store.get(ASG, sym("valuation")))
        self.final = canon(I.load(s, ref))
        self.calls = {}
        for n, a, st, I in P.calls:
            if n in self.calls:
                raise Undecided("several calls of " + n)
            self.calls[n] = (a, st)
        g = lambda n: member(self.this, n)
        self.dv, self.mf, self.ce, self.ci = g("m_decision_variables"), g("m_f"), g("m_equality_constraints"), g("m_inequality_constraints")
        self.F = canon(ite(cmp("peq", self.mf, NULL), ZERO, self.mf))
        self.cb, self.pcb = g("m_iteration_callbacks"), g("m_persistent_iteration_callbacks")
        self.VM = vec(raw("vm", self.dv))
        self.x0 = V("x0")

    # ---- normal forms
    def start(self, t):
        """the variables' initial values, however they were collected"""
        m = {}
        for x in TM.walk(t):
            if x.op == "value" and x.a[0] is self.VM and x.a[1] is sym("valuation"):
                m[x] = self.x0
            elif x.op == "forupd" and len(x.a[1]) == 1 and x.a[4] is TRUE:
                h, lo, hi = x.a[1][0]
                if lo is ZERO and hi is canon(length(self.dv)) and x.a[2] == (h,) and x.a[3] is raw("value", sel(self.dv, h), sym("valuation")) and x.a[0].op == "eigen0" and canon(x.a[0].a[-1]) is hi:
                    m[x] = self.x0
        return canon(TM.subst(t, m)) if m else t

    def point(self, a):
        """assignments in force: {matrix: value}"""
        d = {}
        while True:
            if a.op == "assign":
                d.setdefault(a.a[1], a.a[2])
                a = a.a[0]
            elif a.op == "fold" and len(a.a[0]) == 1 and a.a[3].op == "assign" and a.a[3].a[0] is a.a[1]:
                h, lo, hi = a.a[0][0]
                b = a.a[3]
                v = whole(b.a[2], h)
                if lo is ZERO and b.a[1] is sel(self.dv, h) and hi is canon(length(self.dv)) and v is not None:
                    d.setdefault(self.VM, v)
                    a = a.a[2]
                else:
                    raise Undecided("assignment " + show(b)[:100])
            else:
                break
        for k in d:
            if k is not self.VM and k.op != "vmnew":
                raise Undecided("assignment to " + show(k)[:80])
        if self.VM not in d:
            d[self.VM] = self.x0 if a in (sym("valuation"), raw("heap", "valuation")) else raw("stale", "x")
        return d, a

    def named(self, t):
        """values of differentiation objects as functions of the point"""
        t = self.start(canon(t))
        m = {}
        for x in TM.walk(t):
            if x.op == "value":
                m[x] = self.name(x.a[0], x.a[1])
        r = canon(TM.subst(t, m)) if m else t
        return self.start(r)

    def name(self, X, a):
        d, _ = self.point(canon(a))
        x = self.start(canon(d[self.VM]))
        if X is self.F:
            return raw("P:f", x)
        if X.op == "ite" and X.a[0] is self.F.a[0] and X.a[2] is self.mf and X.a[1].op == "num":
            return add(raw("P:f", x), raw("otherwise", X.a[1]))
        if X.op == "vm" and X.a[0] in (self.ce, self.ci, self.dv):
            return vec(raw("P:" + {self.ce: "c_e", self.ci: "c_i", self.dv: "x"}[X.a[0]], x)) if X.a[0] is not self.dv else x
        if X.op.startswith("ad:") and len(X.a) == 2:
            k, wrt = X.op[3:], X.a[1]
            if wrt is not self.VM:
                raise Undecided("derivative with respect to " + show(wrt)[:80])
            if k == "Gradient" and canon(X.a[0]) is self.F:
                return vec(raw("P:g", x))
            if k == "Jacobian" and X.a[0].op == "vm" and X.a[0].a[0] in (self.ce, self.ci):
                return TM.markmat(raw("P:A_" + ("e" if X.a[0].a[0] is self.ce else "i"), x))
            if k.startswith("Hessian"):
                return self.hessian(k[7:], canon(X.a[0]), x, d)
        raise Undecided("value of " + show(X)[:120])

    def hessian(self, part, X, x, d):
        ms = X.a[0] if X.op == "poly" else [(((), (X,)), 1)] if TM.ismat(X) else [((((X, 1),), ()), 1)]
        out = ZERO
        for (cm, w), c in ms:
            t = None
            if not w and len(cm) == 1 and cm[0][1] == 1 and cm[0][0] is self.F:
                t = raw("P:H" + part, x)
            elif not cm and len(w) == 2:
                a, b = w
                if a.op != "tr":
                    a, b = b, a
                a, b = (a.a[0], b) if a.op == "tr" else (a, b)
                if a.op == "vm":
                    a, b = b, a
                if a.op == "vmnew" and b.op == "vm" and b.a[0] in (self.ce, self.ci):
                    if canon(a.a[0]) is not canon(length(b.a[0])):
                        raise Undecided("multipliers of length " + show(a.a[0]))
                    v = d.get(a, raw("stale", "multipliers"))
                    t = raw("P:H_" + ("e" if b.a[0] is self.ce else "i") + part, x, vec(canon(v)))
            elif not cm and len(w) == 1 and w[0] is self.F:
                t = raw("P:H" + part, x)
            if t is None:
                raise Undecided("Hessian of " + show(X)[:150])
            out = add(out, mul(num(c), TM.markmat(t)))
        return TM.markmat(canon(out))

    def scaling(self, n):
        a, st = self.calls[n]
        return canon(fieldsof(a[0])["scaling"])

    def factors(self, n, t):
        """the scaling's fields by name"""
        sc = self.scaling(n)
        m = {}
        for k, x in sc.a[1] if sc.op == "rec" else ():
            k = k.split("::")[-1]
            m[x] = sym("d_f") if k == "f" else vec(sym("d_" + k))
        return canon(TM.subst(t, m)) if m else t

    def callback(self, n, name, args):
        a, st = self.calls[n]
        fs = fieldsof(a[0])
        if name not in fs:
            raise Undecided("no callback " + name)
        st = st.copy()
        st.store[ASG] = sym("whatever")
        I = self.I
        r, st2 = self.call(I, st, fs[name], [I.alloc(st, x, "a") for x in args])
        return self.factors(n, canon(rd(I, st2, r)))

    def call(self, I, st, c, av):
        r = I.call_closure(st, None, c, av)
        if isinstance(r, tuple):
            return r
        return r, st


_cache = {}


def solved(R, spy=FALSE):
    u = R.unit("opt")
    k = (u, spy)
    if k not in _cache:
        try:
            _cache[k] = Solve(u, spy)
        except (Unsupported, Undecided) as ex:
            _cache[k] = ex
    if isinstance(_cache[k], Exception):
        raise Undecided(str(_cache[k]))
    R.saw(u, [f for f in u.fns.values() if f.get("body") and f["id"] in _cache[k].I.inlined])
    return _cache[k]


def equal(S, got, want):
    """equality of formulas over the named functions; independent values for
    independent functions, multipliers linear"""
    got, want = S.named(got), canon(want)
    if got is want or settled(got, want):
        return None
    for x in TM.walk(got):
        if x.op in ("value", "assign", "app", "phi", "opaque") or x.op.startswith(("ad:", "vcall")):
            raise Undecided("formula with " + show(x)[:100])
    for k in range(6):
        rng = np.random.default_rng(k)
        size = {"e": 2, "i": 3, "n": 4}
        tab = {}

        def arr(key, *sh):
            if key not in tab:
                tab[key] = rng.uniform(-2, 2, sh) if sh else rng.uniform(-2, 2)
            return tab[key]
        env = {V("x"): arr("x", 4), V("y"): arr("y", 2), V("z"): arr("z", 3), S.x0: arr("x0", 4), sym("d_f"): arr("df"), sym("d_c_e"): arr("dce", 2), sym("d_c_i"): arr("dci", 3)}
        todo = sorted({x for t in (got, want) for x in TM.walk(t) if x.op.startswith("P:") or x.op in ("stale", "otherwise")}, key=lambda x: len(show(x)))
        for x in todo:
            o = x.op[2:]
            if x.op == "otherwise":
                env[x] = arr(x)
                continue
            if x.op == "stale":
                env[x] = arr(("stale", x.a), {"x": 4}.get(x.a[0], 2))
                continue
            at = (o, x.a[0])
            if o == "f":
                env[x] = arr(at)
            elif o == "g":
                env[x] = arr(at, 4)
            elif o in ("c_e", "c_i"):
                env[x] = arr(at, size[o[-1]])
            elif o in ("A_e", "A_i"):
                env[x] = arr(at, size[o[-1]], 4)
            elif o.startswith(("H_e", "H_i")):
                v = np.asarray(numev.Ev(env)(x.a[1])).reshape(-1)
                n = size[o[2]]
                if len(v) != n:
                    return "%s is given %d multipliers for %d constraints" % (o, len(v), n)
                env[x] = sum(v[j] * arr(at + (j,), 4, 4) for j in range(n))
            else:
                env[x] = arr(at, 4, 4)
        a, b = numev.Ev(env)(got), numev.Ev(env)(want)
        if np.shape(a) != np.shape(b) or not numev.close(a, b):
            return "%s instead of %s" % (show(got)[:500], show(want)[:500])


X, Y, Z = V("x"), V("y"), V("z")
DF, DE, DI = sym("d_f"), vec(sym("d_c_e")), vec(sym("d_c_i"))


def P_(n, *a):
    t = raw("P:" + n, *a)
    return t if n == "f" else vec(t) if n in ("g", "c_e", "c_i") else TM.markmat(t)


def ew(a, b):
    return vec(raw("ew:mul", a, b))


def specs(n):
    """{callback: (arguments, scaled, unscaled)}"""
    k = SOLVERS[n]
    mult = [Y, Z][:k]
    diag = lambda d, A: mm(TM.markmat(raw("diag", d)), A)
    r = {"f": ([X], mul(DF, P_("f", X))), "g": ([X], times(DF, P_("g", X)))}
    hc = ZERO
    if k >= 1:
        hc = minus(hc, P_("H_e", X, vec(canon(mm(TM.markmat(raw("diag", DE)), Y)))))
        r["c_e"] = ([X], diag(DE, P_("c_e", X)))
        r["A_e"] = ([X], diag(DE, P_("A_e", X)))
    if k >= 2:
        hc = minus(hc, P_("H_i", X, vec(canon(mm(TM.markmat(raw("diag", DI)), Z)))))
        r["c_i"] = ([X], diag(DI, P_("c_i", X)))
        r["A_i"] = ([X], diag(DI, P_("A_i", X)))
    r["H"] = ([X] + mult, plus(times(DF, P_("H", X)), hc) if k else times(DF, P_("H", X)))
    if k:
        r["H_c"] = ([X] + mult, hc)
    return r


def scaled(R):
    """obligations of S11 about the functions handed to the solvers"""
    for n in SOLVERS:
        for cb, (args, want) in specs(n).items():
            def go(n=n, cb=cb, args=args, want=want):
                S = solved(R)
                if n not in S.calls:
                    raise Undecided("no call of " + n)
                return equal(S, S.callback(n, cb, args), want)
            R.check("%s of the scaled problem (%s)" % (cb, n), WHERE, go)

        def factors(n=n):
            S = solved(R)
            sc = S.scaling(n)
            if sc.op != "rec" or {x.op[:5] for _, x in sc.a[1]} != {"scal:"}:
                raise Undecided("scaling " + show(sc)[:100])
            got = [S.named(a) for a in sc.a[1][0][1].a]
            want = [P_("g", S.x0), P_("A_e", S.x0), P_("A_i", S.x0)][:1 + SOLVERS[n]]
            if len(got) != len(want):
                return "the factors are derived from %d derivatives" % len(got)
            for g, w in zip(got, want):
                if g is not canon(w):
                    return "the factors are derived from %s where %s is documented" % (show(g)[:200], show(w))
        R.check("factors at the starting point (%s)" % n, WHERE, factors)


def whole(t, h):
    """the vector whose element h is t"""
    if t.op == "ite" and h not in set(TM.walk(t.a[0])):
        a, b = whole(t.a[1], h), whole(t.a[2], h)
        return ite(t.a[0], a, b) if a is not None and b is not None else None
    return t.a[0] if t.op == "sel" and len(t.a) == 2 and t.a[1] is h else None


def leavesof(t, cond=()):
    """(conditions, leaf) of nested conditionals"""
    if t.op == "ite":
        yield from leavesof(t.a[1], cond + (t.a[0],))
        yield from leavesof(t.a[2], cond + (Not(t.a[0]),))
    else:
        yield cond, t


def types(S, t):
    """kinds of the cost and the constraints by name"""
    m = {}
    for x in TM.walk(t):
        if x.op == "vartype" or x.op == "vcall" and x.a[0] == "type":
            v = x.a[0] if x.op == "vartype" else x.a[1]
            if x.op == "vcall" and v.op == "fld" and v.a[0].endswith("::expr"):
                v = v.a[1]
            if v is S.mf:
                m[x] = raw("kind", "f")
            elif v.op == "extremum":
                fn, rng, key = v.a[0], v.a[1], v.a[2]
                for L, k in ((S.ce, "e"), (S.ci, "i")):
                    if len(rng) == 1 and rng[0][1] is ZERO and rng[0][2] is canon(length(L)):
                        h = rng[0][0]
                        el = sel(L, h)
                        kinds = [y for y in TM.walk(key) if y.op in ("vcall", "vartype")]
                        if len(kinds) == 1 and kinds[0] is key and el in set(TM.walk(key)):
                            m[x] = raw("kind", k) if "max" in fn else raw("other", fn, k)
    t = canon(TM.subst(t, m)) if m else t
    m = {}
    for x in TM.walk(t):
        if x.op == "fold" and len(x.a[0]) == 1 and x.a[2].op == "enumc" and x.a[2].a[1] == 0:
            h, lo, hi = x.a[0][0]
            for L, k in ((S.ce, "e"), (S.ci, "i")):
                ty = raw("vartype", sel(L, h))
                mx = ite(cmp("plt" if False else "ilt", raw("ord", x.a[1]), raw("ord", ty)), ty, x.a[1])
                if lo is ZERO and hi is canon(length(L)) and (x.a[3] is canon(mx) or settled(x.a[3], canon(mx)) or x.a[3].op == "max" and set(x.a[3].a) == {x.a[1], ty}):
                    m[x] = ite(cmp("ieq", ZERO, length(L)), x.a[2], raw("kind", k))
        if x.op in ("exists", "forall") and len(x.a[0]) == 1:
            h, lo, hi = x.a[0][0]
            for L, k in ((S.ce, "e"), (S.ci, "i")):
                b = canon(TM.subst(x.a[1], {raw("vartype", sel(L, h)): raw("kind", k)}))
                if lo is ZERO and hi is canon(length(L)) and h not in set(TM.walk(b)) and b is not x.a[1]:
                    m[x] = And(cmp("ilt", ZERO, length(L)), b) if x.op == "exists" else Or(cmp("ieq", ZERO, length(L)), b)
    return canon(TM.subst(t, m)) if m else t


def atomsof(t):
    c = Cases()
    out = {}
    c.conds(canon(t), out, set())
    return set(out)


def vocabulary(S, t):
    """the conditions only speak of the number and the kinds of functions"""
    for a in atomsof(t):
        for x in TM.walk(a):
            if x.op in ("exists", "forall", "fold", "extremum", "vartype", "vcall", "app", "phi", "loopexit", "value"):
                raise Undecided("condition " + show(a)[:150])


@check("P01", "Cost registration is extracted as the new value of the stored cost, and the cost the solvers are handed as a function of it: the last expression given, negated once for maximize, zero if none was given.", expect=2)
def p01(R):
    u = R.unit("opt")
    for f in find(u, PB + "minimize") + find(u, PB + "maximize"):
        n = f["n"]

        def go(f=f, n=n):
            I, this, arg, after, v, P = method(u, f)
            a = sym(f["params"][0]["n"])
            want = neg(a) if n == "maximize" else a
            got = member(after, "m_f")
            for x in TM.walk(got):
                if x.op in ("node", "rec", "vnew"):
                    raise Undecided("stored cost " + show(got)[:150])
            if got is not canon(want):
                return "%s stores %s" % (n, show(got)[:300])
            return others(this, after, "m_f")
        R.saw(u, [f])
        R.check("%s(%s)" % (n, u.ts(f["params"][0]["t"])[-30:] + str(find(u, PB + n).index(f))), WHERE, go)
    for n in SOLVERS:
        def cost(n=n):
            S = solved(R)
            return equal(S, S.callback(n, "f", [X]), mul(DF, P_("f", X)))
        R.check("cost handed to " + n, WHERE, cost)


def method(u, f, P=None, fixed=None):
    """fixed: values of integer parameters (loops are then unrolled)"""
    P = P or VarsOnly()
    I = Interp(u, opaque=P)
    if fixed:
        I.unrollmax = 16
    st = State()
    this = sym("this")
    ref = I.alloc(st, this, "this")
    args = []
    for p in f["params"]:
        t = I.ty(p["t"])
        x = LM.typemark(I, p["t"], sym(p["n"]))
        if fixed and p["n"] in fixed:
            x = num(fixed[p["n"]])
        args.append(I.alloc(st, x, p["n"]) if t.get("ref") else x)
    v, s = I.call_fn(st, f, I.addr(ref), args)
    I.last = s
    return I, this, args, canon(I.load(s, ref)), canon(rd(I, s, v)), P


MEMBERS = ("m_decision_variables", "m_f", "m_equality_constraints", "m_inequality_constraints", "m_iteration_callbacks", "m_persistent_iteration_callbacks")


def others(this, after, *changed):
    for k in MEMBERS:
        if k not in changed and member(after, k) is not member(this, k):
            return "%s is changed as well" % k


@check("P02", "Declaring variables and constraints is extracted as the new lists; the starting point, the sizes and the lists handed to the solvers and the final assignment of the solution are compared with all declared ones, in order, on every path on which a solver ran.", expect=3)
def p02(R):
    u = R.unit("opt")
    for f in find(u, PB + "decision_variable") + find(u, PB + "symmetric_decision_variable"):
        R.saw(u, [f])
        R.check("%s/%d" % (f["n"], len(f["params"])), WHERE, lambda f=f: declared(u, f))
    for k, f in enumerate(find(u, PB + "subject_to")):
        R.saw(u, [f])

        def go(f=f):
            I, this, args, after, v, P = method(u, f)
            a = sym(f["params"][0]["n"])
            kind = "m_equality_constraints" if "slp::EqualityConstraints" in u.ts(f["params"][0]["t"]) else "m_inequality_constraints"
            cs = [x for x in TM.walk(after) if x.op == "fld" and x.a[1] is a and x.a[0].endswith("::constraints")]
            got = member(after, kind)
            if not cs:
                return "the constraint is not recorded"
            want = canon(raw("cat", member(this, kind), cs[0]))
            got = canon(flat(got))
            if got is not want and not settled(got, want):
                if got.op not in ("cat", "push", "list", "fld", "sym") or any(x.op in ("fold", "phi", "comp") for x in TM.walk(got)):
                    d = tokens(got, want, [member(this, kind), cs[0]])
                    if d:
                        return "the constraints become " + d
                    raise Undecided("constraints " + show(got)[:150])
                return "the constraints become " + show(got)[:300]
            return others(this, after, kind)
        R.check("subject_to/%d" % k, WHERE, go)

    def back():
        S = solved(R)
        seen = set()
        for cond, t in leavesof(S.end):
            if t in (sym("valuation"), raw("heap", "valuation")):
                continue
            if t.op == "after":
                return "after %s the variables are not assigned the solution" % t.a[0]
            d, base = S.point(t)
            if base in (sym("valuation"), raw("heap", "valuation")):
                if any(k is S.VM and S.start(canon(v)) is not S.x0 for k, v in d.items()):
                    return "without a solver run the variables become " + show(t)[:200]
                continue
            for c2, b in leavesof(base):
                if b.op in ("valuation", "heap"):
                    continue
                if b.op != "after":
                    raise Undecided("final values " + show(b)[:100])
                for c3, v in leavesof(canon(d[S.VM])):
                    # both conditionals have the same conditions: pair compatible ones
                    if any(Not(x) in c3 for x in c2) or any(Not(x) in c2 for x in c3):
                        continue
                    if v.op == "solution" and v.a[0] != b.a[0]:
                        if Cases().check(And(*c2, *c3, *cond), FALSE) is True:
                            continue
                    if v is not vec(raw("solution", b.a[0])):
                        return "after %s the variables are assigned %s" % (b.a[0], show(v)[:200])
                    seen.add(b.a[0])
        if seen != set(SOLVERS):
            return "the solution of %s is not assigned to the variables" % ", ".join(sorted(set(SOLVERS) - seen))
    R.check("solution assigned", WHERE, back)
    for n in SOLVERS:
        def start(n=n):
            S = solved(R)
            a, st = S.calls[n]
            x = S.start(canon(a[-1]))
            if x is not S.x0:
                if any(y.op in ("phi", "fold", "app", "loopexit") for y in TM.walk(x)):
                    raise Undecided("starting point " + show(x)[:150])
                return "the starting point is " + show(x)[:300]
            fs = fieldsof(a[0])
            for k, L in (("num_decision_variables", S.dv), ("num_equality_constraints", S.ce), ("num_inequality_constraints", S.ci)):
                if k in fs and canon(fs[k]) is not canon(length(L)):
                    return "%s is %s" % (k, show(canon(fs[k]))[:200])
        R.check("starting point and sizes for " + n, WHERE, start)
        for cb in ("c_e", "c_i")[:SOLVERS[n]]:
            def cons(n=n, cb=cb):
                S = solved(R)
                return equal(S, S.callback(n, cb, [X]), specs(n)[cb][1])
            R.check("%s handed to %s" % (cb, n), WHERE, cons)

    def kept():
        S = solved(R)
        for k in MEMBERS:
            if member(S.final, k) is not member(S.this, k):
                return "solving changes %s" % k
    R.check("solving leaves the problem's description", WHERE, kept)


def declared(u, f):
    """for any size; a declaration of another form is still refuted by small
    sizes, with its loops unrolled"""
    try:
        return declared_any(u, f)
    except (Undecided, Unsupported, Broken):
        if not f["params"]:
            raise
        for n in (1, 2, 3, 4):
            r = declared_small(u, f, (n, n) if len(f["params"]) == 1 else (n, 5 - n))
            if r:
                return r
        raise


def declared_small(u, f, size):
    I, this, args, after, v, P = method(u, f, fixed={p["n"]: k for p, k in zip(f["params"], size)})
    rows, cols = size
    tri = len(f["params"]) == 1 and f["n"].startswith("symmetric")
    if not tri and len(f["params"]) == 1:
        cols = 1
    old = member(this, "m_decision_variables")
    m, new = flat(member(after, "m_decision_variables")), []
    while m.op == "push":
        new.append(m.a[1])
        m = m.a[0]
    if m.op == "cat" and len(m.a) == 2 and m.a[1].op == "list":
        new += list(m.a[1].a)[::-1]
        m = m.a[0]
    sf = {k.split("::")[-1]: x for k, x in v.a[1]} if v.op == "rec" else {}
    if m is not old or any(x.op != "newvar" for x in new) or set(sf) != {"m_rows", "m_cols", "m_storage"}:
        raise Undecided("declaration of %d by %d" % (rows, cols))
    new = new[::-1]
    at = {(i, j): canon(sel(sf["m_storage"], num(i * cols + j))) for i in range(rows) for j in range(cols)}
    bad = [x for x in at.values() if x.op != "newvar"]
    if bad:
        raise Undecided("element " + show(bad[0])[:100])
    where = "a %d by %d %smatrix" % (rows, cols, "symmetric " if tri else "")
    if (canon(sf["m_rows"]), canon(sf["m_cols"])) != (num(rows), num(cols)):
        return "%s becomes %s by %s" % (where, show(sf["m_rows"]), show(sf["m_cols"]))
    want = [(i, j) for i in range(rows) for j in range(i + 1 if tri else cols)]
    if len(new) != len(want):
        return "%s declares %d variables" % (where, len(new))
    for k, (i, j) in enumerate(want):
        if at[i, j] is not new[k]:
            if tri and sorted(map(show, {at[x] for x in want})) == sorted(map(show, new)) and all(at[a, b] is at[b, a] for a, b in at):
                return None
            return "element (%d, %d) of %s is not the variable declared for it" % (i, j, where)
        if tri and at[j, i] is not new[k]:
            return "element (%d, %d) of %s is not the variable of its mirror image" % (j, i, where)


def declared_any(u, f):
    I, this, args, after, v, P = method(u, f)
    dv = member(after, "m_decision_variables")
    old = member(this, "m_decision_variables")
    if not f["params"]:
        if v.op != "newvar":
            raise Undecided("returned " + show(v)[:100])
        if dv is not canon(raw("push", old, v)):
            return "a new variable makes the list " + show(dv)[:200]
        return others(this, after, "m_decision_variables")
    sf = {k.split("::")[-1]: x for k, x in v.a[1]} if v.op == "rec" else {}
    if set(sf) != {"m_rows", "m_cols", "m_storage"}:
        raise Undecided("returned matrix")
    sym_ = f["n"].startswith("symmetric")
    r = sym(f["params"][0]["n"])
    c = r if sym_ else sym(f["params"][1]["n"])
    if sf["m_rows"] is not r or sf["m_cols"] is not c:
        return "the matrix is %s by %s" % (show(sf["m_rows"]), show(sf["m_cols"]))
    # list of variables: one per element of the loop nest
    t = after
    rng = []

    def nest(t, base):
        if t.op == "fold" and len(t.a[0]) == 1:
            if base is not None and t.a[2] is not base:
                raise Undecided("list of variables " + show(t)[:100])
            rng.append(t.a[0][0])
            return nest(t.a[3], t.a[1])
        return t, base
    body, acc = nest(t, this)
    pushed = []
    m = member(body, "m_decision_variables")
    a0 = member(acc, "m_decision_variables") if acc is not None else old
    while m.op == "push":
        pushed.append(m.a[1])
        m = m.a[0]
    if m.op in ("cat",) and not rng:
        if len(m.a) == 2 and m.a[0] is old and m.a[1].op == "comp":
            rng = list(m.a[1].a[0])
            pushed.append(m.a[1].a[2])
        else:
            raise Undecided("list of variables " + show(m)[:100])
    elif m is not a0:
        raise Undecided("list of variables " + show(m)[:100])
    if len(pushed) != 1 or pushed[0].op != "newvar":
        return "%d variables are declared per element" % len(pushed) if len(pushed) != 1 else "the declared variable is " + show(pushed[0])[:100]
    nv = pushed[0]
    if len(rng) != 2:
        raise Undecided("loops of the declaration")
    # elements of the matrix
    w = []

    def writes(t, bs, stop):
        while t is not stop:
            if t.op == "forupd":
                w.append((bs + tuple(t.a[1]), t.a[2], t.a[3], t.a[4]))
                t = t.a[0]
            elif t.op == "fold":
                writes(t.a[3], bs + tuple(t.a[0]), t.a[1])
                t = t.a[2]
            elif stop is None and t.op in ("comp", "fill", "vfill"):
                return
            else:
                raise Undecided("elements " + show(t)[:150])
    writes(sf["m_storage"], (), None)
    outer, inner = rng
    R, C = sym("R"), sym("C")

    def at(b, t):
        (h, _, _), (k, _, _) = b
        return canon(TM.subst(t, {h: R, k: C}))
    ranges = at(rng, outer[1]), at(rng, outer[2]), at(rng, inner[1]), at(rng, inner[2])
    want = (ZERO, canon(r), ZERO, canon(add(R, ONE)) if sym_ else canon(c))
    if ranges != want:
        if sym_ and ranges == (ZERO, canon(r), R, canon(r)):
            pass
        else:
            return "the elements run over rows %s to %s and columns %s to %s" % tuple(show(x) for x in ranges)
    idx = set()
    for b, i, val, g in w:
        if len(b) != 2 or len(i) != 1 or g is not TRUE:
            raise Undecided("elements of the matrix")
        bb = at(b, b[0][1]), at(b, b[0][2]), at(b, b[1][1]), at(b, b[1][2])
        if bb != ranges:
            raise Undecided("elements of the matrix and variables are made in different loops")
        if val is not nv:
            if val.op == "newvar":
                return "the matrix's element is a variable that was not declared"
            raise Undecided("element " + show(val)[:100])
        idx.add(at(b, i[0]))
    need = {canon(add(mul(R, c), C))} | ({canon(add(mul(C, c), R))} if sym_ else set())
    if idx != need:
        return "the variable is placed at %s" % ", ".join(show(x) for x in idx)
    return others(this, after, "m_decision_variables") if after.op != "fold" else others(acc, body, "m_decision_variables")


def statuses(u):
    if "slp::ExitStatus" not in u.enums:
        raise Broken("no ExitStatus")
    return {c["n"]: int(c["v"]) for c in u.enums["slp::ExitStatus"]["e"]}


@check("P03", "The status returned by solve, the solver that ran and the shortcuts are extracted as one conditional over the kinds and numbers of functions and compared by case analysis with the documented dispatch.", expect=2)
def p03(R):
    def dispatch():
        S = solved(R)
        got = types(S, S.ret)
        le = lambda k: cmp("ile", raw("ord", raw("kind", k)), ONE)
        none = lambda L: cmp("ieq", ZERO, length(L))
        const = And(Or(cmp("peq", NULL, S.mf), le("f")), Or(none(S.ce), le("e")), Or(none(S.ci), le("i")))
        bc = [x for x in TM.walk(got) if x.op == "get_bounds"]
        if len(set(bc)) > 1:
            raise Undecided("several bound detections")
        vals = statuses(R.unit("opt"))
        succ, glob = (raw("enumc", "slp::ExitStatus::" + n, vals[n]) for n in ("SUCCESS", "GLOBALLY_INFEASIBLE"))
        status = lambda n: raw("status", n)
        rest = status("interior_point")
        if bc:
            conf = [x for x in TM.walk(got) if x.op == "fld" and x.a[1] is bc[0]]
            k = [x for x in conf if x.a[0].endswith("conflicting_bound_indices")]
            if k:
                rest = ite(Not(cmp("ieq", ZERO, length(k[0]))), glob, rest)
        want = ite(const, succ, ite(And(none(S.ce), none(S.ci)), status("newton"), ite(none(S.ci), status("sqp"), rest)))
        if not bc:
            return "conflicting bounds are not looked for"
        vocabulary(S, TM.subst(got, {b: sym("bounds") for b in bc}))
        c = Cases()
        nb = {b: sym("bounds") for b in bc}
        for x in TM.walk(got):
            if x.op == "ilt" and x.a[0] is ZERO and x.a[1].op == "len":
                nb[x] = Not(cmp("ieq", ZERO, TM.subst(x.a[1], {b: sym("bounds") for b in bc})))
            if x.op == "ile" and x.a[0] is ONE and x.a[1].op == "len":
                nb[x] = Not(cmp("ieq", ZERO, TM.subst(x.a[1], {b: sym("bounds") for b in bc})))
        if c.check(canon(TM.subst(got, nb)), canon(TM.subst(want, nb))) is not True:
            return "the returned status is %s (%s)" % (show(got)[:700], show(c.witness) if isinstance(c.witness, T) else str(c.witness)[:600])
    R.check("dispatch", WHERE, dispatch)

    def bounds():
        S = solved(R)
        bc = list({x for x in TM.walk(S.ret) if x.op == "get_bounds"})
        if len(bc) != 1:
            raise Undecided("%d bound detections" % len(bc))
        a = bc[0].a
        if a[0] is not S.dv or a[1] is not S.ci:
            return "bounds are looked for in %s for %s" % (show(a[1])[:100], show(a[0])[:100])
        j = a[2]
        if j.op == "value" and j.a[0].op == "ad:Jacobian" and j.a[0].a == (vec(raw("vm", S.ci)), S.VM):
            return None
        if j.op == "value" and j.a[0].op.startswith("ad:"):
            return "bounds are looked for with the derivative " + show(j)[:200]
        raise Undecided("derivative " + show(j)[:100])
    R.check("bounds of the inequality constraints", WHERE, bounds)
    for n in SOLVERS:
        def opts(n=n):
            S = solved(R)
            a, st = S.calls[n]
            if canon(a[2]) is not sym("options"):
                raise Undecided("options " + show(canon(a[2]))[:100])
            fs = fieldsof(a[0])
            for k, L in (("num_decision_variables", S.dv), ("num_equality_constraints", S.ce), ("num_inequality_constraints", S.ci)):
                if k in fs and canon(fs[k]) is not canon(length(L)):
                    return "%s is told %s = %s" % (n, k, show(canon(fs[k]))[:200])
        R.check("options and sizes for " + n, WHERE, opts)


@check("P04", "Adding and clearing callbacks is extracted as the new lists, wrapped callbacks are executed on a symbolic argument, and the list handed to each solver is compared with the ordinary callbacks followed by the persistent ones.", expect=2)
def p04(R):
    u = R.unit("opt")
    info = sym("info")

    def registered(f, n):
        def go():
            I, this, args, after, v, P = method(u, f)
            got = member(after, n)
            if got.op != "push" or got.a[0] is not member(this, n):
                if got.op in ("fld", "list", "sym"):
                    return "the callbacks become " + show(got)[:200]
                raise Undecided("callbacks " + show(got)[:150])
            o = others(this, after, n)
            if o:
                return o
            cb, c = got.a[1], sym(f["params"][0]["n"])
            if cb is c:
                return None
            if cb.op != "clo":
                raise Undecided("callback " + show(cb)[:100])
            P.apps.clear()
            st = I.last.copy()
            r = I.call_closure(st, None, cb, [I.alloc(st, info, "info")])
            if isinstance(r, tuple):
                r = r[0]
            r = canon(rd(I, st, r))
            if len(P.apps) != 1 or P.apps[0][0] is not c or P.apps[0][1] != [info]:
                return "a wrapped callback makes the calls " + "; ".join(show(a) + str([show(x) for x in b]) for a, b in P.apps)[:200]
            want = raw("answer", c)
            if r not in (FALSE, want):
                return "a wrapped callback answers " + show(r)[:100]
            lam = [g for g in u.fns.values() if g["n"] == "operator()" and "exercise_problem" in g["q"] and u.loc(g).endswith(":%s" % lamline(u, f))]
            if len(lam) == 1:
                isvoid = I.ty(lam[0]["rt"])["c"] == "void"
                if isvoid != (r is FALSE):
                    return "a callback's answer is not passed on"
        return go
    for n, m in (("add_callback", "m_iteration_callbacks"), ("add_persistent_callback", "m_persistent_iteration_callbacks")):
        for k, f in enumerate(find(u, PB + n)):
            R.saw(u, [f])
            R.check("%s/%d" % (n, k), WHERE, registered(f, m))

    def clear():
        f = find(u, PB + "clear_callbacks")[0]
        R.saw(u, [f])
        I, this, args, after, v, P = method(u, f)
        got = member(after, "m_iteration_callbacks")
        if got is not EMPTY:
            if got.op in ("fld", "sym"):
                return "the callbacks stay"
            raise Undecided("callbacks " + show(got)[:150])
        return others(this, after, "m_iteration_callbacks")
    R.check("clear_callbacks", WHERE, clear)
    def kept():
        S = solved(R)
        for k in ("m_iteration_callbacks", "m_persistent_iteration_callbacks"):
            if member(S.final, k) is not member(S.this, k):
                return "solving changes %s" % k
    R.check("solving keeps the callbacks", WHERE, kept)
    for n in SOLVERS:
        def handed(n=n, spy=FALSE):
            S = solved(R, spy)
            a, st = S.calls[n]
            got = canon(a[1])
            extra = []
            if spy is TRUE:
                while got.op == "push":
                    extra.append(got.a[1])
                    got = got.a[0]
            got = canon(flat(got))
            want = canon(raw("cat", S.cb, S.pcb))
            if got is not want:
                if any(x.op in ("fold", "phi", "app", "comp") for x in TM.walk(got)):
                    d = tokens(got, want, [S.cb, S.pcb])
                    if d:
                        return "%s is handed the callbacks %s" % (n, d)
                    raise Undecided("callbacks " + show(got)[:150])
                return "%s is handed the callbacks %s" % (n, show(got)[:300])
            for c in extra:
                if c.op != "clo":
                    raise Undecided("callback " + show(c)[:80])
                s2 = st.copy()
                r = S.I.call_closure(s2, None, c, [S.I.alloc(s2, info, "info")])
                r = canon(r[0] if isinstance(r, tuple) else r)
                if r is not FALSE:
                    return "recording the sparsity answers " + show(r)[:100]
        R.check("callbacks handed to " + n, WHERE, handed)
        R.check("callbacks handed to %s when recording" % n, WHERE, lambda n=n, h=handed: h(n, TRUE))


class Tokens(numev.Ev):
    """lists of distinguishable elements; what an element answers about itself
    is any of the possible answers"""

    def go(self, t):
        if t.op == "vcall" or t.op == "call" or t.op.startswith("vcall"):
            name = next((str(x) for x in t.a if isinstance(x, str)), "")
            k = [self(x) for x in t.a if isinstance(x, T)]
            if not name.endswith("type") or len(k) != 1:
                raise Undecided("no meaning for " + show(t)[:80])
            return self.env[sym("types")][k[0] % 7]
        if t.op == "enumc":
            return t.a[1]
        if t.op == "fld" and isinstance(self(t.a[1]), int):
            return self(t.a[1])     # the part of an element that tells its kind
        return super().go(t)


def tokens(got, want, lists, seed=5):
    """do two expressions over lists give different lists of elements?"""
    rng = random.Random(seed)
    for k in range(200):
        env, at = {sym("types"): [rng.randrange(5) for _ in range(7)]}, 1
        for l in lists:
            n = rng.randrange(4)
            env[l] = list(range(at, at + n))
            at += n
            if l.op == "fld":
                env.setdefault(l.a[1], {})[l.a[0].split("::")[-1]] = env[l]
        a, b = Tokens(env)(got), Tokens(env)(want)
        if a != b:
            return "%s instead of %s" % (a, b)
    return None


def flat(t):
    """copying a list element by element gives the list"""
    m = {}
    for x in TM.walk(t):
        if x.op == "comp" and len(x.a[0]) == 1 and x.a[1] is TRUE:
            h, lo, hi = x.a[0][0]
            e = x.a[2]
            if lo is ZERO and e.op == "sel" and e.a[1] is h and canon(length(e.a[0])) is canon(hi):
                m[x] = e.a[0]
    return TM.subst(t, m) if m else t


def lamline(u, f):
    """line of the lambda that is registered"""
    m = re.search(r"lambda at [^)]*?:(\d+):(\d+)", u.ts(f["params"][0]["t"]) + f["dn"])
    return m.group(1) if m else None
