"""S03 (rule), S05/S06 (filter), S08-S15: helpers of the solvers, as formulas."""
from frame import check, Broken
from sem import Interp, State, Unsupported
import sem, libmodel as LM, term as TM, symb, numev
from term import *
from decide import canon, Cases
from vx import Undecided
from numev import Ev, same, rvec, rmat
import numpy as np


# ----------------------------------------------------------- formula kit

def V(n):
    t = sym(n)
    TM.markmat(t)
    return TM.markvec(t)


def M(n):
    return TM.markmat(sym(n))


def mm(*xs):
    r = xs[-1]
    for x in reversed(xs[:-1]):
        y = mmul(x, r)
        TM.markmat(y)
        if TM.isvec(r):
            TM.markvec(y)
        r = y
    return r


def plus(*xs):
    r = xs[0]
    for x in xs[1:]:
        y = add(r, x)
        if TM.ismat(r) or TM.isvec(r):
            TM.carry(r, y)
        r = y
    return r


def minus(x, y):
    r = sub(x, y)
    return TM.carry(x, r) if TM.ismat(x) else r


def times(k, v):
    return TM.carry(v, mul(k, v))


def n1(x):
    return raw("norm_1", x)


def ninf(x):
    return raw("norm_inf", x)


def rows(x):
    return raw("dim:rows", x)


def filled(like, c):
    return LM.vmark(raw("vfill", raw("dims", rows(like)), c))


def fmax(*xs):
    r = xs[0]
    for x in xs[1:]:
        r = raw("max", r, x)
    return r


def find(u, q, pred=lambda f: True):
    r = [f for f in u.fns.values() if f["q"] == q and f.get("body") and pred(f)]
    if not r:
        raise Broken("no definition of " + q)
    return r


def fcall(u, f, args, this=None, st=None, opaque=None, I=None):
    """value and final state of f on the given values; reference parameters
    get a cell each.  Returns (value, state, interp, lvalues)"""
    I = I or Interp(u, opaque=opaque)
    st = st or State()
    lv = []
    for p, a in zip(f["params"], args):
        t = I.ty(p["t"])
        if isinstance(a, T) and not I.islv(a):
            a = LM.typemark(I, p["t"], a)
        lv.append(I.alloc(st, a, p["n"]) if t.get("ref") and not I.islv(a) else a)
    v, s = I.call_fn(st, f, this, lv)
    if I.islv(v):
        v = I.load(s, v)
    return v, s, I, lv


def sampler(shapes):
    """shapes: dict term -> 'n','e','i' sizes spec: ('v',dim) ('m',dim,dim) ('s',) ('pv',dim) ('ps',)"""
    def sample(rng, k):
        size = {"n": rng.choice([2, 3]), "e": rng.choice([1, 2, 3]), "i": rng.choice([1, 2, 3]), "N": 6}
        grid = k % 3 == 2
        big = k % 3 == 1

        def x(lo=-3.0, hi=3.0):
            if grid:
                return float(rng.randint(max(int(lo), -2), 2)) if lo <= 0 else float(rng.randint(1, 2))
            if big and rng.random() < 0.5:
                return rng.uniform(lo, hi) * 200
            return rng.uniform(lo, hi)
        env = {}
        for t, sp in shapes.items():
            lo = 0.05 if sp[0].startswith("p") else -3.0
            kind = sp[0].lstrip("p")
            if kind == "s":
                env[t] = x(lo)
            elif kind == "v":
                env[t] = np.array([x(lo) for _ in range(size[sp[1]])])
            elif kind == "m":
                env[t] = np.array([[x(lo) for _ in range(size[sp[2]])] for _ in range(size[sp[1]])])
            elif kind == "b":
                env[t] = rng.random() < 0.5
        return env
    return sample


# ------------------------------------------------------------------ S10

g, Ae, ce, Ai, ci, s, y, z, mu = V("g"), M("A_e"), V("c_e"), M("A_i"), V("c_i"), V("s"), V("y"), V("z"), sym("μ")
SHAPES = {g: ("v", "n"), Ae: ("m", "e", "n"), ce: ("v", "e"), Ai: ("m", "i", "n"), ci: ("v", "i"), s: ("pv", "i"), y: ("v", "e"), z: ("pv", "i"), mu: ("ps",)}


def residuals(k, g, Ae=None, ce=None, y=None, Ai=None, ci=None, s=None, z=None, mu=None):
    """the documented KKT residual vectors (docs/algorithms.md)"""
    r = g
    if k >= 1:
        r = minus(r, mm(TM.tr(Ae), y))
    if k >= 2:
        r = minus(r, mm(TM.tr(Ai), z))
    out = [r]
    if k >= 1:
        out.append(ce)
    if k >= 2:
        out += [minus(ci, s), minus(TM.had(s, z), filled(s, mu))]
    return out


def kktspec(kind, k, v):
    R = residuals(k, *v)
    if kind == "ONE_NORM":
        r = n1(R[0])
        for x in R[1:]:
            r = add(r, n1(x))
        return r
    smax = num(100)
    terms = []
    if k == 0:
        return ninf(R[0])
    if k == 1:
        sd = div(raw("max", smax, div(n1(v[3]), rows(v[3]))), smax)
        return fmax(div(ninf(R[0]), sd), ninf(R[1]))
    sd = div(raw("max", smax, div(add(n1(v[3]), n1(v[7])), add(rows(v[3]), rows(v[7])))), smax)
    sc = div(raw("max", smax, div(n1(v[7]), rows(v[7]))), smax)
    return fmax(div(ninf(R[0]), sd), div(ninf(R[3]), sc), ninf(R[1]), ninf(R[2]))


def kktargs(n):
    """positional arguments of the error functions by number of parameters"""
    return {1: ([g], 0), 4: ([g, Ae, ce, y], 1), 9: ([g, Ae, ce, Ai, ci, s, y, z, mu], 2)}[n]


def kind_of(f):
    d = f["dn"].replace(" ", "")
    for k in ("INF_NORM_SCALED", "ONE_NORM"):
        if k in d:
            return k
    raise Undecided("error kind of " + f["dn"][:80])


@check("S10", "The value returned by every instantiated kkt_error overload is extracted as a closed form and compared with the documented norm of the KKT residuals (stationarity, equality and slack feasibility, complementarity, with the documented multiplier scaling); unscaled_kkt_error is compared with kkt_error at the unscaled quantities.", expect=6)
def s10(R):
    u = R.unit("solver")
    todo = []
    for f in find(u, "slp::kkt_error"):
        n = len(f["params"])
        if n not in (1, 4, 9):
            raise Broken("kkt_error with %d parameters" % n)

        def go(f=f, n=n):
            a, k = kktargs(n)
            v, st, I, lv = fcall(u, f, a)
            by = dict(zip(("g", "A_e", "c_e", "A_i", "c_i", "s", "y", "z", "mu") if n == 9 else ("g", "A_e", "c_e", "y"), a))
            spec = kktspec(kind_of(f), k, [by.get(x) for x in ("g", "A_e", "c_e", "y", "A_i", "c_i", "s", "z", "mu")] if False else order(by))
            return same(v, spec, sampler({t: SHAPES[t] for t in a}), what="the error")
        R.check("kkt_error/%d/%s" % (n, kind_of(f)), u.loc(f), go)
        R.saw(u, [f])
    for f in find(u, "slp::unscaled_kkt_error"):
        n = len(f["params"]) - 1

        def go(f=f, n=n):
            a, k = kktargs(n)
            sc = sym("scaling")
            v, st, I, lv = fcall(u, f, [sc] + a)
            r = I.u.recs[I.ty(f["params"][0]["t"])["rec"]]
            df, dce, dci = (getf(sc, r["q"] + "::" + x) for x in ("f", "c_e", "c_i"))
            for x in (dce, dci):
                TM.markmat(x)
                TM.markvec(x)
            by = dict(zip(("g", "A_e", "c_e", "A_i", "c_i", "s", "y", "z", "mu") if n == 9 else ("g", "A_e", "c_e", "y"), a))
            sb = dict(by)
            inv = div(ONE, df)
            sb["g"] = times(inv, g)
            if k >= 1:
                sb["A_e"] = TM.markmat(mmul(TM.markmat(raw("diaginv", dce)), Ae))
                sb["c_e"] = TM.had(TM.vinv(dce), ce)
                sb["y"] = times(inv, TM.had(dce, y))
            if k >= 2:
                sb["A_i"] = TM.markmat(mmul(TM.markmat(raw("diaginv", dci)), Ai))
                sb["c_i"] = TM.had(TM.vinv(dci), ci)
                sb["s"] = TM.had(TM.vinv(dci), s)
                sb["z"] = times(inv, TM.had(dci, z))
                sb["mu"] = mul(inv, mu)
            # with identity scaling the factors have size zero and nothing is scaled
            ident = And(cmp("feq", df, ONE), cmp("ieq", raw("dim:rows", dce), ZERO), cmp("ieq", raw("dim:rows", dci), ZERO))
            ident2 = And(cmp("feq", df, ONE), cmp("ieq", raw("dim:size", dce), ZERO), cmp("ieq", raw("dim:size", dci), ZERO))
            kd = kind_of(f)
            vi = canon(subst(canon(v), {canon(ident2): TRUE, canon(ident): TRUE}))
            vn = v
            for c in (cmp("feq", df, ONE), cmp("ieq", raw("dim:size", dce), ZERO), cmp("ieq", raw("dim:rows", dce), ZERO)):
                pass
            sh = {t: SHAPES[t] for t in a}
            bad = same(subst_true(v, [df, dce, dci]), kktspec(kd, k, order(by)), sampler(sh), what="the error under identity scaling")
            if bad:
                return bad
            sh2 = dict(sh)
            sh2.update({df: ("ps",), dce: ("pv", "e"), dci: ("pv", "i")})
            want = kktspec(kd, k, order(sb))
            return same(nonident(v), want, sampler(sh2), what="the unscaled error")
        R.check("unscaled_kkt_error/%d/%s" % (n, kind_of(f)), u.loc(f), go)
        R.saw(u, [f])
    f = [f for f in u.fns.values() if f["q"] == "slp::ProblemScaling::is_identity" or (f["n"] == "is_identity" and f.get("body"))]
    if f:
        f = f[0]

        def go():
            I = Interp(u)
            st = State()
            this = I.addr(I.alloc(st, sym("this"), "this"))
            v, s2 = I.call_fn(st, f, this, [])
            t = canon(v)
            cls = f["cls"] if isinstance(f.get("cls"), str) else None
            leaves_ = [x for x in walk(t) if x.op in ("feq", "ieq")]
            fld = {str(x.a[1]).split("::")[-1]: x for x in walk(t) if x.op == "getf" or x.op == "fld"}
            names = {show(x) for x in walk(t)}
            want = {"this.f", "this.c_e", "this.c_i"}
            if not want <= names:
                return "identity scaling does not depend on " + ", ".join(sorted(want - names))
            fs, ne, ni = ([x for x in walk(t) if show(x) == n] for n in ("this.f", "dim:size(this.c_e)", "dim:size(this.c_i)"))
            if not (fs and ne and ni):
                raise Undecided("form of is_identity: " + show(t))
            for x in (1.0, 0.0, -1.0, 2.0, 0.5, 1 + 1e-3, 1 - 1e-4, 1 + 1e-7, 1 - 1e-12):
                for i in range(3):
                    for j in range(3):
                        e = {fs[0]: x, ne[0]: i, ni[0]: j, "#bad": []}
                        got = bool(Ev(e)(t))
                        if got != (x == 1.0 and i == 0 and j == 0):
                            return "is_identity answers %s for a cost factor of %s, %d equality and %d inequality factors" % (got, x, i, j)
        R.check("is_identity", u.loc(f), go)
        R.saw(u, [f])


def order(by):
    """positional order expected by residuals()"""
    return [by.get(x) for x in ("g", "A_e", "c_e", "y", "A_i", "c_i", "s", "z", "mu")]


def splitident(v):
    v = canon(v)
    if v.op == "ite":
        c = v.a[0]
        if any(x.op in ("dim:size", "dim:rows") for x in walk(c)):
            return c, v.a[1], v.a[2]
    raise Undecided("the unscaled error does not distinguish identity scaling by its size: " + show(v)[:100])


def subst_true(v, fs):
    return splitident(v)[1]


def nonident(v):
    return splitident(v)[2]
