"""P05: the optimal control layer.

The constructors and the constraint helpers are executed abstractly with the
matrices of variables, the dynamics and the constraint objects uninterpreted;
what reaches subject_to is compared with the documented equations, for a
symbolic number of steps and a symbolic step index."""
import re
import numpy as np
from frame import check, Broken
from sem import Interp, State, Unsupported, UNIT
import sem, libmodel as LM, term as TM, numev
from term import *
from decide import canon, Cases
from vx import Undecided
from chk_sutil import find
from chk_sfn import settled
from chk_problem import rd, vec, asg, ASG, fieldsof

OC = "slp::OCP<double>::"
CONS = ("H", "constraints")
FRESH = ("H", "fresh")
WHERE = "include/sleipnir/optimization/ocp.hpp"


def ld(I, st, x):
    """value of an operand; blocks are read where they are used"""
    for _ in range(8):
        if not I.islv(x):
            break
        y = I.load(st, x)
        if y is x:
            break
        x = y
    return x


class Policy:
    def __call__(self, f, av):
        q, n = f["q"], f["n"]
        cls = q.rsplit("::", 1)[0]
        if q.startswith(OC) or q.startswith("slp::OCP<double>::OCP"):
            return None
        if n == "decision_variable" and "Problem<double>" in q:
            def dv(I, st, fr, e, f, obj, av):
                a = [canon(ld(I, st, x)) for x in av]
                # a creation inside a loop is a different variable each time
                n = normi(add(st.store[FRESH], ONE))
                st.store[FRESH] = n
                return TM.markmat(raw("dvar", n, *a)) if a else raw("dvar", n)
            return dv
        if n == "symmetric_decision_variable":
            return lambda I, st, fr, e, f, obj, av: TM.markmat(raw("sdvar"))
        if q == "slp::Problem<double>::Problem":
            return lambda I, st, fr, e, f, obj, av: raw("problem")
        if n == "subject_to":
            def sj(I, st, fr, e, f, obj, av):
                st.store[CONS] = push(st.store.get(CONS, raw("list")), ld(I, st, av[0]))
                return UNIT
            return sj
        if re.match(r"slp::(Equality|Inequality)Constraints<double>::\w+Constraints$", q):
            def cc(I, st, fr, e, f, obj, av):
                a = [ld(I, st, x) for x in av]
                return a[0] if len(a) == 1 else raw("con:eq" if "::Equality" in q else "con:ge", *a)
            return cc
        if n in ("operator==", "operator>=", "operator<=", "operator<", "operator>") and cls == "slp" and len(f["pt"]) == 2:
            def con(I, st, fr, e, f, obj, av):
                a, b = [ld(I, st, x) for x in av]
                o = n[8:]
                if o == "==":
                    return raw("con:eq", a, b)
                return raw("con:ge", a, b) if o[0] == ">" else raw("con:ge", b, a)
            return con
        m = re.match(r"slp::Variable(|Matrix|Block)<.*>::([^:]*)$", q)
        if m and "Constraints" not in q:
            return self.var(m.group(1), m.group(2), f)
        if cls == "slp" and n in ("operator-", "operator+", "operator*", "operator/"):
            return self.arith(n)

    def arith(self, n):
        def op(I, st, fr, e, f, obj, av):
            a = [ld(I, st, x) for x in av]
            if len(a) == 1:
                return TM.carry(a[0], neg(a[0])) if n == "operator-" else a[0]
            o = n[8]
            mats = [TM.ismat(x) for x in a]
            if not any(mats):
                return {"-": sub, "+": add, "*": mul, "/": div}[o](*a)
            r = TM.mmul(*a) if o == "*" and all(mats) else {"-": sub, "+": add, "*": mul, "/": div}[o](*a)
            if o != "*" or not all(mats):
                like = a[0] if mats[0] else a[1]
                return vec(r) if TM.isvec(like) else TM.markmat(r)
            return TM.markmat(r)
        return op

    def var(self, k, n, f):
        if n == "Variable" + k:
            def ctor(I, st, fr, e, f, obj, av):
                a = [ld(I, st, x) for x in av]
                if not a:
                    return raw("novar") if k == "" else TM.markmat(raw("eigen0", "dim", ZERO, ZERO))
                if len(a) == 1 and not (k == "Matrix" and I.ty(f["pt"][0])["c"] in ("int", "uint")):
                    return a[0]
                if k == "Matrix" and all(I.ty(p)["c"] in ("int", "uint") for p in f["pt"][:len(a)]):
                    a = [canon(x) for x in a] + [ONE] * (2 - len(a))
                    return TM.markmat(raw("eigen0", "dim", *a))
                raise Unsupported("construction of Variable" + k)
            return ctor
        if n == "set_value":
            def setv(I, st, fr, e, f, obj, av):
                st.store[ASG] = raw("assign", asg(st), ld(I, st, obj), ld(I, st, av[0]))
                return UNIT
            return setv
        if n in ("operator=",):
            def asn(I, st, fr, e, f, obj, av):
                v = ld(I, st, av[0])
                r = obj
                while k == "Block" and I.islv(r) and r.a[0][0] != "h":
                    o = I.load(st, r)
                    if not I.islv(o):
                        break
                    r = o
                I.store(st, r, v)
                return obj
            return asn
        if n in ("operator+=", "operator-=", "operator*=", "operator/="):
            ar = self.arith("operator" + n[8])

            def cmpd(I, st, fr, e, f, obj, av):
                r = obj
                while I.islv(r) and I.islv(I.load(st, r)):
                    r = I.load(st, r)
                I.store(st, r, ar(I, st, fr, e, f, None, [r, av[0]]))
                return obj
            return cmpd
        if n in ("operator-", "operator+") and not f["pt"]:
            return lambda I, st, fr, e, f, obj, av: self.arith(n)(I, st, fr, e, f, None, [obj])
        if n in ("col", "row", "block", "segment"):
            def part(I, st, fr, e, f, obj, av):
                ix = [canon(ld(I, st, x)) for x in av]
                r = obj
                while I.islv(r) and I.islv(I.load(st, r)):
                    r = I.load(st, r)
                p = I.part(r, n, *ix)
                if not I.islv(p):
                    (vec if n == "col" else TM.markmat)(p)
                return p
            return part
        if n == "operator[]" and all(kind in ("int", "uint") for kind in self.kinds(f)):
            def el(I, st, fr, e, f, obj, av):
                ix = [canon(ld(I, st, x)) for x in av]
                r = obj
                while I.islv(r) and I.islv(I.load(st, r)):
                    r = I.load(st, r)
                return I.elem(r, *ix) if I.islv(r) else sel(r, *ix)
            return el
        if n in ("rows", "cols"):
            return lambda I, st, fr, e, f, obj, av: LM.dim(I, n, ld(I, st, obj))
        if n.startswith("operator Variable"):
            return lambda I, st, fr, e, f, obj, av: ld(I, st, obj)
        if n == "T":
            return lambda I, st, fr, e, f, obj, av: TM.tr(ld(I, st, obj))

    def kinds(self, f):
        return [self.I.ty(p)["c"] for p in f["pt"]]


def applied(I, st, fr, c, av):
    """the user's functions: dynamics are values, callbacks leave a trace"""
    if c is sym("cb"):
        st.store[VIS] = push(st.store.get(VIS, raw("list")), raw("visit", *av))
        return UNIT
    return vec(raw("dyn", c, *av))


VIS = ("H", "visits")


def run(u, f, obj, args, ctor=None):
    """(state, object) after a member function of an OCP"""
    P = Policy()
    I = P.I = Interp(u, opaque=P)
    I.hooks["app"] = applied
    st = State()
    st.store[CONS] = st.store[VIS] = raw("list")
    st.store[ASG] = sym("valuation")
    st.store[FRESH] = ZERO
    this = I.alloc(st, obj, "this")
    av = []
    for p, a in zip(f["params"], args):
        av.append(I.alloc(st, a, p["n"]) if I.ty(p["t"]).get("ref") else a)
    v = None
    if ctor is not None:
        I.run_ctor(st, ctor, f, this, av)
    else:
        v, s2 = I.call_fn(st, f, I.addr(this), av)
        if s2 is None:
            raise Undecided("does not return")
        if I.islv(v):
            v = ld(I, s2, v)
        st = s2
    return I, st, canon(ld(I, st, this)), v


class Num(numev.Ev):
    """evaluation with a fixed smooth function per user function"""

    def go(self, t):
        if t.op == "dyn":
            xs = [np.atleast_1d(np.asarray(self(x), float)).reshape(-1) for x in t.a[1:]]
            if any(not np.isfinite(x).all() for x in xs):
                raise Undecided("dynamics at an undefined point")
            n = self.env["nx"]
            z = np.concatenate([np.concatenate([x, [len(x)]]) for x in xs])
            w = np.random.default_rng(5).uniform(-1, 1, (n, 40))[:, :len(z)]
            return np.sin(w @ z + np.arange(n))
        if t.op == "part:col":
            m = np.asarray(self(t.a[0]), float)
            i = int(self(t.a[1]))
            if m.ndim != 2 or not 0 <= i < m.shape[1]:
                raise Bad("column %d of a matrix with %s columns" % (i, m.shape[1] if m.ndim == 2 else "?"))
            return m[:, i]
        if t.op == "part:block" and len(t.a) == 5:
            m = np.asarray(self(t.a[0]), float)
            i, j, r, c = (int(self(x)) for x in t.a[1:])
            if m.ndim != 2 or min(i, j, r, c) < 0 or i + r > m.shape[0] or j + c > m.shape[1]:
                raise Bad("a block outside a matrix of shape %s" % (m.shape,))
            return m[i:i + r, j:j + c]
        if t.op == "sel" and len(t.a) == 3:
            m = np.asarray(self(t.a[0]), float)
            i, j = int(self(t.a[1])), int(self(t.a[2]))
            if m.ndim != 2 or not (0 <= i < m.shape[0] and 0 <= j < m.shape[1]):
                raise Bad("element (%d, %d) of a matrix of shape %s" % (i, j, m.shape))
            return m[i, j]
        return super().go(t)


class Bad(Exception):
    pass


N, NX, NU, DT0 = sym("N"), sym("nx"), sym("nu"), sym("dt0")
XM, UM, DM = TM.markmat(sym("X")), TM.markmat(sym("U")), TM.markmat(sym("DT"))


def col(m, i):
    return vec(raw("part:col", m, i))


def dts(i):
    return sel(DM, ZERO, i)


def time(i):
    b = raw("bv", "time")
    return raw("sum", ((b, ZERO, i),), dts(b))


def four(t, x, u, h):
    return vec(raw("dyn", sym("f"), t, canon(x), u, h))


def two(t, x, u, h):
    return vec(raw("dyn", sym("f"), canon(x), u))


def lc(*ts):
    """linear combination of vectors"""
    r = ZERO
    for c, x in ts:
        r = add(r, mul(c, x))
    return vec(canon(r))


def q(a, b=1):
    return div(num(a), num(b))


def step(f, t, x, u, h, kind):
    if kind == "DISCRETE":
        return f(t, x, u, h)
    hh = mul(q(1, 2), h)
    k1 = f(t, x, u, h)
    k2 = f(canon(add(t, hh)), lc((ONE, x), (hh, k1)), u, h)
    k3 = f(canon(add(t, hh)), lc((ONE, x), (hh, k2)), u, h)
    k4 = f(canon(add(t, h)), lc((ONE, x), (h, k3)), u, h)
    h6 = mul(q(1, 6), h)
    return lc((ONE, x), (h6, k1), (mul(num(2), h6), k2), (mul(num(2), h6), k3), (h6, k4))


def defect(f, i):
    """residual of the Hermite-Simpson equation of step i"""
    h, t = dts(i), time(i)
    j = add(i, ONE)
    xb, xe, ub, ue = col(XM, i), col(XM, j), col(UM, i), col(UM, j)
    fb, fe = f(t, xb, ub, h), f(canon(add(t, h)), xe, ue, h)
    k = div(q(-3, 2), h)
    xd = lc((k, xb), (neg(k), xe), (q(-1, 4), fb), (q(-1, 4), fe))
    xc = lc((q(1, 2), xb), (q(1, 2), xe), (mul(q(1, 8), h), fb), (neg(mul(q(1, 8), h)), fe))
    uc = lc((q(1, 2), ub), (q(1, 2), ue))
    return lc((ONE, xd), (q(-1), f(canon(add(t, mul(q(1, 2), h))), xc, uc, h)))


KINDS = ("EXPLICIT_ODE", "DISCRETE")
STEPS = ("FIXED", "VARIABLE", "VARIABLE_SINGLE")
METHODS = ("DIRECT_TRANSCRIPTION", "DIRECT_COLLOCATION", "SINGLE_SHOOTING")


def enumv(u, c, n):
    for e in u.enums["slp::" + c]["e"]:
        if e["n"] == n:
            return raw("enumc", "slp::%s::%s" % (c, n), int(e["v"]))
    raise Broken("no enumerator " + n)


def members(t):
    return {k.split("::")[-1]: x for k, x in t.a[1]}


class Built:
    def __init__(self, u, f, kind, ts, tm):
        R = [r for r in u.recs.values() if r["q"] == "slp::OCP" and r.get("fields")]
        if not R:
            raise Broken("no class slp::OCP")
        args = [NX, NU, DT0, N, sym("f"), enumv(u, "DynamicsType", kind), enumv(u, "TimestepMethod", ts), enumv(u, "TranscriptionMethod", tm)]
        if len(f["params"]) != len(args):
            raise Undecided("the constructor has %d parameters" % len(f["params"]))
        self.I, st, self.obj, _ = run(u, f, rec("ocp", {}), args, R[0])
        if self.obj.op != "rec":
            raise Undecided("object " + show(self.obj)[:100])
        self.m = members(self.obj)
        self.cons = canon(st.store[CONS])
        self.asg = canon(st.store[ASG])

    def named(self, t):
        m = {self.m[k]: v for k, v in (("m_X", XM), ("m_U", UM), ("m_DT", DM)) if self.m[k].op != "fold"}
        return canon(TM.subst(t, m))


def shifted(b):
    """a range starting at zero: (bound variable, count, substitution)"""
    h, lo, hi = b
    return h, canon(sub(hi, lo)), ({} if lo is ZERO else {h: add(h, lo)})


def perstep(t, what):
    """(bound variable, count, value per step) of a list built in a loop"""
    if t.op == "cat":
        parts = [x for x in t.a if not (x.op == "list" and not x.a)]
        if len(parts) == 1:
            t = parts[0]
    if t.op == "list" and not t.a:
        return None
    if t.op != "comp" or len(t.a[0]) != 1:
        raise Undecided("%s: %s" % (what, show(t)[:100]))
    h, n, m = shifted(t.a[0][0])
    return h, n, canon(TM.subst(t.a[1], m)), canon(TM.subst(t.a[2], m))


def counted(got, want, what):
    if got is None:
        return "no %s is stated" % what
    h, n, g, x = got
    if g is not TRUE:
        c = Cases()
        r = c.check(g, TRUE, [cmp("ile", ZERO, h), cmp("ilt", h, n)])
        if r is False:
            return "%s is skipped for some steps (%s)" % (what, show(g)[:150])
        if r is not True:
            raise Undecided("condition " + show(g)[:100])
    d = canon(sub(n, want))
    if d is not ZERO:
        if TM.isnum(d) or not [x for x in TM.walk(d) if x.op not in ("poly", "num", "sym", "add", "sub", "mul", "neg")]:
            return "%s covers %s steps instead of %s" % (what, show(n), show(want))
        raise Undecided("number of steps " + show(n)[:100])


def environment(n, nx, nu, rng):
    return {"nx": nx, N: n, NX: nx, NU: nu, DT0: 0.3, XM: rng.uniform(-1, 1, (nx, n + 1)), UM: rng.uniform(-1, 1, (nu, n + 1)), DM: rng.uniform(0.2, 0.6, (1, n + 1))}


def agree(got, want, h, extra=None, last=0):
    """equality of per-step formulas (over the N steps and `last` more); None or what differs"""
    if got is want or settled(got, want):
        return None
    for x in TM.walk(got):
        if x.op in ("phi", "opaque", "loopexit", "app", "heap", "dvar") or x.op.startswith("vcall"):
            raise Undecided("formula with " + show(x)[:80])
    for k, (n, nx, nu) in enumerate(((3, 2, 1), (2, 3, 2), (4, 1, 2))):
        rng = np.random.default_rng(k)
        env = environment(n, nx, nu, rng)
        if extra:
            env.update(extra(n, nx, nu, rng))
        for i in range(n + last):
            env[h] = i
            b = Num(dict(env))(want)
            try:
                a = Num(dict(env))(got)
            except Bad as ex:
                return "step %d of %d reads %s" % (i, n, ex)
            if np.shape(np.squeeze(a)) != np.shape(np.squeeze(b)) or not numev.close(np.squeeze(a), np.squeeze(b)):
                return "%s instead of %s" % (show(got)[:500], show(want)[:500])


def equations(B, f, kind, tm):
    if tm == "SINGLE_SHOOTING":
        r = rollout(B, f, kind)
        if r:
            return r
        if not (B.cons.op == "list" and not B.cons.a):
            raise Undecided("constraints " + show(B.cons)[:100])
        return None
    got = perstep(B.cons, "constraints")
    r = counted(got, N, "the dynamics constraint")
    if r:
        return r
    h, n, g, c = got
    if c.op == "ite":
        raise Undecided("constraint " + show(c)[:100])
    if c.op not in ("con:eq", "con:ge") or len(c.a) != 2:
        raise Undecided("constraint " + show(c)[:100])
    if c.op == "con:ge":
        return "the dynamics are stated as an inequality"
    got = B.named(canon(lc((ONE, c.a[0]), (q(-1), c.a[1]))))
    if tm == "DIRECT_COLLOCATION":
        want = defect(f, h)
    else:
        want = lc((ONE, col(XM, add(h, ONE))), (q(-1), step(f, time(h), col(XM, h), col(UM, h), dts(h), kind)))
    a = agree(got, want, h)
    if a and agree(got, vec(canon(neg(want))), h):
        return "at each step the constraint's residual is " + a
    return None


def rollout(B, f, kind):
    t = B.m["m_X"]
    if t.op == "eigen0" or t.op == "dvar":
        return "the states are not computed from the dynamics"
    if t.op != "fold" or len(t.a[0]) != 1 or t.a[3].op != "updp":
        raise Undecided("states " + show(t)[:150])
    if t.a[2].op == "dvar":
        return "the states are decision variables"
    if t.a[2].op != "eigen0":
        raise Undecided("states start as " + show(t.a[2])[:100])
    h, n, m = shifted(t.a[0][0])
    phi = t.a[1]
    body = canon(TM.subst(t.a[3], m))
    r = counted((h, n, TRUE, body), N, "the state update")
    if r:
        return r
    if body.op != "updp" or body.a[0] is not phi or len(body.a[1]) != 2 or body.a[1][0] != "col":
        raise Undecided("state update " + show(body)[:150])
    at = canon(body.a[1][1])
    if canon(sub(at, add(h, ONE))) is not ZERO:
        return "step i computes column %s" % show(at)
    got = B.named(canon(TM.subst(body.a[2], {phi: XM})))
    want = step(f, time(h), col(XM, h), col(UM, h), dts(h), kind)
    a = agree(got, want, h)
    if a:
        return "the next state is " + a


def dims(t):
    if t.op == "dvar" and len(t.a) > 1:
        return [canon(x) for x in t.a[1:]] + [ONE] * (3 - len(t.a))
    if t.op == "eigen0" and t.a[0] == "dim":
        return [canon(x) for x in t.a[1:]]
    if t.op == "forupd":
        return dims(t.a[0])
    if t.op == "fold":
        return dims(t.a[2])
    if t.op == "vfill" and t.a[0].op == "dims":
        return [canon(x) for x in t.a[0].a]
    raise Undecided("shape of " + show(t)[:100])


def shapes(B, ts, tm):
    for k, r, c, dv in (("m_X", NX, N, tm != "SINGLE_SHOOTING"), ("m_U", NU, N, True), ("m_DT", ONE, N, ts == "VARIABLE")):
        t = B.m.get(k)
        if t is None:
            raise Undecided("no member " + k)
        c = canon(add(c, ONE))
        d = dims(t)
        if d != [canon(r), c]:
            for x in d:
                if [y for y in TM.walk(x) if y.op not in ("poly", "num", "sym", "add", "sub", "mul", "neg")]:
                    raise Undecided("shape of " + show(t)[:100])
            return "%s has shape %s instead of %s x %s" % (k, " x ".join(show(x) for x in d), show(r), show(c))
        if (t.op == "dvar") != dv:
            return "%s %s decision variables" % (k, "must be" if dv else "must not be")


def durations(B, ts):
    t = B.m["m_DT"]
    i = raw("bv", "any")
    full = canon(add(N, ONE))

    def element(t):
        if t.op == "vfill":
            return t.a[1]
        if t.op != "forupd" or len(t.a[1]) != 1 or t.a[4] is not TRUE or len(t.a[2]) != 2:
            raise Undecided("timesteps " + show(t)[:150])
        h, n, m = shifted(t.a[1][0])
        at = canon(TM.subst(t.a[2][1], m))
        off = canon(sub(at, h))
        if TM.isnum(off) and off.a[0] > 0 and t.a[0].op == "eigen0" and canon(TM.subst(t.a[2][0], m)) is ZERO:
            return "the first timestep is not set"
        if canon(TM.subst(t.a[2][0], m)) is not ZERO or at is not h:
            raise Undecided("timesteps " + show(t)[:150])
        d = canon(sub(n, full))
        if d is not ZERO:
            if canon(add(d, ONE)) is ZERO:
                return None           # the last one is unused
            return "only %s timesteps are set" % show(n)
        return t.a[3]

    def initial(lhs):
        a = B.asg
        if a is sym("valuation"):
            return "the timestep variables' initial value is not set"
        if a.op == "fold" and len(a.a[0]) == 1 and a.a[3].op == "assign" and a.a[3].a[0] is a.a[1]:
            h, n, m = shifted(a.a[0][0])
            b = canon(TM.subst(a.a[3], m))
            if b.a[1] is not canon(sel(lhs, ZERO, h)) and b.a[1] is not lhs:
                raise Undecided("assignment to " + show(b.a[1])[:100])
            if b.a[1] is not lhs and b.a[2] is not DT0 and h in set(TM.walk(b.a[2])) and {y.op for y in TM.walk(b.a[2])} <= {"ite", "ilt", "ile", "ieq", "bv", "poly", "num", "sym", "and", "or", "not", "true", "false", "div", "min", "max"}:
                # per step: the last one is unused
                r = agree(b.a[2], DT0, h)
                if r:
                    return "the initial timestep is " + r
                return None
            if b.a[1] is not lhs and canon(sub(n, full)) is not ZERO and canon(add(sub(n, full), ONE)) is not ZERO:
                return "only %s timesteps get an initial value" % show(n)
            v = b.a[2]
        elif a.op == "assign" and a.a[0] is sym("valuation"):
            if a.a[1] is not lhs:
                raise Undecided("assignment to " + show(a.a[1])[:100])
            v = a.a[2]
        else:
            raise Undecided("assignments " + show(a)[:150])
        if v.op == "vfill":
            v = v.a[1]
        if v is not DT0:
            if set(y.op for y in TM.walk(v)) <= {"poly", "num", "sym", "add", "mul", "neg", "sub", "div"}:
                return "the initial timestep is %s" % show(v)
            raise Undecided("initial timestep " + show(v)[:100])

    if ts == "VARIABLE":
        if t.op != "dvar":
            raise Undecided("timesteps " + show(t)[:100])
        return initial(t)
    if t.op == "eigen0":
        return "the timesteps are never set"
    v = element(t)
    if v is not None and ts == "VARIABLE_SINGLE" and not isinstance(v, str) and v.op == "dvar" and t.op == "forupd" and t.a[1][0][0] in set(TM.walk(t.a[3])):
        return "every step gets a timestep variable of its own"
    if isinstance(v, str):
        return v
    if v is None:
        v = t.a[3]
    if ts == "FIXED":
        if v is not DT0:
            return "the fixed timestep is %s" % show(v)[:150]
        return None
    if v.op != "dvar" or len(v.a) != 1:
        if v is DT0 or v.op == "sel":
            return "the timesteps are not one decision variable but %s" % show(v)[:100]
        raise Undecided("timestep " + show(v)[:100])
    return initial(v)


_built = {}


@check("P05", "The OCP constructors are executed for a symbolic number of steps, states and inputs under every dynamics kind, timestep mode and transcription method; the constraint stated at a symbolic step (or the state column computed by single shooting) is compared with the documented RK4, Hermite-Simpson or discrete equation with that step's time, state, input and duration, together with the shapes, the timestep variables, the boundary and bound constraints and the visits of for_each_step.", expect=12)
def p05(R):
    u = R.unit("opt")
    ctors = [f for f in u.fns.values() if f["q"] == OC + "OCP" and f["n"] == "OCP" and f.get("body") is not None or f["q"] == OC + "OCP" and f["n"] == "OCP" and f.get("inits")]
    if not ctors:
        raise Broken("no constructor of slp::OCP")
    for f in ctors:
        sig = u.ts(f["params"][4]["t"]) if len(f["params"]) > 4 else ""
        F, nm = (four, "t, x, u, dt") if "(const slp::Variable<double> &" in sig else (two, "x, u")
        for kind in KINDS:
            for ts in STEPS:
                for tm in METHODS:
                    if kind == "DISCRETE" and tm == "DIRECT_COLLOCATION":
                        continue
                    tag = "%s, %s, %s, f(%s)" % (tm, kind, ts, nm)

                    def built(f=f, kind=kind, ts=ts, tm=tm):
                        k = (u, f["id"], kind, ts, tm)
                        if k not in _built:
                            try:
                                _built[k] = Built(u, f, kind, ts, tm)
                            except (Unsupported, Undecided) as ex:
                                _built[k] = ex
                        if isinstance(_built[k], Exception):
                            raise Undecided(str(_built[k]))
                        B = _built[k]
                        R.saw(u, [g for g in u.fns.values() if g.get("body") and g["id"] in B.I.inlined])
                        return B
                    R.check("equations (%s)" % tag, WHERE, lambda b=built, F=F, kind=kind, tm=tm: equations(b(), F, kind, tm))
                    R.check("shapes (%s)" % tag, WHERE, lambda b=built, ts=ts, tm=tm: shapes(b(), ts, tm))
                    R.check("durations (%s)" % tag, WHERE, lambda b=built, ts=ts: durations(b(), ts))

    obj = rec("ocp", {"slp::OCP::m_num_steps": N, "slp::OCP::m_X": XM, "slp::OCP::m_U": UM, "slp::OCP::m_DT": DM})

    def helper(name, args, judge, pick=lambda f: True):
        fs = [f for f in find(u, OC + name) if f.get("body") and pick(f)]
        if not fs:
            raise Broken("no " + name)
        for f in fs:
            def go(f=f):
                I, st, o, v = run(u, f, obj, args(f))
                R.saw(u, [g for g in u.fns.values() if g.get("body") and g["id"] in I.inlined])
                return judge(canon(st.store[CONS]), canon(st.store[VIS]), canon(v) if v is not None else None)
            R.check(f["dn"].replace(OC, "OCP::"), WHERE, go)

    def single(c, op, a, b):
        if c.op == "push" and c.a[0].op == "list" and not c.a[0].a:
            c = raw("list", c.a[1])
        if c.op == "list" and not c.a:
            return "no constraint is stated"
        if c.op != "list" or len(c.a) != 1 or not c.a[0].op.startswith("con:"):
            raise Undecided("constraints " + show(c)[:100])
        return con(c.a[0], op, a, b)

    def bounds(n, nx, nu, rng):
        return {sym("vbound"): rng.uniform(-1, 1, nu), B: 0.7}

    def con(c, op, a, b, h=None):
        x, y = c.a
        if c.op == op and (x is canon(a) and y is canon(b) or op == "con:eq" and x is canon(b) and y is canon(a)):
            return None
        for t in (x, y):
            for z in TM.walk(t):
                if z.op not in ("sym", "num", "poly", "part:col", "part:block", "sel", "bv", "add", "mul", "neg", "sub", "ref", "ite", "min", "max", "ilt", "ile", "ieq"):
                    raise Undecided("constraint " + show(c)[:150])
        if c.op == op:
            h_ = h if h is not None else raw("bv", "any")
            for p, r in ((x, y),) + (((y, x),) if op == "con:eq" else ()):
                try:
                    if not agree(p, canon(a), h_, bounds, 1) and not agree(r, canon(b), h_, bounds, 1):
                        return None
                except KeyError:
                    raise Undecided("constraint " + show(c)[:150])
        return "states %s %s %s instead of %s %s %s" % (show(x), "==" if c.op == "con:eq" else ">=", show(y), show(a), "==" if op == "con:eq" else ">=", show(b))

    B = sym("bound")

    def bound(f):
        t = f["params"][0]["t"]
        if "Matrix" in u.ts(t):
            return [TM.markvec(TM.markmat(sym("vbound")))]
        return [B]

    def arg(x):
        return TM.markvec(TM.markmat(sym("vbound"))) if any(y is sym("vbound") for y in TM.walk(x)) else B

    helper("constrain_initial_state", bound, lambda c, w, v: single(c, "con:eq", col(XM, ZERO), arg(c)))
    helper("constrain_final_state", bound, lambda c, w, v: single(c, "con:eq", col(XM, N), arg(c)))
    helper("initial_state", lambda f: [], lambda c, w, v: None if v is canon(col(XM, ZERO)) else "returns %s" % show(v)[:100])
    helper("final_state", lambda f: [], lambda c, w, v: None if v is canon(col(XM, N)) else "returns %s" % show(v)[:100])
    helper("set_min_timestep", lambda f: [B], lambda c, w, v: single(c, "con:ge", DM, B))
    helper("set_max_timestep", lambda f: [B], lambda c, w, v: single(c, "con:ge", B, DM))
    for n, m in (("X", XM), ("U", UM), ("dt", DM)):
        helper(n, lambda f: [], lambda c, w, v, m=m: None if v is m else "returns %s" % show(v)[:100])

    def every(c, low):
        got = perstep(c, "constraints")
        r = counted(got, add(N, ONE), "the input bound")
        if r:
            return r
        h, n, g, k = got
        if not k.op.startswith("con:"):
            raise Undecided("constraint " + show(k)[:100])
        b = arg(k)
        r = None
        for i in (h, canon(sub(N, h))):         # in either order
            a = col(UM, i)
            x = con(k, "con:ge", a if low else b, b if low else a, h)
            if not x:
                return None
            r = r or x
        return r
    helper("set_lower_input_bound", bound, lambda c, w, v: every(c, True))
    helper("set_upper_input_bound", bound, lambda c, w, v: every(c, False))

    def visits(w, wide):
        got = perstep(w, "calls")
        r = counted(got, add(N, ONE), "the call")
        if r:
            return r
        h, n, g, x = got
        want = ([time(h)] if wide else []) + [col(XM, h), col(UM, h)] + ([dts(h)] if wide else [])
        if x.op != "visit" or len(x.a) != len(want):
            raise Undecided("call " + show(x)[:100])
        for a, b, nm in zip(x.a, want, ("time", "state", "input", "duration") if wide else ("state", "input")):
            r = agree(canon(a), canon(b), h, last=1)
            if r:
                return "the %s at each step is %s" % (nm, r)
    wide = lambda f: "(const slp::Variable<double> &" in u.ts(f["params"][0]["t"])
    helper("for_each_step", lambda f: [sym("cb")], lambda c, w, v: visits(w, True), wide)
    helper("for_each_step", lambda f: [sym("cb")], lambda c, w, v: visits(w, False), lambda f: not wide(f))
