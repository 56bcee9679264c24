"""Leaf rules: identities between elementary functions.  The derivative of a
closed form is taken symbolically (sympy); two closed forms that the normal
form does not identify are compared by evaluating both formulas (not the
program) at sample points that satisfy the case's assumptions.  A difference
is only reported when the closed forms differ at such a point."""
import sympy as sp
import mpmath as mp
import random, math
from fractions import Fraction
from term import *
import term as TM
from decide import Undecided, Cases, canon

mp.mp.dps = 30


class NoVal(Exception):
    pass


def ev(t, env, rnd):
    """numeric value of a closed-form term under env (atoms filled on demand)"""
    if t in env:
        return env[t]
    r = _ev(t, env, rnd)
    env[t] = r
    return r


def real(z):
    if isinstance(z, mp.mpc):
        if abs(z.imag) > mp.mpf(10) ** -20:
            raise NoVal()
        z = z.real
    return z


def realpow(b, e):
    if b < 0 and e != int(e):
        raise NoVal()
    if b == 0:
        return mp.mpf(0) if e > 0 else mp.mpf(1) if e == 0 else mp.inf
    return mp.power(b, e)


def rlog(x):
    if x == 0:
        return -mp.inf
    if x < 0:
        raise NoVal()
    return mp.log(x)


def rsq(x):
    if x < 0:
        raise NoVal()
    return mp.sqrt(x)


def rasin(x, f):
    if abs(x) > 1:
        raise NoVal()
    return f(x)


NF = {"sqrt": rsq, "exp": mp.exp, "log": rlog, "log10": lambda x: rlog(x) / mp.log(10), "log2": lambda x: rlog(x) / mp.log(2), "sin": mp.sin, "cos": mp.cos, "tan": mp.tan,
      "asin": lambda x: rasin(x, mp.asin), "acos": lambda x: rasin(x, mp.acos), "atan": mp.atan, "sinh": mp.sinh, "cosh": mp.cosh, "tanh": mp.tanh,
      "atan2": lambda y, x: mp.atan2(y, x), "erf": mp.erf, "hypot": mp.hypot, "pow": realpow, "cbrt": lambda x: mp.cbrt(x) if x >= 0 else -mp.cbrt(-x),
      "log1p": lambda x: rlog(1 + x), "expm1": lambda x: mp.expm1(x), "abs": abs,
      "copysign": lambda x, y: abs(x) if y >= 0 else -abs(x)}


def mono(p, env, rnd, strict=True):
    r = mp.mpf(0)
    for (cm, w), c in p:
        if w:
            raise NoVal()
        v = mp.mpf(c.numerator) / c.denominator
        for a, e in cm:
            x = ev(a, env, rnd)
            if x == 0 and e < 0:
                v = v * mp.inf
            else:
                v = v * x ** e
        r = r + v
    return r


def _ev(t, env, rnd):
    o, a = t.op, t.a
    E = lambda x: ev(x, env, rnd)
    if o == "num":
        return mp.mpf(a[0].numerator) / a[0].denominator
    if o == "inf":
        return mp.inf
    if o == "poly":
        return mono(a[0], env, rnd)
    if o == "add":
        return E(a[0]) + E(a[1])
    if o == "sub":
        return E(a[0]) - E(a[1])
    if o == "neg":
        return -E(a[0])
    if o == "mul":
        return E(a[0]) * E(a[1])
    if o == "div":
        d = E(a[1])
        return E(a[0]) / d if d != 0 else E(a[0]) * mp.inf
    if o == "max":
        return max(E(a[0]), E(a[1]))
    if o == "min":
        return min(E(a[0]), E(a[1]))
    if o == "ite":
        return E(a[1]) if bv(a[0], env, rnd) else E(a[2])
    if o.startswith("fn:") and o[3:] in NF:
        return real(NF[o[3:]](*[E(x) for x in a]))
    if o in ("idiv", "imod"):
        x, y = E(a[0]), E(a[1])
        if y == 0 or x != int(x) or y != int(y):
            raise NoVal()
        q = abs(int(x)) // abs(int(y))
        q = q if (x < 0) == (y < 0) else -q
        return mp.mpf(q) if o == "idiv" else x - q * y
    if o in ("rec", "ref", "node", "upd", "comp", "sum", "push", "cat", "fill"):
        raise NoVal()
    # an atom: a free real
    return rnd(t)


def bv(c, env, rnd):
    o, a = c.op, c.a
    if o == "true":
        return True
    if o == "false":
        return False
    if o == "not":
        return not bv(a[0], env, rnd)
    if o == "and":
        return all(bv(x, env, rnd) for x in a)
    if o == "or":
        return any(bv(x, env, rnd) for x in a)
    if o in ("flt", "ilt"):
        return ev(a[0], env, rnd) < ev(a[1], env, rnd)
    if o in ("fle", "ile"):
        return ev(a[0], env, rnd) <= ev(a[1], env, rnd)
    if o in ("feq", "ieq"):
        return ev(a[0], env, rnd) == ev(a[1], env, rnd)
    if c in env:
        return env[c]
    raise NoVal()


POOL = [Fraction(3, 7), Fraction(5, 11), Fraction(2, 9), Fraction(-4, 13), Fraction(-7, 17), Fraction(8, 5), Fraction(-12, 7), Fraction(9, 4), Fraction(17, 3), Fraction(-19, 6), Fraction(1, 23), Fraction(-1, 29), Fraction(31, 30), Fraction(29, 30)]


def point(k):
    rg = random.Random(k)

    def rnd(t):
        f = rg.choice(POOL) + Fraction(rg.randrange(1, 50), 1009)
        return mp.mpf(f.numerator) / f.denominator
    return rnd


def intpoint(k):
    rg = random.Random(k)

    def rnd(t):
        return mp.mpf(rg.randrange(-2, 7))
    return rnd


def pivots(facts):
    """solve the equality facts for one atom each: [(atom, monomials, c)]"""
    out, used = [], set()
    for d, c, o in facts:
        if o != "=":
            continue
        for (cm, w), q in d.items():
            if len(cm) == 1 and not w and cm[0][1] == 1 and cm[0][0] not in used:
                at = cm[0][0]
                if any(at in [z for z, _ in cm2] for (cm2, _), _ in d.items() if (cm2, w) != (cm, w)):
                    continue
                if at.op in ("num",) or any(at in walk(y) for y in used):
                    continue
                out.append((at, [(m, z / -q) for m, z in d.items() if m != (cm, w)], Fraction(c) / -q))
                used.add(at)
                break
    return out


def holds(facts, env, rnd, piv=()):
    for at, ms, c in piv:
        if at not in env:
            env[at] = mono(ms + ([(((), ()), c)] if c else []), env, rnd)
    for d, c, o in facts:
        v = mono(list(d.items()) + ([(((), ()), c)] if c else []), env, rnd)
        if v != v:
            return False
        if o == "<" and not v < 0:
            return False
        if o == "<=" and not v <= 0:
            return False
        if o == "=" and abs(v) > mp.mpf(10) ** -20:
            return False
    return True


def close(x, y):
    return abs(x - y) <= mp.mpf(10) ** -13 * (1 + abs(x) + abs(y))


def compare(a, b, facts=(), strict=True, tries=600, want=6):
    """True: agree at every sampled point; False: differ at one; None: no
    point satisfying the assumptions found"""
    good = 0
    piv = pivots(facts)
    for k in range(tries):
        env = {}
        rnd = (intpoint if k % 3 == 2 else point)(k)
        try:
            if not holds(facts, env, rnd, piv):
                continue
            try:
                x = ev(a, env, rnd)
            except (NoVal, ZeroDivisionError):
                x = mp.nan
            try:
                y = ev(b, env, rnd)
            except (NoVal, ZeroDivisionError):
                y = mp.nan
        except (NoVal, ZeroDivisionError, OverflowError):
            continue
        if y != y or (not strict and (x != x or abs(x) == mp.inf or abs(y) == mp.inf)):
            continue
        good += 1
        if x != x or abs(x) == mp.inf or abs(y) == mp.inf:
            if x == y:
                continue
            return False
        if not close(x, y):
            return False
        if good >= want:
            return True
    return True if good else None


def isfree(t):
    """an atom whose value is chosen, not computed"""
    return t.op not in ("num", "inf", "poly", "add", "sub", "neg", "mul", "div", "max", "min", "ite", "idiv", "imod", "rec", "ref", "node", "upd", "comp", "sum", "push", "cat", "fill") and not (t.op.startswith("fn:") and t.op[3:] in NF)


def repaired(facts, k, ints):
    """an assignment satisfying the facts, found by starting anywhere and
    moving one quantity of a violated fact at a time"""
    rg = random.Random(1000 + k)
    scale = rg.choice((2, 6, 12, 40, 200))
    env = {}

    def rnd(t):
        if ints:
            return mp.mpf(rg.randrange(-scale if rg.random() < 0.3 else 0, scale + 1))
        return mp.mpf(rg.uniform(-scale, scale))
    val = lambda d, c, e: mono(list(d.items()) + ([(((), ()), c)] if c else []), e, rnd)
    ok = lambda v, o: v < 0 if o == "<" else v <= 0 if o == "<=" else abs(v) < mp.mpf(10) ** -20
    for _ in range(80):
        # computed quantities depend on the chosen ones
        e = dict(env)
        bad = [f for f in facts if not ok(val(f[0], f[1], e), f[2])]
        env.update({t: v for t, v in e.items() if isfree(t)})
        if not bad:
            return {t: v for t, v in env.items()}, rnd
        d, c, o = rg.choice(bad)
        cand = [z for (cm, w) in d for z, x in cm if isfree(z) and not w and all(y == 1 for q in d for u, y in q[0] if u is z)]
        if not cand:
            return None
        z = rg.choice(cand)
        e0, e1 = dict(env), dict(env)
        e0[z], e1[z] = mp.mpf(0), mp.mpf(1)
        f0, f1 = val(d, c, e0), val(d, c, e1)
        q = f1 - f0
        if q == 0:
            continue
        x = -f0 / q
        if o != "=":
            step = mp.mpf(rg.choice((0, 0, 1, 2, scale))) if ints else mp.mpf(rg.uniform(0, 1) * rg.choice((0.1, 1, scale)))
            if o == "<" and step == 0:
                step = mp.mpf(1)
            x = x - step if q > 0 else x + step
            if ints:
                x = mp.floor(x) if q > 0 else mp.ceil(x)
        env[z] = x
    return None


def searched(a, b, facts, strict, want=4):
    """as compare, at points that are searched for"""
    good = 0
    for ints in (True, False):
        for k in range(60):
            try:
                r = repaired(facts, k, ints)
                if r is None:
                    continue
                env, rnd = r
                if not holds(facts, dict(env), rnd):
                    continue
                x = y = mp.nan
                try:
                    x = ev(a, env, rnd)
                except (NoVal, ZeroDivisionError):
                    pass
                try:
                    y = ev(b, env, rnd)
                except (NoVal, ZeroDivisionError):
                    pass
            except (NoVal, ZeroDivisionError, OverflowError, TypeError):
                continue
            if y != y or (not strict and (x != x or abs(x) == mp.inf or abs(y) == mp.inf)):
                continue
            good += 1
            if x != x or abs(x) == mp.inf or abs(y) == mp.inf:
                if x == y:
                    continue
                return False
            if not close(x, y):
                return False
            if good >= want:
                return True
        if good:
            return True
    return None


BAD = ("rec", "ref", "node", "upd", "comp", "sum", "push", "cat", "fill", "clo", "app")


def rule(strict=True):
    def equal(a, b, facts=(), sub=None):
        for t in (a, b):
            for x in walk(t):
                if x.op in BAD or TM.ismat(x):
                    return False
        r = compare(a, b, facts, strict)
        if r is None:
            r = searched(a, b, facts, strict)
        if r is None:
            if all(len(cm) <= 1 and all(e == 1 and not z.op.startswith("fn:") for z, e in cm) and not w for d, c, o in facts for (cm, w) in d) and all(d for d, c, o in facts):
                # linear assumptions are known to be satisfiable
                raise Undecided("no sample point for a case of " + show(a)[:60])
            return True
        return r
    return equal


equal = rule(True)
equal_where_defined = rule(False)

# ------------------------------------------------------------ derivatives

FN = {"sqrt": sp.sqrt, "exp": sp.exp, "log": sp.log, "log10": lambda x: sp.log(x) / sp.log(10), "sin": sp.sin, "cos": sp.cos, "tan": sp.tan,
      "asin": sp.asin, "acos": sp.acos, "atan": sp.atan, "sinh": sp.sinh, "cosh": sp.cosh, "tanh": sp.tanh, "atan2": sp.atan2, "erf": sp.erf,
      "hypot": lambda x, y: sp.sqrt(x * x + y * y), "pow": lambda x, y: x ** y, "cbrt": sp.cbrt, "log2": lambda x: sp.log(x) / sp.log(2), "log1p": lambda x: sp.log(1 + x), "expm1": lambda x: sp.exp(x) - 1}


def S(t, env):
    o, a = t.op, t.a
    if o == "num":
        return sp.Rational(a[0].numerator, a[0].denominator)
    if o == "poly":
        r = sp.Integer(0)
        for (cm, w), c in a[0]:
            if w:
                raise Undecided("matrix term")
            c = sp.Rational(c.numerator, c.denominator)
            for q, e in cm:
                c = c * S(q, env) ** e
            r += c
        return r
    if o == "add":
        return S(a[0], env) + S(a[1], env)
    if o == "sub":
        return S(a[0], env) - S(a[1], env)
    if o == "neg":
        return -S(a[0], env)
    if o == "mul":
        return S(a[0], env) * S(a[1], env)
    if o == "div":
        return S(a[0], env) / S(a[1], env)
    if o.startswith("fn:") and o[3:] in FN:
        return FN[o[3:]](*[S(x, env) for x in a])
    s = env.get(t)
    if s is None:
        raise Undecided("derivative of " + show(t)[:60])
    return s


def derivative_matches(V, G, adj, x):
    """G == adj * dV/dx on every open piece of V and G; returns a message on
    violation"""
    C = Cases(nonan=True)
    seen = [0, 0]
    msg = []

    def leaf(a, b, facts=(), sub=None):
        if a.op != "pair":
            raise Undecided("piece")
        if any(o == "=" for d, c, o in facts):
            return True      # a kink
        v, g = a.a
        seen[0] += 1
        env = {sym(q): sp.Symbol(q, real=True) for q in ("x", "y")}
        d = sp.diff(S(v, env), env[x])
        fn = sp.lambdify(list(env.values()), d, "mpmath")
        good = 0
        for k in range(400):
            e2 = {}
            rnd = point(k)
            try:
                vx, vy = [mp.mpf(z) for z in (ev(sym("x"), e2, rnd), ev(sym("y"), e2, rnd))]
                if not holds(facts, e2, rnd):
                    continue
                ev(v, e2, rnd)
                got = ev(g, e2, rnd)
                want = real(mp.mpmathify(fn(vx, vy))) * ev(adj, e2, rnd)
            except (NoVal, ZeroDivisionError, OverflowError, ValueError):
                continue
            if got != got or want != want or abs(want) == mp.inf:
                continue
            good += 1
            if not close(got, want):
                msg.append("value %s has derivative adjoint * (%s), code computes %s" % (show(v), d, show(g)))
                return False
            if good > 12:
                break
        if not good:
            raise Undecided("no sample point for piece " + show(v)[:60])
        seen[1] += 1
        return True
    C.eqrule = leaf
    P = raw("pair", V, G)
    ok = C.check(P, sym("?"))
    if not ok:
        return msg[0] if msg else "derivative differs: " + C.explain()
    if not seen[1]:
        raise Undecided("no open piece")
    return None
