"""Evaluation of extracted closed-form terms (formulas, not the program) over
concrete small vectors and matrices.  Used only when two normal forms differ
as terms: they are then the same function exactly when they agree as
polynomial/rational/piecewise functions, which is tested at sample points.
An operation without a known meaning makes the comparison undecided."""
import math, random
import numpy as np
from term import *
import term as TM
from decide import Undecided, canon

np.seterr(all="ignore")


class Dom:
    """sample values for the free terms: dict term -> callable(rng) or value"""

    def __init__(self, d, bools=()):
        self.d = d


def mat(x):
    return isinstance(x, np.ndarray) and x.ndim == 2


class Ev:
    def __init__(self, env):
        self.env = env
        self.memo = {}

    def __call__(self, t):
        r = self.memo.get(t)
        if r is None:
            if t in self.env:
                r = self.env[t]
            else:
                r = self.go(t)
            self.memo[t] = r
        return r

    def bound(self, t, m):
        e = dict(self.env)
        e.update(m)
        return type(self)(e)(t)

    def word(self, w):
        v = None
        for x in reversed(w):
            if x.op in ("diag", "diaginv"):
                d = self(x.a[0])
                if x.op == "diaginv":
                    d = 1.0 / d
                if v is None:
                    v = np.diag(np.atleast_1d(d)) if np.ndim(d) else d
                elif np.ndim(v) == 2:
                    v = d[:, None] * v
                else:
                    v = d * v
            else:
                y = self(x)
                if v is None:
                    v = y
                elif np.ndim(y) == 1 and np.ndim(v) == 1:
                    raise Undecided("product of two vectors")
                else:
                    if np.ndim(v) == 0 and np.ndim(y) == 2:     # broadcast ones
                        v = np.full(y.shape[1], float(v))
                    v = y @ v if np.ndim(y) else y * v
                    if isinstance(v, np.ndarray) and v.shape in ((1,), (1, 1)) and x.op == "tr":
                        v = float(v.reshape(-1)[0])
        return v

    def mono(self, p):
        r = 0.0
        for (cm, w), c in p:
            s = float(c)
            m = None
            for a, e in cm:
                x = self(a)
                if np.ndim(x) and e == 1 and m is None and not w:
                    m = x
                elif np.ndim(x) and e == 1 and m is not None and np.shape(x) == np.shape(m):
                    raise Undecided("product of two matrices in commuting position")
                elif np.ndim(x):
                    raise Undecided("power of a matrix: %s" % show(a)[:3000])
                else:
                    s = s * (np.float64(x) ** e)
            if w:
                m = self.word(w)
            r = r + (s if m is None else s * m)
        return r

    def go(self, t):
        o, a = t.op, t.a
        if o == "num":
            return float(a[0])
        if o == "poly":
            return self.mono(a[0])
        if o == "true":
            return True
        if o == "false":
            return False
        if o == "ite":
            return self(a[1]) if self(a[0]) else self(a[2])
        if o == "not":
            return not self(a[0])
        if o == "and":
            return all(self(x) for x in a)
        if o == "or":
            return any(self(x) for x in a)
        if o in ("flt", "ilt"):
            return bool(self(a[0]) < self(a[1]))
        if o in ("fle", "ile"):
            return bool(self(a[0]) <= self(a[1]))
        if o in ("feq", "ieq", "peq"):
            return bool(self(a[0]) == self(a[1]))
        if o == "add":
            return self(a[0]) + self(a[1])
        if o == "sub":
            return self(a[0]) - self(a[1])
        if o == "neg":
            return -self(a[0])
        if o == "mul":
            return self(a[0]) * self(a[1])
        if o == "div":
            return self(a[0]) / np.float64(self(a[1]))
        if o == "mmul":
            return self.word(list(a))
        if o in ("max", "min"):
            x, y = np.float64(self(a[0])), np.float64(self(a[1]))
            return (x if not x < y else y) if o == "max" else (x if not y < x else y)
        if o == "tr":
            x = self(a[0])
            return x.T if np.ndim(x) == 2 else x.reshape(1, -1)
        if o == "diag":
            return np.diag(self(a[0]))
        if o == "diaginv":
            return np.diag(1.0 / self(a[0]))
        if o == "vinv":
            return 1.0 / self(a[0])
        if o in ("vones",):
            return 1.0
        if o == "bcast":
            return self(a[0])
        if o == "norm_1":
            x = self(a[0])
            if not np.ndim(x) and (a[0].op == "mmul" or a[0].op == "poly" and all(m[1] for m, _ in a[0].a[0])):
                x = np.array([x])
            if not np.ndim(x):
                raise Undecided("norm of a broadcast")
            return float(np.abs(x).sum())
        if o == "norm_inf":
            x = self(a[0])
            if not np.ndim(x) and (a[0].op == "mmul" or a[0].op == "poly" and all(m[1] for m, _ in a[0].a[0])):
                x = np.array([x])
            if not np.ndim(x):
                raise Undecided("norm of a broadcast")
            return float(np.abs(x).max()) if x.size else 0.0
        if o == "norm_2":
            return float(np.linalg.norm(np.asarray(self(a[0])).reshape(-1)))
        if o == "red:norm":
            return float(np.sqrt((np.asarray(self(a[0])) ** 2).sum()))
        if o == "red:squaredNorm":
            return float((np.asarray(self(a[0])) ** 2).sum())
        if o == "red:sum":
            return float(np.asarray(self(a[0])).sum())
        if o in ("red:minCoeff", "red:maxCoeff"):
            return float(getattr(np, "min" if "min" in o else "max")(self(a[0])))
        if o in ("ew:min", "ew:max"):
            return (np.minimum if o == "ew:min" else np.maximum)(self(a[0]), self(a[1]))
        if o == "ew:abs":
            return np.abs(self(a[0]))
        if o == "ew:log":
            return np.log(self(a[0]))
        if o == "ew:exp":
            return np.exp(self(a[0]))
        if o == "ew:sqrt":
            return np.sqrt(self(a[0]))
        if o == "ew:sign":
            return np.sign(self(a[0]))
        if o == "ew:lt":
            return self(a[0]) < self(a[1])
        if o == "ew:le":
            return self(a[0]) <= self(a[1])
        if o in ("ew:all", "ew:any", "ew:count"):
            x = np.asarray(self(a[0]))
            return bool(x.all()) if o == "ew:all" else bool(x.any()) if o == "ew:any" else int(x.sum())
        if o == "allfinite":
            return bool(np.isfinite(self(a[0])).all())
        if o == "isfinite":
            return bool(np.isfinite(self(a[0])))
        if o == "isnan":
            return bool(np.isnan(self(a[0])))
        if o == "dim:rows" or o == "dim:size":
            x = self(a[0])
            if not np.ndim(x):
                raise Undecided("size of a broadcast")
            return x.shape[0] if o == "dim:rows" else x.size
        if o == "dim:cols":
            x = self(a[0])
            return x.shape[1] if np.ndim(x) == 2 else 1
        if o == "vfill":
            d = a[0]
            c = self(a[1])
            if d.op == "dims":
                n = [int(self(k)) for k in d.a]
            elif d.op == "dims_of":
                n = list(np.shape(self(d.a[0])))
            else:
                raise Undecided("shape of " + show(t)[:60])
            return np.full(n, float(c))
        if o == "eigen0":
            if a and a[0] == "dim":
                return np.zeros([int(self(k)) for k in a[1:]])
            raise Undecided("value of " + show(t)[:60])
        if o == "eye":
            if a and isinstance(a[0], T):
                return np.eye(int(self(a[0])))
            raise Undecided("size of an identity")
        if o == "vcat":
            return np.concatenate([np.atleast_1d(self(x)) for x in a])
        if o.startswith(("triangularView<1>",)):
            return np.tril(self(a[0]))
        if o.startswith(("triangularView<2>",)):
            return np.triu(self(a[0]))
        if o == "part:segment":
            i, n = int(self(a[1])), int(self(a[2]))
            return self(a[0])[i:i + n]
        if o == "part:tail":
            n = int(self(a[1]))
            x = self(a[0])
            return x[len(x) - n:]
        if o in ("updp",):
            x = np.array(self(a[0]), dtype=float)
            k = a[1]
            if k[0] == "segment":
                i, n = int(self(k[1])), int(self(k[2]))
                x[i:i + n] = self(a[2])
                return x
            if k[0] in ("tail", "head") and len(k) > 1:
                n = int(self(k[1]))
                x[slice(len(x) - n, len(x)) if k[0] == "tail" else slice(0, n)] = self(a[2])
                return x
            raise Undecided("update of " + str(k[0]))
        if o == "fld":
            x = self(a[1])
            k = str(a[0]).split("::")[-1]
            if isinstance(x, dict) and k in x:
                return x[k]
            raise Undecided("field " + k)
        if o == "setf":
            x = dict(self(a[0]))
            x[str(a[1]).split("::")[-1]] = self(a[2])
            return x
        if o == "rec":
            return {k.split("::")[-1]: self(v) for k, v in a[1]}
        if o == "list":
            return [self(x) for x in a]
        if o == "push":
            return list(self(a[0])) + [self(x) for x in a[1:]]
        if o == "cat":
            return [y for x in a for y in self(x)]
        if o == "len":
            return len(self(a[0]))
        if o == "comp":
            return self.comp(a[0], a[1], a[2], {})
        if o == "forupd" and len(a[1]) == 1 and len(a[2]) == 1:
            x = self(a[0])
            x = list(x) if isinstance(x, list) else np.array(x, dtype=float)
            bv, lo, hi = a[1][0]
            y = x.copy()
            for i in range(int(self(lo)), int(self(hi))):
                # the value read at the written position is the old one
                if self.bound(a[4], {bv: i}):
                    y[int(self.bound(a[2][0], {bv: i}))] = self.bound(a[3], {bv: i})
            return y
        if o == "sel":
            x = self(a[0])
            if isinstance(x, list):
                return x[int(self(a[1]))]
            ix = tuple(int(self(k)) for k in a[1:])
            return float(x[ix if len(ix) > 1 else ix[0]])
        if o == "upd":
            x = self(a[0])
            if isinstance(x, list):
                x = list(x)
                x[int(self(a[1]))] = self(a[-1])
                return x
            x = np.array(x, dtype=float)
            ix = tuple(int(self(k)) for k in a[1:-1])
            x[ix if len(ix) > 1 else ix[0]] = self(a[-1])
            return x
        if o == "fn:pow":
            return float(np.power(np.float64(self(a[0])), np.float64(self(a[1]))))
        if o == "fn:signbit":
            return bool(np.signbit(np.float64(self(a[0]))))
        if o == "fn:copysign":
            return float(np.copysign(np.float64(self(a[0])), np.float64(self(a[1]))))
        if o in ("fn:fmin", "fn:fmax", "fn:hypot", "fn:atan2"):
            return float({"fmin": np.fmin, "fmax": np.fmax, "hypot": np.hypot, "atan2": np.arctan2}[o[3:]](np.float64(self(a[0])), np.float64(self(a[1]))))
        if o.startswith("fn:"):
            f = {"cbrt": np.cbrt, "exp2": np.exp2, "log2": np.log2, "expm1": np.expm1, "log1p": np.log1p, "round": lambda x: np.copysign(np.floor(np.abs(x) + .5), x), "floor": np.floor, "ceil": np.ceil, "sin": np.sin, "cos": np.cos, "tan": np.tan, "tanh": np.tanh, "fabs": np.abs, "sqrt": np.sqrt, "exp": np.exp, "log": np.log, "abs": np.abs, "log10": np.log10}.get(o[3:])
            if f:
                return float(f(np.float64(self(a[0]))))
        if o in ("fold", "sum", "forall", "exists", "foldmax", "foldmin", "lastwhere", "first"):
            return self.quant(t)
        if o == "iter" and len(a) == 3:
            return self(a[2])
        if o == "fromtrip":
            m, n = [int(self(k)) for k in a[0].a] if a[0].op == "dims" else [None, None]
            if m is None:
                raise Undecided("size of a matrix from triplets")
            x = np.zeros((m, n))
            for t in self(a[1]):
                x[int(t["row"]), int(t["col"])] += t["value"]
            return x
        if o == "fact:solve":
            if not (isinstance(a[0], T) and str(a[0].op).startswith("ctor:Eigen::") and len(a[0].a) == 1):
                raise Undecided("solution by " + show(a[0])[:60])
            return np.linalg.solve(self(a[0].a[0]), self(a[1]))
        if o == "eps":
            return 2.0 ** -52
        if o in ("limit_min", "limit_max", "limit_lowest") and a[0] in ("double", "float"):
            lim = np.finfo(np.float64 if a[0] == "double" else np.float32)
            return float({"limit_min": lim.tiny, "limit_max": lim.max, "limit_lowest": lim.min}[o])
        if o == "nan":
            return float("nan")
        if o == "dim:innerSize":
            x = self(a[0])
            if not np.ndim(x):
                raise Undecided("size of a broadcast")
            return x.shape[0]
        if o == "dim:nonZeros":
            x = self(a[0])
            if not np.ndim(x):
                raise Undecided("size of a broadcast")
            return int((x != 0).sum())
        if o == "dim:outerSize":
            x = self(a[0])
            return x.shape[1] if np.ndim(x) == 2 else 1
        if o in ("nzcount", "nzvalue", "nzrow", "nzcol"):
            x = self(a[0])
            k = int(self(a[1]))
            c = x[:, k] if np.ndim(x) == 2 else x
            nz = [i for i in range(len(c)) if c[i] != 0]
            if o == "nzcount":
                return len(nz)
            i = nz[int(self(a[2]))]
            return float(c[i]) if o == "nzvalue" else i if o == "nzrow" else k
        raise Undecided("no meaning for " + show(t)[:80])

    def comp(self, rs, g, x, m):
        if not rs:
            e = dict(self.env)
            e.update(m)
            v = type(self)(e)
            return [v(x)] if v(g) else []
        bv, lo, hi = rs[0]
        e = dict(self.env)
        e.update(m)
        v = type(self)(e)
        return [y for i in range(int(v(lo)), int(v(hi))) for y in self.comp(rs[1:], g, x, {**m, bv: i})]

    def quant(self, t):
        o, a = t.op, t.a
        if len(a[0]) != 1:
            raise Undecided("nested range")
        bv, lo, hi = a[0][0]
        lo, hi = int(self(lo)), int(self(hi))
        if o == "fold":
            acc, init, body = a[1], a[2], a[3]
            v = self(init)
            for i in range(lo, hi):
                v = self.bound(body, {bv: i, acc: v})
            return v
        if o in ("foldmax", "foldmin", "lastwhere"):
            g, y = a[1], a[2]
            v = self(a[3])
            for i in range(lo, hi):
                if self.bound(g, {bv: i}):
                    x = self.bound(y, {bv: i})
                    v = x if o == "lastwhere" or (x > v if o == "foldmax" else x < v) else v
            return v
        if o == "first":
            return next((i for i in range(lo, hi) if self.bound(a[1], {bv: i})), hi)
        vals = [self.bound(a[1], {bv: i}) for i in range(lo, hi)]
        if o == "sum":
            return sum(vals)
        if o == "forall":
            return all(vals)
        if o == "exists":
            return any(vals)
        raise Undecided("no meaning for " + o)


def close(x, y, tol=1e-9):
    if isinstance(x, dict) and isinstance(y, dict):
        return x.keys() == y.keys() and all(close(x[k], y[k], tol) for k in x)
    if isinstance(x, list) and isinstance(y, list):
        return len(x) == len(y) and all(close(a, b, tol) for a, b in zip(x, y))
    if isinstance(x, (dict, list)) or isinstance(y, (dict, list)):
        raise Undecided("comparison of records")
    if isinstance(x, (bool, np.bool_)) or isinstance(y, (bool, np.bool_)):
        return bool(x) == bool(y)
    x, y = np.asarray(x, dtype=float), np.asarray(y, dtype=float)
    if x.shape != y.shape:
        if x.size == 1 and y.size == 1:
            x, y = x.reshape(()), y.reshape(())
        else:
            x, y = np.broadcast_arrays(x, y)
    n = np.isnan(x) | np.isnan(y)
    if n.any() and (np.isnan(x) != np.isnan(y)).any():
        return False
    f = ~n
    with np.errstate(all="ignore"):
        return bool(np.all((x[f] == y[f]) | (np.abs(x[f] - y[f]) <= tol * (1 + np.abs(x[f]) + np.abs(y[f])))))


def differ(a, b, sample, n=60, nan=False, seed=1):
    """None if the two terms agree at every sample; a description of a sample
    at which they differ otherwise.  sample(rng, k) -> env or None"""
    rng = random.Random(seed)
    good = 0
    for k in range(n):
        env = sample(rng, k)
        if env is None:
            continue
        x, y = Ev(env)(a), Ev(env)(b)
        if not nan and not isinstance(y, (dict, list)) and not np.isfinite(np.asarray(y, dtype=float)).all():
            continue
        good += 1
        if not close(x, y):
            return "at %s: %s instead of %s" % (", ".join("%s=%s" % (show(k)[:30], fmt(v)) for k, v in list(env.items())[:8]), fmt(x), fmt(y))
    if not good:
        raise Undecided("no sample point")
    return None


def fmt(v):
    if isinstance(v, np.ndarray):
        return np.array2string(v, precision=3, separator=",", max_line_width=10 ** 6).replace("\n", "")[:100]
    if isinstance(v, float):
        return "%.5g" % v
    return str(v)


def rvec(rng, n, lo=-3.0, hi=3.0):
    return np.array([rng.uniform(lo, hi) for _ in range(n)])


def rmat(rng, m, n, lo=-2.0, hi=2.0):
    return np.array([[rng.uniform(lo, hi) for _ in range(n)] for _ in range(m)]).reshape(m, n)


def same(got, want, sample, n=60, nan=False, what="value"):
    """None or a description of the difference"""
    a, b = canon(got), canon(want)
    if a is b:
        return None
    d = differ(a, b, sample, n, nan)
    if d is None:
        return None
    return "%s is %s, not %s (they differ %s)" % (what, show(a)[:300], show(b)[:300], d)
