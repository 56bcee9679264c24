"""Hash-consed terms, boolean/gated simplification and normal forms.

A term is the value a program construct denotes.  Terms are built by the
abstract interpreter in ``sem.py``; nothing is ever executed.
"""
from fractions import Fraction
import sys

sys.setrecursionlimit(20000)


class T:
    __slots__ = ("op", "a", "id", "_fv", "_n", "__weakref__")

    def __repr__(self):
        return show(self)

    def __hash__(self):
        return self.id

    def __eq__(self, o):
        return self is o

    def __lt__(self, o):
        return self.id < o.id


_tab = {}
_cnt = 0


def raw(op, *args):
    global _cnt
    k = (op, args)
    t = _tab.get(k)
    if t is None:
        t = T()
        t.op = op
        t.a = args
        _cnt += 1
        t.id = _cnt
        t._fv = None
        t._n = None
        _tab[k] = t
    return t


def num(x):
    if isinstance(x, T):
        return x
    if isinstance(x, float):
        x = repr(x)     # the decimal number meant
    return raw("num", Fraction(x))


def sym(*name):
    return raw("sym", *name)


TRUE = raw("true")
FALSE = raw("false")
NULL = raw("null")
UNIT = raw("unit")
ZERO = num(0)
ONE = num(1)
INF = raw("inf")  # +infinity


def boolv(b):
    return TRUE if b else FALSE


def isnum(t):
    return t.op == "num"


# ---------------------------------------------------------------- booleans

def Not(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    if c.op == "not":
        return c.a[0]
    if c.op == "ite":
        return ite(c.a[0], Not(c.a[1]), Not(c.a[2]))
    if c.op == "ilt":  # integers are totally ordered
        return raw("ile", c.a[1], c.a[0])
    if c.op == "ile":
        return raw("ilt", c.a[1], c.a[0])
    if c.op == "and":
        return raw("or", *sorted(map(Not, c.a)))
    if c.op == "or":
        return raw("and", *sorted(map(Not, c.a)))
    return raw("not", c)


def _nary(op, xs, unit, zero):
    out = set()
    work = list(xs)
    while work:
        x = work.pop()
        if x.op == op:
            work.extend(x.a)
        elif x is unit:
            continue
        elif x is zero:
            return zero
        else:
            out.add(x)
    for x in out:
        if Not(x) in out:
            return zero
    if not out:
        return unit
    if len(out) == 1:
        return next(iter(out))
    # absorption: a and (a or b) = a ; a and (not a or b) = a and b
    dual = "or" if op == "and" else "and"
    changed = False
    res = set()
    for x in out:
        if x.op == dual:
            parts = [p for p in x.a if Not(p) not in out]
            if any(p in out for p in x.a):
                changed = True
                continue
            if len(parts) != len(x.a):
                changed = True
                res.add(_nary(dual, parts, zero, unit))
                continue
        res.add(x)
    if changed:
        return _nary(op, list(res), unit, zero)
    return raw(op, *sorted(out))


def And(*xs):
    return _nary("and", xs, TRUE, FALSE)


def Or(*xs):
    return _nary("or", xs, FALSE, TRUE)


BOOLOPS = {"true", "false", "not", "and", "or", "flt", "fle", "feq", "ilt", "ile", "ieq", "peq", "forall", "exists", "isfinite", "isnan"}


def isbool(t):
    return t.op in BOOLOPS


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.a[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return Not(c)
    if isbool(a) and isbool(b):
        if a is TRUE:
            return Or(c, b)
        if b is FALSE:
            return And(c, a)
        if a is FALSE:
            return And(Not(c), b)
        if b is TRUE:
            return Or(Not(c), a)
    if a.op == "ite" and a.a[0] is c:
        a = a.a[1]
    if b.op == "ite" and b.a[0] is c:
        b = b.a[2]
    if a is b:
        return a
    if a.op == "rec" and b.op == "rec" and a.a[0] == b.a[0]:
        fa, fb = dict(a.a[1]), dict(b.a[1])
        if fa.keys() == fb.keys():
            return rec(a.a[0], {k: ite(c, fa[k], fb[k]) for k in fa})
    return raw("ite", c, a, b)


# ---------------------------------------------------------------- records

def rec(cls, fields):
    return raw("rec", cls, tuple(sorted(fields.items())))


def getf(v, f):
    """Field f of record value v."""
    if v.op == "rec":
        for k, x in v.a[1]:
            if k == f:
                return x
        return raw("fld", f, v)
    if f == "#pos" and v.op == "iter":
        return v.a[1]
    if v.op == "ite":
        return ite(v.a[0], getf(v.a[1], f), getf(v.a[2], f))
    if v.op == "setf":
        if v.a[1] == f:
            return v.a[2]
        return getf(v.a[0], f)
    return raw("fld", f, v)


def setf(v, f, x):
    if v.op == "rec":
        d = dict(v.a[1])
        d[f] = x
        return rec(v.a[0], d)
    if v.op == "setf" and v.a[1] == f:
        return setf(v.a[0], f, x)
    if getf(v, f) is x:
        return v
    return raw("setf", v, f, x)


# ---------------------------------------------------------------- arithmetic

def add(a, b):
    if isnum(a) and isnum(b):
        return num(a.a[0] + b.a[0])
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    return raw("add", a, b)


def neg(a):
    if isnum(a):
        return num(-a.a[0])
    if a.op == "neg":
        return a.a[0]
    return raw("neg", a)


def sub(a, b):
    if isnum(a) and isnum(b):
        return num(a.a[0] - b.a[0])
    if b is ZERO:
        return a
    return raw("sub", a, b)


def mul(a, b):
    if isnum(a) and isnum(b):
        return num(a.a[0] * b.a[0])
    if a is ONE:
        return b
    if b is ONE:
        return a
    return raw("mul", a, b)


def div(a, b):
    if isnum(a) and isnum(b) and b.a[0] != 0:
        return num(a.a[0] / b.a[0])
    if b is ONE:
        return a
    return raw("div", a, b)


def idiv(a, b):
    if isnum(a) and isnum(b) and b.a[0] != 0:
        q = abs(a.a[0]) // abs(b.a[0])
        return num(q if (a.a[0] < 0) == (b.a[0] < 0) else -q)
    if b is ONE:
        return a
    return raw("idiv", a, b)


def imod(a, b):
    if isnum(a) and isnum(b) and b.a[0] != 0:
        q = idiv(a, b).a[0]
        return num(a.a[0] - q * b.a[0])
    if b is ONE:
        return ZERO
    return raw("imod", a, b)


def mmul(a, b):
    return raw("mmul", a, b)


# Polynomial normal form: {monomial: Fraction}; monomial = (comm, word) where
# comm is a sorted tuple of (atom, power) and word a tuple of non-commuting
# atoms.  Division by a non-constant is an inverse-power atom.

def padd(p, q, k=1):
    r = dict(p)
    for m, c in q.items():
        v = r.get(m, 0) + c * k
        if v:
            r[m] = v
        else:
            r.pop(m, None)
    return r


def _mm(m, n):
    d = {}
    for a, e in m[0]:
        d[a] = d.get(a, 0) + e
    for a, e in n[0]:
        d[a] = d.get(a, 0) + e
    return (tuple(sorted((a, e) for a, e in d.items() if e)), m[1] + n[1])


LIMIT = 4000


def pmul(p, q):
    if len(p) * len(q) > LIMIT:
        raise OverflowError
    r = {}
    for m, c in p.items():
        for n, d in q.items():
            k = _mm(m, n)
            v = r.get(k, 0) + c * d
            if v:
                r[k] = v
            else:
                r.pop(k, None)
    return r


PONE = {((), ()): Fraction(1)}


def pconst(c):
    return {((), ()): Fraction(c)} if c else {}


def patom(t, e=1):
    return {(((t, e),), ()): Fraction(1)}


_pc = {}


def poly(t):
    """Polynomial normal form of an arithmetic term."""
    r = _pc.get(t)
    if r is None:
        r = _poly(t)
        _pc[t] = r
    return r


def _poly(t):
    o = t.op
    try:
        if o == "num":
            return pconst(t.a[0])
        if o == "add":
            return padd(poly(t.a[0]), poly(t.a[1]))
        if o == "sub":
            return padd(poly(t.a[0]), poly(t.a[1]), -1)
        if o == "neg":
            return padd({}, poly(t.a[0]), -1)
        if o == "mul":
            return pmul(poly(t.a[0]), poly(t.a[1]))
        if o == "poly":
            return dict(t.a[0])
        if o == "mmul":
            p, q = poly(t.a[0]), poly(t.a[1])
            # scalars commute; matrix atoms become words
            return canonwords(pmul(_wordify(p, t.a[0]), _wordify(q, t.a[1])))
        if o == "diag":
            return _polydiag(poly(t.a[0]), t)
        if o == "div":
            p, q = poly(t.a[0]), poly(t.a[1])
            if len(q) == 1:
                (m, c), = q.items()
                if not m[1]:
                    inv = {(tuple((a, -e) for a, e in m[0]), ()): 1 / c}
                    return pmul(p, inv)
            if not q:
                return patom(t)
            # factor content and sign so that proportional denominators agree
            ms = sorted(q)
            lead = q[ms[0]]
            qn = {m: c / lead for m, c in q.items()}
            return pmul(p, {(((frompoly(qn), -1),), ()): 1 / lead})
        if o == "tr":
            p = poly(t.a[0])
            r = {}
            for (cm, w), c in p.items():
                mats = [a for a, e in cm if ismat(a)]
                if not w and len(mats) == 1:
                    w = (mats[0],)
                    cm = tuple((a, e) for a, e in cm if a is not mats[0])
                elif mats:
                    return patom(raw("tr", frompoly(p)))
                nw = tuple(_trn(x) for x in reversed(w))
                r[(cm, nw)] = r.get((cm, nw), 0) + c
            return canonwords(r)
    except OverflowError:
        pass
    n = rewrite_args(t)
    return patom(n)


def _trn(x):
    if x.op == "tr":
        return x.a[0]
    if x.op in ("diag", "diaginv", "eye"):
        return x
    return raw("tr", x)


def tr(x):
    if x.op == "tr":
        return x.a[0]
    return markmat(raw("tr", x))


VECS = set()


def isvec(t):
    if t in VECS or t.op in ("vones", "vinv", "vcat"):
        return True
    if t.op in ("add", "sub"):
        return isvec(t.a[0]) or isvec(t.a[1])
    if t.op == "neg":
        return isvec(t.a[0])
    if t.op == "mul":
        return isvec(t.a[0]) or isvec(t.a[1])
    if t.op == "ite":
        return isvec(t.a[1]) or isvec(t.a[2])
    if t.op == "div":
        return isvec(t.a[0])
    if t.op == "poly":
        for (cm, w), c in t.a[0]:
            if w:
                return isvec(w[-1]) and not (w[0].op == "tr" and isvec(w[0].a[0]))
            return any(isvec(a) for a, e in cm)
    return False


def markvec(t):
    VECS.add(t)
    return t


def had(x, y):
    """element-wise product of vectors = diag(x) y"""
    r = raw("mmul", markmat(raw("diag", x)), y)
    markmat(r)
    return markvec(r)


VONES = raw("vones")



def vinv(x):
    """element-wise inverse of a vector"""
    if x.op == "vinv":
        return x.a[0]
    r = raw("vinv", x)
    markmat(r)
    return markvec(r)


def canonwords(p):
    r = {}
    for (cm, w), c in p.items():
        cm2, w2 = canonword(cm, w)
        k = (cm2, w2)
        v = r.get(k, 0) + c
        if v:
            r[k] = v
        else:
            r.pop(k, None)
    return r


def canonword(cm, w):
    """diagonal factors commute with each other; a diagonal run applied to a
    vector is an element-wise product."""
    out = []
    i = 0
    w = [x for k, x in enumerate(w) if not (x.op == "eye" and len(w) > 1)]
    while i < len(w):
        x = w[i]
        if x.op in ("diag", "diaginv"):
            exps = {}
            while i < len(w) and w[i].op in ("diag", "diaginv"):
                b = w[i].a[0]
                exps[b] = exps.get(b, 0) + (1 if w[i].op == "diag" else -1)
                i += 1
            tail = None
            if i == len(w) - 1 and isvec(w[i]):
                y = w[i]
                i += 1
                if y.op == "vinv":
                    exps[y.a[0]] = exps.get(y.a[0], 0) - 1
                elif y is not VONES:
                    exps[y] = exps.get(y, 0) + 1
                tail = VONES
            run = []
            for b in sorted(exps):
                e = exps[b]
                run += [raw("diag", b)] * e if e > 0 else [raw("diaginv", b)] * (-e)
            if tail is not None:
                if len(run) == 1:
                    out.append(run[0].a[0] if run[0].op == "diag" else vinv(run[0].a[0]))
                else:
                    out += run + [tail]
            else:
                if not run and not out and i == len(w):
                    run = [raw("eye")]
                out += run
            continue
        out.append(x)
        i += 1
    # scalar a'b: orient canonically
    if len(out) >= 2 and out[0].op == "tr" and isvec(out[0].a[0]) and isvec(out[-1]):
        rev = [_trn(x) for x in reversed(out)]
        if [x.id for x in rev] < [x.id for x in out]:
            out = rev
    if len(out) == 1:
        d = dict(cm)
        d[out[0]] = d.get(out[0], 0) + 1
        return tuple(sorted(d.items())), ()
    return cm, tuple(out)


def _polydiag(p, t):
    r = {}
    for (cm, w), c in p.items():
        if w and w[-1] is VONES and all(x.op in ("diag", "diaginv") for x in w[:-1]):
            k = (cm, w[:-1])
            if len(k[1]) == 1:
                k = (_mm((cm, ()), (((k[1][0], 1),), ()))[0], ())
        elif not w:
            vs = [(a, e) for a, e in cm if ismat(a) or isvec(a)]
            if len(vs) != 1 or vs[0][1] != 1:
                return patom(raw("diag", frompoly(p)))
            a = vs[0][0]
            d = markmat(raw("diaginv", a.a[0]) if a.op == "vinv" else raw("eye") if a is VONES else raw("diag", a))
            cm2 = tuple((x, e) for x, e in cm if x is not a)
            k = (_mm((cm2, ()), (((d, 1),), ()))[0], ())
        else:
            return patom(markmat(raw("diag", frompoly(p))))
        r[k] = r.get(k, 0) + c
    return r


def _wordify(p, t):
    """Turns atoms that are matrices into word factors (we keep commuting
    atoms that are scalars: those are exactly the ones marked scalar)."""
    r = {}
    for (cm, w), c in p.items():
        keep = []
        ws = []
        for a, e in cm:
            if e == 1 and ismat(a):
                ws.append(a)
            else:
                keep.append((a, e))
        if len(ws) > 1:
            # product of several matrix atoms in commuting position: opaque
            return patom(t)
        r[(tuple(keep), tuple(ws) + w)] = r.get((tuple(keep), tuple(ws) + w), 0) + c
    return r


MATS = set()


def ismat(t):
    return t in MATS or t.op in ("tr", "diag", "diaginv", "mat", "vones", "vinv", "eye", "vfill", "vcat", "fromtrip", "eigen0") or t.op == "updp" and ismat(t.a[0])


def carry(t, r):
    """sort marks survive normalisation"""
    if t in MATS:
        MATS.add(r)
    if t in VECS:
        VECS.add(r)
    return r


def markmat(t):
    MATS.add(t)
    return t


_fp = {}


def frompoly(p):
    """Canonical term of a polynomial."""
    if not p:
        return ZERO
    if len(p) == 1:
        (m, c), = p.items()
        if m == ((), ()):
            return num(c)
        if c == 1 and len(m[0]) == 1 and m[0][0][1] == 1 and not m[1]:
            return m[0][0][0]
    key = tuple(sorted(p.items()))
    return raw("poly", key)


def normi(t):
    """Canonical term of an integer/real arithmetic term."""
    return frompoly(poly(t))


_rw = {}


def rewrite_args(t):
    """Normalise the arguments of a non-arithmetic term."""
    if not t.a or t.op in ("sym", "num", "poly", "ref", "rec"):
        if t.op == "rec":
            return raw("rec", t.a[0], tuple((k, norm(v)) for k, v in t.a[1]))
        if t.op == "poly":
            return t
        return t
    r = _rw.get(t)
    if r is not None:
        return r
    args = tuple(_nrm(x) for x in t.a)
    r = t if args == t.a else carry(t, rebuild(t.op, args))
    _rw[t] = r
    return r


def _nrm(x):
    if isinstance(x, T):
        return norm(x)
    if isinstance(x, tuple):
        return tuple(_nrm(y) for y in x)
    return x


ARITH = {"add", "sub", "neg", "mul", "mmul", "div", "tr", "num", "diag"}


def norm(t):
    if t._n is not None:
        return t._n
    if t.op in ARITH:
        r = normi(t)
    elif t.op == "poly":
        r = t
    else:
        r = rewrite_args(t)
    t._n = r
    r._n = r
    return r


COMM = {"feq", "ieq", "peq", "had", "max", "min"}


def rebuild(op, args):
    """Smart constructor dispatch (used by substitution/normalisation)."""
    if op == "add":
        return add(*args)
    if op == "sub":
        return sub(*args)
    if op == "neg":
        return neg(*args)
    if op == "mul":
        return mul(*args)
    if op == "div":
        return div(*args)
    if op == "idiv":
        return idiv(*args)
    if op == "imod":
        return imod(*args)
    if op == "ite":
        return ite(*args)
    if op == "not":
        return Not(*args)
    if op == "and":
        return And(*args)
    if op == "or":
        return Or(*args)
    if op in ("flt", "fle", "feq", "ilt", "ile", "ieq", "peq"):
        return cmp(op, *args)
    if op == "sel":
        return sel(*args)
    if op == "upd":
        return upd(*args)
    if op == "fld":
        return getf(args[1], args[0])
    if op == "setf":
        return setf(*args)
    if op == "len":
        return length(*args)
    if op == "push":
        return push(*args)
    if op == "cat":
        return cat(*args)
    if op == "poly":
        r = ZERO
        for (cm, w), c in args[0]:
            m = num(c)
            for a, e in cm:
                for _ in range(abs(e)):
                    m = mul(m, a) if e > 0 else div(m, a)
            ws = None
            for x in w:
                ws = x if ws is None else mmul(ws, x)
            if ws is not None:
                m = mul(m, ws) if m is not ONE else ws
            r = add(r, m)
        return r
    if op in EXTRA:
        return EXTRA[op](*args)
    return raw(op, *args)


EXTRA = {}


def _vinvn(x):
    p = poly(x)
    if len(p) == 1:
        (m, c), = p.items()
        cm, w = m
        if w and w[-1] is VONES and all(y.op in ("diag", "diaginv") for y in w[:-1]):
            inv = tuple(raw("diaginv" if y.op == "diag" else "diag", y.a[0]) for y in w[:-1]) + (VONES,)
            cm2, w2 = canonword(tuple((a, -e) for a, e in cm), inv)
            return frompoly({(cm2, w2): 1 / c})
        if not w:
            vs = [a for a, e in cm if isvec(a)]
            if len(vs) == 1:
                a = vs[0]
                rest = tuple((b, -e) for b, e in cm if b is not a)
                if rest or c != 1:
                    return frompoly({(_mm((rest, ()), (((vinv(a), 1),), ()))[0], ()): 1 / c})
    return vinv(x)


EXTRA["vinv"] = _vinvn
EXTRA["had"] = had
EXTRA["tr"] = lambda x: tr(x)


# ---------------------------------------------------------------- comparisons

def cmp(op, a, b):
    """op in flt,fle,feq (floating, unordered possible), ilt,ile,ieq (ints),
    peq (pointers/enums)."""
    if op in ("ilt", "ile", "ieq", "flt", "fle", "feq"):
        na, nb = norm(a), norm(b)
        if isnum(na) and isnum(nb):
            x, y = na.a[0], nb.a[0]
            return boolv({"lt": x < y, "le": x <= y, "eq": x == y}[op[1:]])
        if op[0] == "i":
            d = padd(poly(na), poly(nb), -1) if na.op not in ("ite",) and nb.op not in ("ite",) else None
            if d is not None and not d:
                return boolv(op != "ilt")
            if d is not None and list(d) == [((), ())]:
                v = d[((), ())]
                return boolv({"ilt": v < 0, "ile": v <= 0, "ieq": False}[op])
        if na.op == "ite" and (isnum(nb)) and na.a[1] is not na.a[2]:
            x = cmp(op, na.a[1], nb)
            y = cmp(op, na.a[2], nb)
            if x in (TRUE, FALSE) or y in (TRUE, FALSE):
                return ite(na.a[0], x, y)
        if nb.op == "ite" and (isnum(na)):
            x = cmp(op, na, nb.a[1])
            y = cmp(op, na, nb.a[2])
            if x in (TRUE, FALSE) or y in (TRUE, FALSE):
                return ite(nb.a[0], x, y)
        a, b = na, nb
    if op == "peq":
        if a is b:
            return TRUE
        if a.op == "enumc" and b.op == "enumc":
            return boolv(a is b)
        if distinct(a, b):
            return FALSE
        if a.op == "ite":
            return ite(a.a[0], cmp("peq", a.a[1], b), cmp("peq", a.a[2], b))
        if b.op == "ite":
            return ite(b.a[0], cmp("peq", a, b.a[1]), cmp("peq", a, b.a[2]))
    if op in ("feq", "ieq", "peq") and b < a:
        a, b = b, a
    return raw(op, a, b)


NONNULL = {"node", "new", "obj", "ref", "clo"}


def distinct(a, b):
    if a.op in NONNULL and b is NULL or b.op in NONNULL and a is NULL:
        return True
    if isnum(a) and isnum(b):
        return a is not b
    if a.op == "ref" and b.op == "ref":
        if a.a[0][0] == "v" and b.a[0][0] == "v" and a.a[0] != b.a[0]:
            return True
    if {a.op, b.op} <= {"node", "new", "obj"} and a is not b and ("obj" in (a.op, b.op)):
        return True
    if a.op == "obj" and b.op == "sym" or b.op == "obj" and a.op == "sym":
        return True
    return False


# ---------------------------------------------------------------- arrays

def ieq_status(i, j):
    if i is j:
        return True
    if isinstance(i, T) and isinstance(j, T):
        d = padd(poly(i), poly(j), -1)
        if not d:
            return True
        if list(d) == [((), ())]:
            return False
    return None


def sel(c, *idx):
    """Element idx of container term c."""
    if c.op == "ite":
        return ite(c.a[0], sel(c.a[1], *idx), sel(c.a[2], *idx))
    if c.op == "upd" and len(c.a) - 2 == len(idx):
        st = [ieq_status(i, j) for i, j in zip(c.a[1:-1], idx)]
        if all(s is True for s in st):
            return c.a[-1]
        if any(s is False for s in st):
            return sel(c.a[0], *idx)
        return ite(And(*[cmp("ieq", i, j) for i, j in zip(c.a[1:-1], idx)]), c.a[-1], sel(c.a[0], *idx))
    if c.op == "list" and len(idx) == 1 and isnum(idx[0]):
        k = int(idx[0].a[0])
        if 0 <= k < len(c.a):
            return c.a[k]
    if c.op == "fill":
        return c.a[-1]
    if c.op == "push" and len(idx) == 1 and ieq_status(idx[0], length(c.a[0])) is True:
        return c.a[1]
    if c.op == "comp" and len(idx) == 1:
        # comp((bv,lo,hi),...) guard elem ; single binder, guard true
        b, g, e = c.a
        if len(b) == 1 and g is TRUE:
            return subst(e, {b[0][0]: add(b[0][1], idx[0])})
    if c.op == "cat" and len(idx) == 1:
        if c.a[0] is EMPTY:
            return sel(c.a[1], *idx)
    if c.op == "forupd" and len(c.a[1]) == 1 and len(c.a[2]) == 1 and len(idx) == 1 and c.a[4] is TRUE:
        (bv, lo, hi), = c.a[1]
        if norm(c.a[2][0]) is bv:
            inr = And(cmp("ile", lo, idx[0]), cmp("ilt", idx[0], hi))
            return ite(inr, subst(c.a[3], {bv: idx[0]}), sel(c.a[0], *idx))
    return raw("sel", c, *[normi(i) for i in idx])


EMPTY = raw("list")


def upd(c, *iv):
    idx, v = iv[:-1], iv[-1]
    if c.op == "upd" and len(c.a) == len(iv) + 1 and all(ieq_status(i, j) is True for i, j in zip(c.a[1:-1], idx)):
        return upd(c.a[0], *iv)
    if c.op == "list" and len(idx) == 1 and isnum(normi(idx[0])):
        k = int(normi(idx[0]).a[0])
        if 0 <= k < len(c.a):
            l = list(c.a)
            l[k] = v
            return raw("list", *l)
    if c.op == "push" and len(idx) == 1 and ieq_status(idx[0], length(c.a[0])) is True:
        return push(c.a[0], v)
    return raw("upd", c, *[normi(i) for i in idx], v)


def push(c, v):
    if c.op == "list":
        return raw("list", *c.a, v)
    return raw("push", c, v)


def cat(a, b):
    if a is EMPTY:
        return b
    if b is EMPTY:
        return a
    if a.op == "list" and b.op == "list":
        return raw("list", *(a.a + b.a))
    return raw("cat", a, b)


def length(c):
    if c.op == "list":
        return num(len(c.a))
    if c.op == "push":
        return add(length(c.a[0]), ONE)
    if c.op == "cat":
        return add(length(c.a[0]), length(c.a[1]))
    if c.op == "upd":
        return length(c.a[0])
    if c.op == "forupd":
        return length(c.a[0])
    if c.op == "fill" and len(c.a) == 2:
        return c.a[0]
    if c.op == "comp":
        if c.a[1] is TRUE:
            n = ONE
            for b, lo, hi in c.a[0]:
                n = mul(n, sub(hi, lo))
            return n
    if c.op == "ite":
        return ite(c.a[0], length(c.a[1]), length(c.a[2]))
    return raw("len", c)


# ---------------------------------------------------------------- traversal

def children(t):
    if t.op == "rec":
        for _, v in t.a[1]:
            yield v
        return
    for x in t.a:
        yield from _ch(x)


def _ch(x):
    if isinstance(x, T):
        yield x
    elif isinstance(x, tuple):
        for y in x:
            yield from _ch(y)


def walk(t, seen=None):
    if seen is None:
        seen = set()
    st = [t]
    while st:
        x = st.pop()
        if x in seen:
            continue
        seen.add(x)
        yield x
        st.extend(children(x))


def leaves(t):
    """set of sym/phi/bv leaf terms in t (cached)."""
    if t._fv is not None:
        return t._fv
    if t.op in ("sym", "phi", "bv"):
        r = frozenset([t])
    else:
        r = frozenset()
        for c in children(t):
            r = r | leaves(c)
    t._fv = r
    return r


def subst(t, m, memo=None):
    """Simultaneous substitution of terms (bottom-up rebuild)."""
    if memo is None:
        memo = {}
    if t in m:
        return m[t]
    r = memo.get(t)
    if r is not None:
        return r
    if not t.a or t.op in ("sym", "num", "phi", "bv"):
        return t
    if t.op == "rec":
        r = rec(t.a[0], {k: subst(v, m, memo) for k, v in t.a[1]})
    else:
        args = tuple(_sb(x, m, memo) for x in t.a)
        r = t if args == t.a else carry(t, rebuild(t.op, args))
    memo[t] = r
    return r


def _sb(x, m, memo):
    if isinstance(x, T):
        return subst(x, m, memo)
    if isinstance(x, tuple):
        return tuple(_sb(y, m, memo) for y in x)
    return x


# ---------------------------------------------------------------- printing

def show(t, d=0):
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return "(" + ",".join(show(x, d + 1) for x in t) + ")"
        return str(t)
    if d > 14:
        return "…"
    o = t.op
    if o == "num":
        f = t.a[0]
        return str(f) if f.denominator < 10 ** 6 else "%.17g" % float(f)
    if o in ("sym", "bv"):
        return ".".join(str(x) for x in t.a)
    if o == "phi":
        return "φ" + str(t.a[-1])
    inf = {"add": " + ", "sub": " - ", "mul": "·", "mmul": "*", "div": "/", "flt": " < ", "fle": " <= ", "feq": " == ", "ilt": " < ", "ile": " <= ", "ieq": " == ", "peq": " == ", "and": " && ", "or": " || "}
    if o in inf:
        return "(" + inf[o].join(show(x, d + 1) for x in t.a) + ")"
    if o == "not":
        return "!" + show(t.a[0], d + 1)
    if o == "neg":
        return "-" + show(t.a[0], d + 1)
    if o == "ite":
        return "(" + show(t.a[0], d + 1) + " ? " + show(t.a[1], d + 1) + " : " + show(t.a[2], d + 1) + ")"
    if o == "sel":
        return show(t.a[0], d + 1) + "[" + ",".join(show(x, d + 1) for x in t.a[1:]) + "]"
    if o == "fld":
        return show(t.a[1], d + 1) + "." + str(t.a[0]).split("::")[-1]
    if o == "enumc":
        return str(t.a[0]).split("::")[-1]
    if o == "rec":
        return str(t.a[0]).split("::")[-1] + "{" + ",".join("%s:%s" % (str(k).split("::")[-1], show(v, d + 1)) for k, v in t.a[1]) + "}"
    if o == "poly":
        parts = []
        for (cm, w), c in t.a[0]:
            fs = []
            if c != 1 or not (cm or w):
                fs.append(str(c) if c.denominator < 10 ** 6 else "%.17g" % float(c))
            for a, e in cm:
                fs.append(show(a, d + 1) + ("^%d" % e if e != 1 else ""))
            fs.extend(show(x, d + 1) for x in w)
            parts.append("·".join(fs))
        return "(" + " + ".join(parts) + ")"
    return str(o) + "(" + ", ".join(show(x, d + 1) for x in t.a) + ")"
