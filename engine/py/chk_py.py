"""U06, U07: enumerations, messages and the Python bindings."""
import itertools
import re
from frame import check, Broken
from sem import Interp, State, Unsupported
import sem, term as TM
from term import *
from decide import canon
from vx import Undecided
from chk_util import Cv, Tok, Bad

BINDERS = "slp::bind_"


def ARG(i):
    return sym("arg", i)


def short(n):
    """last component of a qualified name, template arguments dropped"""
    d, out = 0, ""
    for c in n:
        d += c == "<"
        if not d:
            out += c
        d -= c == ">"
    return out.split("::")[-1].strip()


class Binding:
    def __init__(self, fun, owner, how, name, fn, sig, extra, where, st):
        self.fun, self.owner, self.how, self.name, self.fn, self.sig, self.extra, self.where, self.st = fun, owner, how, name, fn, sig, extra, where, st

    def __repr__(self):
        return "%s.%s(%s) %s %s %s" % (self.owner, self.how, self.name, show(self.fn)[:80] if self.fn is not None else None, self.sig, self.extra)


def owner(q):
    m = re.match(r"nanobind::(class_|enum_|module_)(?:<(.*)>)?::\w+$", q)
    return (m.group(1), re.split(r",(?![^<]*>)", m.group(2) or "")[0]) if m else None


HOW = {"class_": ("def", "def_ro", "def_rw", "def_prop_ro", "def_prop_rw", "def_static", "def_prop_ro_static", "def_ro_static"),
       "module_": ("def",), "enum_": ("value",)}
LOG = ("v", "pylog")
NIL = raw("nil")

# what nanobind calls a registered operator: id -> (left form, right form)
OPNAME = {"lt": ("__lt__", "__gt__"), "gt": ("__gt__", "__lt__"), "le": ("__le__", "__ge__"), "ge": ("__ge__", "__le__"), "eq": ("__eq__", "__eq__"), "ne": ("__ne__", "__ne__"), "neg": ("__neg__",), "pos": ("__pos__",)}
for _n in ("add", "sub", "mul", "truediv"):
    OPNAME[_n] = ("__%s__" % _n, "__r%s__" % _n)
    OPNAME["i" + _n] = ("__i%s__" % _n,)


def text(t):
    return t.a[0] if t.op == "strv" else None


class Bindings:
    """what the binding functions register, in order"""

    def __init__(self, u):
        self.u = u
        self.log = []
        self.I = I = Interp(u, opaque=self.opaque)
        for c, ns in HOW.items():
            for n in ns:
                I.hooks["nanobind::%s::%s" % (c, n)] = self.h
        I.hooks['nanobind::literals::operator""_a'] = lambda I, st, fr, e, f: raw("arg", I.val(st, fr, e["a"][0]))
        I.hooks["nanobind::arg::operator="] = lambda I, st, fr, e, f: raw("argdef", I.val(st, fr, e["obj"]), I.val(st, fr, e["a"][0]))
        for n in ("nanobind::detail::overload_cast_impl::operator()", "nanobind::overload_cast"):
            I.hooks[n] = lambda I, st, fr, e, f: I.val(st, fr, e["a"][0])
        for n in ("cast", "isinstance", "type"):
            I.hooks["nanobind::" + n] = self.cast
        I.hooks["nanobind::detail::tuple::get"] = self.tget
        self.binders = self.running = False
        self.escaped = []

    def cast(self, I, st, fr, e, f):
        ta = f.get("ta", [""])[0]
        return raw("nb", f["n"], ta, *[I.val(st, fr, a) for a in e["a"][:1]])

    def tget(self, I, st, fr, e, f):
        k = re.match(r"\d+", f.get("ta", ["?"])[0])
        return raw("nbget", int(k.group(0)), I.val(st, fr, e["obj"])) if k else None

    def inlib(self, f):
        if f["q"].startswith("slp::Slice::") or "::(anonymous class)::" in f["q"]:
            return False
        fn = self.u.fns.get(f["id"])
        if fn is not None:
            return "python/cpp/" not in self.u.loc(fn)
        return f["q"].startswith("slp::")

    def opaque(self, f, av):
        if f is None:
            return None
        if f["q"].startswith("slp::") and (self.inlib(f) or self.binders and f["q"].startswith(BINDERS)):
            return self.lib
        return None

    def lib(self, I, st, fr, e, f, obj, av):
        vs = [I.load(st, a) if I.islv(a) else a for a in av]
        if obj is not None:
            vs = [I.load(st, obj) if I.islv(obj) else obj] + vs
        if self.running and any(v.op in ("clo", "obj") or v.op == "deref" for v in vs):
            self.escaped.append(f["n"])
        r = raw("lib", f["n"], *vs)
        if e["k"] != "ctor" and (I.ty(f["rt"]).get("c") == "void" or f["n"] in ("operator=", "operator+=", "operator-=", "operator*=", "operator/=")):
            st.store[LOG] = raw("logged", st.store.get(LOG, NIL), r)
        return r

    def h(self, I, st, fr, e, f):
        own = owner(f["q"])
        if own is None:
            return None
        sig = [I.ty(t).get("s", "") for t in f["pt"]]
        a = e["a"]
        where = "%s:%s" % (self.u.loc(fr.fn).rsplit(":", 1)[0] if fr is not None and fr.fn else "?", e.get("l"))
        name = fn = None
        if sig and sig[0] == "const char *":
            name = text(I.val(st, fr, a[0]))
            k = 1
            if len(a) > 1:
                fn = I.val(st, fr, a[1])
                k = 2
        else:
            m = re.search(r"nanobind::(init_implicit|init|detail::op_)<(.*)>", sig[0]) if sig else None
            if m is None:
                name = "?"
            elif m.group(1) == "detail::op_":
                o = [x.split("::")[-1].strip() for x in re.split(r",(?![^<]*>)", m.group(2))]
                names = OPNAME.get(o[0][3:], ())
                k = {"op_l": 0, "op_u": 0, "op_r": 1}.get(o[1], 9)
                name = names[k] if k < len(names) else "?"
                fn = raw("nbop", o[0][3:], o[1], m.group(2))
            else:
                name = "__init__" if m.group(1) == "init" else "implicit"
                fn = raw("nbinit", m.group(2).rstrip("> ").rstrip() if m.group(2).count("<") < m.group(2).count(">") else m.group(2))
            k = 1
        extra = []
        for x, s in zip(a[k:], sig[k:]):
            if s.startswith(("const char *", "const char (&", "char[")):
                continue
            extra.append(I.val(st, fr, x) if re.search(r"nanobind::arg(_v)?\b", s) else s)
        self.log.append(Binding(fr.fn["n"] if fr is not None and fr.fn else "?", own, f["n"], name, fn, sig, extra, where, st.copy()))
        return raw("bound")

    def run(self, fn):
        st = State()
        st.store[LOG] = NIL
        n = len(self.log)
        self.running = True
        try:
            v, s2 = self.I.call_fn(st, fn, None, [raw("obj", p["n"]) for p in fn["params"]])
        finally:
            self.running = False
        return self.log[n:], s2

    # what calling a binding does, in terms of library operations
    def params(self, b):
        if b.fn.op == "clo":
            ops = b.fn.a[0]
            f = self.u.fns[ops[0] if isinstance(ops, tuple) else ops]
            return [p["t"] for p in f["params"]], f
        f = self.I.fnrefs.get(b.fn.a[0]) or self.u.fns[b.fn.a[0]]
        return f["pt"], f

    def meaning(self, b):
        """(value returned, operations performed, operand count, function)"""
        I = self.I
        if b.fn.op == "memptr":
            return raw("fld", b.fn.a[0], ARG(0)), NIL, 1, None
        if b.fn.op not in ("clo", "fnv"):
            raise Undecided("what is bound: " + show(b.fn)[:100])
        ts, f = self.params(b)
        if b.fn.op == "fnv":
            n = len(ts) + ("::*)" in b.sig[1])
            return raw("lib", f["n"], *[ARG(i) for i in range(n)]), NIL, n, f
        v, log = self.apply(b.fn, ts, [ARG(i) for i in range(len(ts))], b.st)
        return v, log, len(ts), f

    def apply(self, clo, ts, vs, st):
        I = self.I
        st = st.copy()
        st.store[LOG] = NIL
        av = [I.alloc(st, v) if I.ty(t).get("ref") else v for v, t in zip(vs, ts)]
        I.last = st
        r = I.call_closure(st, None, clo, av)
        if I.islv(r):
            r = I.load(st, r)
        return r, st.store.get(LOG, NIL)


def strip(t):
    """drops conversions that keep the value"""
    while True:
        if t.op == "lib" and t.a[0] in ("Variable", "operator Variable", "VariableMatrix") and len(t.a) == 2:
            t = t.a[1]
        elif t.op in ("call:Eigen::DenseBase::cast", "call:Eigen::MatrixBase::cast") and len(t.a) == 1:
            t = t.a[0]
        elif t.op.startswith("ctor:Eigen::") and len(t.a) == 1:
            t = t.a[0]
        elif t.op == "nb" and t.a[0] == "cast":
            t = t.a[2]
        elif t.op == "lib":
            return raw("lib", t.a[0], *[strip(x) if hasattr(x, "op") else x for x in t.a[1:]])
        else:
            return t


# ---------------------------------------------------------------- values

NONE = Tok("nullopt")
SELF = Tok("self")


class PyEv(Cv):
    """value of what a binding does, for given Python operands"""
    R = C = 0

    def bound(self, m):
        r = Cv.bound(self, m)
        r.R, r.C = self.R, self.C
        return r

    def go(self, t):
        o = t.op
        if o.startswith("call:") or o.startswith("ctor:"):
            return self.ext(o.split("::")[-1] if not o.endswith("]") else "operator[]", o, t.a)
        return Cv.go(self, t)

    def ext(self, n, q, a):
        if n in ("operator object", "operator handle"):
            return self(a[0])
        if n == "operator[]":
            return self(a[0])[self(a[1])]
        if n == "size":
            return len(self(a[0]))
        if n == "operator==" or n == "operator!=":
            x, y = self(a[0]), self(a[1])
            if not isinstance(x, str) or not isinstance(y, str):
                raise Undecided("comparison")
            return (x == y) == (n == "operator==")
        if n == "cast" and len(a) == 1:
            return self(a[0])
        if n == "compute":
            x, k = self(a[0]), self(a[1])
            if not isinstance(x, slice):
                raise Undecided("slice")
            r = x.indices(k)
            return r + (len(range(*r)),)
        if n == "attr":
            return Tok("%s of %s" % (self(a[1]), self(a[0])))
        if n == "operator()" and len(a) == 1:
            v = self(a[0])
            if v.startswith("__repr__ of ") or v.startswith("__str__ of "):
                return "<ufunc '%s'>" % v.split()[-1]
            raise Undecided("call of " + v)
        if n == "not_implemented":
            return Tok("NotImplemented")
        if n in ("data", "shape", "stride", "ndim"):
            return (n,) + tuple(self(x) for x in a)
        if q == "ctor:Eigen::Stride":
            return ("strides",) + tuple(self(x) for x in a)
        if q == "ctor:Eigen::Map":
            v = tuple(self(x) for x in a)
            d = v[0][1] if v and isinstance(v[0], tuple) and v[0][0] == "data" else None
            if v == (("data", d), ("shape", d, 0), ("shape", d, 1), ("strides", ("stride", d, 0), ("stride", d, 1))):
                return d
            raise Bad("an array is read with the wrong extents or strides")
        raise Undecided("value of " + q)

    def o_null(self, t):
        return NONE

    def o_strv(self, t, s):
        return s

    def o_logged(self, t, p, x):
        return self(p) + [self(x)]

    def o_nil(self, t):
        return []

    def o_nbget(self, t, k, x):
        return self(x)[k]

    def o_peq(self, t, x, y):
        x, y = self(x), self(y)
        return x is y if NONE in (x, y) else x == y

    def o_deref(self, t, x):
        return self(x)

    def o_init(self, t, x):
        return self(x)

    def o_nb(self, t, n, ty, *xs):
        v = self(xs[0]) if xs else None
        if n == "isinstance":
            return self.isinst(ty, v)
        if n == "cast":
            if ty == "int" and not isinstance(v, (int, Tok)):
                raise Undecided("cast")
            return v
        return Tok(ty)

    def isinst(self, ty, v):
        if ty in ("int", "double"):
            return isinstance(v, int if ty == "int" else float) and not isinstance(v, bool)
        if ty == "nanobind::slice":
            return isinstance(v, slice)
        m = re.match(r"nanobind::ndarray<(.*)>", ty)
        if m:
            return v == ("array", {"long": "int64_t", "int": "int32_t"}.get(m.group(1), m.group(1)))
        if ty.startswith("slp::"):
            return v == ("object", ty)
        raise Undecided("isinstance<%s>" % ty)

    def o_lib(self, t, n, *xs):
        v = tuple(self(x) for x in xs)
        if v and v[0] == SELF and len(v) == 1:
            if n == "rows":
                return self.R
            if n == "cols":
                return self.C
            if n == "size":
                return self.R * self.C
        if n in ("Variable", "operator Variable") and len(v) == 1:
            return v[0]
        return ("lib", n) + v


def picked(v, R, C):
    """rows, columns and whether a single element, of operator[] of self"""
    if not isinstance(v, tuple) or v[:2] != ("lib", "operator[]") or len(v) < 4 or v[2] != SELF:
        raise Undecided("not a subscript of the object: %r" % (v,))
    a = v[3:]
    if all(isinstance(x, int) for x in a):
        if len(a) == 1:
            return ("element", divmod(a[0], C))
        if len(a) == 2:
            return ("element", a)
    S = "slp::Slice::"
    if len(a) == 4:
        r = []
        for s, n in (a[:2], a[2:]):
            if not isinstance(s, dict) or not isinstance(n, int):
                raise Undecided("slices")
            r.append([s[S + "start"] + k * s[S + "step"] for k in range(n)])
        return ("block", r)
    if len(a) == 2 and all(isinstance(x, dict) for x in a):
        r = []
        for s, n in zip(a, (R, C)):
            r.append(list(range(*slice(s[S + "start"], s[S + "stop"], s[S + "step"]).indices(n))))
        return ("block", r)
    raise Undecided("subscript %r" % (a,))


SHAPES = [(1, 1), (1, 3), (2, 2), (3, 2)]


def indices(n, ints=True):
    r = list(range(-n, n)) if ints else []
    return r + [slice(None), slice(None, None, -1), slice(1, None), slice(-1, None), slice(0, -1), slice(None, None, 2)]


def pyidx(i, n):
    """what an index selects, in Python"""
    return list(range(*i.indices(n))) if isinstance(i, slice) else [i % n]


def evaluator(R, C, *args):
    env = {ARG(0): SELF}
    for k, x in enumerate(args):
        env[ARG(k + 1)] = x
    E = PyEv(env)
    E.R, E.C = R, C
    return E


def subscripts(two):
    for R, C in SHAPES:
        if not two:
            for i in range(-R * C, R * C):
                yield R, C, i, ("element", divmod(i % (R * C), C))
            continue
        for i in indices(R):
            for j in indices(C):
                r, c = pyidx(i, R), pyidx(j, C)
                w = ("element", (r[0], c[0])) if isinstance(i, int) and isinstance(j, int) else ("block", [r, c])
                yield R, C, (i, j), w


def cells(w):
    k, x = w
    return [(r, c) for r in x[0] for c in x[1]] if k == "block" else [tuple(x)]


def shown(i):
    if isinstance(i, tuple):
        return ", ".join(shown(x) for x in i)
    if isinstance(i, slice):
        return ":".join("" if x is None else str(x) for x in (i.start, i.stop) + ((i.step,) if i.step else ()))
    return str(i)


def getitem(B, b, two):
    v, log, n, f = B.meaning(b)
    for R, C, i, w in subscripts(two):
        r = evaluator(R, C, i)(v)
        p = picked(r, R, C)
        if p[0] != w[0] or cells(p) != cells(w):
            return "m[%s] of a %d x %d matrix selects %s %s, not %s %s" % (shown(i), R, C, p[0], cells(p), w[0], cells(w))


VALUES = [("object", "slp::VariableMatrix<double>"), ("object", "slp::VariableBlock<slp::VariableMatrix<double>>"), ("array", "double"), ("array", "float"), ("array", "int64_t"), ("array", "int32_t"), ("object", "slp::Variable<double>"), 2.5, 3]


def setitem(B, b, two):
    v, log, n, f = B.meaning(b)
    for R, C, i, w in subscripts(two):
        for x in VALUES if two else [VALUES[6]]:
            if two and x != VALUES[0] and (R, C) != (3, 2):
                continue
            l = evaluator(R, C, i, x)(log)
            what = "m[%s] = %s of a %d x %d matrix" % (shown(i), x[1] if isinstance(x, tuple) else x, R, C)
            if len(l) != 1:
                return "%s performs %d assignments" % (what, len(l))
            e = l[0]
            if e[:2] not in (("lib", "operator="), ("lib", "set_value")) or len(e) != 4:
                raise Undecided("assignment %r" % (e,))
            if e[3] != x:
                return "%s assigns %r" % (what, e[3])
            if e[1] != "operator=":
                return "%s sets values instead of assigning" % what
            p = picked(e[2], R, C)
            if cells(p) != cells(w):
                return "%s assigns to %s, not %s" % (what, cells(p), cells(w))


UFUNC = {"matmul": "operator*", "add": "operator+", "subtract": "operator-", "equal": "operator==", "less": "operator<", "less_equal": "operator<=", "greater": "operator>", "greater_equal": "operator>="}


def ufunc(B, b, name):
    v, log, n, f = B.meaning(b)
    for d in ("double", "float", "int64_t", "int32_t"):
        for first in (True, False):
            x = ("array", d)
            ins = [x, SELF] if first else [SELF, x]
            r = evaluator(2, 2, Tok("ufunc " + name), "__call__", ins)(v)
            w = ("lib", UFUNC[name]) + tuple(ins)
            if r != w:
                if not isinstance(r, tuple) and r != "NotImplemented":
                    raise Undecided("result %r" % (r,))
                return "numpy.%s(%s) returns %r" % (name, ", ".join("array of " + d if y is x else "object" for y in ins), r)


def kwargs(B, b, R):
    """Problem.solve(): each keyword sets the option of that name"""
    u = B.u
    v, log, n, f = B.meaning(b)
    O = next(r for r in u.recs.values() if r.get("dn", r.get("q")) == "slp::Options")
    fields = [x["n"] for x in O["fields"]]
    if v.op != "lib" or v.a[0] != "solve" or v.a[1] is not ARG(0):
        return "solve() does not return what the problem's solve() returns"
    args = v.a[2:]
    if not 1 <= len(args) <= 2:
        raise Undecided("arguments of solve()")

    class E(PyEv):
        def o_lib(self, t, n, *xs):
            if n == "Options" and not xs:
                return {}
            return PyEv.o_lib(self, t, n, *xs)

        def o_fld(self, t, fld, x):
            x = self(x)
            if isinstance(x, tuple) and fld in ("t0", "t1"):
                return x[int(fld[1])]
            if isinstance(x, dict) and fld in ("slp::Options::" + y for y in fields):
                return x.get(fld, "default" if kinds[short(fld)] != "bool" else False)
            raise Undecided("field " + fld)

        def o_nb(self, t, n, ty, *xs):
            v = PyEv.o_nb(self, t, n, ty, *xs)
            if n == "cast" and isinstance(v, Tok) and v.startswith("value of "):
                k = kinds.get(v.split()[-1], "bool")
                small = ("bool", "char", "signed char", "unsigned char", "short", "unsigned short", "float")
                if ty in {"int": small, "bool": ()}.get(k, small + ("int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long")):
                    return Tok("%s converted to %s" % (v, ty))
            return v
    kinds = {x["n"]: u.ts(x["t"]) for x in O["fields"]}
    flags = [x for x in fields if kinds[x] == "bool"] + ["spy"]
    todo = []
    for k in fields + ["spy"]:
        for extra in [None] + [x for x in fields + ["spy"] if x != k]:
            ks = [k] + ([extra] if extra else [])
            todo += [list(zip(ks, vs)) for vs in itertools.product(*[(True, False) if x in flags else (Tok("value of " + x),) for x in ks])]
    for kw in [[]] + todo:
        e = E({ARG(0): SELF, ARG(1): kw})
        got = e(args[0])
        spy = e(args[1]) if len(args) > 1 else False
        want = {"slp::Options::" + x: y for x, y in kw if x != "spy"}
        say = ", ".join("%s=%s" % (x, y if x in flags else "...") for x, y in kw)
        if got != want:
            return "solve(%s) sets %s" % (say, {short(a): c for a, c in got.items()} or "nothing")
        if spy != dict(kw).get("spy", False):
            return "solve(%s) passes %s as the sparsity recording flag" % (say, spy)


ALIAS = {"__len__": "rows", "cwise_map": "cwise_transform", "__bool__": "operator bool"}
DUNDER = {"add": "+", "sub": "-", "mul": "*", "matmul": "*", "truediv": "/", "eq": "==", "lt": "<", "le": "<=", "gt": ">", "ge": ">="}


def expected(b, n):
    A = [ARG(i) for i in range(n)]
    m = re.match(r"__([ir]?)(\w+)__$", b.name)
    for pre in ("", "r", "i"):
        k = re.match(r"__%s(\w+)__$" % pre, b.name)
        if k and k.group(1) in DUNDER and n == 2:
            op = DUNDER[k.group(1)]
            if pre == "i":
                return raw("lib", "operator" + op + "=", *A)
            return raw("lib", "operator" + op, *(A[::-1] if pre == "r" else A))
    if b.name == "__neg__":
        return raw("lib", "operator-", *A)
    if b.name == "__pow__":
        return raw("lib", "pow", *A)
    return raw("lib", ALIAS.get(b.name, b.name), *A)


def forwards(B, b):
    v, log, n, f = B.meaning(b)
    v = strip(v)
    if log.op == "logged" and log.a[0].op == "nil" and (v is UNIT or b.name in ("__setitem__",)):
        v = strip(log.a[1])
    elif log.op != "nil":
        raise Undecided("several operations: " + show(log)[:150])
    w = expected(b, n)
    who = "%s.%s" % (short(b.owner[1]) or "module", b.name)
    if b.how in ("def_ro", "def_prop_ro", "def_rw") and v.op in ("fld", "getf"):
        k = short(v.a[0])
        if v.a[1] is not ARG(0):
            raise Undecided("property " + show(v)[:100])
        return None if k == b.name else "property %s returns the member %s" % (who, k)
    if b.name == "shape":
        w = ("rows", "cols")
        x = [strip(y) for y in v.a] if v.op == "call:nanobind::make_tuple" else None
        if x is None:
            raise Undecided("shape: " + show(v)[:100])
        g = tuple(y.a[0] for y in x if y.op == "lib" and y.a[1:] == (ARG(0),))
        return None if g == w else "%s returns (%s)" % (who, ", ".join(show(y) for y in x))
    if b.name == "__iter__":
        if v.op != "call:nanobind::make_iterator":
            raise Undecided("iterator")
        g = [y.a[0] for y in v.a if y.op == "lib" and y.a[1:] == (ARG(0),)]
        return None if g in (["begin", "end"], ["cbegin", "cend"]) else "%s iterates from %s" % (who, " to ".join(g))
    if v.op != "lib":
        raise Undecided("%s: %s" % (who, show(v)[:150]))
    if v.a[0] == "cwise_transform" and b.name != "cwise_map" and len(v.a) == 3:
        # elementwise form of the function of that name
        if v.a[1] is not ARG(0):
            return "%s applies to %s" % (who, show(v.a[1])[:80])
        clo = v.a[2]
        el = sym("elem")
        if clo.op == "fnv":
            f = B.I.fnrefs.get(clo.a[0])
            v = raw("lib", f["n"], el) if f else None
        elif clo.op == "clo":
            ops = clo.a[0]
            g = B.u.fns[ops[0] if isinstance(ops, tuple) else ops]
            v, _ = B.apply(clo, [p["t"] for p in g["params"]], [el], B.I.last)
            v = strip(v)
        else:
            v = None
        if v is None:
            raise Undecided("elementwise function")
        w = raw("lib", w.a[0], el, *w.a[2:])
    if v is w:
        return None
    if v.op == "lib" and v.a[0] == w.a[0] and v.a[0] == "operator" + "==" and set(v.a[1:]) == set(w.a[1:]):
        return None
    if v.a[0] != w.a[0] and not all(hasattr(y, "op") and (y.op == "sym") for y in v.a[1:]):
        # composed of several operations: not a plain forwarder
        raise Undecided("%s: %s" % (who, show(v)[:150]))
    return "%s(%s) calls %s(%s)" % (who, ", ".join(show(ARG(i)) for i in range(n)), v.a[0], ", ".join(show(y)[:60] for y in v.a[1:]))


def argnames(B, b):
    """keyword names in the order of the parameters they name"""
    names = []
    for x in b.extra:
        if hasattr(x, "op"):
            y = x.a[0] if x.op == "argdef" else x
            if y.op == "arg":
                names.append(text(y.a[0]))
    if not names or b.fn is None:
        return None
    if b.fn.op == "nbinit":
        cands = [f for f in B.u.fns.values() if f.get("isctor") and f["q"].rsplit("::", 1)[0] == b.owner[1]
                 and len(f["params"]) == len(names) and {q["n"] for q in f["params"]} == set(names)]
        want = re.sub(r"\b(const|class|struct)\b|[&\s]", "", b.fn.a[0] if isinstance(b.fn.a[0], str) else "")
        same = [f for f in cands if ",".join(re.sub(r"\b(const|class|struct)\b|[&\s]", "", B.I.ty(q["t"])["s"]) for q in f["params"]) == want]
        ps = [[q["n"] for q in f["params"]] for f in (same or cands)]
        if ps and names not in ps:
            return "%s(%s): the parameters are (%s)" % (short(b.owner[1]), ", ".join(names), ", ".join(ps[0]))
        return None
    if b.fn.op in ("fnv", "clo"):
        if b.fn.op == "fnv":
            fn = B.u.fns.get(b.fn.a[0])
        else:
            ops = b.fn.a[0]
            fn = B.u.fns.get(ops[0] if isinstance(ops, tuple) else ops)
        if fn is None:
            return None
        ps = [p["n"] for p in fn["params"]]
        ps = ps[len(ps) - len(names):]
        if set(ps) == set(names) and ps != names:
            return "%s(%s): the parameters are (%s)" % (b.name, ", ".join(names), ", ".join(ps))
    return None


def keepsalive(B, b):
    """does the result refer to the object it came from?"""
    if b.fn is None or b.fn.op not in ("fnv", "clo"):
        return None
    ts, f = B.params(b)
    rt = B.I.ty(f["rt"]).get("s", "") if "rt" in f else ""
    view = rt.startswith("slp::VariableBlock<") or b.name == "__iter__" or (b.name == "__getitem__" and "nanobind::object" in rt)
    if not view or not b.owner[1].startswith(("slp::VariableMatrix", "slp::VariableBlock")):
        return None
    if any(isinstance(x, str) and re.search(r"keep_alive<0U?L?, 1U?L?>", x) for x in b.extra):
        return True
    return "%s.%s returns a view of the object without keeping the object alive" % (short(b.owner[1]), b.name)


ALLOPS = {"__add__", "__sub__", "__mul__", "__truediv__"}
CMPS = {"__eq__", "__lt__", "__le__", "__gt__", "__ge__"}
MAT = ALLOPS | CMPS | {"__radd__", "__rsub__", "__rmul__", "__itruediv__", "__neg__", "__pow__", "__len__", "__iter__", "__getitem__", "__setitem__", "__array_ufunc__", "T", "rows", "cols", "shape", "value", "set_value", "row", "col", "cwise_map"}
REQUIRED = {
    "slp::Variable<double>": ALLOPS | CMPS | {"__radd__", "__rsub__", "__rmul__", "__rtruediv__", "__iadd__", "__isub__", "__imul__", "__itruediv__", "__neg__", "__pos__", "__pow__", "value", "set_value", "type"},
    "slp::VariableMatrix<double>": MAT | {"__matmul__", "identity", "zero", "one", "constant"},
    "slp::VariableBlock<slp::VariableMatrix<double>>": MAT,
    "": set("abs acos asin atan atan2 cbrt cos cosh erf exp hypot log log10 max min pow sign sin sinh sqrt tan tanh cwise_reduce block solve".split()),
    "slp::Problem<double>": {"decision_variable", "symmetric_decision_variable", "minimize", "maximize", "subject_to", "cost_function_type", "equality_constraint_type", "inequality_constraint_type", "solve", "add_callback", "clear_callbacks"},
    "slp::OCP<double>": {"constrain_initial_state", "constrain_final_state", "for_each_step", "set_lower_input_bound", "set_upper_input_bound", "set_min_timestep", "set_max_timestep", "X", "U", "dt", "initial_state", "final_state"},
    "slp::IterationInfo<double>": set("iteration x s y z g H A_e A_i".split()),
    "slp::Gradient<double>": {"get", "value"}, "slp::Jacobian<double>": {"get", "value"}, "slp::Hessian<double, Eigen::Lower | Eigen::Upper>": {"get", "value"},
    "slp::EqualityConstraints<double>": {"__bool__"}, "slp::InequalityConstraints<double>": {"__bool__"},
}


@check("U07", "The functions that register the Python bindings are executed abstractly and every registration is logged; each bound callable is applied to symbolic operands with the library's operations uninterpreted, and the operation it performs must be the one its Python name denotes, with the operands in order. Indexing is evaluated for every index and slice form of small matrices against Python's own rules.", expect=60)
def u07(R):
    u = R.unit("py")
    B = Bindings(u)
    seen = {}
    complete = True
    for f in sorted((f for f in u.fns.values() if f["q"].startswith(BINDERS) and "(" not in f["q"]), key=lambda f: f["q"]):
        R.saw(u, [f])
        try:
            log, _ = B.run(f)
        except (Unsupported, Undecided, KeyError, IndexError, AttributeError, TypeError) as ex:
            complete = False
            R.undecided("registrations of " + f["n"], u.loc(f), repr(ex)[:200])
            continue
        for b in log:
            if b.owner[0] != "enum_":
                seen.setdefault(b.owner[1], []).append(b)
    for own, bs in seen.items():
        count = {}
        for b in bs:
            k = count[b.name] = count.get(b.name, 0) + 1
            nm = "%s.%s/%d" % (short(own) or "module", b.name, k)
            R.sites += 1
            if b.fn is not None and b.fn.op in ("clo", "fnv", "memptr") and b.name is not None:
                one(R, B, b, nm)
            R.check(nm + " keyword names", b.where, lambda: argnames(B, b))
            if keepsalive(B, b) is not None:
                R.check(nm + " keeps its object alive", b.where, lambda: keepsalive(B, b))
    if complete and not B.escaped and not B.I.unknown:
        for own, need in REQUIRED.items():
            got = {b.name for b in seen.get(own, ())}

            def all_there(own=own, need=need, got=got):
                miss = sorted(need - got)
                if miss:
                    return "%s has no %s" % (short(own) or "the module", ", ".join(miss))
            R.check("operations of " + (short(own) or "the module"), "python/cpp", all_there)


def one(R, B, b, nm):
    _, f = B.params(b) if b.fn.op != "memptr" else (None, None)
    if f is not None and "params" in f:
        R.saw(B.u, [f])
    mat = b.owner[1].startswith(("slp::VariableMatrix", "slp::VariableBlock"))
    if mat and b.name in ("__getitem__", "__setitem__"):
        ts, _ = B.params(b)
        two = B.I.ty(ts[1]).get("c") not in ("int", "uint")
        R.check(nm, b.where, lambda: guarded(getitem if b.name == "__getitem__" else setitem, B, b, two))
    elif b.name == "__array_ufunc__":
        for k in UFUNC:
            R.check("%s %s" % (nm, k), b.where, lambda: guarded(ufunc, B, b, k))
    elif b.name == "__init__":
        pass
    elif b.owner[1].startswith("slp::Problem") and b.name == "solve":
        R.check(nm, b.where, lambda: guarded(kwargs, B, b, R))
    else:
        R.check(nm, b.where, lambda: guarded(forwards, B, b))


def guarded(fn, *a):
    try:
        return fn(*a)
    except Bad as ex:
        return str(ex)


# ---------------------------------------------------------------- U06

ENUMS = ["slp::ExitStatus", "slp::ExpressionType", "slp::DynamicsType", "slp::TimestepMethod", "slp::TranscriptionMethod"]


def strings(t, out):
    if t.op == "strv":
        out.append(t.a[0])
    for x in t.a:
        if hasattr(x, "op"):
            strings(x, out)
    return out


def words(s):
    return {w[:4] for w in re.findall(r"[a-z]+", s.lower())}


def messages(u, f, q):
    """text printed for every enumerator"""
    out = {}
    for e in u.enums[q]["e"]:
        I = Interp(u)
        v = raw("enumc", q + "::" + e["n"], int(e["v"]))
        st = State()
        v, s2 = I.call_fn(st, f, sym("this"), [I.alloc(st, v) if I.ty(f["params"][0]["t"]).get("ref") else v, sym("ctx")])
        if v is None:
            out[e["n"]] = None
            continue
        ss = strings(canon(v), [])
        if len(ss) != 1:
            raise Undecided("message of %s: %s" % (e["n"], show(v)[:150]))
        out[e["n"]] = ss[0]
    return out


def own_message(msgs, n):
    m = msgs[n]
    if m is None:
        return "%s has no message" % n
    same = [k for k in msgs if k != n and msgs[k] is not None and msgs[k].strip().lower() == m.strip().lower()]
    if same:
        return "%s and %s both print as '%s'" % (n, same[0], m)
    if not m.strip():
        return "%s prints as nothing" % n
    # the message names its own enumerator at least as well as any other
    mine = len(words(m) & words(n))
    for k in msgs:
        if k != n and len(words(m) & words(k)) > mine:
            return "%s prints as '%s', which describes %s" % (n, m, k)


def doc_table(path, names):
    """rows of the documentation table that lists the given names: {name: value}"""
    s = open(path, encoding="utf-8").read()
    out = []
    for t in re.findall(r"<table>.*?</table>", s, re.S):
        rows = [[re.sub(r"<[^>]*>", "", c).strip() for c in re.findall(r"<t[dh][^>]*>(.*?)</t[dh]>", r, re.S)] for r in re.findall(r"<tr[^>]*>(.*?)</tr>", t, re.S)]
        if rows and sum(1 for r in rows[1:] if r and r[0] in names) >= 2:
            out += [r for r in rows[1:] if r]
    for l in s.splitlines():
        c = [x.strip().strip("`") for x in l.strip().strip("|").split("|")] if l.strip().startswith("|") else []
        if len(c) >= 2 and c[0] in names:
            out.append(c)
    return out


@check("U06", "The enumerations are read from the resolved program, the formatters and the binding functions are executed abstractly for every enumerator, and the documentation's table is parsed: every enumerator has its own message, is registered in Python once under its own name, and ExitStatus is documented with its own number; failures are exactly the negative numbers.", expect=20)
def u06(R):
    import os
    from frame import REPO
    u = R.unit("py")
    v = R.unit("util")
    B = Bindings(u)
    logs = []
    whole = True
    for f in sorted((f for f in u.fns.values() if f["q"].startswith(BINDERS) and "(" not in f["q"]), key=lambda f: f["q"]):
        if any(I_ENUM in B.I.ty(p["t"])["s"] for p in f["params"]):
            R.saw(u, [f])
            try:
                logs += B.run(f)[0]
            except (Unsupported, Undecided, KeyError, IndexError, AttributeError, TypeError) as ex:
                whole = False
                R.undecided("registrations of " + f["n"], u.loc(f), repr(ex)[:200])
    for q in ENUMS:
        en = u.enums.get(q)
        if en is None:
            raise Broken("enumeration %s not found" % q)
        R.sites += len(en["e"])
        names = [e["n"] for e in en["e"]]
        for b in logs:
            if b.owner[1] == q:
                def named(b=b, q=q):
                    if b.fn is None or b.fn.op != "enumc" or b.name is None:
                        raise Undecided("registration " + repr(b)[:150])
                    n = b.fn.a[0].split("::")[-1]
                    if n != b.name:
                        return "Python's %s.%s is %s" % (short(q), b.name, n)
                    if sum(1 for c in logs if c.owner[1] == q and c.name == b.name) > 1:
                        return "%s.%s is registered twice" % (short(q), b.name)
                R.check("Python name %s.%s" % (short(q), b.name), b.where, named)
        if whole:
            for n in names:
                R.check("%s.%s is visible from Python" % (short(q), n), "python/cpp", lambda: None if any(b.owner[1] == q and b.name == n for b in logs) else "%s.%s is not registered" % (short(q), n))
        vs = {}

        def numbers():
            for e in en["e"]:
                if e["v"] in vs:
                    return "%s and %s have the number %s" % (vs[e["v"]], e["n"], e["v"])
                vs[e["v"]] = e["n"]
        R.check("numbers of " + short(q), "%s" % short(q), numbers)
    for q in ENUMS[:2]:
        fs = [f for f in v.fns.values() if f["n"] == "format" and f["q"].startswith("std::formatter<%s>" % q) and "body" in f]
        if not fs:
            raise Broken("no formatter for " + q)
        R.saw(v, fs[:1])
        msgs = {}
        R.check("messages of " + short(q), v.loc(fs[0]), lambda: msgs.update(messages(v, fs[0], q)))
        for n in msgs:
            R.check("message of %s.%s" % (short(q), n), v.loc(fs[0]), lambda: own_message(msgs, n))
    es = v.enums["slp::ExitStatus"]["e"]
    for e in es:
        doc = e.get("doc", "")
        R.check("sign of " + e["n"], "ExitStatus", lambda: sign_ok(e))
    path = os.path.join(REPO, "docs/usage.md")
    if os.path.exists(path):
        rows = doc_table(path, {e["n"] for e in es})
        if rows:
            for e in es:
                R.check("documentation of " + e["n"], "docs/usage.md", lambda: documented(rows, e))
            for r in rows:
                R.check("documented status " + r[0], "docs/usage.md", lambda: None if r[0] in {e["n"] for e in es} else "the documentation lists %s, which does not exist" % r[0])
    module(R, u)


I_ENUM = "nanobind::enum_<"
# stopped with a usable solution
SUCCESSES = {"SUCCESS": 0, "CALLBACK_REQUESTED_STOP": 1}


def sign_ok(e):
    n, k = e["n"], int(e["v"])
    if n == "SUCCESS" and k != 0:
        return "SUCCESS is %d" % k
    if (n in SUCCESSES) != (k >= 0):
        return "%s is %d: negative numbers are failures" % (n, k)


def documented(rows, e):
    r = [r for r in rows if r[0] == e["n"]]
    if not r:
        return "%s is not documented" % e["n"]
    if len(r) > 1:
        return "%s is documented %d times" % (e["n"], len(r))
    if len(r[0]) > 1 and re.fullmatch(r"[−-]?\d+", r[0][1]) and int(r[0][1].replace("−", "-")) != int(e["v"]):
        return "%s is %s, documented as %s" % (e["n"], e["v"], r[0][1])


def module(R, u):
    """the module registers every type under its own name, and runs every binding function"""
    fs = [f for f in u.fns.values() if f["n"].startswith("nanobind_") and f["n"].endswith("exec_impl")]
    if not fs:
        return
    B = Bindings(u)
    B.binders = True
    R.saw(u, fs[:1])
    R.check("module", u.loc(fs[0]), lambda: module_ok(B, fs[0], u))


def module_ok(B, f, u):
    _, s2 = B.run(f)
    calls = []
    t = s2.store.get(LOG, NIL)
    while t.op == "logged":
        calls.append(t.a[1])
        t = t.a[0]
    if t is not NIL or B.I.unknown:
        raise Undecided("registrations depend on a condition")
    want = {f["n"]: f for f in u.fns.values() if f["q"].startswith(BINDERS) and "(" not in f["q"]}
    for n, g in want.items():
        mine = [c for c in calls if c.op == "lib" and c.a[0] == n]
        if len(mine) != 1:
            return "%s is called %d times" % (n, len(mine))
        for x, p in zip(mine[0].a[1:], g["params"]):
            own = owner(B.I.ty(p["t"])["s"].replace("&", "").strip() + "::x")
            if own is None or own[0] == "module_":
                continue
            if x.op not in ("ctor:nanobind::enum_", "ctor:nanobind::class_") or len(x.a) < 2 or x.a[1].op != "strv":
                raise Undecided("argument of %s: %s" % (n, show(x)[:100]))
            if x.a[1].a[0] != short(own[1]):
                return "%s is registered as %s" % (own[1], x.a[1].a[0])
