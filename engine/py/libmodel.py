"""Meaning of the library operations the repository calls (C++ standard
library, gch::small_vector, Eigen) and of the repository's two smart handles.

Each entry returns a term (or an lvalue reference) and performs the state
update the operation has.  Anything that is not listed becomes an opaque
application ``call:<name>`` of all argument values, and every non-const
object or reference argument it could modify is replaced by an opaque result.
"""
from term import *
import term as TM
import sem
from sem import Unsupported, NoReturn, MATHFN, Outcome, State, Frame


def vals(I, st, fr, args):
    return [I.val(st, fr, a) for a in args]


def ldv(I, st, v):
    return I.load(st, v) if I.islv(v) else v


PROJ = ("slp::IntrusiveSharedPtr", "std::unique_ptr", "std::shared_ptr", "std::optional")


def rawcls(q):
    """class part of a qualified member name, template arguments removed"""
    out, d = [], 0
    for ch in q:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        elif d == 0:
            out.append(ch)
    s = "".join(out)
    return s.rsplit("::", 1)[0] if "::" in s else ""


def mk(I, name, *args, mat=False, vec=False, scalar=False):
    r = raw(name, *args)
    if mat or vec:
        TM.markmat(r)
    if vec:
        TM.markvec(r)
    return r


# ------------------------------------------------------------------ special

def special(I, st, fr, e, f, obj, args):
    q, n = f["q"], f["n"]
    if I.smart_transparent and q.startswith("slp::IntrusiveSharedPtr"):
        if n in ("operator->", "get"):
            return ldv(I, st, obj)
        if n == "operator*":
            return I.ptr(ldv(I, st, obj))
        if n in ("operator bool", "operator slp::bool"):
            return Not(cmp("peq", ldv(I, st, obj), NULL))
        if n == "operator=":
            v = I.val(st, fr, args[0])
            I.store(st, obj, v)
            return obj
        if n.startswith("~"):
            return UNIT
    if I.smart_transparent and q.startswith("slp::operator==") and len(args) == 2 and any("IntrusiveSharedPtr" in I.ty(p)["s"] for p in f["pt"]):
        return cmp("peq", *vals(I, st, fr, args))
    if q in ("slp::detail::make_expression_ptr", "slp::allocate_intrusive_shared", "slp::make_intrusive_shared"):
        a = args[1:] if q == "slp::allocate_intrusive_shared" else args
        cls = f["ta"][0]
        return raw("node", cls, *[I.val(st, fr, x) for x in a])
    if q.startswith("slp::function_ref") and n == "operator()" and I.smart_transparent:
        c = ldv(I, st, obj)
        return apply_fn(I, st, fr, c, args)
    return None


def apply_fn(I, st, fr, c, args, evaluated=None):
    if c.op == "clo":
        av = evaluated if evaluated is not None else [I.ev(st, fr, a) for a in args]
        return I.call_closure(st, fr, c, av)
    av = evaluated if evaluated is not None else vals(I, st, fr, args)
    av = [ldv(I, st, a) for a in av]
    I.opq["function object"] = I.opq.get("function object", 0) + 1
    if c.op == "ite":
        a, b = st.copy(), st.copy()
        x = apply_fn(I, a, fr, c.a[1], args, av)
        y = apply_fn(I, b, fr, c.a[2], args, av)
        m = sem.merge(c.a[0], a, b)
        st.store, st.ev = m.store, m.ev
        return ite(c.a[0], x, y)
    h = I.hooks.get("app")
    if h:
        r = h(I, st, fr, c, av)
        if r is not None:
            return r
    return raw("app", c, *av)


# ----------------------------------------------------------------- external

STD = {}


def std(*names):
    def d(fn):
        for n in names:
            STD[n] = fn
        return fn
    return d


def external(I, st, fr, e, f, obj, args):
    q, n = f["q"], f["n"]
    cls = rawcls(q)
    base = q.split("::")[-1]
    if q in sem.TRANSPARENT:
        return I.ev(st, fr, args[0])
    if q.startswith("Eigen::") or cls.startswith("Eigen::"):
        r = eigen(I, st, fr, e, f, obj, args, cls, n)
        if r is not None:
            return r
    if q in STD:
        r = STD[q](I, st, fr, e, f, obj, args)
        if r is not None:
            return r
    if (q.startswith("std::") or "::" not in q) and base in MATHFN and I.ty(f["rt"])["c"] in ("float", "bool", "int"):
        return math(I, base, vals(I, st, fr, args))
    if obj is not None and (cls.startswith(sem.CONTAINERS) or cls in ("std::basic_string", "std::basic_string_view")):
        r = container(I, st, fr, e, f, obj, args, n)
        if r is not None:
            return r
    if cls in ("std::map", "std::unordered_map") and n in ("operator[]", "at") and obj is not None and I.islv(obj):
        return I.elem(obj, I.val(st, fr, args[0]))
    if cls.startswith(("std::unique_ptr", "std::shared_ptr", "std::optional")):
        r = handle(I, st, fr, e, f, obj, args, cls, n)
        if r is not None:
            return r
    if "iterator" in cls or (obj is None and n.startswith("operator") and args and "iterator" in I.ty(f["pt"][0])["s"] if f["pt"] else False):
        r = iterator(I, st, fr, e, f, obj, args, cls, n)
        if r is not None:
            return r
    if cls in ("std::function", "std::move_only_function"):
        if n == "operator()":
            return typemark(I, f["rt"], apply_fn(I, st, fr, ldv(I, st, obj), args))
        if n == "operator bool":
            return Not(cmp("peq", ldv(I, st, obj), NULL))
        if n == "operator=":
            v = I.val(st, fr, args[0])
            I.store(st, obj, v)
            return obj
    if cls.startswith(("std::pair", "std::tuple")) and n == "operator=":
        v = I.val(st, fr, args[0])
        I.store(st, obj, v)
        return obj
    if cls == "std::future":
        if n == "get":
            return getf(ldv(I, st, obj), "future::result")
        if n in ("wait", "valid"):
            return UNIT if n == "wait" else TRUE
    if cls == "std::numeric_limits":
        if n == "infinity":
            return INF
        if n == "max":
            k = intlim(I.ty(f["rt"])["s"], True)
            return k if k is not None else raw("limit_max", I.ty(f["rt"])["s"])
        if n in ("min", "lowest"):
            k = intlim(I.ty(f["rt"])["s"], False)
            if k is not None:
                return k
            return raw("limit_" + n, I.ty(f["rt"])["s"])
        if n == "epsilon":
            return raw("eps")
        if n == "quiet_NaN":
            return raw("nan")
    if n == "operator=" and obj is not None and len(args) == 1:
        v = I.val(st, fr, args[0])
        I.store(st, obj, v)
        return obj
    if cls.startswith("std::chrono") or q.startswith("std::chrono"):
        if n in ("operator+", "operator-", "operator*", "operator/") and len(args) == 2:
            a, b = vals(I, st, fr, args)
            return {"+": add, "-": sub, "*": mul, "/": div}[n[-1]](a, b)
        if n == "operator+=":
            v = I.val(st, fr, args[0])
            I.store(st, obj, add(I.load(st, obj), v))
            return obj
        if n in ("count",):
            return ldv(I, st, obj)
        if n == "now":
            I.act += 1
            return raw("now", I.act)
    if n == "operator<=>":
        a, b = vals(I, st, fr, args)
        return raw("spaceship", a, b)
    if n in ("operator>", "operator<", "operator>=", "operator<=") and len(args) == 2:
        a, b = vals(I, st, fr, args)
        if a.op == "spaceship":
            x, y = a.a
            return {"operator>": cmp("flt", y, x), "operator<": cmp("flt", x, y), "operator>=": cmp("fle", y, x), "operator<=": cmp("fle", x, y)}[n]
    return opaque_ext(I, st, fr, e, f, obj, args)


def typemark(I, tid, v):
    """note that a value of an Eigen type is a matrix or a column vector"""
    s = I.ty(tid)["s"]
    if not isinstance(v, T) or I.islv(v) or isnum(v) or "Eigen::" not in s:
        return v
    s = s.replace(" ", "")
    if "SparseVector<" in s or "Eigen::Matrix<double,-1,1," in s or "Eigen::Vector<" in s or "VectorXd" in s:
        TM.markmat(v)
        TM.markvec(v)
    elif "SparseMatrix<" in s or "Eigen::Matrix<" in s or "MatrixXd" in s:
        TM.markmat(v)
    return v


def intlim(s, mx_):
    s = s.replace("const ", "").strip()
    w = {"int": 31, "long": 63, "long long": 63, "short": 15, "unsigned int": -32, "unsigned long": -64, "size_t": -64}.get(s)
    if w is None:
        return None
    if w < 0:
        return num(2 ** -w - 1) if mx_ else ZERO
    return num(2 ** w - 1) if mx_ else num(-2 ** w)


def opaque_ext(I, st, fr, e, f, obj, args):
    q, n = f["q"], f["n"]
    refs = []
    av = []
    for i, a in enumerate(args):
        pt = I.ty(f["pt"][i]) if i < len(f["pt"]) else None
        v = I.ev(st, fr, a)
        if pt is not None and pt.get("ref") == 1 and not pt.get("const") and not pt.get("pc") and I.islv(v):
            refs.append(v)
        av.append(ldv(I, st, v) if I.kind(a) == "lv" else v)
    ov = None
    nm = rawcls(q) + "::" + n if rawcls(q) else n
    if obj is not None:
        ov = ldv(I, st, obj)
        av = [ov] + av
    I.opq["ext " + nm] = I.opq.get("ext " + nm, 0) + 1
    r = raw("call:" + nm, *av)
    if obj is not None and I.islv(obj) and not f.get("const") and not f.get("static") and n not in PURE:
        I.store(st, obj, raw("after:" + nm, *av))
    for k, x in enumerate(refs):
        if n in PURE:
            continue
        I.store(st, x, raw("out:" + nm, num(k), *av))
    # what an algorithm may write through the iterators it is given
    if q.startswith("std::") and obj is None or q.startswith("std::ranges::"):
        if not base_of(q).startswith(READERS):
            for a, x in zip(args, av[1 if obj is not None else 0:]):
                s = I.ty(a["t"])["s"] if "t" in a else ""
                if x.op == "iter" and I.islv(x.a[0]) and "const_iterator" not in s and "<const " not in s:
                    raise Unsupported("%s writes through an iterator" % nm)
                if x.op == "rec" and "terator" in str(x.a[0]) and "const_iterator" not in str(x.a[0]):
                    raise Unsupported("%s over %s" % (nm, x.a[0]))
    # what an output iterator or a closure may write
    for k, x in enumerate(av):
        if x.op == "backins" and I.islv(x.a[0]):
            I.store(st, x.a[0], raw("out:" + nm, num(100 + k), *av))
        if x.op == "clo":
            for j, (_, r) in enumerate(x.a[1]):
                if r.op == "ref" and r.a[0] in I.refcaps:
                    I.store(st, r, raw("out:" + nm, num(200 + 20 * k + j), *av))
    return raw("call:" + nm, *av)


# algorithms that only read what their iterators refer to
READERS = ("all_of", "any_of", "none_of", "find", "count", "max", "min", "equal", "mismatch", "search", "accumulate", "reduce", "inner_product", "is_", "lexicographical", "distance", "next", "prev", "advance", "lower_bound", "upper_bound", "binary_search", "includes", "starts_with", "ends_with", "contains", "fold", "adjacent", "begin", "end", "cbegin", "cend", "size", "make_", "operator", "forward", "move<", "print", "format", "get", "addressof", "to_address", "as_const", "transform_reduce")


def base_of(q):
    p = q.split("::")
    n = p[-1]
    if n == "operator()" and len(p) > 1:
        n = p[-2].strip("_")
        n = n[:-3] if n.endswith("_fn") else n
    return n


PURE = {"operator*", "operator+", "operator-", "operator/", "print", "println", "operator==", "operator!=", "operator<", "operator>", "operator<<", "format", "invoke", "get", "size", "rows", "cols", "now", "get_allocator"}


def math(I, n, v):
    if n in ("abs", "fabs"):
        return absv(v[0])
    if n == "isfinite":
        return isfin(v[0])
    if n == "isnan":
        return raw("isnan", v[0])
    if n in ("fmin", "fmax"):
        return raw(n, *v)
    return fnv(n, *v)


def fnv(n, *v):
    return raw("fn:" + n, *v)


def absv(x):
    if isnum(x):
        return num(abs(x.a[0]))
    return raw("fn:abs", x)


def isfin(x):
    if isnum(x):
        return TRUE
    if x is INF or (x.op == "neg" and x.a[0] is INF):
        return FALSE
    if x.op == "ite":
        return ite(x.a[0], isfin(x.a[1]), isfin(x.a[2]))
    return raw("isfinite", x)


TM.EXTRA["isfinite"] = isfin
TM.EXTRA["fn:abs"] = absv


def mx(a, b):
    """std::max: a < b ? b : a"""
    if isnum(a) and isnum(b):
        return b if a.a[0] < b.a[0] else a
    if a is b:
        return a
    return raw("max", a, b)


def mn(a, b):
    """std::min: b < a ? b : a"""
    if isnum(a) and isnum(b):
        return b if b.a[0] < a.a[0] else a
    if a is b:
        return a
    return raw("min", a, b)


TM.EXTRA["max"] = mx
TM.EXTRA["min"] = mn


def ordn(v):
    if v.op == "enumc":
        return num(v.a[1])
    if v.op == "ite":
        return ite(v.a[0], ordn(v.a[1]), ordn(v.a[2]))
    if isnum(v):
        return v
    return raw("ord", v)


TM.EXTRA["ord"] = ordn


@std("std::max", "std::min")
def s_max(I, st, fr, e, f, obj, args):
    t = I.ty(f["rt"])
    ismax = f["n"] == "max"
    if len(args) == 1:
        l = I.val(st, fr, args[0])
        if l.op != "list":
            return None
        v = list(l.a)
    else:
        v = vals(I, st, fr, args)
        if len(v) == 3:
            return None
    r = v[0]
    for x in v[1:]:
        if t["c"] == "enum":
            a, b = ordn(r), ordn(x)
            r = ite(cmp("ilt", a, b), x, r) if ismax else ite(cmp("ilt", b, a), x, r)
        else:
            r = mx(r, x) if ismax else mn(r, x)
    return r


@std("std::clamp")
def s_clamp(I, st, fr, e, f, obj, args):
    v, lo, hi = vals(I, st, fr, args)
    return mn(mx(v, lo), hi)


@std("std::to_underlying")
def s_und(I, st, fr, e, f, obj, args):
    return ordn(I.val(st, fr, args[0]))


@std("std::addressof", "std::__addressof")
def s_addr(I, st, fr, e, f, obj, args):
    return I.addr(I.ev(st, fr, args[0]))


@std("std::exchange")
def s_exch(I, st, fr, e, f, obj, args):
    r = I.ev(st, fr, args[0])
    old = I.load(st, r)
    I.store(st, r, I.val(st, fr, args[1]))
    return old


@std("std::swap", "std::ranges::swap")
def s_swap(I, st, fr, e, f, obj, args):
    a, b = I.ev(st, fr, args[0]), I.ev(st, fr, args[1])
    x, y = I.load(st, a), I.load(st, b)
    I.store(st, a, y)
    I.store(st, b, x)
    return UNIT


@std("std::get")
def s_get(I, st, fr, e, f, obj, args):
    ta = f.get("ta") or ["0"]
    b = I.ev(st, fr, args[0])
    try:
        i = int(ta[0])
    except ValueError:
        return None
    return I.tupget(st, b, i)


@std("std::make_pair", "std::make_tuple", "std::tie", "std::forward_as_tuple")
def s_mkpair(I, st, fr, e, f, obj, args):
    return rec("std::tuple", {"t%d" % i: I.val(st, fr, a) for i, a in enumerate(args)})


@std("std::make_unique", "std::make_shared")
def s_mkuniq(I, st, fr, e, f, obj, args):
    av = [I.ev(st, fr, a) for a in args]
    I.act += 1
    p = raw("obj", I.act)
    R = recof(I, f["ta"][0])
    if R is None:
        st.store[("H", "*")] = I.hstore(st.store.get(("H", "*"), raw("heap", "*")), p, raw("make", f["ta"][0], *[ldv(I, st, a) for a in av]))
        return p
    ctor = pick_ctor(I, R, av, [exprtype(I, a) for a in args])
    v = I.construct(st, R, ctor, av)
    I.store(st, I.ptr(p), v)
    return p


def recof(I, name):
    for r in I.u.recs.values():
        if r["dn"] == name and r.get("fields") is not None:
            return r
    return None


def pick_ctor(I, R, av, ts=None):
    """the constructor taking the arguments (of types ts)"""
    c = []
    for m in R.get("methods", ()):
        f = I.u.fns.get(m)
        if f and f.get("isctor") and len(f["params"]) == len(av) and not f.get("copyctor") and not f.get("movector"):
            c.append(f)
    if len(c) > 1 and ts:
        def score(f):
            return sum(I.ty(p["t"])["s"].replace("const ", "").replace(" &&", "").replace(" &", "") == t for p, t in zip(f["params"], ts))
        c.sort(key=score)
        if score(c[-1]) == score(c[-2]):
            raise sem.Unsupported("choice of a constructor of " + R.get("q", ""))
    elif len(c) > 1:
        raise sem.Unsupported("choice of a constructor of " + R.get("q", ""))
    return c[-1] if c else None


@std("std::invoke")
def s_invoke(I, st, fr, e, f, obj, args):
    r = I.ev(st, fr, args[0])
    R = I.u.recs.get(I.ty(args[0]["t"]).get("rec"), {}) if "t" in args[0] else {}
    if I.islv(r) and R.get("in") and not R.get("lam"):
        ops = [I.u.fns[m] for m in R.get("methods", ()) if m in I.u.fns and I.u.fns[m]["n"] == "operator()" and len(I.u.fns[m]["params"]) == len(args) - 1 and I.u.fns[m].get("body")]
        if len(ops) == 1:
            av = I.args(st, fr, ops[0], args[1:])
            v, s2 = I.call_fn(st, ops[0], I.addr(r), av, fr)
            if s2 is None:
                raise sem.NoReturn()
            st.store, st.ev = s2.store, s2.ev
            return v
    c = ldv(I, st, r)
    return apply_fn(I, st, fr, c, args[1:])


@std("std::back_inserter")
def s_backins(I, st, fr, e, f, obj, args):
    return raw("backins", I.ev(st, fr, args[0]))


@std("std::begin", "std::cbegin", "std::ranges::begin")
def s_begin(I, st, fr, e, f, obj, args):
    r = I.ev(st, fr, args[0])
    return mkiter(I, st, r, ZERO)


@std("std::end", "std::cend")
def s_end(I, st, fr, e, f, obj, args):
    r = I.ev(st, fr, args[0])
    return mkiter(I, st, r, length(ldv(I, st, r)))


@std("std::size", "std::ssize", "std::ranges::size")
def s_size(I, st, fr, e, f, obj, args):
    return length(I.val(st, fr, args[0]))


def newbv(I):
    I.bvc += 1
    return raw("bv", "k%d" % I.bvc)


def asrange(I, st, v, tid=None):
    """(length, element-value function) of a range argument."""
    if I.islv(v):
        rv = I.load(st, v)
    else:
        rv = v
        v = I.alloc(st, v, "range")
    if rv.op == "view":
        return viewrange(I, st, rv)
    t = I.ty(tid) if tid is not None else {"c": "?", "s": ""}
    r = I.rangeview(st, v, rv, t)
    if r is None:
        if I.u.recs.get(t.get("rec"), {}).get("q", "").startswith("slp::"):
            raise Unsupported("a range of " + t["s"][:60])
        r = (length(rv), lambda st, i: I.elem(v, i))
    n, ef = r

    def el(st, i):
        x = ef(st, i)
        return x

    return n, el


def unfiltered(rv):
    """(view without its outer filters, predicates in order)"""
    ps = []
    while rv.op == "view" and rv.a[0] in ("filter", "reverse"):
        if rv.a[0] == "reverse":
            r, q = unfiltered(rv.a[1]) if rv.a[1].op == "view" else (rv.a[1], [])
            return raw("view", "reverse", r), q + ps[::-1]
        ps.append(rv.a[2])
        rv = rv.a[1]
    return rv, ps[::-1]


def viewrange(I, st, rv):
    kind = rv.a[0]
    if kind in ("transform", "drop", "take", "reverse", "filter"):
        n, ef = asrange(I, st, rv.a[1])
        if kind == "drop":
            k = rv.a[2]
            m = sub(n, k)
            return m, lambda st, i: ef(st, add(i, k))
        if kind == "reverse":
            return n, lambda st, i: ef(st, sub(sub(n, ONE), i))
        if kind == "take":
            return mn(n, rv.a[2]), ef
        if kind == "transform":
            fnc = rv.a[2]
            return n, lambda st, i: apply_fn(I, st, None, fnc, [], [ef(st, i)])
    if kind == "iota":
        lo, hi = rv.a[1], rv.a[2]
        return sub(hi, lo), lambda st, i: add(lo, i)
    raise Unsupported("view " + str(kind))


def quant(I, st, fr, args, f, pred):
    """binder and predicate value of an algorithm over a range."""
    rng = I.ev(st, fr, args[0])
    rest = args[1:]
    off = ZERO
    if I.islv(rng):
        rv = I.load(st, rng)
    else:
        rv = rng
    if rv.op == "iter":     # (begin, end, pred)
        it2 = I.val(st, fr, args[1])
        rest = args[2:]
        if it2.op != "iter" or it2.a[0] is not rv.a[0]:
            raise Unsupported("algorithm over unrelated iterators")
        lo, hi = rv.a[1], it2.a[1]
        ef = lambda st, i: I.elem(rv.a[0], i) if I.islv(rv.a[0]) else sel(rv.a[0], i)
        n, el = sub(hi, lo), (lambda st, i: ef(st, add(lo, i)))
    else:
        n, el = asrange(I, st, rng, args[0].get("t"))
    return n, el, rest


def callv(I, st, fr, fnc, *xs):
    s2 = st.copy()
    r = apply_fn(I, s2, fr, fnc, [], list(xs))
    return ldv(I, s2, r)


def proj(I, st, fr, p, x):
    if p is None:
        return ldv(I, st, x)
    if p.op == "clo":
        return callv(I, st, fr, p, x)
    if p.op == "memptr":
        v = ldv(I, st, x)
        return getf(v, p.a[0])
    if p.op == "memfn" or p.op == "fnv":
        fn = I.u.fns.get(p.a[0])
        if fn and fn.get("body"):
            s2 = st.copy()
            v, s3 = I.call_fn(s2, fn, x if I.islv(x) else I.alloc(s2, x), [])
            return ldv(I, s3, v)
    return raw("app", p, ldv(I, st, x))


@std("std::any_of", "std::all_of", "std::none_of", "std::ranges::__any_of_fn::operator()", "std::ranges::__all_of_fn::operator()", "std::ranges::__none_of_fn::operator()", "std::ranges::any_of", "std::ranges::all_of", "std::ranges::none_of")
def s_quant(I, st, fr, e, f, obj, args):
    n, el, rest = quant(I, st, fr, args, f, None)
    p = I.val(st, fr, rest[0])
    pj = I.val(st, fr, rest[1]) if len(rest) > 1 and rest[1]["k"] != "defarg" else None
    bv = newbv(I)
    x = el(st, bv)
    if pj is not None:
        x = proj(I, st, fr, pj, x)
    g = I.tobool(callv(I, st, fr, p, x))
    b = ((bv, ZERO, n),)
    q = f["q"]
    if "any_of" in q:
        return exists(b, g)
    if "all_of" in q:
        return forall(b, g)
    return Not(exists(b, g))


def exists(b, g):
    if g is FALSE:
        return FALSE
    return raw("exists", b, g)


def forall(b, g):
    if g is TRUE:
        return TRUE
    return raw("forall", b, g)


TM.EXTRA["exists"] = exists
TM.EXTRA["forall"] = forall


@std("std::erase_if", "gch::erase_if")
def s_eraseif(I, st, fr, e, f, obj, args):
    r = I.ev(st, fr, args[0])
    p = I.val(st, fr, args[1])
    c = I.load(st, r)
    bv = newbv(I)
    g = I.tobool(callv(I, st, fr, p, I.elem(r, bv)))
    I.store(st, r, raw("comp", ((bv, ZERO, length(c)),), Not(g), sel(c, bv)))
    return raw("erased")


@std("std::ranges::__copy_fn::operator()", "std::copy", "std::ranges::copy")
def s_copy(I, st, fr, e, f, obj, args):
    n, el, rest = quant(I, st, fr, args, f, None)
    out = I.val(st, fr, rest[0])
    src = None
    rng = I.ev(st, fr, args[0])
    rv = ldv(I, st, rng)
    bv = newbv(I)
    if out.op == "backins":
        d = out.a[0]
        dt = I.ty(rest[0]["t"])["s"] if "t" in rest[0] else ""
        stt = I.ty(args[0]["t"])["s"] if "t" in args[0] else ""
        if "slp::Variable<" in dt and "slp::Variable<" not in stt:
            # elements are converted by Variable's converting constructor
            R = [r for r in I.u.recs.values() if r["q"] == "slp::Variable"]
            ct = [g for g in I.u.fns.values() if g["n"].startswith("Variable") and g["q"].startswith("slp::Variable<") and len(g["params"]) == 1 and I.ty(g["params"][0]["t"])["s"] == "double"]
            if not (R and ct and "double" in stt):
                raise Unsupported("copy with conversion from %s to %s" % (stt[:60], dt[:60]))
            v = I.construct(st, R[0], ct[0], [ldv(I, st, el(st, bv))])
            v = I.load(st, v) if I.islv(v) else v
            I.store(st, d, cat(I.load(st, d), raw("comp", ((bv, ZERO, n),), TRUE, v)))
        elif rv.op not in ("iter", "view", "zip"):
            I.store(st, d, cat(I.load(st, d), rv))
        else:
            I.store(st, d, cat(I.load(st, d), raw("comp", ((bv, ZERO, n),), TRUE, ldv(I, st, el(st, bv)))))
        return UNIT
    if out.op == "iter":
        c = out.a[0]
        old = I.load(st, c)
        I.store(st, c, raw("forupd", old, ((bv, ZERO, n),), (normi(add(out.a[1], bv)),), ldv(I, st, el(st, bv)), TRUE))
        return UNIT
    w = userout(I, st, rest[0], out)
    if w is not None:
        return visitall(I, st, fr, e, n, el, lambda st, x, i: w(st, ldv(I, st, x)))
    return None


def userout(I, st, a, out):
    """writing through an iterator class of the repository"""
    if out.op != "rec" or "t" not in a:
        return None
    me = [f for f in I.u.fns.values() if f.get("cls") is not None and f.get("cls") == I.ty(a["t"]).get("rec") and f.get("body") and not f["params"]]
    d, p = [f for f in me if f["n"] == "operator*"], [f for f in me if f["n"] == "operator++"]
    if not d or not p:
        return None
    o = I.alloc(st, out, "out")

    def write(st, v):
        lv, s = I.call_fn(st, d[0], I.addr(o), [])
        st.store, st.ev = s.store, s.ev
        if not I.islv(lv):
            raise Unsupported("write through " + show(lv)[:60])
        I.store(st, lv, v)
        _, s = I.call_fn(st, p[0], I.addr(o), [])
        st.store, st.ev = s.store, s.ev
    return write


@std("std::ranges::__copy_if_fn::operator()", "std::copy_if")
def s_copyif(I, st, fr, e, f, obj, args):
    n, el, rest = quant(I, st, fr, args, f, None)
    if len(rest) < 2 or len(rest) > 2 and rest[2]["k"] != "defarg":
        raise Unsupported("copy_if with a projection")
    out, p = I.val(st, fr, rest[0]), I.val(st, fr, rest[1])
    dt, stt = [I.ty(a["t"])["s"] if "t" in a else "" for a in (rest[0], args[0])]
    if out.op != "backins" or "slp::Variable<" in dt and "slp::Variable<" not in stt:
        raise Unsupported("copy_if into " + dt[:60])
    bv = newbv(I)
    x = el(st, bv)
    g = I.tobool(callv(I, st, fr, p, x))
    I.store(st, out.a[0], cat(I.load(st, out.a[0]), raw("comp", ((bv, ZERO, n),), g, ldv(I, st, x))))
    return UNIT


def visitall(I, st, fr, s, n, el, visit):
    """a loop over a range whose body is a function application"""
    cnt = I.newroot("range_index")
    st.store[cnt] = ZERO

    def body(st):
        visit(st, el(st, st.store[cnt]), st.store[cnt])
        return sem.Outcome(st)

    def inc(st):
        st.store[cnt] = add(st.store[cnt], ONE)
    o = I.loop(st, fr, s, lambda st: cmp("ilt", st.store[cnt], n), body, inc, constlist=n if isnum(n) else None)
    if o.st is None or o.exits or o.g is not TRUE:
        raise Unsupported("exit from an algorithm")
    st.store, st.ev = o.st.store, o.st.ev
    return UNIT


@std("std::ranges::__transform_fn::operator()", "std::transform")
def s_transform(I, st, fr, e, f, obj, args):
    n, el, rest = quant(I, st, fr, args, f, None)
    if len(rest) < 2 or len(rest) > 2 and rest[2]["k"] != "defarg":
        raise Unsupported("transform of two ranges or with a projection")
    out, fn = I.val(st, fr, rest[0]), I.val(st, fr, rest[1])
    if out.op not in ("backins", "iter"):
        raise Unsupported("transform into " + show(out)[:60])

    def visit(st, x, i):
        v = ldv(I, st, apply_fn(I, st, fr, fn, [], [x]))
        if out.op == "backins":
            I.store(st, out.a[0], push(I.load(st, out.a[0]), v))
        else:
            I.store(st, I.elem(out.a[0], normi(add(out.a[1], i))), v)
    return visitall(I, st, fr, e, n, el, visit)


@std("std::ranges::__for_each_fn::operator()", "std::for_each")
def s_foreach(I, st, fr, e, f, obj, args):
    n, el, rest = quant(I, st, fr, args, f, None)
    if not rest or len(rest) > 1 and rest[1]["k"] != "defarg":
        raise Unsupported("for_each with a projection")
    fn = I.val(st, fr, rest[0])
    return visitall(I, st, fr, e, n, el, lambda st, x, i: apply_fn(I, st, fr, fn, [], [x]))


@std("std::ranges::__max_fn::operator()", "std::ranges::__min_fn::operator()")
def s_rmax(I, st, fr, e, f, obj, args):
    n, el, rest = quant(I, st, fr, args, f, None)
    if not rest:
        return None
    comp = I.val(st, fr, rest[0])
    pj = I.val(st, fr, rest[1]) if len(rest) > 1 and rest[1]["k"] != "defarg" else None
    bv = newbv(I)
    x = proj(I, st, fr, pj, el(st, bv)) if pj is not None else ldv(I, st, el(st, bv))
    return raw("extremum", f["q"].split("::")[2], ((bv, ZERO, n),), x, compname(comp))


def compname(c):
    return c


@std("std::ranges::__min_element_fn::operator()", "std::ranges::__max_element_fn::operator()", "std::min_element", "std::max_element")
def s_minel(I, st, fr, e, f, obj, args):
    rng = I.ev(st, fr, args[0])
    comp = I.val(st, fr, args[1])
    n, el = asrange(I, st, rng)
    a, b = newbv(I), newbv(I)
    if comp.op == "clo":
        less = I.tobool(callv(I, st, fr, comp, el(st, a), el(st, b)))
    else:
        less = raw("app", comp, ldv(I, st, el(st, a)), ldv(I, st, el(st, b)))
    pos = raw("argext", f["q"].split("::")[-2] if "fn" in f["q"] else f["n"], a, b, n, less)
    return raw("iter", rng, pos, ldv(I, st, rng))


@std("std::async")
def s_async(I, st, fr, e, f, obj, args):
    """the task runs once, on copies of its arguments; what it touches by
    reference must not change meanwhile"""
    t = I.ty(f["pt"][0])["s"]
    rest = args[1:] if "launch" in t else args
    c = I.val(st, fr, rest[0])
    if c.op == "clo":
        for _, r in c.a[1]:
            if r.op == "ref" and r.a[0] in I.refcaps and any(x.op == "phi" for x in TM.walk(I.load(st, r))):
                I.races.append(I.refcaps[r.a[0]])
    av = [I.val(st, fr, a) for a in rest[1:]]
    return rec("future", {"future::result": apply_fn(I, st, fr, c, rest[1:], av)})


@std("std::ranges::views::_Zip::operator()")
def s_zip(I, st, fr, e, f, obj, args):
    return raw("zip", *[I.ev(st, fr, a) for a in args])


@std("std::ranges::views::_Iota::operator()")
def s_iota(I, st, fr, e, f, obj, args):
    return raw("view", "iota", *vals(I, st, fr, args))


VIEWS = {"_Drop": "drop", "_Take": "take", "_Transform": "transform", "_Filter": "filter"}
for _n, _k in VIEWS.items():
    @std("std::ranges::views::__adaptor::_RangeAdaptor<std::ranges::views::%s>::operator()" % _n)
    def s_adapt(I, st, fr, e, f, obj, args, _k=_k):
        return raw("adapt", _k, *vals(I, st, fr, args))

    @std("std::ranges::views::%s::operator()" % _n)
    def s_adapt2(I, st, fr, e, f, obj, args, _k=_k):
        return raw("view", _k, I.ev(st, fr, args[0]), *vals(I, st, fr, args[1:]))


@std("std::ranges::views::_Reverse::operator()")
def s_reverse(I, st, fr, e, f, obj, args):
    return raw("view", "reverse", I.ev(st, fr, args[0]))


@std("std::ranges::views::__adaptor::operator|")
def s_pipe(I, st, fr, e, f, obj, args):
    src = I.ev(st, fr, args[0])
    ad = I.val(st, fr, args[1])
    if ad.op == "adapt":
        return raw("view", ad.a[0], src, *ad.a[1:])
    t = I.ty(f["pt"][1])["s"] if len(f["pt"]) > 1 else ""
    if "_Reverse" in t:
        return raw("view", "reverse", src)
    return None


def handle(I, st, fr, e, f, obj, args, cls, n):
    if n in ("operator->", "get"):
        v = ldv(I, st, obj)
        if cls.startswith("std::optional"):
            return I.addr(obj) if I.islv(obj) else v
        return v
    if n in ("operator*", "value"):
        if cls.startswith("std::optional"):
            return obj
        return I.ptr(ldv(I, st, obj))
    if n in ("operator bool", "has_value"):
        v = ldv(I, st, obj)
        return Not(cmp("peq", v, NULL)) if v.op not in ("rec",) else TRUE
    if n == "value_or":
        v = ldv(I, st, obj)
        d = I.val(st, fr, args[0])
        return ite(Not(cmp("peq", v, NULL)) if v.op != "rec" else TRUE, v, d)
    if n in ("operator=", "reset", "emplace"):
        v = I.val(st, fr, args[0]) if args else NULL
        I.store(st, obj, v)
        return obj
    return None


# --------------------------------------------------------------- iterators

def mkiter(I, st, r, i):
    v = ldv(I, st, r)
    return raw("iter", r, normi(i), v)


def iterator(I, st, fr, e, f, obj, args, cls, n):
    if obj is not None:
        v = ldv(I, st, obj)
        rev = "reverse_iterator" in cls
        if v.op == "ctor:std::reverse_iterator":
            if n == "base":
                return v.a[0]
        if v.op == "iter":
            c, i = v.a[0], v.a[1]
            if n in ("operator*", "operator->"):
                r = I.elem(c, i) if I.islv(c) else I.alloc(st, sel(v.a[2], i))
                return I.addr(r) if n == "operator->" else r
            if n in ("operator++", "operator--"):
                d = ONE if n == "operator++" else num(-1)
                nv = mkiter(I, st, c, add(i, d))
                I.store(st, obj, nv)
                return v if args else obj
            if n in ("operator+", "operator-") and len(args) == 1:
                k = I.val(st, fr, args[0])
                return mkiter(I, st, c, add(i, k) if n == "operator+" else sub(i, k))
            if n in ("operator+=", "operator-="):
                k = I.val(st, fr, args[0])
                I.store(st, obj, mkiter(I, st, c, add(i, k) if n == "operator+=" else sub(i, k)))
                return obj
            if n == "operator[]":
                k = I.val(st, fr, args[0])
                return I.elem(c, add(i, k))
            if n == "base":
                return v
    else:
        a = vals(I, st, fr, args)
        if len(a) == 2 and a[0].op == "iter" and a[1].op == "iter":
            x, y = a[0].a[1], a[1].a[1]
            if n == "operator-":
                return sub(x, y)
            if n == "operator==":
                return cmp("ieq", x, y)
            if n == "operator!=":
                return Not(cmp("ieq", x, y))
            if n == "operator<":
                return cmp("ilt", x, y)
            if n == "operator<=>":
                return raw("spaceship", x, y)
        if len(a) == 2 and n in ("operator==", "operator!="):
            r = cmp("ieq", iterpos(a[0]), iterpos(a[1]))
            return r if n == "operator==" else Not(r)
        if len(a) == 2 and n == "operator-":
            return sub(iterpos(a[0]), iterpos(a[1]))
    return None


def iterpos(v):
    if v.op == "iter":
        return v.a[1]
    return raw("iterpos", v)


# --------------------------------------------------------------- containers

def container(I, st, fr, e, f, obj, args, n):
    if n == "operator[]" or n == "at":
        i = I.val(st, fr, args[0])
        if I.islv(obj):
            return I.elem(obj, i)
        return I.alloc(st, sel(obj, i))
    if n in ("size", "length"):
        return length(ldv(I, st, obj))
    if n == "empty":
        return cmp("ieq", length(ldv(I, st, obj)), ZERO)
    if n in ("begin", "cbegin"):
        return mkiter(I, st, obj, ZERO)
    if n in ("end", "cend"):
        return mkiter(I, st, obj, length(ldv(I, st, obj)))
    if n in ("rbegin", "crbegin", "rend", "crend"):
        return raw("riter", obj, n)
    if n == "front":
        return I.elem(obj, ZERO) if I.islv(obj) else sel(obj, ZERO)
    if n == "back":
        c = ldv(I, st, obj)
        if c.op == "push":
            pass
        return I.elem(obj, sub(length(c), ONE)) if I.islv(obj) else sel(c, sub(length(c), ONE))
    if n == "data":
        return raw("dataptr", obj)
    if n in ("reserve", "shrink_to_fit"):
        for a in args:
            I.val(st, fr, a)
        return UNIT
    if n == "clear":
        I.store(st, obj, EMPTY)
        return UNIT
    if n == "push_back":
        v = I.val(st, fr, args[0])
        I.store(st, obj, push(I.load(st, obj), v))
        return UNIT
    if n == "emplace_back":
        t = I.ty(f["rt"])
        c = I.load(st, obj)
        v = emplace(I, st, fr, t, args)
        I.store(st, obj, push(c, v))
        return I.elem(obj, length(c))
    if n == "pop_back":
        c = I.load(st, obj)
        if c.op == "push":
            I.store(st, obj, c.a[0])
        elif c.op == "list" and c.a:
            I.store(st, obj, raw("list", *c.a[:-1]))
        else:
            I.store(st, obj, raw("popped", c))
        return UNIT
    if n == "resize":
        v = vals(I, st, fr, args)
        c = I.load(st, obj)
        if c is EMPTY:
            I.store(st, obj, raw("fill", v[0], v[1] if len(v) > 1 else raw("defaultelem")))
        else:
            I.store(st, obj, raw("resized", c, *v))
        return UNIT
    if n == "operator=":
        v = I.val(st, fr, args[0])
        I.store(st, obj, v)
        return obj
    if n == "insert":
        v = vals(I, st, fr, args)
        c = I.load(st, obj)
        if len(v) == 3 and v[0].op == "iter" and v[1].op == "iter" and v[2].op == "iter" and v[1].a[0] is v[2].a[0] and v[0].a[1] is normi(length(c)) and v[1].a[1] is ZERO:
            I.store(st, obj, cat(c, v[1].a[2]))
            return UNIT
        I.store(st, obj, raw("inserted", c, *v))
        return UNIT
    if n == "append_range" or n == "append":
        v = vals(I, st, fr, args)
        I.store(st, obj, cat(I.load(st, obj), v[0]))
        return UNIT
    if n == "assign":
        v = vals(I, st, fr, args)
        I.store(st, obj, raw("fill", *v))
        return UNIT
    return None


def emplace(I, st, fr, t, args):
    if t["c"] == "rec":
        R = I.u.recs.get(t["rec"], {})
        q = R.get("q", "")
        if q.startswith(("slp::IntrusiveSharedPtr",)) and I.smart_transparent:
            return I.val(st, fr, args[0]) if args else NULL
        if q.startswith(("std::pair", "std::tuple")):
            return rec(q, {"t%d" % i: I.val(st, fr, a) for i, a in enumerate(args)})
        if q == "Eigen::Triplet" and len(args) != 1:
            return rec("Eigen::Triplet", {k: I.val(st, fr, a) for k, a in zip(("row", "col", "value"), args)})
        if len(args) == 1:
            at = args[0].get("t")
            if at is None and args[0]["k"] == "mat":
                at = args[0]["e"].get("t")
            v = I.ev(st, fr, args[0])
            at_s = exprtype(I, args[0])
            if at_s == t["s"].replace("const ", "").replace(" &", ""):
                return ldv(I, st, v)
            if R.get("in") and R.get("fields") is not None:
                c = conv_ctor(I, R, exprtype(I, args[0]))
                if c is not None:
                    return I.construct(st, R, c, [v])
            return ldv(I, st, v)
        if R.get("in") and R.get("fields") is not None:
            av = [I.ev(st, fr, a) for a in args]
            c = pick_ctor(I, R, av, [exprtype(I, a) for a in args])
            if c is None and av:
                fs = I.allfields(R)
                return rec(R.get("dn", q), {nm: ldv(I, st, v) for (nm, _), v in zip(fs, av)})
            o = I.opaque(c, av) if c is not None else None
            if o is not None:
                return I.apply_opaque(st, fr, {"k": "emplace"}, c, None, av, o)
            return I.construct(st, R, c, av)
        if not args and I.iscontainer(q):
            return EMPTY
        return raw("make:" + q, *vals(I, st, fr, args))
    v = vals(I, st, fr, args)
    return v[0] if v else I.zero_c(t["c"])


def exprtype(I, a):
    while a["k"] in ("mat", "ld") and "t" not in a:
        a = a["e"]
    t = a.get("t")
    if t is None:
        return ""
    return I.ty(t)["s"].replace("const ", "").replace(" &&", "").replace(" &", "")


def conv_ctor(I, R, s):
    c1 = None
    for m in R.get("methods", ()):
        f = I.u.fns.get(m)
        if f and f.get("isctor") and len(f["params"]) == 1 and not f.get("copyctor") and not f.get("movector"):
            ps = I.ty(f["params"][0]["t"])["s"].replace("const ", "").replace(" &&", "").replace(" &", "")
            if ps == s:
                return f
            c1 = f
    return c1


# -------------------------------------------------------------------- Eigen

def vecstr(s):
    return "Matrix<double, -1, 1>" in s[:40] or s.startswith("Eigen::SparseVector")


IDENT = {"eval", "derived", "toDense", "toDenseMatrix", "array", "matrix", "noalias", "nestedExpression", "const_cast_derived", "value_", "mean_", "selfadjointView_"}


def isvec(t):
    return TM.isvec(t)


def scal(I, a):
    """is the argument expression of scalar type?"""
    while a["k"] in ("mat", "ld", "defarg") and "t" not in a:
        a = a["e"]
    t = a.get("t")
    if t is None:
        t = a.get("fn", {}).get("rt")
    if t is None:
        return a["k"] in ("int", "flt")
    ty = I.ty(t)
    if ty["c"] == "rec":
        return ty["s"].startswith(("slp::Variable<", "const slp::Variable<"))
    return True


def inv(x):
    return TM.vinv(x)


def ldeep(I, st, v):
    """value designated by an lvalue, looking through stored views"""
    while v.op == "ref":
        v = I.load(st, v)
    if v.op == "ite" and I.islv(v):
        v = I.load(st, v)
    return v


def vdeep(I, st, fr, args):
    return [ldeep(I, st, v) for v in vals(I, st, fr, args)]


def eigen(I, st, fr, e, f, obj, args, cls, n):
    ldv = ldeep
    vals = vdeep
    while obj is not None and obj.op == "ref" and obj.a[0][0] != "h":
        o2 = I.load(st, obj)       # a named view designates what it views
        if o2.op != "ref":
            break
        obj = o2
    q = f["q"]
    scalar_rt = I.ty(f["rt"])["c"]
    # --- objects
    if "InnerIterator" in cls:
        v = ldv(I, st, obj)
        if v.op == "rec":
            m, k, p = getf(v, "m"), getf(v, "k"), getf(v, "pos")
            if n == "operator bool":
                return cmp("ilt", p, raw("nzcount", m, k))
            if n == "operator++":
                I.store(st, obj, setf(v, "pos", normi(add(p, ONE))))
                return obj
            if n in ("row", "col", "value", "index"):
                return raw("nz" + n, m, k, p)
    if obj is not None:
        if n in IDENT and not args:
            return obj
        if n in ("rows", "cols", "size", "innerSize", "outerSize", "nonZeros", "innerVectors"):
            return dim(I, n, ldv(I, st, obj))
        if n in ("operator[]", "operator()", "coeff", "coeffRef", "operator()()"):
            ix = vals(I, st, fr, args)
            if I.islv(obj):
                return I.elem(obj, *ix)
            v = sel(obj, *ix)
            return v
        if n in ("segment", "head", "tail", "block", "row", "col", "topRows", "bottomRows", "leftCols", "rightCols", "middleRows", "middleCols", "diagonal", "topLeftCorner", "innerVector"):
            ix = [normi(x) for x in vals(I, st, fr, args)]
            if n == "head":
                n, ix = "segment", [ZERO] + ix
            if n == "diagonal" and ldv(I, st, obj).op == "diag":
                return ldv(I, st, obj).a[0]
            r = I.part(obj, n, *ix)
            if not I.islv(r):
                TM.markmat(r)
                if n in ("segment", "tail", "col", "diagonal"):
                    TM.markvec(r)
            return r
        if n == "operator=":
            v = I.val(st, fr, args[0])
            if "Triangular" not in cls:
                I.store(st, obj, v)
                return obj
        if n in ("operator+=", "operator-=", "operator*=", "operator/="):
            v = I.val(st, fr, args[0])
            old = I.load(st, obj)
            o = n[8]
            if o == "*" and not scal(I, args[0]):
                nv = mmul(old, v)
            else:
                nv = {"+": add, "-": sub, "*": lambda a, b: mul(b, a), "/": div}[o](old, v)
            mt(nv, old)
            I.store(st, obj, nv)
            return obj
        if n == "operator<<":
            v = I.val(st, fr, args[0])
            I.store(st, obj, vmark(raw("vcat", v)))
            return obj
        if n in ("operator,", "finished") and "CommaInitializer" in q:
            if n == "finished":
                v = I.load(st, obj)
                return v if I.islv(v) else obj
            v = I.val(st, fr, args[0])
            old = I.load(st, obj)
            if I.islv(old):
                obj = old
                old = I.load(st, obj)
            if old.op == "vcat":
                I.store(st, obj, vmark(raw("vcat", *old.a, v)))
                return obj
            return None
        if n in ("setZero", "setOnes", "setConstant", "fill", "setIdentity") and not f.get("static"):
            a = vals(I, st, fr, args)
            c = {"setZero": ZERO, "setOnes": ONE}.get(n) or (a[-1] if a else raw("identity"))
            if n == "setIdentity":
                I.store(st, obj, mk(I, "eye", mat=True))
            else:
                old = I.load(st, obj)
                I.store(st, obj, vmark(raw("vfill", dimv(old), c)))
            return obj
        if n in ("resize", "conservativeResize"):
            a = vals(I, st, fr, args)
            if n == "resize":
                I.store(st, obj, mk(I, "eigen0", "dim", *a, mat=True))
            else:
                I.store(st, obj, mk(I, "padded", I.load(st, obj), *a, mat=True))
            return UNIT
        if n in ("setFromTriplets", "setFromSortedTriplets"):
            a = vals(I, st, fr, args)
            old = I.load(st, obj)
            l = a[0].a[2] if a[0].op == "iter" else a[0]
            if n == "setFromSortedTriplets":
                I.sortedtrips = getattr(I, "sortedtrips", set()) | {l}
            I.store(st, obj, mk(I, "fromtrip", raw("dims", dim(I, "rows", old), dim(I, "cols", old)), l, mat=True))
            return UNIT
        if n in ("transpose", "adjoint"):
            x = ldv(I, st, obj)
            return TM.tr(x)
        if n == "asDiagonal":
            return TM.markmat(raw("diag", ldv(I, st, obj)))
        if n in ("cwiseProduct",):
            x, y = ldv(I, st, obj), I.val(st, fr, args[0])
            return TM.had(x, y)
        if n == "cwiseQuotient":
            x, y = ldv(I, st, obj), I.val(st, fr, args[0])
            return TM.had(x, TM.vinv(y))
        if n in ("cwiseInverse", "inverse"):
            return TM.vinv(ldv(I, st, obj))
        if n == "cwiseSquare" or (n == "square"):
            x = ldv(I, st, obj)
            return TM.had(x, x)
        if n in ("cwiseAbs", "abs", "log", "exp", "sqrt", "cwiseSqrt", "cwiseSign"):
            return mt(raw("ew:" + n.replace("cwise", "").lower(), ldv(I, st, obj)), ldv(I, st, obj))
        if n in ("cwiseMax", "cwiseMin", "max", "min") and args:
            x, y = ldv(I, st, obj), I.val(st, fr, args[0])
            return mt(raw("ew:" + n.replace("cwise", "").lower(), x, y), x)
        if n in ("cwiseGreater", "cwiseLess"):
            x, y = ldv(I, st, obj), I.val(st, fr, args[0])
            return raw("ew:lt", y, x) if n == "cwiseGreater" else raw("ew:lt", x, y)
        if n in ("operator>", "operator<", "operator>=", "operator<="):
            x, y = ldv(I, st, obj), I.val(st, fr, args[0])
            return {"operator>": raw("ew:lt", y, x), "operator<": raw("ew:lt", x, y), "operator>=": raw("ew:le", y, x), "operator<=": raw("ew:le", x, y)}[n]
        if n in ("all", "any", "count"):
            return raw("ew:" + n, ldv(I, st, obj))
        if n == "lpNorm":
            p = (f.get("ta") or ["?"])[-1]
            if p in ("2147483647", "-1"):
                p = "inf"
            x = ldv(I, st, obj)
            return raw("norm_" + p, x)
        if n in ("norm", "squaredNorm", "sum", "minCoeff", "maxCoeff", "mean", "trace", "prod"):
            return raw("red:" + n, ldv(I, st, obj))
        if n == "allFinite":
            return raw("allfinite", ldv(I, st, obj))
        if n == "dot":
            x, y = ldv(I, st, obj), I.val(st, fr, args[0])
            return mmul(TM.tr(x), y)
        if n in ("triangularView", "selfadjointView"):
            return mk(I, n + "<" + (f.get("ta") or ["?"])[0] + ">", ldv(I, st, obj), mat=True)
        if n == "sparseView":
            for a in args:
                I.val(st, fr, a)
            return ldv(I, st, obj)
        if n.startswith("operator ") and scalar_rt in ("float",):
            return ldv(I, st, obj)
        if n in ("operator+", "operator-", "operator*", "operator/"):
            x = ldv(I, st, obj)
            if not args:
                return mt(neg(x), x) if n == "operator-" else x
            y = I.val(st, fr, args[0])
            return binop(I, n, x, y, "Array" in cls.split("<")[0] or "ArrayBase" in q, False, scal(I, args[0]))
        if n in ("compute", "factorize", "analyzePattern"):
            v = I.val(st, fr, args[0])
            h = I.hooks.get("factor")
            I.store(st, obj, raw("factor:" + n, v, *( [I.load(st, obj)] if n == "factorize" else [])))
            return obj
        if n in ("solve", "info", "vectorD"):
            a = vals(I, st, fr, args)
            r = raw("fact:" + n, ldv(I, st, obj), *a)
            if n == "solve":
                TM.markmat(r)
                if a and TM.isvec(a[0]):
                    TM.markvec(r)
            if n == "vectorD":
                TM.markmat(r)
                TM.markvec(r)
            return r
    else:
        if n in ("operator+", "operator-", "operator*", "operator/") and len(args) == 2:
            x, y = vals(I, st, fr, args)
            arr = any("Array" in I.ty(p)["s"][:60] for p in f["pt"])
            return binop(I, n, x, y, arr, scal(I, args[0]), scal(I, args[1]))
        if n in ("Zero", "Ones", "Constant", "Identity", "Random"):
            a = vals(I, st, fr, args)
            if n == "Identity":
                return mk(I, "eye", *a, mat=True)
            c = {"Zero": ZERO, "Ones": ONE}.get(n)
            if c is None:
                c = a[-1]
                a = a[:-1]
            return vmark(raw("vfill", raw("dims", *a), c)) if len(a) == 1 else mk(I, "vfill", raw("dims", *a), c, mat=True)
        if n in ("dummy_precision", "epsilon"):
            return raw("limit:" + n)
    return None


def vmark(t):
    TM.markmat(t)
    TM.markvec(t)
    return t


def mt(t, like):
    if t.op == "num":
        return t
    TM.markmat(t)
    if TM.isvec(like):
        TM.markvec(t)
    return t


def dimv(v):
    if v.op == "eigen0" and v.a[0] == "dim":
        return raw("dims", *v.a[1:])
    if v.op == "vfill":
        return v.a[0]
    return raw("dims_of", v)


def dim(I, n, v):
    if v.op == "ite":
        return ite(v.a[0], dim(I, n, v.a[1]), dim(I, n, v.a[2]))
    if v.op == "eigen0" and v.a[0] == "dim":
        d = v.a[1:]
        if len(d) == 1:
            return ONE if n == "cols" else d[0]
        if n == "rows":
            return d[0]
        if n == "cols":
            return d[1]
        if n == "size":
            return mul(d[0], d[1])
    if v.op == "vfill" and v.a[0].op == "dims":
        d = v.a[0].a
        if len(d) == 1:
            return ONE if n == "cols" else d[0]
        if n == "rows":
            return d[0]
        if n == "cols":
            return d[1]
    if v.op == "fromtrip" and n in ("rows", "cols"):
        return v.a[0].a[0 if n == "rows" else 1]
    if v.op == "tr" and n in ("rows", "cols"):
        return dim(I, "cols" if n == "rows" else "rows", v.a[0])
    if v.op in ("upd", "updp", "forupd", "neg") or (v.op == "mul" and False):
        return dim(I, n, v.a[0])
    if v.op == "mul" and TM.ismat(v.a[1]):
        return dim(I, n, v.a[1])
    if v.op in ("add", "sub"):
        return dim(I, n, v.a[0])
    if v.op.startswith("ew:") and v.a:
        return dim(I, n, v.a[0])
    if v.op == "mmul":
        if n == "rows":
            return dim(I, n, v.a[0])
        if n == "cols":
            return dim(I, n, v.a[1])
    if v.op == "diag":
        return dim(I, "rows", v.a[0])
    if v.op == "part:segment":
        if n in ("rows", "size"):
            return v.a[2]
        if n == "cols":
            return ONE
    if v.op == "part:block":
        if n == "rows":
            return v.a[3]
        if n == "cols":
            return v.a[4]
    if v.op == "list" and n in ("rows", "size"):
        return num(len(v.a))
    if n == "cols" and TM.isvec(v):
        return ONE
    if n == "size" and TM.isvec(v):
        n = "rows"
    return raw("dim:" + n, v)


def binop(I, n, x, y, arr, sx, sy):
    o = n[8]
    if o in "+-":
        if arr and (sx or sy):
            r = (add if o == "+" else sub)(raw("bcast", x) if sx else x, raw("bcast", y) if sy else y)
        else:
            r = (add if o == "+" else sub)(x, y)
        return mt(r, x if not sx else y)
    if o == "/":
        if sx:   # scalar / array
            return mt(mul(x, TM.vinv(y)), y)
        if sy:
            return mt(div(x, y), x)
        return TM.had(x, TM.vinv(y))
    if sx:
        return mt(mul(x, y), y)
    if sy:
        return mt(mul(y, x), x)
    if arr:
        return TM.had(x, y)
    r = mmul(x, y)
    TM.markmat(r)
    if TM.isvec(y) and not (x.op == "tr" and TM.isvec(x.a[0])):
        TM.markvec(r)
    return r
