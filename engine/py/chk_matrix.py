"""M01-M06: matrices, views, slices, solving."""
import re
from frame import check, Broken
from vx import *
from chk_var import differs, modelled, untouched, recof, clstype

VM = "slp::VariableMatrix"


def fns(R):
    u = R.unit("mclient")
    return u, {f["n"]: f for f in u.fns.values() if f["q"].startswith("mclient::") and f.get("body")}


def scenarios(R, pattern, rule):
    u, fs = fns(R)
    got = 0
    src = open(__import__("frame").VERIF + "/engine/tu/mclient.cpp").read()
    for n in sorted(fs):
        if not re.fullmatch(pattern, n):
            continue
        got += 1
        f = fs[n]
        E = MX(u)
        R.check("scenario " + n, u.loc(f), lambda f=f, E=E, n=n: rule(n, E, f))
        R.saw(u, E.I.inlined)
    if not got:
        R.undecided(pattern, "engine/tu/mclient.cpp", "no scenario compiles: " + "; ".join(u.errs)[:200])


class Run:
    """one abstract execution of a client function"""

    def __init__(self, E, f, args=None):
        self.E, self.f = E, f
        st = State()
        self.p = {p["n"]: p for p in f["params"]}
        self.a = {}
        for p in f["params"]:
            if args and p["n"] in args:
                v = args[p["n"]]
                self.a[p["n"]] = E.I.alloc(st, v, p["n"]) if E.I.ty(p["t"]).get("ref") else v
            else:
                self.a[p["n"]] = E.operand(st, p["t"], p["n"])
        self.pre = st.copy()
        v, s = E.I.call_fn(st, f, None, list(self.a.values()))
        self.lv = v if E.I.islv(v) else None
        self.v = E.I.load(s, v) if E.I.islv(v) else v
        self.s = s

    def dims(self, n):
        return self.E.dims(self.pre, self.p[n]["t"], self.a[n])

    def el(self, n, i, j, rg, st=None):
        return self.E.elem(st or self.pre, self.p[n]["t"], self.a[n], i, j, rg)

    def kind(self, n):
        return self.E.kind(self.p[n]["t"])


def rtype(E, f):
    return f["ret"] if "ret" in f else f.get("rt")


OKOPS = KNOWN_M = None


def diff(E, got, want, what, extra=(), assume=()):
    """None when equal in every case, a message when they are known to
    differ, Undecided otherwise"""
    import chk_var
    got, want = canon(got), canon(want)
    if got is want:
        return None
    C = E.cases()
    C.eqrule = symb.equal
    if C.check(got, want, assume):
        return None
    if same_expanded(E, got, want):
        return None
    bad = sorted({x.op for x in TM.walk(got) if not known(x)} - set(extra))
    if bad:
        raise Undecided("%s contains %s: %s" % (what, ", ".join(bad), show(got)[:200]))
    return "%s is not the required one: %s" % (what, C.explain() or "%s instead of %s" % (show(got)[:300], show(want)[:200]))


def known(x):
    import chk_var
    return x.op in chk_var.KNOWN or x.op in ("sum", "bv", "len", "part:diagonal", "idiv", "imod", "dim", "dyn", "rows", "cols") or x.op.startswith(("fn:", "dim:")) or (x.op == "vcall" and x.a[0] == "type")


def expand(t, m, memo=None):
    """write out sums whose bounds are numbers after the substitution m"""
    t = canon(subst(t, m))
    memo = {}

    def go(x):
        r = memo.get(x)
        if r is not None:
            return r
        if not x.a or x.op in ("sym", "num", "phi", "bv"):
            r = x
        elif x.op == "rec":
            r = rec(x.a[0], {k: go(v) for k, v in x.a[1]})
        elif x.op == "sum" and len(x.a[0]) == 1 and isnum(x.a[0][0][1]) and isnum(x.a[0][0][2]):
            bv, lo, hi = x.a[0][0]
            r = ZERO
            for k in range(int(lo.a[0]), int(hi.a[0])):
                r = add(r, go(canon(subst(x.a[1], {bv: num(k)}))))
        else:
            args = tuple(gx(y) for y in x.a)
            r = x if args == x.a else carry(x, TM.rebuild(x.op, args))
        memo[x] = r
        return r

    def gx(y):
        if isinstance(y, T):
            return go(y)
        if isinstance(y, tuple):
            return tuple(gx(z) for z in y)
        return y
    return canon(go(t))


def bounds_syms(t):
    out = set()
    for x in TM.walk(t):
        if x.op == "sum":
            for bv, lo, hi in x.a[0]:
                for e in (lo, hi):
                    if not isnum(e):
                        out.add(e)
    return out


def same_expanded(E, got, want):
    """two sums over the same symbolic range: equal after reversing the order
    of one of them"""
    if got.op in ("add", "poly", "mul", "sum") and want.op == "sum":
        pass
    sums = [x for x in TM.walk(got) if x.op == "sum" and len(x.a[0]) == 1]
    for s in sums:
        bv, lo, hi = s.a[0][0]
        r = raw("sum", s.a[0], subst(s.a[1], {bv: sub(sub(add(lo, hi), ONE), bv)}))
        g = canon(subst(got, {s: r}))
        if g is want:
            return True
    return False


def elemop(name, x, y):
    return fspec({"add": "operator+", "sub": "operator-", "scale": "operator*", "div": "operator/", "addone": "operator+", "subone": "operator-"}[name], x, y)


def spec_result(X, name, kinds):
    """dimensions, index facts and element specification of op(a, b) ->
    (R, C, rg, want(i, j), dm)"""
    E = X.E
    i, j = sym("i"), sym("j")
    ka = X.kind("a")
    kb = X.kind("b") if "b" in X.p else None
    da = X.dims("a")
    db = X.dims("b") if kb else None
    dm = {}
    if name == "mmul":
        dm = eqd(db[0], da[1])
        R_, C_ = da[0], db[1]
    elif name == "inmmul":
        dm = eqd(db[0], da[1])
        dm.update(eqd(db[1], da[1]))
        R_, C_ = da
    elif name == "trans":
        C_, R_ = da
    elif name in ("add", "sub", "reduce", "inadd", "insub"):
        dm = eqd(db[0], da[0])
        dm.update(eqd(db[1], da[1]))
        R_, C_ = da
    else:
        R_, C_ = da if da else db
    R_, C_ = canon(subst(R_, dm)), canon(subst(C_, dm))
    pairs = [(i, R_), (j, C_)]
    for d in (da, db):
        if d:
            pairs += [(i, canon(subst(d[0], dm))), (j, canon(subst(d[1], dm)))] if name != "trans" else []
    if name == "inmmul":
        pairs += [(j, db[1])]
    rg = Ranges(*pairs)

    def el(n, r, c):
        return canon(subst(X.el(n, r, c, rg), dm))

    def want(i, j):
        if name in ("mmul", "inmmul"):
            k = raw("bv", "kk")
            n = canon(subst(da[1], dm))
            return raw("sum", ((k, ZERO, n),), mul(el("a", i, k), el("b", k, j)))
        if name == "trans":
            return el("a", j, i)
        if name == "neg":
            return neg(el("a", i, j))
        if name == "map":
            return raw("fn:sin", el("a", i, j))
        if name == "reduce":
            return fspec("atan2", el("a", i, j), el("b", i, j))
        n = name[2:] if name.startswith("in") else name
        return elemop(n, el("a", i, j), el("b", i, j))
    return R_, C_, rg, want, dm


def eqd(x, y):
    """substitution identifying two dimensions"""
    x, y = canon(x), canon(y)
    return {} if x is y or isnum(x) else {x: y}


def m02_value(n, E, f):
    X = Run(E, f)
    name = n.split("_")[0]
    R_, C_, rg, want, dm = spec_result(X, name, n.split("_")[1:])
    i, j = sym("i"), sym("j")
    r = matrix_is(E, f["rt"], X.v, R_, C_, rg, want, dm)
    return r or untouched(E, X.s, "the operation")


def matrix_is(E, tid, v, R_, C_, rg, want, dm={}, what="the result", st=None):
    i, j = sym("i"), sym("j")
    d = E.dims(st or State(), tid, v)
    for nm, got, w in (("row", d[0], R_), ("column", d[1], C_)):
        r = diff(E, canon(subst(got, dm)), w, "the %s count of %s" % (nm, what))
        if r:
            return r
    got = E.elem(st or State(), tid, v, i, j, rg)
    got = resolve(canon(subst(got, dm)), rg)
    pos = add(mul(C_, i), j)
    return diff(E, got, want(i, j), "element (i, j) of " + what, assume=[le(ZERO, i), lt(i, R_), le(ZERO, j), lt(j, C_), le(ZERO, pos), lt(pos, mul(R_, C_))])


def m02_scalar(n, E, f):
    X = Run(E, f)
    return diff(E, E.vval(X.v), X.el("a", ZERO, ZERO, Ranges()), "the scalar")




BF = "slp::VariableBlock::"


def matrec(v):
    return rec(VM, {VM + "::" + f: getf(v, VM + "::" + f) for f in ("m_storage", "m_rows", "m_cols")})


class InPlace(Run):
    """execution with the destination (and a view operand) backed by their own
    matrices"""

    def __init__(self, E, f, share=False):
        self.E, self.f = E, f
        st = State()
        self.p = {p["n"]: p for p in f["params"]}
        self.a = {}
        self.mats = {}
        for p in f["params"]:
            n = p["n"]
            if E.kind(p["t"]) == "B":
                mat = self.mats.get("a") if share and n != "a" else None
                mat = mat or E.I.alloc(st, matrec(sym(n + "m")), n + "m")
                self.mats[n] = mat
                v = setf(sym(n), BF + "m_mat", E.I.addr(mat))
                self.a[n] = E.I.alloc(st, v, n)
            elif E.kind(p["t"]) == "M":
                self.a[n] = self.mats[n] = E.I.alloc(st, matrec(sym(n)), n)
            else:
                self.a[n] = E.operand(st, p["t"], n)
        self.pre = st.copy()
        v, s = E.I.call_fn(st, f, None, list(self.a.values()))
        self.s = s
        self.v = E.I.load(s, v) if E.I.islv(v) else v
        self.lv = v


def m02_inplace(n, E, f):
    X = InPlace(E, f)
    name = n.split("_")[0]
    if name in ("inassign", "inassignmove", "inassignone"):
        one = name == "inassignone"
        da = X.dims("a")
        db = X.dims("b")
        R_, C_ = da
        dm = {}
        if not one:
            dm = eqd(db[0], da[0])
            dm.update(eqd(db[1], da[1]))
            if X.kind("a") == "M" and X.kind("b") in ("M", "B"):
                R_, C_ = db       # the destination takes the source's shape
                dm = {}
        i, j = sym("i"), sym("j")
        rg = Ranges((i, R_), (j, C_), *( [(i, db[0]), (j, db[1])] if db else []))
        if one:
            ii, jj = ZERO, ZERO
            want = lambda i, j: canon(X.el("b", ZERO, ZERO, rg))
            got = resolve(E.elem(X.s, X.p["a"]["t"], X.a["a"], ZERO, ZERO, rg), rg)
            return diff(E, got, want(i, j), "the element assigned")
        want = lambda i, j: canon(subst(X.el("b", i, j, rg), dm))
    else:
        R_, C_, rg, want, dm = spec_result(X, name, n.split("_")[1:])
        if name in ("inaddone", "insubone"):
            one = {R_: ONE, C_: ONE}
            dm.update(one)
            i, j = sym("i"), sym("j")
            dm.update({i: ZERO, j: ZERO})
            w0 = want
            want = lambda i, j: subst(w0(i, j), dm)
            R_, C_ = ONE, ONE
    r = matrix_is(E, X.p["a"]["t"], X.a["a"], R_, C_, rg, want, dm, "the left operand", X.s)
    return r or untouched(E, X.s, "the operation")


@check("M02", "Every element of the result (or of the left operand of an in-place form) is, as a term over the operands' elements, the mathematical definition of the operation, with symbolic dimensions; also when the right operand is the destination or one of its elements", expect=30, assumptions=['operand dimensions agree as asserted; real arithmetic'])
def m02(R):
    scenarios(R, "(mmul|add|sub|scale|div|neg|trans|map|reduce)_.*", m02_value)
    scenarios(R, "scalar_.*", m02_scalar)
    scenarios(R, "in(mmul|add|sub|scale|div|addone|subone)_.*", m02_inplace)
    scenarios(R, "self_(add|sub|mmul|scale|div|assign|assignmmul|assigntrans)_[MB]", m02_self)


def m02_self(n, E, f):
    X = InPlace(E, f)
    name = n.split("_")[1]
    i, j = sym("i"), sym("j")
    R_, C_ = X.dims("a")
    dm = {}
    if "mmul" in name or "trans" in name:
        dm = eqd(C_, R_)
    R1 = canon(subst(R_, dm))
    C1 = canon(subst(C_, dm))
    p, q = sym("p"), sym("q")
    rg = Ranges((i, R_), (j, C_), (i, R1), (j, C1), (p, R1), (q, C1), *([(j, R_), (i, C_)] if dm else []))

    def el(r, c):
        return canon(subst(X.el("a", r, c, rg), dm))

    def want(i, j):
        if "mmul" in name:
            k = raw("bv", "kk")
            return raw("sum", ((k, ZERO, R1),), mul(el(i, k), el(k, j)))
        if "trans" in name:
            return el(j, i)
        if name == "assign":
            return el(i, j)
        return elemop(name, el(i, j), el(p, q) if "p" in X.p else el(i, j))
    r = matrix_is(E, X.p["a"]["t"], X.a["a"], R1, C1, rg, want, dm, "the left operand", X.s)
    return r or untouched(E, X.s, "the operation")


INT_MAX = num(2147483647)


def le(a, b):
    return cmp("ile", a, b)


def lt(a, b):
    return cmp("ilt", a, b)


def pyslice(start, stop, step, n):
    """Python's rule for a sequence of length n; None = omitted -> (count,
    first)"""
    down = lt(step, ZERO)
    lo, hi = ite(down, num(-1), ZERO), ite(down, sub(n, ONE), n)

    def clamp(x):
        y = ite(lt(x, ZERO), add(x, n), x)
        return ite(lt(y, lo), lo, ite(lt(hi, y), hi, y))
    a = ite(down, hi, lo) if start is None else clamp(start)
    b = ite(down, lo, hi) if stop is None else clamp(stop)
    cnt = ite(down, ite(lt(b, a), add(idiv(sub(sub(a, b), ONE), neg(step)), ONE), ZERO), ite(lt(a, b), add(idiv(sub(sub(b, a), ONE), step), ONE), ZERO))
    return cnt, a


def m04_rule(n, E, f):
    X = Run(E, f)
    k = n.split("_")[1]
    N = sym("n")
    a, b, c = [sym(x) if x in X.p else None for x in "abc"]
    as_ = [le(ZERO, N), le(N, INT_MAX)]
    for x in (a, b, c):
        if x is not None:
            as_ += [le(x, INT_MAX), lt(num(-2147483648), x)]
    if c is not None:
        as_.append(Not(cmp("ieq", c, ZERO)))
    g = lambda fld: [x for q, x in X.v.a[1] if q.endswith("::" + fld)][0]
    if k == "one":
        inr = And(le(neg(N), a), lt(a, N))
        r = diff(E, g("count"), ite(inr, ONE, ZERO), "the number of elements selected by a single index", assume=as_)
        return r or diff(E, ite(inr, g("start"), ZERO), ite(inr, ite(lt(a, ZERO), add(a, N), a), ZERO), "the element selected by a single index", assume=as_)
    step = c if c is not None else ONE
    cnt, first = pyslice(a, b, step, N)
    r = diff(E, g("count"), cnt, "the number of elements selected", assume=as_)
    if r:
        return r
    some = lt(ZERO, cnt)
    return diff(E, ite(some, g("start"), ZERO), ite(some, first, ZERO), "the first element selected", assume=as_) or diff(E, g("step"), step, "the step", assume=as_)


def m04_min(n, E, f):
    """the most negative step must not survive construction (its negation
    overflows)"""
    X = Run(E, f, {"c": num(-2147483648)})
    st = [x for q, x in X.v.a[1] if q.endswith("::step")][0]
    N = sym("n")
    return diff(E, cmp("ilt", num(-2147483648), st), TRUE, "that the step can be negated")


@check("M04", "Count, first element and step computed from Slice for every combination of given and omitted arguments equal Python's slice.indices rule for all integers (case analysis over their ordering)", expect=6, assumptions=['nonzero step; lengths are nonnegative ints; no int overflow except the handled INT_MIN step'])
def m04(R):
    scenarios(R, "pys_.*", m04_rule)
    scenarios(R, "pys_(iii|nii|ini|nni)", m04_min)


# ------------------------------------------------------------------ views

class View(InPlace):
    """views are made over matrices of their own"""


def nonneg(*xs):
    return [le(ZERO, x) for x in xs]


def parent_cell(X, n, i, j):
    """the parent's element at (i, j): its storage cell"""
    return X.E.cell(X.pre, X.p[n]["t"], X.a[n], i, j)


def m01_view(n, E, f):
    X = InPlace(E, f)
    what = n.split("_")[1]
    m = "m"
    D_ = X.dims(m)
    P = {x: sym(x) for x in X.p}
    i, j = sym("i"), sym("j")
    as_ = nonneg(*D_) + [le(D_[0], INT_MAX), le(D_[1], INT_MAX)]
    r0, c0, dr, dc = ZERO, ZERO, ONE, ONE
    R_, C_ = D_
    if what in ("block", "ctor"):
        r0, c0, R_, C_ = P["r"], P["c"], P["nr"], P["nc"]
        as_ += nonneg(r0, c0, R_, C_) + [le(add(r0, R_), D_[0]), le(add(c0, C_), D_[1])]
    elif what == "segment":
        r0, R_, C_ = P["r"], P["nr"], ONE
        as_ += nonneg(r0, R_) + [lt(r0, D_[0]), le(add(r0, R_), D_[0]), cmp("ieq", D_[1], ONE)]
    elif what == "row":
        r0, R_ = P["r"], ONE
        as_ += nonneg(r0) + [lt(r0, D_[0])]
    elif what == "col":
        c0, C_ = P["c"], ONE
        as_ += nonneg(c0) + [lt(c0, D_[1])]
    elif what in ("slice", "lslice"):
        F = lambda z, q: getf(P[z], "slp::Slice::" + q)
        for z in "rc":
            as_ += [Not(cmp("ieq", F(z, "step"), ZERO))] + [lt(num(-2147483648), F(z, q)) for q in ("step",)]
        dr, dc = F("r", "step"), F("c", "step")
        if what == "lslice":
            r0, c0, R_, C_ = F("r", "start"), F("c", "start"), P["nr"], P["nc"]
        else:
            R_, r0 = pyslice(F("r", "start"), F("r", "stop"), dr, D_[0])
            C_, c0 = pyslice(F("c", "start"), F("c", "stop"), dc, D_[1])
    st = X.s
    v = X.lv if X.lv is not None and E.I.islv(X.lv) else X.v
    pm = pview(X, m)
    if pm:
        # the view a view is made from has usable steps
        for x in pm[3:5]:
            as_ += [lt(num(-2147483648), x), Not(cmp("ieq", x, ZERO))]
        # nor does the product of two steps overflow
        as_ += [lt(num(-2147483648), mul(pm[3], dr)), lt(num(-2147483648), mul(pm[4], dc))]
    d = E.dims(st, f["rt"], v)
    got = fields(E, X.v)
    emp = what == "slice"
    if got is None or not pm:
        raise Undecided("the view's representation is not the known one")
    if got[0] is not pm[0]:
        return "the view is of another matrix than its parent's"
    N = sym("none")
    for ax, nm, k, D, w, o, stp in ((0, "row", i, R_, R_, r0, dr), (1, "column", j, C_, C_, c0, dc)):
        r = diff(E, d[ax], w, "the %s count of the view" % nm, assume=as_)
        if r:
            return r
        some = And(lt(ZERO, w), le(ZERO, k), lt(k, w)) if emp else TRUE
        idx = add(got[1 + ax], mul(got[3 + ax], k))
        want = add(pm[1 + ax], mul(pm[3 + ax], add(o, mul(stp, k))))
        # a factor common to both sides (the parent's step) is taken out
        r = diff(E, ite(some, idx, N), ite(some, want, N), "the parent's %s at the view's position" % nm, assume=as_)
        if r:
            return r
    return m01_unchanged(X)


def fields(E, v):
    """(matrix, row start, column start, row step, column step) of a view"""
    try:
        sl = "slp::Slice::"
        r, c = getf(v, BF + "m_row_slice"), getf(v, BF + "m_col_slice")
        return (getf(v, BF + "m_mat"), getf(r, sl + "start"), getf(c, sl + "start"), getf(r, sl + "step"), getf(c, sl + "step"))
    except KeyError:
        return None


def pview(X, n):
    if X.kind(n) == "M":
        return (X.E.I.addr(X.a[n]), ZERO, ZERO, ONE, ONE)
    return fields(X.E, X.E.I.load(X.pre, X.a[n]))


def m01_unchanged(X):
    for n, mat in X.mats.items():
        if X.E.I.load(X.s, mat) is not X.E.I.load(X.pre, mat):
            return "making a view writes its parent"
    return untouched(X.E, X.s, "making a view")


def m01_at(n, E, f):
    X = InPlace(E, f)
    D_ = X.dims("m")
    i, j = sym("i"), sym("j")
    rg = Ranges((i, D_[0]), (j, D_[1]))
    v = X.v
    if n.startswith("at1"):
        k = sym("k")
        pos = canon(add(mul(D_[1], k), j))
        rg = Ranges((k, D_[0]), (j, D_[1]))
        v = resolve(canon(subst(v, {i: pos})), rg)
        i = k
    want = matcell(X, "m", i, j)
    return diff(E, resolve(v, rg), want, "the element at (%s)" % ("row-major position" if n.startswith("at1") else "row, column"))


def matcell(X, n, i, j):
    """specification of element (i, j): storage of the viewed matrix"""
    k = tname(X.E.u, X.p[n]["t"]).rstrip("&")
    P = VM + "::"
    if X.E.kind(X.p[n]["t"]) == "B":
        v = X.E.I.load(X.pre, X.a[n])
        g = lambda s, q: getf(getf(v, BF + s), "slp::Slice::" + q)
        m = X.E.I.load(X.pre, X.mats[n])
        i, j = add(g("m_row_slice", "start"), mul(g("m_row_slice", "step"), i)), add(g("m_col_slice", "start"), mul(g("m_col_slice", "step"), j))
    else:
        m = X.E.I.load(X.pre, X.a[n])
    return sel(getf(m, P + "m_storage"), add(mul(getf(m, P + "m_cols"), i), j))


def m01_size(n, E, f):
    X = InPlace(E, f)
    d = X.dims("m")
    if X.kind("m") == "M":
        m = E.I.load(X.pre, X.a["m"])
        return diff(E, X.v, length(getf(m, VM + "::m_storage")), "size()")
    return diff(E, X.v, mul(d[0], d[1]), "size()")


@check("M01", 'The view (or element) each indexing call yields, computed from the source for symbolic parents, offsets, extents and steps, has the documented extents and addresses parent(r0 + dr*i, c0 + dc*j) on each axis; element access of matrices and views addresses row-major storage', expect=15, assumptions=['parents of views have a nonzero step above INT_MIN, and the product of two steps is above it too; documented preconditions (offsets and extents inside the parent)'])
def m01(R):
    scenarios(R, "at[12]_.*", m01_at)
    scenarios(R, "view_.*", m01_view)
    scenarios(R, "size_.*", m01_size)


# --------------------------------------------------- construction, writes

def m03_make(n, E, f):
    what = n.split("_")[1]
    if what in ("ilist",):
        X = Run(E, f)
        st = X.s
        for r in range(2):
            for c in range(3):
                got = E.elem(st, f["rt"], X.v, num(r), num(c), Ranges())
                w = X.el("abcdef"[3 * r + c], ZERO, ZERO, Ranges())
                x = diff(E, got, w, "element (%d, %d)" % (r, c))
                if x:
                    return x
        d = E.dims(st, f["rt"], X.v)
        return diff(E, d[0], num(2), "the row count") or diff(E, d[1], num(3), "the column count")
    X = InPlace(E, f)
    i, j = sym("i"), sym("j")
    dm = {}
    if what in ("M", "B", "C", "D", "mM"):
        R_, C_ = X.dims("a")
        rg = Ranges((i, R_), (j, C_))
        want = lambda i, j: X.el("a", i, j, rg)
    elif what in ("V", "mV"):
        R_, C_ = ONE, ONE
        rg = Ranges((i, ONE), (j, ONE))
        dm = {i: ZERO, j: ZERO}
        want = lambda i, j: X.el("a", ZERO, ZERO, rg)
    elif what in ("span", "spanrc"):
        a = E.I.load(X.pre, X.a["a"]) if E.I.islv(X.a["a"]) else X.a["a"]
        L = length(a)
        if what == "span":
            R_, C_ = L, ONE
            dm = {j: ZERO}
        else:
            R_, C_ = sym("rows"), sym("cols")
            dm = {canon(L): mul(R_, C_)}
        rg = Ranges((i, R_), (j, C_))
        want = lambda i, j: canon(subst(E.vval(sel(a, add(mul(C_, i), j))), dm))
    elif what in ("vvV", "vvS"):
        a = E.I.load(X.pre, X.a["a"])
        # all rows have the length of the first (asserted by the constructor)
        R_, C_ = length(a), sym("w")
        dm = {canon(ite(lt(ZERO, length(a)), length(sel(a, ZERO)), ZERO)): C_}
        rg = Ranges((i, R_), (j, C_))
        rg.flat = C_
        want = lambda i, j: (E.vval if what == "vvV" else (lambda x: x))(sel(sel(a, i), j))
    elif what == "diag":
        a = E.I.load(X.pre, X.a["a"])
        R_, C_ = LM.dim(E.I, "rows", a), LM.dim(E.I, "cols", a)
        rg = Ranges((i, R_), (j, C_))
        want = lambda i, j: ite(cmp("ieq", i, j), sel(raw("part:diagonal", a), i), ZERO)
    elif what in ("rc", "r"):
        R_, C_ = sym("rows"), sym("cols") if what == "rc" else ONE
        if what == "r":
            dm = {j: ZERO}
        rg = Ranges((i, R_), (j, C_))
        want = lambda i, j: ZERO
    v = canon(subst(X.v, dm)) if what in ("vvV", "vvS") else X.v
    r = matrix_is(E, f["rt"], v, R_, C_, rg, want, dm)
    return r or untouched(E, X.s, "construction")


def same_cell(E, got, want, what):
    return diff(E, got, want, what)


def m03_keep(n, E, f):
    """writing a copy leaves the source alone"""
    X = InPlace(E, f)
    r, c, p, q = (sym(x) for x in "rcpq")
    D_ = X.dims("m")
    rg = Ranges((r, D_[0]), (c, D_[1]), (p, D_[0]), (q, D_[1]))
    want = matcell(X, "m", r, c)
    return diff(E, resolve(X.v, rg), want, "the source's element after the copy was written")


def m03_seen(n, E, f):
    """a view and its parent are the same elements"""
    X = InPlace(E, f)
    p, q = sym("p"), sym("q")
    D_ = X.dims("m")
    as_ = nonneg(p, q) + [lt(p, D_[0]), lt(q, D_[1]), le(D_[0], INT_MAX), le(D_[1], INT_MAX)]
    rg = Ranges((p, D_[0]), (q, D_[1]))
    want = E.I.load(X.pre, X.a["v"])
    return diff(E, resolve(X.v, rg), want, "the element read after the write through the other name", assume=as_)


def writes(c, out=None, g=TRUE):
    """base container and the list of (binders, index, value, guard) written to
    it, oldest first"""
    out = []
    while True:
        if c.op == "forupd" and len(c.a[2]) == 1:
            base, bs, idx, val, g = c.a
            out.append((bs, idx[0], val, g))
            c = base
        elif c.op == "upd" and len(c.a) == 3:
            out.append(((), c.a[1], c.a[2], TRUE))
            c = c.a[0]
        else:
            return c, out[::-1]


def storage_of(X, mat):
    return getf(X.E.I.load(X.s, mat), VM + "::m_storage")


def m03_put(n, E, f):
    """an assignment through a view writes position (x, y) of the view for
    every x, y inside it and nothing else of the parent"""
    valuehooks(E)
    X = InPlace(E, f)
    what = n.split("_")[1]
    m = "a" if "a" in X.p else "m"
    mat = X.mats[m]
    v0 = E.I.load(X.pre, mat)
    v1 = E.I.load(X.s, mat)
    for fld in ("m_rows", "m_cols"):
        if getf(v0, VM + "::" + fld) is not getf(v1, VM + "::" + fld):
            return "the parent's dimensions change"
    W = getf(v0, VM + "::m_cols")
    base, ws = writes(getf(v1, VM + "::m_storage"))
    if base is not getf(v0, VM + "::m_storage"):
        raise Undecided("the parent's storage is rebuilt: " + show(base)[:120])
    P = {x: sym(x) for x in X.p}
    D_ = X.dims(m)
    b = E.I.load(X.pre, X.a["b"]) if E.I.islv(X.a["b"]) else X.a["b"]
    pv = pview(X, m) or (None, ZERO, ZERO, ONE, ONE)
    as_ = nonneg(*D_) + [le(D_[0], INT_MAX), le(D_[1], INT_MAX)]
    r0, c0 = P.get("r", ZERO), P.get("c", ZERO)
    one = X.kind("b") in ("V", "S")
    num_ = X.kind("b") in ("S", "D")
    if one:
        nr, nc = ONE, ONE
        as_ += nonneg(r0, c0) + [lt(r0, D_[0]), lt(c0, D_[1])]
    else:
        nr, nc = X.dims("b")
        if what == "row":
            c0 = ZERO
            as_ += [lt(r0, D_[0]), cmp("ieq", nr, ONE), cmp("ieq", nc, D_[1])]
        elif what == "col":
            r0 = ZERO
            as_ += [lt(c0, D_[1]), cmp("ieq", nc, ONE), cmp("ieq", nr, D_[0])]
        elif what in ("valM", "valB"):
            as_ += [cmp("ieq", nr, D_[0]), cmp("ieq", nc, D_[1])]
        elif what == "block":
            as_ += [le(add(r0, nr), D_[0]), le(add(c0, nc), D_[1])]
        as_ += nonneg(r0, c0, nr, nc)
    addr = lambda x, y: add(mul(W, add(pv[1], mul(pv[3], add(r0, x)))), add(pv[2], mul(pv[4], add(c0, y))))
    if len(ws) != 1:
        raise Undecided("%d writes" % len(ws))
    bs, idx, val, g = ws[0]
    if canon(g) is not TRUE:
        raise Undecided("guarded write " + show(g)[:80])
    el0 = lambda x, y: (b if one else E.cell(X.pre, X.p["b"]["t"], X.a["b"], x, y))
    el = lambda x, y: (raw("valued", el0(x, y)) if num_ else el0(x, y))
    if not bs:
        if not (nr is ONE and nc is ONE):
            return "only one element is written"
        return diff(E, idx, addr(ZERO, ZERO), "the position written", assume=as_) or diff(E, val, el(ZERO, ZERO), "the value written", extra=("valued",), assume=as_)
    if len(bs) != 2:
        raise Undecided("%d nested loops" % len(bs))
    # which loop runs over rows: either nesting order is fine
    for x, y in ((bs[0], bs[1]), (bs[1], bs[0])):
        inner = as_ + [le(x[1], x[0]), lt(x[0], x[2]), le(y[1], y[0]), lt(y[0], y[2])]
        xs, ys = sym("x"), sym("y")
        mm = {x[0]: xs, y[0]: ys}
        inner = [subst(z, mm) for z in inner]
        r = None
        for got, w, nm in ((x[1], ZERO, "first row"), (x[2], nr, "row count"), (y[1], ZERO, "first column"), (y[2], nc, "column count")):
            r = r or diff(E, canon(got), w, "the %s written" % nm, assume=as_)
        r = r or diff(E, subst(idx, mm), addr(xs, ys), "the position written for element (x, y)", assume=inner)
        r = r or diff(E, subst(val, mm), el(xs, ys), "the value written at (x, y)", extra=("valued",), assume=inner)
        if r is None:
            return None
        first = r if x is bs[0] else first
    return first


def read_value(I, st, fr, e, f):
    o = I.ev(st, fr, e["obj"])
    return raw("valueof", I.load(st, o) if I.islv(o) else o)


def write_value(I, st, fr, e, f):
    x = I.val(st, fr, e["a"][0])
    I.store(st, I.ev(st, fr, e["obj"]), raw("valued", x))
    return __import__("sem").UNIT


def valuehooks(E):
    for q in ("slp::Variable", "slp::Variable<double>"):
        E.I.hooks[q + "::value"] = read_value
        E.I.hooks[q + "::set_value"] = write_value


def m03_values(n, E, f):
    """value() of a container reads the element value(i, j) addresses"""
    valuehooks(E)
    X = InPlace(E, f)
    D_ = X.dims("m")
    i, j = sym("i"), sym("j")
    rg = Ranges((i, D_[0]), (j, D_[1]))
    as_ = [le(ZERO, i), lt(i, D_[0]), le(ZERO, j), lt(j, D_[1])]
    v = X.v
    what = n.split("_")[0]
    if what == "vals":
        for nm, k, w in (("row", "rows", D_[0]), ("column", "cols", D_[1])):
            r = diff(E, LM.dim(E.I, k, v), w, "the %s count of the values" % nm)
            if r:
                return r
        v = E.I.sel_(v, i, j) if hasattr(E.I, "sel_") else sel(v, i, j)
    if what == "valat1":
        v = canon(subst(v, {i: canon(add(mul(D_[1], i), j))}))
    return diff(E, resolve(v, rg), raw("valueof", matcell(X, "m", i, j)), "the value read at (row, column)", extra=("valueof",), assume=as_)


def m03_part(n, E, f):
    """one part of a 3x3 matrix becomes another part of it"""
    I = E.I
    I.unrollmax = 16
    st = State()
    names = [[sym("x%d%d" % (r, c)) for c in range(3)] for r in range(3)]
    v = rec(VM, {VM + "::m_rows": num(3), VM + "::m_cols": num(3), VM + "::m_storage": raw("list", *[x for r in names for x in r])})
    m = I.alloc(st, v, "m")
    _, s = I.call_fn(st, f, None, [m])
    B_ = {"rows": ((0, 0), (2, 0), 1, 3), "rowsup": ((2, 0), (1, 0), 1, 3), "cols": ((0, 0), (0, 1), 3, 1), "colsdown": ((0, 2), (0, 0), 3, 1), "blocks": ((0, 0), (2, 1), 1, 2), "samerow": ((1, 0), (1, 2), 1, 1), "samecol": ((0, 1), (2, 1), 1, 1)}
    (r1, c1), (r2, c2), h, w = B_[n.split("_")[1]]
    ms = getf(I.load(s, m), VM + "::m_storage")
    for r in range(3):
        for c in range(3):
            want = names[r][c]
            if r1 <= r < r1 + h and c1 <= c < c1 + w:
                want = names[r - r1 + r2][c - c1 + c2]
            got = canon(sel(ms, num(3 * r + c)))
            if got is want:
                continue
            if got.op == "sym":
                return "element (%d, %d) becomes %s, not %s" % (r, c, show(got), show(want))
            x = diff(E, got, want, "element (%d, %d)" % (r, c))
            if x:
                return x


@check("M03", "Constructed containers hold the source's elements in row-major order; writing a copy leaves the source unchanged; a view and its parent read each other's writes; an assignment through a view writes exactly the addresses of the view's elements", expect=8, assumptions=['nested lists are rectangular as asserted'])
def m03(R):
    scenarios(R, "make_.*", m03_make)
    scenarios(R, "inassign.*", m02_inplace)
    scenarios(R, "keep_.*", m03_keep)
    scenarios(R, "seen_.*", m03_seen)
    scenarios(R, "put_.*", m03_put)
    scenarios(R, "part_.*", m03_part)
    scenarios(R, "val(s|at1|at2)_[MB]", m03_values)


# ------------------------------------------------------- builders, iterators

def m06_build(n, E, f):
    X = Run(E, f)
    what = n.split("_")[1]
    i, j = sym("i"), sym("j")
    R_ = sym("rows")
    C_ = R_ if what == "identity" else sym("cols")
    rg = Ranges((i, R_), (j, C_))
    want = {"identity": lambda i, j: ite(cmp("ieq", i, j), ONE, ZERO), "zero": lambda i, j: ZERO, "one": lambda i, j: ONE, "constant": lambda i, j: sym("c")}[what]
    return matrix_is(E, f["rt"], X.v, R_, C_, rg, want) or untouched(E, X.s, "the builder")


def m06_cat(n, E, f, shape=None):
    """block concatenation of 2x2, 1x3 and 3x1 lists: every block's element
    lands at the sum of the preceding heights and widths"""
    what = n.split("_")[1]
    lay = {"22": [["a", "b"], ["c", "d"]], "13": [["a", "b", "c"]], "31": [["a"], ["b"], ["c"]], "33": [list("abc"), list("def"), list("ghk")]}
    if what == "vec" and shape is None:
        # list values of known shapes
        for z in lay:
            e = m06_cat(n, MX(E.u), f, z)
            if e:
                return "for a list of shape %s, %s" % (z, e)
        return None
    if what == "vec":
        rows = lay[shape]
        lv = raw("list", *[raw("list", *[matrec(sym(x)) for x in r]) for r in rows])
        X = Run(E, f, {"l": lv})
        blk = {x: matrec(sym(x)) for r in rows for x in r}
    else:
        rows = lay[what]
        args = {x: matrec(sym(x)) for r in rows for x in r}
        X = Run(E, f, args)
        blk = args
    P = VM + "::"
    ren, as_ = {}, []
    H = [sym("H%d" % k) for k in range(len(rows))]
    W = [sym("W%d" % k) for k in range(len(rows[0]))]
    for r, row in enumerate(rows):
        for c, x in enumerate(row):
            ren[canon(getf(blk[x], P + "m_rows"))] = H[r]
            ren[canon(getf(blk[x], P + "m_cols"))] = W[c]
    as_ = nonneg(*H, *W)
    go = lambda t: canon(subst(t, ren))
    tot = lambda l: add(*l) if len(l) == 2 else (l[0] if len(l) == 1 else add(add(l[0], l[1]), l[2]))
    TR, TC = canon(tot(H)), canon(tot(W))
    d = E.dims(X.s, f["rt"], X.v)
    e = diff(E, go(d[0]), TR, "the row count") or diff(E, go(d[1]), TC, "the column count")
    if e:
        return e
    # writes of the result's storage, in order
    base, ws = writes(go(getf(X.v, P + "m_storage")))
    i, j = sym("i"), sym("j")
    exp = []
    for r, row in enumerate(rows):
        for c, x in enumerate(row):
            exp.append((r, c, x))
    if len(ws) != len(exp):
        raise Undecided("%d writes for %d blocks" % (len(ws), len(exp)))
    for (bs, idx, val, g), (r, c, x) in zip(ws, exp):
        r0 = tot(H[:r]) if r else ZERO
        c0 = tot(W[:c]) if c else ZERO
        addr = lambda y, z: add(mul(TC, add(r0, y)), add(c0, z))
        if canon(g) is not TRUE or len(bs) != 2:
            raise Undecided("write of block %s has %d loops" % (x, len(bs)))
        err = None
        for u, v in ((bs[0], bs[1]), (bs[1], bs[0])):
            mm = {u[0]: i, v[0]: j}
            inr = as_ + [le(ZERO, i), lt(i, H[r]), le(ZERO, j), lt(j, W[c])]
            e = None
            for got, w, nm in ((u[1], ZERO, "first row"), (u[2], H[r], "height"), (v[1], ZERO, "first column"), (v[2], W[c], "width")):
                e = e or diff(E, got, w, "the %s of block %s" % (nm, x), assume=as_)
            e = e or diff(E, subst(idx, mm), addr(i, j), "the position of element (i, j) of block %s" % x, assume=inr)
            e = e or diff(E, subst(val, mm), sel(getf(blk[x], P + "m_storage"), add(mul(W[c], i), j)), "element (i, j) of block %s" % x, assume=inr)
            err = err or e
            if e is None:
                err = None
                break
        if err:
            return err
    return untouched(E, X.s, "block()")


def m06_iter(n, E, f):
    X = InPlace(E, f)
    what = n.split("_")[1]
    R_, C_ = X.dims("m")
    i, j, N = sym("i"), sym("j"), sym("n")
    dm = {}
    if X.kind("m") == "M":
        m = E.I.load(X.pre, X.a["m"])
        dm[canon(length(getf(m, VM + "::m_storage")))] = mul(R_, C_)
    tot = canon(mul(R_, C_))
    if what in ("eq", "ceq", "neq"):
        w = cmp("ieq", N, tot)
        return diff(E, canon(subst(X.v, dm)), Not(w) if what == "neq" else w, "the comparison with the end after n steps")
    pos = add(mul(C_, i), j)
    if what in ("end", "postend", "cend", "rbegin", "crbegin"):
        pos = sub(sub(tot, ONE), pos)
    rg = Ranges((i, R_), (j, C_))
    dm[N] = pos
    got = X.v
    got = resolve(canon(subst(got, dm)), rg)
    return diff(E, got, matcell(X, "m", i, j), "the element at row-major position i*cols + j")


@check("M06", 'Builders and block concatenation of symbolic-size blocks write every element to the documented position; after n steps iterators refer to row-major element n (or its mirror) and compare equal to the end exactly after rows*cols steps', expect=20, assumptions=['block lists of shapes 2x2, 1x3 and 3x1; nonnegative block sizes'])
def m06(R):
    scenarios(R, "build_.*", m06_build)
    scenarios(R, "cat_.*", m06_cat)
    scenarios(R, "it_.*", m06_iter)


# ------------------------------------------------------------------ solve

def m05_solve(E, f, n, p):
    """A (n x n) and B (n x p) of arbitrary variables: A X - B vanishes
    identically"""
    E0, E = E, MX(E.u)
    E.I.unrollmax = 16
    E.I.inlined = E0.I.inlined
    P = VM + "::"
    mk = lambda nm, r, c: rec(VM, {P + "m_storage": raw("list", *[sym("%s%d%d" % (nm, i, j)) for i in range(r) for j in range(c)]), P + "m_rows": num(r), P + "m_cols": num(c)})
    A, B = mk("a", n, n), mk("b", n, p)
    X = Run(E, f, {"a": A, "b": B})
    d = E.dims(X.s, f["rt"], X.v)
    r = diff(E, d[0], num(n), "the row count of the solution") or diff(E, d[1], num(p), "the column count of the solution")
    if r:
        return r
    ren = {}
    for nm, c in (("a", n), ("b", p)):
        for i in range(n):
            for j in range(c):
                ren[canon(E.vval(sym("%s%d%d" % (nm, i, j))))] = sym("%s[%d,%d]" % (nm.upper(), i, j))
    val = lambda nm, i, j: sym("%s[%d,%d]" % (nm, i, j))
    det = poly(leibniz([[val("A", i, j) for j in range(n)] for i in range(n)]))
    for j in range(p):
        x = []
        for i in range(n):
            t = canon(subst(canon(E.elem(X.s, f["rt"], X.v, num(i), num(j), Ranges())), ren))
            bad = sorted({y.op for y in TM.walk(t) if not known(y)} - {"dyn"})
            if bad:
                raise Undecided("the solution contains %s: %s" % (", ".join(bad), show(t)[:200]))
            x.append(t)
        for i in range(n):
            t = neg(val("B", i, j))
            for k in range(n):
                t = add(t, mul(val("A", i, k), x[k]))
            e = ratzero(t, det)
            if e:
                return "row %d, column %d of A X - B: %s" % (i, j, e)
    return untouched(E, X.s, "solve()")


def leibniz(m):
    import itertools
    n = len(m)
    t = ZERO
    for p in itertools.permutations(range(n)):
        s = 1
        for i in range(n):
            for j in range(i):
                s = -s if p[j] > p[i] else s
        x = num(s)
        for i in range(n):
            x = mul(x, m[i][p[i]])
        t = add(t, x)
    return t


def ratzero(t, det):
    """None when t = 0 wherever det != 0; t may divide only by multiples of
    powers of det"""
    from fractions import Fraction
    p = poly(canon(t))
    terms = []
    top = 0
    for (m, w), c in p.items():
        k = 0
        num_ = {((), ()): c}
        for a, e in m:
            if e > 0:
                num_ = TM.pmul(num_, {(((a, e),), ()): Fraction(1)})
                continue
            q = poly(a)
            for _ in range(-e):
                f, d = power_of(q, det)
                if f is None:
                    return "it divides by %s, which can be zero although the determinant is not" % show(frompoly(q))[:300]
                num_ = {kk: v / f for kk, v in num_.items()}
                k += d
        top = max(top, k)
        terms.append((num_, k))
    tot = {}
    for q, k in terms:
        for _ in range(top - k):
            q = TM.pmul(q, det)
        tot = padd(tot, q)
    tot = {k: v for k, v in tot.items() if v}
    if tot:
        return "%s over the determinant" % show(frompoly(tot))[:300]
    return None


def power_of(q, det):
    """(c, k) with q = c det^k"""
    deg = lambda p: max((sum(e for _, e in m[0]) for m in p), default=0)
    d = {((), ()): 1}
    for k in range(0, 4):
        if set(d) == set(q):
            m = next(iter(q))
            c = q[m] / d[m]
            if all(q[x] == c * d[x] for x in q):
                return c, k
        # higher powers of the determinant have a higher degree than q
        if deg(d) + deg(det) > deg(q):
            break
        d = TM.pmul(d, det)
    return None, 0


@check("M05", "For 1x1 to 4x4 coefficient matrices of independent symbols and 1 to 3 right-hand sides, A X - B reduces to zero as a rational function whose only denominators are powers of the determinant; the result has the right-hand side's columns", expect=4, assumptions=["larger systems go to Eigen's QR, whose body is outside the repository"])
def m05(R):
    u, fs = fns(R)
    f = fs.get("solve_M_M")
    if f is None:
        R.undecided("solve", "engine/tu/mclient.cpp", "does not compile")
        return
    loc = [g for g in u.fns.values() if g["q"].startswith("slp::solve") and g.get("body")]
    E = MX(u)
    where = u.loc(loc[0]) if loc else u.loc(f)
    for n in (1, 2, 3, 4):
        for p in (1, 2, 3) if n < 4 else (1, 2):
            R.check("solve %dx%d, %d right-hand sides" % (n, n, p), where, lambda n=n, p=p: m05_solve(E, f, n, p))
    R.saw(u, E.I.inlined)
