"""Values denoted by variables, matrices and views: shared by the checks."""
from chk_expr import Ex, fspec, builders, UN
from frame import Broken
from sem import *
from term import *
import term as TM
from decide import Cases, Undecided, canon
import libmodel as LM
import symb

VAR = "slp::Variable"
EXPRF = "slp::Variable::expr"
VALF = "slp::detail::Expression::val"


def tname(u, tid):
    s = u.ts(tid).replace("const ", "").replace("slp::", "").replace(" ", "")
    for a, b in (("Eigen::Matrix<double,-1,-1,0,-1,-1>", "MatrixXd"), ("Eigen::Matrix<double,-1,1,0,-1,1>", "VectorXd"), ("VariableBlock<VariableMatrix<double>>", "Block"), ("VariableMatrix<double>", "Matrix"), ("Variable<double>", "Variable")):
        s = s.replace(a, b)
    if "const VariableMatrix" in u.ts(tid) and "Block" in s:
        s = s.replace("Block", "CBlock")
    return s


class VX(Ex):
    """node-building functions are kept opaque ("bld:<name>"); their meaning is
    property A02"""

    def __init__(self, u, builders_opaque=True):
        super().__init__(u)
        self.bfn = {f["id"]: (f["n"], k) for f, k in builders(u)} if builders_opaque else {}
        for i, (n, k) in list(self.bfn.items()):
            try:
                fspec(n, *( [ZERO, ZERO] if k == 2 else [ZERO, None]))
            except KeyError:
                del self.bfn[i]
        self.I.opaque = self.opaque
        self.I.hooks["slp::detail::topological_sort"] = self.h_tsort
        self.I.hooks["slp::detail::update_values"] = self.h_update
        self.folds = {}

    def opaque(self, f, av):
        b = self.bfn.get(f.get("id"))
        if b is None:
            return None
        n, k = b

        def o(I, st, fr, e, f, obj, av):
            vs = [I.load(st, a) if I.islv(a) else a for a in av]
            return raw("bld", n, *vs)
        return o

    def h_tsort(self, I, st, fr, e, f):
        p = I.val(st, fr, e["a"][0])
        return raw("tsort", p)

    def h_update(self, I, st, fr, e, f):
        g = I.val(st, fr, e["a"][0])
        h = st.store.get(("H", VALF), raw("heap", VALF))
        st.store[("H", VALF)] = raw("uph", h, g)
        st.ev = st.ev + ((TRUE, "update", g),)
        return UNIT

    def dyn(self, p):
        if p.op == "bld":
            n, k = p.a[0], p.a[1:]
            vs = [self.dyn(x) for x in k]
            return fspec(n, vs[0], vs[1] if len(vs) > 1 else None)
        if p.op == "fold":
            return self.dynfold(p)
        if p.op == "phi" or p.op == "bv":
            return raw("dynphi", p)
        if p.op == "fld" and p.a[0] == EXPRF and p.a[1].op in ("fold",):
            raise Undecided("fold of records")
        return super().dyn(p)

    def dynfold(self, p):
        """fold over node pointers: accumulate the denoted values"""
        r = self.folds.get(p)
        if r is not None:
            return r
        bs, ph, i0, n = p.a
        d = self.dyn(n)
        me = self.dyn(ph)
        q = padd(poly(d), poly(me), -1)
        t = frompoly(q)
        if me in leaves(t) or any(x is me for x in TM.walk(t)):
            raise Undecided("recurrence of expressions: " + show(d)[:80])
        r = add(self.dyn(i0), raw("sum", bs, t))
        self.folds[p] = r
        return r

    # ---------------------------------------------------------- operands
    def operand(self, st, tid, name):
        """symbolic argument for a parameter type; returns the value or
        reference to pass"""
        t = self.I.ty(tid)
        s = sym(name)
        if t.get("ref"):
            return self.I.alloc(st, s, name)
        return s

    def vval(self, v):
        """denoted value of a Variable term"""
        return self.dyn(getf(v, EXPRF))

    def num(self, st, a):
        """denoted value of a scalar argument (number or Variable)"""
        return None

    def method_of(self, recq, name, pred=None):
        c = [f for f in self.u.fns.values() if f.get("cls") is not None and f["n"] == name and f["q"].startswith(recq + "::") and f.get("body") and (pred is None or pred(f))]
        return c


def noconst(s):
    return s.replace("const ", "")


# ------------------------------------------------------------- indexing

class Ranges:
    """facts 0 <= index < bound for symbolic indices, used to undo row-major
    addressing"""

    def __init__(self, *pairs):
        self.r = [(i, canon(n)) for i, n in pairs]

    def lt(self, i, n):
        n = canon(n)
        i = canon(i)
        return any(i is j and n is m for j, m in self.r)

    def divmod(self, x, c):
        """x = c*q + r with r a known index below c"""
        c = canon(c)
        x = canon(x)
        p = poly(x)
        for j, m in self.r + [(ZERO, None)]:
            if m is not None and m is not c:
                continue
            d = padd(p, poly(j), -1) if j is not ZERO else p
            q = exactdiv(d, c)
            if q is not None:
                return q, j
        return None


def exactdiv(p, c):
    """p / c when every monomial of p has the monomial c as a factor"""
    pc = poly(c)
    if len(pc) != 1:
        return None
    ((cm, w), k), = pc.items()
    if w:
        return None
    r = {}
    for (m, ww), v in p.items():
        d = dict(m)
        for a, e in cm:
            if d.get(a, 0) < e:
                return None
            d[a] -= e
            if not d[a]:
                del d[a]
        mm = tuple(x for x in m if x[0] in d)
        mm = tuple((a, d[a]) for a, e in mm)
        r[(mm, ww)] = v / k
    return frompoly(r) if r else ZERO


def resolve(t, rg, E=None, memo=None):
    """rewrite element reads of loop-built containers to the element's value"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    if not t.a or t.op in ("sym", "num", "phi", "bv"):
        return t
    if t.op == "rec":
        r = rec(t.a[0], {k: resolve(v, rg, E, memo) for k, v in t.a[1]})
    else:
        bs = None
        args = tuple(_rx(x, rg, E, memo) for x in t.a)
        r = t if args == t.a else carry(t, TM.rebuild(t.op, args))
        if r.op == "sel" and len(r.a) == 2:
            r2 = at(r.a[0], r.a[1], rg)
            if r2 is not None and r2 is not r:
                r = resolve(r2, rg, E, memo)
        elif r.op == "sel" and len(r.a) == 3:
            r2 = at2(r.a[0], r.a[1], r.a[2], rg)
            if r2 is not None and r2 is not r:
                r = resolve(r2, rg, E, memo)
        elif r.op in ("idiv", "imod"):
            q = rg.divmod(r.a[0], r.a[1])
            if q is not None:
                r = q[0] if r.op == "idiv" else q[1]
    memo[t] = r
    return r


def _rx(x, rg, E, memo):
    if isinstance(x, T):
        return resolve(x, rg, E, memo)
    if isinstance(x, tuple):
        return tuple(_rx(y, rg, E, memo) for y in x)
    return x


def binders_at(bs, X, rg, idx=None):
    """binder -> index assignment under which the row-major position of the
    binders (or the index expression idx) is X"""
    import itertools
    if idx is None:
        # position in nested enumeration
        pos = ZERO
        for bv, lo, hi in bs:
            pos = add(mul(pos, sub(hi, lo)), sub(bv, lo))
        idx = pos
    idx = canon(idx)
    X = canon(X)
    bvs = [b[0] for b in bs]
    if len(bs) == 1 and idx is bvs[0]:
        return {bvs[0]: X}
    cand = [i for i, n in rg.r] + [ZERO]
    if len(bs) == 1:
        d = padd(poly(X), poly(subst(idx, {bvs[0]: ZERO})), -1)
        s = canon(sub(subst(idx, {bvs[0]: ONE}), subst(idx, {bvs[0]: ZERO})))
        q = exactdiv(d, s) if s is not ZERO else None
        if q is not None and canon(subst(idx, {bvs[0]: q})) is X:
            return {bvs[0]: q}
    for rev in (False, True):
        cs = [cand] * len(bs)
        if rev:
            # loops running backwards: last element first
            cs = [cand + [sub(sub(add(b[1], b[2]), ONE), i) for i, n in rg.r] for b in bs]
        for c in itertools.product(*cs):
            m = dict(zip(bvs, c))
            if canon(subst(idx, m)) is X:
                return m
    return None


def at(c, X, rg):
    """element X of a flat container"""
    if c.op == "ite":
        a, b = at(c.a[1], X, rg), at(c.a[2], X, rg)
        if a is None and b is None:
            return None
        return ite(c.a[0], a if a is not None else sel(c.a[1], X), b if b is not None else sel(c.a[2], X))
    if c.op == "comp":
        bs, g, v = c.a
        if canon(g) is not TRUE:
            return None
        if getattr(rg, "flat", None) is not None and len(bs) == 2 and bs[0][0] in leaves(bs[1][2]):
            bs = (bs[0], (bs[1][0], bs[1][1], rg.flat))
        m = binders_at(bs, X, rg)
        return subst(v, m) if m is not None else None
    if c.op == "cat" and c.a[0] is EMPTY:
        return at(c.a[1], X, rg)
    if c.op == "fill":
        return c.a[-1]
    if c.op == "flat" and getattr(rg, "flat", None) is not None and len(c.a[0]) == 1 and canon(c.a[1]) is TRUE:
        q = rg.divmod(X, rg.flat)
        return sel(subst(c.a[2], {c.a[0][0][0]: q[0]}), q[1]) if q is not None else None
    if c.op == "forupd" and len(c.a[2]) == 1:
        base, bs, idx, val, g = c.a
        m = binders_at(bs, X, rg, idx[0])
        if m is not None:
            inr = []
            for bv, lo, hi in bs:
                v = m[bv]
                hi2, lo2 = subst(hi, m), subst(lo, m)
                if canon(lo2) is not ZERO and not v is ZERO:
                    inr.append(cmp("ile", lo2, v))
                if not rg.lt(v, hi2):
                    if canon(lo2) is ZERO and whole(v, hi2, rg):
                        continue
                    inr.append(cmp("ilt", v, hi2))
            c2 = And(canon(subst(g, m)), *inr)
            return ite(c2, subst(val, m), at(base, X, rg) or sel(base, X)) if c2 is not TRUE else subst(val, m)
        return None
    if c.op == "forupd" and len(c.a[2]) == 2:
        return None
    if c.op == "upd" and len(c.a) == 3:
        s = TM.ieq_status(c.a[1], X)
        if s is True:
            return c.a[2]
        if s is False:
            return at(c.a[0], X, rg) or sel(c.a[0], X)
        return ite(cmp("ieq", c.a[1], X), c.a[2], at(c.a[0], X, rg) or sel(c.a[0], X))
    return None


def at2(c, X, Y, rg):
    """element X, Y of a numeric matrix written by loops"""
    X, Y = canon(X), canon(Y)
    if c.op == "ite":
        a, b = at2(c.a[1], X, Y, rg), at2(c.a[2], X, Y, rg)
        if a is None and b is None:
            return None
        return ite(c.a[0], a if a is not None else sel(c.a[1], X, Y), b if b is not None else sel(c.a[2], X, Y))
    if c.op == "upd" and len(c.a) == 4:
        s = And(cmp("ieq", c.a[1], X), cmp("ieq", c.a[2], Y))
        o = at2(c.a[0], X, Y, rg)
        return ite(s, c.a[3], o if o is not None else sel(c.a[0], X, Y))
    if c.op == "forupd" and len(c.a[2]) == 2:
        base, bs, idx, val, g = c.a
        m = {}
        rest = []
        for want, ix in ((X, canon(idx[0])), (Y, canon(idx[1]))):
            b = [z for z in bs if z[0] in leaves(ix)]
            if len(b) == 1:
                d = canon(sub(subst(ix, {b[0][0]: ONE}), subst(ix, {b[0][0]: ZERO})))
                if d is not ONE or b[0][0] in m:
                    return None
                m[b[0][0]] = canon(sub(want, subst(ix, {b[0][0]: ZERO})))
            elif not b:
                rest.append(cmp("ieq", ix, want))
            else:
                return None
        if len(m) != len(bs):
            return None
        for bv, lo, hi in bs:
            lo2, hi2, v = canon(subst(lo, m)), canon(subst(hi, m)), m[bv]
            if not (rg.lt(v, hi2)):
                rest.append(cmp("ilt", v, hi2))
            if not (lo2 is ZERO and any(v is q for q, _ in rg.r)):
                rest.append(cmp("ile", lo2, v))
        rest.append(canon(subst(g, m)))
        c2 = And(*rest)
        v = subst(val, m)
        if c2 is TRUE:
            return v
        o = at2(base, X, Y, rg)
        return ite(c2, v, o if o is not None else sel(base, X, Y))
    return None


def whole(v, n, rg):
    """v = C*i + j < R*C"""
    for j, cc in rg.r:
        q = rg.divmod(v, cc)
        if q is None:
            continue
        i, jj = q
        for i2, rr in rg.r:
            if i2 is canon(i) and canon(mul(rr, cc)) is canon(n):
                return True
    return False


class MX(VX):
    """matrices, views and numeric matrices with symbolic indices"""

    def kind(self, tid):
        n = tname(self.u, tid).rstrip("&")
        if n.startswith("Matrix<") or n == "Matrix":
            return "M"
        if n.startswith("MatrixXd"):
            return "D"
        if n.startswith("VectorXd"):
            return "DV"
        if n.startswith(("Block", "CBlock")) or "VariableBlock" in n:
            return "B"
        if n.startswith("Variable"):
            return "V"
        if n in ("double", "int", "float", "long", "unsignedlong"):
            return "S"
        return None

    def accessor(self, tid, name, nargs, ptypes=None):
        """const member function of the record type tid"""
        rid = self.I.ty(tid).get("rec")
        c = [f for f in self.u.fns.values() if f.get("cls") == rid and f["n"] == name and len(f["params"]) == nargs and f.get("body") and all(self.I.ty(p["t"])["c"] == "int" for p in f["params"])]
        if not c:
            raise Undecided("no %s/%d in %s" % (name, nargs, self.u.ts(tid)))
        k = [f for f in c if f.get("const")]
        return (k or c)[0]

    def dims(self, st, tid, a):
        k = self.kind(tid)
        v = self.I.load(st, a) if self.I.islv(a) else a
        if k in ("V", "S"):
            return None
        if k in ("D", "DV"):
            return (LM.dim(self.I, "rows", v), LM.dim(self.I, "cols", v))
        this = a if self.I.islv(a) else self.I.alloc(st, a)
        out = []
        for n in ("rows", "cols"):
            f = self.accessor(tid, n, 0)
            r, s = self.I.call_fn(st.copy(), f, self.I.addr(this), [])
            out.append(canon(r))
        return tuple(out)

    def cell(self, st, tid, a, i, j):
        """the Variable (or number) at i, j"""
        k = self.kind(tid)
        if k in ("D", "DV"):
            v = self.I.load(st, a) if self.I.islv(a) else a
            return sel(v, i, j) if k == "D" else sel(v, i)
        this = a if self.I.islv(a) else self.I.alloc(st, a)
        f = self.accessor(tid, "operator[]", 2)
        s = st.copy()
        r, s = self.I.call_fn(s, f, self.I.addr(this), [i, j])
        return self.I.load(s, r) if self.I.islv(r) else r

    def elem(self, st, tid, a, i, j, rg):
        """denoted value at i, j (scalars broadcast)"""
        k = self.kind(tid)
        v = self.I.load(st, a) if self.I.islv(a) else a
        if k == "S":
            return v
        if k == "V":
            return self.vval(v)
        c = self.cell(st, tid, a, i, j)
        c = resolve(c, rg)
        if k in ("D", "DV"):
            return c
        return resolve(self.vval(c), rg)
