"""A04, A05, A09, A10: variables as values and handles, constraints."""
from frame import check, Broken
from vx import *
import itertools

SCAL = ("Variable", "double", "int", "float")
FNS = list(UN) + ["abs", "atan2", "hypot", "max", "min", "pow", "sign", "operator*", "operator/", "operator+", "operator-"]


def scalval(E, st, tid, a):
    n = tname(E.u, tid)
    v = E.I.load(st, a) if E.I.islv(a) else a
    return E.vval(v) if n.startswith("Variable") else v


def spec(name, vs):
    if name == "hypot" and len(vs) == 3:
        return raw("fn:sqrt", add(add(mul(vs[0], vs[0]), mul(vs[1], vs[1])), mul(vs[2], vs[2])))
    return fspec(name, vs[0], vs[1] if len(vs) > 1 else None)


def cases(E):
    C = E.cases()
    C.eqrule = symb.equal
    return C


def sig(u, f):
    return "%s(%s)" % (f["n"], ",".join(tname(u, p["t"]) for p in f["params"]))


def untouched(E, st, what="a node"):
    for k in st.store:
        if k[0] == "H" and k[1].startswith("slp::detail::Expression::"):
            return "%s: field %s of an existing node is written" % (what, k[1].split("::")[-1])


@check("A04", "Every overload of every operator and math function on variables is evaluated abstractly with symbolic operands (node builders opaque, their meaning is A02); the value denoted by its result must equal the named function of the operands in written order in every case, compound assignments must rebind only their left operand (also when both operands are the same variable), conversions from numbers must denote the number.",
       assumptions=["node-building functions denote the operation they are named after (A02)"], expect=40)
def a04(R):
    u = R.unit("autodiff")
    names = set()
    for f in sorted(u.fns.values(), key=lambda f: (f["q"], f["id"])):
        q = f["q"]
        if not f.get("body") or not q.startswith("slp::") or q.count("::") != 1 or f["n"] not in FNS:
            continue
        ts = [tname(u, p["t"]) for p in f["params"]]
        if not ts or not all(t.rstrip("&") in SCAL for t in ts) or not any(t.startswith("Variable") for t in ts):
            continue
        names.add(f["n"])
        E = VX(u)

        def ob(alias=False):
            st = State()
            if alias:
                a = E.I.alloc(st, sym("a"))
                args = [a if E.I.ty(p["t"]).get("ref") else sym("a") for p in f["params"]]
            else:
                args = [E.operand(st, p["t"], "a%d" % i) for i, p in enumerate(f["params"])]
            vs = [scalval(E, st, p["t"], x) for p, x in zip(f["params"], args)]
            v, s = E.I.call_fn(st, f, None, args)
            if E.I.islv(v):
                v = E.I.load(s, v)
            C = cases(E)
            if not C.check(E.vval(v), spec(f["n"], vs)):
                return "result denotes something else than %s of its operands: %s" % (f["n"], C.explain())
            return untouched(E, s, "operation")
        R.check(sig(u, f), u.loc(f), ob)
        R.saw(u, E.I.inlined)
    miss = [n for n in FNS if n not in names]
    if miss:
        raise Broken("no overload on variables found for " + ", ".join(miss))
    # compound assignment
    for f in u.fns.values():
        if f["q"].startswith("slp::Variable<double>::operator") and f["n"] in ("operator+=", "operator-=", "operator*=", "operator/=", "operator=") and f.get("body"):
            for alias in (False, True):
                E = VX(u)

                def ob():
                    st = State()
                    v0, r0 = sym("a"), sym("b")
                    th = E.I.alloc(st, v0, "lhs")
                    pt = f["params"][0]["t"]
                    isvar = tname(u, pt).startswith("Variable")
                    if alias and not (isvar and E.I.ty(pt).get("ref")):
                        return
                    arg = th if alias else (E.I.alloc(st, r0, "rhs") if E.I.ty(pt).get("ref") else r0)
                    X = E.vval(v0)
                    Y = X if alias else (E.vval(r0) if isvar else r0)
                    rv, s = E.I.call_fn(st, f, th, [arg])
                    got = E.vval(E.I.load(s, th))
                    want = Y if f["n"] == "operator=" else spec(f["n"][:-1], [X, Y])
                    C = cases(E)
                    if not C.check(got, want):
                        return "left operand denotes something else than %s: %s" % (f["n"], C.explain())
                    if not alias and E.I.islv(arg) and E.I.load(s, arg) is not r0:
                        return "the right operand is modified"
                    if E.I.islv(rv):
                        if rv is not th:
                            C = cases(E)
                            if not C.check(E.vval(E.I.load(s, rv)), want):
                                return "the returned reference denotes another variable"
                    return untouched(E, s, "compound assignment")
                R.check(sig(u, f) + (" aliased" if alias else ""), u.loc(f), ob)
                R.saw(u, E.I.inlined)
    # conversions
    for f in u.fns.values():
        if f["q"] == "slp::Variable<double>::Variable" and f.get("isctor") and len(f["params"]) == 1 and f.get("inits"):
            n = tname(u, f["params"][0]["t"])
            if n not in ("double", "int", "float"):
                continue
            E = VX(u)

            def ob():
                st = State()
                c = sym("c")
                v = E.I.construct(st, recof(u, "slp::Variable<double>"), f, [c])
                C = cases(E)
                if not C.check(E.vval(v), c):
                    return "a variable made from a number denotes something else: " + C.explain()
                if not C.check(E.typeof(getf(v, EXPRF)), E.const):
                    return "a variable made from a number is not constant"
            R.check("Variable(%s)" % n, u.loc(f), ob)


def recof(u, dn):
    for r in u.recs.values():
        if r["dn"] == dn:
            return r
    raise Broken("class %s not found" % dn)


# ------------------------------------------------------------ constraints

def fcur(h, p):
    """value read through a heap of node values"""
    if h.op == "uph" and h.a[1].op == "tsort" and h.a[1].a[0] is p:
        i = inputs(h)
        return raw("cur", p) if i.op == "heap" else raw("cur", p, i)
    return raw("hsel", h, p)


def inputs(h):
    """the assignments to independent variables in a heap of node values
    (re-evaluations only recompute dependent nodes)"""
    if h.op == "uph":
        return inputs(h.a[0])
    if h.op == "hst":
        i = inputs(h.a[0])
        return raw("hst", i, h.a[1], h.a[2])
    if h.op == "ite":
        return ite(h.a[0], inputs(h.a[1]), inputs(h.a[2]))
    return h


TM.EXTRA["hsel"] = fcur


def withinv(t, memo=None):
    """apply the cache invariant of incoming variables: an initialised graph is
    the topological sort of the variable's expression"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    if t.op == "fld" and t.a[0] == "slp::Variable::m_graph":
        x = t.a[1]
        r = ite(getf(x, "slp::Variable::m_graph_initialized"), raw("tsort", getf(x, EXPRF)), raw("stale", x))
    elif not t.a or t.op in ("sym", "num", "phi", "bv"):
        r = t
    elif t.op == "rec":
        r = rec(t.a[0], {k: withinv(v, memo) for k, v in t.a[1]})
    else:
        args = tuple(_wi(x, memo) for x in t.a)
        r = t if args == t.a else carry(t, TM.rebuild(t.op, args))
    memo[t] = r
    return r


def _wi(x, memo):
    if isinstance(x, T):
        return withinv(x, memo)
    if isinstance(x, tuple):
        return tuple(_wi(y, memo) for y in x)
    return x


def hoist(t):
    """uph(h, ite(c, a, b)) read at p -> ite(c, ...)"""
    if t.op == "hsel" and t.a[0].op == "uph" and t.a[0].a[1].op == "ite":
        h, g = t.a[0].a
        return ite(g.a[0], hoist(fcur(raw("uph", h, g.a[1]), t.a[1])), hoist(fcur(raw("uph", h, g.a[2]), t.a[1])))
    return t


def hoistall(t, memo=None):
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    if not t.a or t.op in ("sym", "num", "phi", "bv"):
        return t
    if t.op == "rec":
        r = rec(t.a[0], {k: hoistall(v, memo) for k, v in t.a[1]})
    else:
        args = tuple(_hx(x, memo) for x in t.a)
        r = t if args == t.a else carry(t, TM.rebuild(t.op, args))
        r = hoist(r)
    memo[t] = r
    return r


def _hx(x, memo):
    if isinstance(x, T):
        return hoistall(x, memo)
    if isinstance(x, tuple):
        return tuple(_hx(y, memo) for y in x)
    return x


def current(t):
    return canon(hoistall(withinv(t)))


def parts(c):
    if c.op == "cat":
        return parts(c.a[0]) + parts(c.a[1])
    if c.op == "push":
        return parts(c.a[0]) + [raw("list", c.a[1])]
    if c.op == "list":
        return [raw("list", x) for x in c.a]
    if c.op in ("comp", "flat"):
        return [c]
    raise Undecided("constraint list " + show(c)[:100])


def eqdims(E, ds):
    """equal dimensions of several matrices: substitution to the first"""
    m = {}
    for d in ds[1:]:
        for x, y in zip(d, ds[0]):
            if x is not y:
                if x.a and x.op not in ("add", "mul", "poly", "num"):
                    m[x] = y
                elif y.op not in ("add", "mul", "poly", "num"):
                    m[y] = x
    return m


def part_matches(E, p, dim, want, signless, rg, dm):
    """does the constraint part denote want(i, j) for every element?"""
    def same(got, w):
        C = cases(E)
        if C.check(got, w):
            return True
        if signless:
            C2 = cases(E)
            if C2.check(got, neg(w)):
                return True
        return C.explain()
    i, j = sym("i"), sym("j")
    if dim is None:
        if p.op != "list":
            raise Undecided("constraint " + show(p)[:80])
        return same(E.vval(p.a[0]), want(None, None))
    if p.op != "comp":
        return "one constraint is made for a matrix"
    bs, g, v = p.a
    if canon(g) is not TRUE:
        return "constraints are made only for elements where " + show(g)[:200]
    r, c = dim
    bad = None
    if len(bs) == 2:
        import itertools
        for (bi, bj) in ((bs[0], bs[1]), (bs[1], bs[0])):
            if canon(bi[1]) is not ZERO or canon(bj[1]) is not ZERO:
                continue
            if canon(subst(bi[2], dm)) is not r or canon(subst(bj[2], dm)) is not c:
                bad = bad or "element ranges are [%s, %s) x [%s, %s)" % (show(bi[1]), show(bi[2]), show(bj[1]), show(bj[2]))
                continue
            got = resolve(E.vval(resolve(subst(v, {bi[0]: i, bj[0]: j}), rg)), rg)
            x = same(canon(subst(got, dm)), want(i, j))
            return x
        return bad
    if len(bs) == 1:
        if canon(subst(sub(bs[0][2], bs[0][1]), dm)) is not canon(mul(r, c)):
            return "number of constraints is " + show(sub(bs[0][2], bs[0][1]))
        got = resolve(E.vval(resolve(subst(v, {bs[0][0]: canon(add(mul(c, i), j))}), rg)), rg)
        return same(canon(subst(got, dm)), want(i, j))
    raise Undecided("constraint nest")


def compare_op(R, u, f, swap, signless):
    E = MX(u)

    def ob():
        st = State()
        args = [E.operand(st, p["t"], "a%d" % i) for i, p in enumerate(f["params"])]
        pre = st.copy()
        ds = [E.dims(pre, p["t"], a) for p, a in zip(f["params"], args)]
        dd = [d for d in ds if d is not None]
        dm = eqdims(E, dd) if dd else {}
        i, j = sym("i"), sym("j")
        dim = tuple(canon(subst(x, dm)) for x in dd[0]) if dd else None
        rg = Ranges((i, dim[0]), (j, dim[1]), *[(i, d[0]) for d in dd], *[(j, d[1]) for d in dd]) if dd else Ranges()
        v, s = E.I.call_fn(st, f, None, args)
        if E.I.islv(v):
            v = E.I.load(s, v)
        cs = [x for k, x in v.a[1] if k.endswith("::constraints")] if v.op == "rec" else []
        if not cs:
            raise Undecided("result " + show(v)[:80])
        ineq = "Inequality" in v.a[0]
        if ineq == signless:
            return "the operator makes %s" % v.a[0]
        ps = parts(cs[0])
        if len(ps) != 1:
            return "%d groups of constraints are made for one comparison" % len(ps)

        def want(a, b):
            x, y = [canon(subst(E.elem(pre, p["t"], q, a, b, rg), dm)) for p, q in zip(f["params"], args)]
            return sub(y, x) if swap else sub(x, y)
        r = part_matches(E, ps[0], dim, want, signless, rg, dm)
        return None if r is True else "constraint does not mean the written comparison: " + str(r)
    R.check(sig(u, f), u.loc(f), ob)
    R.saw(u, E.I.inlined)


OPS = {"operator==": (False, True), "operator<": (True, False), "operator<=": (True, False), "operator>": (False, False), "operator>=": (False, False)}


def truth(v, src, want):
    import numev

    class Ev(numev.Ev):
        def go(self, t):
            if t.op == "cur" and t.a[0].op == "fld" and t.a[0].a[1].op == "sel" and t.a[0].a[1].a[0] is src and len(t.a) == 1:
                return self.env["values"][int(self(t.a[0].a[1].a[1]))]
            if t.op == "len" and t.a[0] is src:
                return len(self.env["values"])
            return super().go(t)
    for n in range(5):
        for x in itertools.product((0.0, 1.0, -1.0, 1e-15, -1e-15), repeat=n):
            g, w = Ev({"values": x})(v), Ev({"values": x})(want)
            if bool(g) != bool(w):
                return "%s instead of %s for the values (%s)" % (bool(g), bool(w), ", ".join("%g" % y for y in x))


@check("A10", "Every instantiation of the comparison operators and bounds() is evaluated abstractly; the constraint list it returns must contain, for every element position of the matrix operand (scalars broadcast), the difference with the documented orientation; concatenation must keep every constraint; the truth value must be the conjunction over all constraints of the comparison at the current values.",
       assumptions=["matrix operands of one comparison have equal dimensions (asserted by the code)", "node builders denote their operation (A02)"], expect=25)
def a10(R):
    u = R.unit("autodiff")
    seen = set()
    for f in sorted(u.fns.values(), key=lambda f: (f["q"], f["id"])):
        q = f["q"]
        if not f.get("body") or q.count("::") != 1 or f["n"] not in OPS or not q.startswith("slp::") or len(f["params"]) != 2:
            continue
        E0 = MX(u)
        ks = [E0.kind(p["t"]) for p in f["params"]]
        if None in ks or not set(ks) & set("VMB"):
            continue
        seen.add(f["n"])
        compare_op(R, u, f, *OPS[f["n"]])
    miss = [n for n in OPS if n not in seen]
    if miss:
        raise Broken("no instantiation of " + ", ".join(miss))
    for f in u.fn("slp::bounds"):
        E = MX(u)

        def ob():
            st = State()
            args = [E.operand(st, p["t"], "a%d" % i) for i, p in enumerate(f["params"])]
            pre = st.copy()
            ds = [E.dims(pre, p["t"], a) for p, a in zip(f["params"], args)]
            dd = [d for d in ds if d is not None]
            dm = eqdims(E, dd) if dd else {}
            i, j = sym("i"), sym("j")
            dim = tuple(canon(subst(x, dm)) for x in dd[0]) if dd else None
            rg = Ranges((i, dim[0]), (j, dim[1]), *[(i, d[0]) for d in dd], *[(j, d[1]) for d in dd]) if dd else Ranges()
            v, s = E.I.call_fn(st, f, None, args)
            cs = [x for k, x in v.a[1] if k.endswith("::constraints")] if v.op == "rec" else []
            if not cs:
                raise Undecided("result " + show(v)[:80])
            if "Inequality" not in v.a[0]:
                return "bounds() makes " + v.a[0]
            ps = parts(cs[0])

            def el(k, a, b):
                return canon(subst(E.elem(pre, f["params"][k]["t"], args[k], a, b, rg), dm))
            wants = [lambda a, b: sub(el(1, a, b), el(0, a, b)), lambda a, b: sub(el(2, a, b), el(1, a, b))]
            if len(ps) != 2:
                return "bounds() makes %d groups of constraints instead of two" % len(ps)
            for order in ((0, 1), (1, 0)):
                rs = [part_matches(E, ps[k], dim, wants[o], False, rg, dm) for k, o in enumerate(order)]
                if all(r is True for r in rs):
                    return
                if order == (0, 1):
                    msg = [str(r) for r in rs if r is not True][0]
            return "bounds() does not mean l <= x <= u: " + msg
        R.check(sig(u, f), u.loc(f), ob)
        R.saw(u, E.I.inlined)
    for kind, rel in (("Equality", "feq"), ("Inequality", "fle")):
        cn = "slp::%sConstraints<double>" % kind
        for f in u.fns.values():
            if f["q"].startswith(cn + "::") and f.get("isctor") and f.get("body") and len(f["params"]) == 1 and ("vector" in u.ts(f["params"][0]["t"]) or "initializer_list" in u.ts(f["params"][0]["t"])):
                E = VX(u)

                def ob():
                    L = sym("L")
                    st = State()
                    a = E.I.alloc(st, L) if E.I.ty(f["params"][0]["t"]).get("ref") else L
                    v = E.I.construct(st, recof(u, cn), f, [a])
                    cs = [x for k, x in v.a[1] if k.endswith("::constraints")]
                    ps = parts(cs[0])
                    if len(ps) != 1 or ps[0].op not in ("flat", "comp"):
                        raise Undecided("concatenation " + show(cs[0])[:100])
                    bs, g, x = ps[0].a
                    if canon(g) is not TRUE:
                        return "only list entries with %s are kept" % show(g)[:200]
                    b0 = bs[0]
                    if canon(b0[1]) is not ZERO or canon(b0[2]) is not canon(length(L)):
                        return "list entries [%s, %s) are kept, not all" % (show(b0[1]), show(b0[2]))
                    src = getf(sel(L, b0[0]), cs_name(u, cn))
                    if ps[0].op == "flat":
                        if x is not src:
                            raise Undecided("entry " + show(x)[:80])
                    else:
                        b1 = bs[1]
                        if canon(b1[1]) is not ZERO or canon(b1[2]) is not canon(length(src)) or canon(x) is not canon(sel(src, b1[0])):
                            return "constraints of an entry are not all kept: " + show(x)[:200]
                R.check("%s concatenation %s" % (kind, u.ts(f["params"][0]["t"])[:30]), u.loc(f), ob)
                R.saw(u, E.I.inlined)
            if f["q"] == cn + "::operator bool":
                E = VX(u)

                def ob():
                    st = State()
                    c = sym("c")
                    v, s = E.I.call_fn(st, f, E.I.alloc(st, c), [])
                    v = current(v)
                    src = getf(c, cs_name(u, cn))
                    k = raw("bv", "kk")
                    x = raw("cur", getf(sel(src, k), EXPRF))
                    want = canon(raw("forall", ((k, ZERO, length(src)),), cmp(rel, ZERO, x)))
                    if v is want:
                        return
                    C = cases(E)
                    if v.op != "forall" or not C.check(v, want):
                        # the same at some values of up to four constraints?
                        bad = truth(v, src, want)
                        if not bad:
                            raise Undecided("truth value " + show(v)[:100])
                        return "truth value is %s, not that every constraint holds at the current values: %s" % (show(v)[:300], bad)
                    if not C.check(v, want):
                        return "truth value is %s, not that every constraint holds at the current values" % show(v)[:300]
                R.check(kind + " truth value", u.loc(f), ob)
                R.saw(u, E.I.inlined)


def cs_name(u, cn):
    for f in recof(u, cn)["fields"]:
        if f["n"] == "constraints":
            return cn.replace("<double>", "") + "::constraints"
    raise Broken("no constraints field in " + cn)


# --------------------------------------------------------- values, handles

GF, IF = "slp::Variable::m_graph", "slp::Variable::m_graph_initialized"
KNOWN = {"sym", "fld", "num", "node", "bld", "tsort", "cur", "stale", "uph", "hst", "heap", "hsel", "rec", "setf", "ite", "list", "true", "false", "add", "mul", "poly", "sel", "upd", "peq", "not", "and", "or", "null", "enumc", "unit", "flt", "inf", "fill", "ieq", "ilt", "ile", "ord"}


def modelled(t):
    """only operations the rule knows: a mismatch is then a violation"""
    bad = sorted({x.op for x in TM.walk(t) if not (x.op == "vcall" and x.a[0] == "type" or x.op == "len" and x.a[0].op == "tsort")} - KNOWN)
    return None if not bad else ", ".join(bad)


def cachefields(u):
    fs = [f for f in recof(u, "slp::Variable<double>")["fields"]]
    n = {f["n"] for f in fs}
    if not {"expr"} <= n:
        raise Undecided("Variable has no expr")
    if n - {"expr", "m_graph", "m_graph_initialized"}:
        raise Undecided("Variable has unknown fields " + ", ".join(sorted(n)))


def leafcur(E, got, want):
    """the current value of a constant or of a node without operands is its
    stored value (its graph has nothing to update)"""
    m = {}
    ps = {t.a[0]: t for t in TM.walk(raw("pair", got, want)) if t.op == "cur"}
    for c in TM.walk(got):
        if c.op not in ("peq", "ieq", "ilt", "ile"):
            continue
        for p in ps:
            ty = [y for x in c.a for y in TM.walk(x) if y.op == "vcall" and y.a[0] == "type" and y.a[1] is p]
            l = [y for y in c.a if y.op == "sel" and y.a[0] is getf(p, "slp::detail::Expression::args") and canon(y.a[1]) is ZERO]
            if ty:
                m.setdefault(p, []).append(cmp("ieq", E.typ(p), E.const) if c.op != "peq" else cmp("peq", E.typ(p), E.const))
            elif l and NULL in c.a:
                m.setdefault(p, []).append(c)
    for p in ps:
        if p.op == "node" and "ConstantExpression" in str(p.a[0]):
            m[p] = [TRUE]
    if not m:
        return got, want

    def below(h):
        while h.op == "uph":
            h = h.a[0]
        return h
    s = {}
    for t in TM.walk(raw("pair", got, want)):
        if t.op == "cur" and t.a[0] in m:
            p = t.a[0]
            h = t.a[1] if len(t.a) > 1 else raw("heap", VALF)
        elif t.op == "hsel" and t.a[0].op == "uph" and t.a[1] in m:
            h, p = below(t.a[0]), t.a[1]
        else:
            continue
        s[t] = ite(Or(*m[p]), E.I.hsel(None, h, VALF, p), t)
    return canon(subst(got, s)), canon(subst(want, s))


def differs(E, got, want, what):
    """None when equal in every case; a violation message when the two are
    known to differ; Undecided otherwise"""
    got, want = canon(got), canon(want)
    if got is want:
        return None
    got, want = leafcur(E, got, want)
    C = cases(E)
    if C.check(got, want):
        return None
    b = modelled(got)
    if b:
        raise Undecided("%s contains %s" % (what, b))
    return "%s is %s instead of %s" % (what, show(got)[:300], show(want)[:200])


def invariant(E, before, after, what):
    """an initialised graph is the topological sort of the expression"""
    if after is before:
        return None
    g = current(getf(after, GF))
    i = current(getf(after, IF))
    x = current(getf(after, EXPRF))
    Z = sym("none")
    return differs(E, ite(i, g, Z), ite(i, raw("tsort", x), Z), "the cached graph of " + what)


def varfuncs(u):
    """member functions of Variable and every function assigning its fields"""
    out = {}
    for f in u.fns.values():
        if not f.get("body") and not f.get("inits"):
            continue
        if f["q"].startswith("slp::Variable<double>::") and f.get("cls") is not None:
            out[f["id"]] = f
        elif writes_fields(f):
            out[f["id"]] = f
    return sorted(out.values(), key=lambda f: (f["q"], f["id"]))


def writes_fields(f):
    """does the syntax tree assign expr, m_graph or m_graph_initialized?"""
    def w(e):
        if isinstance(e, dict):
            if e.get("k") in ("asgn", "casgn") and lhs(e):
                return True
            if e.get("k") == "call" and e.get("fn", {}).get("n") == "operator=" and isinstance(e.get("obj"), dict) and mem(e["obj"]):
                return True
            return any(w(x) for x in e.values())
        if isinstance(e, list):
            return any(w(x) for x in e)
        return False

    def lhs(e):
        return any(mem(x) for x in (e.get("l"), e.get("a")) if isinstance(x, dict))

    def mem(x):
        return x.get("k") == "mem" and x.get("rq") == "slp::Variable" and x.get("n") in ("expr", "m_graph", "m_graph_initialized")
    return w(f.get("body"))


CLIENT_SAME = {  # function: parameter whose expression the result denotes
    "copy_construct": "a", "copy_construct_const": "a", "move_construct": "a", "copy_assign": "b", "move_assign": "b", "self_assign": "a"}


def client(R, names, rule):
    u = R.unit("client")
    fs = {f["n"]: f for f in u.fns.values() if f["q"].startswith("client::") and f.get("body")}
    for n in names:
        f = fs.get(n)
        if f is None:
            R.undecided(n, "engine/tu/client.cpp", "scenario does not compile: " + "; ".join(u.errs)[:200])
            continue
        E = MX(u)

        def ob(f=f, E=E, n=n):
            cachefields(u)
            st = State()
            args = {p["n"]: E.operand(st, p["t"], p["n"]) for p in f["params"]}
            pre = st.copy()
            v, s = E.I.call_fn(st, f, None, list(args.values()))
            if E.I.islv(v):
                v = E.I.load(s, v)
            return rule(n, E, f, args, pre, v, s)
        R.check("scenario " + n, u.loc(f), ob)
        R.saw(u, E.I.inlined)


def heapval(s):
    return s.store.get(("H", VALF), raw("heap", VALF))


def pexpr(n):
    return getf(sym(n), EXPRF)


def elemexpr(E, f, args, pre, m):
    p = [q for q in f["params"] if q["n"] == m][0]
    return getf(E.cell(pre, p["t"], args[m], sym("i"), sym("j")), EXPRF)


def a09rule(n, E, f, args, pre, v, s):
    if n in CLIENT_SAME:
        w = pexpr(CLIENT_SAME[n])
        r = differs(E, getf(v, EXPRF), w, "the expression of the assigned handle")
        if r:
            return r
        for p, a in args.items():
            if p == "a" and "assign" in n:
                continue
            if n.startswith("move") and p != "a":
                continue
            if E.I.islv(a) and not n.startswith("move"):
                r = differs(E, getf(E.I.load(s, a), EXPRF), pexpr(p), "the expression of the source handle")
                if r:
                    return r
        return untouched(E, s, "copying a handle")
    if n in ("scalar_assign", "int_assign"):
        d = E.vval(v)
        C = cases(E)
        if not C.check(d, sym("d")):
            return "the assigned handle denotes something else than the number: " + C.explain()
        return untouched(E, s, "assigning a number to a handle")
    if n.startswith("built_"):
        op = "operator*" if n in ("built_then_rebound", "built_then_scalar") else "operator+"
        C = cases(E)
        if not C.check(E.vval(v), spec(op, [E.dyn(pexpr("a")), E.dyn(pexpr("b"))])):
            return "the expression built earlier denotes something else after the handle was reassigned: " + C.explain()
        return untouched(E, s, "reassigning a handle")
    if "then_rebound" in n or n == "matrix_copy_assign":
        r = differs(E, getf(v, EXPRF), elemexpr(E, f, args, pre, "m"), "the element read before its cell was reassigned")
        return r or untouched(E, s, "reassigning an element")
    d = sym("d")
    if n in ("set_through_copy", "set_through_original"):
        return differs(E, v, d, "the value seen through the other handle")
    if n == "set_after_rebind":
        return differs(E, v, ite(cmp("peq", pexpr("a"), pexpr("c")), d, getf(pexpr("a"), VALF)), "the value of the variable first referred to")
    if n == "set_after_scalar":
        # a node made by the assignment is distinct from the earlier one
        x = subst(v, {c: FALSE for c in TM.walk(v) if c.op == "peq" and any(y.op == "node" for y in c.a) and pexpr("a") in c.a})
        return differs(E, x, getf(pexpr("a"), VALF), "the value of the variable first referred to")
    if n == "fresh":
        t = E.typeof(getf(v, EXPRF))
        C = cases(E)
        if not C.check(t, E.T["LINEAR"]):
            return "a new variable has type " + show(t)[:60]
        r = differs(E, E.I.hsel(s, heapval(s), VALF, getf(v, EXPRF)), ZERO, "the value of a new variable")
        return r
    raise Undecided("no rule for " + n)


@check("A09", "Small client programs (copy, move and self assignment, rebinding a handle or a matrix element after an expression was built from it, setting a value through a copy) are evaluated abstractly through the library code; the expression denoted by every handle afterwards must be the one the rule names, and no existing node may be written. Every special member and assignment of Variable, and every function assigning its fields, must leave no node written.",
       assumptions=["containers copy their elements member by member"], expect=12)
def a09(R):
    client(R, list(CLIENT_SAME) + ["scalar_assign", "int_assign", "built_then_rebound", "built_then_scalar", "built_then_compound", "built_then_scalar_compound", "set_through_copy", "set_through_original", "set_after_rebind", "set_after_scalar", "fresh", "element_then_rebound", "block_element_then_rebound", "matrix_copy_then_rebound", "matrix_copy_assign"], a09rule)
    u = R.unit("autodiff")
    for f in varfuncs(u):
        if f["n"] in ("set_value", "value") or f.get("copyctor") or f.get("movector"):
            continue
        E = VX(u)

        def ob(f=f, E=E):
            st = State()
            th = E.I.alloc(st, sym("x"), "self") if f.get("cls") is not None and not f.get("isctor") and not f.get("static") else None
            args = [E.operand(st, p["t"], "a%d" % i) for i, p in enumerate(f["params"])]
            if f.get("isctor"):
                s = st
                E.I.construct(s, recof(u, "slp::Variable<double>"), f, args)
            else:
                v, s = E.I.call_fn(st, f, th, args)
            return untouched(E, s, f["n"])
        R.check("%s writes no node" % sig(u, f), u.loc(f), ob)
        R.saw(u, E.I.inlined)


def a05rule(n, E, f, args, pre, v, s):
    v = current(v)
    a, b, c, d = pexpr("a"), pexpr("b"), pexpr("c"), sym("d")
    if n in ("value_after_rebind", "value_after_move", "value_through_copy_assign"):
        return differs(E, v, raw("cur", b), "the value read after reassignment")
    if n == "value_of_copy":
        return differs(E, v, raw("cur", a), "the value read through a copy")
    if n == "value_after_set":
        return differs(E, v, raw("cur", a, raw("hst", raw("heap", VALF), b, d)), "the value read after an input was set")
    if n.startswith("read_then_"):
        # an update pass sets no input: what a later pass computes is the same
        def once(t):
            return {y: raw("cur", y.a[1]) for y in TM.walk(t) if y.op == "hsel" and y.a[0].op == "uph" and inputs(y.a[0]).op == "heap" and y.a[0].a[1] is raw("tsort", y.a[1])}
        v = current(subst(v, once(v)))
        h = [x for k, x in s.store.items() if k[0] == "v" and k[1] == "x"]
        if len(h) != 1:
            raise Undecided("the handle of the program")
        e = current(getf(h[0], EXPRF))
        C = cases(E)
        w = {"scalar": lambda: d, "rebind": lambda: E.dyn(c), "move": lambda: spec("operator*", [E.dyn(b), E.dyn(c)]),
             "compound": lambda: spec("operator+", [spec("operator*", [E.dyn(a), E.dyn(b)]), E.dyn(c)])}[n.split("_")[-1]]()
        if not C.check(E.dyn(e), w):
            return "the handle denotes something else after assignment: " + C.explain()
        return differs(E, v, raw("cur", e), "the value read after assignment")
    if n in ("value_after_scalar", "value_after_compound"):
        e = current(getf(E.I.load(s, args["a"]), EXPRF))
        r = differs(E, v, raw("cur", e), "the value read after assignment")
        if r:
            return r
        C = cases(E)
        w = d if n == "value_after_scalar" else spec("operator+", [E.dyn(a), E.dyn(b)])
        if not C.check(E.dyn(e), w):
            return "the handle denotes something else after assignment: " + C.explain()
        return
    raise Undecided("no rule for " + n)


@check("A05", "value() of a variable is evaluated abstractly under the cache invariant (an initialised graph is the topological sort of the handle's expression): it must return the node's value after re-evaluating exactly that graph, and every function that writes a handle's fields must re-establish the invariant. set_value must write only the value of the handle's node. Element readers and writers of matrices and views must do this for exactly the addressed element and, for whole matrices, for every element at its place. The re-evaluation pass itself (update_values) must recompute every node from its arguments, children first.",
       assumptions=["values of nodes without arguments change only through set_value", "topological_sort lists every reachable node parents first (A06)"], expect=15)
def a05(R):
    u = R.unit("autodiff")
    for f in varfuncs(u):
        E = VX(u)
        ismem = f.get("cls") is not None and not f.get("isctor") and not f.get("static")

        def ob(f=f, E=E, ismem=ismem):
            cachefields(u)
            st = State()
            th = E.I.alloc(st, sym("x"), "self") if ismem else None
            args = [E.operand(st, p["t"], "a%d" % i) for i, p in enumerate(f["params"])]
            if f.get("isctor"):
                v, s = E.I.construct(st, recof(u, "slp::Variable<double>"), f, args), st
                r = invariant(E, None, v, "the new handle")
            else:
                v, s = E.I.call_fn(st, f, th, args)
                r = invariant(E, sym("x"), E.I.load(s, th), "the handle") if ismem else None
            if r:
                return r
            for i, a in enumerate(args):
                if E.I.islv(a):
                    w = E.I.load(s, a)
                    if w is not sym("a%d" % i) and tname(u, f["params"][i]["t"]).startswith("Variable") and "Matrix" not in tname(u, f["params"][i]["t"]):
                        r = invariant(E, sym("a%d" % i), w, "operand %d" % i)
                        if r:
                            return r
            x = getf(sym("x"), EXPRF)
            if ismem and f["n"] == "value" and not f["params"]:
                r = differs(E, current(v), raw("cur", x), "the value read")
                if r:
                    return r
                if inputs(heapval(s)).op != "heap":
                    return "reading a value sets another variable's value"
                return differs(E, getf(E.I.load(s, th), EXPRF), x, "the expression after reading")
            if ismem and f["n"] == "set_value":
                h = heapval(s)
                if h.op == "hst" and h.a[0].op == "heap":
                    return differs(E, h.a[1], x, "the node written") or differs(E, h.a[2], sym("a0"), "the value written")
                b = modelled(h)
                if b:
                    raise Undecided("values written: " + b)
                return "set_value does not write exactly the value of its node: " + show(h)[:200]
            if any(k[0] == "H" and k[1] == VALF for k in s.store) and inputs(heapval(s)).op != "heap":
                return "%s changes the value of an existing node" % f["n"]
        R.check(sig(u, f), u.loc(f), ob)
        R.saw(u, E.I.inlined)
    client(R, ["value_after_rebind", "value_after_scalar", "value_after_compound", "value_of_copy", "value_after_move", "value_after_set", "value_through_copy_assign", "read_then_scalar", "read_then_rebind", "read_then_move", "read_then_compound"], a05rule)
    for f in sorted(u.fns.values(), key=lambda f: (f["q"], f["id"])):
        if f["q"].startswith(("slp::VariableMatrix<double>::", "slp::VariableBlock<slp::VariableMatrix<double>>::")) and f["n"] in ("value", "set_value") and f.get("body"):
            a05matrix(R, u, f)
    import chk_graph
    chk_graph.update_obligations(R)


def clstype(E, u, f):
    """type id of the class of member f"""
    for i, t in enumerate(u.types if isinstance(u.types, list) else []):
        if t.get("rec") == f["cls"] and not t.get("ref") and not t.get("ptr"):
            return i
    for i in (u.types if isinstance(u.types, dict) else {}):
        t = E.I.ty(i)
        if t.get("rec") == f["cls"] and t["c"] == "rec":
            return i
    raise Undecided("class type")


def a05matrix(R, u, f):
    E = MX(u)

    def ob():
        def hv(I, st, fr, e, fn):
            o = I.ev(st, fr, e["obj"]) if e.get("obj") else None
            x = I.load(st, o) if I.islv(o) else o
            return raw("cur", getf(x, EXPRF))
        E.I.hooks["slp::Variable<double>::value"] = hv
        E.I.hooks["slp::Variable::value"] = hv
        st = State()
        th = E.I.alloc(st, sym("x"), "self")
        ct = clstype(E, u, f)
        args = [E.operand(st, p["t"], "a%d" % i) for i, p in enumerate(f["params"])]
        pre = st.copy()
        v, s = E.I.call_fn(st, f, th, args)
        i, j = sym("i"), sym("j")
        r_, c_ = E.dims(pre, ct, th)
        rg = Ranges((i, r_), (j, c_))
        if f["n"] == "value" and f["params"]:
            if len(f["params"]) == 2:
                ii, jj = sym("a0"), sym("a1")
            else:
                ii, jj = raw("idiv", sym("a0"), c_), raw("imod", sym("a0"), c_)
            if len(f["params"]) == 1:
                # row-major position: compare at a0 = cols * i + j
                v = resolve(canon(subst(v, {sym("a0"): canon(add(mul(c_, i), j))})), rg)
                ii, jj = i, j
            w = raw("cur", getf(E.cell(pre, ct, th, ii, jj), EXPRF))
            return differs(E, resolve(v, rg), resolve(w, rg), "the value read")
        if f["n"] == "value":
            if E.I.islv(v):
                v = E.I.load(s, v)
            d = (LM.dim(E.I, "rows", v), LM.dim(E.I, "cols", v))
            if canon(d[0]) is not canon(r_) or canon(d[1]) is not canon(c_):
                return "the numeric matrix has dimensions %s x %s" % (show(d[0])[:60], show(d[1])[:60])
            w = raw("cur", getf(E.cell(pre, ct, th, i, j), EXPRF))
            return differs(E, resolve(sel(v, i, j), rg), resolve(w, rg), "the value at (i, j)")
        h = heapval(s)
        if tname(u, f["params"][0]["t"]) == "double":
            if h.op != "hst" or h.a[0].op != "heap":
                raise Undecided("values written: " + show(h)[:100])
            return differs(E, h.a[1], getf(E.cell(pre, ct, th, ZERO, ZERO), EXPRF), "the node written") or differs(E, h.a[2], sym("a0"), "the value written")
        if h.op != "hfor" or h.a[0].op != "heap":
            raise Undecided("values written: " + show(h)[:100])
        _, bs, p, val, g = h.a
        vec = E.kind(f["params"][0]["t"]) == "DV" or "1,0,-1,1" in tname(u, f["params"][0]["t"])
        if canon(g) is not TRUE:
            return "values are written only where " + show(g)[:100]
        if len(bs) != 2:
            raise Undecided("loop nest")
        dm = {}
        for bi, bj in ((bs[0], bs[1]), (bs[1], bs[0])):
            if canon(bi[1]) is ZERO and canon(bj[1]) is ZERO and samedim(bi[2], r_) and samedim(bj[2], c_):
                m = {bi[0]: i, bj[0]: j}
                p2, v2 = resolve(canon(subst(p, m)), rg), resolve(canon(subst(val, m)), rg)
                r = differs(E, p2, resolve(getf(E.cell(pre, ct, th, i, j), EXPRF), rg), "the node written at (i, j)")
                if r is None and canon(v2) not in (sel(sym("a0"), i, j), sel(sym("a0"), i)):
                    if modelled(v2):
                        raise Undecided("value written " + show(v2)[:80])
                    r = "the value written at (i, j) is " + show(v2)[:100]
                return r
        return "values are written for element ranges [%s, %s) x [%s, %s)" % (show(bs[0][1]), show(bs[0][2])[:60], show(bs[1][1]), show(bs[1][2])[:60])

    def samedim(x, y):
        """equal to the destination dimension (the source has the same)"""
        x, y = canon(x), canon(y)
        return x is y or x.op in ("dim:rows", "dim:cols", "dim") or str(x.op).startswith("dim")
    R.check("%s::%s" % ("VariableBlock" if "Block" in f["q"] else "VariableMatrix", sig(u, f)), u.loc(f), ob)
    R.saw(u, E.I.inlined)
