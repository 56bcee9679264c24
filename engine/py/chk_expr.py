"""A01-A03: expression nodes (derivative rules, builders, reported types)."""
from frame import check, Broken
from sem import *
from term import *
import term as TM
from decide import Cases, Undecided, canon
import libmodel as LM
import symb

ET = "slp::ExpressionType"


def isexpr(u, R):
    R = R.get("bases") and u.recs.get(R["bases"][0])
    while R:
        if R["q"] == "slp::detail::Expression":
            return True
        b = R.get("bases", ())
        R = u.recs.get(b[0]) if b else None
    return False


def classes(u):
    return sorted((r for r in u.recs.values() if isexpr(u, r) and r.get("methods")), key=lambda r: r["dn"])


def etypes(u):
    en = u.enums.get(ET)
    if not en:
        raise Broken("no ExpressionType enumeration")
    return {x["n"]: raw("enumc", ET + "::" + x["n"], int(x["v"])) for x in en["e"]}


class Ex:
    """evaluation of expression nodes to the value they denote"""

    def __init__(self, u):
        self.u = u
        self.I = Interp(u)
        self.T = etypes(u)
        self.dom = [t for n, t in self.T.items() if n != "NONE"]
        self.const = self.T["CONSTANT"]
        self.memo = {}

    def typ(self, p):
        return raw("vcall", "type", p)

    def enums(self, e, c):
        if e.op == "vcall" and e.a[0] == "type":
            return self.dom
        return None

    def cases(self, **kw):
        c = Cases({"*": self.enums}, nonan=True, **kw)
        return c

    def method(self, R, name):
        while R:
            for m in R.get("methods", ()):
                f = self.u.fns.get(m)
                if f and f["n"] == name and f.get("body"):
                    return f
            b = R.get("bases", ())
            R = self.u.recs.get(b[0]) if b else None
        return None

    def rec(self, dn):
        for r in self.u.recs.values():
            if r["dn"] == dn:
                return r
        raise Undecided("class " + dn)

    def dyn(self, p):
        """value a pointer denotes when the graph is up to date"""
        if p.op == "ite":
            return ite(p.a[0], self.dyn(p.a[1]), self.dyn(p.a[2]))
        if p is NULL:
            return ZERO
        if p.op == "node":
            return self.value(p)
        if p.op == "ref":
            raise Undecided("address as node")
        v = raw("fld", "slp::detail::Expression::val", p)
        return ite(cmp("peq", self.typ(p), self.const), v, raw("dyn", p))

    def value(self, p):
        r = self.memo.get(p)
        if r is None:
            cls = p.a[0]
            R = self.rec(cls)
            f = self.method(R, "value")
            if f is None:
                raise Undecided("no value() in " + cls)
            st = State()
            args = self.I.nodefield(p, "slp::detail::Expression::args")
            if args is None:
                raise Undecided("args of " + cls)
            av = []
            for i in range(2):
                a = sel(args, num(i))
                av.append(self.dyn(a) if a is not NULL else ZERO)
            if cls.startswith(("slp::detail::ConstantExpression", "slp::detail::DecisionVariableExpression")):
                v0 = self.I.nodefield(p, "slp::detail::Expression::val")
                r = v0
            else:
                r, s = self.I.call_fn(st, f, p, av)
            self.memo[p] = r
        return r

    def typeof(self, p):
        if p.op == "ite":
            return ite(p.a[0], self.typeof(p.a[1]), self.typeof(p.a[2]))
        if p.op == "node":
            f = self.method(self.rec(p.a[0]), "type")
            v, s = self.I.call_fn(State(), f, p, [])
            return v
        return self.typ(p)


def short(dn):
    return dn.replace("slp::detail::", "").replace("slp::ExpressionType::", "").replace("<double>", "").replace("<double, ", "<")


SIDES = (("grad_l", 0), ("grad_r", 1))


@check("A01", "For every expression node class, grad_l/grad_r evaluated by abstract interpretation must equal adjoint times the partial derivative of that class's value() (symbolic differentiation and simplification), and grad_expr_l/grad_expr_r, whose returned expression graph is valued node by node, must denote the same number in every case of the operands' expression types.",
       assumptions=["real arithmetic (rounding and NaN excluded); points where the function is not differentiable are excluded for the first rule only", "operands are not null"], expect=40)
def a01(R):
    u = R.unit("autodiff")
    cl = classes(u)
    if len(cl) < 10:
        raise Broken("only %d expression classes found" % len(cl))
    for c in cl:
        E = Ex(u)
        fv = E.method(c, "value")
        where = u.loc(fv) if fv else c["dn"]
        if c["q"].endswith(("::ConstantExpression", "::DecisionVariableExpression")):
            continue
        nargs = max((len(f["params"]) for f in (u.fns.get(m) for m in c["methods"]) if f and f.get("isctor") and not f.get("copyctor") and not f.get("movector")), default=0)
        for gname, side in SIDES[:nargs]:
            x, y = sym("x"), sym("y")
            th = sym("this")
            adj = raw("fld", "slp::detail::Expression::adjoint", th)
            fg = E.method(c, gname)
            fe = E.method(c, gname.replace("grad_", "grad_expr_"))
            st = {}

            def numeric():
                V, _ = E.I.call_fn(State(), fv, th, [x, y])
                G, _ = E.I.call_fn(State(), fg, th, [x, y])
                st["G"] = G
                return symb.derivative_matches(V, G, adj, (x, y)[side])

            def symbolic():
                G = st.get("G")
                if G is None:
                    G, _ = E.I.call_fn(State(), fg, th, [x, y])
                px, py = sym("px"), sym("py")
                s = State()
                a0, a1 = E.I.alloc(s, px), E.I.alloc(s, py)
                P, _ = E.I.call_fn(s, fe, th, [a0, a1])
                pa = raw("fld", "slp::detail::Expression::adjoint_expr", th)
                X, Y, A = E.dyn(px), E.dyn(py), E.dyn(pa)
                got = E.dyn(P)
                want = subst(G, {x: X, y: Y, adj: A})
                C = E.cases()
                C.eqrule = symb.equal_where_defined
                # the expression graph of a node with constant operands only
                # is folded at construction; a null adjoint is never used
                nn = [Not(cmp("peq", q, NULL)) for q in (px, py, pa)]
                nn.append(Not(cmp("peq", E.typ((px, py)[side]), E.const)))
                if not C.check(got, want, nn):
                    return "symbolic derivative and numeric derivative differ: " + C.explain()
            nm = "%s d/d%s" % (short(c["dn"]), "lr"[side])
            R.check(nm + " numeric", u.loc(fg), numeric)
            R.check(nm + " symbolic", u.loc(fe), symbolic)
        R.saw(u, E.I.inlined)


UN = {"acos": "acos", "asin": "asin", "atan": "atan", "cbrt": "cbrt", "cos": "cos", "cosh": "cosh", "erf": "erf", "exp": "exp", "log": "log", "log10": "log10", "sin": "sin", "sinh": "sinh", "sqrt": "sqrt", "tan": "tan", "tanh": "tanh"}


def fspec(name, x, y):
    if name in UN:
        return raw("fn:" + name, x)
    return {"abs": lambda: LM.absv(x), "atan2": lambda: raw("fn:atan2", x, y), "hypot": lambda: raw("fn:hypot", x, y),
            "max": lambda: LM.mx(x, y), "min": lambda: LM.mn(x, y), "pow": lambda: raw("fn:pow", x, y),
            "sign": lambda: ite(cmp("flt", x, ZERO), num(-1), ite(cmp("feq", x, ZERO), ZERO, ONE)),
            "is_nonnegative": lambda: ite(cmp("fle", ZERO, x), ONE, ZERO),
            "is_positive": lambda: ite(cmp("flt", ZERO, x), ONE, ZERO),
            "operator*": lambda: mul(x, y), "operator/": lambda: div(x, y), "operator+": lambda: add(x, y) if y is not None else x,
            "operator-": lambda: sub(x, y) if y is not None else neg(x), "operator+=": lambda: add(x, y)}[name]()


def builders(u):
    out = []
    for f in u.fns.values():
        if f["q"].startswith("slp::detail::") and f.get("body") and not f.get("cls") and f["q"].count("::") == 2:
            ps = [u.ts(p["t"]) for p in f["params"]]
            if ps and all("IntrusiveSharedPtr<slp::detail::Expression<" in p and "vector" not in p for p in ps) and f["n"] not in ("topological_sort", "update_values", "gradient_tree", "append_triplets", "make_expression_ptr", "operator+="):
                out.append((f, len(ps)))
    return sorted(out, key=lambda x: (x[0]["n"], x[1]))


def build(E, f, k, ps):
    s = State()
    a = [E.I.alloc(s, p) for p in ps]
    P, _ = E.I.call_fn(s, f, None, a)
    return P


@check("A02", "For every function that builds an expression node (operators and math functions on node pointers) the denoted value of the returned graph - constants folded, pruned operands, rewritten nodes - equals the mathematical function of the operands' current values, in every case of operand types and of the constant operands' values.",
       assumptions=["real arithmetic; 0*inf, x/x and other undefined points excluded", "0 raised to a non-constant power is taken as 0 (positive exponent)"], expect=16)
def a02(R):
    u = R.unit("autodiff")
    bs = builders(u)
    names = {f["n"] for f, k in bs}
    for need in list(UN) + ["abs", "atan2", "hypot", "max", "min", "pow", "sign", "operator*", "operator/", "operator+", "operator-"]:
        if need not in names:
            raise Broken("builder %s not found" % need)
    for f, k in bs:
        E = Ex(u)

        def ob():
            ps = [sym("pl"), sym("pr")][:k]
            P = build(E, f, k, ps)
            got = E.dyn(P)
            X = E.dyn(ps[0])
            Y = E.dyn(ps[1]) if k == 2 else None
            try:
                want = fspec(f["n"], X, Y)
            except KeyError:
                raise Undecided("no definition for builder " + f["n"])
            C = E.cases()
            C.eqrule = symb.equal
            nn = [Not(cmp("peq", q, NULL)) for q in ps]
            if f["n"] == "pow":
                # exponent positive when it is not constant
                nn.append(Or(cmp("peq", E.typ(ps[1]), E.const), cmp("flt", ZERO, raw("dyn", ps[1]))))
            if f["n"] == "operator/":
                nn.append(Not(cmp("feq", Y, ZERO)))
            if not C.check(got, want, nn):
                return "value of the built expression differs from %s: %s" % (f["n"], C.explain())
        R.check("%s/%d" % (f["n"], k), u.loc(f), ob)
        if f["n"] == "operator+" and k == 2:
            def nulls():
                for ps in ((NULL, sym("pr")), (sym("pl"), NULL)):
                    P = build(E, f, 2, ps)
                    o = ps[1] if ps[0] is NULL else ps[0]
                    C = E.cases()
                    if not C.check(E.dyn(P), E.dyn(o), [Not(cmp("peq", o, NULL))]):
                        return "null operand is not the identity of accumulation: " + C.explain()
            R.check("operator+ null operand", u.loc(f), nulls)
        R.saw(u, E.I.inlined)
    for f in u.fn("slp::detail::constant_ptr"):
        E = Ex(u)

        def cst():
            P, _ = E.I.call_fn(State(), f, None, [sym("c")])
            C = E.cases()
            if not C.check(E.dyn(P), sym("c")):
                return "constant does not hold its value: " + C.explain()
            if not C.check(E.typeof(P), E.const):
                return "constant is not typed constant: " + C.explain()
        R.check("constant_ptr", u.loc(f), cst)


def degree(t, env):
    """degree of the polynomial normal form in the operands' degrees;
    None = not polynomial"""
    best = 0
    for (cm, w), c in poly(canon(t)).items():
        d = 0
        for at, e in cm:
            k = adeg(at, env)
            if k == 0:
                continue
            if e < 0 or k is None:
                return None
            d += k * e
        best = max(best, d)
    return best


def adeg(at, env):
    if at in env:
        return env[at]
    if at.op == "ite" and adeg(at.a[0], env) == 0:
        ds = [degree(x, env) for x in at.a[1:]]
        return None if None in ds else max(ds)
    for l in walk(at):
        if l in env and env[l] != 0:
            return None
    return 0


@check("A03", "For every node-building function and every combination of operand expression types, the type() reported by the returned node is at least the polynomial degree class of the value it denotes (constant < linear < quadratic < nonlinear), and for +, -, unary - and * by a constant exactly the operand class.",
       assumptions=["operands' own types are not understated (induction over the expression)"], expect=16)
def a03(R):
    u = R.unit("autodiff")
    for f, k in builders(u):
        E = Ex(u)
        tn = {"CONSTANT": 0, "LINEAR": 1, "QUADRATIC": 2, "NONLINEAR": None}
        rank = {"CONSTANT": 0, "LINEAR": 1, "QUADRATIC": 2, "NONLINEAR": 3}

        def ob():
            ps = [sym("pl"), sym("pr")][:k]
            P0 = build(E, f, k, ps)
            import itertools
            for ts in itertools.product(tn, repeat=k):
                m = {}
                env = {}
                for p, t in zip(ps, ts):
                    tv = E.T[t]
                    m[E.typ(p)] = tv
                    m[raw("ord", E.typ(p))] = LM.ordn(tv)
                    env[raw("dyn", p)] = tn[t]
                C = E.cases()
                msg = []

                def leaf(a, b, facts=(), sub=None):
                    if a.op == "null":
                        return True
                    lm = {k2: v2 for k2, v2 in (sub or {}).items()}
                    tt = canon(subst(subst(E.typeof(a), m), lm))
                    if tt.op != "enumc":
                        raise Undecided("type " + show(tt)[:80])
                    v = canon(subst(subst(E.dyn(a), m), lm))
                    d = degree(v, env)
                    got = tt.a[0].split("::")[-1]
                    need = 3 if d is None or d > 2 else d
                    special = any(o == "=" for _, _, o in facts)
                    if rank.get(got, -1) < need:
                        msg.append("operands %s: result reports %s but its value %s has degree class %s" % (ts, got, show(v)[:200], [k for k in rank if rank[k] == need][0]))
                        return False
                    if f["n"] in ("operator+", "operator-", "operator*", "operator/") and not special and rank[got] > need and exactcase(f["n"], ts):
                        msg.append("operands %s: result reports %s for an expression of degree class %s" % (ts, got, [k for k in rank if rank[k] == need][0]))
                        return False
                    return True
                C.eqrule = leaf
                P = canon(subst(canon(P0), m))
                if not C.check(P, sym("?"), [Not(cmp("peq", p, NULL)) for p in ps]):
                    return msg[0] if msg else C.explain()
        R.check("%s/%d type" % (f["n"], k), u.loc(f), ob)
        R.saw(u, E.I.inlined)
    # variables and constants themselves
    for c in classes(u):
        if c["q"].endswith("::DecisionVariableExpression"):
            E = Ex(u)

            def ob():
                t = E.typeof(raw("node", c["dn"]))
                if t is not E.T["LINEAR"]:
                    return "a decision variable reports " + show(t)
            R.check("decision variable type", c["dn"], ob)


def exactcase(n, ts):
    if n in ("operator+", "operator-"):
        return True
    if n == "operator*":
        return True
    return len(ts) == 2 and ts[1] == "CONSTANT"

