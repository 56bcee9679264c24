"""A06-A08: graph traversal and derivative objects."""
from frame import check, Broken
from vx import *
import chk_var as CV

N = "slp::detail::"
ARGS = N + "Expression::args"
SCR = N + "Expression::scratch"
ADJ = N + "Expression::adjoint"
ADJX = N + "Expression::adjoint_expr"
OKOPS = CV.KNOWN | {"vcall", "fold", "hfor", "comp", "flat", "bv", "phi", "len", "popped", "push", "cat", "trip", "gexpr", "pair", "ord", "tr", "fromtrip", "dims", "dim:rows", "dim:cols", "eigen0", "triangularView<1>", "forupd", "init", "forall", "exists"}


def known(t):
    bad = sorted({x.op for x in TM.walk(t)} - OKOPS)
    return ", ".join(bad)


def viol(t, msg):
    """msg as a violation when t consists of modelled operations only"""
    b = known(t) if isinstance(t, T) else ""
    if b:
        raise Undecided(msg[:120] + " [" + b + "]")
    return msg


def anode(u):
    for r in u.recs.values():
        if r["dn"].startswith(N + "BinaryMinusExpression"):
            return r["dn"]
    raise Undecided("no node class")


def default(E, field):
    """initial value of a field of a new node"""
    v = E.I.nodefield(raw("node", N + "ConstantExpression<double>", ZERO), field)
    if v is None:
        raise Undecided("no field " + field)
    return v


def isnonnull(c, p):
    return c is Not(cmp("peq", p, NULL)) or c is Not(cmp("peq", NULL, p))


def arg(node, k):
    return sel(getf(node, ARGS), num(k) if isinstance(k, int) else k)


# ------------------------------------------------------ topological sort

def topo_obligations(R):
    u = R.unit("autodiff")
    fs = [f for f in u.fn(N + "topological_sort") if f.get("body")]
    f = fs[0]
    E = Ex(u)
    E.I.loops = []
    st = State()
    root = sym("root")
    try:
        v, s = E.I.call_fn(st, f, None, [E.I.alloc(st, root, "root")])
        err = None
    except (Unsupported, NoReturn) as ex:
        err = ex
    where = u.loc(f)
    T_ = {}

    def setup():
        if err:
            raise err
        if T_:
            return
        LL = [L for L in E.I.loops if ("H", SCR) in L["changed"]]
        if len(E.I.loops) != 2 or len(LL) != 2:
            raise Undecided("%d traversal loops recognised, expected the counting and the emission pass" % len(E.I.loops))
        for nm, L in zip("AB", LL):
            if L["exits"] or (L["ng"] is not None and L["ng"] is not TRUE) or L["next"] is None:
                raise Undecided("loop with early exits")
            d = {"L": L}
            sc = L["h0"].store[("H", SCR)]
            d["sc"] = sc
            conts = [k for k in L["changed"] if k[0] == "v" and L["h0"].store[k].op == "phi"]
            other = [k for k in L["changed"] if k not in conts and k != ("H", SCR)]
            if other:
                raise Undecided("loop changes " + str(other)[:100])
            stk = None
            for k in conts:
                ph = L["h0"].store[k]
                if L["cond"] is Not(cmp("ieq", ZERO, raw("len", ph))) or L["cond"] is Not(cmp("ieq", raw("len", ph), ZERO)) or L["cond"] is cmp("ilt", ZERO, raw("len", ph)):
                    stk = k
            if stk is None:
                raise Undecided("loop condition " + show(L["cond"])[:80])
            d["stk"] = stk
            ph = L["h0"].store[stk]
            nx = L["next"].store[stk]
            d["node"] = sel(ph, sub(raw("len", ph), ONE))
            if nx.op == "cat" and nx.a[0] is raw("popped", ph) and nx.a[1].op == "comp":
                bs, g, x = nx.a[1].a
            elif nx.op == "ite":
                raise Undecided("stack update " + show(nx)[:100])
            else:
                raise Undecided("stack update " + show(nx)[:100])
            if len(bs) != 1:
                raise Undecided("argument loop nest")
            d["push"] = (bs[0], g, x)
            h = L["next"].store[("H", SCR)]
            if h.op != "hfor" or h.a[0] is not sc or len(h.a[1]) != 1:
                raise Undecided("counter update " + show(h)[:100])
            _, hb, p, val, hg = h.a
            d["cnt"] = (hb[0], p, val, hg)
            d["lists"] = [k for k in conts if k != stk]
            T_[nm] = d

    def parse(d):
        (bv, lo, hi), p, val, g = d["cnt"]
        k = sym("k")
        m = {bv: k}
        node = d["node"]
        p, val, g = subst(p, m), subst(val, m), subst(g, m)
        if canon(lo) is not ZERO or canon(hi) not in (canon(length(getf(node, ARGS))), num(2)):
            return viol(hi, "only arguments [%s, %s) of a node are counted" % (show(lo), show(hi)))
        a = arg(node, k)
        if p is not a:
            return viol(p, "the counter updated is that of %s, not of the argument" % show(p)[:100])
        cell = raw("hsel", d["sc"], a)
        dl = canon(sub(val, cell))
        if not isnum(dl) or dl is ZERO:
            return viol(dl, "the counter of an argument changes by %s per edge" % show(dl)[:80])
        gs = list(g.a) if g.op == "and" else [g]
        ex = [c for c in gs if c is not TRUE and not isnonnull(c, a)]
        if not any(isnonnull(c, a) for c in gs):
            return "a missing argument is dereferenced"
        d["delta"] = dl
        d["extra"] = frozenset(subst(c, {a: sym("arg")}) for c in ex)
        (bv, lo, hi), g, x = d["push"]
        m = {bv: k}
        g, x = subst(g, m), subst(x, m)
        if x is not a:
            return viol(x, "%s is put on the stack instead of the argument" % show(x)[:80])
        if canon(lo) is not ZERO or canon(hi) not in (canon(length(getf(node, ARGS))), num(2)):
            return viol(hi, "only arguments [%s, %s) of a node are explored" % (show(lo), show(hi)))
        gs = list(g.a) if g.op == "and" else [g]
        rest = []
        for c in gs:
            if isnonnull(c, a) or c is TRUE:
                continue
            # the counter as it is when this argument's turn comes: the heap
            # at entry to, or in the middle of, the loop over the arguments
            run_ = {y: sym("s") for y in TM.walk(c) if y.op == "hsel" and y.a[1] is a and (y.a[0] is d["sc"] or y.a[0].op == "phi" and y.a[0].a[-1:] == d["sc"].a[-1:] or y.a[0].op == "phi" and show(y.a[0]) == show(d["sc"]))}
            c2 = subst(subst(c, run_), {a: sym("arg")})
            if c2 in d["extra"]:
                continue
            rest.append(c2)
        d["pushcond"] = And(*rest) if rest else TRUE
        return None

    def constonly(c, E=E):
        """condition that can only exclude constants"""
        C = E.cases()
        t = subst(c, {E.typ(sym("arg")): E.T["LINEAR"]})
        vals = [subst(c, {E.typ(sym("arg")): E.T[n]}) for n in E.T if n not in ("NONE", "CONSTANT")]
        return all(canon(x) is TRUE for x in vals)

    def ob_count():
        setup()
        I0 = default(E, SCR)
        A = T_["A"]
        r = parse(A)
        if r:
            return r
        for c in A["extra"]:
            if not constonly(c):
                return viol(c, "arguments are only explored where " + show(c)[:150])
        C = E.cases()
        s_ = sym("s")
        if not C.check(A["pushcond"], cmp("ieq", sub(s_, ZERO) if False else s_, sub(I0, ZERO))):
            return viol(A["pushcond"], "an argument is explored when its counter satisfies %s instead of on its first visit (counter = %s)" % (show(A["pushcond"])[:120], show(I0)))
        L = A["L"]
        i0 = L["init"].store.get(A["stk"])
        if i0 is not raw("list", root):
            return viol(i0, "exploration starts from " + show(i0)[:100])
        if ("H", SCR) in L["init"].store and L["init"].store[("H", SCR)] is not None and L["init"].store[("H", SCR)].op not in ("heap", "null"):
            raise Undecided("counters modified before the first pass")
        if A["lists"]:
            raise Undecided("counting pass fills another list")

    def ob_emit():
        setup()
        I0 = default(E, SCR)
        A, B = T_["A"], T_["B"]
        for d in (A, B):
            r = parse(d)
            if r:
                return r
        if canon(add(A["delta"], B["delta"])) is not ZERO:
            return "an edge changes the counter by %s in the first pass and %s in the second: counters are not restored" % (show(A["delta"]), show(B["delta"]))
        if A["extra"] != B["extra"]:
            return viol(And(*B["extra"]), "the two passes treat different arguments: %s / %s" % ([show(x)[:80] for x in A["extra"]], [show(x)[:80] for x in B["extra"]]))
        C = E.cases()
        s_ = sym("s")
        if not C.check(B["pushcond"], cmp("ieq", add(s_, B["delta"]), I0)):
            return viol(B["pushcond"], "an argument is emitted when its counter satisfies %s, not when its last incoming edge is removed" % show(B["pushcond"])[:150])
        L = B["L"]
        i0 = L["init"].store.get(B["stk"])
        pa = A["L"]["h0"].store[A["stk"]]
        if i0 not in (raw("list", root), raw("push", pa, root)):
            return viol(i0, "emission starts from " + show(i0)[:100])
        if L["init"].store.get(("H", SCR)) is not A["sc"]:
            return viol(L["init"].store.get(("H", SCR)), "the counters are modified between the passes")
        if len(B["lists"]) != 1:
            raise Undecided("output lists")
        k = B["lists"][0]
        ph = L["h0"].store[k]
        if L["init"].store.get(k) is not EMPTY:
            return viol(L["init"].store.get(k), "the output list does not start empty")
        nx = L["next"].store[k]
        if nx is not raw("push", ph, B["node"]):
            return viol(nx, "a visited node is not appended exactly once: " + show(nx)[:120])
        T_["out"] = ph

    def ob_result():
        setup()
        ob_emit()
        w = ite(Or(cmp("peq", NULL, root), cmp("ieq", E.typ(root), E.const)), EMPTY, T_["out"])
        w2 = ite(cmp("peq", NULL, root), EMPTY, T_["out"])
        w3 = ite(Or(cmp("peq", NULL, root), cmp("peq", E.typ(root), E.const)), EMPTY, T_["out"])
        if v in (w, w2, w3) or canon(v) in (canon(w), canon(w2), canon(w3)):
            return
        conds = {c: None for c in TM.walk(v) if c.op in ("ieq", "peq")}
        nn = subst(v, {cmp("peq", NULL, root): FALSE})
        for n in E.T:
            if n in ("NONE", "CONSTANT"):
                continue
            x = canon(subst(nn, {E.typ(root): E.T[n]}))
            if x is not T_["out"]:
                return viol(x, "for a %s root the result is %s, not the sorted list" % (n, show(x)[:100]))
        raise Undecided("result " + show(v)[:120])
    R.check("topological_sort counts every edge once from the root", where, ob_count)
    R.check("topological_sort emits a node after its last incoming edge and restores the counters", where, ob_emit)
    R.check("topological_sort returns the emitted list", where, ob_result)
    R.saw(u, E.I.inlined)


# ---------------------------------------------------------- transitions

def settle(E, t, facts):
    """apply facts {condition: truth}; assume non-constant operands"""
    m = {}
    for c in TM.walk(t):
        if c.op in ("peq", "ieq") and c not in m:
            for k, b in facts.items():
                if c is k:
                    m[c] = TRUE if b else FALSE
    return canon(subst(t, m))


def peq(a, b):
    return cmp("peq", a, b)


def nodecases(E, node):
    """leaf, unary, binary with distinct operands, binary with one operand"""
    l, r = arg(node, 0), arg(node, 1)
    base = {peq(l, node): False, peq(r, node): False}
    yield "leaf", {**base, peq(NULL, l): True, peq(NULL, r): True, peq(l, r): True}
    yield "unary", {**base, peq(NULL, l): False, peq(NULL, r): True, peq(l, r): False}
    yield "binary", {**base, peq(NULL, l): False, peq(NULL, r): False, peq(l, r): False}
    yield "binary with equal operands", {**base, peq(NULL, l): False, peq(NULL, r): False, peq(l, r): True}


def nonconst(E, t, node):
    """operands and node are not constants"""
    m = {}
    for c in TM.walk(t):
        if c.op in ("peq", "ieq") and any(x.op == "vcall" and x.a[0] == "type" for x in c.a) and any(x is E.const for x in c.a):
            m[c] = FALSE
    return subst(t, m) if m else t


def listfold(h, lst, forward, what):
    """fold over the node list in the given order -> (phi, init, next with
    node symbol)"""
    if h.op == "ite":
        # empty list
        c = h.a[0]
        e = cmp("ieq", ZERO, raw("len", lst))
        if c is e:
            h = h.a[2]
        elif c is Not(e):
            h = h.a[1]
    if h.op != "fold" or len(h.a[0]) != 1:
        raise Undecided("%s: %s" % (what, show(h)[:100]))
    (bv, lo, hi), = h.a[0]
    ph, i0, n = h.a[1:]
    nodes = {x for x in TM.walk(n) if x.op == "sel" and x.a[0] is lst}
    if len(nodes) != 1:
        raise Undecided("%s uses %d list positions" % (what, len(nodes)))
    nd = nodes.pop()
    idx = canon(nd.a[1])
    last = canon(sub(raw("len", lst), ONE))
    first_ix, last_ix = canon(subst(idx, {bv: lo})), canon(subst(idx, {bv: sub(hi, ONE)}))
    step = canon(sub(subst(idx, {bv: add(bv, ONE)}), idx))
    a, b, w = (ZERO, last, ONE) if forward else (last, ZERO, num(-1))
    if step is not w:
        return viol(idx, "%s runs through the list in steps of %s instead of %s" % (what, show(step), show(w)))
    if first_ix is not a or last_ix is not b:
        return viol(idx, "%s covers list positions %s to %s instead of %s to %s" % (what, show(first_ix), show(last_ix), show(a), show(b)))
    node = sym("node")
    n = subst(n, {nd: node})
    if bv in leaves(n):
        raise Undecided(what + " depends on the position")
    return ph, i0, n, node, h


def update_obligations(R):
    u = R.unit("autodiff")
    for f in u.fn(N + "update_values"):
        E = Ex(u)

        def ob():
            st = State()
            lst = sym("list")
            v, s = E.I.call_fn(st, f, None, [E.I.alloc(st, lst, "list")])
            h = s.store.get(("H", VALF))
            if h is None:
                return "no value is updated"
            r = listfold(h, lst, False, "the update pass")
            if isinstance(r, str):
                return r
            ph, i0, n, node, _ = r
            if i0.op != "heap":
                return viol(i0, "values are modified before the update pass")
            for k in s.store:
                if k[0] == "H" and k[1] != VALF:
                    return "the update pass writes " + k[1]
            for name, facts in nodecases(E, node):
                x = settle(E, nonconst(E, n, node), facts)
                if name == "leaf":
                    if x is not ph:
                        return viol(x, "a node without operands is overwritten: " + show(x)[:150])
                    continue
                if x is ph:
                    return "the value of a %s node is not updated" % name
                if x.op == "ite" and ph in x.a[1:] and not any(y.op == "vcall" and y.a[0] == "value" for y in TM.walk(x.a[0])) and {y.op for y in TM.walk(x.a[0])} <= OKOPS | {"flt", "fle", "feq", "isnan", "isfinite"} and any(y.op in ("flt", "fle", "feq", "isnan", "isfinite") for y in TM.walk(x.a[0])):
                    return "a %s node keeps its old value depending on %s" % (name, show(x.a[0])[:150])
                if x.op != "hst" or x.a[0] is not ph or x.a[1] is not node:
                    return viol(x, "updating a %s node gives %s" % (name, show(x)[:150]))
                w = x.a[2]
                if w.op != "vcall" or w.a[0] != "value" or w.a[1] is not node:
                    return viol(w, "the value of a %s node is set to %s" % (name, show(w)[:150]))
                l, rr = w.a[2], w.a[3]
                if l is not raw("hsel", ph, arg(node, 0)):
                    return viol(l, "the first operand's value of a %s node is read as %s" % (name, show(l)[:150]))
                if name != "unary":
                    want = raw("hsel", ph, arg(node, 1))
                    if name == "binary with equal operands" and rr is raw("hsel", ph, arg(node, 0)):
                        continue
                    if rr is not want:
                        return viol(rr, "the second operand's value of a %s node is read as %s" % (name, show(rr)[:150]))
        R.check("update_values recomputes every node after its operands", u.loc(f), ob)
        R.saw(u, E.I.inlined)


def distinctlist(h, lst, x, rg0=None):
    """read heap h at list position x (nodes of a sorted list are distinct)"""
    if h.op == "hst":
        p, v = h.a[1], h.a[2]
        if p.op == "sel" and p.a[0] is lst:
            return ite(cmp("ieq", canon(p.a[1]), x), v, distinctlist(h.a[0], lst, x))
        raise Undecided("write to " + show(p)[:60])
    if h.op == "hfor":
        b, bs, p, v, g = h.a
        if len(bs) == 1 and p.op == "sel" and p.a[0] is lst:
            bv, lo, hi = bs[0]
            idx = canon(p.a[1])
            c = canon(subst(idx, {bv: ZERO}))
            if canon(sub(idx, bv)) is c and bv not in leaves(c):
                k = canon(sub(x, c))
                m = {bv: k}
                inr = And(cmp("ile", lo, k), cmp("ilt", k, hi), subst(g, m))
                return ite(canon(inr), subst(v, m), distinctlist(b, lst, x))
        raise Undecided("writes " + show(h)[:80])
    if h.op == "heap":
        return sym("old")
    raise Undecided("heap " + show(h)[:80])


def accum(E, name, facts, ph, n, node, fieldadd, opname):
    """check the transition of an adjoint pass in one case; fieldadd(old,
    contribution) is the accumulation, contributions are matched by their
    virtual call"""
    x = settle(E, n, facts)
    l, r = arg(node, 0), arg(node, 1)
    if name == "leaf":
        return None if x is ph else viol(x, "a node without operands propagates: " + show(x)[:150])

    def contributions(t, base):
        """multiset of derivative calls added to base, or None"""
        out = []
        work = t
        if fieldadd == "num":
            p = poly(sub(work, base))
            for (m, w), c in p.items():
                if w or len(m) != 1 or m[0][1] != 1 or c != 1:
                    return None
                out.append(m[0][0])
            return out
        while work is not base:
            if work.op == "bld" and work.a[0] == "operator+":
                if work.a[1] is base or any(y is base for y in TM.walk(work.a[1])):
                    out.append(work.a[2])
                    work = work.a[1]
                else:
                    out.append(work.a[1])
                    work = work.a[2]
            else:
                return None
        return out

    def read(q):
        return settle(E, E.I.hsel(None, x, ph.a[1][0][1] if ph.a[1] and isinstance(ph.a[1][0], tuple) else "", q), facts)

    def callok(c, which):
        """is c the derivative call of this operand?"""
        if c.op != "vcall" or c.a[1] is not node:
            return False
        return c.a[0] == opname + which
    def argsok(c):
        a, b = c.a[2], c.a[3]
        if fieldadd == "num":
            la, ra = getf(l, VALF), getf(r, VALF)
        else:
            la, ra = l, r
        if a is not la and not (name.endswith("equal operands") and a is ra):
            return "%s of a %s node is called with first operand %s" % (c.a[0], name, show(a)[:80])
        if name != "unary" and b is not ra and not (name.endswith("equal operands") and b is la):
            return "%s of a %s node is called with second operand %s" % (c.a[0], name, show(b)[:80])
    want = {"unary": [(l, ["l"])], "binary": [(l, ["l"]), (r, ["r"])], "binary with equal operands": [(l, ["l", "r"])]}[name]
    for q, sides in want:
        base = raw("hsel", ph, q)
        got = contributions(read(q), base)
        if got is None and q is l and name.endswith("equal operands"):
            got = contributions(read(q), raw("hsel", ph, r))
        if got is None:
            return viol(read(q), "the adjoint of an operand of a %s node becomes %s" % (name, show(read(q))[:200]))
        rem = list(got)
        for sd in sides:
            c = [y for y in rem if callok(y, sd)]
            if len(c) != 1:
                return viol(read(q), "an operand of a %s node receives %d contributions %s%s" % (name, len(c), opname, sd))
            e = argsok(c[0])
            if e:
                return viol(c[0], e)
            rem.remove(c[0])
        if rem:
            return viol(read(q), "an operand of a %s node also receives %s" % (name, show(rem[0])[:100]))
    q = sym("q")
    f2 = dict(facts)
    f2.update({peq(q, l): False, peq(q, r): False, peq(q, node): False})
    y = settle(E, E.I.hsel(None, x, "", q), f2)
    if y is not raw("hsel", ph, q):
        return viol(y, "processing a %s node changes the adjoint of another node" % name)
    if not name.endswith("equal operands") or True:
        f3 = dict(facts)
        y = settle(E, E.I.hsel(None, x, "", node), f3)
        if y is not raw("hsel", ph, node):
            return viol(y, "processing a node changes its own adjoint")
    return None


def skipzero(n, node, ph):
    """a node whose adjoint is zero contributes nothing: assume nonzero"""
    z = raw("hsel", ph, node)
    m = {}
    for c in TM.walk(n):
        if c.op in ("feq", "peq", "ieq") and z in c.a and (ZERO in c.a or NULL in c.a):
            m[c] = FALSE
    return subst(n, m) if m else n


def triplet_obligations(R):
    u = R.unit("autodiff")
    for f in u.fn(N + "append_triplets"):
        E = VX(u)
        box = {}

        def run():
            if box:
                return
            st = State()
            lst, outl, tr, row = sym("list"), sym("out"), sym("triplets"), sym("row")
            t = E.I.alloc(st, tr, "t")
            args = [E.I.alloc(st, lst, "l"), E.I.alloc(st, outl, "o"), t, row]
            v, s = E.I.call_fn(st, f, None, args)
            box.update(s=s, t=E.I.load(s, t), lst=lst, outl=outl, row=row, tr=tr)

        def ob_init():
            run()
            h = box["s"].store.get(("H", ADJ))
            if h is None:
                return "no adjoint is computed"
            r = listfold(h, box["lst"], True, "the adjoint pass")
            if isinstance(r, str):
                return r
            ph, i0, n, node, _ = r
            x = sym("x")
            e = distinctlist(i0, box["lst"], x)
            C = CV.cases(E)
            facts = [cmp("ile", ZERO, x), cmp("ilt", x, raw("len", box["lst"]))]
            if not C.check(e, ite(cmp("ieq", x, ZERO), ONE, ZERO), facts):
                return viol(e, "adjoints start as %s instead of 1 for the root and 0 for every other node (%s)" % (show(e)[:150], C.explain()[:150]))

        def ob_step():
            run()
            h = box["s"].store.get(("H", ADJ))
            if h is None:
                return "no adjoint is computed"
            r = listfold(h, box["lst"], True, "the adjoint pass")
            if isinstance(r, str):
                return r
            ph, i0, n, node, _ = r
            n = skipzero(nonconst(E, n, node), node, ph)
            for name, facts in nodecases(E, node):
                e = accum(E, name, facts, ph, n, node, "num", "grad_")
                if e:
                    return e
            for k in box["s"].store:
                if k[0] == "H" and k[1] != ADJ:
                    return "the adjoint pass writes " + k[1]

        def ob_out():
            run()
            t = box["t"]
            e = cmp("ieq", ZERO, raw("len", box["lst"]))
            if t.op == "ite" and t.a[0] is e:
                if t.a[1] is not box["tr"]:
                    return viol(t.a[1], "triplets are changed for an empty graph")
                t = t.a[2]
            h = box["s"].store.get(("H", ADJ))
            if h.op == "ite":
                h = h.a[2] if h.a[0] is e else h.a[1]
            if t.op != "cat" or t.a[0] is not box["tr"] or t.a[1].op not in ("comp",):
                return viol(t, "triplets become " + show(t)[:200])
            bs, g, x = t.a[1].a
            ol = box["outl"]
            if len(bs) != 1:
                raise Undecided("triplet nest")
            bv, lo, hi = bs[0]
            if canon(g) is not TRUE and not zeroskip(g, h, sel(ol, bv)):
                return viol(g, "triplets are only appended where " + show(g)[:150])
            if canon(lo) is not ZERO or canon(hi) is not canon(raw("len", ol)):
                return viol(hi, "triplets are appended for outputs [%s, %s)" % (show(lo), show(hi)))
            if x.op != "rec":
                raise Undecided("triplet " + show(x)[:80])
            d = dict(x.a[1])
            o = sel(ol, bv)
            if d.get("row") is not box["row"]:
                return viol(d["row"], "the triplet's row is " + show(d["row"])[:80])
            if d.get("col") is not getf(o, "t0"):
                return viol(d["col"], "the triplet's column is " + show(d["col"])[:80])
            w = E.I.hsel(None, h, ADJ, getf(o, "t1"))
            if d.get("value") is not w:
                return viol(d["value"], "the triplet's value is " + show(d["value"])[:150])

        def zeroskip(g, h, o):
            z = E.I.hsel(None, h, ADJ, getf(o, "t1"))
            return g in (Not(cmp("feq", ZERO, z)), Not(cmp("feq", z, ZERO)))
        R.check("append_triplets starts from adjoint 1 at the root and 0 elsewhere", u.loc(f), ob_init)
        R.check("append_triplets propagates every node's adjoint to its operands", u.loc(f), ob_step)
        R.check("append_triplets writes each output's adjoint at its row and column", u.loc(f), ob_out)
        R.saw(u, E.I.inlined)


def tree_obligations(R):
    u = R.unit("autodiff")
    fs = [f for f in u.fns.values() if f["q"] == N + "gradient_tree" and f.get("body")]
    if not fs:
        raise Broken("no gradient_tree")
    f = fs[0]
    E = MX(u)
    box = {}
    WR = "slp::VariableMatrix::m_rows"

    def run():
        if box:
            return
        st = State()
        lst, wrt = sym("list"), sym("wrt")
        args = [E.I.alloc(st, lst, "l"), E.I.alloc(st, wrt, "w") if E.I.ty(f["params"][1]["t"]).get("ref") else wrt]
        v, s = E.I.call_fn(st, f, None, args)
        if E.I.islv(v):
            v = E.I.load(s, v)
        empty = cmp("ieq", ZERO, raw("len", lst))

        def case(t, b):
            return canon(subst(t, {empty: TRUE if b else FALSE, raw("len", lst): ZERO if b else raw("len", lst)}))
        box.update(s=s, v=v, lst=lst, wrt=wrt, case=case)
        h = s.store.get(("H", ADJX))
        box["h"] = h
        box["hn"] = None
        if h is not None:
            h = case(h, False)
            box["hn"] = h

    def pass_():
        run()
        h = box["hn"]
        if h is None:
            return "no gradient expression is built"
        # the final heap: resets over the fold
        rs = []
        while h.op in ("hfor", "hst"):
            rs.append(h)
            h = h.a[0]
        r = listfold(h, box["lst"], True, "the gradient pass")
        return r, rs, h

    def ob_step():
        r = pass_()
        if isinstance(r, str):
            return r
        (r, rs, h) = r
        if isinstance(r, str):
            return r
        ph, i0, n, node, _ = r
        root = sel(box["lst"], ZERO)
        if i0.op != "hst" or i0.a[0].op != "heap" or i0.a[1] is not root:
            return viol(i0, "the gradient pass starts from " + show(i0)[:150])
        C = CV.cases(E)
        if not C.check(E.dyn(i0.a[2]), ONE):
            return "the root's adjoint expression denotes something else than 1"
        n = skipzero(nonconst(E, n, node), node, ph)
        for name, facts in nodecases(E, node):
            e = accum(E, name, facts, ph, n, node, "expr", "grad_expr_")
            if e:
                return e

    def ob_out():
        r = pass_()
        if isinstance(r, str):
            return r
        (r, rs, h) = r
        if isinstance(r, str):
            return r
        i = sym("i")
        W = box["wrt"]
        n = getf(W, WR)
        rg = Ranges((i, n))
        tid = f["ret"] if "ret" in f else None
        st = box["s"]
        vm = [i_ for i_ in range(len(u.types)) if tname(u, i_) == "Matrix"] if isinstance(u.types, list) else [k for k in u.types if tname(u, k) == "Matrix"]
        dm = E.dims(st, vm[0], box["v"])
        if canon(dm[0]) is not canon(n) or canon(dm[1]) is not ONE:
            return viol(dm[0], "the gradient has dimensions %s x %s" % (show(dm[0])[:60], show(dm[1])[:60]))
        cell = resolve(E.cell(st, vm[0], box["v"], i, ZERO), rg)
        x = box["case"](getf(cell, EXPRF), False)
        x = resolve(x, rg)
        w = E.I.hsel(None, h, ADJX, getf(sel(getf(W, "slp::VariableMatrix::m_storage"), i), EXPRF))
        m = {}
        for c in TM.walk(x):
            if c in (cmp("ile", ZERO, i), cmp("ilt", i, n), And(cmp("ile", ZERO, i), cmp("ilt", i, n))):
                m[c] = TRUE
        x = subst(x, m)
        if canon(x) is not canon(w):
            return viol(canon(x), "element i of the gradient is %s instead of the adjoint expression of wrt[i]" % show(canon(x))[:200])
        y = resolve(box["case"](getf(cell, EXPRF), True), rg)
        if y is not NULL:
            C = CV.cases(E)
            if not C.check(E.dyn(y), ZERO):
                return viol(y, "for a constant root the gradient is " + show(y)[:120])

    def ob_reset():
        r = pass_()
        if isinstance(r, str):
            return r
        (r, rs, h) = r
        if isinstance(r, str):
            return r
        x = sym("x")
        e = None
        for q in rs:
            if q.op == "hfor":
                e = distinctlist(q, box["lst"], x) if q.a[0].op == "heap" else distinctlist(raw("hfor", raw("heap", ADJX), *q.a[1:]), box["lst"], x)
                facts = [cmp("ile", ZERO, x), cmp("ilt", x, raw("len", box["lst"]))]
                C = CV.cases(E)
                if C.check(e, NULL, facts):
                    return
        return viol(box["hn"], "adjoint expressions are left in the nodes after the pass: the final state is " + show(box["hn"])[:200])
    R.check("gradient_tree propagates every node's adjoint expression to its operands", u.loc(f), ob_step)
    R.check("gradient_tree returns the adjoint expression of each variable", u.loc(f), ob_out)
    R.check("gradient_tree leaves no adjoint expression behind", u.loc(f), ob_reset)
    try:
        run()
    except Exception:
        pass
    R.saw(u, E.I.inlined)


# ------------------------------------------------------ derivative objects

class GX(MX):
    """append_triplets and gradient_tree replaced by their contracts"""

    def __init__(self, u):
        super().__init__(u)
        self.I.hooks[N + "append_triplets"] = self.h_app
        self.I.hooks[N + "gradient_tree"] = self.h_gt

    def h_app(self, I, st, fr, e, f):
        g, o = I.val(st, fr, e["a"][0]), I.val(st, fr, e["a"][1])
        t = I.ev(st, fr, e["a"][2])
        r = I.val(st, fr, e["a"][3])
        h = st.store.get(("H", VALF), raw("heap", VALF))
        I.store(st, t, cat(I.load(st, t), raw("trip", g, o, r, h)))
        return UNIT

    def h_gt(self, I, st, fr, e, f):
        g, w = I.val(st, fr, e["a"][0]), I.val(st, fr, e["a"][1])
        k = raw("bv", "gk")
        wr = getf(w, "slp::VariableMatrix::m_rows")
        ms = raw("comp", ((k, ZERO, wr),), TRUE, rec("slp::Variable<double>", {EXPRF: raw("gexpr", g, getf(sel(getf(w, "slp::VariableMatrix::m_storage"), k), EXPRF)), CV.GF: EMPTY, CV.IF: FALSE}))
        return rec("slp::VariableMatrix<double>", {"slp::VariableMatrix::m_rows": wr, "slp::VariableMatrix::m_cols": ONE, "slp::VariableMatrix::m_storage": ms})


MR, MC, MS = "slp::VariableMatrix::m_rows", "slp::VariableMatrix::m_cols", "slp::VariableMatrix::m_storage"
ROLES = ("m_variables", "m_wrt", "m_top_lists", "m_output_lists", "m_cached_triplets", "m_nonlinear_rows")


def colvec(t, *ms):
    """the named matrices are column vectors with consistent storage"""
    m = {}
    for x in ms:
        m[getf(x, MC)] = ONE
        m[raw("len", getf(x, MS))] = getf(x, MR)
    return subst(t, m)


def lexact(t, n):
    """length-consistent view: list positions"""
    return t


def classof(u, dn):
    r = [x for x in u.recs.values() if x["dn"] == dn]
    if not r:
        raise Broken("class %s not found" % dn)
    return r[0]


def fields(v, cn):
    if v.op != "rec":
        raise Undecided("object " + show(v)[:60])
    d = {}
    for k, x in v.a[1]:
        d[k.split("::")[-1]] = x
    return d


def mats(u, cn):
    """name of the sparse matrix field"""
    for f in classof(u, cn)["fields"]:
        if "SparseMatrix" in u.ts(f["t"]):
            return f["n"]
    raise Undecided("no sparse matrix field in " + cn)


class Deriv:
    def __init__(self, R, u, cn):
        self.R, self.u, self.cn = R, u, cn
        self.rq = cn.split("<")[0]
        self.lower = cn.startswith("slp::Hessian") and cn.endswith(", 1>")
        self.hess = cn.startswith("slp::Hessian")

    def fld(self, x, n):
        return getf(x, self.rq + "::" + n)

    def names(self):
        n = {f["n"] for f in classof(self.u, self.cn)["fields"]}
        miss = [r for r in ROLES if r not in n]
        if miss:
            raise Undecided("fields %s not found" % ", ".join(miss))

    def ctors(self):
        fs = [f for f in self.u.fns.values() if f.get("isctor") and f["q"].startswith(self.cn + "::") and (f.get("body") or f.get("inits")) and not f.get("copyctor") and not f.get("movector")]
        main = [f for f in fs if any(i.get("deleg") for i in f.get("inits", ())) is False]
        return fs

    def wraptri(self, m):
        return raw("triangularView<1>", m) if self.lower else m

    def main_ctor(self):
        want = ["Variable", "Matrix"] if self.hess else ["Matrix", "Matrix"]
        for f in self.ctors():
            if [tname(self.u, p["t"]).rstrip("&") for p in f["params"]] == want:
                return f
        raise Undecided("no constructor taking " + " and ".join(want))

    def build(self, E, f, args):
        st = State()
        v = E.I.construct(st, classof(self.u, self.cn), f, args)
        return v, st

    # ----- constructor
    def check_ctor(self):
        u, R = self.u, self.R
        E = GX(u)
        box = {}

        def run():
            if box:
                return
            f = self.main_ctor()
            self.names()
            a0, W = sym("a0"), sym("wrt")
            v, s = self.build(E, f, [a0, W])
            d = fields(v, self.cn)
            for k in list(d):
                d[k] = canon(colvec(d[k], W, *([] if self.hess else [a0])))
            scr = s.store.get(("H", SCR))
            if scr is not None:
                scr = canon(colvec(scr, W))
            V = d["m_variables"]
            k = sym("k")
            n = canon(colvec(getf(V, MR), W, a0))
            box.update(f=f, a0=a0, W=W, d=d, scr=scr, n=n, E=E)
            rg = Ranges((k, n))
            box["rg"], box["k"] = rg, k
            if self.hess:
                tx = raw("gexpr", raw("tsort", getf(a0, EXPRF)), getf(sel(getf(W, MS), k), EXPRF))
            else:
                tx = getf(sel(getf(a0, MS), k), EXPRF)
            box["tx"] = tx

        def at_k(lst):
            """element k of a list of rows"""
            t = lst
            if t.op == "comp" and canon(t.a[1]) is TRUE and len(t.a[0]) == 1:
                bv, lo, hi = t.a[0][0]
                if canon(lo) is not ZERO or canon(hi) is not box["n"]:
                    return None, "rows [%s, %s) are set up instead of all %s" % (show(lo), show(hi)[:60], show(box["n"]))
                return canon(resolve(subst(t.a[2], {bv: box["k"]}), box["rg"])), None
            raise Undecided("row list " + show(t)[:100])

        def ob_vars():
            run()
            d = box["d"]
            if self.hess:
                V = d["m_variables"]
                e = canon(resolve(getf(sel(getf(V, MS), box["k"]), EXPRF), box["rg"]))
                if e is not box["tx"]:
                    return viol(e, "row k differentiates " + show(e)[:150])
                if canon(getf(V, MR)) is not canon(getf(box["W"], MR)):
                    return viol(getf(V, MR), "the number of rows is " + show(getf(V, MR))[:80])
            elif d["m_variables"] is not box["a0"]:
                return viol(d["m_variables"], "the stored variables are " + show(d["m_variables"])[:100])
            if d["m_wrt"] is not box["W"]:
                return viol(d["m_wrt"], "the stored wrt is " + show(d["m_wrt"])[:100])

        def ob_tops():
            run()
            t, e = at_k(box["d"]["m_top_lists"])
            if e:
                return e
            if t is not raw("tsort", box["tx"]):
                return viol(t, "the graph of row k is " + show(t)[:150])

        def scrval(p):
            """scratch of node p while the output lists are made"""
            return p

        def ob_outs():
            run()
            t, e = at_k(box["d"]["m_output_lists"])
            if e:
                return e
            return self.outlist(E, t, box["tx"], box["W"])

        def when(h):
            """markers that are only reset under a condition on their value: (the write, what it was applied to,
            a marker the condition misses)"""
            if h.op != "fold" or len(h.a[0]) != 1:
                return None
            bs, ph, base, body = h.a
            if body.op != "ite" or base.op != "hfor":
                return None
            c, y, n = body.a
            if y.op != "hst":
                c, y, n = canon(Not(c)), n, y
            if y.op != "hst" or y.a[0] is not ph or n is not ph:
                return None
            p = y.a[1]
            b0, bs0, p0, val0, g0 = base.a
            bv, bv0 = bs[0][0], bs0[0][0]
            if len(bs0) != 1 or val0 is not bv0 or canon(subst(p0, {bv0: bv})) is not canon(p) or g0 is not TRUE or \
                    [canon(z) for z in bs0[0][1:]] != [canon(z) for z in bs[0][1:]]:
                return None
            bad = None
            for k in (0, 1, 2, 3, 1000):
                r = canon(subst(c, {raw("hsel", ph, p): num(k), bv: sym("position")}))
                if r is FALSE:
                    bad = k if bad is None else bad
                elif r is not TRUE:
                    return None
            return raw("hfor", base, bs, p, y.a[2], TRUE), base, bad

        def ob_scratch():
            run()
            h = box["scr"]
            if h is None:
                return
            I0 = default(E, SCR)
            sets = []
            while True:
                if h.op == "hfor":
                    sets.append(h)
                    h = h.a[0]
                    continue
                w = when(h)
                if w is None:
                    break
                w, h, bad = w
                if bad is not None:
                    return viol(w, "the column marker %d of wrt is left in the node" % bad)
                sets.append(w)
            if h.op != "heap":
                raise Undecided("scratch " + show(h)[:100])
            last = {}
            for w in sets:
                b, bs, p, val, g = w.a
                key = canon(raw("hfor", raw("heap", "x"), bs, p, ZERO, g))
                if key in last:
                    continue
                last[key] = val
                if canon(val) is not I0:
                    return viol(val, "the column markers of wrt are left in the nodes (scratch = %s, not %s)" % (show(val)[:80], show(I0)))

        def typed(t, n):
            return canon(subst(t, {E.typ(box["tx"]): E.T[n], peq(NULL, box["tx"]): FALSE}))

        def row_in(lst, k, n, cachelist):
            """condition (as term) that row k is in list, by type"""

        def ob_rows():
            run()
            d = box["d"]
            nl, ct = d["m_nonlinear_rows"], d["m_cached_triplets"]
            k = box["k"]
            for t in (nl, ct):
                for w in ([t] if t.op not in ("comp", "flat") else []):
                    if w is EMPTY:
                        continue
                    raise Undecided("row list " + show(w)[:100])

            def inst(t):
                if t is EMPTY:
                    return FALSE, None
                if len(t.a[0]) != 1:
                    raise Undecided("row nest")
                bv, lo, hi = t.a[0][0]
                if canon(lo) is not ZERO or canon(hi) is not box["n"]:
                    raise Undecided("row range [%s, %s)" % (show(lo), show(hi)[:50]))
                m = {bv: k}
                return canon(resolve(subst(t.a[1], m), box["rg"])), canon(resolve(subst(t.a[2], m), box["rg"]))
            gn, xn = inst(nl)
            gc, xc = inst(ct)
            if xn is not None and xn is not k:
                return viol(xn, "the row recomputed for row k is " + show(xn)[:80])
            if xc is not None:
                if xc.op != "trip":
                    raise Undecided("cached entry " + show(xc)[:80])
                g, o, r, h = xc.a
                if r is not k:
                    return viol(r, "the cached gradient of row k is stored in row " + show(r)[:60])
                if g is not raw("tsort", box["tx"]):
                    return viol(g, "the cached gradient of row k is taken from graph " + show(g)[:80])
                e = self.outlist(E, canon(o), box["tx"], box["W"])
                if e:
                    return e
            for n in ("CONSTANT", "LINEAR", "QUADRATIC", "NONLINEAR"):
                a, b = typed(gn, n), typed(gc, n)
                if a not in (TRUE, FALSE) or b not in (TRUE, FALSE):
                    w = a if a not in (TRUE, FALSE) else b
                    if known(w):
                        raise Undecided("row condition " + show(w)[:100])
                    return "whether a %s row is recomputed or cached depends on %s" % (n, show(w)[:150])
                if n == "CONSTANT":
                    if a is TRUE and b is TRUE:
                        return "a constant row is entered twice"
                    continue
                if a is TRUE and b is TRUE:
                    return "a %s row is both cached and recomputed: its entries count twice" % n
                if a is FALSE and b is FALSE:
                    return "a %s row is neither cached nor recomputed" % n
                if n not in ("LINEAR",) and b is TRUE:
                    return "the gradient of a %s row is cached although it depends on the variables" % n
            x = sym("nullrow")
            for g in (gn, gc):
                z = canon(subst(g, {peq(NULL, box["tx"]): TRUE}))
                if z is not FALSE and self.hess:
                    return viol(z, "a row without expression is differentiated")

        def ob_mat():
            run()
            d = box["d"]
            mn = mats(u, self.cn)
            m = d[mn]
            nl, ct = d["m_nonlinear_rows"], d["m_cached_triplets"]
            W = box["W"]
            dims = (box["n"], canon(getf(W, MR)))
            e = cmp("ieq", ZERO, length(nl))
            if m.op != "ite" or canon(m.a[0]) not in (canon(e), canon(Not(e))):
                raise Undecided("matrix " + show(m)[:100])
            a, b = (m.a[1], m.a[2]) if canon(m.a[0]) is canon(e) else (m.a[2], m.a[1])
            w = self.wraptri(raw("fromtrip", raw("dims", *dims), ct))
            if a is not canon(w):
                return viol(a, "the constant matrix is %s, not the cached triplets%s" % (show(a)[:150], " (lower triangle)" if self.lower else ""))
            dd = (LM.dim(E.I, "rows", b), LM.dim(E.I, "cols", b))
            if tuple(map(canon, dd)) != dims:
                return viol(dd[0], "the matrix has dimensions %s x %s" % (show(dd[0])[:60], show(dd[1])[:60]))
        try:
            f = self.main_ctor()
            loc = u.loc(f)
        except Undecided:
            loc = self.cn
        nm = self.cn.replace("slp::", "")
        for t, o in (("stores what it differentiates", ob_vars), ("has every row's graph", ob_tops), ("has every row's output columns", ob_outs), ("restores scratch", ob_scratch), ("caches exactly the linear rows and recomputes the others", ob_rows), ("builds the constant matrix", ob_mat)):
            R.check("%s constructor %s" % (nm, t), loc, o)
        R.saw(u, E.I.inlined)
        # delegating constructors
        for f in self.ctors():
            sg = [tname(u, p["t"]).rstrip("&") for p in f["params"]]
            want = ["Variable", "Matrix"] if self.hess else ["Matrix", "Matrix"]
            if sg == want or not sg or any(s not in ("Variable", "Matrix") for s in sg) or len(sg) != 2:
                continue
            E2 = GX(u)

            def ob(f=f, sg=sg):
                def wrap(x):
                    return rec("slp::VariableMatrix<double>", {MR: ONE, MC: ONE, MS: raw("list", x)})
                a, b = sym("a0"), sym("wrt")
                v, s = self.build(E2, f, [a, b])
                w, s2 = self.build(E2, self.main_ctor(), [wrap(x) if y == "Matrix" and z == "Variable" else x for x, y, z in zip((a, b), want, sg)])
                for (k, x), (k2, y) in zip(v.a[1], w.a[1]):
                    if canon(x) is not canon(y):
                        C = CV.cases(E2)
                        if known(x):
                            raise Undecided("field %s: %s" % (k, show(x)[:80]))
                        return "field %s differs from that of the general constructor: %s" % (k.split("::")[-1], show(x)[:150])
            R.check("%s(%s)" % (nm, ", ".join(sg)), u.loc(f), ob)
            R.saw(u, E2.I.inlined)

    def outlist(self, E, t, tx, W):
        """list of (column, node) pairs of the wrt nodes in the row's graph"""
        I0 = default(E, SCR)
        if t.op != "comp" or len(t.a[0]) != 1:
            raise Undecided("output list " + show(t)[:100])
        (bv, lo, hi), = t.a[0]
        g, x = t.a[1], t.a[2]
        top = raw("tsort", tx)
        node = sel(top, bv)
        if canon(lo) is not ZERO or canon(hi) is not canon(raw("len", top)):
            return viol(hi, "output columns are collected from nodes [%s, %s) of the graph" % (show(lo), show(hi)[:80]))
        if x.op != "rec":
            raise Undecided("output " + show(x)[:80])
        d = dict(x.a[1])
        if d.get("t1") is not node:
            return viol(d["t1"], "the node of an output is " + show(d["t1"])[:100])
        c = d["t0"]
        # column marker: scratch written as the index of wrt
        if c.op != "hsel" or c.a[1] is not node or c.a[0].op != "hfor":
            raise Undecided("column " + show(c)[:100])
        b, bs, p, val, gg = c.a[0].a
        if b.op != "heap" or len(bs) != 1 or canon(gg) is not TRUE:
            raise Undecided("column markers " + show(c.a[0])[:100])
        k2, l2, h2 = bs[0]
        if canon(l2) is not ZERO or canon(colvec(h2, W)) is not canon(getf(W, MR)):
            return viol(h2, "columns are assigned to wrt[%s, %s)" % (show(l2), show(h2)[:60]))
        if p is not getf(sel(getf(W, MS), k2), EXPRF):
            return viol(p, "columns are assigned to " + show(p)[:80])
        if canon(val) is not k2:
            return viol(val, "wrt[k] is assigned column " + show(val)[:80])
        if canon(g) is not canon(Not(cmp("ieq", I0, c))) and canon(g) is not canon(cmp("ilt", I0, c)) and canon(g) is not canon(cmp("ile", ZERO, c)):
            g1, tok = subst(g, {c: sym("s")}), sym("s")
            C = E.cases()
            if not C.check(g1, Not(cmp("ieq", I0, tok)), [cmp("ile", num(-1), tok)]):
                return viol(g1, "outputs are the nodes with " + show(g1)[:100])
        return None

    # ----- value()
    def check_value(self):
        u, R = self.u, self.R
        fs = [f for f in u.fns.values() if f["q"] == self.cn + "::value" and f.get("body")]
        if not fs:
            raise Broken("no %s::value" % self.cn)
        f = fs[0]
        E = GX(u)
        box = {}

        def run():
            if box:
                return
            self.names()
            st = State()
            x = sym("x")
            th = E.I.alloc(st, x, "self")
            v, s = E.I.call_fn(st, f, th, [])
            if E.I.islv(v):
                v = E.I.load(s, v)
            nl = self.fld(x, "m_nonlinear_rows")
            e = cmp("ieq", ZERO, raw("len", nl))

            def case(t, b):
                return canon(subst(t, {e: TRUE if b else FALSE}))
            box.update(x=x, v=v, o=E.I.load(s, th), case=case, s=s, nl=nl)

        def trips(t):
            if t.op == "cat":
                return trips(t.a[0]) + trips(t.a[1])
            return [t]

        def same(p):
            """a list copied element by element is that list"""
            if p.op == "comp" and len(p.a[0]) == 1 and canon(p.a[1]) is TRUE:
                b, lo, hi = p.a[0][0]
                e = canon(p.a[2])
                if e.op == "sel" and e.a[1] is b and canon(lo) is ZERO and canon(hi) is canon(raw("len", e.a[0])):
                    return e.a[0]
            return p

        def ob():
            run()
            x, case, nl = box["x"], box["case"], box["nl"]
            mn = mats(u, self.cn)
            old = self.fld(x, mn)
            new = canon(self.fld(box["o"], mn))
            for n in ROLES:
                if canon(self.fld(box["o"], n)) is not self.fld(x, n):
                    return viol(self.fld(box["o"], n), "value() changes %s to %s" % (n, show(self.fld(box["o"], n))[:120]))
            if box["v"] is not new and canon(box["v"]) is not new:
                return viol(box["v"], "value() returns " + show(box["v"])[:150])
            c = case(new, False)
            t = c
            if self.lower:
                if t.op != "triangularView<1>":
                    return viol(t, "the lower triangle is not selected: " + show(t)[:120])
                t = t.a[0]
            if t.op == "after:Eigen::SparseMatrix::prune" and len(t.a) > 1 and isnum(canon(t.a[1])) and canon(t.a[1]).a[0] > 0:
                return "entries up to a size of %s are dropped" % show(canon(t.a[1]))
            if t.op != "fromtrip":
                return viol(t, "the matrix with nonlinear rows is " + show(t)[:150])
            if t.a[0] not in (raw("dims", raw("dim:rows", old), raw("dim:cols", old)),):
                raise Undecided("dimensions " + show(t.a[0])[:80])
            ps = [same(p) for p in trips(t.a[1])]
            ct = self.fld(x, "m_cached_triplets")
            if ps.count(ct) != 1:
                return viol(t.a[1], "the cached entries occur %d times" % ps.count(ct))
            ps.remove(ct)
            if len(ps) != 1 or ps[0].op != "flat":
                return viol(t.a[1], "recomputed entries are " + show(t.a[1])[:150])
            bs, g, tr = ps[0].a
            if len(bs) != 1 or canon(bs[0][1]) is not ZERO or canon(bs[0][2]) is not canon(raw("len", nl)) or canon(g) is not TRUE:
                return viol(ps[0], "not every nonlinear row is recomputed: " + show(ps[0])[:150])
            row = sel(nl, bs[0][0])
            if tr.op != "trip":
                raise Undecided("entries " + show(tr)[:80])
            gr, out, r, h = tr.a
            if r is not row:
                return viol(r, "entries of a row are stored in row " + show(r)[:80])
            if gr is not sel(self.fld(x, "m_top_lists"), row):
                return viol(gr, "the gradient of a row is taken from graph " + show(gr)[:100])
            if out is not sel(self.fld(x, "m_output_lists"), row):
                return viol(out, "the columns of a row are taken from " + show(out)[:100])
            # values must be up to date when differentiating
            h = case(h, False)
            if h.op == "heap":
                return "rows are differentiated without updating the values of their nodes first"
            tl = self.fld(x, "m_top_lists")
            if h.op == "fold" and h.a[2].op == "heap" and len(h.a[0]) == 1 and h.a[3].op == "uph" and h.a[3].a[0] is h.a[1]:
                bv, lo, hi = h.a[0][0]
                gph = h.a[3].a[1]
                if canon(lo) is ZERO and canon(hi) is canon(raw("len", tl)) and gph is sel(tl, bv):
                    return
                if canon(lo) is ZERO and canon(hi) is canon(raw("len", nl)) and gph is sel(tl, sel(nl, bv)):
                    return
                return viol(gph, "values are updated for %s, [%s, %s) only" % (show(gph)[:80], show(lo), show(hi)[:60]))
            if h.op == "uph" and h.a[1] is gr:
                return
            return viol(h, "values when differentiating are " + show(h)[:150])

        def ob_const():
            run()
            x = box["x"]
            mn = mats(u, self.cn)
            a = box["case"](canon(self.fld(box["o"], mn)), True)
            if a is self.fld(x, mn):
                return
            t = a.a[0] if self.lower and a.op == "triangularView<1>" else a
            if t.op == "fromtrip" and trips(canon(subst(t.a[1], {raw("len", box["nl"]): ZERO})))[0] is self.fld(x, "m_cached_triplets"):
                return
            return viol(a, "the constant matrix becomes " + show(a)[:150])
        nm = self.cn.replace("slp::", "")
        R.check("%s::value recomputes every nonlinear row from current values" % nm, u.loc(f), ob)
        R.check("%s::value keeps a constant matrix" % nm, u.loc(f), ob_const)
        R.saw(u, E.I.inlined)

    # ----- get()
    def check_get(self):
        u, R = self.u, self.R
        fs = [f for f in u.fns.values() if f["q"] == self.cn + "::get" and f.get("body")]
        if not fs:
            raise Broken("no %s::get" % self.cn)
        f = fs[0]
        E = GX(u)

        def ob():
            self.names()
            st = State()
            x = sym("x")
            th = E.I.alloc(st, x, "self")
            v, s = E.I.call_fn(st, f, th, [])
            if E.I.islv(v):
                v = E.I.load(s, v)
            V, W = self.fld(x, "m_variables"), self.fld(x, "m_wrt")
            i, j = sym("i"), sym("j")
            v = canon(colvec(v, V, W))
            n, m = getf(V, MR), getf(W, MR)
            rg = Ranges((i, n), (j, m))
            vm = [t for t in (u.types if isinstance(u.types, dict) else range(len(u.types))) if tname(u, t) == "Matrix"][0]
            d = E.dims(s, vm, v)
            if d[0] is not canon(n) or d[1] is not canon(m):
                return viol(d[0], "dimensions are %s x %s" % (show(d[0])[:60], show(d[1])[:60]))
            c = canon(resolve(getf(E.cell(s, vm, v, i, j), EXPRF), rg))
            ge = raw("gexpr", sel(self.fld(x, "m_top_lists"), i), getf(sel(getf(W, MS), j), EXPRF))
            a = canon(subst(c, {peq(NULL, ge): FALSE}))
            b = canon(subst(c, {peq(NULL, ge): TRUE}))
            if a is not ge:
                return viol(a, "entry (i, j) is %s instead of the derivative of row i by variable j" % show(a)[:200])
            C = CV.cases(E)
            if b is NULL or b is ge:
                return "entries that do not depend on the variable have no expression"
            if not C.check(E.dyn(b), ZERO):
                return viol(b, "an entry without dependence denotes " + show(b)[:100])
            if canon(E.I.load(s, th)) is not x:
                raise Undecided("get() modifies the object")
        R.check("%s::get places every derivative" % self.cn.replace("slp::", ""), u.loc(f), ob)
        R.saw(u, E.I.inlined)


def gradient_obligations(R, value):
    u = R.unit("autodiff")
    cn = "slp::Gradient<double>"
    J = "slp::Jacobian<double>"
    E = GX(u)

    def hv(I, st, fr, e, f):
        o = I.ev(st, fr, e["obj"])
        x = I.load(st, o) if I.islv(o) else o
        return I.alloc(st, raw("jv", x))

    def hg(I, st, fr, e, f):
        o = I.ev(st, fr, e["obj"])
        x = I.load(st, o) if I.islv(o) else o
        n, m = getf(getf(x, "slp::Jacobian::m_variables"), MR), getf(getf(x, "slp::Jacobian::m_wrt"), MR)
        a, b = raw("bv", "ga"), raw("bv", "gb")
        return rec("slp::VariableMatrix<double>", {MR: n, MC: m, MS: raw("comp", ((a, ZERO, n), (b, ZERO, m)), TRUE, rec("slp::Variable<double>", {EXPRF: raw("jget", x, a, b), CV.GF: EMPTY, CV.IF: FALSE}))})
    for q in ("slp::Jacobian<double>::value", "slp::Jacobian::value"):
        E.I.hooks[q] = hv
    for q in ("slp::Jacobian<double>::get", "slp::Jacobian::get"):
        E.I.hooks[q] = hg
    jf = [f["n"] for f in classof(u, cn)["fields"] if "Jacobian" in u.ts(f["t"])]
    for f in u.fns.values():
        if not f["q"].startswith(cn + "::") or not (f.get("body") or f.get("inits")):
            continue
        if f["n"] == "value" and value:
            def ob(f=f):
                if len(jf) != 1:
                    raise Undecided("no Jacobian in Gradient")
                st = State()
                x = sym("x")
                v, s = E.I.call_fn(st, f, E.I.alloc(st, x, "self"), [])
                if E.I.islv(v):
                    v = E.I.load(s, v)
                w = raw("tr", raw("jv", getf(x, "slp::Gradient::" + jf[0])))
                if v is not w and canon(v) is not canon(w):
                    if {y.op for y in TM.walk(v)} - {"jv", "tr", "fld", "sym", "setf", "mul", "poly", "add", "num"}:
                        raise Undecided("gradient value " + show(v)[:100])
                    return "the gradient is %s, not the transposed Jacobian" % show(v)[:120]
            R.check("Gradient::value is the transposed Jacobian", u.loc(f), ob)
            R.saw(u, E.I.inlined)
        if f["n"] == "get" and not value:
            def ob(f=f):
                st = State()
                x = sym("x")
                v, s = E.I.call_fn(st, f, E.I.alloc(st, x, "self"), [])
                if E.I.islv(v):
                    v = E.I.load(s, v)
                jx = getf(x, "slp::Gradient::" + jf[0])
                i, j = sym("i"), sym("j")
                n, m = getf(getf(jx, "slp::Jacobian::m_variables"), MR), getf(getf(jx, "slp::Jacobian::m_wrt"), MR)
                rg = Ranges((i, m), (j, n))
                vm = [t for t in (u.types if isinstance(u.types, dict) else range(len(u.types))) if tname(u, t) == "Matrix"][0]
                d = E.dims(s, vm, v)
                if d[0] is not canon(m) or d[1] is not canon(n):
                    return "the gradient has dimensions %s x %s" % (show(d[0])[:60], show(d[1])[:60])
                c = canon(resolve(getf(E.cell(s, vm, v, i, j), EXPRF), rg))
                if c is not raw("jget", jx, j, i):
                    if {y.op for y in TM.walk(c)} - {"jget", "sym", "fld", "num", "ite", "add", "mul", "poly"}:
                        raise Undecided("entry " + show(c)[:100])
                    return "entry (i, j) of the gradient is " + show(c)[:120]
            R.check("Gradient::get is the transposed Jacobian", u.loc(f), ob)
            R.saw(u, E.I.inlined)
        if f.get("isctor") and value and not f.get("copyctor") and not f.get("movector"):
            sg = [tname(u, p["t"]).rstrip("&") for p in f["params"]]
            if len(sg) != 2 or any(s not in ("Variable", "Matrix") for s in sg):
                continue
            E2 = GX(u)

            def ob(f=f, sg=sg, E2=E2):
                def wrap(x):
                    return rec("slp::VariableMatrix<double>", {MR: ONE, MC: ONE, MS: raw("list", x)})
                a, b = sym("a0"), sym("wrt")
                D = Deriv(R, u, J)
                v = E2.I.construct(State(), classof(u, cn), f, [a, b])
                w, s2 = D.build(E2, D.main_ctor(), [wrap(x) if z == "Variable" else x for x, z in zip((a, b), sg)])
                jv = getf(v, "slp::Gradient::" + jf[0])
                for (k, x), (k2, y) in zip(jv.a[1], w.a[1]):
                    if canon(x) is not canon(y):
                        if known(x):
                            raise Undecided("field %s" % k)
                        return "the Jacobian differentiated is not of the variable by wrt (field %s: %s)" % (k.split("::")[-1], show(x)[:150])
            R.check("Gradient(%s)" % ", ".join(sg), u.loc(f), ob)


@check("A06", "The traversal routines are evaluated abstractly to loop transition relations. The sort must count each edge of every explored node once, explore a node exactly on its first visit, emit it exactly when its last incoming edge is removed, with deltas that cancel, so every reachable node is listed once, parents first, with counters restored. The evaluation pass must run backwards over the whole list and recompute every node from its operands; the derivative passes must run forwards over the whole list from adjoint 1 at the root and 0 elsewhere, add each operand's contribution (also when both operands are one node), and clear all adjoint expressions and column markers afterwards.",
       assumptions=["expression graphs are acyclic", "constants have no derivative: skipping them is allowed"], expect=4)
def a06(R):
    topo_obligations(R)
    update_obligations(R)
    triplet_obligations(R)
    tree_obligations(R)
    u = R.unit("autodiff")
    for cn in derivs(u):
        D = Deriv(R, u, cn)
        n0 = len(R.obs)
        D.check_ctor()


def derivs(u):
    out = [r["dn"] for r in u.recs.values() if r["dn"].startswith(("slp::Jacobian<double", "slp::Hessian<double"))]
    if len(out) < 3:
        raise Broken("derivative classes not found")
    return sorted(out)


@check("A07", "Constructors and value() of Jacobian, Hessian (both triangles) and Gradient are evaluated abstractly with the traversal routines replaced by their contracts (checked here as well): every row has its own graph and (column, node) list over all of wrt, exactly the linear rows are cached at their row, every quadratic or nonlinear row is recomputed on each call from re-evaluated values and its own graph, columns and row, cached entries are added once, and the lower-triangular Hessian selects the lower triangle on every path.",
       assumptions=["variables listed in wrt are distinct", "expression types never understate the degree (A03)"], expect=12)
def a07(R):
    u = R.unit("autodiff")
    for cn in derivs(u):
        D = Deriv(R, u, cn)
        D.check_ctor()
        D.check_value()
    gradient_obligations(R, True)
    triplet_obligations(R)
    update_obligations(R)
    topo_obligations(R)


@check("A08", "get() of Jacobian, Hessian and Gradient is evaluated abstractly: entry (i, j) must be the derivative expression of row i by variable j or a zero expression where there is none, with the dimensions of the numeric matrix; the symbolic pass itself must add each operand's derivative expression for every node from 1 at the root and return each variable's total.",
       assumptions=["derivative expressions of single nodes are exact (A01)", "node builders denote their operation (A02)"], expect=4)
def a08(R):
    u = R.unit("autodiff")
    for cn in derivs(u):
        D = Deriv(R, u, cn)
        D.check_get()
    gradient_obligations(R, False)
    tree_obligations(R)
    topo_obligations(R)
