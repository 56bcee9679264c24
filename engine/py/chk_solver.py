"""S01-S15: solvers and their helpers."""
from frame import check, Broken
from sem import Interp, State, Unsupported
import sem, libmodel as LM, term as TM, symb
from term import *
from decide import canon, Cases
from vx import Undecided

DEBUG = False
KKT = ("slp::kkt_error", "slp::unscaled_kkt_error")
PURE = KKT + ("slp::fraction_to_the_boundary_rule", "slp::is_equality_locally_infeasible", "slp::is_inequality_locally_infeasible", "slp::all_finite", "slp::sparse_inf_norms")


def short(f):
    n = f["dn"].replace(" ", "")
    n = n[n.index("slp::") + 5:] if "slp::" in n else n
    return n.replace("<double>", "").replace("double,", "").replace("slp::", "").replace("KKTErrorType::", "")


def mkdiag(v):
    return TM.markmat(raw("diag", v))


class Solver:
    """One abstract execution of a solver's main function."""

    def __init__(self, u, f, opaque=True):
        self.u, self.f = u, f
        self.I = I = Interp(u, opaque=self.opq if opaque else None)
        st = State()
        self.arg, self.lv = {}, {}
        args = []
        for p in f["params"]:
            t = I.ty(p["t"])
            v = LM.typemark(I, p["t"], sym(p["n"]))
            a = I.alloc(st, v, p["n"]) if t.get("ref") else v
            self.lv[p["n"]] = a
            self.arg[p["n"]] = v
            args.append(a)
        self.pre = st.copy()
        v, s = I.call_fn(st, f, None, args)
        self.ret = I.load(s, v) if I.islv(v) else v
        self.end = s
        L = [l for l in I.loops if l["fr"] is not None and l["fr"].fn is not None and l["fr"].fn["id"] == f["id"]]
        self.loops = L

    def opq(self, f, av):
        q = f["q"]
        b = q.split("::")
        if q in PURE:
            return lambda I, st, fr, e, f, obj, av: LM.typemark(I, f["rt"], raw(short(I.u.fns[f["id"]]), *[I.load(st, a) if I.islv(a) else a for a in av]))
        if q.startswith("slp::print_") or "Profiler" in q:
            return self.noeffect
        if q == "slp::feasibility_restoration":
            return self.restoration
        if q in ("slp::append_as_triplets", "slp::append_diagonal_as_triplets"):
            return self.triplets
        if "slp::Filter<" in q and b[-1] in ("try_add",):
            return self.tryadd
        if "slp::Filter<" in q and b[-1] == "last_rejection_due_to_filter":
            return lambda I, st, fr, e, f, obj, av: raw("last_rejection", I.load(st, obj))
        if "RegularizedLDLT<" in q:
            return self.ldlt
        return None

    def noeffect(self, I, st, fr, e, f, obj, av):
        t = I.ty(f["rt"]) if f.get("rt") is not None else {"c": "?"}
        if t["c"] == "void":
            return UNIT
        if obj is not None and t.get("ref"):
            return obj
        return raw("profile:" + f["n"])

    def triplets(self, I, st, fr, e, f, obj, av):
        vs = [LM.ldeep(I, st, a) if I.islv(a) else a for a in av]
        old, r, c, m = vs
        if f["q"].endswith("diagonal_as_triplets"):
            m = mkdiag(m)
            ms = [m]
        elif m.op == "list":
            ms = [LM.ldeep(I, st, x) for x in m.a]
        else:
            raise Unsupported("triplet list of " + show(m)[:60])
        if old.op == "list" and not old.a:
            old = sym("notrips")
        I.store(st, av[0], raw("trips", old, r, c, *ms))
        return UNIT

    def tryadd(self, I, st, fr, e, f, obj, av):
        fs = I.load(st, obj)
        vs = [I.load(st, a) if I.islv(a) else a for a in av]
        nv = fs
        if fs.op == "rec":
            for k, x in fs.a[1]:
                if not k.endswith(("min_constraint_violation", "max_constraint_violation")):
                    nv = setf(nv, k, raw("filter:" + k.split("::")[-1], fs, *vs))
        else:
            nv = raw("filter", fs, *vs)
        I.store(st, obj, nv)
        return raw("try_add", fs, *vs)

    def ldlt(self, I, st, fr, e, f, obj, av):
        vs = [I.load(st, a) if I.islv(a) else a for a in av]
        n = f["n"]
        if obj is None:
            return raw("ldlt0", *vs)
        old = I.load(st, obj)
        if n == "compute":
            I.store(st, obj, raw("ldlt", vs[0]))
            return obj
        r = LM.typemark(I, f["rt"], raw("ldlt:" + n, old, *vs))
        return r

    def restoration(self, I, st, fr, e, f, obj, av):
        vs = tuple(I.load(st, a) if I.islv(a) else a for a in av)
        self.frcall = getattr(self, "frcall", [])
        self.frcall.append((vs, st.copy(), av))
        ins = raw("fr", *[v for v in vs if isinstance(v, T) and v.op != "clo"])
        for k, (a, p) in enumerate(zip(av, f["pt"])):
            t = I.ty(p)
            if I.islv(a) and t.get("ref") and not t.get("const"):
                I.store(st, a, LM.typemark(I, p, raw("fr_out", num(k), ins)))
        try:
            self.asked(I, st, fr, vs)
        except Unsupported as ex:
            self.frasks = str(ex)
        return raw("fr_status", ins)

    def asked(self, I, st, fr, vs):
        """the effects of the callbacks handed to restoration being asked: one
        of the user's callbacks may request a stop there"""
        its = sym("iteration_callbacks")
        for v in vs:
            for c in TM.walk(v) if isinstance(v, T) and v.op in ("push", "comp") else ():
                if c.op != "comp":
                    continue
                if c.a[-1].op == "sel" and c.a[-1].a[0] is its:
                    self.frasks = "plain"
                elif c.a[-1].op == "clo":
                    s2 = st.copy()
                    r = I.call_closure(s2, fr, c.a[-1], [I.alloc(s2, sym("fr_info"), "info")])
                    r = I.load(s2, r) if I.islv(r) else r
                    apps = {y for x in [r] + [s2.store[k] for k in s2.store if s2.store[k] is not st.store.get(k)] if isinstance(x, T)
                            for y in TM.walk(x) if y.op == "app" and y.a[0].op == "sel" and y.a[0].a[0] is its}
                    if not apps:
                        self.frasks = "plain"      # the answers are ignored
                        continue
                    if len(apps) != 1:
                        raise Unsupported("how restoration's callbacks ask the user's")
                    m = {next(iter(apps)): STOP}
                    for k in s2.store:
                        if k in st.store and s2.store[k] is not st.store[k]:
                            st.store[k] = TM.subst(s2.store[k], m)
                    self.frasks = "asked"
                    self.frsays = TM.subst(r, m)


STOP = sym("a user's callback requested a stop in restoration")


def mainfn(u, name):
    c = [f for f in u.fns.values() if f["q"] == "slp::" + name and f.get("body")]
    c.sort(key=lambda f: len(f["params"]))
    if not c:
        raise Broken("no definition of slp::" + name)
    return c[-1], c[:-1]


# ------------------------------------------------------------ abstraction

def abstract(t, memo, names, keep=()):
    """Replace every condition atom by a boolean variable (one per distinct
    atom), leaving the values alone."""
    r = memo.get(t)
    if r is not None:
        return r
    if not t.a or t.op in ("sym", "num", "phi", "bv"):
        return t
    if t.op == "ite":
        r = ite(abcond(t.a[0], memo, names), abstract(t.a[1], memo, names), abstract(t.a[2], memo, names))
    elif t.op == "rec":
        r = rec(t.a[0], {k: abstract(v, memo, names) for k, v in t.a[1]})
    elif isbool(t):
        r = abcond(t, memo, names)
    else:
        args = tuple(_abx(x, memo, names) for x in t.a)
        r = t if args == t.a else TM.carry(t, TM.rebuild(t.op, args))
    memo[t] = r
    return r


def _abx(x, memo, names):
    if isinstance(x, T):
        return abstract(x, memo, names)
    if isinstance(x, tuple):
        return tuple(_abx(y, memo, names) for y in x)
    return x


def abcond(c, memo, names):
    if c.op in ("true", "false"):
        return c
    if c.op == "and":
        return And(*[abcond(x, memo, names) for x in c.a])
    if c.op == "or":
        return Or(*[abcond(x, memo, names) for x in c.a])
    if c.op == "not":
        return Not(abcond(c.a[0], memo, names))
    if c.op == "ite":
        return ite(abcond(c.a[0], memo, names), abcond(c.a[1], memo, names), abcond(c.a[2], memo, names))
    if c not in names:
        names[c] = sym("cond%d" % len(names))
    return names[c]


def phileafs(v, path=()):
    if v is None:
        return
    if v.op == "phi":
        yield path, v
    elif v.op == "rec":
        for k, x in v.a[1]:
            yield from phileafs(x, path + (k,))


def at(v, path):
    for k in path:
        v = getf(v, k)
    return v


def lastloops(S):
    """the final execution of every loop statement, inner first"""
    last = {}
    for i, L in enumerate(S.I.loops):
        last[id(L["stmt"])] = i
    return [S.I.loops[i] for i in sorted(last.values())]


def shapes(t, cells, sub, top=False):
    """t with sub-terms that are the initial value of a cell replaced by it"""
    import itertools
    if not top and t.op not in ("num", "rec", "eigen0"):
        m = [q for q, (qi, qn) in cells.items() if canon(subst(qi, sub)) is t]
        if m:
            return m[:4]
    if not t.a or t.op in ("sym", "num", "phi", "bv", "rec"):
        return [t]
    if not all(isinstance(x, T) for x in t.a):
        return [t]
    opts = [shapes(x, cells, sub) for x in t.a]
    out = []
    for c in itertools.islice(itertools.product(*opts), 8):
        out.append(TM.carry(t, raw(t.op, *c)))
    return out


def invariants(S):
    """Houdini over the loops: variables that keep their value, and variables
    that always hold the value of a callback at another variable."""
    sub = {}
    S.inv = []
    for L in lastloops(S):
        if L["next"] is None:
            continue
        ini, nx, h0 = L["init"].store, L["next"].store, L["h0"].store
        cells = {}
        for k in L["changed"]:
            for path, p in phileafs(h0.get(k)):
                if k in ini and k in nx:
                    try:
                        cells[p] = (at(ini[k], path), at(nx[k], path))
                    except Exception:
                        pass
        cand = {}
        for p, (i, n) in cells.items():
            ci = canon(subst(i, sub))
            cand[p] = [("const", ci)]
            if ci.op == "app" or ci.op.startswith(("kkt_error", "unscaled_kkt_error")):
                for w in shapes(ci, cells, sub, True):
                    cand[p].append(("app", TM.carry(p, w)))
        # cheap constants: next is the head value or the initial value
        while True:
            m = {p: cs[0][1] for p, cs in cand.items() if cs}
            bad = []
            reasons = {}
            memo, names = {}, {}
            full = dict(sub)
            full.update(m)
            for p, cs in cand.items():
                if not cs:
                    continue
                n = cells[p][1]
                got = canon(subst(n, full))
                want = canon(subst(cs[0][1], {q: cells[q][1] for q in cells}))
                want = canon(subst(want, full))
                if got is want:
                    continue
                a, b = abstract(got, memo, names), abstract(want, memo, names)
                try:
                    okk = Cases(limit=3000).check(a, b) is True
                    if not okk and L["ng"] is not None and L["ng"] is not TRUE:
                        g = abcond(canon(subst(L["ng"], full)), memo, names)
                        okk = g is not TRUE and Cases(limit=3000).check(canon(ite(g, a, b)), b) is True
                except Exception as ex:
                    okk = False
                    reasons[p] = repr(ex)
                if not okk:
                    bad.append(p)
            if not bad:
                break
            for p in bad:
                if DEBUG:
                    print('drop', show(p), cand[p][0][0], show(cand[p][0][1])[:100], reasons.get(p))
                cand[p].pop(0)
        for p, cs in cand.items():
            if cs:
                sub[p] = cs[0][1]
        S.inv.append((L, {p: cs[0][1] for p, cs in cand.items() if cs}))
    # resolve chains
    for _ in range(4):
        sub = {k: canon(subst(v, sub)) for k, v in sub.items()}
    S.sub = sub
    return sub


# ------------------------------------------------------------- run cache

SOLVERS = ("newton", "sqp", "interior_point")
_runs = {}


def run(R, name):
    u = R.unit("solver")
    if name not in _runs:
        f, _ = mainfn(u, name)
        S = Solver(u, f)
        if not S.loops:
            raise Broken("no loop in slp::" + name)
        invariants(S)
        S.name = name
        S.L = S.loops[-1]
        S.where = u.loc(f)
        S.head = {k[1]: v for k, v in S.L["h0"].store.items() if k[0] == "v" and len(k) >= 3}
        _runs[name] = S
    S = _runs[name]
    R.saw(u, S.I.seenfns if hasattr(S.I, "seenfns") else [S.f])
    return S


def mc(field, *args):
    return raw("app", MC(field), *args)


def MC(field):
    return getf(sym("matrix_callbacks"), field)


def exitc(t):
    """name of an ExitStatus constant"""
    return str(t.a[0]).split("::")[-1] if t.op == "enumc" else None


def callback(S, field):
    """the callback a solver was given"""
    r = [n for n in S.I.u.recs.values() if n["q"].endswith("MatrixCallbacks")] if hasattr(S.I.u, "recs") else []
    return sym("matrix_callbacks")


class Names:
    """role terms of one solver run"""

    def __init__(self, S):
        self.S = S
        # find the callbacks from any application in the run
        self.cb = {}
        for x in walk(canon(S.ret)):
            if x.op == "app":
                n = show(x.a[0])
                if n.startswith("matrix_callbacks."):
                    self.cb[n.split(".")[-1]] = x.a[0]
        for L in S.loops[-1:]:
            for k in L["changed"]:
                for st in (L["init"], L["next"]):
                    if k in st.store:
                        for x in walk(canon(st.store[k])):
                            if x.op == "app":
                                n = show(x.a[0])
                                if n.startswith("matrix_callbacks."):
                                    self.cb[n.split(".")[-1]] = x.a[0]

    def app(self, k, *a):
        return raw("app", self.cb[k], *a)


def pname(S, n):
    """location of a parameter / first local of that name"""
    c = S.lv.get(n)
    return c


def cell(S, st, n):
    """value of parameter n (a reference) in state st"""
    return S.I.load(st, S.lv[n])


def imp(P, Q, memo=None, names=None, assume=()):
    """P => Q decided propositionally over the condition atoms, then with
    arithmetic if that fails"""
    memo, names = ({}, {}) if memo is None else (memo, names)
    p, q = abcond(canon(P), memo, names), abcond(canon(Q), memo, names)
    if canon(Or(Not(p), q)) is TRUE:
        return True
    c = Cases(limit=20000)
    return c.check(canon(Or(Not(p), q)), TRUE) is True


def sharpen(t, memo=None):
    """loopexit(l, g): the loop was left through the exit guarded by g, so g
    holds in its last iteration"""
    memo = {} if memo is None else memo
    r = memo.get(t)
    if r is not None:
        return r
    if not t.a or t.op in ("sym", "num", "phi", "bv"):
        return t
    if t.op == "loopexit":
        r = And(sharpen(t.a[1], memo), sym("lx", t.id))
    elif t.op == "rec":
        r = rec(t.a[0], {k: sharpen(v, memo) for k, v in t.a[1]})
    else:
        args = tuple(_shx(x, memo) for x in t.a)
        r = t if args == t.a else TM.carry(t, TM.rebuild(t.op, args))
    memo[t] = r
    return r


def _shx(x, memo):
    if isinstance(x, T):
        return sharpen(x, memo)
    if isinstance(x, tuple):
        return tuple(_shx(y, memo) for y in x)
    return x


def args_of(S):
    """x, s, y, z of the solver at the outer loop head / after an iteration / at the end"""
    return [n for n in ("x", "s", "y", "z") if n in S.lv]


def uke(S, N, v):
    x = v["x"]
    sc = canon(getf(sym("matrix_callbacks"), field_scaling(S)))
    if S.name == "newton":
        a = [sc, N.app("g", x)]
    elif S.name == "sqp":
        a = [sc, N.app("g", x), N.app("A_e", x), N.app("c_e", x), v["y"]]
    else:
        a = [sc, N.app("g", x), N.app("A_e", x), N.app("c_e", x), N.app("A_i", x), N.app("c_i", x), v["s"], v["y"], v["z"], ZERO]
    return raw("unscaled_kkt_error<INF_NORM_SCALED>", *a)


def field_scaling(S):
    return field(S, "scaling")


def field(S, n):
    """qualified name of a field of the callbacks structure"""
    t = S.I.ty(S.f["params"][0]["t"])
    r = S.I.u.recs[t["rec"]]
    for k in r["fields"]:
        if k["n"] == n:
            return fieldkey(S.I, r, k)
    raise Broken("no field " + n)


def fieldkey(I, r, k):
    return r["q"] + "::" + k["n"]


# ------------------------------------------------------------------- S01

def statuses(S):
    """every way the solver reports a status: (guard, value, state), with the
    loop-completion events given by the loop's own exit condition"""
    L, sub = S.L, S.sub
    out = []
    for g, k, v, x in L["exits"]:
        if k == "ret":
            out.append(("exit", canon(subst(g, sub)), canon(subst(v, sub)), x))
    return out


def afterloop(S):
    """status returned after the outer loop completes without returning"""
    L = S.L
    m = {raw("loopexit", L["id"], g): FALSE for g, k, v, x in L["exits"] if k == "ret"}
    r = canon(subst(canon(subst(S.ret, m)), S.sub))
    end = State({k: subst(v, m) for k, v in S.end.store.items() if isinstance(v, T)}, S.end.ev)
    return r, end


def completions(S):
    """[(guard, state)] of leaving the outer loop by its condition or break"""
    L = S.L
    out = []
    if not L["isdo"]:
        if L["cond"] is not TRUE:
            out.append((Not(L["cond"]), L["h0"]))
    elif L["next"] is not None:
        out.append((Not(L["post"]), L["next"]))
    for g, k, v, x in L["exits"]:
        if k == "break":
            out.append((g, x))
    return out


def retleaves(t, path=TRUE):
    if t.op == "ite":
        yield from retleaves(t.a[1], And(path, t.a[0]))
        yield from retleaves(t.a[2], And(path, Not(t.a[0])))
    else:
        yield path, t


@check("S01", "Every return of SUCCESS from newton, sqp and interior_point is reached only under unscaled_kkt_error(INF_NORM_SCALED) of the callbacks at the returned x, s, y, z being <= options.tolerance (false for NaN); loop-head error variables are resolved by induction.", expect=3)
def s01(R):
    for name in SOLVERS:
        def go(name=name):
            S = run(R, name)
            N = Names(S)
            sub, L = S.sub, S.L
            tol = tolerance(S)
            bad = []
            aft, end = afterloop(S)
            for p, v in retleaves(aft):
                if exitc(v) is None:
                    raise Undecided("status after the loop is " + show(v)[:80])
            succ = any(exitc(v) == "SUCCESS" for p, v in retleaves(aft))
            ev = []
            if succ:
                ev += [(g, x, "loop completion") for g, x in completions(S)]
            for kind, g, v, x in statuses(S):
                for p, w in retleaves(v):
                    if exitc(w) == "SUCCESS":
                        ev.append((And(g, p), x, "return"))
                    elif exitc(w) is None:
                        # a forwarded status: its guard must exclude SUCCESS
                        q = cmp_enum(w, S)
                        if not imp(sharpen(And(g, p)), Not(q)):
                            return "a forwarded status %s may be SUCCESS without a check of the error" % show(w)[:80]
            if not ev:
                raise Undecided("SUCCESS is never returned")
            for g, x, what in ev:
                vals = {n: canon(subst(S.I.load(x, S.lv[n]), sub)) for n in args_of(S)}
                want = canon(subst(cmp("fle", uke(S, N, vals), tol), sub))
                g = canon(subst(g, sub))
                if not imp(sharpen(g), want):
                    return "SUCCESS is reported (%s) under %s, which does not imply %s" % (what, show(g)[:300], show(want)[:400])
        R.check("success-implies-small-error/" + name, name, go)


def tolerance(S):
    for p in S.f["params"]:
        if p["n"] == "options":
            t = S.I.ty(p["t"])
            r = S.I.u.recs[t["rec"]]
            for k in r["fields"]:
                if k["n"] == "tolerance":
                    return getf(sym("options"), fieldkey(S.I, r, k))
    raise Broken("no options parameter")


def cmp_enum(w, S):
    return raw("peq", *sorted((w, raw("enumc", "slp::ExitStatus::SUCCESS", 0))))


# ------------------------------------------------------------------- S02

ROLES = ("f", "g", "H", "c_e", "A_e", "c_i", "A_i")


@check("S02", "Each value a solver carries across iterations that starts as a callback applied to the initial point (cost, gradient, Hessian, constraints, Jacobians) is shown by induction over the outer loop to equal that callback at the current point and multipliers whichever way the step ended; the matrices and right-hand side given to the factorization and solve mention no callback value at any other point.", expect=4)
def s02(R):
    for name in SOLVERS:
        try:
            S = run(R, name)
        except (Unsupported, Undecided, Broken) as ex:
            R.undecided("execution/" + name, name, str(ex))
            continue
        N = Names(S)
        L, sub = S.L, S.sub
        ini, nx, h0 = L["init"].store, L["next"].store, L["h0"].store
        x0 = {n: canon(S.arg[n]) for n in args_of(S)}
        for k in sorted(ini, key=str):
            v = ini[k]
            if not isinstance(v, T) or k not in h0:
                continue
            ci = canon(v)
            if ci.op != "app":
                continue
            roles = [r for r in ROLES if N.cb.get(r) is ci.a[0]]
            if not roles or [a for a in ci.a[1:]] != [x0[n] for n in ("x", "y", "z")[:len(ci.a) - 1] if n in x0]:
                continue
            r = roles[0]

            def go(k=k, r=r, ci=ci):
                p = h0[k]
                cur = [canon(subst(S.I.load(L["next"], S.lv[n]), sub)) for n in ("x", "y", "z")[:len(ci.a) - 1]]
                want = raw("app", ci.a[0], *cur)
                if k not in L["changed"]:
                    used = usedterms(S)
                    if not any(ci in set(walk(t)) for t in used):
                        return None
                    return "%s(x) of the initial point is used in later iterations" % r
                if p in sub:
                    return None
                got = canon(subst(nx[k], sub))
                memo, names = {}, {}
                c = Cases(limit=5000)
                res = c.check(abstract(got, memo, names), abstract(canon(want), memo, names))
                if res is not True:
                    w = c.witness
                    if not carried(S, p):
                        return None
                    return "after an iteration %s holds %s while the iterate is %s" % (k[1], show(w[0])[:300] if w else show(got)[:300], show(w[1])[:300] if w else "")
            R.check("%s/%s" % (name, k[1]), S.where, go)

        def steps(S=S, N=N):
            bad = set()
            ok = {canon(subst(sub_, S.sub)) for sub_ in ()}
            cur = [S.I.load(S.L["h0"], S.lv[n]) for n in args_of(S)]
            n = 0
            for t in usedterms(S):
                for x in walk(t):
                    if x.op != "app" or x.a[0] not in N.cb.values():
                        continue
                    for a in x.a[1:]:
                        if a.op == "phi" and a not in cur and a.a[0] == S.L["id"]:
                            bad.add(show(x))
                        if a in [canon(v) for v in S.arg.values() if isinstance(v, T)] and a not in cur:
                            bad.add(show(x))
                    n += 1
            if bad:
                return "the step is computed from " + ", ".join(sorted(bad))
            if not n:
                raise Undecided("no callback value reaches the factorization")
        R.check("%s/step inputs" % name, S.where, steps)


def usedterms(S):
    """arguments of the factorizations, solves and error evaluations"""
    out = []
    roots = [canon(subst(v, S.sub)) for k, v in S.L["next"].store.items() if isinstance(v, T) and k in S.L["changed"]]
    seen = set()
    for r in roots:
        for x in walk(r, seen):
            if x.op in ("ldlt", "ldlt:solve", "ldlt:info"):
                out.append(x)
    return out


def carried(S, p):
    """is head variable p read before it is overwritten?"""
    for k, v in S.L["next"].store.items():
        if isinstance(v, T) and k in S.L["changed"] and S.L["h0"].store.get(k) is not p and p in leaves(canon(subst(v, S.sub))):
            return True
    for g, k, v, x in S.L["exits"]:
        if p in leaves(canon(subst(g, S.sub))):
            return True
    return p in leaves(canon(subst(S.L["cond"], S.sub))) if S.L["cond"] is not None else False


# ------------------------------------------------- the ways a step can end

OPAQUE = ("ldlt", "ldlt:solve", "ldlt:info", "try_add", "loopexit", "app", "fr_out", "fr", "rec", "clo", "last_rejection")


def firstite(t, seen):
    """a condition the value of t depends on"""
    if t in seen or t.op in OPAQUE or not t.a:
        return None
    seen.add(t)
    if t.op == "ite":
        return firstite(t.a[0], seen) if False else t.a[0]
    if isbool(t):
        return None
    for c in children(t):
        r = firstite(c, seen)
        if r is not None:
            return r
    return None


def atoms_of(c):
    if c.op in ("and", "or", "not"):
        for x in c.a:
            yield from atoms_of(x)
    elif c.op == "ite":
        for x in c.a:
            yield from atoms_of(x)
    elif c.op not in ("true", "false"):
        yield c


class Memo:
    def __init__(self):
        self.memo, self.names = {}, {}


def consistent(P, M):
    g = abcond(canon(sharpen(P)), M.memo, M.names)
    if g is FALSE:
        return False
    if g is TRUE:
        return True
    try:
        return Cases(limit=4000).check(g, FALSE) is not True
    except Exception:
        return True


def steppaths(S, vs, P=TRUE, M=None, n=None):
    """[(path condition, values)] without conditionals in the values"""
    M = M or Memo()
    n = n if n is not None else [0]
    n[0] += 1
    if n[0] > 400:
        raise Undecided("too many ways for a step to end")
    for v in vs:
        c = firstite(v, set())
        if c is not None:
            for b in (TRUE, FALSE):
                q = And(P, c if b is TRUE else Not(c))
                if not consistent(q, M):
                    continue
                m = {c: b}
                for a in (c.a if c.op == "and" and b is TRUE or c.op == "or" and b is FALSE else ()):
                    m[a] = b
                for a in list(m):
                    if a.op == "not":
                        m[a.a[0]] = Not(m[a])
                yield from steppaths(S, [canon(subst(w, m)) for w in vs], q, M, n)
            return
    yield P, vs


def outersteps(S):
    """[(path, final values)], the values being those before an element-wise
    safeguard loop; S.guardloops records the loops passed through"""
    if not hasattr(S, "steps"):
        L = S.L
        ns = args_of(S)
        vs = [canon(subst(S.I.load(L["next"], S.lv[n]), S.sub)) for n in ns]
        M = Memo()
        todo = list(steppaths(S, vs, M=M))
        out = []
        S.passed = []
        while todo:
            P, w = todo.pop(0)
            for i, n in enumerate(ns):
                v = w[i]
                if v.op == "phi" and v.a[0] != L["id"] and v.a[1][0] == locof(S, n):
                    S.passed.append((P, n, v, dict(zip(ns, w))))
                    w = list(w)
                    w[i] = loopinit(S, v)
                    todo += list(steppaths(S, w, P, M))
                    break
                if v.op == "forupd" and len(v.a[1]) == 1:
                    S.passed.append((P, n, v, dict(zip(ns, w))))
                    w = list(w)
                    w[i] = v.a[0]
                    todo += list(steppaths(S, w, P, M))
                    break
                if v.op in ("ew:min", "ew:max"):
                    b = stripped(v)
                    if b is not None:
                        S.passed.append((P, n, v, dict(zip(ns, w))))
                        w = list(w)
                        w[i] = b
                        todo += list(steppaths(S, w, P, M))
                        break
            else:
                out.append((P, dict(zip(ns, w))))
            if len(out) > 200:
                raise Undecided("too many ways for a step to end")
        S.steps = out
    return S.steps


def stripped(v):
    """the vector that an element-wise clamp limits"""
    while v.op in ("ew:min", "ew:max"):
        A = [x for x in v.a if not reciprocal(x)]
        if len(A) != 1:
            return None
        v = A[0]
    return v


def reciprocal(x):
    """a multiple of element-wise reciprocals"""
    if x.op == "vinv":
        return True
    if x.op != "poly":
        return False
    return all(any(a.op == "vinv" for a, e in cm) or any(y.op == "vinv" for y in wd) for (cm, wd), co in x.a[0])


def locof(S, n):
    a = S.lv[n]
    return a.a[0] if a.op == "ref" else None


def loopinit(S, p):
    for L in S.I.loops:
        if L["id"] == p.a[0]:
            k = p.a[1]
            return canon(subst(at(L["init"].store[k[0]], k[1:]), S.sub))
    raise Undecided("loop of " + show(p))
