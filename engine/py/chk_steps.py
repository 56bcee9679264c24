"""S03, S04, S05, S07: what the solvers' steps do."""
from frame import check, Broken
from sem import Interp, State, Unsupported
import sem, libmodel as LM, term as TM
from term import *
from decide import canon, Cases
from vx import Undecided
from chk_solver import *
from numev import Ev
from chk_sutil import *
import chk_sutil as K

FTB = "fraction_to_the_boundary_rule"


# ------------------------------------------------------------------ ranges

def positive(S, t, seen=()):
    """t > 0 whenever the solver's inputs (μ, scaling, tolerance) are"""
    t = canon(t) if not seen else t
    if isnum(t):
        return t.a[0] > 0
    if t.op == "max":
        return any(positive(S, x, seen + (t,)) for x in t.a)
    if t.op == "min":
        return all(positive(S, x, seen + (t,)) for x in t.a)
    if t.op == "ite":
        return positive(S, t.a[1], seen + (t,)) and positive(S, t.a[2], seen + (t,))
    if t.op == "poly":
        return all(c > 0 and not w and all(positive(S, a, seen + (t,)) for a, e in cm) for (cm, w), c in t.a[0])
    if t.op == "fn:pow":
        return positive(S, t.a[0], seen + (t,))
    if t.op in ("sym", "fld"):
        n = show(t)
        return n in ("μ", "options.tolerance", "matrix_callbacks.scaling.f")
    if t.op == "phi":
        if t in seen:
            return True
        i, n = phivals(S, t)
        return all(positive(S, v, seen + (t,)) for v in [i] + n)
    return False


def phivals(S, p):
    """initial value and possible next values of a loop variable"""
    for L in lastloops(S):
        if L["id"] == p.a[0]:
            k = p.a[1]
            i = canon(subst(at(L["init"].store[k[0]], k[1:]), S.sub))
            if L["next"] is None or k[0] not in L["next"].store:
                return i, []
            n = canon(subst(at(L["next"].store[k[0]], k[1:]), S.sub))
            g = canon(subst(L["ng"], S.sub)) if L["ng"] is not None and L["id"] != S.L["id"] else TRUE
            return i, [v for _, (v,) in steppaths(S, [n], g, Memo())]
    raise Undecided("loop of " + show(p))


def anyvals(S, p):
    """initial value and everything assigned to a loop variable, whether or
    not its path is possible"""
    for L in lastloops(S):
        if L["id"] == p.a[0]:
            k = p.a[1]
            i = canon(subst(at(L["init"].store[k[0]], k[1:]), S.sub))
            if L["next"] is None or k[0] not in L["next"].store:
                return i, []
            out, todo, done = [], [canon(subst(at(L["next"].store[k[0]], k[1:]), S.sub))], set()
            while todo:
                t = todo.pop()
                if t in done:
                    continue
                done.add(t)
                if t.op == "ite":
                    todo += t.a[1:]
                elif t is not p:
                    out.append(t)
            return i, out
    raise Undecided("loop of " + show(p))


def fraction(S, t, seen=()):
    """None if 0 < t <= 1, else a description"""
    if isnum(t):
        return None if 0 < t.a[0] <= 1 else "it can be %s" % show(t)
    if t.op == "ite":
        return fraction(S, t.a[1], seen) or fraction(S, t.a[2], seen)
    if t.op in ("max", "min"):
        lo = any if t.op == "max" else all
        b = []
        for x in t.a:
            if isnum(x):
                if not x.a[0] <= 1:
                    return "it can be %s" % show(x)
                b.append(x.a[0] > 0)
            elif t.op == "max" and positive(S, sub(x, ONE)):
                return "it can be above 1"
            else:
                d = sub(ONE, x)
                if not positive(S, d):
                    if fraction(S, x, seen):
                        raise Undecided("range of " + show(x)[:100])
                    b.append(True)
                else:
                    b.append(positive(S, x))
        return None if lo(b) else "it can be zero or negative"
    if t.op == "phi":
        if t in seen:
            return None
        i, n = phivals(S, t)
        for v in [i] + n:
            r = fraction(S, v, seen + (t,))
            if r:
                return r
        return None
    raise Undecided("range of " + show(t)[:100])


# ------------------------------------------------------------------ S03

KNOWN = {"app", "poly", "sym", "num", "phi", "fld", "mmul", "tr", "diag", "diaginv", "vinv", "had", "ldlt", "ldlt:solve", "part:segment", FTB,
         "fromtrip", "trips", "dims", "vones", "updp", "eigen0", "neg", "add", "sub", "mul", "div", "max", "min", "dim:rows", "dim:cols"}


def known(t):
    for x in walk(t):
        if x.op not in KNOWN and not x.op.startswith("triangularView"):
            raise Undecided("update of unknown form: " + x.op)


def linear(t, a, v):
    """p with t == v + a·p and p free of a, or None"""
    w = sym("α_")
    u = canon(subst(t, {a: w}))
    if w not in leaves(u):
        return None
    p = canon(minus(subst(u, {w: ONE}), v))
    if canon(minus(u, plus(v, times(w, TM.carry(v, p))))) is not ZERO and not zero(minus(u, plus(v, times(w, TM.carry(v, p))))):
        return None
    return p


def zero(t):
    t = canon(t)
    return t is ZERO or t.op == "poly" and not t.a[0] or isnum(t) and t.a[0] == 0


def limited(S, a, p, v, tau, seen=()):
    """is step length a one that keeps v + a·p inside (fraction to the
    boundary rule of v and p, or a reduction of it)?"""
    a = canon(a)
    if a.op == FTB:
        return a.a[0] is v and canon(a.a[2]) is tau and zero(minus(a.a[1], p))
    if a.op == "poly":
        m = a.a[0]
        if len(m) == 1:
            ((cm, w), c) = m[0]
            if not w and 0 < c <= 1 and len(cm) == 1 and cm[0][1] == 1:
                return limited(S, cm[0][0], p, v, tau, seen)
    if a.op == "min":
        return any(limited(S, x, p, v, tau, seen) for x in a.a)
    if a.op == "ite":
        return limited(S, a.a[1], p, v, tau, seen) and limited(S, a.a[2], p, v, tau, seen)
    if a.op == "phi" and a.a[0] != S.L["id"]:
        if a in seen:
            return True
        for x in leaves(p):
            if x.op == "phi" and x.a[0] == a.a[0]:
                raise Undecided("direction changes while its length is reduced")
        i, n = phivals(S, a)
        return all(limited(S, x, p, v, tau, seen + (a,)) for x in [i] + n)
    return False


def lengths(t):
    """atoms that may be the step length in an updated value"""
    out = []
    for x in walk(t):
        if x.op == FTB or x.op == "phi" and not TM.isvec(x) and not TM.ismat(x):
            if x not in out:
                out.append(x)
    out.sort(key=lambda x: (x.op != FTB, show(x)[:50]))
    return out


@check("S03", "The fraction-to-the-boundary rule is extracted as a closed form and compared with the documented one; for every way an interior-point iteration can end, the new slacks and inequality multipliers are the head value plus a direction times a length that is the rule applied to that value and direction (or a repeated reduction of it), else a point whose log barrier the filter evaluated, else restoration output; the multiplier safeguard clamps between positive multiples of μ/s and τ stays in (0, 1].", expect=4)
def s03(R):
    u = R.unit("sclient")
    f = find(u, "sclient::ftb")[0]

    def rule():
        x, p, tau = V("x"), V("p"), sym("tau")
        v, st, I, lv = fcall(u, f, [x, p, tau])
        i, al = raw("bv", "i"), sym("α")
        xi, pi = sel(x, i), sel(p, i)
        body = ite(cmp("flt", pi, ZERO), raw("min", al, div(neg(mul(tau, xi)), pi)), al)
        want = raw("fold", ((i, ZERO, rows(x)),), al, ONE, body)

        def sample(rng, k):
            n = rng.choice([1, 2, 3, 4]) if k % 20 else 150
            g = k % 2
            if n > 4:           # one of many limits the length
                d = np.array([rng.uniform(0, 1) for _ in range(n)])
                d[rng.choice([0, 1, n // 2, n - 2, n - 1])] = -9
                return {x: np.array([rng.uniform(1, 2) for _ in range(n)]), p: d, tau: 0.9}
            if k % 5 == 4:
                return {x: np.array([10 ** rng.uniform(-14, 8) for _ in range(n)]), p: np.array([rng.choice([-1, -1, 1]) * 10 ** rng.uniform(-14, 8) for _ in range(n)]), tau: rng.choice([0.995, 1.0])}
            return {x: np.array([rng.choice([1., 2., 4.]) if g else rng.uniform(0.05, 3) for _ in range(n)]),
                    p: np.array([float(rng.choice([-4, -2, -1, 0, 1, 2])) if g else rng.uniform(-5, 2) for _ in range(n)]),
                    tau: rng.choice([0.5, 1.0, 0.25]) if g else rng.uniform(0.01, 1)}
        return same(v, want, sample, n=300, what="the fraction-to-the-boundary rule")
    R.check("rule", R.unit("solver").loc(find(R.unit("solver"), "slp::" + FTB)[0]), rule)
    R.saw(R.unit("solver"), find(R.unit("solver"), "slp::" + FTB))
    S = run(R, "interior_point")
    steps = outersteps(S)
    head = {n: S.I.load(S.L["h0"], S.lv[n]) for n in args_of(S)}
    taus = {canon(x.a[2]) for t in usedrules(S) for x in [t]}

    def taucheck():
        if not taus:
            raise Undecided("the rule is never applied")
        for t in taus:
            r = fraction(S, t)
            if r:
                return "the fraction %s is not within (0, 1]: %s" % (show(t), r)
    R.check("interior_point/fraction", S.where, taucheck)
    for k, (P, v) in enumerate(steps):
        for n in ("s", "z"):
            def go(P=P, v=v, n=n):
                t = v[n]
                if t.op == "fr_out":
                    return None
                h = head[n]
                if zero(minus(t, h)):
                    return None
                cand = []
                for tau in taus or [ZERO]:
                    for a in lengths(t):
                        p = linear(t, a, h)
                        if p is None:
                            continue
                        cand.append((a, p))
                        if limited(S, a, p, h, tau):
                            return None
                ci = Names(S).cb.get("c_i")
                if n == "s" and ci is not None and canon(raw("app", ci, v["x"])) is t and barrier(S, P, t):
                    return None
                known(t)
                if cand:
                    a, p = cand[0]
                    return "a step ends with %s moved by %s times a direction, which is not limited by the rule for %s and that direction" % (n, show(a)[:200], n)
                return "a step ends with %s = %s, whose length is not limited by the fraction-to-the-boundary rule" % (n, show(t)[:300])
            R.check("interior_point/step%d/%s" % (k, n), S.where, go)
    for k, (P, n, p, vals) in enumerate(uniq(S.passed)):
        def clamp(p=p, n=n, vals=vals, P=P):
            return clampcheck(S, P, n, p, vals)
        R.check("interior_point/safeguard%d" % k, S.where, clamp)

    def start():
        f, others = mainfn(S.u, "interior_point")
        if not others:
            raise Undecided("no outer overload")
        for o in others:
            got = []

            def opq(g, av, o=o):
                if g["id"] == f["id"]:
                    def rec_(I, st, fr, e, g, obj, av):
                        got.append([LM.ldeep(I, st, a) if I.islv(a) else a for a in av])
                        return raw("enumc", "x", 0)
                    return rec_
                return None
            v, st, I, lv = fcall(S.u, o, [sym(p["n"]) for p in o["params"]], opaque=opq)
            names = [p["n"] for p in f["params"]]
            for a in got:
                d = dict(zip(names, a))
                for n in ("s", "z"):
                    c = canon(d[n])
                    if c.op != "vfill" and c.op != "vones":
                        raise Undecided("initial %s is %s" % (n, show(c)[:80]))
                    if c.op == "vfill" and not (isnum(c.a[1]) and c.a[1].a[0] > 0):
                        return "the initial %s is %s, not strictly positive" % (n, show(c))
                if not positive(S, d["μ"]):
                    return "the initial barrier parameter is " + show(canon(d["μ"]))
            if not got:
                raise Undecided("the solver is not called")
    R.check("interior_point/initial values", S.where, start)


def uniq(xs):
    out, seen = [], set()
    for x in xs:
        if x[2] not in seen:
            seen.add(x[2])
            out.append(x)
    return out


def usedrules(S):
    out = set()
    for P, v in outersteps(S):
        for t in v.values():
            for x in walk(t):
                if x.op == FTB:
                    out.add(x)
    return out


def complete(S, P):
    """P and: a loop without a condition was left through one of its exits"""
    if not hasattr(S, "_exits"):
        S._exits = {}
        for L in lastloops(S):
            if L["cond"] is TRUE and not L["isdo"] or L["post"] is TRUE and L["isdo"]:
                S._exits[L["id"]] = Or(*[canon(subst(raw("loopexit", L["id"], g), S.sub)) for g, k, v, x in L["exits"] if k != "ret" or L["fr"].fn is None or L["fr"].fn["id"] != S.f["id"]])
    ids = {x.a[0] for x in walk(P) if x.op == "loopexit"}
    return And(P, *[S._exits[i] for i in sorted(ids) if i in S._exits])


def accepting(S, P):
    """the path condition with its exits spelled out, and the try_add calls in it"""
    q = canon(sharpen(complete(S, P)))
    return q, [x for x in walk(q) if x.op == "try_add"]


def entry(S, x):
    """fields of a filter entry term"""
    x = canon(x)
    if x.op != "rec":
        raise Undecided("filter entry " + show(x)[:80])
    return {k.split("::")[-1]: v for k, v in x.a[1]}


def barrier(S, P, t):
    """is t the slack of a point whose accepted filter entry contains its log
    barrier (which is only finite for strictly positive slacks)?"""
    q, calls = accepting(S, P)
    ok = []
    for c in calls:
        e = entry(S, c.a[2])
        if all(any(y.op == "ew:log" and zero(minus(y.a[0], t)) for y in walk(w)) for _, (w,) in steppaths(S, [canon(e["cost"])], P, Memo())):
            ok.append(c)
    return bool(ok) and imp(q, Or(*ok))


def clampcheck(S, P, n, p, vals):
    if p.op == "phi":
        L = [l for l in S.I.loops if l["id"] == p.a[0]][0]
        k = p.a[1]
        nx = canon(subst(at(L["next"].store[k[0]], k[1:]), S.sub))
        base = p
    elif p.op == "forupd":
        if p.a[4] is not TRUE:
            raise Undecided("conditional safeguard")
        base = p.a[0]
        nx = raw("upd", base, *p.a[2], p.a[3])
    else:
        base = stripped(p)
        r = clampof(S, base, TM.vinv(vals["s"]), p, ("ew:min", "ew:max"))
        return r
    for Q, (w,) in steppaths(S, [nx], P, Memo()):
        if w.op != "upd" or w.a[0] is not base or len(w.a) != 3:
            raise Undecided("safeguard of form " + show(w)[:100])
        row, val = w.a[1], w.a[2]
        r = clampof(S, canon(sel(base, row)), div(ONE, canon(sel(vals["s"], row))), val, ("min", "max"))
        if r:
            return r


def clampof(S, z, invs, val, ops):
    """val limits z between positive multiples of μ/s"""
    bnds = []
    body = val
    while body.op in ops:
        A = [x for x in body.a if z in set(walk(x))]
        B = [x for x in body.a if z not in set(walk(x))]
        if len(A) != 1 or len(B) != 1:
            raise Undecided("safeguard of form " + show(val)[:100])
        bnds.append((body.op.split(":")[-1], B[0]))
        body = A[0]
    if body is not z:
        raise Undecided("safeguard of form " + show(val)[:100])
    ks = {}
    for op, b in bnds:
        r = canon(div(b, invs)) if ops[0] == "min" else canon(b)
        c = None
        if r.op == "poly" and len(r.a[0]) == 1:
            ((cm, wd), co) = r.a[0][0]
            if ops[0] != "min":
                one = [a for a, e in cm if a is canon(invs) and e == 1]
                cm = tuple((a, e) for a, e in cm if a is not canon(invs)) if one and not wd else None
            if cm is not None and not wd and len(cm) == 1 and cm[0][1] == 1 and positive(S, cm[0][0]):
                c = co
        if c is None:
            raise Undecided("safeguard bound " + show(r)[:100])
        ks[op] = c
    if set(ks) != {"min", "max"}:
        raise Undecided("one-sided safeguard")
    if not (0 < ks["max"] <= ks["min"]):
        return "the multiplier is clamped between %s·μ/s and %s·μ/s" % (ks["max"], ks["min"])


# ------------------------------------------------------------------ S05

def plain(v):
    """the new values are formulas, with nothing left around them that is not understood"""
    for n, t in v.items():
        if t.op in ("phi", "forupd", "upd", "updp", "loopexit", "ite") or t.op.startswith("ew:"):
            raise Undecided("the new %s is %s" % (n, show(t)[:80]))


def under(S, P, t):
    """values of t on the path"""
    return [canon(w) for _, (w,) in steppaths(S, [canon(t)], P, Memo())]


def allzero(S, P, a, b):
    return all(zero(minus(x, y)) for x in under(S, P, a) for y in under(S, P, b)) if a is not b else True


def entryspec(S, N, v):
    """the documented filter entry of a point"""
    x = v["x"]
    cost, cv = N.app("f", x), ZERO
    if "c_e" in N.cb:
        ce = TM.markvec(TM.markmat(N.app("c_e", x)))
        cv = n1(ce)
    if S.name == "interior_point":
        ci, s = TM.markvec(TM.markmat(N.app("c_i", x))), v["s"]
        cv = add(cv, n1(minus(ci, s)))
        mu = S.I.load(S.L["h0"], S.lv["μ"])
        cost = sub(cost, mul(mu, raw("red:sum", TM.carry(s, raw("ew:log", s)))))
    return {"cost": cost, "constraint_violation": cv}


def isentry(S, P, e, want):
    e = entry(S, e)
    if set(e) != set(want):
        raise Undecided("fields of a filter entry")
    return all(allzero(S, P, e[k], want[k]) for k in want)


def decrease(S, N, P, x, v, head):
    """x: error at the new point <= c · error at the current point, c < 1"""
    if x.op not in ("fle", "flt"):
        return False
    a, b = x.a
    ea = errterm(S, N, v)
    eb = errterm(S, N, head)
    for y in under(S, P, a):
        if y is not canon(ea):
            return False
    b = canon(b)
    if b.op == "poly" and len(b.a[0]) == 1:
        (cm, w), c = b.a[0][0]
        return not w and 0 < c < 1 and len(cm) == 1 and cm[0][1] == 1 and cm[0][0] is canon(eb)
    return b is canon(eb) and x.op == "flt"


def errterm(S, N, v):
    x = v["x"]
    if S.name == "newton":
        a = [N.app("g", x)]
    elif S.name == "sqp":
        a = [N.app("g", x), N.app("A_e", x), N.app("c_e", x), v["y"]]
    else:
        mu = S.I.load(S.L["h0"], S.lv["μ"])
        a = [N.app("g", x), N.app("A_e", x), N.app("c_e", x), N.app("A_i", x), N.app("c_i", x), v["s"], v["y"], v["z"], mu]
    return raw("kkt_error<ONE_NORM>", *a)


@check("S05", "For every way an iteration can end, the path condition (with loop exits resolved to their guards) must imply that the filter accepted an entry that is exactly the documented entry of the new point against the entry of the current point, or that the KKT error at the new point was compared and found at most a fraction below one of the current one, or that restoration produced the point.", expect=3)
def s05(R):
    for name in SOLVERS:
        try:
            S = run(R, name)
            steps = outersteps(S)
        except (Unsupported, Undecided, Broken) as ex:
            R.undecided("execution/" + name, name, str(ex))
            continue
        N = Names(S)
        head = {n: S.I.load(S.L["h0"], S.lv[n]) for n in args_of(S)}
        for k, (P, v) in enumerate(steps):
            def go(S=S, N=N, P=P, v=v, head=head):
                if v["x"].op == "fr_out":
                    return None
                q, calls = accepting(S, P)
                wc, wt = entryspec(S, N, head), entryspec(S, N, v)
                ok, why = [], []
                for c in calls:
                    if not isentry(S, P, c.a[1], wc):
                        why.append("the filter compares with an entry that is not the current point's: " + show(canon(c.a[1]))[:300])
                    elif isentry(S, P, c.a[2], wt):
                        ok.append(c)
                for x in walk(q):
                    if x.op in ("fle", "flt") and decrease(S, N, P, x, v, head):
                        ok.append(x)
                if ok and imp(q, Or(*ok)):
                    return None
                if v["x"].op == "phi" or any(x.op == "phi" and x.a[0] not in {L["id"] for L in lastloops(S)} for x in walk(v["x"])):
                    raise Undecided("the new point is " + show(v["x"])[:80])
                plain(v)
                if why:
                    return why[0]
                return "the iterate moves to x = %s without the filter having accepted that point or the error having decreased there (condition: %s)" % (show(v["x"])[:160], show(q)[:300])
            R.check("%s/step%d" % (name, k), S.where, go)

            def direction(S=S, N=N, P=P, v=v, head=head):
                q, calls = accepting(S, P)
                wc, wt = entryspec(S, N, head), entryspec(S, N, v)
                for c in calls:
                    if not (imp(q, c) and isentry(S, P, c.a[1], wc) and isentry(S, P, c.a[2], wt)):
                        continue
                    a = canon(c.a[4])
                    p = linear(v["x"], a, head["x"])
                    if p is None:
                        continue
                    g = N.app("g", head["x"])
                    TM.markvec(TM.markmat(g))
                    d = mm(TM.tr(g), TM.carry(head["x"], p))
                    if S.name == "interior_point":
                        ps = linear(v["s"], a, head["s"])
                        if ps is None:
                            continue
                        mu = S.I.load(S.L["h0"], S.lv["μ"])
                        d = sub(d, mul(mu, mm(TM.tr(TM.vinv(head["s"])), TM.carry(head["s"], ps))))
                    D = canon(c.a[3])
                    if not allzero(S, P, D, canon(d)):
                        return "the filter is given the slope %s along the step, not %s" % (show(D)[:300], show(canon(d))[:300])
            R.check("%s/slope%d" % (name, k), S.where, direction)


# ------------------------------------------------------------------ S04

def atomset(S, *ts):
    out = set()
    for t in ts:
        for x in atoms_of(t):
            out.add(x)
            if x.op == "loopexit":
                out |= atomset(S, x.a[1])
    return out


def pull(t):
    """exists k: c and B(k)  ->  c and exists k: B(k)"""
    if t.op == "and":
        return And(*[pull(x) for x in t.a])
    if t.op == "or":
        return Or(*[pull(x) for x in t.a])
    if t.op == "not":
        return Not(pull(t.a[0]))
    if t.op == "exists" and len(t.a[0]) == 1 and t.a[1].op == "and":
        bv = t.a[0][0][0]
        out = [x for x in t.a[1].a if bv not in leaves(x)]
        if out:
            return And(*out, raw("exists", t.a[0], And(*[x for x in t.a[1].a if bv in leaves(x)])))
    return t


def optfield(S, n):
    for p in S.f["params"]:
        if p["n"] == "options":
            r = S.I.u.recs[S.I.ty(p["t"])["rec"]]
            for k in r["fields"]:
                if k["n"] == n:
                    return getf(sym("options"), fieldkey(S.I, r, k))
    raise Broken("no option " + n)


def strictless(t):
    """(a, b) if t says a < b or a <= b"""
    if t.op in ("flt", "ilt", "fle", "ile", "plt", "ple"):
        return t.a
    return None


def conditions(S, N):
    """the documented condition of each status, over the atoms the solver uses"""
    L = S.L
    head = {n: canon(S.I.load(L["h0"], S.lv[n])) for n in args_of(S)}
    g = [pull(canon(subst(g, S.sub))) for g, k, v, x in L["exits"]] + [pull(canon(subst(L["ng"], S.sub)))]
    at_ = atomset(S, *g)
    C, miss = {}, []
    x = head["x"]
    # infeasibility
    inf = []
    for k, (a, c) in {"equality": ("A_e", "c_e"), "inequality": ("A_i", "c_i")}.items():
        if c not in N.cb:
            continue
        want = [t for t in at_ if t.op.startswith("is_%s_locally_infeasible" % k)]
        good = [t for t in want if t.a == (canon(N.app(a, x)), canon(N.app(c, x)))]
        if not good:
            miss.append(("LOCALLY_INFEASIBLE", "the %s constraints of the current iterate are never tested for local infeasibility" % k))
        inf += good
    if inf:
        C["LOCALLY_INFEASIBLE"] = Or(*inf)
    # divergence
    dv = []
    for n in ("x", "s"):
        if n not in head:
            continue
        big = [t for t in at_ if t.op in ("flt", "fle") and isnum(t.a[0]) and t.a[1].op == "norm_inf" and t.a[1].a[0] is head[n]]
        fin = [t for t in at_ if t.op == "allfinite" and t.a[0] is head[n]]
        if not big:
            miss.append(("DIVERGING_ITERATES", "the size of the current %s is never tested" % n))
        if not fin:
            miss.append(("DIVERGING_ITERATES", "the current %s is never tested for finiteness" % n))
        for t in big:
            if t.a[0].a[0] != 10 ** 10:
                miss.append(("DIVERGING_ITERATES", "iterates count as diverging beyond %s instead of 1e10" % show(t.a[0])))
        dv += big + [Not(t) for t in fin]
    if dv:
        C["DIVERGING_ITERATES"] = Or(*dv)
    # callbacks
    info = {"iteration": None}
    cb = []
    its = [p for p in S.f["params"] if p["n"] == "iteration_callbacks"]
    seq = sym("iteration_callbacks")
    for t in at_:
        if t.op == "exists" and len(t.a[0]) == 1:
            bv, lo, hi = t.a[0][0]
            if t.a[1].op == "app" and t.a[1].a[0] is sel(seq, bv):
                if lo is not ZERO or canon(hi) is not canon(length(seq)):
                    miss.append(("CALLBACK_REQUESTED_STOP", "only callbacks %s to %s are asked" % (show(lo), show(hi))))
                else:
                    cb.append(t)
            elif t.a[1].op == "app" and t.a[1].a[0].op == "sel" and t.a[1].a[0].a[1] is bv and str(t.a[1].a[0].a[0].op).startswith("call:std::span::"):
                # a part of the callbacks
                sp = t.a[1].a[0].a[0]
                if sp.a[0] is not seq or sp.op.split("::")[-1] not in ("first", "last") or len(sp.a) != 2 or lo is not ZERO or canon(hi) is not canon(length(sp)):
                    continue
                for k in (1, 2, 3, 4):
                    n = Ev({canon(length(seq)): k, length(seq): k})(sp.a[1])
                    if n != k:
                        miss.append(("CALLBACK_REQUESTED_STOP", "only %d of %d callbacks are asked" % (n, k)))
                        break
                else:
                    cb.append(t)
    if not cb and not miss:
        raise Undecided("no question to every callback among the conditions: " + "; ".join(show(t)[:300] for t in at_ if t.op == "exists" and any(y is seq for y in walk(t)))[:900])
    if getattr(S, "frcall", None):
        if STOP in at_:
            cb.append(STOP)
        elif getattr(S, "frasks", None) in ("plain", "asked"):
            miss.append(("CALLBACK_REQUESTED_STOP in restoration", "a callback's request to stop during feasibility restoration is forgotten: the solver goes on as after a successful restoration"))
    if cb:
        C["CALLBACK_REQUESTED_STOP"] = Or(*cb)
    # factorization
    fa = [t for t in at_ if t.op in ("peq", "ieq") and any(y.op == "ord" and y.a[0].op == "ldlt:info" for y in t.a) and any(isnum(y) and y.a[0] == 0 for y in t.a)]
    if fa:
        C["FACTORIZATION_FAILED"] = Or(*[Not(t) for t in fa])
    # limits
    mi = canon(optfield(S, "max_iterations"))
    to = canon(optfield(S, "timeout"))
    C["_limit"] = [t for t in at_ if strictless(t) and mi in leaves_(t)]
    C["_time"] = [t for t in at_ if strictless(t) and to in leaves_(t)]
    return C, miss, head, cb


def leaves_(t):
    return set(walk(t))


def iterations(S, st):
    return canon(subst(S.I.load(st, S.lv["iterations"]), S.sub)) if "iterations" in S.lv else None


def itervar(S):
    """the iteration counter: parameter, or local carried by the outer loop"""
    if "iterations" in S.lv:
        return lambda st: S.I.load(st, S.lv["iterations"])
    for k in S.L["changed"]:
        if k[0] == "v" and k[1] == "iterations":
            return lambda st, k=k: st.store[k]
    raise Undecided("no iteration counter")


@check("S04", "For each solver the guard of every return inside the outer loop must imply the documented condition of the status it returns over the current iterate, and reaching the next iteration must imply that none of those conditions held (divergence, infeasibility, any callback answering true for the current iterate, failed factorization, iteration limit, timeout); the iteration counter grows by one; before the loop too few degrees of freedom and non-finite initial values are reported exactly under their conditions.", expect=10)
def s04(R):
    for name in SOLVERS:
        try:
            S = run(R, name)
        except (Unsupported, Undecided, Broken) as ex:
            R.undecided("execution/" + name, name, str(ex))
            continue
        N = Names(S)
        try:
            s04solver(R, name, S, N)
        except (Unsupported, Undecided) as ex:
            R.undecided("conditions/" + name, name, str(ex))


def s04solver(R, name, S, N):
    L = S.L
    C, miss, head, cbs = conditions(S, N)
    it = itervar(S)
    ng = sharpen(complete(S, pull(canon(subst(L["ng"], S.sub)))))
    h0 = canon(it(L["h0"]))
    mi, to = canon(optfield(S, "max_iterations")), canon(optfield(S, "timeout"))

    def counter():
        n = canon(subst(it(L["next"]), S.sub))
        for P, (w,) in steppaths(S, [n], TRUE, Memo()):
            d = canon(sub(w, h0))
            if d is ONE:
                continue
            d2 = canon(sub(w, ONE))
            if d2.op == "fr_out":
                continue
            if w.op == "fr_out":
                return "an iteration that ends in restoration is not counted"
            if isnum(d):
                return "the iteration counter grows by %s" % show(d)
            raise Undecided("iteration counter " + show(w)[:80])
    R.check(name + "/counter", S.where, counter)

    def limitcond(st):
        """the counter of the state has reached the limit"""
        return sharpen(canon(subst(cmp("ile", optfield(S, "max_iterations"), it(st)), S.sub)))

    def timecond(t):
        a, b = strictless(t)
        if a is not to:
            return False
        b = canon(b)
        if b.op != "poly":
            return False
        ts = {x: c for ((cm, w), c) in b.a[0] for x, e in cm if x.op == "now"}
        if len(ts) != 2 or len(b.a[0]) != 2:
            return False
        first = min(ts, key=lambda x: int(str(x.a[0].a[0]) if isinstance(x.a[0], T) else x.a[0]))
        return ts[first] == -1 and all(c == 1 for x, c in ts.items() if x is not first)

    for st, why in miss:
        R.check("%s/%s" % (name, st), S.where, lambda why=why: why)
    for k, (g, kind, v, x) in enumerate(L["exits"]):
        if kind != "ret":
            continue
        for P, w in retleaves(canon(subst(v, S.sub))):
            n = exitc(w)
            P = And(pull(canon(subst(g, S.sub))), P)

            def go(P=P, w=w, n=n, x=x):
                if n is None:
                    if w.op != "fr_status":
                        raise Undecided("status " + show(w)[:80])
                    return None if imp(sharpen(P), Not(cmp_enum(w, S))) else "restoration's status is returned although it may be a success"
                if n == "SUCCESS":
                    return None       # S01
                q = sharpen(complete(S, P))
                if n == "MAX_ITERATIONS_EXCEEDED":
                    c = limitcond(x)
                    if not C["_limit"]:
                        return "the status is returned without comparing the iteration count with the limit"
                elif n == "TIMEOUT":
                    ok = [t for t in C["_time"] if timecond(t)]
                    if not ok:
                        return "the status is returned under %s, not after comparing elapsed time with the timeout" % show(q)[:300]
                    c = Or(*ok)
                elif n in ("LINE_SEARCH_FAILED", "FEASIBILITY_RESTORATION_FAILED"):
                    return linesearch(S, N, P, q, n)
                elif n in C:
                    c = C[n]
                else:
                    raise Undecided("no documented condition of " + n)
                if not imp(q, sharpen(canon(subst(c, S.sub)))):
                    return "%s is returned under %s, which does not imply its condition %s" % (n, show(q)[:300], show(c)[:300])
            R.check("%s/returns %s/%d" % (name, n or "restoration status", k), S.where, go)

            def iterate(n=n, x=x, P=P):
                if n == "CALLBACK_REQUESTED_STOP" and imp(sharpen(P), STOP):
                    return
                if n in ("LOCALLY_INFEASIBLE", "DIVERGING_ITERATES", "CALLBACK_REQUESTED_STOP", "FACTORIZATION_FAILED"):
                    for a in args_of(S):
                        t = canon(subst(S.I.load(x, S.lv[a]), S.sub))
                        if t is not head[a]:
                            raise Undecided("%s at the return of %s" % (a, n))
                elif n in ("MAX_ITERATIONS_EXCEEDED", "TIMEOUT"):
                    for a in args_of(S):
                        t = canon(subst(S.I.load(x, S.lv[a]), S.sub))
                        want = canon(subst(S.I.load(L["next"], S.lv[a]), S.sub))
                        if t is not want:
                            if t is head[a]:
                                return "%s is returned with the previous %s" % (n, a)
                            raise Undecided("%s at the return of %s" % (a, n))
            R.check("%s/iterate at %s/%d" % (name, n or "restoration status", k), S.where, iterate)
    for n in ("LOCALLY_INFEASIBLE", "DIVERGING_ITERATES", "CALLBACK_REQUESTED_STOP", "FACTORIZATION_FAILED"):
        if n in C:
            def cont(n=n):
                c = Or(*[t for t in cbs if t is not STOP]) if n == "CALLBACK_REQUESTED_STOP" else C[n]
                if c is not C[n] and STOP in cbs:
                    nx = canon(subst(S.I.load(L["next"], S.lv["x"]), S.sub))
                    restored = [P for P, (w,) in steppaths(S, [nx], TRUE, Memo()) if any(y.op == "fr_out" for y in walk(w))]
                    if not restored:
                        raise Undecided("iterations that end in restoration")
                    for P in restored:
                        if not imp(And(ng, sharpen(P)), Not(STOP)):
                            return "the solver goes on to another iteration although a callback requested a stop during feasibility restoration"
                if not imp(ng, Not(canon(subst(c, S.sub)))):
                    return "the solver goes on to another iteration although %s" % show(C[n])[:300]
            R.check("%s/stops for %s" % (name, n), S.where, cont)
            if STOP in cbs and n == "CALLBACK_REQUESTED_STOP":
                def asked():
                    r = canon(subst(canon(S.frsays), {STOP: TRUE}))
                    if r is FALSE or r is canon(subst(canon(S.frsays), {STOP: FALSE})):
                        return "a callback's request to stop does not stop feasibility restoration"
                    if r is not TRUE:
                        raise Undecided("answer of restoration's callbacks " + show(r)[:100])
                R.check(name + "/restoration stops for callbacks", S.where, asked)
        elif n == "FACTORIZATION_FAILED":
            R.check("%s/stops for %s" % (name, n), S.where, lambda: "the outcome of the factorization is never tested")

    def restoredwell():
        nx = canon(subst(S.I.load(L["next"], S.lv["x"]), S.sub))
        restored = [P for P, (w,) in steppaths(S, [nx], TRUE, Memo()) if any(y.op == "fr_out" for y in walk(w))]
        if not restored:
            raise Undecided("iterations that end in restoration")
        for P in restored:
            q = And(ng, sharpen(P))
            sts = {y for t in atomset(S, q) for y in walk(t) if y.op == "fr_status"}
            if len(sts) > 1:
                raise Undecided("several restoration statuses")
            if not sts:
                return "the solver goes on after restoration whatever its status is"
            if not imp(q, cmp_enum(sts.pop(), S)):
                return "the solver goes on to another iteration although restoration did not succeed: " + show(q)[:300]
            if any("in_feasibility" in x["n"] for x in S.f["params"]):
                fl = [t for t in {y for t in atomset(S, q) for y in walk(t)} if t.op == "sym" and "in_feasibility" in show(t)]
                if not fl or not imp(q, Not(fl[0])):
                    return "restoration is started from within restoration"
    if name in ("sqp", "interior_point"):
        R.check(name + "/goes on only after successful restoration", S.where, restoredwell)

    def limit():
        if not imp(ng, Not(limitcond(L["next"]))):
            return "another iteration starts although the iteration count has reached the limit"
    R.check(name + "/stops for MAX_ITERATIONS_EXCEEDED", S.where, limit)

    def timeout():
        ok = [t for t in C["_time"] if timecond(t)]
        if not C["_time"]:
            return "the timeout is never compared"
        if not ok:
            raise Undecided("timeout comparison")
        if not imp(ng, Not(Or(*ok))):
            return "another iteration starts although the timeout has passed"
        start = [y for t in ok for y in walk(t) if y.op == "now"]
        inside = {y for k in L["changed"] if k in L["next"].store and isinstance(L["next"].store[k], T) for y in ()}
        first = min(start, key=lambda y: int(str(y.a[0].a[0]) if isinstance(y.a[0], T) else y.a[0]))
        if not any(first in leaves_(v) for v in L["init"].store.values() if isinstance(v, T)):
            return "the elapsed time does not count from before the first iteration"
    R.check(name + "/stops for TIMEOUT", S.where, timeout)

    def info():
        for t in cbs:
            if t is STOP:
                continue
            i = t.a[1].a[1]
            if i.op != "rec":
                raise Undecided("argument of the callbacks")
            d = {k.split("::")[-1]: canon(subst(v, S.sub)) for k, v in i.a[1]}
            yzs = [head[n] for n in ("x", "y", "z") if n in head]
            want = {"iteration": canon(subst(it(L["h0"]), S.sub)), "x": head["x"], "g": canon(N.app("g", head["x"])), "H": canon(N.app("H", *yzs))}
            for n in ("s", "y", "z"):
                if n in head:
                    want[n] = head[n]
            for n in ("A_e", "A_i"):
                if n in N.cb:
                    want[n] = canon(N.app(n, head["x"]))
            for n, w in want.items():
                if n not in d:
                    raise Undecided("field %s of the callbacks' argument" % n)
                if d[n] is not w:
                    return "callbacks are shown %s = %s instead of %s" % (n, show(d[n])[:200], show(w)[:200])
    R.check(name + "/callback argument", S.where, info)

    def before():
        r, end = afterloop(S)
        ini = L["init"]
        x0 = {n: canon(S.arg[n]) for n in args_of(S)}
        nd, ne = (canon(getf(sym("matrix_callbacks"), field(S, n))) if hasfield(S, n) else None for n in ("num_decision_variables", "num_equality_constraints"))
        few, non, rest = FALSE, FALSE, FALSE
        for p, v in retleaves(r):
            if exitc(v) == "TOO_FEW_DOFS":
                few = Or(few, p)
            elif exitc(v) == "NONFINITE_INITIAL_GUESS":
                non = Or(non, p)
            elif exitc(v) == "SUCCESS":
                rest = Or(rest, p)
            else:
                raise Undecided("status %s before the loop" % show(v)[:60])
        want = cmp("ilt", nd, ne) if ne is not None else FALSE
        if not (imp(few, want) and imp(want, few)):
            return "too few degrees of freedom are reported under %s, not %s" % (show(few)[:200], show(want))
        for k in ROLES:
            if k not in N.cb:
                continue
            a = [x0[n] for n in (("x", "y", "z") if k == "H" else ("x",)) if n in x0]
            v = canon(N.app(k, *a))
            ok = [t for t in atomset(S, non, rest) if (t.op in ("isfinite", "allfinite") or t.op.startswith("all_finite<")) and t.a[0] is v]
            if not ok:
                return "the initial %s is never tested for finiteness" % k
            if not imp(And(Or(*[Not(t) for t in ok]), Not(want)), non):
                return "a non-finite initial %s does not lead to NONFINITE_INITIAL_GUESS" % k
        tests = [t for t in atomset(S, non) if t.op in ("isfinite", "allfinite") or t.op.startswith("all_finite<")]
        if not imp(non, Or(*[Not(t) for t in tests])):
            return "NONFINITE_INITIAL_GUESS is reported under " + show(non)[:300]
    R.check(name + "/before the first iteration", S.where, before)


def hasfield(S, n):
    try:
        field(S, n)
        return True
    except Broken:
        return False


def linesearch(S, N, P, q, n):
    """the step length fell below its minimum (or the nested solve may not restore)"""
    small = [t for t in atomset(S, q) if t.op in ("flt", "fle") and isnum(t.a[1]) and 0 < t.a[1].a[0] < 1e-3]
    if not small:
        return "%s is returned under %s without the step length having fallen below its minimum" % (n, show(q)[:300])
    if not imp(q, Or(*small)):
        raise Undecided("condition of " + n)
    if n == "FEASIBILITY_RESTORATION_FAILED":
        fl = [t for t in atomset(S, q) if t.op == "sym" and "in_feasibility" in show(t)]
        if fl and not imp(q, Or(*fl)):
            return "restoration is reported failed outside restoration without having run"


# ------------------------------------------------------------------ S07

def solves(t):
    return {x for x in walk(t) if x.op == "ldlt:solve"}


def low(t):
    """t with the selection of a lower triangle dropped (only the lower
    triangle is read)"""
    m = {x: TM.markmat(x.a[0]) for x in walk(t) if x.op == "triangularView<1>"}
    return canon(subst(t, m)) if m else canon(t)


def segs(S, t, n, e):
    """the two parts of a stacked vector"""
    top, bot = halves(S, t, n, e)
    if top is None or bot is None:
        raise Undecided("the stacked right-hand side is " + show(t)[:80])
    return top, bot


def halves(S, t, n, e, seen=()):
    top = bot = None
    if t.op == "vcat" and len(t.a) == 2:
        return t.a
    while t.op == "updp":
        k = t.a[1]
        if k[0] == "segment" and len(k) == 3:
            i, l = canon(k[1]), canon(k[2])
            if i is ZERO and l is n:
                top = top if top is not None else t.a[2]
            elif i is n and l is e:
                bot = bot if bot is not None else t.a[2]
            else:
                raise Undecided("part of a vector at " + show(i))
        elif k[0] in ("head", "topRows") and canon(k[1]) is n:
            top = top if top is not None else t.a[2]
        elif k[0] in ("tail", "bottomRows") and canon(k[1]) is e:
            bot = bot if bot is not None else t.a[2]
        else:
            raise Undecided("part of a vector: " + str(k[0]))
        t = t.a[0]
    if t.op == "phi" and t not in seen and (top is None or bot is None):
        # carried by a loop that only rewrites the other part
        i, nx = anyvals(S, t)
        p = list(halves(S, i, n, e, seen + (t,)))
        for v in nx:
            q = halves(S, v, n, e, seen + (t,))
            p = [a if b is None else None for a, b in zip(p, q)]
        top = top if top is not None else p[0]
        bot = bot if bot is not None else p[1]
    elif t.op not in ("phi", "eigen0", "num") and (top is None or bot is None):
        raise Undecided("the stacked right-hand side is " + show(t)[:80])
    return top, bot


def parts(t, X, n, e, u, w):
    """t with the two parts of the solution named"""
    m = {}
    for x in walk(t):
        if x.op in ("part:segment", "part:head", "part:tail", "part:topRows", "part:bottomRows") and x.a[0] is X:
            if x.op == "part:segment":
                i, l = canon(x.a[1]), canon(x.a[2])
            elif x.op in ("part:head", "part:topRows"):
                i, l = ZERO, canon(x.a[1])
            else:
                l = canon(x.a[1])
                i = n if l is e else None
            if i is ZERO and l is n:
                m[x] = u
            elif i is n and l is e:
                m[x] = w
            else:
                raise Undecided("part of the solution: " + show(x)[-60:])
    r = canon(subst(t, m))
    if X in set(walk(r)):
        raise Undecided("the solution is not split into its two parts")
    return r


def direction(S, n, t, head):
    """(length, direction) with t == head + length·direction"""
    h = head[n]
    out = {x: V("sol%d_" % i) for i, x in enumerate(solves(t))}
    back = {y: x for x, y in out.items()}
    u = canon(subst(t, out))
    for a in lengths(u):
        p = linear(u, a, h)
        if p is not None:
            return canon(subst(a, back)), canon(subst(p, back))
    return ONE, canon(minus(t, h))


@check("S07", "For every way an iteration can end, the linear system behind the step (assembled matrix and right-hand side terms) is combined with the recovered primal, slack and multiplier directions: every row block of the documented full KKT system must vanish identically in the problem's matrices once the solved equations are substituted; corrections must use the documented corrected residuals.", expect=6)
def s07(R):
    for name in SOLVERS:
        try:
            S = run(R, name)
            steps = outersteps(S)
        except (Unsupported, Undecided, Broken) as ex:
            R.undecided("execution/" + name, name, str(ex))
            continue
        N = Names(S)
        head = {n: S.I.load(S.L["h0"], S.lv[n]) for n in args_of(S)}
        for k, (P, v) in enumerate(steps):
            if v["x"].op == "fr_out":
                continue

            def go(S=S, N=N, P=P, v=v, head=head):
                r = newtonstep(S, N, v, head) if S.name == "newton" else kktstep(S, N, P, v, head)
                if r:
                    plain(v)
                return r
            R.check("%s/step%d" % (name, k), S.where, go)


def vec(t):
    return TM.markvec(TM.markmat(t))


def newtonstep(S, N, v, head):
    Xs = solves(v["x"])
    if len(Xs) != 1:
        raise Undecided("%d solutions in the step" % len(Xs))
    X = Xs.pop()
    u = V("u_")
    a, p = direction(S, "x", v["x"], head)
    p = canon(subst(p, {X: u}))
    H, g = TM.markmat(N.app("H", head["x"])), vec(N.app("g", head["x"]))
    if X.a[0].op != "ldlt":
        raise Undecided("factorization")
    lhs, rhs = X.a[0].a[0], X.a[1]
    if p is not u:
        return "the step is %s times the solution" % show(p)
    # lhs u = rhs  must be  H u = -g
    if not zero(minus(low(lhs), H)):
        return "the matrix factorized is %s, not the Hessian" % show(canon(lhs))[:200]
    if not zero(plus(rhs, g)):
        return "the right-hand side is %s, not the negative gradient" % show(canon(rhs))[:200]


def kktstep(S, N, P, v, head):
    Xs = solves(v["x"])
    for t in v.values():
        if t.op == "fr_out":
            raise Undecided("mixed step")
    ax, px = direction(S, "x", v["x"], head)
    ay, py = direction(S, "y", v["y"], head)
    Xs = solves(px)
    if len(Xs) != 1:
        raise Undecided("%d solutions in the step" % len(Xs))
    X = Xs.pop()
    n, e = canon(rows(head["x"])), canon(rows(head["y"]))
    u, w = V("u_"), V("w_")
    px, py = parts(px, X, n, e, u, w), parts(py, X, n, e, u, w)
    if X.a[0].op != "ldlt":
        raise Undecided("factorization")
    lhs, rhs = X.a[0].a[0], X.a[1]
    lhs = canon(lhs)
    if lhs.op == "fromtrip" and lhs.a[1].op == "trips" and lhs.a[1].a[0].op == "phi" and lhs.a[1].a[0].a[0] == S.L["id"]:
        _, nx = anyvals(S, lhs.a[1].a[0])
        if nx and all(t.op == "trips" for t in nx):
            return "the matrix is assembled from this iteration's entries together with those of earlier iterations"
    if lhs.op != "fromtrip" or lhs.a[1].op != "trips" or lhs.a[1].a[0] != sym("notrips"):
        raise Undecided("assembly of " + show(lhs)[:80])
    tr_ = lhs.a[1]
    if canon(tr_.a[1]) is not ZERO or canon(tr_.a[2]) is not ZERO or len(tr_.a) != 5:
        return "the blocks are placed at row %s, column %s" % (show(canon(tr_.a[1])), show(canon(tr_.a[2])))
    TL, BL = tr_.a[3], tr_.a[4]
    x, y = head["x"], head["y"]
    yz = [head[k] for k in ("x", "y", "z") if k in head]
    H = TM.markmat(N.app("H", *yz))
    g, ce, Ae = vec(N.app("g", x)), vec(N.app("c_e", x)), TM.markmat(N.app("A_e", x))
    ipm = S.name == "interior_point"
    if not zero(minus(canon(BL), Ae)):
        return "the lower block is %s, not the equality Jacobian" % show(canon(BL))[:200]
    d = lhs.a[0]
    if d.op == "dims":
        nd, ne = (canon(getf(sym("matrix_callbacks"), field(S, k))) for k in ("num_decision_variables", "num_equality_constraints"))
        for c in d.a:
            c = canon(c)
            if c is not canon(add(nd, ne)) and c is not canon(add(n, e)):
                raise Undecided("size of the matrix: " + show(c))
    r1, r2 = segs(S, canon(rhs), n, e)
    # solved: TL u + A_eᵀ w = r1,  A_e u = r2
    eq1 = minus(plus(mm(low(TL), u), mm(TM.tr(Ae), w)), r1)
    if ipm:
        s, z = head["s"], head["z"]
        ci, Ai = vec(N.app("c_i", x)), TM.markmat(N.app("A_i", x))
        mu = S.I.load(S.L["h0"], S.lv["μ"])
        az, pz = direction(S, "z", v["z"], head)
        pz = parts(pz, X, n, e, u, w)
        sc = canon(N.app("c_i", v["x"]))
        if v["s"] is sc:
            # slack reset to the constraint value: the direction is implied
            ps = canon(minus(plus(ci, mm(Ai, px)), s))
            as_ = ax
        else:
            as_, ps = direction(S, "s", v["s"], head)
            ps = parts(ps, X, n, e, u, w)
        if ax is not as_:
            return "the slack step has length %s and the variable step %s" % (show(as_)[:150], show(ax)[:150])
        if ay is not az:
            return "the multiplier steps have lengths %s and %s" % (show(ay)[:150], show(az)[:150])
        cs = canon(minus(ps, mm(Ai, px)))                     # (c_i − s), possibly corrected
        comp = minus(plus(mm(TM.markmat(raw("diag", z)), ps), TM.had(s, pz)), minus(filled(s, mu), TM.had(s, z)))
        if not zero(vecnorm(comp)):
            return "complementarity: Z p_s + S p_z differs from μe − Sz by " + show(canon(vecnorm(comp)))[:300]
    if px is not u and not zero(minus(px, u)):
        return "the variable step is %s of the solution" % show(px)[:200]
    full = plus(mm(H, px), times(num(-1), mm(TM.tr(Ae), py)))
    if ipm:
        full = plus(full, times(num(-1), mm(TM.tr(Ai), pz)))
    full = plus(full, g, times(num(-1), mm(TM.tr(Ae), y)))
    if ipm:
        full = plus(full, times(num(-1), mm(TM.tr(Ai), z)))
    res = canon(minus(full, eq1))
    if ipm:
        res = canon(vecnorm(res))
    if not zero(res):
        return "stationarity: the step does not satisfy H p_x − A_eᵀ p_y − A_iᵀ p_z = −(g − A_eᵀ y − A_iᵀ z); residual " + show(res)[:400]
    cec = canon(times(num(-1), r2))
    soc = [p for p in leaves(cec) | (leaves(cs) if ipm else set()) if p.op == "phi" and p.a[0] != S.L["id"]]
    if not soc:
        if not zero(minus(cec, ce)):
            return "primal feasibility: A_e p_x = −(%s), not −c_e" % show(cec)[:300]
        if ipm and not zero(minus(cs, minus(ci, s))):
            return "primal feasibility: A_i p_x − p_s = −(%s), not −(c_i − s)" % show(cs)[:300]
        return None
    return correction(S, N, v, head, cec, ce, "c_e") or (correction(S, N, v, head, cs, canon(minus(ci, s)), "c_i − s") if ipm else None)


def vecnorm(t):
    """constant vectors as multiples of the vector of ones"""
    t = canon(t)
    m = {x: times(x.a[1], TM.VONES) for x in walk(t) if x.op == "vfill" and not (isnum(x.a[1]) and x.a[1].a[0] == 1)}
    m.update({x: TM.VONES for x in walk(t) if x.op == "vfill" and x not in m})
    return canon(subst(t, m)) if m else t


def correction(S, N, v, head, got, base, what):
    """got must be α·prev + c(trial) with prev starting as the plain residual
    and becoming got"""
    ph = [p for p in leaves(got) if p.op == "phi" and p.a[0] != S.L["id"]]
    prev = []
    for p in ph:
        try:
            i, n = phivals(S, p)
        except Undecided:
            continue
        if zero(minus(i, base)):
            prev.append((p, n))
    if not prev and leaves(base) & leaves(got) - leaves(head["x"]) and base in set(walk(got)):
        return "the corrected residual of %s is %s: it restarts from the plain residual at every correction" % (what, show(got)[:300])
    if len(prev) != 1:
        raise Undecided("accumulated residual of the correction")
    p, n = prev[0]
    if not all(zero(minus(x, got)) for x in n):
        return "the corrected residual of %s is not carried to the next correction" % what
    rest = None
    for a in ph:
        if a is p or TM.isvec(a) or TM.ismat(a):
            continue
        r = canon(minus(got, times(a, p)))
        if p not in leaves(r) and a not in leaves(r):
            rest = (a, r)
    if rest is None:
        raise Undecided("form of the corrected residual")
    a, r = rest
    if a.op == "phi" and TM.isvec(p):
        ax, _ = direction(S, "x", v["x"], head)
        if a is ax or zero(sub(a, ax)):
            pass                       # the length is the same in all corrections
        elif a.a[0] != p.a[0]:
            return "the residual of %s accumulated by the corrections is scaled by %s, which is not the length of the last correction" % (what, show(a)[:80])
        elif not any(t is ax or zero(sub(t, ax)) for t in anyvals(S, a)[1]):
            return "the residual of %s accumulated by the corrections is scaled by %s, which never becomes the length of the last correction" % (what, show(a)[:80])
    # r must be the residual at a trial point held by the loop
    for x in walk(r):
        if x.op == "app" and x.a[0] is N.cb.get("c_e" if what == "c_e" else "c_i"):
            want = vec(x)
            if what != "c_e":
                t = [q for q in leaves(r) if q.op == "phi" and q.a[0] == p.a[0]]
                t = [q for q in t if zero(minus(r, minus(want, q)))]
                if t:
                    return pairing(S, v, x=x.a[1], s=t[0])
            elif zero(minus(r, want)):
                return pairing(S, v, x=x.a[1])
    return "the corrected residual of %s is %s, not the accumulated one plus the residual at the rejected trial point" % (what, show(got)[:300])


def pairing(S, v, **at):
    """the residual's arguments are the trial point the correction starts
    from, and then the corrected ones"""
    for n, p in at.items():
        if p.op == "phi" and p.a[0] == S.L["id"] or p.op != "phi":
            return "the correction adds the residual at %s = %s, which is not the rejected trial point" % (n, show(p)[:200])
        i, nx = anyvals(S, p)
        want = canon(v[n])
        if not any(t is want or zero(minus(t, want)) for t in nx):
            return "the corrected trial point %s is not what the next correction starts from" % n
    ids = {p.a[0] for p in at.values()}
    if len(ids) > 1:
        raise Undecided("trial points of different loops")
