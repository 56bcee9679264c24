"""S16: barrier parameter, filter resets and the full-step counter."""
from frame import check, Broken
from term import *
import term as TM, libmodel as LM
from decide import canon
from vx import Undecided
from chk_solver import *
from chk_sutil import *
from chk_steps import accepting, complete, atomset, usedrules, anyvals
from chk_sfn import alike

class Never(Undecided):
    pass


class Wrong(Undecided):
    pass


LIST, FLAG, CAP = "m_filter", "m_last_rejection_due_to_filter", "max_constraint_violation"


def tops(t, P=TRUE):
    if t.op == "ite":
        yield from tops(t.a[1], And(P, t.a[0]))
        yield from tops(t.a[2], And(P, Not(t.a[0])))
    else:
        yield P, t


def filtercells(S):
    """(cell of the filter, {kind of member: path})"""
    out = {}
    for k, h in S.L["h0"].store.items():
        m = {}
        if h is not None and h.op == "rec" and any("Filter::" in str(key) for key, _ in h.a[1]) and any(True for _ in phileafs(h)):
            m = {str(key).split("::")[-1]: (key,) for key, _ in h.a[1]}
        if m:
            out[k] = m
    if len(out) != 1:
        raise Undecided("variables holding a filter: %d" % len(out))
    return next(iter(out.items()))


def split(t, P=TRUE, n=None):
    """values of t and when it has them, conditionals within sums included"""
    n = n if n is not None else [0]
    for Q, x in tops(t, P):
        c = firstite(x, set()) if x.op in ("poly", "add") else None
        n[0] += 1
        if c is None or n[0] > 64:
            yield Q, x
            continue
        yield from split(canon(subst(x, {c: TRUE})), And(Q, c), n)
        yield from split(canon(subst(x, {c: FALSE})), And(Q, Not(c)), n)


def ratio(a, b):
    """the number that b is multiplied by in a, or None"""
    a, b = canon(a), canon(b)
    if a is b:
        return ONE
    if a.op != "poly":
        return None
    if b.op != "poly":
        c = [co for _, co in a.a[0]]
        return num(c[0]) if len(c) == 1 and canon(times(num(c[0]), b)) is a else None
    x, y = dict(a.a[0]), dict(b.a[0])
    if set(x) != set(y):
        return None
    r = {x[k] / y[k] for k in x}
    return num(r.pop()) if len(r) == 1 else None


def nexts(S, L, k, path=()):
    v = L["next"].store.get(k) if L["next"] is not None else None
    return None if v is None else canon(subst(at(v, path), S.sub))


def heads(L, k, path=()):
    return canon(at(L["h0"].store[k], path))


def goeson(S, L):
    """condition for an iteration to reach its end"""
    if L["isdo"]:
        raise Undecided("do loop")
    return canon(subst(And(L["cond"], L["ng"]), S.sub))


def memberof(S, t, name):
    t = canon(t)
    if t.op != "rec":
        raise Undecided("filter " + show(t)[:60])
    m = [v for k, v in t.a[1] if k.split("::")[-1] == name]
    if len(m) != 1:
        raise Undecided("members of a filter")
    return canon(m[0])


@check("S16", "The loop that changes the barrier parameter is extracted from interior_point: the condition under which an iteration of it changes the parameter and the new value are compared, as formulas in the parameter, the error, the tolerance and the cost scale, with the documented rule; each change must empty the filter and set the fraction to the boundary; the filter is otherwise emptied only in the line search, under the documented condition on the rejected-step counter, the cap and the last rejection, and the counter changes only as documented (interior_point, sqp).", expect=4)
def s16(R):
    S = run(R, "interior_point")
    where = S.where
    loc = locof(S, "μ")
    m, e, e0, tol, sf = sym("m_"), sym("e_"), sym("e0_"), sym("tol_"), sym("sf_")
    mmin = div(mul(sf, tol), num(10))

    def barrier():
        out = []
        for L in lastloops(S):
            if L["id"] == S.L["id"] or L["next"] is None or loc not in L["next"].store:
                continue
            h, n = heads(L, loc), nexts(S, L, loc)
            if n is not h and h.op == "phi":
                out.append((L, h, n))
        if not out:
            raise Undecided("no loop changes the barrier parameter")
        if len(out) != 1:
            raise Undecided("loops that change the barrier parameter: %d" % len(out))
        return out[0]

    def named(L, h, t):
        """t with the error, the parameter, the tolerance and the scale named"""
        sub, bad = {}, []
        for x in walk(t):
            if x.op == "phi" and x.a[0] == L["id"] and x is not h:
                k = x.a[1]
                i = canon(subst(at(L["init"].store[k[0]], k[1:]), S.sub))
                n = nexts(S, L, k[0], k[1:])
                mi = canon(subst(S.I.load(L["init"], S.lv["μ"]), S.sub))
                mn = nexts(S, L, loc)
                if n is not None and all(y.op.startswith(("kkt_error", "unscaled_kkt_error")) for y in (i, n)) and n.op != i.op:
                    raise Wrong("the barrier parameter depends on %s after a step and on %s after a reduction" % (i.op, n.op))
                if i.op.startswith(("kkt_error", "unscaled_kkt_error")) and n is not None and n.op == i.op:
                    gi, gn = i.a[-1], n.a[-1]
                    if i.a[:-1] != n.a[:-1]:
                        raise Undecided("the error is not that of one point")
                    if canon(gi) is mi and canon(gn) is mn:
                        sub[x] = raw(i.op, *i.a[:-1], h)
                    elif gi is gn:
                        sub[x] = i
        t = canon(subst(t, sub)) if sub else t
        errs = {x for x in walk(t) if x.op.startswith(("kkt_error", "unscaled_kkt_error"))}
        errs = {x for x in errs if not any(x is not y and x in set(walk(y)) for y in errs)}
        s2 = {}
        for x in errs:
            s2[x] = e if x.op == "kkt_error<INF_NORM_SCALED>" and canon(x.a[-1]) is h else e0 if x.op.startswith("unscaled") else sym("other error")
        t = canon(subst(t, s2))
        s3 = {h: m}
        for x in walk(t):
            if x.op == "fld" or x.op == "sym":
                if show(x) == "options.tolerance":
                    s3[x] = tol
                elif show(x) == "matrix_callbacks.scaling.f":
                    s3[x] = sf
        t = canon(subst(t, s3))
        for x in leaves(t):
            if x.op not in ("sym", "num") or x.op == "sym" and x not in (m, e, e0, tol, sf) and show(x) not in ("other error", "old_fraction"):
                raise Undecided("the barrier parameter's rule depends on " + show(x)[:80])
        return t, errs

    def leaves(t):
        return [x for x in walk(t) if not x.a or x.op in ("sym", "phi", "fld", "app")]

    def sample(rng, k):
        v = {tol: 10.0 ** rng.choice([-8, -8, -6, -3, 0]), sf: rng.choice([1.0, 0.25, 1e-3, 10.0])}
        mm = v[sf] * v[tol] / 10
        v[m] = rng.choice([mm, mm * 3, mm * 20, 0.1, 1e-4, 10.0, 0.04, 0.03, 1.0])
        v[m] = max(v[m], mm)
        v[e] = v[m] * rng.choice([10.0, 9.5, 1.0, 0.01, 10.5, 100.0, 1e4])
        v[e0] = v[tol] * (1 + 10 ** rng.uniform(-3, 9))
        v[sym("other error")] = 10 ** rng.uniform(-9, 3)
        return v

    def when():
        hm, nm = heads(S.L, loc), nexts(S, S.L, loc)
        if nm is not None and not any(x.op == "phi" and x.a[0] != S.L["id"] for x in walk(nm) if x.op == "phi" and x.a[1][0] == loc):
            lv = [x for P, x in tops(nm) if x is not hm]
            if not lv:
                return "the barrier parameter never changes"
            if all({y for y in walk(x) if not y.a or y.op in ("phi", "fld", "app")} <= {hm} | {y for y in walk(x) if y.op in ("num", "sym", "fld")} for x in lv):
                return "the barrier parameter is changed at most once after a step, to %s, and not until the error is above the threshold" % show(lv[0])[:200]
        L, h, n = barrier()
        c = goeson(S, L)
        for g, kind, *_ in L["exits"]:
            if kind != "break":
                raise Undecided("the loop is left by " + kind)
        try:
            got, _ = named(L, h, c)
        except Wrong as ex:
            return str(ex)
        want = And(cmp("flt", mmin, m), cmp("fle", e, mul(num(10), m)))
        r = alike(got, want, sample, 600, what="the condition to reduce the barrier parameter (m_), e_ being the error for that parameter and e0_ for zero,")
        return r
    R.check("interior_point/when the barrier parameter changes", where, when)

    def value():
        L, h, n = barrier()
        got, _ = named(L, h, n)
        want = raw("max", mmin, raw("min", mul(div(num(1), num(5)), m), canon(raw("fn:pow", m, div(num(3), num(2))))))
        return alike(got, want, lambda rng, k: sample(rng, k), 600, what="the next barrier parameter")
    R.check("interior_point/the next barrier parameter", where, value)

    def point():
        L, h, n = barrier()
        c = goeson(S, L)
        _, errs = named(L, h, c)
        if len(errs) != 1:
            raise Undecided("errors in the condition: %d" % len(errs))
        t = next(iter(errs))
        if len(t.a) != 9:
            raise Undecided("error of %d values" % len(t.a))
        ld = lambda n: canon(subst(S.I.load(L["init"], S.lv[n]), S.sub))
        x, s, y, z = ld("x"), ld("s"), ld("y"), ld("z")
        app = lambda n: canon(raw("app", MCB(n), x))
        hx = canon(S.I.load(S.L["h0"], S.lv["x"]))
        want = [("g", x), ("A_e", x), ("c_e", x), ("A_i", x), ("c_i", x)]
        for (nm, _), a in zip(want, t.a):
            a = canon(a)
            for P, lf in tops(a):
                if lf.op == "app" and canon(lf.a[1]) is hx and hx is not x and lf is not a:
                    continue
            if a.op == "app" and len(a.a) == 2 and canon(a.a[1]) is hx and hx is not x:
                return "the error uses %s at the point before the step" % nm
        for nm, w, a in zip("syz", (s, y, z), t.a[5:8]):
            if canon(a) is canon(S.I.load(S.L["h0"], S.lv[nm])) and canon(a) is not w:
                return "the error uses %s from before the step" % nm
            if canon(a) is not w:
                raise Undecided("%s of the error" % nm)

    def MCB(n):
        return sym(n)
    R.check("interior_point/where the error is taken", where, point)

    def tau():
        L, h, n = barrier()
        ts = {canon(x.a[2]) for x in usedrules(S)}
        if len(ts) != 1:
            raise Undecided("fractions in use: %d" % len(ts))
        t = next(iter(ts))
        if isnum(t):
            return "the fraction to the boundary is always %s" % show(t)
        if t.op == "phi":
            k = t.a[1]
            v = nexts(S, L, k[0], k[1:])
            if v is None or v is heads(L, k[0], k[1:]):
                if v is None or any(x.op == "phi" and x.a[0] == S.L["id"] and x is not t for q, x in tops(nexts(S, S.L, k[0], k[1:]))):
                    raise Undecided("where the fraction is set")
                lv = [x for q, x in tops(nexts(S, S.L, k[0], k[1:]))]
                if all(x.op == "phi" for x in lv):
                    return "the fraction is not set when the barrier parameter changes"
                raise Undecided("where the fraction is set")
            # τ before the change is either its minimum or belongs to the
            # parameter before the change
            tp, old = heads(L, k[0], k[1:]), sym("old_fraction")
            got, _ = named(L, h, subst(v, {tp: old}))
            nn, _ = named(L, h, n)
            want = raw("max", div(num(99), num(100)), sub(ONE, nn))

            def both(rng, i):
                e = sample(rng, i)
                e[old] = 0.99 if rng.random() < 0.3 else max(0.99, 1 - e[m])
                return e
            return alike(got, want, both, 600, what="the fraction to the boundary after a change")
        hm = canon(S.I.load(S.L["h0"], S.lv["μ"]))
        if hm in set(walk(t)):
            got = canon(subst(t, {hm: m}))
            return alike(got, raw("max", div(num(99), num(100)), sub(ONE, m)), sample, 600, what="the fraction to the boundary")
        raise Undecided("fraction " + show(t)[:80])
    R.check("interior_point/the fraction to the boundary follows", where, tau)

    def emptied():
        L, h, n = barrier()
        k, M = filtercells(S)
        l = nexts(S, L, k, M[LIST])
        lh = heads(L, k, M[LIST])
        if l is None or l is lh or l is canon(subst(lh, S.sub)):
            for q, x in tops(nexts(S, S.L, k, M[LIST])):
                if x.op == "list" and not x.a:
                    raise Undecided("where the filter is emptied")
            return "the filter keeps its entries when the barrier parameter changes"
        for q, x in tops(l):
            if x is lh or x is canon(subst(lh, S.sub)):
                if not imp(And(goeson(S, L), q), FALSE):
                    return "the filter keeps its entries when the barrier parameter changes and " + show(q)[:200]
            elif not (x.op == "list" and not x.a):
                raise Undecided("the filter after a change is " + show(x)[:60])
    R.check("interior_point/the filter is emptied with each change", where, emptied)

    for name in ("interior_point", "sqp"):
        search(R, name)


def search(R, name):
    S = run(R, name)
    where = S.where

    def found():
        """line-search loop: empties the filter under some condition"""
        k, M = filtercells(S)
        out = []
        for L in lastloops(S):
            if L["id"] == S.L["id"] or L["next"] is None or k not in L["next"].store:
                continue
            l = nexts(S, L, k, M[LIST])
            h = heads(L, k, M[LIST])
            if h.op != "phi":
                continue
            lv = list(tops(l))
            if any(x.op == "list" and not x.a for P, x in lv) and len(lv) > 1:
                out.append((L, lv))
        if not out:
            ch = []
            for L in lastloops(S):
                if L["id"] == S.L["id"] or L["next"] is None or k not in L["next"].store or L["next"].store[k] is L["h0"].store[k]:
                    continue
                l = nexts(S, L, k, M[LIST])
                for P, x in tops(l):
                    if not (x.op == "phi" or x.op == "filter:" + LIST or x.op == "list" and not x.a):
                        raise Undecided("the filter becomes " + show(x)[:60])
                    if x.op == "filter:" + LIST and heads(L, k, M[LIST]).op == "phi":
                        ch.append(L)
            if ch:
                raise Never()
        if len(out) != 1:
            raise Undecided("loops that may empty the filter: %d" % len(out))
        return k, M, out[0][0], out[0][1]

    def counter(L):
        """cells counted up by one in the loop: (cell, head, next)"""
        out = []
        for k, v in L["next"].store.items():
            h = L["h0"].store.get(k)
            if h is None or h.op != "phi":
                continue
            n = nexts(S, L, k)
            h = canon(h)
            if any(x is not h and isnum(canon(minus(x, h))) for P, x in split(n)):
                out.append((k, h, n))
        if len(out) != 1:
            raise Undecided("counters of the line search: %d" % len(out))
        return out[0]

    def full(S, L, *ts):
        """conditions in ts that say that the step length is the largest one"""
        ini = {}
        for k, h0 in L["h0"].store.items():
            for p, h in phileafs(h0) if k[0] == "v" else ():
                ini[canon(h)] = canon(subst(at(L["init"].store[k], p), S.sub))
        out = []
        for a in atomset(S, *ts):
            if a.op not in ("feq", "ieq", "fle", "flt"):
                continue
            for h in set(walk(a)) & set(ini):
                i = ini[h]
                x, y = canon(a.a[0]), canon(a.a[1])
                if a.op in ("feq", "ieq") and i in (x, y) or a.op == "fle" and x is i:
                    out.append(a)
                elif a.op == "flt" and y is i:
                    out.append(Not(a))
        return out

    def resets():
        try:
            k, M, L, lv = found()
        except Never:
            return "the line search never empties the filter"
        ck, ch, cn = counter(L)
        cap = heads(L, k, M[CAP])
        ns = set()
        for P, x in lv:
            if not (x.op == "list" and not x.a):
                continue
            P = canon(P)
            ats = atomset(S, P)
            # threshold of the counter
            con = P.a if P.op == "and" else (P,)
            kk = sym("count_")
            th = None
            for c in con:
                if ch not in set(walk(c)):
                    continue
                c2 = named(c, ch, kk)
                if c2 is None:
                    raise Undecided("condition on the counter")
                tv = [canon(subst(c2, {kk: num(i)})) for i in range(0, 64)]
                if any(t not in (TRUE, FALSE) for t in tv):
                    raise Undecided("condition on the counter: " + show(c2)[:100])
                first = tv.index(TRUE) if TRUE in tv else None
                if first is None or FALSE in tv[first:]:
                    return "the filter is emptied when the number of rejected full steps satisfies " + show(c2)[:100]
                th = first
            if th is None:
                return "the filter is emptied without regard to the number of rejected full steps"
            if th != 4:
                return "the filter is emptied after %d rejected full steps instead of 4" % th
            if not any(a.op == "last_rejection" for a in ats):
                return "the filter is emptied without its having caused the last rejection"
            if not imp(P, Or(*[a for a in ats if a.op == "last_rejection"])):
                return "the filter is emptied when it did not cause the last rejection"
            caps = [a for a in ats if a.op in ("flt", "fle") and any(ratio(y, cap) is not None for y in a.a)]
            if not caps:
                if any(cap in set(walk(a)) for a in ats if a.op in ("flt", "fle")):
                    raise Undecided("condition on the cap")
                return "the filter is emptied without regard to its cap on the violation"
            cv, good = curviol(S)[0], []
            for a in caps:
                for A, B, lit in ((a.a[0], a.a[1], a), (a.a[1], a.a[0], Not(a))):
                    r, q = ratio(A, cv), ratio(B, cap)
                    if r is None or q is None:
                        continue
                    if imp(P, lit) and r.a[0] * 10 != q.a[0] and abs(float(r.a[0] * 10 / q.a[0]) - 1) > 1e-12:
                        return "the filter is emptied when its cap is above %s of the current violation" % show(num(r.a[0] / q.a[0]))
                    good.append(lit)
            if not good:
                raise Undecided("condition on the cap: " + show(caps[0])[:200])
            if not imp(P, Or(*good)):
                return "the filter is emptied without its cap being above a tenth of the current violation"

    def named(c, ch, kk):
        """c as a condition on the counter's new value"""
        ts = []
        for x in walk(c):
            if x.op in ("ite", "poly", "add") and ch in set(walk(x)):
                lv = {canon(l) for _, l in split(x)}
                if lv == {ch, canon(add(ch, ONE))}:
                    ts.append(x)
        ts = [x for x in ts if not any(y is not x and x in set(walk(y)) for y in ts)]
        if len(ts) == 1:
            r = canon(subst(c, {ts[0]: kk}))
            return r if ch not in set(walk(r)) else None
        return None

    def curviol(S):
        ce = Names(S).cb
        out = []
        N = Names(S)
        h = lambda n: canon(S.I.load(S.L["h0"], S.lv[n]))
        c = raw("norm_1", canon(raw("app", N.cb["c_e"], h("x"))))
        if "s" in S.lv:
            c = add(c, raw("norm_1", canon(minus(raw("app", N.cb["c_i"], h("x")), h("s")))))
        return [canon(c)]

    def viol(S, y):
        return y

    def cap():
        k, M, L, lv = found()
        h, n = heads(L, k, M[CAP]), nexts(S, L, k, M[CAP])
        E = Or(*[P for P, x in lv if x.op == "list" and not x.a])
        if n is h or h.op != "phi":
            return "the filter is emptied without its cap being lowered"
        low = canon(mul(div(ONE, num(10)), h))
        for P, x in tops(n):
            x = canon(x)
            if x is h:
                if imp(P, E) and not imp(P, FALSE):
                    return "the filter is emptied without its cap being lowered"
                continue
            if isnum(canon(div(x, h))):
                f = canon(div(x, h)).a[0]
                if abs(float(f) - 0.1) > 1e-12:
                    return "the cap is multiplied by %s" % show(canon(div(x, h)))
                if not imp(P, E):
                    return "the cap is lowered without the filter being emptied"
            else:
                raise Undecided("the cap becomes " + show(x)[:80])
    R.check(name + "/the cap of the filter", where, cap)

    def counting():
        k, M, L, lv = found()
        ck, ch, cn = counter(L)
        for P, x in split(cn):
            x = canon(x)
            if x is ch:
                continue
            if x is canon(add(ch, ONE)):
                ats = full(S, L, P)
                if not ats or not imp(P, Or(*ats)):
                    return "a step counts as a rejected full step without being a full step"
            elif x is ZERO and any(canon(y) is canon(add(ch, ONE)) for _, y in split(cn)):
                return "the count of rejected full steps is restarted without a full step being accepted"
            elif not isnum(canon(minus(x, ch))) or canon(minus(x, ch)).a[0] < 2:
                raise Undecided("the counter becomes " + show(x)[:80])
            else:
                return "the counter of rejected full steps becomes " + show(x)[:100]
        oh = S.L["h0"].store.get(ck)
        if oh is None or oh.op != "phi":
            return "the count of rejected full steps starts anew with each step"
        on = nexts(S, S.L, ck)
        zs = [(P, x) for P, x in split(on) if isnum(x)]
        if not zs:
            for P, x in split(on):
                if x.op != "phi" and not isnum(canon(minus(x, ch))) and not isnum(canon(minus(x, heads(S.L, ck)))):
                    raise Undecided("the counter after a step: " + show(x)[:80])
            return "accepting a full step does not reset the count of rejected ones"
        for P, x in zs:
            if x is not ZERO:
                return "the count of rejected full steps is set to " + show(x)
            q = canon(sharpen(complete(S, P)))
            ats = full(S, L, P, q)
            if not ats or not (imp(P, Or(*ats)) or imp(q, Or(*ats))):
                return "the count of rejected full steps is reset although the accepted step was not a full one"
    R.check(name + "/the count of rejected full steps", where, counting)
    R.check(name + "/when the line search empties the filter", where, resets)

    def limits():
        k, M = filtercells(S)
        x0 = lambda n: canon(subst(S.I.load(S.L["init"], S.lv[n]), S.sub))
        N = Names(S)
        c = raw("norm_1", canon(raw("app", N.cb["c_e"], x0("x"))))
        if "s" in S.lv:
            c = add(c, raw("norm_1", canon(minus(raw("app", N.cb["c_i"], x0("x")), x0("s")))))
        c = canon(c)
        v = S.L["init"].store[k]
        for n, f in ((CAP, 10000), ("min_constraint_violation", 1 / 10000)):
            if n not in M:
                raise Undecided("members of a filter")
            t = canon(subst(at(v, M[n]), S.sub))
            if t is canon(mul(div(num(1), num(10000)) if f < 1 else num(f), raw("max", ONE, c))):
                continue
            m = [x for x in walk(t) if x.op == "max"]
            if len(m) == 1 and ratio(t, m[0]) is not None and ONE in m[0].a:
                r = ratio(t, m[0]).a[0]
                o = [canon(x) for x in m[0].a if x is not ONE]
                if len(o) == 1 and o[0] is c and abs(float(r) / f - 1) > 1e-12:
                    raise Undecided("limit of the filter is %s times the violation" % show(num(r)))
                if len(o) == 1 and all(x.op in ("norm_1", "norm_inf", "norm_2", "app", "poly", "sym", "fld", "num", "phi", "vones", "vfill") for x in walk(o[0])) and o[0] is not c:
                    vs = [x for x in walk(o[0]) if x.op == "app"]
                    if any(x.op.startswith("norm_") for x in walk(o[0])):
                        return "the filter's limits come from %s, not from the violation of the starting point, %s" % (show(o[0])[:200], show(c)[:200])
            raise Undecided("a filter's first limit is " + show(t)[:100])
    R.check(name + "/the filter's limits come from the starting point", where, limits)
