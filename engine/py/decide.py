"""Equality of terms: normal form, alpha-renaming of bound indices and a
finite case analysis over the comparison atoms the two terms mention.

The case analysis splits a comparison pair into <, =, > (and "unordered" for
floating point), an enumeration into its enumerators and any other condition
into true/false.  Cases whose arithmetic assumptions are contradictory are
dropped by Fourier-Motzkin elimination on the linear assumptions.
"""
from fractions import Fraction
from term import *
import term as TM
import libmodel as LM


class Undecided(Exception):
    pass


# ------------------------------------------------------- alpha renaming

BINDERS = {"sum", "comp", "forall", "exists", "fold", "forupd", "hfor", "first", "exitval", "prev", "lastwhere", "foldmax", "foldmin", "flat"}
_al = {}
_ht = {}


def binders_of(t):
    for x in t.a:
        if isinstance(x, tuple) and x and isinstance(x[0], tuple) and len(x[0]) == 3 and isinstance(x[0][0], T) and x[0][0].op == "bv":
            return x
    return None


def height(t):
    h = _ht.get(t)
    if h is not None:
        return h
    h = 0
    for c in children(t):
        h = max(h, height(c))
    b = binders_of(t) if t.op in BINDERS else None
    if b:
        h += len(b)
    if t.op in ("argext",):
        h += 2
    _ht[t] = h
    return h


def alpha(t):
    r = _al.get(t)
    if r is not None:
        return r
    if not t.a or t.op in ("sym", "num", "phi", "bv"):
        _al[t] = t
        return t
    if t.op == "rec":
        r = rec(t.a[0], {k: alpha(v) for k, v in t.a[1]})
    else:
        args = tuple(_alx(x) for x in t.a)
        r = t if args == t.a else carry(t, rebuild(t.op, args))
        bs = binders_of(r) if r.op in BINDERS else None
        if bs:
            h = height(r)
            m = {}
            for i, (bv, lo, hi) in enumerate(bs):
                m[bv] = raw("bv", "h%d" % (h - i))
            if any(k is not v for k, v in m.items()):
                args = tuple(_sb2(x, m) for x in r.a)
                r = carry(r, raw(r.op, *args))
        elif r.op == "argext":
            h = height(r)
            m = {r.a[1]: raw("bv", "h%d" % h), r.a[2]: raw("bv", "h%d" % (h - 1))}
            r = raw(r.op, *tuple(_sb2(x, m) for x in r.a))
    _al[t] = r
    return r


def _alx(x):
    if isinstance(x, T):
        return alpha(x)
    if isinstance(x, tuple):
        return tuple(_alx(y) for y in x)
    return x


def _sb2(x, m):
    if isinstance(x, T):
        return subst(x, m)
    if isinstance(x, tuple):
        return tuple(_sb2(y, m) for y in x)
    return x


def canon(t):
    for _ in range(4):
        n = norm(alpha(norm(t)))
        if n is t:
            return t
        t = n
    return t


# ------------------------------------------------- linear assumption check

def lin(t):
    """{atom: coeff}, const of a term treated as linear in its monomials"""
    p = poly(t)
    d, c = {}, Fraction(0)
    for m, k in p.items():
        if m == ((), ()):
            c = k
        else:
            d[m] = k
    return d, c


NONNEG = ("fn:abs", "fn:sqrt", "fn:exp", "fn:cosh", "fn:hypot", "size", "rows", "cols", "norm", "lpnorm", "amax_abs")


def feasible(cons):
    """cons: list of (dict, const, op) meaning  sum + const  op 0,
    op in '<', '<=', '='.  Rational Fourier-Motzkin with a size cap; returns
    False only when contradictory."""
    ineqs = []
    eqs = []
    seen = set()
    for d, c, op in cons:
        for m in d:
            if m not in seen:
                seen.add(m)
                if not m[1] and m[0] and all(e % 2 == 0 for a, e in m[0]):
                    ineqs.append(({m: Fraction(-1)}, Fraction(0), "<="))
                elif len(m[0]) == 1 and m[0][0][0].op in NONNEG and m[0][0][1] > 0:
                    ineqs.append(({m: Fraction(-1)}, Fraction(0), "<="))
    for d, c, op in cons:
        if op == "=":
            eqs.append((dict(d), c))
        else:
            ineqs.append((dict(d), c, op))
    # eliminate equalities
    while eqs:
        d, c = eqs.pop()
        if not d:
            if c != 0:
                return False
            continue
        v = next(iter(d))
        k = d[v]

        def el(e, ec):
            if v not in e:
                return e, ec
            f = e[v] / k
            n = {m: e.get(m, 0) - f * d.get(m, 0) for m in set(e) | set(d)}
            n = {m: x for m, x in n.items() if x and m != v}
            return n, ec - f * c
        eqs = [el(*x) for x in eqs]
        ineqs = [(*el(a, b), o) for a, b, o in ineqs]
    for _ in range(40):
        keep = []
        for d, c, o in ineqs:
            if not d:
                if c > 0 or (c == 0 and o == "<"):
                    return False
            else:
                keep.append((d, c, o))
        ineqs = keep
        if not ineqs:
            return True
        vs = {}
        for d, c, o in ineqs:
            for v, k in d.items():
                p = vs.setdefault(v, [0, 0])
                p[k > 0] += 1
        v = min(vs, key=lambda v: vs[v][0] * vs[v][1])
        pos = [x for x in ineqs if x[0].get(v, 0) > 0]
        negs = [x for x in ineqs if x[0].get(v, 0) < 0]
        rest = [x for x in ineqs if v not in x[0]]
        if len(pos) * len(negs) > 400:
            return True
        new = {}
        for d1, c1, o1 in pos:
            for d2, c2, o2 in negs:
                a, b = d1[v], -d2[v]
                d = {m: d1.get(m, 0) * b + d2.get(m, 0) * a for m in set(d1) | set(d2)}
                d = {m: x for m, x in d.items() if x}
                c = c1 * b + c2 * a
                o = "<" if "<" in (o1, o2) else "<="
                if d:
                    s = abs(next(iter(sorted(d.items())))[1])
                    d = {m: x / s for m, x in d.items()}
                    c = c / s
                new[(tuple(sorted(d.items())), c, o)] = (d, c, o)
        ineqs = rest + list(new.values())
    return True


# ------------------------------------------------------------- case split

CMP = ("flt", "fle", "feq", "ilt", "ile", "ieq", "peq")


_nest = {}


def nested(c):
    r = _nest.get(c)
    if r is None:
        r = c.op == "ite" or any(nested(x) for x in children(c))
        _nest[c] = r
    return r


class Cases:
    """equality of two terms under assumptions"""

    def __init__(self, enums=None, limit=20000, nonan=False, splitter=None):
        self.enums = enums or {}     # term -> [enum constants]
        self.limit = limit
        self.count = 0
        self.leafs = 0
        self.nonan = nonan
        self.ints = set()
        self.witness = None
        self.splitter = splitter
        self.eqrule = None

    # conditions --------------------------------------------------------
    def conds(self, t, out, seen, quant=False):
        """condition atoms usable for splitting (not under a binder that
        binds one of their variables)"""
        st = [t]
        while st:
            x = st.pop()
            if x in seen:
                continue
            seen.add(x)
            if x.op == "ite":
                self.atoms(x.a[0], out)
            elif isbool(x) and x.op not in ("true", "false"):
                self.atoms(x, out)
            elif x.op in ("max", "min"):
                out.setdefault(raw("flt", *x.a) if x.op == "max" else raw("flt", x.a[1], x.a[0]), None)
            elif x.op == "fn:abs":
                out.setdefault(raw("flt", x.a[0], ZERO), None)
            st.extend(children(x))

    def atoms(self, c, out):
        if c.op in ("and", "or"):
            for x in c.a:
                self.atoms(x, out)
        elif c.op == "not":
            self.atoms(c.a[0], out)
        elif c.op == "ite":
            for x in c.a:
                self.atoms(x, out)
        elif c.op in ("true", "false"):
            pass
        else:
            out.setdefault(c, None)

    def free(self, c):
        return not any(l.op == "bv" and str(l.a[0]).startswith("h") for l in leaves(c))

    # assumptions -------------------------------------------------------
    def apply(self, t, A):
        """rewrite t under assumption set A (dict atom->bool plus subst)"""
        return canon(subst(t, A))

    def check(self, a, b, assume=()):
        """assume: list of boolean terms.  True/False (witness set)."""
        self.count = 0
        self.witness = None
        facts = []
        sub = {}
        a, b = canon(a), canon(b)
        todo = list(assume)
        return self._assume(a, b, todo, facts, sub)

    def _assume(self, a, b, todo, facts, sub):
        # conjoin assumptions, splitting disjunctions
        todo = list(todo)
        while todo:
            c = todo.pop(0)
            c = canon(subst(c, sub)) if sub else canon(c)
            if c is TRUE:
                continue
            if c is FALSE:
                return True
            if c.op == "and":
                todo = list(c.a) + todo
                continue
            if c.op == "or":
                # case split
                for x in c.a:
                    if not self._assume(a, b, [x] + todo, facts, dict(sub)):
                        return False
                return True
            if c.op == "ite":
                return self._assume(a, b, [And(c.a[0], c.a[1])] + todo, facts, dict(sub)) and self._assume(a, b, [And(Not(c.a[0]), c.a[2])] + todo, facts, dict(sub))
            neg_, at = (c.op == "not"), (c.a[0] if c.op == "not" else c)
            m, f = self.decided(at, not neg_)
            facts = facts + f
            if f and not feasible(facts):
                return True
            if m:
                a, b = canon(subst(a, m)), canon(subst(b, m))
                todo = [canon(subst(x, m)) for x in todo]
                sub = self.compose(sub, m)
                sub_f = []
        return self._split(a, b, facts, sub)

    def compose(self, sub, m):
        r = {k: canon(subst(v, m)) for k, v in sub.items()}
        for k, v in m.items():
            r.setdefault(k, v)
        return r

    def decided(self, at, val):
        """substitution and linear facts that follow from atom = val"""
        m = {at: boolv(val)}
        f = []
        o = at.op
        if o in CMP:
            x, y = at.a
            d, c = lin(sub_(x, y)) if o != "peq" else ({}, 0)
            if o in ("ilt", "ile", "ieq", "flt", "fle", "feq"):
                isint = o[0] == "i"
                if o[1:] == "lt" and val:
                    f.append((d, c + (1 if isint else 0), "<=" if isint else "<"))
                    if not isint:
                        m[cmp("fle", x, y)] = TRUE
                        m[cmp("feq", x, y)] = FALSE
                        m[cmp("flt", y, x)] = FALSE
                        m[cmp("fle", y, x)] = FALSE
                    else:
                        m[cmp("ieq", x, y)] = FALSE
                elif o[1:] == "le" and val:
                    f.append((d, c, "<="))
                    if not isint:
                        m[cmp("flt", y, x)] = FALSE
                elif o[1:] == "eq" and val:
                    f.append((d, c, "="))
                    e = self.eqsub(x, y)
                    if e:
                        m.update(e)
                    for p in ("lt",):
                        m[cmp(o[0] + p, x, y)] = FALSE
                        m[cmp(o[0] + p, y, x)] = FALSE
                    for p in ("le",):
                        m[cmp(o[0] + p, x, y)] = TRUE
                        m[cmp(o[0] + p, y, x)] = TRUE
                elif isint and not val and o != "ieq":
                    nd = {k: -v for k, v in d.items()}
                    if o == "ilt":
                        f.append((nd, -c, "<="))
                    else:
                        f.append((nd, -c + 1, "<="))
            if o == "peq" and val:
                if x.op in ("enumc",) or x is NULL or (x.op != "sym" and y.op == "sym" and x not in (y,)):
                    x, y = y, x
                if y.op == "enumc" or y is NULL:
                    m[x] = y
                    m[raw("ord", x)] = LM.ordn(y)
                elif x.op == "sym" or True:
                    if x not in set(walk(y)):
                        m[x] = y
        m = {k: v for k, v in m.items() if k is not v}
        return m, f

    def eqsub(self, x, y):
        """substitution for an arithmetic equality"""
        d = padd(poly(x), poly(y), -1)
        # prefer an atom that is not a number, occurs linearly with coeff c
        best = None
        for (cm, w), c in d.items():
            if w or len(cm) != 1 or cm[0][1] != 1:
                continue
            at = cm[0][0]
            rest = {k: v for k, v in d.items() if k != (cm, w)}
            rt = frompoly(padd({}, {k: v / c for k, v in rest.items()}, -1))
            if at in set(walk(rt)):
                continue
            key = (0 if isnum(rt) else 1, 0 if at.op in ("sym", "phi") else 1, -at.id)
            if best is None or key < best[0]:
                best = (key, at, rt)
        if best:
            return {best[1]: best[2]}
        return None

    def _split(self, a, b, facts, sub):
        self.count += 1
        if self.count > self.limit:
            raise Undecided("case limit")
        if a is b:
            self.leafs += 1
            return True
        out = {}
        seen = set()
        self.conds(a, out, seen)
        self.conds(b, out, seen)
        cs = [c for c in out if self.free(c)]
        # first try to decide atoms from the facts
        m = {}
        for c in cs:
            v = self.implied(c, facts)
            if v is not None:
                m[c] = boolv(v)
                if c.op == "ieq" and v:
                    m.update(self.decided(c, True)[0])
        if m:
            return self._split2(a, b, m, facts, sub)
        if not cs:
            self.leafs += 1
            if self.eqrule is not None and self.eqrule(a, b, facts, sub):
                return True
            self.witness = (a, b, dict(sub), list(facts))
            return False
        # does the outermost structure already differ irrespective of conditions?
        c = self.pick(cs, a, b)
        for lab, mm, ff in self.alternatives(c):
            nf = facts + ff
            if ff and not feasible(nf):
                continue
            if not self._split2(a, b, mm, nf, sub):
                return False
        return True

    def pick(self, cs, a, b):
        # prefer enumerations, then top-level conditions, small atoms
        def key(c):
            e = self.enumterm(c)
            top = 0
            for t in (a, b):
                if t.op == "ite" and t.a[0] is c:
                    top = -1
            return (1 if nested(c) else 0, 0 if e is not None else 1, top, 1 if c.op in ("forall", "exists") else 0, height(c), c.id)
        return min(cs, key=key)

    def enumterm(self, c):
        if c.op == "peq":
            for x, y in (c.a, c.a[::-1]):
                if y.op == "enumc":
                    return x
        return None

    def alternatives(self, c):
        e = self.enumterm(c)
        if e is not None:
            dom = self.enums.get(e)
            if dom is None and "*" in self.enums:
                dom = self.enums["*"](e, c)
            if dom:
                for k in dom:
                    yield (c, {e: k, raw("ord", e): LM.ordn(k)}, [])
                return
        if c.op in CMP and c.op != "peq":
            x, y = c.a
            i = c.op[0]
            d, k = lin(sub_(x, y))
            nd = {m: -v for m, v in d.items()}
            st = 1 if i == "i" else 0
            lt, le, eq, gt, ge = cmp(i + "lt", x, y), cmp(i + "le", x, y), cmp(i + "eq", x, y), cmp(i + "lt", y, x), cmp(i + "le", y, x)

            def mk(l, q, g):
                m = {}
                for t, v in ((lt, l), (le, l or q), (eq, q), (gt, g), (ge, g or q)):
                    if t not in (TRUE, FALSE):
                        if t.op == "not":
                            m[t.a[0]] = boolv(not v)
                        else:
                            m[t] = boolv(v)
                return m
            yield ("<", {**mk(True, False, False), **self.mm(x, y, "<")}, [(d, k + st, "<=" if st else "<")])
            meq = mk(False, True, False)
            es = self.eqsub(x, y)
            if es:
                meq.update(es)
            meq.update(self.mm(x, y, "="))
            yield ("=", meq, [(d, k, "=")])
            yield (">", {**mk(False, False, True), **self.mm(x, y, ">")}, [(nd, -k + st, "<=" if st else "<")])
            if i == "f" and not self.nonan and self.maynan(x, y):
                yield ("unordered", {**mk(False, False, False), **self.mm(x, y, "u")}, [])
            return
        yield ("T",) + self.decided(c, True)
        yield ("F",) + self.decided(c, False)

    def maynan(self, x, y):
        return True

    def mm(self, x, y, rel):
        """values of max/min/abs terms decided by the ordering of x and y"""
        m = {}
        if rel == "<":
            mxv = {(x, y): y, (y, x): y}
            mnv = {(x, y): x, (y, x): x}
        elif rel == ">":
            mxv = {(x, y): x, (y, x): x}
            mnv = {(x, y): y, (y, x): y}
        else:
            mxv = {(x, y): x, (y, x): y}
            mnv = {(x, y): x, (y, x): y}
        for (p, q), v in mxv.items():
            t = raw("max", p, q)
            m[t] = v
        for (p, q), v in mnv.items():
            t = raw("min", p, q)
            m[t] = v
        if y is ZERO or x is ZERO:
            z, r = (x, rel) if y is ZERO else (y, {"<": ">", ">": "<"}.get(rel, rel))
            if r == "<":
                m[raw("fn:abs", z)] = neg(z)
            elif r == ">":
                m[raw("fn:abs", z)] = z
            elif r == "=":
                m[raw("fn:abs", z)] = ZERO
            else:
                m[raw("fn:abs", z)] = z
        return m

    def implied(self, c, facts):
        if c.op in CMP and c.op != "peq" and facts:
            x, y = c.a
            d, k = lin(sub_(x, y))
            keys = set()
            for fd, fk, fo in facts:
                keys |= set(fd)
            if not (set(d) <= keys) and d:
                return None
            nd = {m: -v for m, v in d.items()}
            i = c.op[0] == "i"
            st = 1 if i else 0
            lt = (d, k + st, "<=" if i else "<")
            gt = (nd, -k + st, "<=" if i else "<")
            le = (d, k, "<=")
            ge = (nd, -k, "<=")
            f = facts
            o = c.op[1:]
            if i:
                if o == "lt":
                    if not feasible(f + [ge]):
                        return True
                    if not feasible(f + [lt]):
                        return False
                elif o == "le":
                    if not feasible(f + [gt]):
                        return True
                    if not feasible(f + [le]):
                        return False
                else:
                    if not feasible(f + [lt]) and not feasible(f + [gt]):
                        return True
                    if not feasible(f + [(d, k, "=")]):
                        return False
            else:
                # facts on floats are only recorded for ordered operands
                if o == "lt" and not feasible(f + [lt]):
                    return False
                if o == "le" and not feasible(f + [le]):
                    return False
                if o == "eq" and not feasible(f + [(d, k, "=")]):
                    return False
        return None

    def _split2(self, a, b, m, facts, sub):
        a2, b2 = canon(subst(a, m)), canon(subst(b, m))
        nf = facts
        s2 = dict(sub)
        s2.update(m)
        # facts must follow substitutions of atoms
        ren = {k: v for k, v in m.items() if not isbool(k) and v not in (TRUE, FALSE)}
        if ren:
            nf = [self.refact(f, ren) for f in facts]
            if not feasible(nf):
                return True
        return self._split(a2, b2, nf, s2)

    def refact(self, f, ren):
        d, c, o = f
        t = frompoly({**d, **({((), ()): c} if c else {})})
        d2, c2 = lin(canon(subst(t, ren)))
        return (d2, c2, o)

    def explain(self):
        if not self.witness:
            return ""
        a, b, sub, facts = self.witness
        conds = []
        for k, v in sub.items():
            if k.op in ("max", "min", "ord", "fn:abs"):
                continue
            if v in (TRUE, FALSE):
                s = show(k)
                conds.append(s if v is TRUE else "not " + s)
            else:
                conds.append("%s = %s" % (show(k), show(v)))
        return "computed %s, required %s%s" % (show(a)[:700], show(b)[:700], (" when " + "; ".join(conds)[:600]) if conds else "")


def sub_(x, y):
    return sub(x, y)
