"""U01, U02, U03, U05: owning pointers, the memory pool, callable wrappers,
scope guards and profilers.

Each member function is executed abstractly for symbolic operands (with the
destructors of what it creates); the resulting transfer functions are then
read off over every small configuration of null, equal and different
pointers, empty and non-empty lists, active and inactive guards.  Blocks,
pointers and callables only occur as opaque tokens in them, so those
configurations stand for all."""
from collections import Counter
from fractions import Fraction
from frame import check, Broken
from sem import Interp, State, Unsupported
import sem, term as TM
from term import *
from decide import canon
from vx import Undecided

LOG = ("v", "log")


class Bad(Exception):
    pass


class Tok(str):
    """an opaque value"""


class Ptr(tuple):
    """a position in a chunk of memory: (chunk, offset)"""


def addv(x, y):
    if isinstance(x, Ptr) and isinstance(y, (int, Fraction)):
        return Ptr((x[0], x[1] + y))
    if isinstance(y, Ptr):
        return addv(y, x)
    if isinstance(x, (int, Fraction)) and isinstance(y, (int, Fraction)):
        return x + y
    raise Undecided("sum of %r and %r" % (x, y))


class Cv:
    """value of a transfer term for given operands"""

    def __init__(self, env, heap=None):
        self.env, self.heap, self.memo = env, heap or {}, {}

    def __call__(self, t):
        if t in self.env:
            return self.env[t]
        if t in self.memo:
            return self.memo[t]
        r = self.go(t)
        self.memo[t] = r
        return r

    def bound(self, m):
        e = dict(self.env)
        e.update(m)
        return type(self)(e, self.heap)

    def go(self, t):
        o, a = t.op, t.a
        m = getattr(self, "o_" + o, None)
        if m is None:
            raise Undecided("value of " + show(t)[:150])
        return m(t, *a)

    def o_num(self, t, x):
        return int(x) if x.denominator == 1 else x

    def o_null(self, t):
        return 0

    def o_unit(self, t):
        return None

    def o_true(self, t):
        return True

    def o_false(self, t):
        return False

    def o_not(self, t, x):
        return not self(x)

    def o_and(self, t, *xs):
        return all(self(x) for x in xs)

    def o_or(self, t, *xs):
        return any(self(x) for x in xs)

    def o_ite(self, t, c, x, y):
        c = self(c)
        if not isinstance(c, (bool, int)):
            raise Undecided("condition " + show(t.a[0])[:80])
        return self(x if c else y)

    def o_peq(self, t, x, y):
        return self(x) == self(y)

    o_ieq = o_feq = o_peq

    def num2(self, x, y):
        x, y = self(x), self(y)
        if not all(isinstance(v, (int, Fraction)) for v in (x, y)):
            raise Undecided("order of %r and %r" % (x, y))
        return x, y

    def o_ilt(self, t, x, y):
        x, y = self.num2(x, y)
        return x < y

    def o_ile(self, t, x, y):
        x, y = self.num2(x, y)
        return x <= y

    o_flt, o_fle = o_ilt, o_ile

    def o_add(self, t, x, y):
        return addv(self(x), self(y))

    def o_sub(self, t, x, y):
        x, y = self(x), self(y)
        if isinstance(y, (int, Fraction)):
            return addv(x, -y)
        raise Undecided("difference")

    def o_neg(self, t, x):
        x = self(x)
        if isinstance(x, (int, Fraction)):
            return -x
        raise Undecided("negation")

    def o_mul(self, t, x, y):
        x, y = self.num2(x, y)
        return x * y

    def o_div(self, t, x, y):
        x, y = self.num2(x, y)
        if y == 0:
            raise Undecided("division by zero")
        return Fraction(x) / y

    def o_idiv(self, t, x, y):
        x, y = self.num2(x, y)
        if y == 0 or any(isinstance(v, Fraction) and v.denominator != 1 for v in (x, y)):
            raise Undecided("integer quotient")
        q = abs(int(x)) // abs(int(y))
        return q if (x < 0) == (y < 0) else -q

    def o_imod(self, t, x, y):
        return self.num2(x, y)[0] - self.num2(x, y)[1] * self.o_idiv(t, x, y)

    def o_poly(self, t, p):
        s = 0
        for (cm, w), c in p:
            if w:
                raise Undecided("matrix product")
            v = c
            for x, e in cm:
                x = self(x)
                if isinstance(x, Ptr):
                    if v != 1 or e != 1 or len(cm) != 1:
                        raise Bad("a pointer is scaled")
                    v = x
                elif isinstance(x, (int, Fraction)):
                    if x == 0 and e < 0:
                        raise Undecided("division by zero")
                    v = v * Fraction(x) ** e
                else:
                    raise Undecided("arithmetic on %r" % (x,))
            s = addv(s, v)
        return int(s) if isinstance(s, Fraction) and s.denominator == 1 else s

    def o_obj(self, t, k):
        return Ptr(("obj%d" % k, 0))

    def o_rec(self, t, cls, fs):
        return {k: self(v) for k, v in fs}

    def o_setf(self, t, v, f, x):
        v = dict(self(v))
        v[f] = self(x)
        return v

    def o_fld(self, t, f, v):
        v = self(v)
        if isinstance(v, dict):
            if f not in v:
                raise Undecided("field " + f)
            return v[f]
        if v == 0:
            raise Bad("a null pointer is followed")
        return self.field(f, v)

    def field(self, f, v):
        if (f, v) in self.heap:
            return self.heap[(f, v)]
        raise Undecided("field %s of %r" % (f, v))

    def o_heap(self, t, f):
        return {"*": f}

    def o_hst(self, t, h, p, v):
        h = dict(self(h))
        p = self(p)
        if p == 0:
            raise Bad("a null pointer is written through")
        h[p] = self(v)
        return h

    def o_hsel(self, t, h, p):
        h, p = self(h), self(p)
        if p in h:
            return h[p]
        if p == 0:
            raise Bad("a null pointer is followed")
        if "*" in h:
            return self.field(h["*"], p)
        raise Undecided("heap")

    def lst(self, t):
        v = self(t)
        if not isinstance(v, list):
            raise Undecided("list " + show(t)[:80])
        return v

    def o_list(self, t, *xs):
        return [self(x) for x in xs]

    def o_push(self, t, c, v):
        return self.lst(c) + [self(v)]

    def o_popped(self, t, c):
        c = self.lst(c)
        if not c:
            raise Bad("the last element of an empty list is removed")
        return c[:-1]

    def o_cat(self, t, x, y):
        return self.lst(x) + self.lst(y)

    def o_len(self, t, c):
        v = self(c)
        if not isinstance(v, (list, str)):
            raise Undecided("length")
        return len(v)

    def o_sel(self, t, c, *i):
        c = self(c)
        i = tuple(self(k) for k in i)
        i = i[0] if len(i) == 1 else i
        if isinstance(c, dict):
            return c.get(i, [])
        if isinstance(c, list):
            if not isinstance(i, int) or not 0 <= i < len(c):
                raise Bad("element %s of a list of %d" % (i, len(c)))
            return c[i]
        raise Undecided("element")

    def o_upd(self, t, c, *iv):
        c = self(c)
        i, v = self(iv[0]), self(iv[-1])
        if len(iv) != 2:
            raise Undecided("update")
        if isinstance(c, dict):
            c = dict(c)
            c[i] = v
            return c
        if isinstance(c, list):
            if not isinstance(i, int) or not 0 <= i < len(c):
                raise Bad("element %s of a list of %d is written" % (i, len(c)))
            c = list(c)
            c[i] = v
            return c
        raise Undecided("update")

    def ranges(self, bs):
        if not bs:
            yield {}
            return
        h, lo, hi = bs[0]
        lo, hi = self(lo), self(hi)
        if not isinstance(lo, int) or not isinstance(hi, int) or hi - lo > 64:
            raise Undecided("range")
        for k in range(lo, hi):
            for m in self.bound({h: k}).ranges(bs[1:]):
                m = dict(m)
                m[h] = k
                yield m

    def o_comp(self, t, bs, g, x):
        r = []
        for m in self.ranges(bs):
            E = self.bound(m)
            if E(g):
                r.append(E(x))
        return r

    def o_fold(self, t, bs, p, init, nxt):
        v = self(init)
        for m in self.ranges(bs):
            m[p] = v
            v = self.bound(m)(nxt)
        return v

    def o_forupd(self, t, c, bs, idx, val, g):
        c = self(c)
        for m in self.ranges(bs):
            E = self.bound(m)
            if E(g):
                c = dict(c) if isinstance(c, dict) else list(c)
                c[E(idx[0])] = E(val)
        return c

    def o_ref(self, t, root, path):
        return Tok("&%s%s" % (root, path or ""))

    def o_ev(self, t, log, kind, *xs):
        return self(log) + [(kind.a[0],) + tuple(self(x) for x in xs)]


# ------------------------------------------------------------------ U01

ISP = "slp::IntrusiveSharedPtr"
MP = ISP + "::m_ptr"
IW = "include/sleipnir/util/intrusive_shared_ptr.hpp"


class Own(Cv):
    inside = False

    def bound(self, m):
        r = Cv.bound(self, m)
        r.inside = self.inside
        return r

    def o_dangling(self, t, p, v):
        if self.inside and self(p) == 1:
            raise Bad("the other pointer, which may live inside the released object, is used after it is gone")
        return self(v)


def undangle(t):
    """value of a slot, ignoring that it may be gone"""
    while t.op == "dangling":
        t = t.a[1]
    if t.op == "ite":
        return ite(t.a[0], undangle(t.a[1]), undangle(t.a[2]))
    return t


class Member:
    """transfer function of one member for given aliasing"""

    def __init__(self, u, f, same):
        self.u, self.f = u, f
        I = self.I = Interp(u, self.policy)
        I.smart_transparent = False
        I.dtors = True
        st = State()
        st.store[LOG] = raw("list")
        self.A, self.B = sym("p"), sym("q")
        R = u.recs[f["cls"]] if f.get("cls") in u.recs else None
        self.R = R
        self.rhs = None
        self.me = None
        args = []
        ctor = f.get("isctor")
        if f.get("cls") and not f.get("static"):
            self.me = I.alloc(st, rec(R["dn"], {} if ctor else {MP: self.A}), "this")
        for i, p in enumerate(f["params"]):
            t = I.ty(p["t"])
            r = u.recs.get(t.get("rec"), {})
            if r.get("q") == ISP:
                if same and self.me is not None:
                    args.append(self.me)
                    continue
                lv = I.alloc(st, rec(r["dn"], {MP: self.B if self.me is not None or i else self.A}), p["n"])
                if self.me is not None:
                    self.rhs = lv
                args.append(lv)
            elif "nullptr" in t["s"]:
                args.append(NULL)
            else:
                args.append(self.B)
        if ctor:
            I.run_ctor(st, R, f, self.me, args)
            v, s = UNIT, st
        else:
            v, s = I.call_fn(st, f, I.addr(self.me) if self.me is not None else None, args)
        if s is None:
            raise Undecided("never returns")
        self.val, self.st = v, s
        self.log = canon(s.store[LOG])
        self.this = canon(I.load(s, self.me)) if self.me is not None else None
        self.other = I.load(s, self.rhs) if self.rhs is not None else None
        if I.unknown:
            raise Undecided("unread: " + I.unknown[0])

    def policy(self, f, av):
        n = f["q"].split("::")[-1]
        if n in ("inc_ref_count", "dec_ref_count"):
            def h(I, st, fr, e, g, obj, a, n=n):
                v = I.load(st, a[0]) if I.islv(a[0]) else a[0]
                x = getf(undangle(I.load(st, self.rhs)), MP) if self.rhs is not None else NULL
                st.store[LOG] = raw("ev", st.store[LOG], sym(n[:3]), v, x)
                if n[0] == "d" and self.rhs is not None:
                    st.store[self.rhs.a[0]] = raw("dangling", v, st.store[self.rhs.a[0]])
                return UNIT
            return h


NAME = {0: "null", 1: "object 1", 2: "object 2"}


def settle(log, owners, inside):
    """run the count changes; returns (counts, destroyed)"""
    cnt = Counter(x for x in owners.values() if x)
    dead = set()
    gone = [False]

    def drop(p, inner):
        if p in dead:
            raise Bad("the count of %s, already destroyed, is changed" % NAME.get(p, p))
        cnt[p] -= 1
        if cnt[p] == 0:
            dead.add(p)
            if inside and p == 1 and not gone[0]:
                gone[0] = True
                if inner:
                    drop(inner, 0)
    for k, p, inner in log:
        if p == 0:
            raise Bad("the count of a null pointer is changed")
        if k == "inc":
            if p in dead:
                raise Bad("%s is destroyed before its count is incremented" % NAME.get(p, p))
            cnt[p] += 1
        else:
            drop(p, inner)
    return cnt, dead, gone[0]


def members(u):
    """(function, kind) of the owning pointer"""
    out = []
    for f in u.fns.values():
        R = u.recs.get(f.get("cls"))
        if R is not None and R.get("dn") == ISP + "<Base>":
            if not (f.get("body") or f.get("isctor") and f.get("inits") is not None):
                continue
            if f.get("isctor"):
                out.append((f, "ctor"))
            elif f.get("dtor"):
                out.append((f, "dtor"))
            elif f["n"] == "operator=":
                out.append((f, "assign"))
            elif f["n"] in ("get", "operator*", "operator->", "operator bool"):
                out.append((f, f["n"]))
            else:
                out.append((f, "other"))
        elif f.get("body") and f["n"] in ("operator==", "operator!=") and any(u.recs.get(u.types[p["t"]].get("rec"), {}).get("dn") == ISP + "<Base>" for p in f["params"]):
            out.append((f, f["n"]))
    return out


def isrv(u, f):
    return bool(f["params"]) and u.types[f["params"][0]["t"]].get("ref") == 2 or bool(f["params"]) and u.types[f["params"][0]["t"]]["s"].endswith("&&")


def label(u, f):
    return "%s(%s)" % (f["n"] if not f.get("isctor") else "constructor", ", ".join(u.types[p["t"]]["s"].replace("slp::", "") for p in f["params"]))


def owning(u, f, kind, R):
    same_ok = kind == "assign" and u.recs.get(u.types[f["params"][0]["t"]].get("rec"), {}).get("dn") == ISP + "<Base>"
    takes = any(u.recs.get(u.types[p["t"]].get("rec"), {}).get("q") == ISP for p in f["params"])
    move = isrv(u, f) and takes
    for alias in ("apart", "same", "inside"):
        if alias == "same" and not same_ok or alias == "inside" and kind != "assign":
            continue
        M = Member(u, f, alias == "same")
        R.saw(u, [u.fns[i] for i in M.I.inlined if i in u.fns])
        for p in (0, 1, 2):
            for q in (0, 1, 2):
                if kind == "dtor" and q or alias == "same" and p != q or alias == "inside" and p != 1:
                    continue
                if kind == "ctor" and p:
                    continue
                if kind == "ctor" and not f["params"] and q:
                    continue
                case = {"apart": "with %s and %s" % (NAME[p], NAME[q]) if kind == "assign" else "of %s" % NAME[p if kind == "dtor" else q],
                        "same": "of a pointer to %s to itself" % NAME[p],
                        "inside": "of a pointer to %s that lives in the object released" % NAME[q]}[alias]
                E = Own({M.A: p, M.B: q})
                E.inside = alias == "inside"
                owners = {}
                if kind != "ctor":
                    owners["this"] = p
                if takes and alias != "same":
                    owners["rhs"] = q
                try:
                    log = E(M.log)
                    cnt, dead, gone = settle(log, owners, alias == "inside")
                    after = {}
                    if kind != "dtor":
                        t = E(M.this)
                        if MP not in t:
                            raise Bad("the pointer is left uninitialised")
                        after["this"] = t[MP]
                    if takes and alias != "same":
                        x = undangle(M.other) if not gone else M.other
                        if gone:
                            strip = M.other
                            E(canon(strip.a[1])) if strip.op == "dangling" else E(canon(undangle(strip)))
                        else:
                            E.inside = False
                            after["rhs"] = E(canon(x))[MP]
                    want = q if takes or kind == "ctor" and f["params"] and "nullptr" not in u.types[f["params"][0]["t"]]["s"] else 0
                    if alias == "same":
                        want = p
                    if kind != "dtor" and after["this"] != want:
                        raise Bad("it ends up owning %s" % NAME.get(after["this"], after["this"]))
                    if not move and "rhs" in after and after["rhs"] != q:
                        raise Bad("the source is changed to %s" % NAME.get(after["rhs"], after["rhs"]))
                    if move and "rhs" in after and after["rhs"] not in (0, q):
                        raise Bad("the source ends up owning %s" % NAME.get(after["rhs"], after["rhs"]))
                    for x in (1, 2):
                        n = sum(1 for v in after.values() if v == x)
                        if cnt[x] != n:
                            raise Bad("%s has %d owner%s but count %d" % (NAME[x], n, "" if n == 1 else "s", cnt[x]))
                        if n and x in dead:
                            raise Bad("%s is destroyed while owned" % NAME[x])
                except Bad as b:
                    return "%s %s: %s" % ({"ctor": "construction", "dtor": "destruction", "assign": "assignment"}[kind], case, b)
        if kind == "assign":
            if M.val.op == "ref" and M.val is not M.me:
                return "does not return the pointer assigned to"
            if M.val.op == "ref" and M.val is M.me:
                continue
            raise Undecided("returned " + show(M.val)[:80])


def looks(u, f, kind, R):
    M = Member(u, f, False)
    R.saw(u, [u.fns[i] for i in M.I.inlined if i in u.fns])
    for p in (0, 1, 2):
        for q in (0, 1, 2):
            E = Own({M.A: p, M.B: q})
            if E(M.log):
                return "changes a count"
            if kind in ("operator==", "operator!="):
                v = M.val
                null = [i for i, x in enumerate(f["params"]) if "nullptr" in u.types[x["t"]]["s"]]
                eq = {(): p == q, (0,): q == 0, (1,): p == 0}[tuple(null)]
                if bool(E(v)) != (eq == (kind == "operator==")):
                    return "%s for %s and %s" % (E(v), NAME[p] if 0 not in null else "nullptr", NAME[q] if 1 not in null else "nullptr")
            elif kind == "operator bool":
                if bool(E(M.val)) != (p != 0):
                    return "%s for %s" % (E(M.val), NAME[p])
            elif p:
                v = M.val
                if kind == "operator*":
                    w = M.I.ptr(M.A)
                    if v is w or v.op == "ref" and v.a[0][0] == "h" and v.a[0][1] is M.A and not v.a[1]:
                        continue
                    raise Undecided("refers to " + show(v)[:80])
                if M.I.islv(v):
                    v = M.I.load(M.st, v)
                if E(v) != p:
                    return "gives %s for %s" % (E(v), NAME[p])


def making(u, f, R):
    news, log = [], []
    I = Interp(u)
    I.smart_transparent = False
    I.dtors = True
    RR = sym("block")

    def pol(g, av):
        n = g["q"].split("::")[-1]
        if n in ("inc_ref_count", "dec_ref_count"):
            def h(I, st, fr, e, g, obj, a, n=n):
                st.store[LOG] = raw("ev", st.store[LOG], sym(n[:3]), I.load(st, a[0]) if I.islv(a[0]) else a[0])
                return UNIT
            return h
    I.opaque = pol

    def alloc(I, st, fr, e, g):
        v = [I.val(st, fr, a) for a in e["a"]]
        st.store[LOG] = raw("ev", st.store[LOG], sym("allocate"), v[-1])
        return RR

    def cons(I, st, fr, e, g):
        v = [I.val(st, fr, a) for a in e["a"]]
        st.store[LOG] = raw("ev", st.store[LOG], sym("construct"), v[1])
        return UNIT
    I.hooks["std::allocator_traits::allocate"] = alloc
    I.hooks["std::allocator_traits::construct"] = cons
    st = State()
    st.store[LOG] = raw("list")
    v, s = I.call_fn(st, f, None, [sym(p["n"]) for p in f["params"]])
    R.saw(u, [u.fns[i] for i in I.inlined if i in u.fns])
    if I.islv(v):
        v = I.load(s, v)
    v = canon(v)
    B = Tok("block")
    E = Cv({RR: B})
    try:
        lg = E(canon(s.store[LOG]))
        p = E(v)[MP]
    except Bad as b:
        return str(b)
    T = [r for r in u.recs.values() if r["dn"] == f["ta"][0]] if f.get("ta") else []
    if f["n"] == "allocate_intrusive_shared":
        if p != B:
            return "does not own the block it allocated"
        kinds = [x[0] for x in lg]
        if kinds.count("allocate") != 1:
            return "allocates %d times" % kinds.count("allocate")
        if T and T[0].get("sz"):
            n = [x[1] for x in lg if x[0] == "allocate"][0]
            if isinstance(n, int) and n < T[0]["sz"]:
                return "allocates %d bytes for an object of %d" % (n, T[0]["sz"])
        c = [x for x in lg if x[0] == "construct"]
        if len(c) != 1 or c[0][1] != B:
            return "constructs %d objects in the block" % len([x for x in c if x[1] == B])
        if kinds.index("construct") > min([i for i, k in enumerate(kinds) if k in ("inc", "dec")] or [99]):
            return "the count is set before the object is constructed"
    n = sum({"inc": 1, "dec": -1}.get(x[0], 0) for x in lg if x[0] in ("inc", "dec") and x[1] == p)
    if n != 1 or any(x[0] in ("inc", "dec") and x[1] != p for x in lg) or any(x[0] == "dec" for x in lg):
        return "the new object has one owner but its count changes by %d" % n
    if not isinstance(p, (Ptr, Tok)):
        return "owns %r" % (p,)


# --- the count of expression nodes

EX = "slp::detail::Expression::"
XW = "include/sleipnir/autodiff/expression.hpp"


def counting(u, R):
    f = [f for f in u.fns.values() if f["q"] == "slp::detail::inc_ref_count" and f.get("body")]
    if not f:
        raise Broken("no inc_ref_count")
    I = Interp(u)
    st = State()
    P = sym("node")
    v, s = I.call_fn(st, f[0], None, [P])
    R.saw(u, f[:1])
    h = s.store.get(("H", EX + "ref_count"))
    if h is None:
        return "does not change the count"
    for n in (0, 1, 7):
        r = Cv({P: Tok("E")}, {(EX + "ref_count", "E"): n})(canon(h))
        if r.get("E") != n + 1:
            return "a count of %d becomes %s" % (n, r.get("E"))
        if set(r) - {"E", "*"}:
            return "the count of another node changes"
    if [k for k in s.store if k[0] == "H" and k != ("H", EX + "ref_count")]:
        return "changes another field"


def releasing(u):
    fs = [f for f in u.fns.values() if f["q"] == "slp::detail::dec_ref_count" and f.get("body")]
    if not fs:
        raise Broken("no dec_ref_count")
    f = fs[0]
    I = Interp(u)

    def free(I, st, fr, e, g):
        v = [I.val(st, fr, a) for a in e["a"]]
        p = v[1] if len(v) > 1 and g["q"].startswith("std::allocator_traits") else v[0]
        size = v[2] if len(v) > 2 else ZERO
        st.store[LOG] = raw("ev", st.store[LOG], sym("free"), p, size)
        for k in ("adjoint_expr", "args", "ref_count"):
            h = st.store.get(("H", EX + k)) or raw("heap", EX + k)
            st.store[("H", EX + k)] = raw("hst", h, p, raw("freed"))
        return UNIT
    I.hooks["std::allocator_traits::deallocate"] = free
    I.hooks["operator delete"] = free
    st = State()
    st.store[LOG] = raw("list")
    for k in ("adjoint_expr", "args", "ref_count"):
        st.store[("H", EX + k)] = raw("heap", EX + k)
    v, s = I.call_fn(st, f, None, [sym("expr")])
    return I, f, s


class Node(Cv):
    def o_freed(self, t):
        return Tok("freed")


def worklist(u, R):
    I, f, s = releasing(u)
    R.saw(u, [u.fns[i] for i in I.inlined if i in u.fns])
    if len([L for L in I.loops]) < 1:
        raise Undecided("no work list")
    Ls = [L for L in I.loops if any(k[0] == "v" and k != LOG for k in L["changed"]) and ("H", EX + "ref_count") in L["changed"]]
    if len(Ls) != 1:
        raise Undecided("%d work lists" % len(Ls))
    L = Ls[0]
    if L["exits"]:
        raise Undecided("the work list is left early")
    stk = [k for k in L["changed"] if k[0] == "v" and k != LOG]
    nx = L["next"].store
    hdr = {}
    terms = [canon(nx[k]) for k in L["changed"] if k in nx] + [canon(L["cond"])]
    for t in terms:
        for x in TM.walk(t):
            if x.op == "phi":
                hdr[x.a[1][0]] = x
    cand = []
    for k in stk:
        i = L["init"].store.get(k)
        if i is not None and canon(i) is raw("list", sym("expr")):
            cand.append(k)
    if len(cand) != 1:
        raise Undecided("work list start")
    K = cand[0]
    sizes = set()
    N = "E"
    for adj in (0, "X"):
        for args in ((0, 0), ("A", 0), (0, "B"), ("A", "B"), ("A", "A"), ("X", "B")):
            for cnt in (1, 2, 3):
                for below, oth in (([], 5), ([Tok("S")], 5), ([], 1)):
                    vals = {"adjoint_expr": {N: adj, "X": 0, "A": 0, "B": 0, "S": 0},
                            "args": {N: [Tok(a) if a else 0 for a in args]},
                            "ref_count": {N: cnt, "X": oth, "A": oth, "B": oth, "S": 5}}
                    env = {}
                    for k, p in hdr.items():
                        if k == K:
                            env[p] = below + [Tok(N)]
                        elif k == LOG:
                            env[p] = []
                        elif k[0] == "H" and k[1].startswith(EX):
                            env[p] = {Tok(a): b for a, b in vals[k[1][len(EX):]].items()}
                    heap = {(EX + fn, n): x for fn, d in vals.items() for n, x in d.items()}
                    E = Node(env, heap)
                    what = "a node with count %d, %d operand%s%s" % (cnt, sum(map(bool, args)), "s" if sum(map(bool, args)) != 1 else "", ", an adjoint expression" if adj else "")
                    try:
                        if E(canon(L["cond"])) is not True:
                            return "the work list is abandoned while it holds nodes"
                        e2 = dict(env)
                        if K in hdr:
                            e2[hdr[K]] = []
                            if Node(e2, heap)(canon(L["cond"])):
                                return "the work list is read when it is empty"
                        st2 = E(canon(nx[K]))
                        rc = E(canon(nx[("H", EX + "ref_count")]))
                        lg = E(canon(nx[LOG])) if LOG in L["changed"] else []
                    except Bad as b:
                        return "releasing %s: %s" % (what, b)
                    if any(x == "freed" for x in st2):
                        return "releasing %s: it is read after it was deallocated" % what
                    kids = [x for x in (adj,) + args if x] if cnt == 1 else []
                    if Counter(st2) != Counter(below + kids):
                        return "releasing %s: %d reference%s to operands dropped instead of %d" % (what, len(st2) - len(below), "" if len(st2) - len(below) == 1 else "s", len(kids)) if len(st2) != len(below) + len(kids) else "releasing %s: the wrong nodes are released" % what
                    fr = [x for x in lg if x[0] == "free"]
                    if cnt == 1 and (len(fr) != 1 or fr[0][1] != N):
                        return "releasing %s: it is deallocated %d times" % (what, len([x for x in fr if x[1] == N]))
                    if cnt > 1:
                        if fr:
                            return "releasing %s: it is deallocated while still owned" % what
                        if rc.get(N) != cnt - 1:
                            return "releasing %s: the count becomes %s" % (what, rc.get(N))
                    for k in ("A", "B", "X"):
                        if rc.get(k, oth) != oth:
                            return "releasing %s: the count of another node changes" % what
                    sizes |= {x[2] for x in fr}
    return None


def plain(u, R):
    """the release skips destructors: derived nodes may own nothing else"""
    base = [r for r in u.recs.values() if r["dn"] == "slp::detail::Expression<double>"]
    if not base:
        raise Broken("no Expression")
    own = {f["n"] for f in base[0]["fields"] if f.get("nd")}
    if own - {"adjoint_expr", "args"}:
        return "Expression has members the release does not destroy: " + ", ".join(sorted(own - {"adjoint_expr", "args"}))
    for r in u.recs.values():
        if base[0]["id"] in r.get("bases", ()):
            n = [f["n"] for f in r.get("fields", ()) if f.get("nd")]
            if n:
                return "%s has members the release does not destroy: %s" % (r["n"], ", ".join(n))


@check("U01", "Every constructor, assignment, comparison and the destructor of the owning pointer, the factory functions and the node counting functions are executed abstractly, with the destructors of their locals; the count changes they make are replayed for every combination of null, equal and different objects, for self-assignment and for a source inside the released object, and must equal the change in the number of owners without touching anything already destroyed. The work list that releases nodes is judged step by step.", expect=8)
def u01(R):
    u = R.unit("util")
    ms = members(u)
    if not ms:
        raise Broken("no owning pointer")
    for f, k in sorted(ms, key=lambda x: (x[0]["l"], x[0]["id"])):
        if k in ("ctor", "dtor", "assign"):
            R.check("IntrusiveSharedPtr " + label(u, f), "%s:%d" % (IW, f["l"]), lambda: owning(u, f, k, R))
        elif k != "other":
            R.check("IntrusiveSharedPtr " + label(u, f), "%s:%d" % (IW, f["l"]), lambda: looks(u, f, k, R))
    for f in sorted(u.fns.values(), key=lambda f: f["l"]):
        if f["q"] in ("slp::make_intrusive_shared", "slp::allocate_intrusive_shared") and f.get("body"):
            R.check(f["n"], "%s:%d" % (IW, f["l"]), lambda: making(u, f, R))
    a = R.unit("autodiff")
    R.check("inc_ref_count", XW, lambda: counting(a, R))
    R.check("dec_ref_count", XW, lambda: worklist(a, R))
    R.check("nodes own nothing else", XW, lambda: plain(a, R))


# ------------------------------------------------------------------ U02

PW = "include/sleipnir/util/pool.hpp"
PR = "slp::PoolResource"


class Pool:
    def __init__(self, u, R):
        self.u = u
        self.fn = {}
        for f in u.fns.values():
            r = u.recs.get(f.get("cls"))
            if r is not None and r["dn"] == PR:
                if f.get("isctor") and not f.get("copyctor") and not f.get("movector") and len(f["params"]) == 1:
                    self.fn["ctor"] = f
                elif f["n"] in ("allocate", "deallocate", "blocks_in_use") and f.get("body"):
                    self.fn[f["n"]] = f
                self.R = r
        for k in ("ctor", "allocate", "deallocate", "blocks_in_use"):
            if k not in self.fn:
                raise Broken("no PoolResource::" + k)
        I = Interp(u)
        st = State()
        self.N = sym("per chunk")
        self.init = canon(I.construct(st, self.R, self.fn["ctor"], [self.N]))
        self.per = None
        self.T = {k: self.run(k) for k in ("allocate", "deallocate", "blocks_in_use")}
        self.general = self.T
        R.saw(u, list(self.fn.values()))

    def fixed(self, n):
        """the transfer functions of a pool with n blocks per chunk: loops over them are followed round by round"""
        if not hasattr(self, "byn"):
            self.byn = {}
        if n not in self.byn:
            self.per = n
            self.byn[n] = {k: self.run(k) for k in ("allocate", "deallocate", "blocks_in_use")}
            self.per = None
        return self.byn[n]

    def run(self, k):
        f = self.fn[k]
        I = Interp(self.u)
        st = State()
        self.S = sym("pool")
        whole = self.S
        if self.per is not None:
            I.unrollmax = 16
            for k, x in self.init.a[1] if self.init.op == "rec" else ():
                if canon(x) is self.N:
                    whole = TM.setf(whole, k, num(self.per))
        lv = I.alloc(st, whole, "this")
        a = []
        for p in f["params"]:
            a.append(sym(p["n"]))
        v, s = I.call_fn(st, f, I.addr(lv), a)
        if I.islv(v):
            v = I.load(s, v)
        if I.unknown or any("ext" in x for x in I.opq):
            raise Undecided("unread " + str(list(I.opq) + I.unknown)[:100])
        return canon(v), canon(I.load(s, lv)), I, [sym(p["n"]) for p in f["params"]]


class PoolEv(Cv):
    def go(self, t):
        if t.op.startswith("ctor:std::map") or t.op.startswith("ctor:std::unordered_map"):
            return {}
        return Cv.go(self, t)

    def o_default(self, t, s):
        return {} if "map" in s else []

    def o_obj(self, t, k):
        return Ptr((Tok("new%d" % k), 0))


def fresh(v, m):
    """name the chunks made in this step"""
    if isinstance(v, Ptr):
        return Ptr((m.get(v[0], v[0]), v[1]))
    if isinstance(v, dict):
        return {k: fresh(x, m) for k, x in v.items()}
    if isinstance(v, list):
        return [fresh(x, m) for x in v]
    return v


class World:
    """what is known about the memory of one history"""

    def __init__(self, state, chunks=None, live=None, freed=None, count=0):
        self.state, self.chunks, self.live = state, chunks or {}, live or []
        self.freed, self.count = freed or [], count


def alloc(P, w, size):
    v, s, I, ps = P.T["allocate"]
    env = {P.S: w.state}
    for p, x in zip(ps, [size, 16]):
        env[p] = x
    E = PoolEv(env)
    p, st = E(v), E(s)
    m, ch = {}, dict(w.chunks)
    for k, (t, n) in I.news.items():
        m["new%d" % k] = Tok("chunk%d" % len(ch))
        if n is not None:
            try:
                ch["chunk%d" % len(ch)] = E(canon(n))
            except Undecided:
                raise
    p, st = fresh(p, m), fresh(st, m)
    if not isinstance(p, Ptr):
        raise Undecided("block %r" % (p,))
    if p[0] not in ch:
        raise Undecided("chunk of %r" % (p,))
    if p[1] < 0 or p[1] + size > ch[p[0]]:
        raise Bad("a block of %d bytes is handed out at offset %s of a chunk of %s bytes" % (size, p[1], ch[p[0]]))
    for q, n in w.live:
        if q[0] == p[0] and q[1] < p[1] + size and p[1] < q[1] + n:
            raise Bad("a block of %d bytes is handed out that overlaps one of %d bytes in use" % (size, n))
    if p[1] % size:
        raise Bad("a block of %d bytes is handed out at offset %s, which is not aligned for it" % (size, p[1]))
    used = {q[0] for q, n in w.live} | {q[0] for q, n in w.freed} | {p[0]}
    reuse = [q for q, n in w.freed if n == size]
    if reuse and p not in reuse and p[0] not in w.chunks:
        raise Bad("new memory is taken for %d bytes although a freed block of that size exists" % size)
    return World(st, ch, w.live + [(p, size)], [x for x in w.freed if x[0] != p], w.count)


def dealloc(P, w, i):
    v, s, I, ps = P.T["deallocate"]
    p, n = w.live[i]
    env = {P.S: w.state}
    for q, x in zip(ps, [p, n, 16]):
        env[q] = x
    st = PoolEv(env)(s)
    return World(st, w.chunks, w.live[:i] + w.live[i + 1:], w.freed + [(p, n)])


def inuse(P, w):
    return PoolEv({P.S: w.state})(P.T["blocks_in_use"][0])


def pool_rule(P, which, depth=6):
    try:
        P.T = P.general
        return pool_hist(P, which, depth)
    except Undecided:
        try:
            return pool_hist(P, which, depth, True)
        finally:
            P.T = P.general


SIZES = ((16, 48), (8, 1), (24, 32), (1000, 40))


def pool_hist(P, which, depth, each=False):
    for per, sizes in [(1, SIZES[0]), (2, SIZES[0]), (3, SIZES[0])] + [(2, s) for s in SIZES[1:]]:
        if each:
            P.T = P.fixed(per)
        d0 = depth if sizes is SIZES[0] else min(depth, 4)
        todo = [(World(PoolEv({P.N: per})(P.init)), "")]
        for d in range(d0):
            nxt = []
            for w, h in todo:
                for size in sizes:
                    hh = h + " +%d" % size
                    try:
                        nxt.append((alloc(P, w, size), hh))
                    except Bad as b:
                        k = "reuse" if str(b).startswith("new memory") else "live"
                        if which == k:
                            return "after%s with %d blocks per chunk: %s" % (hh, per, b)
                if per == 2 or d < 4:
                    for i in range(len(w.live)):
                        hh = h + " -%d" % w.live[i][1]
                        try:
                            nxt.append((dealloc(P, w, i), hh))
                        except Bad as b:
                            if which == "live":
                                return "after%s with %d blocks per chunk: %s" % (hh, per, b)
            todo = nxt if len(nxt) < 4000 else nxt[::len(nxt) // 4000 + 1]
            if which == "count":
                for w, h in todo:
                    n = inuse(P, w)
                    if n != len(w.live):
                        return "after%s with %d blocks per chunk: %s blocks are reported in use, %d are" % (h, per, n, len(w.live))


def forwards(u, R):
    got = []
    for n in ("allocate", "deallocate"):
        fs = [f for f in u.fns.values() if f["q"].split("<")[0] == "slp::PoolAllocator" and f["n"] == n and f.get("body")] or \
             [f for f in u.fns.values() if f["q"] == "slp::PoolAllocator::" + n and f.get("body")]
        if not fs:
            fs = [f for f in u.fns.values() if "PoolAllocator<Base>" in f["dn"] and f["n"] == n and f.get("body")]
        if not fs:
            raise Broken("no PoolAllocator::" + n)
        f = fs[0]
        calls = []

        def pol(g, av):
            if g["q"].startswith(PR + "::"):
                def h(I, st, fr, e, g, obj, a):
                    calls.append((g["n"], [I.load(st, x) if I.islv(x) else x for x in a]))
                    return sym("memory")
                return h
        I = Interp(u, pol)
        st = State()
        lv = I.alloc(st, sym("allocator"), "this")
        ps = [sym(p["n"]) for p in f["params"]]
        v, s = I.call_fn(st, f, I.addr(lv), ps)
        R.saw(u, [f])
        if len(calls) != 1 or calls[0][0] != n:
            return "%s makes %d calls to the pool" % (n, len(calls))
        a = [canon(x) for x in calls[0][1]]
        for i, p in enumerate(ps):
            if a[i] is not p:
                if all(x.op in ("sym", "num", "poly", "add", "mul") for x in TM.walk(a[i])):
                    return "%s passes %s to the pool for %s" % (n, show(a[i])[:60], show(p))
                raise Undecided("argument " + show(a[i])[:60])
        if n == "allocate" and canon(v) is not sym("memory"):
            raise Undecided("returns " + show(v)[:60])


def samesize(u, R):
    """blocks are released with the size they were requested with, and hold the node"""
    I, f, s = releasing(u)
    sizes = set()
    for L in I.loops:
        for k in L["changed"]:
            if k == LOG:
                for x in TM.walk(canon(L["next"].store[k])):
                    if x.op == "ev" and x.a[1] is sym("free"):
                        sizes.add(x.a[3])
    if len(sizes) != 1:
        raise Undecided("%d sizes released" % len(sizes))
    d = sizes.pop()
    if not isnum(d) or d is ZERO:
        raise Undecided("size released " + show(d))
    d = int(d.a[0])
    n = 0
    for g in sorted(u.fns.values(), key=lambda g: g["dn"]):
        if g["q"] != "slp::allocate_intrusive_shared" or not g.get("body") or not g.get("ta"):
            continue
        T = [r for r in u.recs.values() if r["dn"] == g["ta"][0]]
        if not T or "<double>" not in g["ta"][0] or not T[0].get("sz"):
            continue
        req = []

        def alloc(I, st, fr, e, h):
            req.append([I.val(st, fr, a) for a in e["a"]][-1])
            return sym("block")
        J = Interp(u, lambda h, av: (lambda I, st, fr, e, g, obj, a: UNIT) if h["q"].split("::")[-1] == "inc_ref_count" else None)
        J.smart_transparent = False
        J.hooks["std::allocator_traits::allocate"] = alloc
        J.hooks["std::allocator_traits::construct"] = lambda I, st, fr, e, h: UNIT
        J.call_fn(State(), g, None, [sym(p["n"] + str(i)) for i, p in enumerate(g["params"])])
        R.saw(u, [g])
        if len(req) != 1 or not isnum(canon(req[0])):
            raise Undecided("request for " + T[0]["n"])
        r = int(canon(req[0]).a[0])
        n += 1
        if r < T[0]["sz"]:
            return "%d bytes are requested for a %s of %d" % (r, T[0]["n"], T[0]["sz"])
        if r != d:
            return "a %s is allocated with %d bytes and released with %d" % (T[0]["n"], r, d)
    if not n:
        raise Undecided("no node type found")
    R.note("%d node types, %d bytes each" % (n, d)) if hasattr(R, "note") else None


@check("U02", "The pool's allocate, deallocate and blocks_in_use are executed abstractly for a symbolic pool; the transfer functions are applied to every sequence of up to six requests and releases of two sizes with one to three blocks per chunk (shorter ones for further pairs of sizes), and each block handed out must lie inside its chunk, be disjoint from the blocks in use, and be a freed one of that size if there is any. The sizes requested for every node type and the size with which nodes are released are compared.", expect=1)
def u02(R):
    u = R.unit("util")
    P = []

    def pool():
        if not P:
            P.append(Pool(u, R))
        return P[0]
    R.check("blocks in use are not handed out", PW, lambda: pool_rule(pool(), "live"))
    R.check("freed blocks are reused", PW, lambda: pool_rule(pool(), "reuse"))
    R.check("blocks in use are counted", PW, lambda: pool_rule(pool(), "count", 4))
    R.check("the allocator forwards sizes", PW, lambda: forwards(u, R))
    a = R.unit("autodiff")
    R.check("nodes are released with the size requested", XW, lambda: samesize(a, R))


# ------------------------------------------------------------ U03 and U05

def client(u, name, R):
    """(returned, I, state, parameter slots) of a client program"""
    fs = [f for f in u.fns.values() if f["q"] == name and f.get("body")]
    if not fs:
        raise Broken("no client program " + name)
    f = fs[0]
    I = Interp(u)
    I.smart_transparent = False
    I.dtors = True
    I.clock = []

    def now(I, st, fr, e, g):
        t = sym("t%d" % len(I.clock))
        I.clock.append(t)
        return t
    I.hooks["std::chrono::steady_clock::now"] = now

    def invoke(I, st, fr, e, g):
        # the callable is used as an object of the class the wrapper remembers
        r = u.recs.get(I.ty(e["a"][0]["t"]).get("rec"), {}).get("n")
        if r not in ("FA", "FB"):
            return None
        c = I.ev(st, fr, e["a"][0])
        c = I.load(st, c) if I.islv(c) else c
        return raw("app", raw("as", c, sym(r)), *[I.val(st, fr, x) for x in e["a"][1:]])
    I.hooks["std::invoke"] = invoke
    st = State()
    a = []
    for p in f["params"]:
        t = I.ty(p["t"])
        x = sym(p["n"])
        r = u.recs.get(t.get("rec"), {})
        if r.get("q") in ("slp::SetupProfiler", "slp::SolveProfiler"):
            x = I.default_init(st, r)
        a.append(I.alloc(st, x, p["n"]) if t.get("ref") else x)
    v, s = I.call_fn(st, f, None, a)
    R.saw(u, [u.fns[i] for i in I.inlined if i in u.fns])
    if s is None:
        raise Undecided("never returns")
    if I.islv(v):
        v = I.load(s, v)
    if I.unknown:
        raise Undecided(I.unknown[0])
    return canon(v), I, s, [canon(I.load(s, x)) if I.islv(x) else x for x in a]


def expect(got, want, names=None):
    w = canon(want)
    if got is w:
        return None
    ok = {"sym", "num", "poly", "add", "sub", "mul", "neg", "div", "ite", "app", "as", "not", "and", "or"}
    if all(x.op in ok for x in TM.walk(got)):
        return "gives %s instead of %s" % (show(got)[:120], show(w)[:120])
    raise Undecided("gives " + show(got)[:150])


FRW = "include/sleipnir/util/function_ref.hpp"
SEW = "include/sleipnir/util/scope_exit.hpp"
PFW = "include/sleipnir/util/profiler.hpp"

BOUND = {   # client program -> (what it shows, callable it must reach)
    "fr_call": ("calls what it was made from", "a"), "fr_call_const": ("calls a constant callable", "b"),
    "fr_copy": ("a copy calls what the source was bound to", "a"), "fr_copy_const": ("a copy of a constant one", "a"),
    "fr_move": ("a move", "a"), "fr_rebind": ("assigning a callable rebinds", "b"),
    "fr_rebind_back": ("assigning twice", "a"), "fr_assign": ("assigning another reference", "a"),
    "fr_assign_then_rebind": ("rebinding the source after assignment", "a"),
    "fr_assign_source": ("rebinding the target after assignment", "a"),
    "fr_assign_const": ("assigning a constant reference", "a"), "fr_assign_move": ("move assignment", "a"),
    "fr_assign_result": ("the result of an assignment", "a"), "fr_swap": ("swap", "a"), "fr_swap_other": ("swap, other side", "a"),
    "fr_swap_free": ("free swap", "a"), "fr_swap_free_other": ("free swap, other side", "a"), "fr_swap_twice": ("swapping twice", "a"),
    "fr_self": ("self-assignment", "a"), "fr_constness": ("calling a constant reference", "a"), "fr_passed": ("passing by value", "a")}

GUARDS = {  # client program -> (what it shows, expected value of n)
    "se_plain": "n += 3, then the action", "se_release": "released", "se_move": "moved", "se_move_release_new": "moved, new one released",
    "se_move_release_old": "moved, old one released", "se_release_move": "released, then moved", "se_move_twice": "moved twice",
    "se_release_twice": "released twice", "se_return": "left early", "se_release_if": "released on one path", "se_two": "two guards, last first"}


def guard(u, name, R):
    v, I, s, a = client(u, name, R)
    n, c = sym("n"), sym("c")
    after = add(n, num(3))
    act = lambda x: add(mul(num(2), x), ONE)
    want = {"se_plain": act(after), "se_release": after, "se_move": act(after), "se_move_release_new": after,
            "se_move_release_old": act(after), "se_release_move": after, "se_move_twice": act(after), "se_release_twice": after,
            "se_return": ite(c, act(add(n, ONE)), act(after)), "se_release_if": ite(c, after, act(after)),
            "se_two": act(mul(num(5), after))}[name]
    w = canon(want)
    if a[0] is w:
        return None
    bad = []
    try:
        for k in (0, 1, 5):
            for cc in (True, False):
                E = Cv({n: k, c: cc})
                if E(a[0]) != E(w):
                    bad.append((k, E(a[0]), E(w)))
    except Bad as b:
        raise Undecided(str(b))
    if bad:
        x0 = {"n": bad[0][0]}
        return "n starts at %s and ends at %s instead of %s: the action runs the wrong number of times or at the wrong moment" % bad[0]


@check("U03", "Client programs that bind, rebind, copy, assign, swap and call function references, and that create, move, release and leave scope guards, are executed abstractly with symbolic callables and arguments, overloads chosen by the compiler and destructors run; each must reach exactly the callable it was last bound to with its arguments in order, and run each action exactly once unless released.", expect=8)
def u03(R):
    u = R.unit("util")
    x, y = sym("x"), sym("y")
    for n, (what, to) in BOUND.items():
        R.check("function_ref: " + what, FRW, lambda: expect(client(u, n, R)[0], raw("app", raw("as", sym(to), sym("F" + to.upper())), x, y)))
    R.check("function_ref: shares the callable", FRW, lambda: expect(client(u, "fr_state", R)[0], add(getf(sym("c"), "FC::n"), mul(num(2), y))) if True else None)
    R.check("function_ref: leaves the old callable alone", FRW, lambda: expect(client(u, "fr_state_rebound", R)[0], add(mul(num(100), add(getf(sym("c"), "FC::n"), y)), add(getf(sym("d"), "FC::n"), mul(num(2), y)))))
    for n, what in GUARDS.items():
        R.check("scope_exit: " + what, SEW, lambda: guard(u, n, R))


def T(i):
    return sym("t%d" % i)


def D(i):
    return sub(T(2 * i + 1), T(2 * i))


def avg(n):
    s = D(0)
    for i in range(1, n):
        s = add(s, D(i))
    return div(s, num(n)) if n else ZERO


def total(n):
    s = ZERO
    for i in range(n):
        s = add(s, D(i))
    return s


TIMES = {
    "pf_setup": ("setup duration", lambda: D(0)), "pf_setup_again": ("setup duration, second pair", lambda: D(1)),
    "pf_setup_none": ("setup duration before any pair", lambda: ZERO), "pf_setup_scoped": ("setup duration under a scoped profiler", lambda: D(0)),
    "pf_count0": ("solves before any pair", lambda: ZERO), "pf_count1": ("solves after one pair", lambda: ONE),
    "pf_count_started": ("solves after a start", lambda: ZERO), "pf_count3": ("solves after three pairs", lambda: num(3)),
    "pf_current1": ("current duration after one pair", lambda: D(0)), "pf_current3": ("current duration after three pairs", lambda: D(2)),
    "pf_total0": ("total before any pair", lambda: ZERO), "pf_total1": ("total after one pair", lambda: total(1)),
    "pf_total3": ("total after three pairs", lambda: total(3)), "pf_average0": ("average before any pair", lambda: ZERO),
    "pf_average1": ("average after one pair", lambda: avg(1)), "pf_average2": ("average after two pairs", lambda: avg(2)),
    "pf_average3": ("average after three pairs", lambda: avg(3)),
    "ps_current": ("duration seen by a scoped profiler", lambda: D(0)), "ps_twice": ("solves after two scoped profilers", lambda: num(2))}

SCOPED = {"ps_leave": "left", "ps_stop": "stopped", "ps_stop_twice": "stopped twice", "ps_move": "moved", "ps_move_stop": "moved and stopped",
          "ps_move_stop_old": "old and new stopped", "ps_stop_move": "stopped and moved"}


def timed(got, want):
    g, w = canon(got), canon(want)
    if g is w:
        return None
    E = []
    for base in ((3, 10, 11, 25, 40, 47), (1, 2, 30, 34, 50, 91)):
        env = {T(i): Fraction(x) for i, x in enumerate(base)}
        try:
            a, b = Cv(env)(g), Cv(env)(w)
        except Bad as x:
            raise Undecided(str(x))
        if a != b:
            return "with clock readings %s it is %s instead of %s" % (", ".join(map(str, base)), float(a), float(b))


def scoped(u, n, R):
    v, I, s, a = client(u, n, R)
    if len(I.clock) != 2:
        return "the clock is read %d times: the profiler is %s" % (len(I.clock), "never stopped" if len(I.clock) < 2 else "stopped more than once")
    p = a[0]
    r = timed(getf(p, "slp::SolveProfiler::m_total_solve_duration"), D(0))
    return r


def running(u, R):
    """the sums and the average over any number of solves"""
    f = [f for f in u.fns.values() if f["q"] == "slp::SolveProfiler::stop" and f.get("body")]
    g = [f for f in u.fns.values() if f["q"] == "slp::SolveProfiler::start" and f.get("body")]
    get = {k: [f for f in u.fns.values() if f["q"] == "slp::SolveProfiler::" + k and f.get("body")] for k in ("num_solves", "total_duration", "average_duration")}
    if not f or not g or not all(get.values()):
        raise Broken("no SolveProfiler")
    I = Interp(u)
    I.clock = []

    def now(I, st, fr, e, g):
        I.clock.append(sym("t%d" % len(I.clock)))
        return I.clock[-1]
    I.hooks["std::chrono::steady_clock::now"] = now
    st = State()
    P = sym("profiler")
    lv = I.alloc(st, P, "p")

    def look(k):
        v, s = I.call_fn(st.copy(), get[k][0], I.addr(lv), [])
        return canon(I.load(s, v) if I.islv(v) else v)
    n0, t0, a0 = look("num_solves"), look("total_duration"), look("average_duration")
    v, s = I.call_fn(st, g[0], I.addr(lv), [])
    st.store, st.ev = s.store, s.ev
    v, s = I.call_fn(st, f[0], I.addr(lv), [])
    st.store, st.ev = s.store, s.ev
    n1, t1, a1 = look("num_solves"), look("total_duration"), look("average_duration")
    R.saw(u, [f[0], g[0]] + [x[0] for x in get.values()])
    atoms = {x for t in (n0, t0, a0, n1, t1, a1) for x in TM.walk(t) if x.op in ("sym", "fld") and x is not P}
    fl = [x for x in atoms if x.op == "fld"]
    for n in (0, 1, 2, 7, 100):
        for tot in (0, 12, 35):
            if n == 0 and tot:
                continue
            env = {T(0): Fraction(3), T(1): Fraction(10)}
            for x in fl:
                if x in (n0,):
                    env[x] = n
                elif x is t0:
                    env[x] = Fraction(tot)
                elif x is a0:
                    env[x] = Fraction(tot, n) if n else Fraction(0)
            try:
                E = Cv(env)
                if E(n0) != n or E(t0) != tot:
                    raise Undecided("profiler state")
                if E(n1) != n + 1:
                    return "%d solves become %s" % (n, E(n1))
                if E(t1) != tot + 7:
                    return "a solve of 7 s takes the total from %s to %s" % (tot, E(t1))
                if E(a1) != Fraction(tot + 7, n + 1):
                    return "after %d solves of %s s in total and one of 7 s the average is %s" % (n, tot, float(E(a1)))
            except Bad as b:
                raise Undecided(str(b))


@check("U05", "Client programs that start, stop, nest, move and leave profilers are executed abstractly with a symbolic clock; the counts, durations, totals and averages they report must be the stated functions of the readings, and one further start and stop from an arbitrary state must extend them accordingly.", expect=8)
def u05(R):
    u = R.unit("util")
    for n, (what, w) in TIMES.items():
        R.check(what, PFW, lambda: timed(client(u, n, R)[0], w()))
    for n, what in SCOPED.items():
        R.check("scoped profiler " + what, PFW, lambda: scoped(u, n, R))
    for n in ("pf_setup_name", "pf_solve_name"):
        def nm():
            v = client(u, n, R)[0]
            if not any(x is sym("n") for x in TM.walk(v)):
                if any(x.op == "str" for x in TM.walk(v)):
                    return "is " + show(v)[:60]
                raise Undecided("name " + show(v)[:80])
        R.check("name of a %s profiler" % n[3:8], PFW, nm)
    R.check("one more solve", PFW, lambda: running(u, R))
