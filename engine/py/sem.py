"""Gated abstract interpreter over the extracted, type-resolved program.

Every function body is turned into terms: straight-line code by value
numbering, branches by gated merges (ite), loops by summaries (sums, maps,
appends, quantifiers) or, failing that, by header symbols (phi).  Calls to
functions of the repository are inlined unless a rule declares them opaque.
No path is enumerated and nothing is executed.
"""
import json
from fractions import Fraction
from term import *
import term as TM


class Unsupported(Exception):
    pass


class Unit:
    """One extracted translation unit."""

    def __init__(self, path):
        self.types = {}
        self.fns = {}
        self.recs = {}
        self.vars = {}
        self.enums = {}
        self.files = {}
        self.ftmpl = []
        self.statics = []
        self.nonre = []
        self.errors = None
        with open(path) as f:
            for line in f:
                o = json.loads(line)
                k = o["K"]
                if k == "type":
                    self.types[o["id"]] = o
                elif k == "fn":
                    self.fns[o["id"]] = o
                elif k == "rec":
                    self.recs[o["id"]] = o
                elif k == "var":
                    self.vars[o["id"]] = o
                elif k == "enum":
                    self.enums[o["q"]] = o
                elif k == "file":
                    self.files[o["id"]] = o["path"]
                elif k == "static":
                    self.statics.append(o)
                elif k == "nonre":
                    self.nonre.append(o)
                elif k == "ftmpl":
                    self.ftmpl.append(o)
                elif k == "end":
                    self.errors = o["errors"]
        if self.errors is None:
            raise Unsupported("truncated extraction " + path)
        self.byq = {}
        for f in self.fns.values():
            # default template arguments may be left out of qualified names
            r = self.recs.get(f.get("cls"))
            if r and r["dn"].startswith("slp::Hessian<"):
                f["q"] = r["dn"] + "::" + f["n"]
            self.byq.setdefault(f["q"], []).append(f)
        self.overrides = {}
        for f in self.fns.values():
            for o in f.get("over", ()):
                self.overrides.setdefault(o, []).append(f)

    def fn(self, q, pred=None):
        c = [f for f in self.byq.get(q, []) if pred is None or pred(f)]
        return c

    def ts(self, tid):
        return self.types[tid]["s"]

    def loc(self, f, line=None):
        return "%s:%s" % (self.files.get(f.get("file"), "?").replace("/repo/", ""), line or f.get("l"))


class State:
    __slots__ = ("store", "ev")

    def __init__(self, store=None, ev=()):
        self.store = dict(store) if store else {}
        self.ev = ev

    def copy(self):
        return State(self.store, self.ev)


def merge(c, a, b):
    """State after a two-way join."""
    if a is None:
        return b
    if b is None:
        return a
    r = State()
    for k in a.store.keys() | b.store.keys():
        x, y = a.store.get(k), b.store.get(k)
        if x is None or y is None:
            x = y = x if x is not None else y
            if k[0] == "H":
                # heap field touched on one side only
                base = raw("heap", k[1])
                xa, xb = a.store.get(k, base), b.store.get(k, base)
                r.store[k] = ite(c, xa, xb)
                continue
            if k[0] == "S":
                base = raw("init", k)
                r.store[k] = ite(c, a.store.get(k, base), b.store.get(k, base))
                continue
        r.store[k] = x if x is y else ite(c, x, y)
    if a.ev is b.ev:
        r.ev = a.ev
    else:
        n = 0
        while n < len(a.ev) and n < len(b.ev) and a.ev[n] is b.ev[n]:
            n += 1
        r.ev = a.ev[:n] + tuple((And(c, g),) + tuple(e) for g, *e in a.ev[n:]) + tuple((And(Not(c), g),) + tuple(e) for g, *e in b.ev[n:])
    return r


class Outcome:
    __slots__ = ("st", "g", "exits")

    def __init__(self, st, g=TRUE, exits=None):
        self.st = st      # normal continuation state or None
        self.g = g        # guard under which it is reached
        self.exits = exits or []  # (guard, kind, value, state)


class Frame:
    __slots__ = ("env", "this", "fn", "act", "parent", "cls")

    def __init__(self, fn, act, this=None, env=None, parent=None):
        self.env = env if env is not None else {}
        self.this = this
        self.fn = fn
        self.act = act
        self.parent = parent


CONTAINERS = ("gch::small_vector", "std::vector", "std::span", "std::array", "std::initializer_list", "std::deque")
SMART = ("slp::IntrusiveSharedPtr", "std::unique_ptr", "std::shared_ptr")

TRANSPARENT = {"std::move", "std::forward", "std::as_const", "std::addressof_", "std::to_underlying", "std::ref", "std::cref"}

MATHFN = {"sin", "cos", "tan", "asin", "acos", "atan", "sinh", "cosh", "tanh", "exp", "log", "log10", "sqrt", "cbrt", "abs", "fabs", "erf", "pow", "hypot", "atan2", "isfinite", "isnan", "signbit", "copysign", "fma", "sqrt1pm1", "round", "floor", "ceil", "log2", "exp2", "expm1", "log1p", "fmin", "fmax"}


def sizekept(n, p):
    while n.op in ("upd", "forupd", "ite"):
        if n.op == "ite" and not sizekept(n.a[1], p):
            return False
        n = n.a[2] if n.op == "ite" else n.a[0]
    return n is p


def stride(d, width=False):
    """a step of a slice, or (width) such a step, or one, times the number of
    columns of a matrix"""
    p = poly(d)
    if len(p) != 1:
        return False
    (m, c), = p.items()
    if not c or m[1]:
        return False
    names = []
    for t, e in m[0]:
        if e != 1 or t.op != "fld":
            return False
        names.append(str(t.a[0]).split("::")[-1])
    w = names.count("m_cols")
    return w == (1 if width else 0) and all(n in ("m_cols", "step") for n in names)


class Interp:
    unrollmax = 0

    def __init__(self, unit, opaque=None, max_depth=60):
        self.u = unit
        self.opaque = opaque or (lambda fn, args: None)
        self.act = 0
        self.loopc = 0
        self.asserts = []       # (guard-free condition term, frame fn, line)
        self.inlined = {}       # fn id -> count
        self.opq = {}           # opaque callee -> count
        self.unknown = []       # unsupported constructs encountered
        self.depth = 0
        self.max_depth = max_depth
        self.stack = []
        self.loops = []         # summaries produced (for reports)
        self.fnrefs = {}        # functions whose address was taken
        self.hooks = {}         # qualified name -> handler(self, st, fr, e, fn, objv, args)
        self.record_calls = None
        self.smart_transparent = True
        self.dtors = False      # run destructors of locals, parameters and temporaries (at function exit)
        self.dtroots = {}       # root -> (activation, destructor)
        self.inloop = 0
        self.news = {}          # activation of a new expression -> (type id, array length or None)
        self.races = []         # variables a concurrent task may see change
        self.refcaps = {}       # locals captured by reference
        self.node_ctor_cache = {}
        self.bvc = 0
        self.keep_phi = False

    # ------------------------------------------------------------ memory
    def newroot(self, tag):
        self.act += 1
        return ("v", tag, self.act)

    def ref(self, root, path=()):
        return raw("ref", root, path)

    def alloc(self, st, v, tag="tmp"):
        r = self.newroot(tag)
        st.store[r] = v
        return self.ref(r)

    def rootval(self, st, root):
        if root[0] == "v":
            v = st.store.get(root)
            if v is None:
                v = raw("uninit", root[1])
            return v
        if root[0] == "S":
            v = st.store.get(root)
            if v is None:
                v = raw("init", root)
            return v
        raise Unsupported("root %r" % (root,))

    def load(self, st, r):
        if r.op == "ite":
            return ite(r.a[0], self.load(st, r.a[1]), self.load(st, r.a[2]))
        if r.op != "ref":
            return r
        root, path = r.a
        if root[0] == "h":
            if not path:
                return raw("deref", root[1])
            if path[0][0] == "f":
                v = self.heapload(st, path[0][1], root[1])
                return self.walk(v, path[1:])
            v = self.heapload(st, "*", root[1])
            return self.walk(v, path)
        return self.walk(self.rootval(st, root), path)

    def heapload(self, st, f, p):
        h = st.store.get(("H", f))
        return self.hsel(st, h if h is not None else raw("heap", f), f, p)

    def hsel(self, st, h, f, p):
        if p.op == "ite":
            return ite(p.a[0], self.hsel(st, h, f, p.a[1]), self.hsel(st, h, f, p.a[2]))
        if h.op == "hst":
            a, v = h.a[1], h.a[2]
            if a is p:
                return v
            if distinct(a, p):
                return self.hsel(st, h.a[0], f, p)
            return ite(cmp("peq", a, p), v, self.hsel(st, h.a[0], f, p))
        if h.op == "ite":
            return ite(h.a[0], self.hsel(st, h.a[1], f, p), self.hsel(st, h.a[2], f, p))
        if h.op == "heap" and p.op == "node":
            r = self.nodefield(p, f)
            if r is not None:
                return r
        if h.op == "heap":
            return raw("fld", f, p)
        return raw("hsel", h, p)

    def nodefield(self, p, f):
        """Initial value of a field of a freshly made node: evaluate its
        constructor."""
        v = self.node_ctor_cache.get(p)
        if v is None:
            v = self.build_node(p)
            self.node_ctor_cache[p] = v
        if v is None:
            return None
        for k, x in v.a[1]:
            if k == f:
                return x
        return None

    def build_node(self, p):
        cls = p.a[0]
        args = list(p.a[1:])
        R = None
        for r in self.u.recs.values():
            if r["dn"] == cls:
                R = r
        if R is None:
            return None
        ctor = None
        for m in R.get("methods", ()):
            f = self.u.fns.get(m)
            if f and f.get("isctor") and not f.get("copyctor") and not f.get("movector") and len(f["params"]) == len(args):
                if ctor is None or self.ctor_match(f, args) > self.ctor_match(ctor, args):
                    ctor = f
        st = State()
        return self.construct(st, R, ctor, args)

    def ctor_match(self, f, args):
        s = 0
        for p, a in zip(f["params"], args):
            c = self.u.types[p["t"]]["c"]
            if c == "float" and not a.op in ("node",):
                s += 1
            if c == "rec":
                s += 1 if a.op in ("node", "sym", "fld") else 0
        return s

    def walk(self, v, path):
        for s in path:
            if s[0] == "f":
                v = getf(v, s[1])
            elif s[0] == "i":
                v = sel(v, *s[1:])
            elif s[0] == "p":
                v = self.partget(v, s)
            else:
                raise Unsupported("path %r" % (s,))
        return v

    def partget(self, v, s):
        if v.op == "updp" and v.a[1] == s[1:]:
            return v.a[2]
        if v.op == "fill":
            return raw("part", v, *s[1:])
        if v.op == "ite":
            return ite(v.a[0], self.partget(v.a[1], s), self.partget(v.a[2], s))
        return self.mark(raw("part:" + s[1], v, *s[2:]), True)

    def mark(self, t, m):
        if m:
            TM.markmat(t)
        return t

    def store(self, st, r, v):
        if r.op == "ite":
            # conditional lvalue
            c = r.a[0]
            a = st.copy()
            b = st.copy()
            self.store(a, r.a[1], v)
            self.store(b, r.a[2], v)
            m = merge(c, a, b)
            st.store = m.store
            return
        if r.op != "ref":
            self.unknown.append("store to non-lvalue %s" % show(r)[:80])
            return
        root, path = r.a
        if root[0] == "h":
            p = root[1]
            if path and path[0][0] == "f":
                f = path[0][1]
                old = self.heapload(st, f, p) if len(path) > 1 else None
                nv = self.put(old, path[1:], v)
                h = st.store.get(("H", f), raw("heap", f))
                st.store[("H", f)] = self.hstore(h, p, nv)
                return
            f = "*"
            if not path and v.op == "rec":
                for k, x in v.a[1]:
                    h = st.store.get(("H", k), raw("heap", k))
                    st.store[("H", k)] = self.hstore(h, p, x)
                return
            old = self.heapload(st, f, p)
            nv = self.put(old, path, v)
            h = st.store.get(("H", f), raw("heap", f))
            st.store[("H", f)] = self.hstore(h, p, nv)
            return
        st.store[root] = self.put(self.rootval(st, root) if path else None, path, v)

    def hstore(self, h, p, v):
        if h.op == "hst" and h.a[1] is p:
            return self.hstore(h.a[0], p, v)
        return raw("hst", h, p, v)

    def put(self, old, path, v):
        if not path:
            return v
        s = path[0]
        if s[0] == "f":
            return setf(old, s[1], self.put(getf(old, s[1]) if len(path) > 1 else None, path[1:], v))
        if s[0] == "i":
            return upd(old, *s[1:], self.put(sel(old, *s[1:]) if len(path) > 1 else None, path[1:], v))
        if s[0] == "p":
            nv = self.put(self.partget(old, s) if len(path) > 1 else None, path[1:], v)
            if old.op == "updp" and old.a[1] == s[1:]:
                old = old.a[0]
            return raw("updp", old, s[1:], nv)
        raise Unsupported("put %r" % (s,))

    def field(self, base, f):
        """lvalue of field f of the object designated by base (an lvalue ref,
        a pointer value, or a plain value)."""
        if base.op == "ref":
            return raw("ref", base.a[0], base.a[1] + (("f", f),))
        if base.op == "ite":
            return ite(base.a[0], self.field(base.a[1], f), self.field(base.a[2], f))
        return None

    def elem(self, base, *idx):
        if base.op == "ref":
            return raw("ref", base.a[0], base.a[1] + (("i",) + tuple(normi(i) for i in idx),))
        if base.op == "ite":
            return ite(base.a[0], self.elem(base.a[1], *idx), self.elem(base.a[2], *idx))
        return None

    def part(self, base, *spec):
        if base.op == "ref":
            return raw("ref", base.a[0], base.a[1] + (("p",) + tuple(normi(s) if isinstance(s, T) else s for s in spec),))
        if base.op == "ite":
            return ite(base.a[0], self.part(base.a[1], *spec), self.part(base.a[2], *spec))
        return self.partget(base, ("p",) + spec)

    def ptr(self, p):
        """lvalue designated by pointer value p."""
        if p.op == "ref":
            return p
        if p.op == "iter" and len(p.a) == 3 and self.islv(p.a[0]):
            return self.elem(p.a[0], p.a[1])
        if p.op == "ite":
            return ite(p.a[0], self.ptr(p.a[1]), self.ptr(p.a[2]))
        return raw("ref", ("h", p), ())

    def addr(self, r):
        """pointer value of lvalue r."""
        if r.op == "ref" and r.a[0][0] == "h" and not r.a[1]:
            return r.a[0][1]
        if r.op == "ite":
            return ite(r.a[0], self.addr(r.a[1]), self.addr(r.a[2]))
        return r

    # ------------------------------------------------------------ types
    def ty(self, tid):
        return self.u.types[tid]

    def recname(self, tid):
        t = self.ty(tid)
        if "rec" in t:
            return self.u.recs.get(t["rec"], {}).get("q", "")
        return ""

    def iseigen(self, tid):
        return self.ty(tid)["s"].startswith(("Eigen::", "const Eigen::"))

    def iscontainer(self, q):
        return q.startswith(CONTAINERS) if isinstance(q, str) else False

    def cmpop(self, tid, op):
        c = self.ty(tid)["c"]
        if c == "float":
            return "f" + op
        if c in ("int", "uint", "bool"):
            return "i" + op
        if op == "eq":
            return "peq"
        return "i" + op

    # ------------------------------------------------------------ calls
    def call_fn(self, st, fn, this, args, caller=None):
        """Inline function fn.  args: list of values/refs (already evaluated
        to what the parameter expects).  Returns (value, state or None,
        exits-by-throw)."""
        if self.depth >= self.max_depth or self.stack.count(fn["id"]) > 2:
            raise Unsupported("recursion in " + fn["dn"])
        self.inlined[fn["id"]] = self.inlined.get(fn["id"], 0) + 1
        self.act += 1
        fr = Frame(fn, self.act, this=this, parent=caller)
        self.depth += 1
        self.stack.append(fn["id"])
        try:
            for p, a in zip(fn["params"], args):
                self.bind_param(st, fr, p, a)
            body = fn.get("body")
            if body is None:
                raise Unsupported("no body: " + fn["dn"])
            out = self.leave(self.stmt(st, fr, body), fr)
            return self.finish(out, fn)
        finally:
            self.stack.pop()
            self.depth -= 1

    def dtor_of(self, tid):
        t = self.ty(tid)
        if t["c"] != "rec":
            return None
        R = self.u.recs.get(t.get("rec"), {})
        for m in R.get("methods", ()):
            f = self.u.fns.get(m)
            if f and f.get("dtor") and f.get("body"):
                return f
        return None

    def born(self, r, tid, fr):
        if not self.dtors or r.op != "ref":
            return
        d = self.dtor_of(tid)
        if d is None:
            return
        if self.inloop:
            raise Unsupported("object with a destructor in a loop")
        self.dtroots[r.a[0]] = (fr.act, d)

    def leave(self, out, fr):
        """destructors of what the function created, on every way out"""
        if not self.dtors or not any(a == fr.act for a, d in self.dtroots.values()):
            return out

        def run(st):
            st = st.copy()
            for r, (a, d) in reversed(list(self.dtroots.items())):
                if a == fr.act and r in st.store:
                    v, s2 = self.call_fn(st, d, self.addr(self.ref(r)), [])
                    st = s2
            return st
        r = Outcome(run(out.st) if out.st is not None else None, out.g,
                    [(g, k, v, run(s) if k == "ret" else s) for g, k, v, s in out.exits])
        return r

    def bind_param(self, st, fr, p, a):
        t = self.ty(p["t"])
        if t.get("ref"):
            if a.op in ("ref",) or (a.op == "ite" and self.islv(a)):
                fr.env[p["d"]] = a
            else:
                fr.env[p["d"]] = self.alloc(st, a, p["n"])
        else:
            if t["c"] != "ptr" and self.islv(a):
                a = self.load(st, a)
            r = ("v", p["n"], fr.act, p["d"])
            st.store[r] = a
            fr.env[p["d"]] = self.ref(r)
            self.born(fr.env[p["d"]], p["t"], fr)

    def islv(self, a):
        if a.op == "ref":
            return True
        if a.op == "ite":
            return self.islv(a.a[1]) or self.islv(a.a[2])
        return False

    def finish(self, out, fn):
        """Merge all exits of a function body."""
        val = None
        st = None
        first = True
        rest = list(out.exits)
        items = []
        for g, k, v, s in rest:
            if k == "ret":
                items.append((g, v, s))
            elif k == "throw":
                continue
            else:
                raise Unsupported("stray %s in %s" % (k, fn["dn"]))
        if out.st is not None:
            items.append((out.g, UNIT, out.st))
        if not items:
            return (raw("noreturn"), None)
        g, val, st = items[-1]
        for g, v, s in reversed(items[:-1]):
            val = ite(g, v, val) if v is not val else v
            st = merge(g, s, st) if s is not st else s
        return (val, st)

    # ------------------------------------------------------------ statements
    def seq(self, st, fr, stmts):
        out = Outcome(st)
        for s in stmts:
            if out.st is None:
                break
            o = self.stmt(out.st, fr, s)
            for g, k, v, s2 in o.exits:
                out.exits.append((And(out.g, g), k, v, s2))
            out.st = o.st
            out.g = And(out.g, o.g)
        return out

    def stmt(self, st, fr, s):
        if s is None:
            return Outcome(st)
        m = getattr(self, "s_" + s["k"], None)
        if m is None:
            self.unknown.append("statement %s at line %s" % (s.get("cls", s["k"]), s.get("l")))
            raise Unsupported("statement " + s.get("cls", s["k"]))
        try:
            return m(st, fr, s)
        except NoReturn as e:
            return Outcome(None, FALSE, [(TRUE, "throw", UNIT, st)])

    def s_block(self, st, fr, s):
        return self.seq(st, fr, s["b"])

    def s_null(self, st, fr, s):
        return Outcome(st)

    def s_expr(self, st, fr, s):
        self.ev(st, fr, s["e"])
        return Outcome(st)

    def s_decl(self, st, fr, s):
        for v in s["v"]:
            self.decl(st, fr, v)
        return Outcome(st)

    def decl(self, st, fr, v):
        t = self.ty(v["t"])
        init = v.get("init")
        if v.get("static") or v.get("tls"):
            root = ("S", v["n"])
            fr.env[v["d"]] = self.ref(root)
            if v.get("constexpr") and init is not None:
                st.store[root] = self.val(st, fr, init)
            return
        if t.get("ref"):
            r = self.ev(st, fr, init)
            if not self.islv(r):
                r = self.alloc(st, r, v["n"])
            fr.env[v["d"]] = r
        else:
            root = ("v", v["n"], fr.act, v["d"])
            if init is not None:
                x = self.val(st, fr, init, t)
            else:
                import libmodel
                x = libmodel.typemark(self, v["t"], raw("uninit", v["n"]))
            st.store[root] = x
            fr.env[v["d"]] = self.ref(root)
            self.born(fr.env[v["d"]], v["t"], fr)
        if "binds" in v:
            base = fr.env[v["d"]]
            for i, b in enumerate(v["binds"]):
                if "init" in b:   # tuple-like: get<i>(base)
                    fr.env[b["d"]] = self.tupget(st, base, i)
                else:
                    fr.env[b["d"]] = self.lv(st, fr, b["e"])
                if "hv" in b:
                    fr.env[b["hv"]] = fr.env[b["d"]]

    def tupget(self, st, base, i):
        nm = {0: "first", 1: "second"}
        v = self.load(st, base) if self.islv(base) else base
        if v.op == "list":
            return self.elem(base, num(i)) if self.islv(base) else sel(v, num(i))
        f = "t%d" % i
        if self.islv(base):
            return self.field(base, f)
        return getf(base, f)

    def s_if(self, st, fr, s):
        if s.get("init"):
            o = self.stmt(st, fr, s["init"])
            st = o.st
        if s.get("cv"):
            self.decl(st, fr, s["cv"])
        c = self.cond(st, fr, s["c"])
        if c is TRUE:
            return self.stmt(st, fr, s["T"])
        if c is FALSE:
            return self.stmt(st, fr, s["F"])
        a = self.stmt(st.copy(), fr, s["T"])
        b = self.stmt(st.copy(), fr, s["F"])
        return self.join(c, a, b)

    def join(self, c, a, b):
        ex = [(And(c, g), k, v, x) for g, k, v, x in a.exits]
        ex += [(And(Not(c), g), k, v, x) for g, k, v, x in b.exits]
        if a.st is not None and b.st is not None:
            stt = merge(c, a.st, b.st)
            g = ite(c, a.g, b.g)
        elif a.st is not None:
            stt, g = a.st, And(c, a.g)
        elif b.st is not None:
            stt, g = b.st, And(Not(c), b.g)
        else:
            stt, g = None, FALSE
        return Outcome(stt, g, ex)

    def s_switch(self, st, fr, s):
        if s.get("init"):
            st = self.stmt(st, fr, s["init"]).st
        c = self.val(st, fr, s["c"])
        body = s["b"]["b"] if s["b"]["k"] == "block" else [s["b"]]
        # flatten labels
        items = []
        for x in body:
            labels = []
            while x is not None and x["k"] in ("case", "default"):
                labels.append(None if x["k"] == "default" else self.val(st, fr, x["v"]))
                x = x["b"]
            items.append((labels, x))
        alll = [l for ls, _ in items for l in ls if l is not None]
        res = None
        hasdef = any(l is None for ls, _ in items for l in ls)

        def run(i, st0):
            o = self.seq(st0, fr, [x for _, x in items[i:]])
            ex = []
            brk = []
            for g, k, v, x in o.exits:
                (brk if k == "break" else ex).append((g, k, v, x))
            stt, g0 = o.st, o.g
            for g, k, v, x in brk:
                stt = merge(g, x, stt)
                g0 = Or(g0, g) if o.st is not None or g0 is not FALSE else g
            return Outcome(stt, g0, ex)

        eqop = "peq" if c.op == "enumc" or any(l.op == "enumc" for l in alll) else "ieq"
        starts = []
        for i, (ls, _) in enumerate(items):
            if ls:
                ks = [l for l in ls if l is not None]
                if None in ls:
                    others = [l for l in alll if l not in ks]
                    g = And(*[Not(cmp(eqop, c, l)) for l in others])
                else:
                    g = Or(*[cmp(eqop, c, l) for l in ks])
                starts.append((g, i, None in ls))
        out = Outcome(st.copy(), TRUE) if not hasdef else None
        # default last so that the chain is exhaustive
        starts.sort(key=lambda x: not x[2])
        for g, i, isdef in starts:
            o = run(i, st.copy())
            out = o if out is None else self.join(g, o, out)
        return out

    def s_ret(self, st, fr, s):
        if s["e"] is None:
            return Outcome(None, FALSE, [(TRUE, "ret", UNIT, st)])
        rt = self.ty(fr.fn["rt"])
        if rt.get("ref"):
            v = self.ev(st, fr, s["e"])
        else:
            v = self.val(st, fr, s["e"], rt)
        return Outcome(None, FALSE, [(TRUE, "ret", v, st)])

    def s_break(self, st, fr, s):
        return Outcome(None, FALSE, [(TRUE, "break", UNIT, st)])

    def s_continue(self, st, fr, s):
        return Outcome(None, FALSE, [(TRUE, "cont", UNIT, st)])

    def s_try(self, st, fr, s):
        return self.stmt(st, fr, s["b"])

    # ------------------------------------------------------------ loops
    def s_for(self, st, fr, s):
        if s.get("init"):
            st = self.stmt(st, fr, s["init"]).st
        return self.loop(st, fr, s, lambda st: self.cond(st, fr, s["c"]) if s["c"] else TRUE,
                         lambda st: self.stmt(st, fr, s["b"]),
                         (lambda st: self.ev(st, fr, s["inc"])) if s["inc"] else None)

    def s_while(self, st, fr, s):
        return self.loop(st, fr, s, lambda st: self.cond(st, fr, s["c"]), lambda st: self.stmt(st, fr, s["b"]), None)

    def s_do(self, st, fr, s):
        return self.loop(st, fr, s, None, lambda st: self.stmt(st, fr, s["b"]), None, post=lambda st: self.cond(st, fr, s["c"]))

    def s_rfor(self, st, fr, s):
        if s.get("init"):
            st = self.stmt(st, fr, s["init"]).st
        r = self.ev(st, fr, s["r"])
        if not self.islv(r):
            r = self.alloc(st, r, "range")
        rv = self.load(st, r)
        preds = []
        if rv.op == "view":
            import libmodel
            rv, preds = libmodel.unfiltered(rv)
            if preds and not (rv.op == "view"):
                if self.islv(rv):
                    r = rv
                    rv = self.load(st, r)
                else:
                    r = self.alloc(st, rv, "range")
            elif preds:
                r = self.alloc(st, rv, "range")
        seq = self.rangeview(st, r, rv, {"c": "?", "s": ""} if preds else self.ty(s["rt"]))
        if seq is None and preds:
            seq = (length(rv), lambda st, i, r=r: self.elem(r, i))
        if seq is None:
            self.unknown.append("range-for over %s" % self.ty(s["rt"])["s"][:60])
            raise Unsupported("range-for over " + self.ty(s["rt"])["s"])
        n, elemf = seq
        cnt = self.newroot("range_index")
        st.store[cnt] = ZERO

        def c(st):
            return cmp("ilt", st.store[cnt], n)

        def b(st):
            i = st.store[cnt]
            v = s["v"]
            t = self.ty(v["t"])
            e = elemf(st, i)
            if t.get("ref"):
                fr.env[v["d"]] = e if self.islv(e) else self.alloc(st, e, v["n"])
            else:
                root = ("v", v["n"], fr.act, v["d"])
                st.store[root] = self.load(st, e) if self.islv(e) else e
                fr.env[v["d"]] = self.ref(root)
            if "binds" in v:
                base = fr.env[v["d"]]
                for k, bd in enumerate(v["binds"]):
                    fr.env[bd["d"]] = self.tupget(st, base, k) if "init" in bd else self.lv(st, fr, bd["e"])
                    if "hv" in bd:
                        fr.env[bd["hv"]] = fr.env[bd["d"]]
            if preds:
                import libmodel
                c = And(*[self.tobool(libmodel.apply_fn(self, st, fr, p, [], [e])) for p in preds])
                if c is not TRUE:
                    if c is FALSE:
                        return Outcome(st)
                    return self.join(c, self.stmt(st.copy(), fr, s["b"]), Outcome(st.copy()))
            return self.stmt(st, fr, s["b"])

        def inc(st):
            st.store[cnt] = add(st.store[cnt], ONE)

        return self.loop(st, fr, s, c, b, inc, constlist=n if isnum(n) else None)

    def rangeview(self, st, r, rv, t):
        """(length term, element function) of a range."""
        q = self.u.recs.get(t.get("rec"), {}).get("q", "")
        if rv.op == "zip":
            parts = rv.a

            def elem(st, i):
                return rec("tuple", {"t%d" % k: (self.load(st, self.elem(p, i)) if self.islv(p) else sel(p, i)) for k, p in enumerate(parts)})

            p0 = parts[0]
            return length(self.load(st, p0) if self.islv(p0) else p0), elem
        if self.iscontainer(q) or rv.op in ("list", "comp", "cat", "push", "forupd", "fill") or t["c"] == "arr":
            return length(rv), lambda st, i: self.elem(r, i)
        if q in ("slp::VariableMatrix",):
            rr = self.field(r, q + "::m_storage")
            return length(self.load(st, rr)), lambda st, i: self.elem(rr, i)
        if q.startswith("slp::VariableBlock"):
            # begin() + k refers to element k (M06)
            me = [f for f in self.u.fns.values() if f.get("cls") == t.get("rec") and f.get("body")]
            at = [f for f in me if f["n"] == "operator[]" and len(f["params"]) == 1 and self.ty(f["params"][0]["t"])["c"] == "int"]
            sz = [f for f in me if f["n"] == "size"]
            at = [f for f in at if bool(f.get("const")) == bool(t.get("const") or t.get("pc"))] or at
            if not at or not sz or not self.islv(r):
                return None
            n, _ = self.call_fn(st.copy(), sz[0], self.addr(r), [])

            def elem(st, i):
                v, s2 = self.call_fn(st, at[0], self.addr(r), [i])
                st.store, st.ev = s2.store, s2.ev
                return v
            return n, elem
        if rv.op == "view":
            import libmodel
            n, ef = libmodel.viewrange(self, st, rv)
            return n, ef
        if q.startswith("Eigen::"):
            import libmodel
            return libmodel.dim(self, "size", rv), lambda st, i: self.elem(r, i)
        if rv.op == "sym" or q.startswith(("std::ranges", "std::views")):
            return length(rv), lambda st, i: self.elem(r, i)
        return None

    def loop(self, *a, **k):
        self.inloop += 1
        try:
            return self.loop1(*a, **k)
        finally:
            self.inloop -= 1

    def loop1(self, st, fr, s, cond, body, inc, post=None, constlist=None):
        if constlist is not None and constlist.a[0] <= 8:
            return self.unroll(st, fr, int(constlist.a[0]), body, inc)
        if self.unrollmax and cond is not None:
            r = self.unrolled(st, fr, cond, body, inc)
            if r is not None:
                return r
        saved_env = dict(fr.env)
        changed = set()
        fixed = set()     # leaves of changed records that the body preserves
        tried = False
        lid = None
        base = st
        for attempt in range(14):
            self.loopc += 1
            lid = self.loopc
            h = State(base.store, base.ev)
            for k in changed:
                h.store[k] = self.havoc(base, k, lid, fixed)
            fr.env = dict(saved_env)
            h0 = h.copy()
            nun, nas = len(self.unknown), len(self.asserts)
            it = self.iteration(h, fr, cond, body, inc, post)
            nxt = it["next"]
            new = set()
            if nxt is not None:
                for k, v in nxt.store.items():
                    o = h0.store.get(k)
                    if k in base.store or k[0] in ("H", "S"):
                        if o is None:
                            o = raw("heap", k[1]) if k[0] == "H" else raw("init", k)
                        if v is not o and k not in changed:
                            new.add(k)
            if not new:
                kept, broke = self.preserved(base, h0, nxt, changed, fixed)
                if broke:
                    fixed -= broke
                    tried = True
                elif kept and not tried:
                    fixed |= kept
                else:
                    break
            changed |= new
            del self.unknown[nun:]
            del self.asserts[nas:]
        else:
            raise Unsupported("loop does not stabilise")
        fr.env = saved_env
        return self.summarise(base, h0, changed, lid, it, fr, s, cond is None)

    def unroll(self, st, fr, n, body, inc):
        out = Outcome(st)
        brk = []
        for _ in range(n):
            if out.st is None:
                break
            o = body(out.st)
            conts = []
            for g, k, v, x in o.exits:
                g = And(out.g, g)
                if k == "break":
                    brk.append((g, x))
                elif k == "cont":
                    conts.append((g, x))
                else:
                    out.exits.append((g, k, v, x))
            nst, ng = o.st, And(out.g, o.g)
            for g, x in conts:
                nst = merge(g, x, nst)
                ng = Or(ng, g)
            out.st, out.g = nst, ng
            if nst is not None and inc:
                inc(nst)
        for g, x in reversed(brk):
            out.st = merge(g, x, out.st)
            out.g = Or(out.g, g)
        return out

    def unrolled(self, st, fr, cond, body, inc):
        """execute a loop whose condition is a known constant at every
        iteration, or None"""
        env = dict(fr.env)
        marks = len(self.unknown), len(self.asserts)
        cur = st.copy()
        n = 0
        while True:
            c = self.tobool(cond(cur))
            if c is FALSE:
                st.store, st.ev = cur.store, cur.ev
                return Outcome(st)
            o = body(cur) if c is TRUE and n < self.unrollmax else None
            if o is None or o.exits or o.st is None or o.g is not TRUE:
                fr.env = env
                del self.unknown[marks[0]:]
                del self.asserts[marks[1]:]
                return None
            cur = o.st
            if inc:
                inc(cur)
            n += 1

    def preserved(self, base, h0, nxt, changed, fixed):
        """record leaves unchanged by the body / wrongly assumed unchanged"""
        kept, broke = set(), set()
        if nxt is None:
            return kept, broke
        for k in changed:
            b = base.store.get(k)
            if b is None or b.op != "rec":
                continue
            nv = nxt.store[k]
            for acc, p in self.phis(h0.store[k], True):
                n0, i0 = nv, b
                for f in acc:
                    n0, i0 = getf(n0, f), getf(i0, f)
                key = (k,) + acc
                if key in fixed:
                    if n0 is not i0:
                        broke.add(key)
                elif n0 is p:
                    kept.add(key)
        return kept, broke

    def havoc(self, st, k, lid, fixed=()):
        """header symbol(s) for location k; records are split by field"""
        v = st.store.get(k)
        if v is None:
            v = raw("heap", k[1]) if k[0] == "H" else raw("init", k)
        return self.phi_like(v, lid, (k,), fixed)

    def phi_like(self, v, lid, key, fixed=()):
        if key in fixed:
            return v
        if v.op == "rec":
            return rec(v.a[0], {f: self.phi_like(x, lid, key + (f,), fixed) for f, x in v.a[1]})
        if v.op == "iter" and self.islv(v.a[0]):
            return raw("iter", v.a[0], self.phi_like(v.a[1], lid, key + ("#pos",), fixed), v.a[2])
        p = raw("phi", lid, key, str(key[-1][1] if isinstance(key[-1], tuple) else key[-1]).split("::")[-1])
        if TM.ismat(v):
            TM.markmat(p)
        if TM.isvec(v):
            TM.markvec(p)
        return p

    def iteration(self, h, fr, cond, body, inc, post):
        c = cond(h) if cond is not None else TRUE
        pre = h.copy()
        o = body(h) if c is not FALSE else Outcome(None, FALSE)
        exits = []   # (guard, kind, val, state): ret/throw/break
        nst, ng = o.st, o.g
        for g, k, v, x in o.exits:
            if k == "cont":
                nst = merge(g, x, nst)
                ng = Or(ng, g)
            else:
                exits.append((And(c, g), k, v, x))
        pc = TRUE
        if nst is not None:
            if inc:
                inc(nst)
            if post is not None:
                pc = post(nst)
        return {"c": c, "pre": pre, "next": nst, "ng": ng, "exits": exits, "post": pc}

    # -- loop summaries
    def summarise(self, base, h0, changed, lid, it, fr, s, isdo):
        nxt = it["next"]
        exits = it["exits"]
        if nxt is not None:
            for k in changed:
                if not self.sameiters(h0.store[k], nxt.store[k]):
                    raise Unsupported("iterator moved to another container in a loop")
        hard = [e for e in exits if e[1] != "throw"]
        throws = [e for e in exits if e[1] == "throw"]
        res = None
        if nxt is not None and hard and not isdo and it["post"] is TRUE and all(e[1] == "break" and e[3].ev == h0.ev and not self.wrote(base, h0, e[3]) for e in hard):
            # leaving before anything was done: part of the loop condition
            it2 = dict(it)
            it2["c"] = And(it["c"], *[Not(dropc(e[0], it["c"])) for e in hard])
            r = self.counted(base, h0, changed, lid, it2, [])
            if r is not None:
                return r
        if nxt is not None and not isdo and it["post"] is TRUE:
            res = self.counted(base, h0, changed, lid, it, hard)
        if res is None:
            return self.generic(base, h0, changed, lid, it, hard, throws, isdo, fr, s)
        return res

    def wrote(self, base, h0, x):
        """locations existing before the loop that an exit changes"""
        return {k for k, v in x.store.items() if (k in base.store or k[0] in ("H", "S")) and v is not h0.store.get(k)}

    def sameiters(self, a, b):
        if a.op == "iter":
            return b.op == "iter" and b.a[0] is a.a[0]
        if a.op == "rec" and b.op == "rec":
            return all(self.sameiters(x, getf(b, f)) for f, x in a.a[1])
        return True

    def phis(self, v, all=False):
        """leaf phi terms of a header value -> accessors"""
        if v.op == "rec":
            for f, x in v.a[1]:
                for acc, p in self.phis(x, all):
                    yield ((f,) + acc, p)
        elif v.op == "iter":
            for acc, p in self.phis(v.a[1], all):
                yield (("#pos",) + acc, p)
        elif all or v.op == "phi":
            yield ((), v)

    def counted(self, base, h0, changed, lid, it, hard):
        nxt = it["next"]
        c = it["c"]
        flat = {}   # (key, acc) -> (phi, init, next)
        for k in changed:
            hv = h0.store[k]
            bv = base.store.get(k)
            if bv is None:
                bv = raw("heap", k[1]) if k[0] == "H" else raw("init", k)
            nv = nxt.store[k]
            for acc, p in self.phis(hv):
                i0, n0 = bv, nv
                for f in acc:
                    i0, n0 = getf(i0, f), getf(n0, f)
                if p.a[0] == lid:       # not an enclosing loop's
                    flat[(k, acc)] = (p, i0, n0)
        phis = {p: (i0, n0) for p, i0, n0 in flat.values()}
        # sizes of containers whose elements only change
        dims = {x: raw(x.op, phis[x.a[0]][0]) for x in TM.walk(c) if x.op in ("dim:rows", "dim:cols", "dim:size", "len") and len(x.a) == 1 and x.a[0] in phis and sizekept(phis[x.a[0]][1], x.a[0])}
        if dims:
            c = subst(c, dims)
        # induction variables: next = phi + const-step (loop invariant)
        ind = {}
        for p, (i0, n0) in phis.items():
            if n0.op in ("heap", "hst", "ite", "rec"):
                continue
            if not self.arith_like(n0):
                continue
            d = padd(poly(n0), poly(p), -1)
            dt = frompoly(d)
            if not any(l in phis for l in leaves(dt)) and isnum(dt) and dt is not ZERO:
                ind[p] = (i0, dt)
        # condition: phi < B
        lc = self.loop_bound(c, ind, phis)
        if lc is None:
            return None
        p0, lo, hi, step = lc
        self.bvc += 1
        bv = raw("bv", "k%d" % self.bvc)
        m = {}
        for p, (i0, d) in ind.items():
            # p = i0 + (bv - lo0) * d / step  where bv runs lo..hi by 1
            if p is p0:
                m[p] = bv if step is ONE else add(i0, mul(sub(bv, lo), step))
            else:
                m[p] = add(i0, mul(sub(bv, lo), d))
        cnt = sub(hi, lo)
        binder = (bv, lo, hi)
        if normi(cnt) is ONE and not hard and len(nxt.ev) == len(h0.ev):
            # one iteration: its effect on the initial state
            M = {p: i0 for p, (i0, n0) in phis.items()}
            out = State(base.store, base.ev)
            for k in changed:
                out.store[k] = subst(nxt.store[k], M)
            return Outcome(out, TRUE, [])
        rest = {p: v for p, v in phis.items() if p not in ind}
        # do any exits exist?
        values = {}
        for p, (i0, n0) in rest.items():
            n1 = subst(n0, m)
            values[p] = (i0, n1)
        # resolve each remaining location
        final = {}
        inv = {}   # phi -> value at start of iteration bv (closed form) when known
        pend = dict(values)
        progress = True
        while pend and progress:
            progress = False
            # those that need no other unresolved location come first
            todo = sorted(pend.items(), key=lambda kv: any(q is not kv[0] and q in pend for q in leaves(kv[1][1])))
            for p, (i0, n1) in todo:
                n2 = subst(n1, inv) if inv else n1
                if progress and any(q is not p and q in pend for q in leaves(n2)):
                    continue
                r = self.closed(p, i0, n2, binder, pend, hard)
                if r is not None:
                    final[p], at = r
                    if at is not None:
                        inv[p] = at
                    del pend[p]
                    progress = True
        if pend and hard:
            return None
        for p, (i0, n1) in pend.items():
            n2 = subst(n1, inv) if inv else n1
            # unresolved recurrence: opaque fold over the binder
            final[p] = self.mark(raw("fold", (binder,), p, i0, n2), TM.ismat(p))
        end = {}
        for p, (i0, d) in ind.items():
            tot = add(i0, mul(cnt, d))
            end[p] = ite(cmp("ilt", lo, hi), normi(tot), i0) if not self.nonneg(lo, hi) else normi(tot)
        end.update(final)
        out = State(base.store, base.ev)
        for k in changed:
            out.store[k] = self.refill(h0.store[k], end)
        # events in the body become quantified events
        if nxt.ev is not h0.ev and len(nxt.ev) > len(h0.ev):
            for e in nxt.ev[len(h0.ev):]:
                e2 = tuple(subst(subst(x, m), inv) if isinstance(x, T) else x for x in e)
                out.ev = out.ev + ((e2[0], "for", (binder,)) + e2[1:],)
        exs = []
        g_all = FALSE
        for g, k, v, x in hard:
            g1 = subst(subst(g, m), inv)
            # drop the loop condition conjunct (true on the binder range)
            g1 = self.drop(g1, subst(c, m))
            if any(l in phis for l in leaves(g1)):
                return None
            ex = raw("exists", (binder,), g1)
            v1 = subst(subst(v, m), inv) if isinstance(v, T) else v
            if any(l in phis for l in leaves(v1)):
                return None
            if bv in leaves(v1):
                fst = raw("first", (binder,), g1)
                v1 = subst(v1, {bv: fst})
            xs = State(base.store, base.ev)
            for k2 in set(changed) | self.wrote(base, h0, x):
                nv = subst(subst(x.store[k2] if k2 in x.store else h0.store[k2], m), inv)
                if any(l in phis for l in leaves(nv)):
                    nv = raw("exitval", (binder,), nv)
                elif bv in leaves(nv):
                    nv = subst(nv, {bv: raw("first", (binder,), g1)})
                xs.store[k2] = nv
            exs.append((ex, k, v1, xs))
            g_all = Or(g_all, ex)
        o = Outcome(out, Not(g_all), [])
        for ex, k, v, x in exs:
            if k == "break":
                o.st = merge(ex, x, o.st)
                o.g = Or(o.g, ex)
            else:
                o.exits.append((ex, k, v, x))
        return o

    def drop(self, g, c):
        if g is c:
            return TRUE
        if g.op == "and":
            return And(*[x for x in g.a if x is not c and not (c.op == "and" and x in c.a)])
        return g

    def arith_like(self, t):
        return t.op in ("add", "sub", "neg", "mul", "num", "phi", "poly")

    def nonneg(self, lo, hi):
        """hi - lo >= 0 known structurally (sizes, zero lower bound)"""
        d = normi(sub(hi, lo))
        if isnum(d):
            return d.a[0] >= 0
        if lo is ZERO or normi(lo) is ZERO:
            return True  # trip counts of the repository are sizes; see DESIGN
        return False

    def loop_bound(self, c, ind, phis):
        """recognise  phi < B, phi != B, phi <= B, B > phi  (and phi > B for
        descending loops)."""
        cs = c.a if c.op == "and" else (c,)
        if len(cs) != 1:
            bs = [self.loop_bound(x, ind, phis) for x in cs]
            if any(b is None or b[0] is not bs[0][0] or b[3] is not ONE for b in bs):
                return None
            hi = bs[0][2]
            for b in bs[1:]:
                hi = ite(cmp("ilt", b[2], hi), b[2], hi)
            return bs[0][0], bs[0][1], hi, ONE
        c = cs[0]
        neq = False
        if c.op == "not" and c.a[0].op in ("ieq", "peq"):
            c = c.a[0]
            neq = True
        elif c.op not in ("ilt", "ile"):
            return None
        a, b = c.a
        for x, y, asc in ((a, b, True), (b, a, False)):
            # x is an affine function of one induction phi, y invariant
            fv = [l for l in leaves(x) if l in phis]
            if len(fv) != 1 or fv[0] not in ind or any(l in phis for l in leaves(y)):
                continue
            p = fv[0]
            i0, d = ind[p]
            dx = padd(poly(x), poly(p), -1)
            if p in leaves(frompoly(dx)):
                continue
            off = frompoly(dx)          # x = p + off
            bound = normi(sub(y, off))  # compare p with bound
            dv = d.a[0]
            if neq:
                if dv == 1:
                    return p, i0, bound, ONE
                continue
            if asc and dv > 0:
                hi = bound if c.op == "ilt" else normi(add(bound, ONE))
                if dv == 1:
                    return p, i0, hi, ONE
                # stride: number of trips = ceil((hi-lo)/d)
                n = idiv(add(sub(hi, i0), num(dv - 1)), num(dv))
                return p, ZERO, n, d
            if not asc and dv < 0 and not neq:
                # bound < p (or bound <= p), counting down
                n = sub(i0, bound) if c.op == "ilt" else add(sub(i0, bound), ONE)
                if dv != -1:
                    n = idiv(add(n, num(-dv - 1)), num(-dv))
                return p, ZERO, n, d
        return None

    def refill(self, hv, end):
        if hv.op == "rec":
            return rec(hv.a[0], {f: self.refill(x, end) for f, x in hv.a[1]})
        if hv.op == "iter":
            return raw("iter", hv.a[0], self.refill(hv.a[1], end), hv.a[2])
        return end.get(hv, hv)

    def closed(self, p, i0, n, binder, pend, hard):
        """Closed form of recurrence p := n over binder; returns (final value,
        value at the start of iteration bv or None), or None."""
        bv, lo, hi = binder
        lv = leaves(n)
        others = [q for q in pend if q is not p and q in lv]
        if n is p:
            return i0, i0
        if others:
            return None
        if p not in lv:
            # last-value; only usable when the loop body always writes it
            last = subst(n, {bv: sub(hi, ONE)})
            if last is n and False:
                return n, None
            return ite(cmp("ilt", lo, hi), last, i0), ite(cmp("ieq", bv, lo), i0, subst(n, {bv: sub(bv, ONE)}))
        g, x = TRUE, n
        # conditional update
        if n.op == "ite":
            if n.a[2] is p:
                g, x = n.a[0], n.a[1]
            elif n.a[1] is p:
                g, x = Not(n.a[0]), n.a[2]
            if p in leaves(g):
                return None
        if x.op == "ite":
            m = self.guarded(n, p)
            if m is not None and m[1] is not None and m[1].op in ("upd", "push", "cat", "hst", "hfor", "forupd"):
                g, x = m
        if x.op == "upd" and len(x.a) == 3 and x.a[0] is p:
            # an update keeps the length
            m = {raw("len", p): length(i0), length(p): length(i0)}
            i2 = subst(x.a[1], m)
            if i2 is not x.a[1]:
                x = upd(p, i2, subst(x.a[2], m))
                g = subst(g, m)
                if x.op != "upd" or x.a[0] is not p:
                    return None
        if x.op == "and" and p in x.a:
            r = And(*[y for y in x.a if y is not p])
            if p not in leaves(r):
                return And(i0, raw("forall", (binder,), Or(Not(g), r))), None
        if x.op == "or" and p in x.a:
            r = Or(*[y for y in x.a if y is not p])
            if p not in leaves(r):
                return Or(i0, raw("exists", (binder,), And(g, r))), None
        if x is TRUE and g is not TRUE:
            return Or(i0, raw("exists", (binder,), g)), None
        if x is FALSE and g is not TRUE:
            return And(i0, raw("forall", (binder,), Not(g))), None
        if x.op == "upd":
            r = self.closed_upd(p, i0, g, x, binder)
            if r is not None:
                return r
        if x.op in ("push", "cat"):
            r = self.closed_push(p, i0, g, x, binder)
            if r is not None:
                return r
        if x.op == "forupd" and x.a[0] is p and g is TRUE:
            _, bs, idx, val, gg = x.a
            val = self.replace_self(val, p, i0, idx, (binder,) + bs)
            if val is not None and not any(p in leaves(i) for i in idx) and p not in leaves(gg):
                return self.mark(raw("forupd", i0, (binder,) + bs, idx, val, gg), TM.ismat(p)), None
        if x.op == "hfor" and x.a[0] is p and g is TRUE and not any(p in leaves(y) for y in x.a[2:]):
            return raw("hfor", i0, (binder,) + x.a[1], *x.a[2:]), None
        if x.op == "hst":
            r = self.closed_heap(p, i0, g, x, binder)
            if r is not None:
                return r
        if x.op in ("max", "min") and p in x.a:
            y = x.a[1] if x.a[0] is p else x.a[0]
            if p not in leaves(y):
                return raw("fold" + x.op, (binder,), g, y, i0, x.a[0] is p), None
        if self.arith_like(x) or x.op == "ite":
            if x.op == "ite" and x.a[0] is not g:
                y1 = self.delta(x.a[1], p)
                y2 = self.delta(x.a[2], p)
                if y1 is None or y2 is None or p in leaves(x.a[0]):
                    return None
                dt = ite(x.a[0], y1, y2)
            else:
                dt = self.delta(x, p)
            if dt is not None:
                if g is not TRUE:
                    dt = ite(g, dt, ZERO)
                if bv not in leaves(dt):
                    tot = mul(sub(hi, lo), dt)
                    return normi(add(i0, tot)) if not TM.ismat(p) else add(i0, tot), normi(add(i0, mul(sub(bv, lo), dt)))
                s = self.mark(raw("sum", (binder,), dt), TM.ismat(p))
                self.bvc += 1
                b2 = raw("bv", "k%d" % self.bvc)
                at = self.mark(raw("sum", ((b2, lo, bv),), subst(dt, {bv: b2})), TM.ismat(p))
                return add(i0, s), add(i0, at)
        if g is not TRUE and p not in leaves(x):
            # conditional overwrite: value of the last iteration satisfying g
            return raw("lastwhere", (binder,), g, x, i0), None
        return None

    def guarded(self, n, p):
        """n = p in some cases and one write to p in the others"""
        if n is p:
            return FALSE, None
        if n.op != "ite":
            return TRUE, n
        c, a, b = n.a
        if p in leaves(c):
            return None
        a, b = self.guarded(a, p), self.guarded(b, p)
        if a is None or b is None:
            return None
        g = Or(And(c, a[0]), And(Not(c), b[0]))
        x, y = a[1], b[1]
        if x is None or y is None or x is y:
            return g, x or y
        if x.op == y.op == "upd" and x.a[:-1] == y.a[:-1] and x.a[0] is p:
            return g, upd(*x.a[:-1], ite(c, x.a[-1], y.a[-1]))
        if x.op == y.op == "push" and x.a[0] is y.a[0] is p:
            return g, raw("push", p, ite(c, x.a[1], y.a[1]))
        if x.op == y.op == "hst" and x.a[0] is y.a[0] is p and x.a[1] is y.a[1]:
            return g, raw("hst", p, x.a[1], ite(c, x.a[2], y.a[2]))
        return None

    def delta(self, x, p):
        d = padd(poly(x), poly(p), -1)
        t = frompoly(d)
        if p in leaves(t):
            return None
        return t

    def injective(self, idx, binders):
        """do different iterations write different cells, as far as the form
        of the index tells?"""
        left = list(binders)
        comps = [normi(i) for i in idx]
        for c in comps:
            inn = [b for b in left if b[0] in leaves(c)]
            if not inn:
                continue
            if len(inn) > 2:
                return False
            if len(inn) == 1:
                d = frompoly(padd(poly(subst(c, {inn[0][0]: add(inn[0][0], ONE)})), poly(c), -1))
                if not (isnum(d) and d is not ZERO or stride(d)):
                    return False
                left.remove(inn[0])
                continue
            ds = [normi(frompoly(padd(poly(subst(c, {b[0]: add(b[0], ONE)})), poly(c), -1))) for b in inn]
            for (x, dx), (y, dy) in (((inn[0], ds[0]), (inn[1], ds[1])), ((inn[1], ds[1]), (inn[0], ds[0]))):
                if dy is ONE and dx is normi(sub(y[2], y[1])):
                    break
                # an element of a block of a row-major matrix: the columns of
                # the block lie inside the matrix and steps aren't zero (M06)
                if (dy is ONE or stride(dy)) and stride(dx, width=True):
                    break
            else:
                return False
            left = [b for b in left if b not in inn]
        return not left

    def replace_self(self, val, p, i0, idx, binders):
        """val may read p only at the index being written (reads see the old
        contents there); replace those reads by reads of the initial array."""
        if p not in leaves(val):
            return val
        tok = raw("sym", "$cell")
        m = {raw("sel", p, *idx): tok}
        want = [normi(i) for i in idx]
        for x in TM.walk(val):
            if x.op == "sel" and x.a[0] is p and len(x.a) == len(idx) + 1 and all(normi(a) is b for a, b in zip(x.a[1:], want)):
                m[x] = tok
        v = subst(val, m)
        if p in leaves(v):
            return None
        if tok in leaves(v) and not self.injective(idx, binders):
            return None     # the cell may hold what an earlier iteration wrote
        return subst(v, {tok: sel(i0, *idx)})

    def closed_upd(self, p, i0, g, x, binder):
        # possibly several writes per iteration
        writes = []
        cur = x
        while cur.op == "upd":
            writes.append((cur.a[1:-1], cur.a[-1]))
            cur = cur.a[0]
        if cur is not p:
            return None
        if len(writes) != 1:
            res = i0
            for idx, val in reversed(writes):
                if p in leaves(val):
                    return None
                if any(p in leaves(i) for i in idx):
                    return None
                res = raw("forupd", res, (binder,), idx, val, g)
            return self.mark(res, TM.ismat(p)), None
        idx, val = writes[0]
        if any(p in leaves(i) for i in idx):
            return None
        bv, lo, hi = binder
        if all(bv not in leaves(i) for i in idx):
            # same cell each time: scalar recurrence on the cell
            cell = raw("sel", p, *idx)
            tok = raw("phi", 0, ("cell",), "cell%d" % bv.id)
            v = subst(val, {cell: tok})
            if p in leaves(v):
                return None
            if tok in leaves(v):
                r = self.closed(tok, sel(i0, *idx), ite(g, v, tok), binder, {}, [])
                if r is None:
                    return None
                return upd(i0, *idx, r[0]), None
        val = self.replace_self(val, p, i0, idx, (binder,))
        if val is None:
            return None
        return self.mark(raw("forupd", i0, (binder,), idx, val, g), TM.ismat(p)), None

    def closed_push(self, p, i0, g, x, binder):
        bv, lo, hi = binder
        items = []
        cur = x
        while cur.op in ("push", "cat"):
            items.append(cur)
            cur = cur.a[0]
        if cur is not p:
            return None
        parts = []
        for y in reversed(items):
            if p in leaves(y.a[1]):
                # allow reads of len(p)
                return None
            if y.op == "push":
                parts.append(raw("comp", (binder,), g, y.a[1]))
            elif y.a[1].op == "comp":
                b2, g2, e2 = y.a[1].a
                parts.append(raw("comp", (binder,) + b2, And(g, g2), e2))
            elif y.a[1].op == "list" and len(y.a[1].a) == 1:
                parts.append(raw("comp", (binder,), g, y.a[1].a[0]))
            else:
                parts.append(raw("flat", (binder,), g, y.a[1]))
        if len(parts) == 1:
            return cat(i0, parts[0]), None
        return cat(i0, raw("interleave", *parts)), None

    def closed_heap(self, p, i0, g, x, binder):
        writes = []
        cur = x
        while cur.op == "hst":
            writes.append((cur.a[1], cur.a[2]))
            cur = cur.a[0]
        if cur is not p:
            return None
        res = i0
        for a, v in reversed(writes):
            if p in leaves(a):
                return None
            if p in leaves(v):
                cell = raw("hsel", p, a)
                tok = raw("sym", "$cell")
                v2 = subst(v, {cell: tok})
                if p in leaves(v2):
                    return None
                v = subst(v2, {tok: self.hsel(None, res, p.a[1][0][1], a)})
            res = raw("hfor", res, (binder,), a, v, g)
        return res, None

    def generic(self, base, h0, changed, lid, it, hard, throws, isdo, fr=None, s=None):
        """Loop kept as header symbols; record next-state for invariants."""
        L = {"id": lid, "cond": it["c"], "h0": h0, "init": base, "next": it["next"], "ng": it["ng"], "exits": it["exits"], "changed": changed, "post": it["post"], "fr": fr, "stmt": s, "isdo": isdo, "pre": it["pre"]}
        self.loops.append(L)
        out = Outcome(None, FALSE, [])
        if it["c"] is not TRUE and not isdo:
            out.st = it["pre"].copy()
            out.g = raw("loopexit", lid, Not(it["c"]))
            out.st = State({k: v for k, v in it["pre"].store.items()}, it["pre"].ev)
        if isdo and it["next"] is not None:
            out.st = it["next"].copy()
            out.g = raw("loopexit", lid, Not(it["post"]))
        for g, k, v, x in hard:
            gg = raw("loopexit", lid, g)
            if k == "break":
                out.st = merge(gg, x, out.st)
                out.g = Or(out.g, gg) if out.g is not FALSE else gg
            else:
                out.exits.append((gg, k, v, x))
        if out.st is not None and not out.exits:
            out.g = TRUE
        return out

    # ------------------------------------------------------------ expressions
    def cond(self, st, fr, e):
        v = self.val(st, fr, e)
        return self.tobool(v)

    def tobool(self, v):
        if isbool(v):
            return v
        if v.op == "num":
            return boolv(v.a[0] != 0)
        if v is NULL:
            return FALSE
        if v.op == "ite":
            return ite(v.a[0], self.tobool(v.a[1]), self.tobool(v.a[2]))
        if v.op in NONNULL:
            return TRUE
        return v

    def lv(self, st, fr, e):
        r = self.ev(st, fr, e)
        if not self.islv(r):
            r = self.alloc(st, r)
        return r

    def val(self, st, fr, e, want=None):
        """value of expression (loads lvalues unless a pointer is meant)."""
        v = self.ev(st, fr, e)
        k = self.kind(e)
        if k == "lv" and self.islv(v):
            v = self.load(st, v)
        if v.op == "ref":
            import libmodel
            if libmodel.exprtype(self, e).startswith("Eigen::"):
                v = self.load(st, v)      # a view used as a value
        return v

    def kind(self, e):
        """does evaluating e yield an lvalue designator (lv) or a value (rv)?"""
        k = e["k"]
        if k in ("ref", "mem", "bind", "idx", "asgn", "casgn", "str"):
            return "lv"
        if k == "mat":
            return "lv"
        if k == "un":
            if e["op"] in ("*", "++", "--"):
                return "lv"
            return "rv"
        if k == "cond":
            return "lv" if self.kind(e["T"]) == "lv" and self.kind(e["F"]) == "lv" else "rv"
        if k == "call":
            return "lv" if e.get("lv") or self.ty(e["fn"]["rt"] if "fn" in e else e["t"]).get("ref") else "rv"
        if k == "cast":
            return self.kind(e["e"]) if e["ck"] in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived") else ("lv" if False else "rv")
        if k == "bin" and e["op"] == ",":
            return self.kind(e["R"])
        if k == "defarg":
            return self.kind(e["e"])
        return "rv"

    def ev(self, st, fr, e):
        m = getattr(self, "e_" + e["k"], None)
        if m is None:
            self.unknown.append("expression %s at line %s" % (e.get("cls", e["k"]), e.get("l")))
            return raw("unknown", e.get("cls", e["k"]), e.get("l"))
        r = m(st, fr, e)
        return r

    def e_int(self, st, fr, e):
        return num(int(e["v"]))

    def e_flt(self, st, fr, e):
        return self.const(e["v"])

    def const(self, v):
        if "i" in v:
            return num(int(v["i"]))
        f = v["f"]
        if f in ("inf", "-inf", "nan"):
            return {"inf": INF, "-inf": neg(INF)}.get(f) or raw("nan")
        return num(float(f))

    def e_bool(self, st, fr, e):
        return boolv(e["v"])

    def e_srcloc(self, st, fr, e):
        return raw("srcloc")

    def e_unknown(self, st, fr, e):
        if e.get("cls") == "SourceLocExpr":
            return raw("srcloc")
        self.unknown.append("expression %s at line %s" % (e.get("cls", "?"), e.get("l")))
        return raw("unknown", e.get("cls", e["k"]), e.get("l"))

    def e_str(self, st, fr, e):
        return raw("strv", e["v"])

    def e_null(self, st, fr, e):
        return NULL

    def e_enum(self, st, fr, e):
        return raw("enumc", e["q"], int(e["v"]))

    def e_this(self, st, fr, e):
        return fr.this if fr.this is not None else sym("this")

    def e_mat(self, st, fr, e):
        v = self.ev(st, fr, e["e"])
        if self.islv(v) and self.kind(e["e"]) == "lv":
            return v
        r = self.alloc(st, v)
        if self.dtors and "t" in e:
            self.born(r, e["t"], fr)
        return r

    def e_defarg(self, st, fr, e):
        return self.ev(st, fr, e["e"])

    def e_ld(self, st, fr, e):
        v = self.ev(st, fr, e["e"])
        if self.islv(v) and self.kind(e["e"]) == "lv":
            v = self.load(st, v)
        if self.ty(e["t"])["c"] == "bool" and not isbool(v):
            return v
        return v

    def e_ref(self, st, fr, e):
        d = e["d"]
        f = fr
        r = fr.env.get(d)
        if r is not None:
            return r
        if "cv" in e:
            c = self.const(e["cv"])
            t = self.ty(e["t"])
            if t["c"] == "bool":
                c = boolv(c.a[0] != 0)
            if t["c"] == "enum":
                return self.alloc(st, self.enumval(t, c))
            return self.alloc(st, c, e["n"])
        if e.get("vk") == "global":
            q = e.get("q", e["n"])
            if q == "std::nullopt":
                return self.alloc(st, NULL)
            return self.ref(("S", q))
        raise Unsupported("unbound %s (line %s)" % (e["n"], e.get("l")))

    def enumval(self, t, c):
        en = self.u.enums.get(t["s"])
        if en:
            for x in en["e"]:
                if int(x["v"]) == int(c.a[0]):
                    return raw("enumc", t["s"] + "::" + x["n"], int(x["v"]))
        return c

    def e_bind(self, st, fr, e):
        r = fr.env.get(e["d"])
        if r is None:
            raise Unsupported("unbound binding " + e["n"])
        return r

    def e_fnref(self, st, fr, e):
        self.fnrefs[e["fn"]["id"]] = e["fn"]
        return raw("fnv", e["fn"]["id"])

    def e_mem(self, st, fr, e):
        b = self.ev(st, fr, e["b"])
        if e.get("arrow"):
            if self.kind(e["b"]) == "lv" and self.islv(b) and e["b"]["k"] != "this":
                b = self.load(st, b)
            base = self.ptr(b)
        else:
            base = b
        name = e["rq"] + "::" + e["n"] if e.get("rq") else e["n"]
        if e.get("rq", "").startswith("std::pair") and e["n"] in ("first", "second"):
            name = "t0" if e["n"] == "first" else "t1"
        if self.smart_transparent and name == "slp::IntrusiveSharedPtr::m_ptr":
            return base if self.islv(base) else self.alloc(st, base)
        if self.islv(base):
            r = self.field(base, name)
            # reference members designate their target
            if self.ty(e["t"]).get("ref"):
                t = self.load(st, r)
                if self.islv(t):
                    return t
                return self.ptr(raw("refmem", t)) if False else r
            return r
        return self.alloc(st, getf(base, name))

    def e_idx(self, st, fr, e):
        b = self.ev(st, fr, e["b"])
        i = self.val(st, fr, e["i"])
        if self.islv(b):
            return self.elem(b, i)
        return self.alloc(st, sel(b, i))

    def e_cond(self, st, fr, e):
        # assert() idiom: cond ? void : __assert_fail(...)
        if self.ty(e["t"])["c"] == "void":
            c = self.cond(st, fr, e["c"])
            for br, g in ((e["F"], c), (e["T"], Not(c))):
                f = br
                while f["k"] in ("cast", "ld"):
                    f = f["e"]
                if f["k"] == "call" and f.get("fn", {}).get("n") in ("__assert_fail", "__assert"):
                    self.asserts.append((g, fr.fn, e["l"]))
                    return UNIT
        c = self.cond(st, fr, e["c"])
        if c is TRUE:
            return self.ev(st, fr, e["T"])
        if c is FALSE:
            return self.ev(st, fr, e["F"])
        a, b = st.copy(), st.copy()
        lv = self.kind(e) == "lv"
        x = self.ev(a, fr, e["T"]) if lv else self.val(a, fr, e["T"])
        y = self.ev(b, fr, e["F"]) if lv else self.val(b, fr, e["F"])
        m = merge(c, a, b)
        st.store, st.ev = m.store, m.ev
        return ite(c, x, y)

    def e_un(self, st, fr, e):
        op = e["op"]
        if op == "&":
            x = e["e"]
            if x["k"] == "ref" and "vk" not in x and x["d"] not in fr.env and "cv" not in x:
                return raw("memptr", x["n"])
            r = self.ev(st, fr, x)
            if r.op == "fnv":
                return r
            return self.addr(r)
        if op == "*":
            p = self.val(st, fr, e["e"])
            return self.ptr(p)
        if op in ("++", "--", "++p", "--p"):
            r = self.ev(st, fr, e["e"])
            old = self.load(st, r)
            new = add(old, ONE) if op[0] == "+" else sub(old, ONE)
            new = normi(new)
            self.store(st, r, new)
            return old if op.endswith("p") else r
        v = self.val(st, fr, e["e"])
        if op == "-":
            return neg(v)
        if op == "+":
            return v
        if op == "!":
            return Not(self.tobool(v))
        if op == "~":
            return raw("bnot", v)
        raise Unsupported("unary " + op)

    def arith(self, op, a, b, tid):
        c = self.ty(tid)["c"]
        if op == "+":
            if self.islv(a) and c == "ptr":
                return raw("ptradd", a, b)
            return add(a, b)
        if op == "-":
            return sub(a, b)
        if op == "*":
            return mul(a, b)
        if op == "/":
            return div(a, b) if c == "float" else idiv(a, b)
        if op == "%":
            return imod(a, b)
        if op in ("&", "|") and (isbool(a) or isbool(b)):
            return And(self.tobool(a), self.tobool(b)) if op == "&" else Or(self.tobool(a), self.tobool(b))
        return raw("op" + op, a, b)

    def e_bin(self, st, fr, e):
        op = e["op"]
        if op == ",":
            self.ev(st, fr, e["L"])
            return self.ev(st, fr, e["R"])
        if op in ("&&", "||"):
            a = self.cond(st, fr, e["L"])
            if op == "&&":
                if a is FALSE:
                    return FALSE
                s2 = st.copy()
                b = self.cond(s2, fr, e["R"])
                m = merge(a, s2, st)
                st.store, st.ev = m.store, m.ev
                return And(a, b)
            if a is TRUE:
                return TRUE
            s2 = st.copy()
            b = self.cond(s2, fr, e["R"])
            m = merge(a, st, s2)
            st.store, st.ev = m.store, m.ev
            return Or(a, b)
        a = self.val(st, fr, e["L"])
        b = self.val(st, fr, e["R"])
        if op in ("==", "!=", "<", "<=", ">", ">="):
            return self.compare(op, a, b, e["lt"])
        return self.arith(op, a, b, e["t"])

    def compare(self, op, a, b, tid):
        if op in ("==", "!="):
            k = self.cmpop(tid, "eq")
            if self.ty(tid)["c"] == "bool":
                a, b = self.tobool(a), self.tobool(b)
                r = Or(And(a, b), And(Not(a), Not(b)))
            else:
                r = cmp(k, a, b)
            return r if op == "==" else Not(r)
        if self.ty(tid)["c"] == "enum":
            a, b = self.ordinal(a), self.ordinal(b)
        if op == "<":
            return cmp(self.cmpop(tid, "lt"), a, b)
        if op == "<=":
            return cmp(self.cmpop(tid, "le"), a, b)
        if op == ">":
            return cmp(self.cmpop(tid, "lt"), b, a)
        return cmp(self.cmpop(tid, "le"), b, a)

    def ordinal(self, v):
        if v.op == "enumc":
            return num(v.a[1])
        if v.op == "ite":
            return ite(v.a[0], self.ordinal(v.a[1]), self.ordinal(v.a[2]))
        if isnum(v):
            return v
        return raw("ord", v)

    def e_asgn(self, st, fr, e):
        v = self.val(st, fr, e["R"])
        r = self.ev(st, fr, e["L"])
        self.store(st, r, v)
        return r

    def e_casgn(self, st, fr, e):
        v = self.val(st, fr, e["R"])
        r = self.ev(st, fr, e["L"])
        old = self.load(st, r)
        n = self.arith(e["op"], old, v, e["ct"])
        t = self.ty(e["t"])["c"]
        self.store(st, r, n)
        return r

    def e_cast(self, st, fr, e):
        ck = e["ck"]
        if ck in ("DerivedToBase", "UncheckedDerivedToBase", "BaseToDerived", "Dynamic", "BitCast"):
            return self.ev(st, fr, e["e"])
        if ck == "ToVoid":
            self.ev(st, fr, e["e"])
            return UNIT
        v = self.val(st, fr, e["e"])
        if ck in ("NullToPointer",):
            return NULL
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean", "MemberPointerToBoolean"):
            if isbool(v):
                return v
            if ck == "PointerToBoolean":
                return Not(cmp("peq", v, NULL))
            if ck == "IntegralToBoolean":
                return Not(cmp("ieq", v, ZERO))
            return Not(cmp("feq", v, ZERO))
        if ck in ("IntegralToFloating", "FloatingCast", "IntegralCast", "BooleanToSignedIntegral"):
            t = self.ty(e["t"])
            if t["c"] == "enum" and isnum(v):
                return self.enumval(t, v)
            if v.op == "enumc" and t["c"] in ("int", "uint"):
                return num(v.a[1])
            if t["c"] in ("int", "uint", "float") and isbool(v):
                return ite(v, ONE, ZERO)
            if t["c"] in ("int", "uint") and self.src_enum(e):
                return self.ordinal(v)
            return v
        if ck == "FloatingToIntegral":
            if isnum(v):
                return num(int(v.a[0]))
            return raw("trunc", v)
        return v

    def src_enum(self, e):
        x = e["e"]
        t = x.get("t")
        return t is not None and self.ty(t)["c"] == "enum"

    def e_zero(self, st, fr, e):
        return self.zero(e["t"])

    def zero(self, tid):
        t = self.ty(tid)
        if t["c"] in ("int", "uint", "float"):
            return ZERO
        if t["c"] == "bool":
            return FALSE
        if t["c"] in ("ptr", "nullptr"):
            return NULL
        if t["c"] == "rec":
            R = self.u.recs.get(t["rec"])
            if R and R.get("in"):
                return self.default_init(State(), R)
        return raw("zero", t["s"])

    def e_ilist(self, st, fr, e):
        t = self.ty(e["t"])
        if len(e["a"]) == 1 and t["c"] == "rec" and e.get("fill") is None:
            t2 = self.u.types.get(e["a"][0].get("t"))
            if t2 is not None and t2.get("rec") is not None and t2.get("rec") == t.get("rec"):
                return self.val(st, fr, e["a"][0])
        vals = [self.val(st, fr, a) for a in e["a"]]
        if e.get("fill") is not None and "n" in e:
            f = self.val(st, fr, e["fill"])
            while len(vals) < e["n"]:
                vals.append(f)
        if t["c"] == "rec":
            R = self.u.recs.get(t["rec"], {})
            q = R.get("q", t["s"])
            if q.startswith(("std::array", "std::initializer_list")):
                if len(vals) == 1 and vals[0].op == "list":
                    return vals[0]
                return raw("list", *vals)
            fs = self.allfields(R)
            d = {}
            for (n, _), v in zip(fs, vals):
                d[n] = v
            for n, tt in fs[len(vals):]:
                d[n] = self.zero(tt)
            return rec(R.get("dn", q), d)
        if t["c"] in ("int", "uint", "float", "bool", "ptr", "enum"):
            return vals[0] if vals else self.zero(e["t"])
        return raw("list", *vals)

    def allfields(self, R):
        out = []
        for b in R.get("bases", ()):
            out += self.allfields(self.u.recs.get(b, {}))
        for f in R.get("fields", ()):
            n = R["q"] + "::" + f["n"]
            if R["q"].startswith("std::pair"):
                n = "t0" if f["n"] == "first" else "t1"
            out.append((n, f["t"]))
        return out

    def e_lambda(self, st, fr, e):
        caps = []
        for c in e["caps"]:
            if c.get("this"):
                caps.append(("this", fr.this if c["this"] == 1 else self.alloc(st, self.load(st, self.ptr(fr.this)))))
            elif c.get("ref"):
                r = fr.env.get(c["v"])
                if c.get("ic"):
                    r = self.lv(st, fr, c["e"])
                if r is None:
                    raise Unsupported("capture " + c["n"])
                caps.append((c["v"], r))
                if r.op == "ref" and not r.a[1] and not c.get("ic"):
                    self.refcaps[r.a[0]] = c["n"]
            else:
                v = self.val(st, fr, c["e"])
                t = None
                r = self.newroot(c["n"])
                st.store[r] = v
                caps.append((c["v"], self.ref(r)))
        return raw("clo", tuple(e["ops"]), tuple(caps))

    def call_closure(self, st, fr, clo, args, opid=None):
        ids = clo.a[0]
        fn = None
        if opid is not None:
            fn = self.u.fns.get(opid)
        if fn is None:
            for i in ids:
                f = self.u.fns.get(i)
                if f and len(f["params"]) == len(args):
                    fn = f
                    break
        if fn is None:
            raise Unsupported("closure body")
        this = None
        env = {}
        for k, r in clo.a[1]:
            if k == "this":
                this = r
            else:
                env[k] = r
        self.act += 1
        f2 = Frame(fn, self.act, this=this, env=env, parent=fr)
        self.inlined[fn["id"]] = self.inlined.get(fn["id"], 0) + 1
        self.depth += 1
        self.stack.append(fn["id"])
        try:
            if self.depth > self.max_depth:
                raise Unsupported("depth")
            for p, a in zip(fn["params"], args):
                self.bind_param(st, f2, p, a)
            out = self.leave(self.stmt(st, f2, fn["body"]), f2)
            v, s2 = self.finish(out, fn)
        finally:
            self.stack.pop()
            self.depth -= 1
        if s2 is None:
            raise NoReturn()
        st.store, st.ev = s2.store, s2.ev
        return v

    def e_new(self, st, fr, e):
        self.act += 1
        p = raw("obj", self.act)
        self.news[self.act] = (e.get("at"), self.val(st, fr, e["n"]) if e.get("n") else None)
        if e.get("n"):
            return p
        if e.get("init"):
            v = self.val(st, fr, e["init"])
            self.store(st, self.ptr(p), v)
        return p

    def e_delete(self, st, fr, e):
        p = self.val(st, fr, e["e"])
        st.ev = st.ev + ((TRUE, "delete", p),)
        return UNIT

    def e_throw(self, st, fr, e):
        raise NoReturn()

    def e_pdtor(self, st, fr, e):
        return UNIT

    def e_memfn(self, st, fr, e):
        return raw("memfn", e["fn"]["id"])

    # ---------------------------------------------------------- construction
    def default_init(self, st, R):
        d = {}
        for b in R.get("bases", ()):
            v = self.default_init(st, self.u.recs.get(b, {}))
            d.update(dict(v.a[1]))
        fr = Frame({"rt": None, "dn": R.get("dn")}, 0, this=None)
        for f in R.get("fields", ()):
            n = R["q"] + "::" + f["n"]
            t = self.ty(f["t"])
            if "init" in f:
                d[n] = self.val(st, fr, f["init"])
            elif t["c"] == "rec":
                R2 = self.u.recs.get(t["rec"], {})
                d[n] = self.defval(st, R2, f["t"])
            else:
                d[n] = raw("uninit", f["n"])
        return rec(R.get("dn"), d)

    def defval(self, st, R2, tid):
        q = R2.get("q", "")
        if self.iscontainer(q) and not q.startswith("std::array"):
            return EMPTY
        if q.startswith(SMART) or q.startswith("std::optional"):
            return NULL
        if R2.get("in") and R2.get("fields") is not None:
            c = [self.u.fns[m] for m in R2.get("methods", ()) if m in self.u.fns and self.u.fns[m].get("isctor") and not self.u.fns[m]["params"]]
            if c and c[0].get("body"):
                return self.construct(st, R2, c[0], [])
            return self.default_init(st, R2)
        return raw("default", self.ty(tid)["s"])

    def construct(self, st, R, ctor, args):
        """Value of a record built by an in-repo constructor."""
        obj = self.newroot("new_" + R["n"])
        st.store[obj] = rec(R.get("dn"), {})
        r = self.ref(obj)
        if ctor is None or (ctor.get("defaulted") and not ctor.get("body") and "inits" not in ctor):
            st.store[obj] = self.default_init(st, R)
            return st.store[obj]
        self.run_ctor(st, R, ctor, r, args)
        v = st.store[obj]
        return v

    def run_ctor(self, st, R, ctor, objref, args):
        self.inlined[ctor["id"]] = self.inlined.get(ctor["id"], 0) + 1
        self.act += 1
        fr = Frame(ctor, self.act, this=objref)
        if self.depth > self.max_depth:
            raise Unsupported("depth")
        self.depth += 1
        try:
            for p, a in zip(ctor["params"], args):
                self.bind_param(st, fr, p, a)
            d = {}
            done = False
            for i in ctor.get("inits", ()):
                if i.get("deleg"):
                    v = self.val(st, fr, i["e"])
                    self.store(st, objref, v)
                    done = True
                    break
                if "base" in i:
                    b = self.ty(i["base"])
                    RB = self.u.recs.get(b.get("rec"), {})
                    if RB.get("in"):
                        v = self.val(st, fr, i["e"])
                        if v.op == "rec":
                            cur = dict(self.load(st, objref).a[1])
                            cur.update(dict(v.a[1]))
                            self.store(st, objref, rec(R.get("dn"), cur))
                    continue
                n = R["q"] + "::" + i["n"]
                t = self.ty(i["t"])
                if t.get("ref"):
                    v = self.lv(st, fr, i["e"])
                else:
                    v = self.val(st, fr, i["e"], t)
                cur = self.load(st, objref)
                self.store(st, objref, setf(cur, n, v) if cur.op != "rec" else rec(R.get("dn"), {**dict(cur.a[1]), n: v}))
            if ctor.get("body"):
                out = self.stmt(st, fr, ctor["body"])
                v, s2 = self.finish(out, ctor)
                if s2 is None:
                    raise NoReturn()
                st.store, st.ev = s2.store, s2.ev
        finally:
            self.depth -= 1

    def e_ctor(self, st, fr, e):
        t = self.ty(e["t"])
        q = self.recname(e["t"])
        args = e["a"]
        f = e["fn"]
        h = self.hooks.get("ctor:" + q) or (self.hooks.get("ctor:Eigen") if q.startswith("Eigen::") else None)
        if h:
            r = h(self, st, fr, e, f, None, args)
            if r is not None:
                return r
        if e.get("copy") or e.get("move"):
            r = self.copy_ctor(st, fr, e, q)
            if r is not None:
                return r
        R = self.u.recs.get(t.get("rec"), {})
        if q.startswith("slp::IntrusiveSharedPtr") and self.smart_transparent:
            if not args:
                return NULL
            return self.val(st, fr, args[0])
        if q.startswith("std::optional"):
            return self.val(st, fr, args[0]) if args else NULL
        if q.startswith("std::unique_ptr"):
            return self.val(st, fr, args[0]) if args else NULL
        if q.startswith("std::function"):
            return self.val(st, fr, args[0]) if args else NULL
        if q.startswith("slp::function_ref") and self.smart_transparent:
            v = self.ev(st, fr, args[0])
            if self.islv(v):
                v = self.load(st, v)
            return v
        if q.startswith("std::pair") or q.startswith("std::tuple"):
            if len(args) >= 2:
                return rec(q, {"t%d" % i: self.val(st, fr, a) for i, a in enumerate(args)})
        if self.iscontainer(q):
            return self.ctor_container(st, fr, e, q, args)
        if q.startswith("Eigen::"):
            return self.ctor_eigen(st, fr, e, q, args)
        if R.get("in") or R.get("lam"):
            av = self.args(st, fr, f, args)
            o = self.opaque(f, av)
            if o is not None:
                return self.apply_opaque(st, fr, e, f, None, av, o)
            ctor = self.u.fns.get(f["id"])
            if ctor is not None and (ctor.get("body") or ctor.get("inits")):
                return self.construct(st, R, ctor, av)
            if R.get("fields") is not None and not args:
                return self.construct(st, R, None, [])
        vals = [self.val(st, fr, a) for a in args]
        if q.startswith("std::back_insert_iterator"):
            return raw("backins", *vals)
        if len(vals) == 1 and q.startswith(("std::basic_string", "std::chrono::duration", "std::reference_wrapper", "__gnu_cxx::__normal_iterator")):
            return vals[0]
        return raw("ctor:" + q, *vals)

    def copy_ctor(self, st, fr, e, q):
        a = e["a"][0]
        v = self.ev(st, fr, a)
        R = self.u.recs.get(self.ty(e["t"]).get("rec"), {})
        f = self.u.fns.get(e["fn"]["id"])
        if R.get("in") and f is not None and f.get("body") and not f.get("defaulted") and not (q.startswith(("slp::IntrusiveSharedPtr",)) and self.smart_transparent):
            return None
        if self.islv(v):
            return self.load(st, v)
        return v

    def ctor_container(self, st, fr, e, q, args):
        if q.startswith("std::span") and args:
            v = self.ev(st, fr, args[0])
            return self.load(st, v) if self.islv(v) else v
        if not args:
            return EMPTY
        vals = [self.val(st, fr, a) for a in args]
        if e.get("ilist") or (len(vals) == 1 and vals[0].op == "list"):
            return vals[0]
        if len(vals) >= 2 and vals[0].op not in ("iter",):
            pt = [self.ty(p)["c"] for p in e["fn"]["pt"]]
            if pt and pt[0] in ("int", "uint"):
                return raw("fill", vals[0], vals[1])
        if len(vals) >= 2 and vals[0].op == "iter" and vals[1].op == "iter":
            if vals[0].a[1] is ZERO and vals[1].a[0] is vals[0].a[0]:
                return vals[0].a[2]
        if len(vals) >= 1 and self.ty(e["fn"]["pt"][0])["c"] in ("int", "uint"):
            return raw("fill", vals[0], raw("defaultelem", q))
        if len(vals) == 1:
            return vals[0]
        return raw("ctor:" + q, *vals)

    def ctor_eigen(self, st, fr, e, q, args):
        vals = [self.val(st, fr, a) for a in args]
        pt = [self.ty(p) for p in e["fn"]["pt"]]
        if q.endswith("InnerIterator"):
            return rec("InnerIterator", {"m": vals[0], "k": vals[1] if len(vals) > 1 else ZERO, "pos": ZERO})
        if len(vals) == 1 and q in ("Eigen::Matrix", "Eigen::SparseMatrix", "Eigen::SparseVector", "Eigen::Array", "Eigen::Ref", "Eigen::Map", "Eigen::DiagonalMatrix") and not (pt and pt[0]["c"] in ("int", "uint")):
            if vals[0].op in ("num",) or self.argint(args[0]):
                return self.mark(raw("eigen0", "dim", vals[0]), True)
            return self.mark(vals[0], True)
        if not vals:
            return self.mark(raw("eigen0", "empty"), True)
        if q in ("Eigen::Matrix", "Eigen::SparseMatrix", "Eigen::SparseVector", "Eigen::Array"):
            return self.mark(raw("eigen0", "dim", *vals), True)
        return self.mark(raw("ctor:" + q, *vals), q.split("::")[-1] not in ("InnerIterator", "Triplet"))

    def argint(self, a):
        while a["k"] in ("mat",):
            a = a["e"]
        t = a.get("t")
        return t is not None and self.ty(t)["c"] in ("int", "uint")

    # ---------------------------------------------------------- calls
    def args(self, st, fr, f, args):
        out = []
        for i, a in enumerate(args):
            pt = self.ty(f["pt"][i]) if i < len(f["pt"]) else None
            if pt is not None and pt.get("ref"):
                v = self.ev(st, fr, a)
                out.append(v)
            else:
                out.append(self.val(st, fr, a))
        return out

    def apply_opaque(self, st, fr, e, f, obj, av, o):
        """o: name for the opaque application, or callable"""
        if callable(o):
            return o(self, st, fr, e, f, obj, av)
        vals = [self.load(st, a) if self.islv(a) else a for a in av]
        if obj is not None:
            vals = [self.load(st, obj) if self.islv(obj) else obj] + vals
        self.opq[o] = self.opq.get(o, 0) + 1
        return raw(o, *vals)

    def e_call(self, st, fr, e):
        f = e.get("fn")
        if f is None:
            return self.call_indirect(st, fr, e)
        q = f["q"]
        h = self.hooks.get(q)
        if h is None and self.hooks and "<" in q:
            import libmodel
            c = libmodel.rawcls(q)
            h = self.hooks.get(c + "::" + f["n"] if c else f["n"])
        if h is not None:
            r = h(self, st, fr, e, f)
            if r is not None:
                return r
        if f["n"] in ("__assert_fail", "__assert", "abort", "__builtin_unreachable", "unreachable"):
            raise NoReturn()
        obj = None
        if "obj" in e:
            obj = self.ev(st, fr, e["obj"])
            if e.get("arrow"):
                if self.kind(e["obj"]) == "lv" and self.islv(obj) and e["obj"]["k"] != "this":
                    obj = self.load(st, obj)
                obj = self.ptr(obj)
        return self.dispatch(st, fr, e, f, obj, e["a"])

    def call_indirect(self, st, fr, e):
        c = self.val(st, fr, e["ce"])
        if c.op == "clo":
            av = [self.ev(st, fr, a) for a in e["a"]]
            return self.call_closure(st, fr, c, av)
        if c.op == "fnv":
            fn = self.u.fns.get(c.a[0])
            if fn is not None and fn["n"] == "__invoke" and fn.get("lam"):
                # what a lambda without captures converts to
                ops = [m for m in self.u.recs.get(fn["cls"], {}).get("methods", ()) if m in self.u.fns and self.u.fns[m]["n"] == "operator()"]
                if ops:
                    av = [self.ev(st, fr, a) if self.ty(p).get("ref") else self.val(st, fr, a) for p, a in zip(fn["pt"], e["a"])]
                    return self.call_closure(st, fr, raw("clo", tuple(ops), ()), av)
            ff = fn or self.fnrefs.get(c.a[0])
            o = self.opaque(ff, []) if ff is not None and c.a[0] in self.fnrefs else None
            if callable(o):
                av = [self.ev(st, fr, a) if self.ty(p).get("ref") else self.val(st, fr, a) for p, a in zip(ff["pt"], e["a"])]
                return o(self, st, fr, e, self.fnrefs[c.a[0]], None, av)
            if fn is not None and fn["n"] == "__invoke" and fn.get("lam"):
                pass
            elif fn is not None and fn.get("body"):
                av = [self.ev(st, fr, a) if self.ty(p["t"]).get("ref") else self.val(st, fr, a) for p, a in zip(fn["params"], e["a"])]
                v, s2 = self.call_fn(st, fn, None, av, fr)
                if s2 is None:
                    raise NoReturn()
                st.store, st.ev = s2.store, s2.ev
                return v
        vals = [self.val(st, fr, a) for a in e["a"]]
        if c.op == "memfn":
            raise Unsupported("member pointer call")
        self.opq["indirect"] = self.opq.get("indirect", 0) + 1
        return raw("app", c, *vals)

    def dispatch(self, st, fr, e, f, obj, args):
        import libmodel
        q = f["q"]
        inrepo = f.get("in") and f["id"] in self.u.fns
        r = libmodel.special(self, st, fr, e, f, obj, args)
        if r is not None:
            return r
        if f.get("in"):
            av = self.args(st, fr, f, args)
            o = self.opaque(f, av)
            if o is not None:
                return self.apply_opaque(st, fr, e, f, obj, av, o)
            if f.get("virt") and not e.get("nonvirt"):
                return self.vcall(st, fr, e, f, obj, av)
            fn = self.u.fns.get(f["id"])
            if fn is not None and (fn.get("copyassign") or fn.get("moveassign")) and not fn.get("body"):
                v = av[0]
                self.store(st, obj, self.load(st, v) if self.islv(v) else v)
                return obj
            if f["n"] == "operator==" and (fn is None or fn.get("defaulted") or not fn.get("body")):
                vs = ([self.load(st, obj) if self.islv(obj) else obj] if obj is not None else []) + [self.load(st, a) if self.islv(a) else a for a in av]
                return self.memberwise_eq(vs[0], vs[1], f)
            if fn is None or not fn.get("body"):
                return libmodel.opaque_ext(self, st, fr, e, f, obj, args)
            cls = fn.get("lam")
            if cls and obj is not None:
                c = self.load(st, obj) if self.islv(obj) else obj
                if c.op == "clo":
                    return self.call_closure(st, fr, c, av, f["id"])
                return raw("app", c, *[self.load(st, a) if self.islv(a) else a for a in av])
            this = self.addr(obj) if obj is not None else None
            if obj is not None and not self.islv(obj):
                this = self.alloc(st, obj)
            v, s2 = self.call_fn(st, fn, this, av, fr)
            if s2 is None:
                raise NoReturn()
            st.store, st.ev = s2.store, s2.ev
            return v
        return libmodel.external(self, st, fr, e, f, obj, args)

    def memberwise_eq(self, a, b, f):
        pt = self.ty(f["pt"][-1])
        R = self.u.recs.get(pt.get("rec"), {})
        r = TRUE
        for n, t in self.allfields(R):
            x, y = getf(a, n), getf(b, n)
            if x.op == "iter" and y.op == "iter" and x.a[0] is y.a[0]:
                r = And(r, cmp("ieq", x.a[1], y.a[1]))
                continue
            r = And(r, cmp(self.cmpop(t, "eq"), getf(a, n), getf(b, n)))
        return r

    def vcall(self, st, fr, e, f, obj, av):
        p = self.addr(obj)
        return self.vcall_ptr(st, fr, e, f, p, av)

    def vcall_ptr(self, st, fr, e, f, p, av):
        if p.op == "ite":
            c = p.a[0]
            a, b = st.copy(), st.copy()
            x = self.vcall_ptr(a, fr, e, f, p.a[1], av)
            y = self.vcall_ptr(b, fr, e, f, p.a[2], av)
            m = merge(c, a, b)
            st.store, st.ev = m.store, m.ev
            return ite(c, x, y)
        if p.op == "node":
            fn = self.find_override(p.a[0], f)
            if fn is not None:
                v, s2 = self.call_fn(st, fn, p, av, fr)
                if s2 is None:
                    raise NoReturn()
                st.store, st.ev = s2.store, s2.ev
                return v
        vals = [self.load(st, a) if self.islv(a) else a for a in av]
        self.opq["virtual " + f["n"]] = self.opq.get("virtual " + f["n"], 0) + 1
        return raw("vcall", f["n"], p, *vals)

    def find_override(self, cls, f):
        R = None
        for r in self.u.recs.values():
            if r["dn"] == cls:
                R = r
        while R is not None:
            for m in R.get("methods", ()):
                fn = self.u.fns.get(m)
                if fn and fn["n"] == f["n"] and len(fn["params"]) == len(f["pt"]) and fn.get("body"):
                    return fn
            bs = R.get("bases", ())
            R = self.u.recs.get(bs[0]) if bs else None
        return None


def dropc(g, c):
    if g.op == "and":
        return And(*[x for x in g.a if x is not c])
    return g


class NoReturn(Exception):
    pass
