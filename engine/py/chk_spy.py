"""U04: sparsity recordings: what is written, and what the shipped reader makes of it."""
import ast, os, re
from frame import check, Broken, REPO
import frame
from sem import Interp, State, Unsupported
import term as TM
from term import *
from decide import canon
from vx import Undecided
from chk_util import Bad

LOG = ("v", "spylog")
NIL = raw("nil")
HEAD = ("title", "row_label", "col_label", "rows", "cols")


# ---------------------------------------------------------------- writer

def byte_hook(I, st, fr, e, f):
    a = [I.val(st, fr, x) for x in e["a"]]
    p = a[0]
    n = a[1] if f["n"] == "write" else ONE
    if f["n"] == "put":
        p = raw("char", p)
    elif p.op in ("dataptr", "call:std::basic_string_view::data", "call:std::basic_string::data", "call:std::basic_string::c_str"):
        p = raw("bytes", I.load(st, p.a[0]) if I.islv(p.a[0]) else p.a[0])
    elif p.op == "strv":
        p = raw("bytes", p)
    elif I.islv(p):
        p = raw("int", I.load(st, p))
    else:
        raise Undecided("bytes written: " + show(p)[:100])
    st.store[LOG] = raw("logged", st.store.get(LOG, NIL), raw("w", canon(p), canon(n)))
    return sym("stream")


def shift_hook(I, st, fr, e, f):
    a = e["a"]
    t = I.ty(f["pt"][-1])["s"] if f.get("pt") else ""
    v = I.val(st, fr, a[-1])
    if I.islv(v):
        v = I.load(st, v)
    t = t.replace("const", "").replace("&", "").strip()
    if t in ("char", "signed char", "unsigned char"):
        v, n = raw("char", v), ONE
    elif v.op == "strv":
        v, n = raw("bytes", v), num(len(v.a[0].encode()))
    elif isnum(v):
        v = raw("strv", str(v.a[0]))
        v, n = raw("bytes", v), num(len(v.a[0]))
    elif "string" in t:
        v, n = raw("bytes", v), length(v)
    else:
        raise Undecided("text written: " + show(v)[:100])
    st.store[LOG] = raw("logged", st.store.get(LOG, NIL), raw("w", canon(v), n))
    return sym("stream")


def written(u, f):
    I = Interp(u)
    I.hooks["std::basic_ostream::write"] = I.hooks["std::basic_ostream::put"] = byte_hook
    I.hooks["std::operator<<"] = I.hooks["std::basic_ostream::operator<<"] = shift_hook
    I.unrollmax = 8
    st = State()
    st.store[LOG] = NIL
    av = [I.alloc(st, sym(p["n"])) if I.ty(p["t"]).get("ref") else sym(p["n"]) for p in f["params"]]
    _, s2 = I.call_fn(st, f, sym("this"), av)
    for x in TM.walk(s2.store[LOG]):
        if x.op == "hav" or x.op.startswith("after:"):
            raise Undecided("effect on the file: " + show(x)[:100])
    return s2.store[LOG]


def byteval(t, leaves, x):
    """value of a byte computed from the bits of one number"""
    if isnum(t):
        return int(t.a[0])
    if t.op in ("op&", "op|", "op^", "op>>", "op<<") and len(t.a) == 2:
        a, b = byteval(t.a[0], leaves, x), byteval(t.a[1], leaves, x)
        return {"op&": a & b, "op|": a | b, "op^": a ^ b}.get(t.op, (a >> b if t.op == "op>>" else a << b) if 0 <= b < 64 else 0)
    leaves.add(t)
    return x


def joined(xs):
    """four bytes that are those of a number, lowest first, are that number in 32 bits"""
    xs = [x if x[0] == "w" else x[:2] + (joined(x[2]),) if x[0] == "rep" else x[:2] + (joined(x[2]), joined(x[3])) for x in xs]
    k = 0
    while k + 4 <= len(xs):
        w = xs[k:k + 4]
        if all(x[0] == "w" and x[1].op == "char" and x[1].a[0].op.startswith("op") for x in w):
            for v in (0, 1, 255, 256, 0x01020304, 0x7ffefdfc, 0xfffffffe):
                leaves = set()
                got = [byteval(canon(x[1].a[0]), leaves, v) & 255 for x in w]
                if len(leaves) != 1:
                    raise Undecided("bytes of several numbers")
                if got != [(v >> 8 * i) & 255 for i in range(4)]:
                    raise Bad("the bytes written for the number %d are %s" % (v, got))
            xs[k:k + 4] = [("w", raw("int", leaves.pop()), num(4))]
        k += 1
    return xs


def items(t, stop=NIL):
    """the writes, in order: ('w', what, size) | ('rep', index, [items]) | ('if', cond, [items], [items])"""
    if t is stop:
        return []
    if t.op == "logged":
        return items(t.a[0], stop) + [("w", t.a[1].a[0], t.a[1].a[1])]
    if t.op == "fold":
        return items(t.a[2], stop) + [("rep", t.a[0], items(t.a[3], t.a[1]))]
    if t.op == "ite":
        c, a, b = t.a
        a, b = items(a, stop), items(b, stop)
        k = 0
        while k < min(len(a), len(b)) and a[k] == b[k]:
            k += 1
        return a[:k] + [("if", c, a[k:], b[k:])]
    raise Undecided("writes: " + show(t)[:150])


def resolve(xs, truth):
    """the writes of a case"""
    out = []
    for x in xs:
        if x[0] == "if":
            t = truth(x[1])
            if t is None:
                raise Undecided("condition " + show(x[1])[:100])
            out += resolve(x[2] if t else x[3], truth)
        elif x[0] == "w" and x[1].op == "char" and x[1].a[0].op == "ite":
            c = x[1].a[0]
            while c.op == "ite":
                t = truth(c.a[0])
                if t is None:
                    raise Undecided("condition " + show(c.a[0])[:100])
                c = c.a[1] if t else c.a[2]
            out.append(("w", raw("char", c), x[2]))
        else:
            out.append(x)
    return out


SIGNS = {"positive": (1, b"+", 1.0), "negative": (-1, b"-", -1.0), "zero": (0, b"0", 0.0)}


def truth_of(sign, value):
    """decides conditions on the sign of the stored value"""
    def tr(c):
        if c is TRUE or c is FALSE:
            return c is TRUE
        if c.op in ("not",):
            t = tr(c.a[0])
            return None if t is None else not t
        if c.op in ("and", "or"):
            ts = [tr(x) for x in c.a]
            if c.op == "and":
                return False if False in ts else None if None in ts else True
            return True if True in ts else None if None in ts else False
        if len(c.a) == 2:
            x = TM.subst(c.a[0], {value: num(sign)}), TM.subst(c.a[1], {value: num(sign)})
            x = tuple(canon(y) for y in x)
            if all(TM.isnum(y) for y in x):
                p, q = (y.a[0] for y in x)
                return {"flt": p < q, "fle": p <= q, "feq": p == q, "fne": p != q, "ilt": p < q, "ile": p <= q, "ieq": p == q, "lt": p < q, "le": p <= q, "eq": p == q}.get(c.op)
        return None
    return tr


# ---------------------------------------------------------------- reader

class EOF(Exception):
    pass


class Stop(Exception):
    pass


class Ret(Exception):
    pass


class Sym:
    """a value read from the file"""

    def __init__(self, kind, t=None, *more):
        self.kind, self.t, self.more = kind, t, more

    def __repr__(self):
        return "%s(%s)" % (self.kind, self.t if not hasattr(self.t, "op") else show(self.t))

    def __eq__(self, o):
        return isinstance(o, Sym) and self.kind == o.kind and self.t is o.t and self.more == o.more

    def __hash__(self):
        return hash((self.kind, id(self.t)))


class Any:
    """a value that does not come from the file"""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return "?" + self.name


class Reader:
    def __init__(self, tree, stream, sign):
        self.funs = {n.name: n for n in tree.body if isinstance(n, ast.FunctionDef)}
        self.consts = [n for n in tree.body if isinstance(n, ast.Assign)]
        self.stream = list(stream)      # remaining items
        self.calls = []
        self.fmt = {"positive": 0, "negative": 1, "zero": 2}[sign]
        self.steps = 0

    # the file
    def read(self, n):
        if not self.stream:
            return Sym("eof")
        x = self.stream[0]
        if x[0] != "w":
            raise Bad("reads %s bytes where %s repeated records begin" % (n, show(x[1]) if hasattr(x[1], "op") else x[1]))
        what, size = x[1], x[2]
        ok = False
        want = int(size.a[0]) if isnum(size) else size
        if isinstance(n, Sym) and n.kind == "int":
            ok = n.t is size or canon(n.t) is canon(size)
        elif isinstance(n, int):
            ok = n == want
        elif not isinstance(n, Sym) or n.kind != "swapped":
            raise Undecided("read(%s)" % (n,))
        if isinstance(n, Sym) and n.kind == "swapped":
            raise Bad("a length is read with the wrong byte order")
        if not ok:
            raise Bad("reads %s bytes of %s, which has %s" % (n, show(what), want if not hasattr(want, "op") else show(want)))
        self.stream.pop(0)
        return Sym("raw", what, want if isinstance(want, int) else size)

    def unpack(self, fmt, v):
        if isinstance(v, Sym) and v.kind == "eof":
            raise EOF("struct.error")
        if not isinstance(v, Sym) or v.kind != "raw":
            raise Undecided("unpack of %r" % (v,))
        m = v.t
        if isinstance(fmt, tuple):      # f"{size}s"
            if m.op != "bytes":
                raise Bad("takes %s for text" % show(m))
            return (Sym("text", m.a[0]),)
        f = fmt.lstrip("<>=!@") if isinstance(fmt, str) else None
        if f is None:
            raise Undecided("format %r" % (fmt,))
        if f in ("i", "l") and m.op == "int" and v.more[0] == 4:
            if fmt[0] in ">!":
                return (Sym("swapped", m.a[0]),)
            return (Sym("int", m.a[0]),)
        if f in ("c", "1s", "s") and m.op == "char":
            return (bytes([int(m.a[0].a[0])]) if isnum(m.a[0]) else Sym("char", m.a[0]),)
        if re.fullmatch(r"[iIlLqQhHcbB]", f):
            size = {"i": 4, "l": 4, "q": 8, "h": 2, "c": 1, "b": 1}[f.lower()]
            if f in "IL" and m.op == "int" and v.more[0] == 4 and fmt[0] not in ">!":
                return (Sym("int", m.a[0]),)
            raise Bad("reads format '%s' (%d bytes) from %s (%s bytes)" % (fmt, size, show(m), v.more[0]))
        raise Undecided("format " + fmt)

    # statements
    def run(self, name):
        f = self.funs.get(name)
        if f is None:
            raise Undecided("no function " + name)
        env = {}
        for c in self.consts:
            try:
                self.stmt(c, env)
            except Undecided:
                pass
        env[f.args.args[0].arg] = Any("filename")
        try:
            self.block(f.body, env)
        except Ret:
            pass
        return env

    def block(self, ss, env):
        for s in ss:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > 20000:
            raise Undecided("reader does not finish")
        k = type(s).__name__
        if k == "Assign":
            v = self.ev(s.value, env)
            for t in s.targets:
                self.bind(t, v, env)
        elif k == "AnnAssign":
            if s.value is not None:
                self.bind(s.target, self.ev(s.value, env), env)
        elif k == "AugAssign":
            v = self.ev(ast.BinOp(left=self.load(s.target), op=s.op, right=s.value), env)
            self.bind(s.target, v, env)
        elif k == "Expr":
            self.ev(s.value, env)
        elif k == "With":
            for i in s.items:
                v = self.ev(i.context_expr, env)
                if i.optional_vars is not None:
                    self.bind(i.optional_vars, v, env)
            self.block(s.body, env)
        elif k == "Try":
            try:
                self.block(s.body, env)
            except EOF as ex:
                for h in s.handlers:
                    n = ast.unparse(h.type) if h.type is not None else "Exception"
                    if str(ex) in n or re.search(r"\b(Base)?Exception\b", n):
                        self.block(h.body, env)
                        break
                else:
                    raise
        elif k == "While":
            n = 0
            while self.truth(self.ev(s.test, env)):
                n += 1
                if n > 10:
                    raise Undecided("reader loop")
                try:
                    self.block(s.body, env)
                except Stop as ex:
                    if str(ex) == "break":
                        break
        elif k == "For":
            self.loop(s, env)
        elif k == "If":
            self.block(s.body if self.truth(self.ev(s.test, env)) else s.orelse, env)
        elif k == "FunctionDef":
            env[s.name] = ("fun", s, env)
        elif k == "Return":
            self.ret = self.ev(s.value, env) if s.value is not None else None
            raise Ret()
        elif k in ("Break", "Continue"):
            raise Stop(k.lower())
        elif k in ("Pass", "Import", "ImportFrom", "Global", "Nonlocal"):
            pass
        else:
            raise Undecided("statement " + k)

    def loop(self, s, env):
        it = self.ev(s.iter, env)
        if isinstance(it, (list, tuple)) and all(not isinstance(x, str) for x in it):
            for x in it:
                self.bind(s.target, x, env)
                try:
                    self.block(s.body, env)
                except Stop as ex:
                    if str(ex) == "break":
                        break
            return
        if isinstance(it, Sym) and it.kind == "range":
            self.repeat(it, lambda: self.block(s.body, env), s.target, env)
            return
        raise Undecided("loop over %r" % (it,))

    def repeat(self, it, body, target, env):
        """one generic pass for all records"""
        if not self.stream or self.stream[0][0] != "rep":
            raise Bad("repeats %s times where no records are" % show(it.t))
        rep = self.stream.pop(0)
        if canon(it.t) is not canon(rep[1]):
            raise Bad("reads %s records of %s" % (show(it.t), show(rep[1])))
        rest, self.stream = self.stream, list(rep[2])
        if target is not None:
            self.bind(target, Any("index"), env)
        try:
            body()
        except Stop:
            raise Undecided("the loop over the records is left early")
        except EOF:
            raise Bad("a record ends too early")
        if self.stream:
            raise Bad("%d fields of each record are not read" % len(self.stream))
        self.stream = rest

    def load(self, t):
        return ast.copy_location(ast.parse(ast.unparse(t), mode="eval").body, t)

    def bind(self, t, v, env):
        if isinstance(t, ast.Name):
            env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if not isinstance(v, (tuple, list)):
                if isinstance(v, Any):
                    v = [v] * len(t.elts)
                else:
                    raise Undecided("unpacking %r" % (v,))
            for x, y in zip(t.elts, v):
                self.bind(x, y, env)
        elif isinstance(t, (ast.Attribute, ast.Subscript)):
            self.calls.append(("set " + ast.unparse(t), [v], {}))
        else:
            raise Undecided("assignment")

    def truth(self, v):
        if isinstance(v, (Any, Sym)):
            if isinstance(v, Sym) and v.kind in ("eof",):
                return False
            if isinstance(v, Sym) and v.kind in ("raw",):
                return True
            raise Undecided("condition on %r" % (v,))
        return bool(v)

    # expressions
    def ev(self, e, env):
        k = type(e).__name__
        m = getattr(self, "x_" + k, None)
        if m is None:
            raise Undecided("expression " + k)
        return m(e, env)

    def x_Constant(self, e, env):
        return e.value

    def x_Name(self, e, env):
        if e.id in env:
            return env[e.id]
        if e.id in self.funs:
            return ("fun", self.funs[e.id], {})
        return Any(e.id)

    def x_Attribute(self, e, env):
        v = self.ev(e.value, env)
        if isinstance(v, Any):
            return Any(v.name + "." + e.attr)
        return ("method", v, e.attr)

    def x_List(self, e, env):
        return [self.ev(x, env) for x in e.elts]

    def x_Tuple(self, e, env):
        return tuple(self.ev(x, env) for x in e.elts)

    def x_Dict(self, e, env):
        return {self.ev(k, env): self.ev(v, env) for k, v in zip(e.keys, e.values)}

    def x_JoinedStr(self, e, env):
        out = []
        for x in e.values:
            out.append(x.value if isinstance(x, ast.Constant) else self.ev(x.value, env))
        if len(out) in (2, 3) and out[-1] == "s" and isinstance(out[-2], Sym) and out[-2].kind == "int":
            return ("text", out[-2])
        if all(isinstance(x, (str, int)) for x in out):
            return "".join(str(x) for x in out)
        return Any("string")

    def x_IfExp(self, e, env):
        return self.ev(e.body if self.truth(self.ev(e.test, env)) else e.orelse, env)

    def x_NamedExpr(self, e, env):
        v = self.ev(e.value, env)
        self.bind(e.target, v, env)
        return v

    def x_Lambda(self, e, env):
        return ("fun", e, env)

    def x_Compare(self, e, env):
        if len(e.ops) > 1:
            raise Undecided("comparison")
        a, b = self.ev(e.left, env), self.ev(e.comparators[0], env)
        for x in (a, b):
            if isinstance(x, Sym) and x.kind in ("eof", "raw"):
                y = b if x is a else a
                if y == b"" or y == 0:
                    r = x.kind == "eof"
                    return r if isinstance(e.ops[0], (ast.Eq, ast.Is)) else not r
        if isinstance(a, (Any, Sym)) or isinstance(b, (Any, Sym)):
            raise Undecided("comparison of %r and %r" % (a, b))
        o = type(e.ops[0]).__name__
        return {"Eq": lambda: a == b, "NotEq": lambda: a != b, "Lt": lambda: a < b, "LtE": lambda: a <= b, "Gt": lambda: a > b, "GtE": lambda: a >= b,
                "In": lambda: a in b, "NotIn": lambda: a not in b, "Is": lambda: a is b, "IsNot": lambda: a is not b}[o]()

    def x_BoolOp(self, e, env):
        v = None
        for x in e.values:
            v = self.ev(x, env)
            if self.truth(v) != isinstance(e.op, ast.And):
                return v
        return v

    def x_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not):
            return not self.truth(v)
        if isinstance(v, (int, float)) and isinstance(e.op, (ast.USub, ast.UAdd)):
            return -v if isinstance(e.op, ast.USub) else v
        return Any("value")

    def x_BinOp(self, e, env):
        a, b = self.ev(e.left, env), self.ev(e.right, env)
        if isinstance(a, (int, float)) and isinstance(b, (int, float)):
            o = type(e.op).__name__
            return {"Add": lambda: a + b, "Sub": lambda: a - b, "Mult": lambda: a * b, "Div": lambda: a / b, "FloorDiv": lambda: a // b}.get(o, lambda: Any("value"))()
        if isinstance(e.op, ast.Add) and isinstance(a, (list, str)) and type(a) is type(b):
            return a + b
        if isinstance(a, Sym) and a.kind == "int" and isinstance(b, int):
            o = {"Add": add, "Sub": sub, "Mult": mul}.get(type(e.op).__name__)
            if o:
                return Sym("int", canon(o(a.t, num(b))))
        return Any("value")

    def x_Subscript(self, e, env):
        v, i = self.ev(e.value, env), self.ev(e.slice, env)
        if isinstance(v, (list, tuple, dict)) and isinstance(i, (int, bytes, str)) and not (isinstance(v, tuple) and v and v[0] in ("fun", "method")):
            try:
                return v[i]
            except (KeyError, IndexError):
                raise Undecided("subscript")
        if isinstance(v, list) and isinstance(i, Any):
            return v[0]
        if isinstance(v, Any):
            if v.name.endswith(".c_"):
                return ("columns",) + (i if isinstance(i, tuple) else (i,))
            return Any(v.name + "[]")
        raise Undecided("subscript of %r" % (v,))

    def x_Slice(self, e, env):
        return Any("slice")

    def x_ListComp(self, e, env):
        g = e.generators[0]
        if len(e.generators) > 1 or g.ifs:
            raise Undecided("comprehension")
        it = self.ev(g.iter, env)
        env = dict(env)
        if isinstance(it, Sym) and it.kind == "range":
            out = []
            self.repeat(it, lambda: out.append(self.ev(e.elt, env)), g.target, env)
            return out
        if isinstance(it, list):
            out = []
            for x in it:
                self.bind(g.target, x, env)
                out.append(self.ev(e.elt, env))
            return out
        return Any("list")

    x_GeneratorExp = x_ListComp

    def x_Call(self, e, env):
        f = self.ev(e.func, env)
        a = [self.ev(x, env) for x in e.args]
        kw = {k.arg: self.ev(k.value, env) for k in e.keywords}
        if isinstance(f, tuple) and f[0] == "fun":
            return self.call(f, a, kw)
        if isinstance(f, tuple) and f[0] == "method":
            return self.method(f[1], f[2], a, kw)
        n = f.name if isinstance(f, Any) else "?"
        if n == "open":
            mode = kw.get("mode", a[1] if len(a) > 1 else "r")
            if isinstance(mode, str) and "b" not in mode:
                raise Bad("opens the file as text")
            return ("file",)
        if n.split(".")[-1] == "unpack" and len(a) == 2:
            return self.unpack(a[0], a[1])
        if n == "int.from_bytes":
            v = a[0]
            order = a[1] if len(a) > 1 else kw.get("byteorder", "big")
            if isinstance(v, Sym) and v.kind == "raw" and v.t.op == "int":
                return Sym("int" if order == "little" else "swapped", v.t.a[0])
            raise Undecided("from_bytes")
        if n.endswith(("calcsize",)) and a and isinstance(a[0], str):
            return {"i": 4, "c": 1, "q": 8, "h": 2}.get(a[0].lstrip("<>=!"), Any("size"))
        if n == "range":
            if len(a) == 1 and isinstance(a[0], Sym) and a[0].kind == "int":
                return Sym("range", a[0].t)
            if len(a) == 1 and isinstance(a[0], Sym) and a[0].kind == "swapped":
                raise Bad("the record count is read with the wrong byte order")
            if all(isinstance(x, int) for x in a):
                return list(range(*a))
        if n == "len" and isinstance(a[0], (list, str, bytes)):
            return len(a[0])
        if n in ("list", "tuple") and not a:
            return []
        if n in ("float", "int", "str") and a and isinstance(a[0], (int, float)):
            return {"float": float, "int": int, "str": str}[n](a[0])
        if n.split(".")[-1] == "column_stack" and a:
            return ("columns",) + tuple(a[0])
        fr = [x for x in list(a) + list(kw.values()) if isinstance(x, tuple) and x and x[0] == "fun" and isinstance(x[1], ast.FunctionDef)]
        self.calls.append((n.split(".")[-1], a, kw))
        for x in fr:
            try:
                self.call(x, [Any("i") for _ in x[1].args.args], {})
            except EOF:
                raise Undecided("callback reads the file")
        return Any(n + "()")

    def call(self, f, a, kw):
        fn, outer = f[1], f[2]
        if isinstance(fn, ast.Lambda):
            env = dict(outer)
            for p, x in zip(fn.args.args, a):
                env[p.arg] = x
            return self.ev(fn.body, env)
        env = dict(outer)
        for p, x in zip(fn.args.args, a):
            env[p.arg] = x
        env.update(kw)
        self.ret = None
        try:
            self.block(fn.body, env)
        except Ret:
            pass
        return self.ret

    def method(self, o, n, a, kw):
        if o == ("file",):
            if n == "read":
                if not a:
                    raise Undecided("read()")
                return self.read(a[0])
            return Any(n)
        if isinstance(o, list):
            if n == "append":
                o.append(a[0])
                return None
            if n == "extend" and isinstance(a[0], list):
                o.extend(a[0])
                return None
            if n == "copy":
                return list(o)
            if n == "clear":
                o.clear()
                return None
            raise Undecided("list." + n)
        if isinstance(o, dict) and n == "get":
            return o.get(a[0], a[1] if len(a) > 1 else None)
        if isinstance(o, Sym) and o.kind == "text" and n == "decode":
            return o
        if isinstance(o, Sym) and o.kind == "raw" and n == "decode":
            if o.t.op != "bytes":
                if o.t.op == "char" and isnum(o.t.a[0]):
                    return chr(int(o.t.a[0].a[0]))
                raise Bad("takes %s for text" % show(o.t))
            return Sym("text", o.t.a[0])
        if isinstance(o, bytes) and n == "decode":
            return o.decode()
        if isinstance(o, str) or isinstance(o, bytes):
            return Any("string")
        raise Undecided("%r.%s" % (o, n))


# ---------------------------------------------------------------- rules

def header_ok(xs):
    """every header field is preceded by its own length"""
    got = []
    k = 0
    while k < len(xs):
        x = xs[k]
        if x[0] != "w":
            raise Undecided("header " + str(x)[:300])
        if x[1].op == "bytes":
            src = x[1].a[0]
            if canon(x[2]) is not canon(length(src)):
                return "writes %s bytes of %s" % (show(x[2]), show(src))
            if not got or got[-1] != ("n", length(src)):
                return "the length of %s is not written before it" % show(src)
            got[-1] = ("text", src)
        elif x[1].op == "int":
            if x[2] is not num(4):
                return "%s is written with %s bytes" % (show(x[1].a[0]), show(x[2]))
            t = x[1].a[0]
            got.append(("n", t) if t.op == "len" or t.op.startswith("dim") else ("int", t))
        else:
            raise Undecided("header field " + show(x[1]))
        k += 1
    want = [("text", sym(n)) for n in HEAD[:3]] + [("int", sym(n)) for n in HEAD[3:]]
    if len(got) != 5 or any(w not in got for w in want):
        return "the header holds " + ", ".join("%s %s" % (a, show(b)) for a, b in got)


def adds(xs):
    """(count, record items, row, col, value)"""
    if len(xs) != 2 or xs[0][0] != "w" or xs[1][0] != "rep":
        raise Undecided("layout of a matrix: %s" % [x[0] for x in xs])
    (_, cnt, size), (_, idx, body) = xs
    if cnt.op != "int":
        raise Undecided("record count " + show(cnt))
    if size is not num(4):
        raise Bad("the number of records has %s bytes" % show(size))
    if len(body) == 1 and body[0][0] == "rep":
        idx, body = tuple(idx) + tuple(body[0][1]), body[0][2]
    if len(idx) != 2:
        raise Undecided("records are written by %d loops" % len(idx))
    (k, lo, hi), (j, lo2, hi2) = idx
    m = sym("mat")
    if lo is not ZERO or lo2 is not ZERO or canon(hi) not in (raw("dim:outerSize", m), raw("dim:cols", m)) or canon(hi2) is not raw("nzcount", m, k):
        if {x.op for x in TM.walk(raw("x", lo, hi, lo2, hi2))} <= {"x", "num", "sym", "bv", "nzcount", "dim:outerSize", "dim:cols", "dim:rows", "dim:nonZeros", "dim:innerSize", "poly", "+", "*", "add"}:
            raise Bad("the records range over %s to %s and %s to %s" % (show(lo), show(hi), show(lo2), show(hi2)))
        raise Undecided("range of the records")
    if canon(cnt.a[0]) is not raw("dim:nonZeros", m):
        raise Bad("%s records are announced, %s are written" % (show(cnt.a[0]), "the number of stored entries"))
    cell = tuple(raw(n, m, k, j) for n in ("nzrow", "nzcol", "nzvalue"))
    return raw("dim:nonZeros", m), body, cell


def layout(xs, tree, sign):
    """the reader's result for one header and two matrices"""
    cnt, body, (r, c, v) = adds(xs["add"])
    body = resolve(body, truth_of(SIGNS[sign][0], v))
    mat = [("w", raw("int", cnt), num(4)), ("rep", cnt, body)]
    rd = Reader(tree, xs["head"] + mat + mat, sign)
    try:
        env = rd.run("plot_csv")
    except EOF:
        raise Bad("the end of the file is not handled")
    if rd.stream:
        raise Bad("%d fields of the file are not read" % len(rd.stream))
    return rd, (r, c, v)


def record_ok(xs, sign):
    cnt, body, (r, c, v) = adds(xs["add"])
    body = resolve(body, truth_of(SIGNS[sign][0], v))
    got = [(x[1], x[2]) for x in body if x[0] == "w"]
    ints = [x for x, s in got if x.op == "int"]
    ch = [x for x, s in got if x.op == "char"]
    if len(got) != len(body) or len(ints) != 2 or len(ch) != 1 or len(got) != 3:
        return "a %s entry is recorded as %s" % (sign, ", ".join(show(x) for x, s in got) or "nothing")
    if {ints[0].a[0], ints[1].a[0]} != {r, c}:
        return "a %s entry is recorded at %s, %s" % (sign, show(ints[0].a[0]), show(ints[1].a[0]))
    if not isnum(ch[0].a[0]):
        raise Undecided("sign " + show(ch[0]))
    if int(ch[0].a[0].a[0]) != SIGNS[sign][1][0]:
        return "a %s entry is marked '%c'" % (sign, int(ch[0].a[0].a[0]))
    if any(s is not num(4) for x, s in got if x.op == "int"):
        return "a position is written with the wrong width"


def same(v, kind, t):
    return isinstance(v, Sym) and v.kind == kind and v.t is t


def shown_ok(rd, cell, sign):
    """the plot shows each entry at (column, row) with its sign"""
    r, c, v = cell
    val = SIGNS[sign][2]
    n = 0
    for name, a, kw in rd.calls:
        if name == "scatter" and len(a) >= 2:
            x, y, col = a[0], a[1], kw.get("c", a[3] if len(a) > 3 else None)
        elif name == "set_offsets" and a and isinstance(a[0], tuple) and a[0][0] == "columns" and len(a[0]) == 3:
            x, y, col = a[0][1], a[0][2], None
        elif name == "set_array" and a and isinstance(a[0], list):
            x = y = None
            col = a[0]
        else:
            continue
        n += 1
        for got, want, what in ((x, c, "column"), (y, r, "row")):
            if got is None:
                continue
            if not isinstance(got, list) or len(got) != 1:
                if isinstance(got, list):
                    return "%s shows %d positions per entry" % (name, len(got))
                raise Undecided("%s(%r)" % (name, got))
            if not same(got[0], "int", want):
                return "%s puts the %s at %s" % (name, what, got[0])
        if col is not None:
            if not isinstance(col, list) or len(col) != 1 or isinstance(col[0], (Any, Sym)):
                if isinstance(col, list) and len(col) != 1:
                    return "%s colors %d points per entry" % (name, len(col))
                raise Undecided("%s(%r)" % (name, col))
            if (col[0] > 0) - (col[0] < 0) != (val > 0) - (val < 0):
                return "%s shows a %s entry as %s" % (name, sign, col[0])
    if n == 0:
        raise Undecided("nothing is shown")


def labels_ok(rd):
    want = {"set_title": ("text", "title"), "set_xlabel": ("text", "col_label"), "set_ylabel": ("text", "row_label"), "set_xlim": ("int", "cols"), "set_ylim": ("int", "rows")}
    seen = 0
    for name, a, kw in rd.calls:
        if name in want and a:
            k, s = want[name]
            v = [x for x in a if isinstance(x, Sym)]
            if len(v) != 1:
                raise Undecided(name)
            seen += 1
            if not same(v[0], k, sym(s)):
                return "%s is given %r" % (name, v[0])
    if not seen:
        raise Undecided("no labels")


SHAPES = {"H": ("m_decision_variables", "m_decision_variables"), "A_e": ("m_equality_constraints", "m_decision_variables"), "A_i": ("m_inequality_constraints", "m_decision_variables")}


def recorded(R, n):
    import chk_problem as C
    S = C.solved(R, TRUE)
    a, st = S.calls[n]
    got = canon(a[1])
    info = sym("info")
    out = []
    while got.op == "push":
        c = got.a[1]
        if c.op != "clo":
            raise Undecided("callback " + show(c)[:80])
        s2 = st.copy()
        S.P.adds.clear()
        S.I.call_closure(s2, None, c, [S.I.alloc(s2, info, "info")])
        out += S.P.adds
        got = got.a[0]
    need = {"newton": ["H"], "sqp": ["H", "A_e"], "interior_point": ["H", "A_e", "A_i"]}[n]
    files = {}
    for o, args in out:
        o = canon(o)
        while o.op in ("deref", "obj", "init") and o.a and hasattr(o.a[0], "op"):
            o = o.a[0]
        if o.op != "Spy" or len(o.a) != 6 or any(x.op != "strv" for x in o.a[:4]):
            raise Undecided("recording " + show(o)[:150])
        m = canon(args[0])
        if m.op != "fld" or m.a[1] is not info and m.a[0] is not info:
            raise Undecided("recorded matrix " + show(m)[:100])
        k = [x for x in m.a if isinstance(x, str)]
        k = k[0].split("::")[-1] if k else show(m).split(".")[-1]
        f, title, rl, cl = (x.a[0] for x in o.a[:4])
        if f in files:
            return "%s receives %s and %s" % (f, files[f], k)
        files[f] = k
        if k not in SHAPES:
            return "%s is recorded in %s" % (k, f)
        if f != k + ".spy":
            return "%s receives %s" % (f, k)
        want = [canon(length(C.member(S.this, x))) for x in SHAPES[k]]
        if [canon(x) for x in o.a[4:]] != want:
            return "%s is announced as %s by %s" % (f, show(o.a[4]), show(o.a[5]))
        if ("onstraint" in rl) != (k != "H") or "onstraint" in cl:
            return "rows of %s are labelled '%s', columns '%s'" % (f, rl, cl)
    miss = [k for k in need if k not in files.values()]
    if miss:
        return "%s is not recorded" % miss[0]


@check("U04", "The recorder's writes are extracted as a layout (fields, widths, loops, conditions) by abstract execution, the reader's syntax tree is interpreted over that layout with symbolic contents, and every field must come out as what it went in as; each solver's recordings must hold the matrix, shape and labels they announce.", expect=3)
def u04(R):
    u = R.unit("util")
    fs = [f for f in u.fns.values() if f["q"].startswith("slp::Spy<") and "body" in f]
    ctor = [f for f in fs if f.get("isctor") and len(f["params"]) == 6]
    add_ = [f for f in fs if f["n"] == "add"]
    if not ctor or not add_:
        raise Broken("slp::Spy not found")
    R.saw(u, fs)
    R.sites = 0
    xs = {}

    def guard(fn):
        def g():
            try:
                return fn()
            except Bad as ex:
                return str(ex)
        return g
    for key, f in (("head", ctor[0]), ("add", add_[0])):
        def lay(key=key, f=f):
            xs[key] = joined(items(written(u, f)))
            R.sites += len(xs[key])
        R.check("layout written by " + f["n"], u.loc(f), guard(lay))
    if "head" in xs:
        R.check("header", u.loc(ctor[0]), guard(lambda: header_ok(xs["head"])))
    if "add" in xs:
        for s in SIGNS:
            R.check("record of a %s entry" % s, u.loc(add_[0]), guard(lambda: record_ok(xs, s)))
    path = os.path.join(REPO, "tools/spy.py")
    if os.path.exists(path) and len(xs) == 2:
        tree = ast.parse(open(path, encoding="utf-8").read())
        for s in SIGNS:
            got = []
            R.check("reader, %s entries" % s, "tools/spy.py", guard(lambda: got.append(layout(xs, tree, s)) or None))
            if got:
                rd, cell = got[0]
                R.check("plot of %s entries" % s, "tools/spy.py", guard(lambda: shown_ok(rd, cell, s)))
                R.check("labels, %s entries" % s, "tools/spy.py", guard(lambda: labels_ok(rd)))
    for n in ("newton", "sqp", "interior_point"):
        R.check("recordings of " + n, "problem.hpp", guard(lambda: recorded(R, n)))
