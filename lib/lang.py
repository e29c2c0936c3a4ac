"""Typed random Nature programs together with a reference evaluation.

Every generated expression is a triple (type, source text, evaluator) and
every statement a pair (source lines, executor), so the expected behaviour is
computed by construction, without parsing anything."""
import math
import struct

INTS = ["i8", "i16", "i32", "i64", "u8", "u16", "u32", "u64"]
WIDTH = {"i8": 8, "i16": 16, "i32": 32, "i64": 64, "u8": 8, "u16": 16, "u32": 32, "u64": 64, "int": 64, "uint": 64}
FLOATS = ["f64", "f32"]


def is_int(t):
    return t in WIDTH


def signed(t):
    return t[0] == "i"


def lo(t):
    return -(1 << (WIDTH[t] - 1)) if signed(t) else 0


def hi(t):
    return (1 << (WIDTH[t] - 1)) - 1 if signed(t) else (1 << WIDTH[t]) - 1


def wrap(t, v):
    w = WIDTH[t]
    v &= (1 << w) - 1
    if signed(t) and v >> (w - 1):
        v -= 1 << w
    return v


def f32r(x):
    if x != x or x in (math.inf, -math.inf):
        return x
    try:
        return struct.unpack("<f", struct.pack("<f", x))[0]
    except OverflowError:
        return math.copysign(math.inf, x)


def fround(t, x):
    return f32r(x) if t == "f32" else x


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def trem(a, b):
    return a - b * tdiv(a, b)


def fdiv(a, b):
    if b == 0:
        if a == 0 or a != a:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1.0, b)
    return a / b


def fmul(a, b):
    try:
        return a * b
    except OverflowError:
        return math.inf


def int_to_float(t, v):
    """correctly rounded conversion (round to nearest even)"""
    if t == "f64":
        return float(v)
    # python int -> f32 without double rounding
    if v == 0:
        return 0.0
    s = -1.0 if v < 0 else 1.0
    m = abs(v)
    bl = m.bit_length()
    if bl <= 24:
        return s * float(m)
    sh = bl - 24
    q, r = m >> sh, m & ((1 << sh) - 1)
    half = 1 << (sh - 1)
    if r > half or (r == half and q & 1):
        q += 1
    return s * float(q) * float(2 ** sh)


def show_float(t, v):
    """bit pattern, NaN canonical"""
    if v != v:
        return "1"
    if t == "f32":
        return str(struct.unpack("<I", struct.pack("<f", v))[0])
    return str(struct.unpack("<Q", struct.pack("<d", v))[0])


FBITS = """fn @@fb(f64 x):u64 {
    anyptr a = &x as anyptr
    ptr<u64> p = a as ptr<u64>
    u64 r = *p
    if (r & 0x7fffffffffffffff) > 0x7ff0000000000000 {
        return 1
    }
    return r
}
fn @@sb(f32 x):u32 {
    anyptr a = &x as anyptr
    ptr<u32> p = a as ptr<u32>
    u32 r = *p
    if (r & 0x7fffffff) > 0x7f800000 {
        return 1
    }
    return r
}
"""


class Frame(dict):
    __slots__ = ()


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Fuel(Exception):
    pass


class Excluded(Exception):
    """the program reaches a recorded known finding"""


class Ctx:
    """execution state of one evaluation"""

    def __init__(self, fuel=200000):
        self.out = []
        self.fuel = fuel

    def tick(self):
        self.fuel -= 1
        if self.fuel < 0:
            raise Fuel()


class E:
    __slots__ = ("t", "s", "ev", "lit", "const")

    def __init__(self, t, s, ev, lit=False):
        self.t, self.s, self.ev, self.lit = t, s, ev, lit


def tname(t):
    if isinstance(t, str):
        return t
    k = t[0]
    if k == "arr":
        return "[%s;%d]" % (tname(t[1]), t[2])
    if k == "vec":
        return "[%s]" % tname(t[1])
    if k == "tup":
        return "(" + ", ".join(tname(x) for x in t[1]) + ")"
    if k == "st":
        return t[1]
    if k == "fn":
        return "fn(%s):%s" % (", ".join("%s a%d" % (tname(x), i) for i, x in enumerate(t[1])), tname(t[2]))
    raise ValueError(t)


def copyval(t, v):
    """value semantics of assignment"""
    if isinstance(t, str) or t[0] in ("vec", "fn"):
        return v
    if t[0] == "arr":
        return [copyval(t[1], x) for x in v]
    if t[0] == "tup":
        return [copyval(tt, x) for tt, x in zip(t[1], v)]
    if t[0] == "st":
        return {n: copyval(ft, v[n]) for n, ft in t[2]}
    raise ValueError(t)


class Prof:
    """feature weights"""

    def __init__(self, **k):
        self.types = k.get("types", INTS)           # scalar types used
        self.bools = k.get("bools", True)
        self.calls = k.get("calls", True)
        self.loops = k.get("loops", True)
        self.ternary = k.get("ternary", True)
        self.match = k.get("match", True)
        self.casts = k.get("casts", True)
        self.aggs = k.get("aggs", False)
        self.vecs = k.get("vecs", False)
        self.closures = k.get("closures", False)
        self.strings = k.get("strings", False)
        self.max_params = k.get("max_params", 6)
        self.max_fns = k.get("max_fns", 3)
        self.max_stmts = k.get("max_stmts", 8)
        self.max_depth = k.get("max_depth", 4)
        self.prints = k.get("prints", True)
        self.fcalls = k.get("fcalls", True)
        self.max_vars = k.get("max_vars", 40)
        self.early_ret = k.get("early_ret", True)
        self.float_cast = k.get("float_cast", True)
        self.logic = k.get("logic", True)
        self.divs = k.get("divs", True)
        self.rets = k.get("rets", None)
        self.globals = k.get("globals", False)
        self.noise = k.get("noise", None)            # statements without an effect on the computation
        self.fops = k.get("fops", ["+", "-", "*", "/"])
        self.cross = k.get("cross", False)           # output through the C functions xp_<type> and xp_nl


class Func:
    def __init__(self, name, params, ret):
        self.name, self.params, self.ret = name, params, ret
        self.body = None

    def call(self, ctx, args):
        ctx.tick()
        fr = Frame()
        for (n, t), a in zip(self.params, args):
            fr[n] = [copyval(t, a)]
        try:
            self.body(ctx, fr)
        except Ret as r:
            return r.v
        return None


class Gen:
    def __init__(self, d, prof):
        self.d = d
        self.p = prof
        self.n = 0
        self.funcs = []
        self.structs = []
        self.decls = []
        self.feats = set()
        self.scopes = []
        self.loop_depth = 0
        self.in_loop = 0
        self.stmts_left = 60
        self.cur = None
        self.globals = []
        self.nprint = 0
        self.use_fbits = False
        self.ops = 0

    # ---------------------------------------------------------- names, scope
    def fresh(self, p="v"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def vars_of(self, t, assign=False):
        r = []
        for sc in self.scopes:
            for (n, vt, w) in sc:
                if vt == t and (w or not assign):
                    r.append(n)
        return r

    def all_vars(self, pred):
        return [(n, t) for sc in self.scopes for (n, t, w) in sc if pred(n, t, w)]

    # ---------------------------------------------------------- types
    def scalar_type(self):
        return self.d.choice(self.p.types)

    def any_type(self, depth=2):
        p = self.p
        if p.aggs and depth > 0 and self.d.bool(1, 3):
            k = self.d.below(3)
            if k == 0 and self.structs:
                return self.d.choice(self.structs)
            if k == 1:
                return ("arr", self.any_type(depth - 1), self.d.int(1, 4))
            return ("tup", tuple(self.any_type(depth - 1) for _ in range(self.d.int(2, 4))))
        if p.bools and self.d.bool(1, 8):
            return "bool"
        return self.scalar_type()

    def new_struct(self):
        n = self.d.int(1, 6)
        fields = tuple((self.fresh("m"), self.any_type(1)) for _ in range(n))
        nm = "@@" + self.fresh("S")
        t = ("st", nm, fields)
        self.decls.append("type %s = struct {\n%s\n}" % (nm, "\n".join("    %s %s" % (tname(ft), fn) for fn, ft in fields)))
        self.structs.append(t)
        return t

    # ---------------------------------------------------------- literals
    def int_value(self, t):
        d = self.d
        k = d.below(10)
        if k <= 3:
            v = d.int(0, 9)
        elif k <= 5:
            v = d.choice([hi(t), lo(t), hi(t) - 1, lo(t) + 1, hi(t) // 2, hi(t) // 2 + 1, hi(t) // 3])
        elif k == 6:
            v = 1 << d.below(WIDTH[t])
        elif k == 7:
            v = (1 << d.below(WIDTH[t])) - 1
        else:
            v = d.below(1 << WIDTH[t])
        v = wrap(t, v)
        if signed(t) and d.bool(1, 3):
            v = wrap(t, -v)
        return v

    def int_text(self, v):
        d = self.d
        if v < 0:
            return str(v)
        k = d.below(8)
        if k == 5:
            return "0x%x" % v
        if k == 6:
            return "0b" + bin(v)[2:]
        if k == 7:
            return "0o" + oct(v)[2:]
        return str(v)

    def lit(self, t, bare=False):
        d = self.d
        if t == "bool":
            b = d.bool()
            return E(t, "true" if b else "false", lambda c, f: b, True)
        if is_int(t):
            v = self.int_value(t)
            txt = self.int_text(v)
            s = txt if bare else "(%s as %s)" % (txt, t)
            return E(t, s, lambda c, f: v, True)
        if t in FLOATS:
            v, txt = self.float_lit(t)
            s = txt if bare and t == "f64" else "(%s as %s)" % (txt, t)
            return E(t, s, lambda c, f: v, True)
        if t == "string":
            v = "".join(d.choice("abcxyz 019_-") for _ in range(d.int(0, 6)))
            return E(t, "'%s'" % v, lambda c, f: v, True)
        raise ValueError(t)

    def float_lit(self, t):
        d = self.d
        k = d.below(5)
        if k <= 1:
            m = d.int(0, 99)
            txt = "%d.%d" % (m // 10, m % 10)
        elif k == 2:
            txt = "%d.0" % (1 << d.below(40))
        elif k == 3:
            txt = "%d.%06d" % (d.int(0, 100000), d.below(1000000))
        else:
            txt = "0.%08d" % d.below(100000000)
        v = float(txt)
        if d.bool(1, 4):
            v, txt = -v, "-" + txt
        return fround(t, v), txt

    # ---------------------------------------------------------- expressions
    def var_expr(self, n, t):
        return E(t, n, lambda c, f: f[n][0])

    def leaf(self, t):
        d = self.d
        vs = self.vars_of(t)
        if vs and not d.bool(1, 5):
            return self.var_expr(d.choice(vs), t)
        pl = self.places(t)
        if pl and d.bool(1, 2):
            return self.place_expr(d.choice(pl), t)
        if isinstance(t, str):
            return self.lit(t)
        return self.construct(t, 0)

    def construct(self, t, depth):
        d = self.d
        if t[0] == "arr":
            es = [self.expr(t[1], depth - 1) for _ in range(t[2])]
            # the literal needs a typed context: see typed_value
            return E(t, "[" + ", ".join(e.s for e in es) + "]", lambda c, f: [copyval(t[1], e.ev(c, f)) for e in es])
        if t[0] == "tup":
            es = [self.expr(x, depth - 1) for x in t[1]]
            return E(t, "(" + ", ".join(e.s for e in es) + ")",
                     lambda c, f: [copyval(x, e.ev(c, f)) for x, e in zip(t[1], es)])
        if t[0] == "st":
            es = [(n, ft, self.expr(ft, depth - 1)) for n, ft in t[2]]
            return E(t, "%s{%s}" % (t[1], ", ".join("%s: %s" % (n, e.s) for n, _, e in es)),
                     lambda c, f: {n: copyval(ft, e.ev(c, f)) for n, ft, e in es})
        raise ValueError(t)

    def places(self, t, assign=False, maxlen=3):
        """access paths of type t inside aggregate variables: (text, path)"""
        if not self.p.aggs:
            return []
        out = []

        def walk(name, vt, path, text, left):
            if vt == t and path:
                out.append((name, tuple(path), text))
            if left == 0 or isinstance(vt, str):
                return
            if vt[0] == "st":
                for fn, ft in vt[2]:
                    walk(name, ft, path + [fn], text + "." + fn, left - 1)
            elif vt[0] == "arr":
                for i in {0, vt[2] - 1}:
                    walk(name, vt[1], path + [i], text + "[%d]" % i, left - 1)
            elif vt[0] == "tup":
                for i, x in enumerate(vt[1]):
                    walk(name, x, path + [i], text + "[%d]" % i, left - 1)
        for sc in self.scopes:
            for n, vt, w in sc:
                if not isinstance(vt, str) and (w or not assign):
                    walk(n, vt, [], n, maxlen)
        return out

    def place_expr(self, pl, t):
        n, path, text = pl

        def ev(c, f):
            v = f[n][0]
            for k in path:
                v = v[k]
            return v
        return E(t, text, ev)

    def dyn_index(self, t, depth):
        """element of an array variable selected by a computed index"""
        cands = self.all_vars(lambda n, vt, w: not isinstance(vt, str) and vt[0] == "arr" and vt[1] == t)
        if not cands:
            return None
        n, vt = self.d.choice(cands)
        i = self.expr("u8", depth - 1) if "u8" in self.p.types else self.expr("i64", depth - 1)
        ln = vt[2]
        it = i.t
        s = "%s[(%s %% %d) as int]" % (n, i.s, ln) if it == "u8" else "%s[((%s & 0xff) %% %d)]" % (n, i.s, ln)
        return E(t, s, lambda c, f: f[n][0][(i.ev(c, f) & 0xff) % ln])

    def expr(self, t, depth=None):
        d = self.d
        if depth is None:
            depth = d.int(0, self.p.max_depth)
        if depth <= 0:
            return self.leaf(t)
        self.ops += 1
        if t == "bool":
            return self.bool_expr(depth)
        if is_int(t):
            return self.int_expr(t, depth)
        if t in FLOATS:
            return self.float_expr(t, depth)
        if t == "string":
            return self.str_expr(depth)
        # aggregate
        k = d.below(4)
        if k == 1 and self.p.calls:
            e = self.call_expr(t, depth)
            if e:
                return e
        if k == 2:
            return self.construct(t, depth)
        if k == 3:
            e = self.dyn_index(t, depth)
            if e:
                return e
        return self.leaf(t)

    def bool_expr(self, depth):
        d = self.d
        k = d.below(8)
        if k <= 3:
            t = self.scalar_type()
            a = self.expr(t, depth - 1)
            op = d.choice(["==", "!=", "<", "<=", ">", ">="])
            b = self.rhs(t, depth - 1, a)
            fn = {"==": lambda x, y: x == y, "!=": lambda x, y: x != y, "<": lambda x, y: x < y,
                  "<=": lambda x, y: x <= y, ">": lambda x, y: x > y, ">=": lambda x, y: x >= y}[op]
            self.feats.add("cmp" + op)
            if t in ("f32", "f64"):
                def ev(c, f):
                    x, y = a.ev(c, f), b.ev(c, f)
                    if x != x or y != y:
                        raise Excluded()  # known finding: comparisons with NaN
                    return fn(x, y)
                return E("bool", "(%s %s %s)" % (a.s, op, b.s), ev)
            return E("bool", "(%s %s %s)" % (a.s, op, b.s), lambda c, f: fn(a.ev(c, f), b.ev(c, f)))
        if k == 4:
            a = self.expr("bool", depth - 1)
            return E("bool", "(!%s)" % par(a), lambda c, f: not a.ev(c, f))
        if k in (5, 6) and self.p.logic:
            a, b = self.expr("bool", depth - 1), self.expr("bool", depth - 1)
            self.feats.add("logic")
            if k == 5:
                return E("bool", "(%s && %s)" % (a.s, b.s), lambda c, f: a.ev(c, f) and b.ev(c, f))
            return E("bool", "(%s || %s)" % (a.s, b.s), lambda c, f: a.ev(c, f) or b.ev(c, f))
        e = self.call_expr("bool", depth) if self.p.calls else None
        return e or self.leaf("bool")

    def rhs(self, t, depth, left):
        """right operand; a literal may stand bare when the left one is typed"""
        d = self.d
        if not left.lit and is_int(t) and d.bool(1, 5):
            return self.lit(t, bare=True)
        return self.expr(t, depth)

    def cast(self, t, depth):
        d = self.d
        p = self.p
        srcs = [x for x in p.types if x != t and (is_int(x) or (p.float_cast and x in FLOATS))]
        if not srcs:
            return self.leaf(t)
        st = d.choice(srcs)
        if is_int(t):
            if is_int(st):
                a = self.nolit(st, depth - 1)
                self.feats.add("cast")
                return E(t, "(%s as %s)" % (a.s, t), lambda c, f: wrap(t, a.ev(c, f)))
            # float -> int: only values certain to be in range
            it = "i8" if signed(t) else "u8"
            a = self.nolit(it, depth - 1) if it in p.types else None
            if a is None:
                return self.leaf(t)
            fr = d.choice(["0.25", "0.5", "0.75", "0.0"])
            self.feats.add("f2i")
            # ((a as f64) + fr) as t, truncation toward zero
            if not signed(t):
                return E(t, "((((%s as %s) + (%s as %s))) as %s)" % (a.s, st, fr, st, t),
                         lambda c, f: int(fround(st, float(a.ev(c, f)) + float(fr))))
            return E(t, "((((%s as %s) + (%s as %s))) as %s)" % (a.s, st, fr, st, t),
                     lambda c, f: wrap(t, int(fround(st, float(a.ev(c, f)) + float(fr)))) if t != "i8" or True else 0)
        # -> float
        if is_int(st):
            a = self.nolit(st, depth - 1)
            self.feats.add("i2f")
            return E(t, "(%s as %s)" % (a.s, t), lambda c, f: int_to_float(t, a.ev(c, f)))
        a = self.nolit(st, depth - 1)
        self.feats.add("f2f")
        return E(t, "(%s as %s)" % (a.s, t), lambda c, f: fround(t, a.ev(c, f)))

    def nolit(self, t, depth):
        """an expression that is not a bare literal (literal casts are range checked)"""
        e = self.expr(t, depth)
        if e.lit:
            vs = self.vars_of(t)
            if vs:
                return self.var_expr(self.d.choice(vs), t)
            return E(t, self.opaque(t, e.s), e.ev)
        return e

    def opaque(self, t, text):
        if self.p.cross == "arm64":                  # without a call
            nm = "@@%s" % self.fresh("lit")
            self.decls.append("%s %s = %s" % (t, nm, text))
            return nm
        return "%s(%s)" % (self.idfn(t), text)

    def idfn(self, t):
        nm = "@@id_%s" % t
        src = "fn %s(%s x):%s {\n    return x\n}" % (nm, t, t)
        if src not in self.decls:
            self.decls.append(src)
        return nm

    def int_expr(self, t, depth):
        d = self.d
        p = self.p
        k = d.below(20)
        w = WIDTH[t]
        if k <= 7:
            op = d.choice(["+", "-", "*", "&", "|", "^"])
            a = self.expr(t, depth - 1)
            b = self.rhs(t, depth - 1, a)
            fn = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y,
                  "&": lambda x, y: x & y, "|": lambda x, y: x | y, "^": lambda x, y: x ^ y}[op]
            self.feats.add("op" + op)
            return E(t, "(%s %s %s)" % (a.s, op, b.s), lambda c, f: wrap(t, fn(a.ev(c, f), b.ev(c, f))))
        if k <= 9 and p.divs:
            a = self.expr(t, depth - 1)
            op = d.choice(["/", "%"])
            fn = tdiv if op == "/" else trem
            self.feats.add("op" + op)
            if d.bool():
                # constant divisor, never 0 or -1
                v = self.int_value(t)
                if v in (0, -1):
                    v = 3
                a = self.nolit_of(a)
                return E(t, "(%s %s %s)" % (a.s, op, "%d" % v if v >= 0 else "(%d)" % v),
                         lambda c, f: wrap(t, fn(a.ev(c, f), v)))
            b = self.expr(t, depth - 1)
            if signed(t) and d.bool(1, 3):
                # -2 .. -127
                return E(t, "(%s %s (-(((%s & 0x7d) | 1) + 1)))" % (a.s, op, self.nolit_of(b).s),
                         lambda c, f: wrap(t, fn(a.ev(c, f), -(((b.ev(c, f) & 0x7d) | 1) + 1))))
            m = hi(t)
            b = self.nolit_of(b)
            return E(t, "(%s %s ((%s & %d) | 1))" % (a.s, op, b.s, m),
                     lambda c, f: wrap(t, fn(a.ev(c, f), (b.ev(c, f) & m) | 1)))
        if k <= 11:
            a = self.expr(t, depth - 1)
            op = d.choice(["<<", ">>"])
            self.feats.add("op" + op)
            fn = (lambda x, y: x << y) if op == "<<" else (lambda x, y: x >> y)
            if d.bool():
                n = d.below(w)
                a = self.nolit_of(a)
                return E(t, "(%s %s %d)" % (a.s, op, n), lambda c, f: wrap(t, fn(a.ev(c, f), n)))
            b = self.nolit_of(self.expr(t, depth - 1))
            return E(t, "(%s %s (%s & %d))" % (a.s, op, b.s, w - 1),
                     lambda c, f: wrap(t, fn(a.ev(c, f), b.ev(c, f) & (w - 1))))
        if k == 12:
            a = self.nolit_of(self.expr(t, depth - 1))
            if d.bool():
                self.feats.add("neg")
                return E(t, "(-%s)" % a.s, lambda c, f: wrap(t, -a.ev(c, f)))
            self.feats.add("not")
            return E(t, "(~%s)" % a.s, lambda c, f: wrap(t, ~a.ev(c, f)))
        if k <= 14 and p.casts:
            return self.cast(t, depth)
        if k == 15 and p.ternary:
            return self.ternary(t, depth)
        if k <= 17 and p.calls:
            e = self.call_expr(t, depth)
            if e:
                return e
        if k == 18 and p.aggs:
            e = self.dyn_index(t, depth)
            if e:
                return e
        return self.leaf(t)

    def nolit_of(self, e):
        if e.lit:
            return E(e.t, self.opaque(e.t, e.s), e.ev)
        return e

    def ternary(self, t, depth):
        c0 = self.expr("bool", depth - 1)
        a, b = self.expr(t, depth - 1), self.expr(t, depth - 1)
        self.feats.add("ternary")
        return E(t, "(%s ? %s : %s)" % (c0.s, a.s, b.s), lambda c, f: a.ev(c, f) if c0.ev(c, f) else b.ev(c, f))

    def float_expr(self, t, depth):
        d = self.d
        k = d.below(12)
        if k <= 6:
            op = d.choice(self.p.fops)
            a = self.expr(t, depth - 1)
            b = self.expr(t, depth - 1)
            self.feats.add("f" + op)
            fn = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": fmul, "/": fdiv}[op]
            return E(t, "(%s %s %s)" % (a.s, op, b.s), lambda c, f: fround(t, fn(a.ev(c, f), b.ev(c, f))))
        if k == 7:
            a = self.nolit_of(self.expr(t, depth - 1))
            self.feats.add("fneg")
            return E(t, "(-%s)" % a.s, lambda c, f: -a.ev(c, f))
        if k == 8 and self.p.casts:
            return self.cast(t, depth)
        if k == 9 and self.p.ternary:
            return self.ternary(t, depth)
        if k == 10 and self.p.calls:
            e = self.call_expr(t, depth)
            if e:
                return e
        return self.leaf(t)

    def str_expr(self, depth):
        d = self.d
        if d.bool():
            a, b = self.expr("string", depth - 1), self.expr("string", depth - 1)
            self.feats.add("concat")
            return E("string", "(%s + %s)" % (a.s, b.s), lambda c, f: a.ev(c, f) + b.ev(c, f))
        return self.leaf("string")

    def call_expr(self, t, depth):
        d = self.d
        fs = [f for f in self.funcs if f.ret == t]
        if not fs:
            return None
        fn = d.choice(fs)
        args = [self.expr(pt, min(depth - 1, 2)) for _, pt in fn.params]
        self.feats.add("call")
        return E(t, "%s(%s)" % (fn.name, ", ".join(a.s for a in args)),
                 lambda c, f: fn.call(c, [a.ev(c, f) for a in args]))

    # ---------------------------------------------------------- statements
    def show(self, e):
        """(text, evaluator) of a printable form"""
        t = e.t
        if t == "f64":
            self.use_fbits = True
            return "@@fb(%s)" % e.s, lambda c, f: show_float("f64", e.ev(c, f))
        if t == "f32":
            self.use_fbits = True
            return "@@sb(%s)" % e.s, lambda c, f: show_float("f32", e.ev(c, f))
        if t == "bool":
            return e.s, lambda c, f: "true" if e.ev(c, f) else "false"
        return e.s, lambda c, f: str(e.ev(c, f))

    def print_stmt(self, exprs, ind):
        sh = [self.show(e) for e in exprs]
        src = [ind + "println(%s)" % ", ".join(s for s, _ in sh)]
        if self.p.cross:
            src = []
            for k, e in enumerate(exprs):
                src.append(ind + "%s xt%d_%d = %s" % (e.t, self.nprint, k, e.s))
            src += [ind + "xp_%s(xt%d_%d)" % (e.t, self.nprint, k) for k, e in enumerate(exprs)]
            src.append(ind + "xp_nl()")
            self.nprint += 1

        def ex(c, f):
            c.out.append(" ".join(g(c, f) for _, g in sh))
        return src, ex

    def leaves_of(self, n, t, limit=12):
        """scalar expressions covering a variable"""
        out = []

        def walk(vt, text, path):
            if len(out) >= limit:
                return
            if isinstance(vt, str):
                out.append(E(vt, text, lambda c, f, path=tuple(path): self.getp(f, n, path)))
            elif vt[0] == "st":
                for fn, ft in vt[2]:
                    walk(ft, text + "." + fn, path + [fn])
            elif vt[0] == "arr":
                for i in range(vt[2]):
                    walk(vt[1], text + "[%d]" % i, path + [i])
            elif vt[0] == "tup":
                for i, x in enumerate(vt[1]):
                    walk(x, text + "[%d]" % i, path + [i])
        walk(t, n, [])
        return out

    @staticmethod
    def getp(f, n, path):
        v = f[n][0]
        for k in path:
            v = v[k]
        return v

    def decl(self, ind, t=None):
        t = t or self.any_type()
        n = self.fresh()
        e = self.expr(t)
        self.scopes[-1].append((n, t, True))

        def ex(c, f):
            f[n] = [copyval(t, e.ev(c, f))]
        return [ind + "%s %s = %s" % (tname(t), n, e.s)], ex

    def assign(self, ind):
        d = self.d
        # places inside aggregates
        if self.p.aggs and d.bool():
            t = self.any_type(1)
            pl = [p for p in self.places(t, assign=True)]
            if pl:
                n, path, text = d.choice(pl)
                e = self.expr(t)
                self.feats.add("place-assign")

                def ex(c, f):
                    v = copyval(t, e.ev(c, f))
                    o = f[n][0]
                    for k in path[:-1]:
                        o = o[k]
                    o[path[-1]] = v
                return [ind + "%s = %s" % (text, e.s)], ex
        vs = self.all_vars(lambda n, t, w: w)
        if not vs:
            return self.decl(ind)
        n, t = d.choice(vs)
        if isinstance(t, str) and is_int(t) and d.bool(1, 3):
            op = d.choice(["+", "-", "*", "&", "|", "^", "<<", ">>"])
            self.feats.add("compound")
            if op in ("<<", ">>"):
                k = d.below(WIDTH[t])
                g = (lambda x: x << k) if op == "<<" else (lambda x: x >> k)

                def ex(c, f):
                    f[n][0] = wrap(t, g(f[n][0]))
                return [ind + "%s %s= %d" % (n, op, k)], ex
            e = self.expr(t)
            g2 = {"+": lambda x, y: x + y, "-": lambda x, y: x - y, "*": lambda x, y: x * y,
                  "&": lambda x, y: x & y, "|": lambda x, y: x | y, "^": lambda x, y: x ^ y}[op]

            def ex(c, f):
                # operands of arithmetic have no side effects on n
                y = e.ev(c, f)
                f[n][0] = wrap(t, g2(f[n][0], y))
            return [ind + "%s %s= %s" % (n, op, e.s)], ex
        e = self.expr(t)

        def ex(c, f):
            f[n][0] = copyval(t, e.ev(c, f))
        return [ind + "%s = %s" % (n, e.s)], ex

    def block(self, ind, maxn, extra=None):
        """statements in a nested scope"""
        self.scopes.append(list(extra or []))
        n = self.d.int(1, max(1, maxn))
        src, exs = [], []
        for _ in range(n):
            s, x = self.stmt(ind)
            src += s
            exs.append(x)
        self.scopes.pop()

        def ex(c, f):
            for x in exs:
                c.tick()
                x(c, f)
        return src, ex

    def if_stmt(self, ind):
        d = self.d
        arms = []
        n = d.int(1, 3)
        src = []
        for i in range(n):
            cnd = self.expr("bool")
            s, x = self.block(ind + "    ", 3)
            src.append(ind + ("if %s {" % cnd.s if i == 0 else "} else if %s {" % cnd.s))
            src += s
            arms.append((cnd, x))
        els = None
        if d.bool():
            s, els = self.block(ind + "    ", 3)
            src.append(ind + "} else {")
            src += s
        src.append(ind + "}")
        self.feats.add("if%d" % n)

        def ex(c, f):
            for cnd, x in arms:
                if cnd.ev(c, f):
                    return x(c, f)
            if els:
                els(c, f)
        return src, ex

    def loop_stmt(self, ind):
        d = self.d
        k = d.below(3)
        trips = d.int(0, 6)
        v = self.fresh("k")
        t = "i64"
        self.in_loop += 1
        self.loop_depth += 1
        try:
            if k == 0:
                body, x = self.block(ind + "    ", 4, [(v, t, False)])
                src = [ind + "for i64 %s = 0; %s < %d; %s += 1 {" % (v, v, trips, v)] + body + [ind + "}"]
                self.feats.add("cfor")

                def ex(c, f):
                    for i in range(trips):
                        c.tick()
                        f[v] = [i]
                        try:
                            x(c, f)
                        except Brk:
                            break
                        except Cont:
                            continue
                return src, ex
            if k == 1:
                cnd = self.expr("bool", 1)
                body, x = self.block(ind + "    ", 4, [(v, t, False)])
                src = [ind + "i64 %s = 0" % v,
                       ind + "for %s < %d && (%s || %s < 2) {" % (v, trips, cnd.s, v),
                       ind + "    %s += 1" % v] + body + [ind + "}"]
                self.scopes[-1].append((v, t, False))
                self.feats.add("while")

                def ex(c, f):
                    f[v] = [0]
                    while f[v][0] < trips and (cnd.ev(c, f) or f[v][0] < 2):
                        c.tick()
                        f[v][0] += 1
                        try:
                            x(c, f)
                        except Brk:
                            break
                        except Cont:
                            continue
                return src, ex
            body, x = self.block(ind + "    ", 4, [(v, "i64", False)])
            src = [ind + "for %s in 0..(%d as i64) {" % (v, trips)] + body + [ind + "}"]
            self.feats.add("range")

            def ex(c, f):
                for i in range(trips):
                    c.tick()
                    f[v] = [i]
                    try:
                        x(c, f)
                    except Brk:
                        break
                    except Cont:
                        continue
            return src, ex
        finally:
            self.in_loop -= 1
            self.loop_depth -= 1

    def arm_block(self, ind):
        """the last statement of an arm is its value, so it must not be a match whose arms have none"""
        body, x = self.block(ind, 2)
        return body + [ind + "bool %s = true" % self.fresh()], x

    def match_stmt(self, ind):
        d = self.d
        t = d.choice([x for x in self.p.types if is_int(x)] or ["i64"])
        subj = self.nolit(t, 2)
        arms = []
        used = set()
        src = [ind + "match %s {" % subj.s]
        for _ in range(d.int(1, 4)):
            vals = []
            for _ in range(d.int(1, 2)):
                v = self.int_value(t)
                if v not in used:
                    used.add(v)
                    vals.append(v)
            if not vals:
                continue
            body, x = self.arm_block(ind + "        ")
            src.append(ind + "    %s -> {" % " | ".join(str(v) for v in vals))
            src += body
            src.append(ind + "    }")
            arms.append((vals, x))
        body, dflt = self.arm_block(ind + "        ")
        src += [ind + "    _ -> {"] + body + [ind + "    }", ind + "}"]
        self.feats.add("match")

        def ex(c, f):
            v = subj.ev(c, f)
            for vals, x in arms:
                if v in vals:
                    return x(c, f)
            return dflt(c, f)
        return src, ex

    def stmt(self, ind):
        d = self.d
        p = self.p
        self.stmts_left -= 1
        nest = self.stmts_left > 0 and len(self.scopes) < 5
        opts = [(5, "decl"), (5, "assign")]
        if p.prints:
            opts.append((3, "print"))
        if nest:
            opts += [(3, "if")]
            if p.loops and self.loop_depth < 2:
                opts.append((3, "loop"))
            if p.match:
                opts.append((1, "match"))
        if self.in_loop:
            opts += [(1, "break"), (1, "continue")]
        if p.early_ret and len(self.scopes) > 1:
            opts.append((1, "return"))
        if p.noise:
            opts.append((5, "noise"))
        k = d.weighted(opts)
        if k == "noise":
            txt = d.choice(p.noise)
            self.feats.add(txt.strip().split("(")[0])
            return [ind + txt], lambda c, f: None
        if k == "decl":
            return self.decl(ind)
        if k == "assign":
            return self.assign(ind)
        if k == "print":
            t = self.scalar_type()
            return self.print_stmt([self.expr(t, 2)], ind)
        if k == "if":
            return self.if_stmt(ind)
        if k == "loop":
            return self.loop_stmt(ind)
        if k == "match":
            return self.match_stmt(ind)
        # conditional jumps, so that what follows is not dead
        cnd = self.expr("bool", 2)
        if k == "return":
            e = self.expr(self.cur.ret, 2)
            self.feats.add("early-return")
            rt = self.cur.ret

            def ex(c, f):
                if cnd.ev(c, f):
                    raise Ret(copyval(rt, e.ev(c, f)))
            return [ind + "if %s {" % cnd.s, ind + "    return %s" % e.s, ind + "}"], ex
        self.feats.add(k)
        exc = Brk if k == "break" else Cont

        def ex2(c, f):
            if cnd.ev(c, f):
                raise exc()
        return [ind + "if %s {" % cnd.s, ind + "    %s" % k, ind + "}"], ex2

    # ---------------------------------------------------------- functions
    def func(self, ret=None, nparams=None, name=None):
        d = self.d
        ret = ret or self.any_type()
        if self.p.cross and (ret[0] == "arr" or self.p.cross == "riscv64" and not isinstance(ret, str)):
            ret = self.scalar_type()                 # known findings: arrays and mixed tuples as results
        np = d.int(0, self.p.max_params) if nparams is None else nparams
        params = [(self.fresh("p"), self.any_type()) for _ in range(np)]
        fn = Func(name or "@@" + self.fresh("fn"), params, ret)
        self.cur = fn
        self.scopes = [[(n, t, True) for n, t in params]]
        for g in self.globals:
            self.scopes[0].append(g)
        self.in_loop = self.loop_depth = 0
        self.stmts_left = self.p.max_stmts * 3
        src = ["fn %s(%s):%s {" % (fn.name, ", ".join("%s %s" % (tname(t), n) for n, t in params), tname(ret))]
        exs = []
        for _ in range(d.int(1, self.p.max_stmts)):
            s, x = self.stmt("    ")
            src += s
            exs.append(x)
        if self.p.prints and d.bool(1, 2):
            # observe a variable completely
            vs = self.all_vars(lambda n, t, w: True)
            if vs:
                n, t = d.choice(vs)
                s, x = self.print_stmt(self.leaves_of(n, t), "    ")
                src += s
                exs.append(x)
        e = self.expr(ret)
        src.append("    return %s" % e.s)
        src.append("}")

        def body(c, f):
            for x in exs:
                c.tick()
                x(c, f)
            raise Ret(copyval(ret, e.ev(c, f)))
        fn.body = body
        self.decls.append("\n".join(src))
        self.funcs.append(fn)
        self.scopes = []
        return fn

    def literal_for(self, t):
        """a literal argument, python value"""
        return self.construct_lit(t)

    def construct_lit(self, t):
        if isinstance(t, str):
            return self.lit(t)
        saved, self.scopes = self.scopes, []
        calls, self.p.calls = self.p.calls, False
        try:
            return self.construct(t, 0)
        finally:
            self.scopes = saved
            self.p.calls = calls

    def run_entry(self, ncalls=3):
        """emit @@run calling the generated functions with literal arguments"""
        d = self.d
        src = ["fn @@run() {"]
        exs = []
        self.scopes = [[]]
        tops = self.funcs[-2:]
        for i in range(ncalls):
            fn = tops[-1] if i < ncalls - 1 else d.choice(tops)
            args = [self.construct_lit(t) for _, t in fn.params]
            n = self.fresh("r")
            src.append("    %s %s = %s(%s)" % (tname(fn.ret), n, fn.name, ", ".join(a.s for a in args)))

            def ex(c, f, fn=fn, args=args, n=n):
                f[n] = [fn.call(c, [a.ev(c, f) for a in args])]
            exs.append(ex)
            lv = self.leaves_of(n, fn.ret)
            if lv:
                s, x = self.print_stmt(lv, "    ")
                src += s
                exs.append(x)
        src.append("}")
        self.decls.append("\n".join(src))
        self.scopes = []

        def run(c):
            fr = Frame()
            for x in exs:
                x(c, fr)
        return run

    def finish(self):
        pre = []
        if self.use_fbits and not self.p.cross:
            pre.append(FBITS.rstrip())
        return "\n".join(pre + self.decls)


def par(e):
    return e.s if e.s.startswith("(") or e.s.isalnum() else "(%s)" % e.s
