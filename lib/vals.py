"""Element types with literals, printers and generators, shared by the container, channel and closure checks.

A value is a plain Python value (int, float, bool, str, tuple). show(expr, v) gives the println arguments that print
the value and the text they print."""

INTS = {"i8": (8, 1), "u8": (8, 0), "i16": (16, 1), "u16": (16, 0), "i32": (32, 1), "u32": (32, 0), "i64": (64, 1),
        "u64": (64, 0)}


def wrap(t, v):
    bits, signed = INTS[t]
    v &= (1 << bits) - 1
    if signed and v >> (bits - 1):
        v -= 1 << bits
    return v


def irange(t):
    bits, signed = INTS[t]
    return (-(1 << (bits - 1)), (1 << (bits - 1)) - 1) if signed else (0, (1 << bits) - 1)


def ilit(t, v):
    if t == "i64" and v == -(1 << 63):
        return "(-9223372036854775807 - 1)"
    return str(v)


CHARS = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789 _-+*/.,:;<>()[]{}#!?=&|~^%$"


def sesc(s):
    out = []
    for ch in s:
        if ch in "'\\":
            out.append("\\" + ch)
        elif ch == "\n":
            out.append("\\n")
        elif ch == "\t":
            out.append("\\t")
        else:
            out.append(ch)
    return "'" + "".join(out) + "'"


def small_str(d, lo=0, hi=12, chars=CHARS):
    return "".join(d.choice(chars) for _ in range(d.int(lo, hi)))


def gen_int(d, t):
    lo, hi = irange(t)
    k = d.below(10)
    if k < 4:
        return max(lo, min(hi, d.int(-3, 9)))
    if k < 6:
        return d.choice([lo, hi, hi - 1, lo + 1])
    if k < 8:
        return wrap(t, (1 << d.below(INTS[t][0])) - d.below(2))
    return wrap(t, d.below(1 << INTS[t][0]))


class VT:
    """name: the type as written; decls: declarations it needs (list of (ident, code))"""
    decls = ()
    hashable = False
    ordered = False


class VInt(VT):
    hashable = ordered = True

    def __init__(self, t):
        self.t = self.name = t

    def gen(self, d):
        return gen_int(d, self.t)

    def lit(self, v):
        return "(%s as %s)" % (ilit(self.t, v), self.t) if v >= 0 else "(%s as %s)" % (ilit(self.t, v), self.t)

    def show(self, e, v):
        return [e], [str(v)]

    def show1(self, e):
        return [e]

    def text(self, v):
        return [str(v)]


class VBool(VT):
    name = "bool"
    hashable = True

    def gen(self, d):
        return d.bool()

    def lit(self, v):
        return "true" if v else "false"

    def show1(self, e):
        return [e]

    def text(self, v):
        return ["true" if v else "false"]


class VFloat(VT):
    """multiples of 1/4, so that the printed decimal is exact"""
    name = "f64"
    ordered = True

    def gen(self, d):
        return d.int(-4000, 4000) / 4.0

    def lit(self, v):
        return "(%s as f64)" % repr(v)

    def show1(self, e):
        return [e]

    def text(self, v):
        return ["%f" % v]


class VStr(VT):
    name = "string"
    hashable = ordered = True

    def gen(self, d):
        k = d.below(12)
        if k == 0:
            return ""
        if k == 1:
            return small_str(d, 1, 3, "ab") * d.int(1, 40)
        if k == 2:
            return d.choice(["é", "中文", "ß…", "\t"])
        return small_str(d, 1, 9)

    def lit(self, v):
        return sesc(v)

    def show1(self, e):
        return ["'<'", e, "'>'"]

    def text(self, v):
        return ["<", v, ">"]


class VRec(VT):
    """struct"""

    def __init__(self, name, fields):
        self.name = name
        self.fields = fields
        body = "\n".join("    %s %s" % (t.name, f) for f, t in fields)
        self.decls = tuple(x for _, t in fields for x in t.decls) + ((name, "type %s = struct{\n%s\n}" % (name, body)),)

    def gen(self, d):
        return tuple(t.gen(d) for _, t in self.fields)

    def lit(self, v):
        return "%s{%s}" % (self.name, ", ".join("%s: %s" % (f, t.lit(x)) for (f, t), x in zip(self.fields, v)))

    def show1(self, e):
        return [y for f, t in self.fields for y in t.show1("%s.%s" % (e, f))]

    def text(self, v):
        return [y for (f, t), x in zip(self.fields, v) for y in t.text(x)]

    def places(self):
        return [(".%s" % f, k, t) for k, (f, t) in enumerate(self.fields)]


class VTup(VT):
    def __init__(self, ts):
        self.ts = ts
        self.name = "(%s)" % ", ".join(t.name for t in ts)
        self.decls = tuple(x for t in ts for x in t.decls)

    def gen(self, d):
        return tuple(t.gen(d) for t in self.ts)

    def lit(self, v):
        return "(%s)" % ", ".join(t.lit(x) for t, x in zip(self.ts, v))

    def show1(self, e):
        return [y for k, t in enumerate(self.ts) for y in t.show1("%s[%d]" % (e, k))]

    def text(self, v):
        return [y for t, x in zip(self.ts, v) for y in t.text(x)]

    def places(self):
        return [("[%d]" % k, k, t) for k, t in enumerate(self.ts)]


class VArr(VT):
    def __init__(self, t, n):
        self.t, self.n = t, n
        self.name = "[%s;%d]" % (t.name, n)
        self.decls = t.decls

    def gen(self, d):
        return tuple(self.t.gen(d) for _ in range(self.n))

    def lit(self, v):
        return "[%s]" % ", ".join(self.t.lit(x) for x in v)

    def show1(self, e):
        return [y for k in range(self.n) for y in self.t.show1("%s[%d]" % (e, k))]

    def text(self, v):
        return [y for x in v for y in self.t.text(x)]

    def places(self):
        return [("[%d]" % k, k, self.t) for k in range(self.n)]


def scalar(d, floats=True, strs=True):
    k = d.below(12)
    if k < 7:
        return VInt(d.choice(list(INTS)))
    if k < 8:
        return VBool()
    if k < 9 and floats:
        return VFloat()
    return VStr() if strs else VInt("i64")


_n = [0]


def any_type(d, depth=1, tag="@@r"):
    k = d.below(10)
    if depth <= 0 or k < 5:
        return scalar(d)
    if k < 8:
        nm = "%s%d" % (tag, d.below(1000))
        fs = [("f%d" % j, any_type(d, depth - 1, nm + "x%d" % j)) for j in range(d.int(1, 4))]
        return VRec(nm, fs)
    if k < 9:
        return VTup([any_type(d, depth - 1, tag + "t%d" % j) for j in range(d.int(2, 3))])
    return VArr(scalar(d, strs=d.bool()), d.int(1, 4))


def declare(ts):
    seen, out = set(), []
    for t in ts:
        for ident, code in t.decls:
            if ident not in seen:
                seen.add(ident)
                out.append(code)
    return out


def println(args):
    return "println(%s)" % ", ".join(args)


def line(parts):
    return " ".join(parts)


def place_of(d, t, v):
    """a random sub-place: (suffix, type, getter, setter)"""
    path, cur, ct = "", [], t
    while hasattr(ct, "places") and (not path or d.bool(2, 3)):
        suf, k, nt = d.choice(ct.places())
        path += suf
        cur.append(k)
        ct = nt
    return path, ct, cur


def put(v, path, x):
    if not path:
        return x
    l = list(v)
    l[path[0]] = put(l[path[0]], path[1:], x)
    return tuple(l)


def get(v, path):
    for k in path:
        v = v[k]
    return v
