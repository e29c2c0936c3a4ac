"""Constants: literals denote their value, and folding, const definitions and global initialisers agree with run time."""
import os
import struct
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import Case, Check, run_cases, run_main
import vals as V

I64 = (-(1 << 63), (1 << 63) - 1)


def spell(d, v):
    """an integer literal (non-negative) in one of its spellings"""
    k = d.below(8)
    if k == 0:
        return "0x%x" % v
    if k == 1:
        return "0x%X" % v
    if k == 2:
        return "0b" + bin(v)[2:]
    if k == 3:
        return "0o" + oct(v)[2:]
    return str(v)


def cdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


class IntExpr:
    """literal expression whose every intermediate value lies in i64; e: text with literals, r: text over variables"""

    def __init__(self, d):
        self.d, self.vars, self.n, self.ops = d, [], 0, set()

    def leaf(self):
        d = self.d
        k = d.below(8)
        if k < 4:
            v = d.below(20)
        elif k < 6:
            v = d.choice([255, 256, 65535, 65536, 2147483647, 2147483648, 4294967295, 4294967296, (1 << 62), I64[1]])
        else:
            v = d.below(1 << d.int(1, 62))
        name = "v%d" % len(self.vars)
        self.vars.append((name, v))
        return spell(d, v), name, v

    def expr(self, depth):
        d = self.d
        if depth == 0 or d.bool(1, 6):
            return self.leaf()
        k = d.below(12)
        if k == 0:
            e, r, v = self.expr(depth - 1)
            self.ops.add("neg")
            return "(-%s)" % e, "(-%s)" % r, -v if v != I64[0] else 0 * self.fail()
        if k == 1:
            e, r, v = self.expr(depth - 1)
            self.ops.add("not")
            return "(~%s)" % e, "(~%s)" % r, ~v
        for _ in range(4):
            a, b = self.expr(depth - 1), self.expr(depth - 1)
            op = d.choice(["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>"])
            x, y = a[2], b[2]
            if op in "/%" and (y == 0 or (x == I64[0] and y == -1)):
                continue
            if op in ("<<", ">>"):
                # a shift count is its own literal, below the width and without losing the sign
                y = d.below(63)
                nm = "v%d" % len(self.vars)
                self.vars.append((nm, y))
                b = (spell(d, y), nm, y)
                if op == "<<" and x < 0:
                    continue
            v = {"+": lambda: x + y, "-": lambda: x - y, "*": lambda: x * y, "/": lambda: cdiv(x, y),
                 "%": lambda: x - cdiv(x, y) * y, "&": lambda: x & y, "|": lambda: x | y, "^": lambda: x ^ y,
                 "<<": lambda: x << y, ">>": lambda: x >> y}[op]()
            if not I64[0] < v <= I64[1]:
                continue
            self.ops.add(op)
            return "(%s %s %s)" % (a[0], op, b[0]), "(%s %s %s)" % (a[1], op, b[1]), v
        return self.leaf()

    def fail(self):
        return 0


def gen_int(d):
    g = IntExpr(d)
    e, r, v = g.expr(d.int(1, 4))
    code, out, exp = [], [], []
    code.append("const @@c = %s" % e)
    fit = [t for t in V.INTS if V.irange(t)[0] <= v <= V.irange(t)[1]]
    t = d.choice(fit)
    code.append("%s @@g = %s" % (t, e))
    out.append("%s l = %s" % (t, e))
    for nm, x in g.vars:
        out.append("i64 %s = @@id(%d)" % (nm, x))
    out.append("println(@@c, @@g, l, %s, %s)" % (e, r))
    exp.append(" ".join([str(v)] * 5))
    if d.bool() and I64[0] < v + 1 <= I64[1]:
        code.append("const @@c2 = @@c + 1")
        code.append("i64 @@g2 = @@c2")
        out.append("println(@@c2, @@g2)")
        exp.append("%d %d" % (v + 1, v + 1))
    if d.bool(1, 3):
        n = d.below(64)
        code.append("type @@ar = [u8;%d + 1]" % n if d.bool() else "const @@n = %d\ntype @@ar = [u8;@@n + 1]" % n)
        out.append("@@ar arr = []\n    arr[%d] = 7\n    println(arr[%d], @sizeof(@@ar))" % (n, n))
        exp.append("7 %d" % (n + 1))
    code.append("fn @@id(i64 x):i64 {\n    return x\n}")
    code.append("fn @@run() {\n    %s\n}" % "\n    ".join(out))
    return Case("\n".join(code), exp, nontrivial=len(g.ops) >= 1, feats=sorted(g.ops))


def fbits(x):
    return struct.unpack("<Q", struct.pack("<d", x))[0]


def fspell(d, x):
    s = repr(x)
    if "e" in s or "inf" in s:
        m, ex = s.split("e") if "e" in s else (s, "0")
        return "%s%s%s" % (m if "." in m else m + ".0", d.choice("eE"), ex.replace("+", d.choice(["", "+"])))
    k = d.below(4)
    if k == 0:
        return "%.17g" % x if "." in "%.17g" % x and "e" not in "%.17g" % x else s
    if k == 1:
        t = "%.16e" % x
        return t
    return s


def gen_float(d):
    """f64 literal arithmetic: folded, in a global and at run time give the same bits"""
    vars_, ops = [], set()

    def leaf():
        k = d.below(6)
        if k < 2:
            x = d.int(0, 400) / 4.0
        elif k < 4:
            x = d.int(1, 10**9) / float(10 ** d.int(0, 12))
        else:
            x = d.int(1, 10**15) * 10.0 ** d.int(-30, 30)
        vars_.append(x)
        return fspell(d, x), "v%d" % (len(vars_) - 1), x

    def expr(depth):
        if depth == 0 or d.bool(1, 6):
            return leaf()
        if d.bool(1, 6):
            e, r, v = expr(depth - 1)
            ops.add("neg")
            return "(-%s)" % e, "(-%s)" % r, -v
        a, b = expr(depth - 1), expr(depth - 1)
        op = d.choice("+-*/")
        if op == "/" and b[2] == 0.0:
            op = "+"
        v = {"+": lambda: a[2] + b[2], "-": lambda: a[2] - b[2], "*": lambda: a[2] * b[2],
             "/": lambda: a[2] / b[2] if b[2] else 0.0}[op]()
        if v != v or abs(v) > 1e290 or (v == 0 and op in "*/") or 0 < abs(v) < 1e-290:
            return leaf()
        ops.add(op)
        return "(%s %s %s)" % (a[0], op, b[0]), "(%s %s %s)" % (a[1], op, b[1]), v

    e, r, v = expr(d.int(0, 3))
    if v == 0:
        v = 0.0 if str(v)[0] != "-" else v
    code = ["const @@c = %s" % e, "f64 @@g = %s" % e, "f32 @@h = %s" % e,
            "fn @@id(f64 x):f64 {\n    return x\n}",
            "fn @@bits(f64 x):u64 {\n    f64 y = x\n    anyptr p = &y as anyptr\n    ptr<u64> q = p as ptr<u64>\n    return *q\n}",
            "fn @@bits4(f32 x):u32 {\n    f32 y = x\n    anyptr p = &y as anyptr\n    ptr<u32> q = p as ptr<u32>\n    return *q\n}"]
    out = ["f64 v%d = @@id(%s)" % (k, fspell(d, x)) for k, x in enumerate(vars_)]
    out.append("f64 l = %s" % e)
    out.append("println(@@bits(@@c), @@bits(@@g), @@bits(l), @@bits(%s))" % r)
    b = fbits(v)
    exp = ["%d %d %d %d" % (b, b, b, b)]
    if abs(v) < 1e38 and (v == 0 or abs(v) > 1e-37):
        f = struct.unpack("<I", struct.pack("<f", v))[0]
        out.append("f32 lf = %s" % e)
        out.append("println(@@bits4(@@h), @@bits4(lf))")
        exp.append("%d %d" % (f, f))
    code.append("fn @@run() {\n    %s\n}" % "\n    ".join(out))
    return Case("\n".join(code), exp, nontrivial=True, feats=["f" + o for o in sorted(ops)])


def gen_str(d):
    """string literals: escapes, raw strings, quotes, folded concatenation"""
    parts, val = [], b""
    feats = set()
    esc = {10: "\\n", 9: "\\t", 13: "\\r", 8: "\\b", 12: "\\f", 7: "\\a", 11: "\\v", 0: "\\0", 92: "\\\\", 39: "\\'", 34: '\\"'}
    for _ in range(d.int(1, 4)):
        kind = d.choice("'\"`")
        s, b = "", b""
        for _ in range(d.int(0, 10)):
            k = d.below(8)
            if kind == "`":
                ch = d.choice("ab\\'\"\n\t{}$#é中") if k < 5 else d.choice("xyz ")
                s += ch
                b += ch.encode()
                feats.add("raw")
            elif k < 2:
                c = d.choice(list(esc))
                s += esc[c]
                b += bytes([c])
                feats.add("esc%d" % c)
            elif k < 4:
                c = d.below(256)
                s += d.choice(["\\x%02x", "\\x%02X"]) % c
                b += bytes([c])
                feats.add("hex")
            elif k < 5:
                ch = d.choice(["é", "中", "😀", '"' if kind == "'" else "'", "//", "/*", "#", "{"])
                s += ch
                b += ch.encode()
            else:
                ch = d.choice("abcXYZ019 _-+")
                s += ch
                b += ch.encode()
        parts.append(kind + s + kind)
        val += b
    e = " + ".join(parts)
    code = ["const @@c = %s" % e, "fn @@show(string s) {\n    u64 h = 5381\n    for ch in s {\n        h = h * 33 + (ch as u64)\n    }\n    println(s.len(), h)\n}"]
    out = ["string l = %s" % e, "@@show(l)", "@@show(@@c)"]
    h = 5381
    for x in val:
        h = (h * 33 + x) & (2**64 - 1)
    exp = ["%d %d" % (len(val), h)] * 2
    if len(parts) > 1:
        out.append("string r = ''")
        for p in parts:
            out.append("r += %s" % p)
        out.append("@@show(r)\n    println(r == l, l == @@c)")
        exp += [exp[0], "true true"]
    code.append("fn @@run() {\n    %s\n}" % "\n    ".join(out))
    return Case("\n".join(code), exp, nontrivial=len(val) > 0, feats=sorted(feats))


def gtype(d, depth, tag):
    k = d.below(8)
    if depth == 0 or k < 3:
        return d.choice([V.VInt(d.choice(list(V.INTS))), V.VBool(), V.VFloat()])
    if k < 5:
        return V.VRec(tag, [("f%d" % j, gtype(d, depth - 1, tag + "x%d" % j)) for j in range(d.int(1, 4))])
    if k < 6:
        return V.VTup([gtype(d, depth - 1, tag + "t%d" % j) for j in range(d.int(2, 4))])
    return V.VArr(gtype(d, depth - 1, tag + "a"), d.int(1, 4))


def glit(d, t, v):
    """literal allowed in a global initialiser; a field of a struct may be left out when it is the default"""
    if isinstance(t, V.VRec):
        return "%s{%s}" % (t.name, ", ".join("%s: %s" % (f, glit(d, ft, x)) for (f, ft), x in zip(t.fields, v)))
    if isinstance(t, V.VTup):
        return "(%s)" % ", ".join(glit(d, ft, x) for ft, x in zip(t.ts, v))
    if isinstance(t, V.VArr):
        return "[%s]" % ", ".join(glit(d, t.t, x) for x in v)
    if isinstance(t, V.VFloat):
        return repr(v)
    if isinstance(t, V.VInt):
        if v == I64[0]:
            return "-9223372036854775807 - 1"
        return ("-" if v < 0 else "") + spell(d, abs(v))
    return t.lit(v)


def gen_global(d):
    out, exp, code = [], [], []
    ts = []
    n = d.int(2, 5)
    for k in range(n):
        t = gtype(d, 2, "@@q%d" % k)
        v = t.gen(d)
        ts.append((t, v))
    code = V.declare([t for t, _ in ts])
    for k, (t, v) in enumerate(ts):
        code.append("%s @@g%d = %s" % (t.name, k, glit(d, t, v)))
    for k, (t, v) in enumerate(ts):
        out.append(V.println(t.show1("@@g%d" % k)))
        exp.append(V.line(t.text(v)))
    # a write to one global leaves the others alone
    k = d.below(n)
    t, v = ts[k]
    path, ct, idx = V.place_of(d, t, v)
    x = ct.gen(d)
    out.append("@@g%d%s = %s" % (k, path, ct.lit(x)))
    ts[k] = (t, V.put(v, idx, x))
    for k, (t, v) in enumerate(ts):
        out.append(V.println(t.show1("@@g%d" % k)))
        exp.append(V.line(t.text(v)))
    code.append("fn @@run() {\n    %s\n}" % "\n    ".join(out))
    return Case("\n".join(code), exp, nontrivial=any(hasattr(t, "places") for t, _ in ts), feats=["global"])


def main():
    chk = Check("P04", rule="an expression is non-trivial when it has an operator, a string when it is not empty, a set of "
                            "globals when one is an aggregate; distinct by generated source")
    run_cases(chk, None, 4000, 60000, batch=50,
              streams=[("int", 3, gen_int), ("float", 2, gen_float), ("string", 2, gen_str), ("global", 2, gen_global)])
    chk.finish()


run_main(main)
