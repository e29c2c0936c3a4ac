"""Strings are immutable byte sequences: operators and the strings module against byte-string semantics."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import Case, Check, run_cases, run_main

HEX = """fn @@hex(string s):string {
    string digits = '0123456789abcdef'
    [u8] o = []
    for c in s {
        o.push(digits[c >> 4])
        o.push(digits[c & 15])
    }
    return '<' + o as string + '>'
}
fn @@hexes([string] l):string {
    string r = fmt.sprintf('%d', l.len())
    for s in l {
        r += @@hex(s)
    }
    return r
}
fn @@id(string s):string {
    return s
}
fn @@int(string s) {
    var r = s.to_int() catch e {
        println('error')
        return
    }
    println(r)
}
fn @@float(string s) {
    var r = s.to_float() catch e {
        println('error')
        return
    }
    println(r)
}"""


def esc(b):
    out = []
    text = b.decode()
    for ch in text:
        o = ord(ch)
        if ch in "'\\":
            out.append("\\" + ch)
        elif o == 0:
            out.append("\\0")
        elif ch == "\n":
            out.append("\\n")
        elif ch == "\t":
            out.append("\\t")
        elif ch == "\r":
            out.append("\\r")
        else:
            out.append(ch)
    return "'" + "".join(out) + "'"


def hx(b):
    return "<" + b.hex() + ">"


def hxs(l):
    return str(len(l)) + "".join(hx(x) for x in l)


def tr(b):
    return "true" if b else "false"


def bad(b):
    """the bytes form valid text that a literal can spell"""
    try:
        b.decode()
        return False
    except UnicodeDecodeError:
        return True


class G:
    def __init__(self, d):
        self.d = d
        self.out, self.exp, self.used = [], [], set()
        self.vars = []
        self.alpha = d.choice(["ab", "aab,", "abcXYZ 09", "ab\0", "a,b;- ", "aAbBzZ[`{", "aé中", "ab\n\t"])

    def text(self, lo=0, hi=10):
        return "".join(self.d.choice(self.alpha) for _ in range(self.d.int(lo, hi))).encode()

    def lit(self, b):
        return esc(b)

    def s(self):
        """(expression, bytes)"""
        if self.vars and self.d.bool(3, 4):
            return self.d.choice(self.vars)
        if self.vars and self.d.bool(1, 2):
            # a piece of an existing string, so that searches hit
            b = self.d.choice(self.vars)[1]
            i = self.d.int(0, len(b))
            b = b[i:self.d.int(i, len(b))]
            if not bad(b):
                return self.lit(b), b
        b = self.text(0, 4)
        return self.lit(b), b

    def sub(self):
        v = self.d.choice(self.vars)[1] if self.vars else b""
        if v and self.d.bool(2, 3):
            i = self.d.below(len(v))
            b = v[i:self.d.int(i + 1, min(len(v), i + 4))]
            if not bad(b):
                return self.lit(b), b
        b = self.text(1, 3)
        return self.lit(b), b

    def show(self, e, text):
        self.out.append("println(%s)" % e)
        self.exp.append(text)

    def bind(self, e, b):
        if len(b) > 400:
            return
        n = "s%d" % len(self.out)
        self.out.append("string %s = %s" % (n, e))
        self.vars.append((n, b))
        self.show("@@hex(%s), %s.len()" % (n, n), "%s %d" % (hx(b), len(b)))


def py_split(b, sep):
    if sep == b"":
        return [b[i:i + 1] for i in range(len(b))]
    if b == b"":
        return []
    if len(b) < len(sep):
        return [b]
    parts = b.split(sep)
    if parts[-1] == b"":
        parts.pop()      # nothing follows the last separator
    return parts


def gen(d):
    g = G(d)
    for _ in range(d.int(1, 3)):
        b = g.text(0, 14)
        g.bind(g.lit(b) if d.bool() else "@@id(%s)" % g.lit(b), b)
    ops = ["concat", "concat", "cmp", "cmp", "index", "iter", "bytes", "slice", "slice", "split", "split", "join", "find", "find",
           "after", "rfind", "contains", "starts", "ends", "replace", "replace", "ltrim", "rtrim", "trim", "upper", "lower",
           "reverse", "int", "float", "plus", "match", "pool"]
    for _ in range(d.int(4, 14)):
        op = d.choice(ops)
        g.used.add(op)
        e, b = g.s()
        f, c = g.s()
        if op == "concat":
            g.bind("%s + %s" % (e, f), b + c)
        elif op == "plus":
            n = "p%d" % len(g.out)
            k = d.int(0, 20)
            if (len(b) + k * len(c)) > 400:
                continue
            g.out.append("string %s = %s\n    for i in 0..%d {\n        %s += %s\n    }" % (n, e, k, n, f))
            g.vars.append((n, b + c * k))
            g.show("@@hex(%s)" % n, hx(b + c * k))
        elif op == "cmp":
            if d.bool(1, 3):
                f, c = g.lit(b) if not bad(b) else e, b
            g.show("%s == %s, %s != %s, %s < %s, %s <= %s, %s > %s, %s >= %s" % ((e, f) * 6),
                   " ".join(tr(x) for x in (b == c, b != c, b < c, b <= c, b > c, b >= c)))
        elif op == "index":
            if b:
                i = d.below(len(b))
                g.show("(%s)[%d]" % (e, i), str(b[i]))
        elif op == "iter":
            n = "h%d" % len(g.out)
            g.out.append("u64 %s = 7\n    for i, ch in %s {\n        %s = %s * 31 + (ch as u64) + (i as u64)\n    }" % (n, e, n, n))
            h = 7
            for i, ch in enumerate(b):
                h = (h * 31 + ch + i) & (2**64 - 1)
            g.show(n, str(h))
        elif op == "bytes":
            n = "b%d" % len(g.out)
            g.out.append("var %s = (%s) as [u8]" % (n, e))
            l = bytearray(b)
            if l:
                i, x = d.below(len(l)), d.int(32, 126)
                g.out.append("%s[%d] = %d" % (n, i, x))
                l[i] = x
            x = d.int(32, 126)
            g.out.append("%s.push(%d)" % (n, x))
            l.append(x)
            g.show("@@hex(%s as string), @@hex(%s)" % (n, e), "%s %s" % (hx(bytes(l)), hx(b)))
        elif op == "slice":
            i = d.int(0, len(b))
            j = d.int(i, len(b))
            g.bind("(%s).slice(%d, %d)" % (e, i, j), b[i:j])
        elif op == "split":
            f, c = g.sub() if d.bool(4, 5) else ("''", b"")
            g.show("@@hexes((%s).split(%s))" % (e, f), hxs(py_split(b, c)))
        elif op == "join":
            l = [g.s() for _ in range(d.int(0, 4))]
            n = "l%d" % len(g.out)
            g.out.append("[string] %s = [%s]" % (n, ", ".join(x for x, _ in l)))
            g.bind("strings.join(%s, %s)" % (n, f), c.join(y for _, y in l))
        elif op in ("find", "contains", "rfind", "after"):
            f, c = g.sub() if d.bool(6, 7) else ("''", b"")
            if op == "find":
                g.show("(%s).find(%s)" % (e, f), str(b.find(c) if c else -1))
            elif op == "contains":
                g.show("(%s).contains(%s)" % (e, f), tr(bool(c) and c in b))
            elif op == "rfind":
                g.show("(%s).rfind(%s)" % (e, f), str(b.rfind(c) if c else -1))
            else:
                i = d.int(0, len(b))
                g.show("(%s).find_after(%s, %d)" % (e, f, i), str(b.find(c, i) if c else -1))
        elif op in ("starts", "ends"):
            k = d.int(0, len(b))
            c2 = b[:k] if op == "starts" else b[len(b) - k:]
            if d.bool(1, 3) or bad(c2):
                f, c2 = g.sub()
            else:
                f = g.lit(c2)
            g.show("(%s).%s_with(%s)" % (e, op, f), tr(b.startswith(c2) if op == "starts" else b.endswith(c2)))
        elif op == "replace":
            f, c = g.sub()
            r = g.text(0, 3)
            g.bind("(%s).replace(%s, %s)" % (e, f, g.lit(r)), b.replace(c, r))
        elif op in ("ltrim", "rtrim", "trim"):
            cs = [x for x in sorted({ch for ch in g.alpha if ord(ch) < 128}) if d.bool()]
            arg = "[%s]" % ", ".join(esc(x.encode()) for x in cs) if cs else "['|']"
            cut = "".join(cs).encode() or b"|"
            g.bind("(%s).%s(%s)" % (e, op, arg), {"ltrim": b.lstrip, "rtrim": b.rstrip, "trim": b.strip}[op](cut))
        elif op == "upper":
            g.bind("(%s).to_upper()" % e, b.upper())
        elif op == "lower":
            g.bind("(%s).to_lower()" % e, b.lower())
        elif op == "reverse":
            g.show("@@hex((%s).reverse())" % e, hx(b[::-1]))
        elif op == "int":
            k = d.below(6)
            v = d.choice([0, 1, 7, 10, 99, 2147483647, 214748364, 2147483640]) if d.bool() else d.int(0, 2147483647)
            t = str(v)
            ok = True
            if k == 0:
                t = "-" + t
            elif k == 1:
                t = " " * d.int(1, 3) + t
            elif k == 2:
                t = "0" * d.int(1, 3) + t
            elif k == 3:
                i = d.int(0, len(t))
                t = t[:i] + d.choice(["x", "-", ".", "/", ":"]) + t[i:]
                ok = False
                if t[0] == "-":
                    ok = True
            elif k == 4:
                t = d.choice(["", "-", "abc", "--1"])
                ok = False
            g.out.append("@@int(%s)" % esc(t.encode()))
            g.exp.append(str(int(t)) if ok else "error")
        elif op == "float":
            a, fr = d.int(0, 99999), d.int(0, 4)
            t = str(a) + ("." + "%0*d" % (fr, d.below(10 ** fr)) if fr else "")
            ok = True
            if d.bool(1, 3):
                t = "-" + t
            if d.bool(1, 5):
                t = d.choice(["", "-", t + ".1.", t + "e", "x" + t])
                ok = False
            g.out.append("@@float(%s)" % esc(t.encode()))
            g.exp.append("%f" % float(t) if ok else "error")
        elif op == "match":
            alts = []
            for _ in range(d.int(1, 4)):
                x = g.text(0, 3) if d.bool() or bad(b) else b
                if x not in alts:
                    alts.append(x)
            n = "m%d" % len(g.out)
            g.out.append("int %s = match %s {\n        %s\n        _ -> -1\n    }" % (
                n, e, "\n        ".join("%s -> %d" % (g.lit(x), i) for i, x in enumerate(alts))))
            g.show(n, str(alts.index(b) if b in alts else -1))
        elif op == "pool":
            # small strings made at run time from bytes
            xs = bytes(d.choice([0, 97, 98, 255, 10]) for _ in range(d.int(0, 9)))
            ys = xs[:-1] + bytes([d.choice([97, 98, 0])]) if xs else b""
            n = "v%d" % len(g.out)
            g.out.append("[u8] %s = [%s]\n    [u8] %sb = [%s]" % (n, ", ".join(map(str, xs)), n, ", ".join(map(str, ys))))
            g.out.append("string %ss = %s as string\n    string %st = %sb as string" % (n, n, n, n))
            g.show("@@hex(%ss), @@hex(%st), %ss == %st" % (n, n, n, n), "%s %s %s" % (hx(xs), hx(ys), tr(xs == ys)))
    for n, b in g.vars:
        g.show("@@hex(%s)" % n, hx(b))
    return Case(HEX + "\nfn @@run() {\n    %s\n}" % "\n    ".join(g.out), g.exp, nontrivial=len(g.used) >= 3, feats=g.used,
                imports=["strings", "fmt"])


def main():
    chk = Check("P08", rule="a history is non-trivial when it uses at least three kinds of operation; distinct by source")
    run_cases(chk, gen, 2400, 40000, batch=30)
    chk.finish()


run_main(main)
