"""Floating point arithmetic, comparison and conversion against IEEE 754 evaluated in the checker."""
import math
import os
import struct
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import Case, Check, run_cases, run_main
from lang import FBITS, INTS, Gen, Prof, fdiv, fmul, fround, hi, int_to_float, lo, show_float, wrap
from progs import prog

FL = ["f64", "f32"]

SPECIAL = [0.0, 1.0, -1.0, 0.5, 1.5, -2.5, 3.0, 1e10, -1e10, 123456789.0, 0.1, 1 / 3.0, 16777216.0, 16777217.0,
           9007199254740991.0, 9007199254740993.0, 1e30, 1e-30, 1.1754943508222875e-38, 3.4028234663852886e38,
           2147483647.0, 4294967295.0, 1e300, 1e-300, 5e-324]


def value(d, t):
    if d.bool(1, 2):
        v = d.choice(SPECIAL)
    elif d.bool():
        v = d.int(-100000, 100000) / d.choice([1, 2, 4, 7, 10, 100, 1000])
    else:
        v = struct.unpack("<d", struct.pack("<Q", (d.below(1 << 32) << 32 | d.below(1 << 32)) & ~(0x7ff << 52)
                                            | d.int(1023 - 60, 1023 + 60) << 52))[0]
    if d.bool(1, 6):
        v = -v
    v = fround(t, v)
    return 1.0 if math.isinf(v) or math.isnan(v) else v


def ftext(v):
    s = repr(v)
    if "e" in s or "inf" in s or "nan" in s:
        s = "%.400f" % v if abs(v) < 1 else "%.1f" % v
        s = s.rstrip("0")
        if s.endswith("."):
            s += "0"
    return s


def bits(d, v, t):
    """an expression for v that does not depend on literal parsing: built from its bit pattern"""
    if t == "f64":
        n = struct.unpack("<Q", struct.pack("<d", v))[0]
        return "@@fof(0x%x)" % n
    n = struct.unpack("<I", struct.pack("<f", v))[0]
    return "@@sof(0x%x)" % n


OF = """fn @@fof(u64 x):f64 {
    anyptr a = &x as anyptr
    ptr<f64> p = a as ptr<f64>
    return *p
}
fn @@sof(u32 x):f32 {
    anyptr a = &x as anyptr
    ptr<f32> p = a as ptr<f32>
    return *p
}
""" + FBITS

EDGE = [float("inf"), float("-inf"), float("nan"), -0.0, 0.0]


def gen_table(d):
    t = d.choice(FL)
    op = d.choice(["+", "-", "*", "/", "==", "!=", "<", "<=", ">", ">="])
    cmpop = op in ("==", "!=", "<", "<=", ">", ">=")
    form = d.below(5)
    src, run, exp = [OF], [], []
    pairs = []
    for i in range(d.int(1, 4)):
        edge = d.bool(1, 4) and form in (0, 3)
        a = d.choice(EDGE) if edge and d.bool() else value(d, t)
        b = d.choice(EDGE) if edge else (a if d.bool(1, 8) else value(d, t))
        if cmpop and (a != a or b != b):
            a = b = -0.0  # known finding: comparisons with NaN
        pairs.append((repr(a), repr(b)))
        if cmpop:
            r = {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
            exp.append("true" if r else "false")
            rt = "bool"
        else:
            r = fround(t, {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: fmul(a, b),
                           "/": lambda: fdiv(a, b)}[op]())
            exp.append(show_float(t, r))
            rt = t
        sh = (lambda e: e) if cmpop else (lambda e: ("@@fb(%s)" if t == "f64" else "@@sb(%s)") % e)
        if form == 0:
            src.append("fn @@f%d(%s a, %s b):%s {\n    return a %s b\n}" % (i, t, t, rt, op))
            run.append("println(" + sh("@@f%d(%s, %s)" % (i, bits(d, a, t), bits(d, b, t))) + ")")
        elif form == 1:
            src.append("fn @@f%d(%s a):%s {\n    return a %s (%s as %s)\n}" % (i, t, rt, op, ftext(b), t))
            run.append("println(" + sh("@@f%d(%s)" % (i, bits(d, a, t))) + ")")
        elif form == 2:
            src.append("fn @@f%d(%s b):%s {\n    return (%s as %s) %s b\n}" % (i, t, rt, ftext(a), t, op))
            run.append("println(" + sh("@@f%d(%s)" % (i, bits(d, b, t))) + ")")
        elif form == 3:
            src.append("fn @@f%d([%s;2] v):%s {\n    return v[0] %s v[1]\n}" % (i, t, rt, op))
            run.append("println(" + sh("@@f%d([%s, %s])" % (i, bits(d, a, t), bits(d, b, t))) + ")")
        else:
            if cmpop:
                src.append("fn @@f%d(%s a, %s b):bool {\n    if a %s b {\n        return true\n    }\n"
                           "    return false\n}" % (i, t, t, op))
            else:
                src.append("fn @@f%d(%s a, %s b):%s {\n    a %s= b\n    return a\n}" % (i, t, t, t, op))
            run.append("println(" + sh("@@f%d(%s, %s)" % (i, bits(d, a, t), bits(d, b, t))) + ")")
    src.append("fn @@run() {\n    " + "\n    ".join(run) + "\n}")
    return Case("\n".join(src), exp, feats=["table:" + op, t, "form%d" % form], key=(t, op, form, tuple(pairs)))


def gen_conv(d):
    """int -> float (correctly rounded), float -> int (truncation, in range only), f32 <-> f64"""
    g = Gen(d, Prof())
    src, run, exp = [OF], [], []
    for i in range(d.int(1, 4)):
        k = d.below(4)
        if k == 0:
            it, ft = d.choice(INTS), d.choice(FL)
            v = g.int_value(it)
            src.append("fn @@f%d(%s x):%s {\n    return x as %s\n}" % (i, it, ft, ft))
            run.append("println(%s(@@f%d(%d as %s)))" % ("@@fb" if ft == "f64" else "@@sb", i, v, it))
            exp.append(show_float(ft, int_to_float(ft, v)))
        elif k == 1:
            it, ft = d.choice(INTS), d.choice(FL)
            v = value(d, ft)
            if not (lo(it) <= int(v) <= min(hi(it), hi("i64"))) or (lo(it) == 0 and v <= -1):
                v = fround(ft, float(d.int(max(lo(it), -1000), min(hi(it), 1000)) // 2) + d.choice([0.0, 0.25, 0.5, 0.75]))
                if v < 0 and lo(it) == 0:
                    v = 0.5
            src.append("fn @@f%d(%s x):%s {\n    return x as %s\n}" % (i, ft, it, it))
            run.append("println(@@f%d(%s))" % (i, bits(d, v, ft)))
            exp.append(str(int(v)))
        elif k == 2:
            v = value(d, "f64")
            src.append("fn @@f%d(f64 x):f32 {\n    return x as f32\n}" % i)
            run.append("println(@@sb(@@f%d(%s)))" % (i, bits(d, v, "f64")))
            exp.append(show_float("f32", fround("f32", v)))
        else:
            v = value(d, "f32")
            src.append("fn @@f%d(f32 x):f64 {\n    return x as f64\n}" % i)
            run.append("println(@@fb(@@f%d(%s)))" % (i, bits(d, v, "f32")))
            exp.append(show_float("f64", v))
    src.append("fn @@run() {\n    " + "\n    ".join(run) + "\n}")
    return Case("\n".join(src), exp, feats=["conv"])


def gen_lit(d):
    """decimal literals denote the nearest representable value"""
    src, run, exp = [OF], [], []
    for i in range(d.int(1, 4)):
        v = abs(value(d, "f64"))
        s = ftext(v) if d.bool() else "%d.%s" % (d.below(10 ** d.int(1, 18)), "".join(str(d.below(10)) for _ in range(d.int(1, 20))))
        t = d.choice(FL)
        src.append("fn @@f%d():%s {\n    %s x = %s\n    return x\n}" % (i, t, t, s))
        run.append("println(%s(@@f%d()))" % ("@@fb" if t == "f64" else "@@sb", i))
        exp.append(show_float(t, fround(t, float(s))))
    src.append("fn @@run() {\n    " + "\n    ".join(run) + "\n}")
    return Case("\n".join(src), exp, feats=["literal"])


def gen_expr(d):
    return prog(d, Prof(types=FL + ["i64", "i32", "u8", "u64"], loops=d.bool(1, 3), match=False, max_fns=2, max_stmts=5, max_params=8, max_depth=4))


def main():
    chk = Check("P02", rule="a case is non-trivial when it evaluates at least three operator nodes (random programs) or "
                            "one float operator, conversion or literal on at least one generated operand (tables); "
                            "distinct by generated source or by (type, operator, operand form, operands)")
    run_cases(chk, None, 6000, 60000, batch=60,
              streams=[("table", 4, gen_table), ("expr", 4, gen_expr), ("conv", 2, gen_conv), ("literal", 1, gen_lit)])
    chk.finish()


run_main(main)
