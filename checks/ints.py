"""Integer arithmetic, comparison, shift and conversion against exact arithmetic."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import Case, Check, run_cases, run_main
from lang import Gen, INTS, Prof, WIDTH, lo, tdiv, trem, wrap
from progs import prog


def gen_expr(d):
    """random expression trees over all widths"""
    return prog(d, Prof(types=INTS, loops=False, match=False, max_fns=2, max_stmts=4, max_params=5, max_depth=4,
                        early_ret=False))


OPS = ["+", "-", "*", "/", "%", "&", "|", "^", "<<", ">>", "==", "!=", "<", "<=", ">", ">="]


def apply(op, t, a, b):
    if op in ("==", "!=", "<", "<=", ">", ">="):
        r = {"==": a == b, "!=": a != b, "<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[op]
        return "bool", r
    r = {"+": lambda: a + b, "-": lambda: a - b, "*": lambda: a * b, "/": lambda: tdiv(a, b), "%": lambda: trem(a, b),
         "&": lambda: a & b, "|": lambda: a | b, "^": lambda: a ^ b, "<<": lambda: a << b, ">>": lambda: a >> b}[op]()
    return t, wrap(t, r)


def gen_table(d):
    """one operator, one type, boundary-heavy operands, every operand form:
    variables, constants on either side, both constant, memory operands"""
    t = d.choice(INTS)
    op = d.choice(OPS)
    g = Gen(d, Prof())
    form = d.below(6)
    pairs = []
    for _ in range(d.int(1, 4)):
        a, b = g.int_value(t), g.int_value(t)
        if op in ("/", "%") and (b == 0 or (b == -1 and a == lo(t))):
            b = 1
        if op in ("<<", ">>"):
            b = b % WIDTH[t]
        pairs.append((a, b))
    rt = "bool" if op in ("==", "!=", "<", "<=", ">", ">=") else t
    src, run, exp = [], [], []
    for i, (a, b) in enumerate(pairs):
        _, r = apply(op, t, a, b)
        exp.append(("true" if r else "false") if rt == "bool" else str(r))
        la, lb = "(%d as %s)" % (a, t), "(%d as %s)" % (b, t)
        if form == 0:
            src.append("fn @@f%d(%s a, %s b):%s {\n    return a %s b\n}" % (i, t, t, rt, op))
            run.append("println(@@f%d(%s, %s))" % (i, la, lb))
        elif form == 1:
            src.append("fn @@f%d(%s a):%s {\n    return a %s %s\n}" % (i, t, rt, op, lb))
            run.append("println(@@f%d(%s))" % (i, la))
        elif form == 2:
            src.append("fn @@f%d(%s b):%s {\n    return %s %s b\n}" % (i, t, rt, la, op))
            run.append("println(@@f%d(%s))" % (i, lb))
        elif form == 3:
            run.append("println(%s %s %s)" % (la, op, lb))
        elif form == 4:
            # operands in memory (array elements)
            src.append("fn @@f%d([%s;2] v):%s {\n    return v[0] %s v[1]\n}" % (i, t, rt, op))
            run.append("println(@@f%d([%s, %s]))" % (i, la, lb))
        else:
            # condition position / compound assignment
            if rt == "bool":
                src.append("fn @@f%d(%s a, %s b):bool {\n    if a %s b {\n        return true\n    }\n    return false\n}"
                           % (i, t, t, op))
            else:
                src.append("fn @@f%d(%s a, %s b):%s {\n    a %s= b\n    return a\n}" % (i, t, t, t, op))
            run.append("println(@@f%d(%s, %s))" % (i, la, lb))
    src.append("fn @@run() {\n    " + "\n    ".join(run) + "\n}")
    return Case("\n".join(src), exp, feats=["table:" + op, t, "form%d" % form],
                key=(t, op, form, tuple(pairs)))


def gen_conv(d):
    """conversion chains between integer types"""
    g = Gen(d, Prof())
    src, run, exp = [], [], []
    for i in range(d.int(1, 3)):
        t0 = d.choice(INTS)
        chain = [d.choice(INTS) for _ in range(d.int(1, 4))]
        v = g.int_value(t0)
        body, cur = "x", v
        for t in chain:
            body = "(%s as %s)" % (body, t)
            cur = wrap(t, cur)
        src.append("fn @@f%d(%s x):%s {\n    return %s\n}" % (i, t0, chain[-1], body))
        run.append("println(@@f%d(%d as %s))" % (i, v, t0))
        exp.append(str(cur))
    src.append("fn @@run() {\n    " + "\n    ".join(run) + "\n}")
    return Case("\n".join(src), exp, feats=["conv"])


def main():
    chk = Check("P01", rule="a case is non-trivial when it evaluates at least three operator nodes (random programs) or "
                            "one operator/conversion on at least one generated operand tuple (tables); distinct by "
                            "generated source or by (type, operator, operand form, operands)")
    run_cases(chk, None, 12000, 90000, batch=90, builtin_every=0,
              streams=[("table", 5, gen_table), ("expr", 4, gen_expr), ("conv", 1, gen_conv)])
    chk.finish()


run_main(main)
