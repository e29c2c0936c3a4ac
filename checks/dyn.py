"""Union, any, nullable and tagged enum values keep the type and the value they were made from."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import Case, Check, run_cases, run_main
import vals as V


def members(d, lo, hi, tag="@@m"):
    out = []
    n = d.int(lo, hi)
    for k in range(20):
        t = V.any_type(d, 1, "%s%d" % (tag, k)) if d.bool(1, 3) else V.scalar(d)
        if t.name not in [x.name for x in out]:
            out.append(t)
        if len(out) == n:
            break
    return out


def shower(name, utype, ts, null, d, default):
    """fn name(utype x): prints the member and its value; style match or if-chain"""
    arms = []
    style = d.below(3)
    body = []
    if style == 0:
        for k, t in enumerate(ts):
            arms.append("        is %s v -> {\n            println('%d', %s)\n        }" % (t.name, k, ", ".join(t.show1("v"))))
        if null:
            arms.append("        is null -> {\n            println('null')\n        }")
        if default:
            arms.append("        _ -> {\n            println('?')\n        }")
        body.append("    match x {\n%s\n    }" % "\n".join(arms))
    elif style == 1:
        first = True
        for k, t in enumerate(ts):
            body.append("    %sif x is %s v%d {\n        println('%d', %s)\n    }" % (
                "" if first else "else ", t.name, k, k, ", ".join(t.show1("v%d" % k))))
            if not first:
                # `else` continues the previous line
                last = body.pop()
                body[-1] += " " + last.strip()
            first = False
        if null:
            body[-1] += " else {\n        println('null')\n    }"
        elif default:
            body[-1] += " else {\n        println('?')\n    }"
    else:
        for k, t in enumerate(ts):
            body.append("    if x is %s {\n        var v = x as %s\n        println('%d', %s)\n        return\n    }" % (
                t.name, t.name, k, ", ".join(t.show1("v"))))
        body.append("    println('%s')" % ("null" if null else "?"))
    return "fn %s(%s x) {\n%s\n}" % (name, utype, "\n".join(body)), style


def gen_union(d):
    kind = d.choice(["union", "union", "any", "null"])
    ts = members(d, 2, 5) if kind != "null" else members(d, 1, 1)
    extra = []
    code = []
    if kind == "union":
        null = d.bool(1, 3)
        code.append("type @@u = %s%s" % ("|".join(t.name for t in ts), "|null" if null else ""))
        ut = "@@u"
    elif kind == "any":
        null = False
        ut = "any"
        extra = [t for t in members(d, 1, 2, "@@n") if t.name not in [x.name for x in ts]]
    else:
        null = True
        ut = "%s?" % ts[0].name
    code = V.declare(ts + extra) + code
    fn, style = shower("@@show", ut, ts, null, d, kind == "any")
    code.append(fn)
    feats = {kind, "style%d" % style}
    vals_ = {}
    out, exp = [], []

    def pick():
        if null and d.bool(1, 4):
            return None, None, "null"
        k = d.below(len(ts) + len(extra))
        t = (ts + extra)[k]
        v = t.gen(d)
        return k, v, t.lit(v)

    def text(k, v):
        if k is None:
            return "null"
        if k >= len(ts):
            return "?"
        return "%d %s" % (k, V.line(ts[k].text(v)))

    def bind(k, v, lit):
        """an expression of the member type"""
        if k is None:
            return "null"
        t = (ts + extra)[k]
        nm = "m%d" % len(out)
        if isinstance(t, (V.VStr, V.VBool)) and d.bool():
            return lit
        out.append("%s %s = %s" % (t.name, nm, lit))
        return nm

    for k in range(d.int(1, 3)):
        p = pick()
        e = bind(*p)
        out.append("%s x%d = %s" % (ut, k, e))
        vals_["x%d" % k] = p[:2]
    names = sorted(vals_)
    vec = [pick() for _ in range(d.int(0, 3))]
    out.append("[%s] l = []" % ut)
    for p in vec:
        e = bind(*p)
        out.append("%s w%d = %s\n    l.push(w%d)" % (ut, len(out), e, len(out)))
    for _ in range(d.int(2, 8)):
        op = d.below(9)
        n = d.choice(names)
        k, v = vals_[n]
        if op < 2:
            p = pick()
            e = bind(*p)
            out.append("%s = %s" % (n, e))
            vals_[n] = p[:2]
            feats.add("assign")
        elif op < 3:
            m = d.choice(names)
            out.append("%s = %s" % (n, m))
            vals_[n] = vals_[m]
        elif op < 4:
            out.append("@@show(@@id(%s))" % n)
            exp.append(text(k, v))
        elif op < 5 and k is not None and kind != "null":
            # assertion to the right and to a wrong member
            right = d.bool() and k < len(ts)
            j = k if right else d.choice([i for i in range(len(ts)) if i != k] or [None])
            if j is None:
                continue
            t = ts[j]
            nm = "a%d" % len(out)
            dv = t.gen(d)
            out.append("%s d%s = %s" % (t.name, nm, t.lit(dv)))
            out.append("var %s = %s as %s catch e {\n        println('bad')\n        d%s\n    }" % (nm, n, t.name, nm))
            out.append("println(%s)" % ", ".join(t.show1(nm)))
            if not right:
                exp.append("bad")
            exp.append(V.line(t.text(v if right else dv)))
            feats.add("assert")
        elif op < 6 and vec:
            i = d.below(len(vec))
            out.append("@@show(l[%d])" % i)
            exp.append(text(*vec[i][:2]))
            feats.add("vec")
        elif op < 7 and vec:
            i = d.below(len(vec))
            out.append("l[%d] = %s" % (i, n))
            vec[i] = (k, v, None)
            feats.add("vec")
        elif op < 8:
            out.append("var h%d = @@box{a: 7, x: %s, b: 9}\n    h%d.a = 8\n    @@show(h%d.x)\n    println(h%d.a, h%d.b)" % (
                len(out), n, len(out), len(out), len(out), len(out)))
            exp += [text(k, v), "8 9"]
            feats.add("field")
        else:
            nm = "f%d" % len(out)
            out.append("var %s = fn():%s {\n        return %s\n    }\n    @@show(%s())" % (nm, ut, n, nm))
            exp.append(text(k, v))
            feats.add("closure")
    for n in names:
        out.append("@@show(%s)" % n)
        exp.append(text(*vals_[n]))
    code.append("type @@box = struct{\n    u8 a\n    %s x\n    i32 b\n}" % ut)
    code.append("fn @@id(%s x):%s {\n    return x\n}" % (ut, ut))
    code.append("fn @@run() {\n    %s\n}" % "\n    ".join(out))
    return Case("\n".join(code), exp, nontrivial=len(feats) >= 3, feats=sorted(feats))


def gen_enum(d):
    """tagged unions: constructors and destructuring matches"""
    n = d.int(2, 6)
    vs, used = [], []
    for k in range(n):
        ts = [V.any_type(d, 1, "@@e%dx%d" % (k, j)) if d.bool(1, 4) else V.scalar(d) for j in range(d.choice([0, 1, 1, 2, 3]))]
        vs.append(("v%dx" % k, ts))
        used += ts
    if not any(ts for _, ts in vs):
        vs[0] = (vs[0][0], [V.VInt("i64")])
    code = V.declare(used)
    def payload(ts):
        return "void" if not ts else ts[0].name if len(ts) == 1 else "(%s)" % ", ".join(t.name for t in ts)

    code.append("type @@t = union{\n%s\n}" % "\n".join("    %s %s" % (payload(ts), nm) for nm, ts in vs))
    arms = []
    dropped = d.below(n) if d.bool(1, 3) and n > 2 else None
    for k, (nm, ts) in enumerate(vs):
        if k == dropped:
            continue
        names = ["p%d" % j for j in range(len(ts))]
        args = ["'%d'" % k] + [y for nmj, t in zip(names, ts) for y in t.show1(nmj)]
        arms.append("        is @@t.%s%s -> {\n            println(%s)\n        }" % (
            nm, "" if not ts else " p0" if len(ts) == 1 else " (%s)" % ", ".join(names), ", ".join(args)))
    if dropped is not None:
        arms.append("        _ -> {\n            println('other')\n        }")
    code.append("fn @@show(@@t x) {\n    match x {\n%s\n    }\n}" % "\n".join(arms))
    code.append("fn @@id(@@t x):@@t {\n    return x\n}")
    out, exp = [], []

    def pick():
        k = d.below(n)
        nm, ts = vs[k]
        v = [t.gen(d) for t in ts]
        return k, v, "@@t.%s" % nm + ("(%s)" % ", ".join(t.lit(x) for t, x in zip(ts, v)) if ts else "")

    def text(k, v):
        if k == dropped:
            return "other"
        return V.line(["%d" % k] + [y for t, x in zip(vs[k][1], v) for y in t.text(x)])

    cur = {}
    for i in range(2):
        k, v, e = pick()
        out.append("var x%d = %s" % (i, e))
        cur[i] = (k, v)
    out.append("[@@t] l = []")
    lst = []
    for _ in range(d.int(2, 8)):
        i = d.below(2)
        op = d.below(5)
        if op < 2:
            k, v, e = pick()
            out.append("x%d = %s" % (i, e))
            cur[i] = (k, v)
        elif op < 3:
            out.append("x%d = @@id(x%d)" % (i, 1 - i))
            cur[i] = cur[1 - i]
        elif op < 4:
            out.append("l.push(x%d)" % i)
            lst.append(cur[i])
        else:
            out.append("@@show(x%d)" % i)
            exp.append(text(*cur[i]))
    out.append("for y in l {\n        @@show(y)\n    }\n    @@show(x0)\n    @@show(x1)")
    exp += [text(*c) for c in lst + [cur[0], cur[1]]]
    code.append("fn @@run() {\n    %s\n}" % "\n    ".join(out))
    return Case("\n".join(code), exp, nontrivial=len(exp) > 2, feats=["tagged"])


def main():
    chk = Check("P10", rule="a history is non-trivial when it uses three features (kind, inspection style, container, "
                            "assertion), a tagged union case when it prints more than two values; distinct by generated source")
    run_cases(chk, None, 2600, 40000, batch=30, streams=[("union", 3, gen_union), ("tagged", 1, gen_enum)])
    chk.finish()


run_main(main)
