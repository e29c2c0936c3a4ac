"""Structs, arrays and tuples are values: assignment, passing and returning copy, and places are independent."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import Case, Check, run_cases, run_main
from lang import Prof
from progs import prog
import vals as V


def gen_aggs(d):
    t = d.choice([["i64", "i32", "u8"], ["i64", "f64"], ["u8", "i16", "i32", "f32"], ["i8", "u16", "u64", "f64", "i64"]])
    return prog(d, Prof(types=t, aggs=True, max_fns=3, max_stmts=7, max_depth=2, max_params=4, loops=d.bool(2, 3)))


def leaf(d, small):
    if small:
        return d.choice([V.VInt("u8"), V.VInt("u8"), V.VInt("i8"), V.VBool(), V.VInt("u16")])
    return V.scalar(d)


def inner(d, tag, small, depth=1):
    k = d.below(6)
    if k < 3:
        return V.VRec(tag, [("f%d" % j, inner(d, tag + "x%d" % j, small, depth - 1) if depth and d.bool(1, 5) else leaf(d, small))
                            for j in range(d.int(1, 9 if small else 5))])
    if k < 4:
        return V.VTup([leaf(d, small) for _ in range(d.int(2, 5))])
    e = inner(d, tag + "e", small, 0) if depth and d.bool(1, 3) else leaf(d, small)
    return V.VArr(e, d.int(1, 7 if small else 4))


def zero(t):
    if isinstance(t, V.VRec):
        return tuple(zero(x) for _, x in t.fields)
    if isinstance(t, V.VTup):
        return tuple(zero(x) for x in t.ts)
    if isinstance(t, V.VArr):
        return tuple(zero(t.t) for _ in range(t.n))
    return {"bool": False, "f64": 0.0, "string": ""}.get(t.name, 0)


def all_places(t, path="", idx=()):
    yield path, idx, t
    if hasattr(t, "places"):
        for suf, k, nt in t.places():
            yield from all_places(nt, path + suf, idx + (k,))


def has_arr(t):
    return isinstance(t, V.VArr) or hasattr(t, "places") and any(has_arr(x) for _, _, x in t.places())


def emit(t, e, ind, depth=0):
    """statements printing a place, with loops over arrays (every constant index costs three blocks)"""
    if not has_arr(t):
        return [ind + V.println(t.show1(e))]
    if isinstance(t, V.VArr):
        i = "i%d" % depth
        return [ind + "for %s in 0..%d {" % (i, t.n)] + emit(t.t, "%s[%s]" % (e, i), ind + "    ", depth + 1) + [ind + "}"]
    return [x for suf, _, pt in t.places() for x in emit(pt, e + suf, ind, depth)]


def lines(t, v):
    if not has_arr(t):
        return [V.line(t.text(v))]
    if isinstance(t, V.VArr):
        return [x for y in v for x in lines(t.t, y)]
    return [x for (_, k, pt) in t.places() for x in lines(pt, v[k])]


def gen_places(d):
    """packed places: every access is followed by a dump of everything that could have been hit"""
    small = d.bool(2, 3)
    it = inner(d, "@@in", small)
    g = lambda: leaf(d, small)
    fs = [("g0", g()), ("a", it), ("g1", g()), ("b", V.VArr(it, d.int(1, 4))), ("c", V.VTup([g(), it])), ("g2", g())]
    keep = [f for f in fs if d.bool(3, 4)]
    if not any(n in "abc" for n, _ in keep):
        keep.append(fs[1])
    ot = V.VRec("@@out", keep)
    out, exp, feats = [], [], set()
    kinds = {"o": ot, "p": ot, "x": it, "y": it, "z": V.VArr(it, d.int(1, 3))}
    glob = {}
    if d.bool():
        glob = {"@@go": ot, "@@gz": V.VArr(it, 2)}
    env = {}
    for n, t in kinds.items():
        v = t.gen(d)
        env[n] = (t, v)
        out.append("%s %s = %s" % (t.name, n, t.lit(v)))
    for n, t in glob.items():
        env[n] = (t, zero(t))
    if d.bool(1, 3):
        v = it.gen(d)
        env["h"] = (it, v)
        out.append("%s h = %s" % (it.name, it.lit(v)))
        out.append("var hp = &h")
        feats.add("ptr")
    dumpers = {}

    def dumper(t):
        return dumpers.setdefault(t.name, ("@@d%d" % len(dumpers), t))[0]

    aggs = {}
    for n, (t, _) in env.items():
        for p, idx, pt in all_places(t):
            aggs.setdefault(pt.name, []).append((n, p, idx, pt))
    shared = [k for k, l in aggs.items() if len(l) > 1 and hasattr(l[0][3], "places")]
    leaves = [x for k, l in aggs.items() for x in l if not hasattr(x[3], "places")]

    def write(pl, x):
        n, p, idx, pt = pl
        t, v = env[n]
        env[n] = (t, V.put(v, idx, x))

    def read(pl):
        n, p, idx, pt = pl
        return V.get(env[n][1], idx)

    def e(pl):
        return pl[0] + pl[1]

    lp = [(p, idx, pt) for p, idx, pt in all_places(it) if not hasattr(pt, "places")]
    mp, midx, mt = d.choice(lp)
    mv = mt.gen(d)
    its = aggs[it.name]
    for _ in range(d.int(3, 9)):
        k = d.below(10)
        if k < 2:
            pl = d.choice(leaves)
            x = pl[3].gen(d)
            out.append("%s = %s" % (e(pl), pl[3].lit(x)))
            write(pl, x)
            feats.add("leaf")
        elif k < 5:
            l = aggs[d.choice(shared)] if shared else its
            a, b = d.choice(l), d.choice(l)
            if d.bool(1, 4):
                tmp = "t%d" % len(out)
                out.append("var %s = %s" % (tmp, e(b)))
                out.append("%s = %s" % (e(a), tmp))
            else:
                out.append("%s = %s" % (e(a), e(b)))
            write(a, read(b))
            feats.add("copy")
        elif k < 6:
            a = d.choice(its)
            x = it.gen(d)
            out.append("%s = %s" % (e(a), it.lit(x)))
            write(a, x)
            feats.add("literal")
        elif k < 7:
            a, b = d.choice(its), d.choice(its)
            out.append("%s = @@mut(%s)" % (e(a), e(b)))
            write(a, V.put(read(b), midx, mv))
            feats.add("return")
        elif k < 8:
            b, c = d.choice(its), d.choice(its)
            n1, n2 = d.int(-9, 99), d.int(-9, 99)
            a = d.choice(its)
            out.append("%s = @@sel(%d, %s, %d, %s)" % (e(a), n1, e(b), n2, e(c)))
            exp.append("%d %d" % (n1, n2))
            write(a, read(b) if n1 < n2 else read(c))
            feats.add("params")
        elif k < 9 and "h" in env:
            x = mt.gen(d)
            out.append("hp%s = %s" % (mp, mt.lit(x)) if isinstance(it, V.VRec) and mp else "h%s = %s" % (mp, mt.lit(x)))
            env["h"] = (it, V.put(env["h"][1], midx, x))
            feats.add("through-ptr")
        else:
            a = d.choice([x for x in its if not x[0].startswith("@@")])
            x = it.gen(d)
            fn = "f%d" % len(out)
            out.append("var %s = fn(%s q) {\n        %s = q\n    }" % (fn, it.name, e(a)))
            out.append("%s(%s)" % (fn, it.lit(x)))
            write(a, x)
            feats.add("closure")
        if d.bool(1, 3):
            n = d.choice(sorted(env))
            t, v = env[n]
            out.append("%s(%s)" % (dumper(t), n))
            exp.extend(lines(t, v))
    for n in sorted(env):
        t, v = env[n]
        out.append("%s(%s)" % (dumper(t), n))
        exp.extend(lines(t, v))
    code = V.declare([ot])
    for k, (nm, t) in dumpers.items():
        code.append("fn %s(%s v) {\n%s\n}" % (nm, t.name, "\n".join(emit(t, "v", "    "))))
    for n, t in glob.items():
        code.append("%s %s = %s" % (t.name, n, "[]" if isinstance(t, V.VArr) else t.name + "{}"))
    code.append("fn @@mut(%s v):%s {\n    v%s = %s\n    return v\n}" % (it.name, it.name, mp, mt.lit(mv)))
    code.append("fn @@sel(i64 n1, %s a, i32 n2, %s b):%s {\n    println(n1, n2)\n    if n1 < (n2 as i64) {\n        return a\n    }\n    return b\n}" % (
        it.name, it.name, it.name))
    code.append("fn @@run() {\n    %s\n}" % "\n    ".join(out))
    return Case("\n".join(code), exp, nontrivial=len(feats) >= 2, feats=sorted(feats))


def main():
    chk = Check("P05", rule="a program is non-trivial when it evaluates at least three operator nodes and prints at least "
                            "one value, a place history when it uses two kinds of access; distinct by generated source")
    run_cases(chk, None, 3600, 50000, batch=40, streams=[("program", 1, gen_aggs), ("places", 1, gen_places)])
    chk.finish()


run_main(main)
