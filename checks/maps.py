"""Maps and sets behave like finite maps and sets: operation histories against a dictionary model."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import Case, Check, run_cases, run_main
import vals as V


def key_type(d):
    k = d.below(10)
    if k < 5:
        return V.VInt(d.choice(["i64", "i32", "u8", "i8", "u16", "u64", "i16", "u32"]))
    if k < 9:
        return V.VStr()
    return V.VBool()


def keys(d, kt, n):
    """a pool of keys with collisions, near misses and shared prefixes"""
    out = []
    for _ in range(n):
        k = d.below(4)
        if isinstance(kt, V.VStr):
            if k == 0 and out:
                x = d.choice(out) + d.choice("ab\0")
            elif k == 1 and out:
                x = d.choice(out)[:-1]
            else:
                x = V.small_str(d, 0, 4, "ab01")
        elif isinstance(kt, V.VInt):
            lo, hi = V.irange(kt.t)
            x = V.gen_int(d, kt.t) if k else max(lo, min(hi, d.int(-20, 20)))
        else:
            x = d.bool()
        if x not in out:
            out.append(x)
    return out


def klit(kt, v):
    if isinstance(kt, V.VStr):
        return V.sesc(v).replace("\0", "\\0")
    return kt.lit(v)


class G:
    def __init__(self, d, kt, pool):
        self.d, self.kt, self.pool = d, kt, pool
        self.out, self.exp, self.used = [], [], set()

    def key(self):
        return self.d.choice(self.pool)

    def p(self, args, parts):
        self.out.append(V.println(args))
        self.exp.append(V.line(parts))


def gen_map(d):
    kt, vt = key_type(d), V.any_type(d, 1)
    g = G(d, kt, keys(d, kt, d.int(2, 40)))
    m = {}
    n0 = d.int(0, 5)
    init = []
    for _ in range(n0):
        k = g.key()
        if k not in m:
            m[k] = vt.gen(d)
            init.append(k)
    tn = "map<%s,%s>" % (kt.name, vt.name)
    if init or d.bool():
        g.out.append("%s m = {%s}" % (tn, ", ".join("%s: %s" % (klit(kt, k), vt.lit(m[k])) for k in init)))
    else:
        g.out.append("var m = %s.new()" % tn)
    for _ in range(d.int(5, 60)):
        op = d.weighted([(9, "set"), (6, "get"), (6, "del"), (5, "has"), (2, "len"), (2, "miss"), (2, "sub"), (1, "iter"),
                         (2, "churn"), (1, "fn")])
        g.used.add(op)
        k = g.key()
        kl = klit(kt, k)
        if op == "set":
            m[k] = vt.gen(d)
            g.out.append("m[%s] = %s" % (kl, vt.lit(m[k])))
        elif op == "get":
            if m:
                k = d.choice(sorted(m, key=str))
                g.p(vt.show1("m[%s]" % klit(kt, k)), vt.text(m[k]))
        elif op == "del":
            m.pop(k, None)
            g.out.append("m.del(%s)" % kl)
        elif op == "has":
            g.p(["m.contains(%s)" % kl], ["true" if k in m else "false"])
        elif op == "len":
            g.p(["m.len()"], [str(len(m))])
        elif op == "miss":
            if k in m:
                continue
            g.out.append("try {\n        var x = m[%s]\n        println('found')\n    } catch e {\n        println('caught')\n    }" % kl)
            g.exp.append("caught")
        elif op == "sub":
            if not m or not hasattr(vt, "places"):
                continue
            k = d.choice(sorted(m, key=str))
            suf, ct, path = V.place_of(d, vt, m[k])
            x = ct.gen(d)
            g.out.append("m[%s]%s = %s" % (klit(kt, k), suf, ct.lit(x)))
            m[k] = V.put(m[k], path, x)
        elif op == "iter":
            # order is not promised: count the pairs and check that each is in the map
            c = "c%d" % len(g.out)
            g.out.append("int %s = 0\n    for k, v in m {\n        if m.contains(k) {\n            %s += 1\n        }\n    }" % (c, c))
            g.p([c], [str(len(m))])
        elif op == "churn":
            # insert and delete the same keys over and over: the table fills with deleted marks
            if not isinstance(kt, V.VInt):
                continue
            lo, hi = V.irange(kt.t)
            a = d.int(0, 60)
            n = d.int(1, 66)
            a, n = min(a, 60), min(n, hi - a)
            x = vt.gen(d)
            g.out.append("for i in %d..%d {\n        %s ck = i as %s\n        m[ck] = %s\n        m.del(ck)\n    }" % (
                a, a + n, kt.name, kt.name, vt.lit(x)))
            for i in range(a, a + n):
                m.pop(i, None)
        elif op == "fn":
            g.p(["@@size(m)"], [str(len(m))])
    g.p(["m.len()"], [str(len(m))])
    for k in g.pool:
        if k in m:
            g.p(vt.show1("m[%s]" % klit(kt, k)), vt.text(m[k]))
        else:
            g.p(["m.contains(%s)" % klit(kt, k)], ["false"])
    code = V.declare([vt]) + ["fn @@size(%s m):int {\n    int n = 0\n    for k, v in m {\n        n += 1\n    }\n    return n\n}" % tn,
                              "fn @@run() {\n    %s\n}" % "\n    ".join(g.out)]
    return Case("\n".join(code), g.exp, nontrivial=len(g.used) >= 4, feats=g.used)


def gen_big(d):
    """thousands of keys: growth and rehashing"""
    strs = d.bool()
    n = d.int(100, 3000)
    a = d.choice([1, 2, 7, 16, 64, 1024, 1 << 32, (1 << 61) + 1])
    dm = d.int(2, 9)
    kexp = "'k' + fmt.sprintf('%%d', i * %d)" % a if strs else "i * %d" % a
    kt = "string" if strs else "i64"
    out = ["map<%s,i64> m = {}" % kt,
           "for i in 0..%d {\n        m[%s] = i * 3\n    }" % (n, kexp),
           "for i in 0..%d {\n        if i %% %d == 0 {\n            m.del(%s)\n        }\n    }" % (n, dm, kexp)]
    live = [i for i in range(n) if i % dm]
    out.append("println(m.len())")
    exp = [str(len(live))]
    out.append("i64 s = 0\n    int hit = 0\n    for i in 0..%d {\n        if m.contains(%s) {\n            hit += 1\n            "
               "s += m[%s]\n        }\n    }\n    println(hit, s)" % (n + 50, kexp, kexp))
    exp.append("%d %d" % (len(live), sum(3 * i for i in live)))
    out.append("i64 t = 0\n    for k, v in m {\n        t += v\n    }\n    println(t)")
    exp.append(str(sum(3 * i for i in live)))
    return Case("fn @@run() {\n    %s\n}" % "\n    ".join(out), exp, feats=["big"], imports=["fmt"])


def gen_set(d):
    kt = key_type(d)
    g = G(d, kt, keys(d, kt, d.int(2, 40)))
    s = set()
    init = [k for k in g.pool if d.bool(1, 5)]
    if init:
        g.out.append("set<%s> s = {%s}" % (kt.name, ", ".join(klit(kt, k) for k in init)))
        s.update(init)
    else:
        g.out.append("var s = set<%s>.new()" % kt.name)
    for _ in range(d.int(5, 70)):
        op = d.weighted([(9, "add"), (6, "del"), (6, "has"), (2, "churn")])
        g.used.add(op)
        k = g.key()
        if op == "add":
            s.add(k)
            g.out.append("s.add(%s)" % klit(kt, k))
        elif op == "del":
            s.discard(k)
            g.out.append("s.del(%s)" % klit(kt, k))
        elif op == "has":
            g.p(["s.contains(%s)" % klit(kt, k)], ["true" if k in s else "false"])
        elif isinstance(kt, V.VInt):
            lo, hi = V.irange(kt.t)
            a = d.int(0, 60)
            n = min(d.int(1, 66), hi - a)
            g.out.append("for i in %d..%d {\n        %s ck = i as %s\n        s.add(ck)\n        s.del(ck)\n    }" % (
                a, a + n, kt.name, kt.name))
            for i in range(a, a + n):
                s.discard(i)
    for k in g.pool:
        g.p(["s.contains(%s)" % klit(kt, k)], ["true" if k in s else "false"])
    return Case("fn @@run() {\n    %s\n}" % "\n    ".join(g.out), g.exp, nontrivial=len(g.used) >= 3, feats=g.used)


def main():
    chk = Check("P07", rule="a history is non-trivial when it uses at least three (set) or four (map) kinds of operation; "
                            "distinct by generated source")
    run_cases(chk, None, 2400, 40000, batch=30, streams=[("map", 5, gen_map), ("set", 3, gen_set), ("big", 1, gen_big)])
    chk.finish()


run_main(main)
