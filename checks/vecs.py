"""Vectors behave like mutable sequences: histories of operations against a list model."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import Case, Check, run_cases, run_main
import vals as V


class Buf:
    def __init__(self, data):
        self.data = data


class Vec:
    """header over a buffer: slices share the buffer of their source"""

    def __init__(self, buf, off, n):
        self.buf, self.off, self.n = buf, off, n

    def get(self, i):
        return self.buf.data[self.off + i]

    def put(self, i, x):
        self.buf.data[self.off + i] = x

    def list(self):
        return self.buf.data[self.off:self.off + self.n]


def fresh(l):
    return Vec(Buf(list(l)), 0, len(l))


class Gen:
    def __init__(self, d, t):
        self.d, self.t = d, t
        self.out, self.exp = [], []
        self.vars = {}
        self.n = 0
        self.used = set()

    def name(self, p="v"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def p(self, args, parts):
        self.out.append(V.println(args))
        self.exp.append(V.line(parts))

    def show_elem(self, e, v):
        self.p(self.t.show1(e), self.t.text(v))

    def dump(self, nm):
        v = self.vars[nm]
        self.out.append("@@dump(%s)" % nm)
        self.exp.append("len %d" % v.n)
        for x in v.list():
            self.exp.append(V.line(self.t.text(x)))

    def kill_aliases(self, nm):
        b = self.vars[nm].buf
        for k in list(self.vars):
            if k != nm and self.vars[k].buf is b:
                del self.vars[k]

    def idx(self, n, i):
        return "@@id(%d)" % i if self.d.bool() else str(i)

    def step(self):
        d, t = self.d, self.t
        if not self.vars:
            return self.op_new()
        k = d.weighted([(3, "new"), (9, "push"), (8, "get"), (8, "set"), (4, "append"), (3, "concat"), (4, "slice"),
                        (3, "copy"), (3, "iter"), (3, "oob"), (2, "fill"), (3, "fnmut"), (3, "sort"), (2, "search"),
                        (3, "sub"), (2, "many"), (3, "dump"), (2, "self"), (2, "len")])
        self.used.add(k)
        nm = d.choice(sorted(self.vars))
        v = self.vars[nm]
        getattr(self, "op_" + k, lambda *_: None)(nm, v)

    def op_new(self, *_):
        d, t = self.d, self.t
        nm = self.name()
        k = d.below(5)
        if k == 0:
            n = d.int(0, 6)
            x = t.gen(d)
            self.out.append("var %s = vec<%s>.new(%s, %d)" % (nm, t.name, t.lit(x), n))
            self.vars[nm] = fresh([x] * n)
        elif k == 1:
            self.out.append("var %s = vec<%s>.cap_of(%d)" % (nm, t.name, d.int(0, 9)))
            self.vars[nm] = fresh([])
        else:
            l = [t.gen(d) for _ in range(d.int(0 if k == 2 else 1, 9))]
            self.out.append("[%s] %s = [%s]" % (t.name, nm, ", ".join(t.lit(x) for x in l)))
            self.vars[nm] = fresh(l)

    def grown(self, nm, l):
        self.kill_aliases(nm)
        self.vars[nm] = fresh(l)

    def op_push(self, nm, v):
        l = v.list()
        for _ in range(self.d.int(1, 4)):
            x = self.t.gen(self.d)
            self.out.append("%s.push(%s)" % (nm, self.t.lit(x)))
            l.append(x)
        self.grown(nm, l)

    def op_many(self, nm, v):
        n = self.d.int(5, 60)
        l = v.list()
        if not l or len(l) > 200:
            return
        i = self.d.below(len(l))
        self.out.append("for k in 0..%d {\n        %s.push(%s[%d])\n    }" % (n, nm, nm, i))
        self.grown(nm, l + [l[i]] * n)

    def op_get(self, nm, v):
        if v.n:
            i = self.d.below(v.n)
            self.show_elem("%s[%s]" % (nm, self.idx(v.n, i)), v.get(i))

    def op_set(self, nm, v):
        if not v.n:
            return
        i, x = self.d.below(v.n), self.t.gen(self.d)
        if isinstance(self.t, V.VInt) and self.d.bool(1, 3):
            op = self.d.choice(["+", "-", "^", "|", "*"])
            self.out.append("%s[%s] %s= %s" % (nm, self.idx(v.n, i), op, self.t.lit(x)))
            a = v.get(i)
            v.put(i, V.wrap(self.t.t, {"+": a + x, "-": a - x, "^": a ^ x, "|": a | x, "*": a * x}[op]))
            return
        self.out.append("%s[%s] = %s" % (nm, self.idx(v.n, i), self.t.lit(x)))
        v.put(i, x)

    def op_sub(self, nm, v):
        if not v.n or not hasattr(self.t, "places"):
            return
        i = self.d.below(v.n)
        suf, ct, path = V.place_of(self.d, self.t, v.get(i))
        x = ct.gen(self.d)
        self.out.append("%s[%s]%s = %s" % (nm, self.idx(v.n, i), suf, ct.lit(x)))
        v.put(i, V.put(v.get(i), path, x))

    def op_append(self, nm, v):
        if v.n > 120:
            return
        o = self.d.choice(sorted(self.vars))
        self.out.append("%s.append(%s)" % (nm, o))
        self.grown(nm, v.list() + self.vars[o].list())

    def op_self(self, nm, v):
        if 0 < v.n < 60:
            self.out.append("%s.append(%s)" % (nm, nm))
            self.grown(nm, v.list() * 2)

    def op_concat(self, nm, v):
        if v.n > 200:
            return
        o = self.d.choice(sorted(self.vars))
        r = self.name()
        self.out.append("var %s = %s.concat(%s)" % (r, nm, o))
        self.vars[r] = fresh(v.list() + self.vars[o].list())

    def op_slice(self, nm, v):
        a = self.d.int(0, v.n)
        b = self.d.int(a, v.n)
        r = self.name()
        self.out.append("var %s = %s.slice(%s, %s)" % (r, nm, self.idx(v.n, a), self.idx(v.n, b)))
        self.vars[r] = Vec(v.buf, v.off + a, b - a)

    def op_copy(self, nm, v):
        o = self.d.choice(sorted(self.vars))
        w = self.vars[o]
        n = min(v.n, w.n)
        self.p(["%s.copy(%s)" % (nm, o)], [str(n)])
        xs = w.list()[:n]
        for i, x in enumerate(xs):
            v.put(i, x)

    def op_iter(self, nm, v):
        lim = self.d.int(0, v.n + 1)
        if self.d.bool():
            self.out.append("for k, x in %s {\n        if k >= %d {\n            break\n        }\n        %s\n    }" % (
                nm, lim, V.println(["k"] + self.t.show1("x"))))
            self.exp += [V.line([str(k)] + self.t.text(x)) for k, x in enumerate(v.list()[:lim])]
        else:
            self.out.append("for x in %s {\n        %s\n    }" % (nm, V.println(self.t.show1("x"))))
            self.exp += [V.line(self.t.text(x)) for x in v.list()]

    def op_oob(self, nm, v):
        i = self.d.choice([v.n, v.n + 1, v.n + self.d.int(0, 100), -1, -2, -v.n - 1, 1 << 40, -(1 << 40), -(1 << 62)])
        x = self.t.lit(self.t.gen(self.d))
        body = "%s[@@id(%d)] = %s" % (nm, i, x) if self.d.bool() else \
            "var oob = %s[@@id(%d)]\n        println('no error')" % (nm, i)
        self.out.append("try {\n        %s\n        println('accepted')\n    } catch e {\n        println('caught')\n    }" % body)
        self.exp.append("caught")

    def op_fnmut(self, nm, v):
        if not v.n:
            return
        i, x = self.d.below(v.n), self.t.gen(self.d)
        self.out.append("@@mut(%s, %d, %s)" % (nm, i, self.t.lit(x)))
        v.put(i, x)

    def op_fill(self, nm, v):
        r = self.name()
        self.out.append("var %s = @@ret(%s)" % (r, nm))
        self.vars[r] = v
        if self.d.bool():
            # rebind the source: the copy stays usable
            l = [self.t.gen(self.d) for _ in range(self.d.int(0, 3))]
            self.out.append("%s = [%s]" % (nm, ", ".join(self.t.lit(x) for x in l)))
            self.vars[nm] = fresh(l)

    def op_sort(self, nm, v):
        t = self.t
        desc = self.d.bool(1, 3)
        if isinstance(t, V.VRec):
            ks = [(f, k) for k, (f, ft) in enumerate(t.fields) if isinstance(ft, V.VInt)]
            if not ks:
                return
            f, k = self.d.choice(ks)
            # equal keys may come in any order: make them unique first
            if len({x[k] for x in v.list()}) != v.n:
                return
            e, key = "%%s.%s" % f, (lambda x: x[k])
        elif t.ordered and not isinstance(t, V.VStr):
            e, key = "%s", (lambda x: x)
        else:
            return
        a, b = e % ("%s[a]" % nm), e % ("%s[b]" % nm)
        self.out.append("%s.sort(fn(int a, int b):bool {\n        return %s %s %s\n    })" % (nm, a, ">" if desc else "<", b))
        for i, x in enumerate(sorted(v.list(), key=key, reverse=desc)):
            v.put(i, x)
        if not any(k != nm and w.buf is v.buf for k, w in self.vars.items()):
            self.op_search_sorted(nm, v, e, key, desc)

    def op_search_sorted(self, nm, v, e, key, desc):
        if not v.n:
            return
        pv = key(self.d.choice(v.list()))
        pt = self.t if not isinstance(self.t, V.VRec) else [ft for f, ft in self.t.fields if e.endswith("." + f)][0]
        op = "<=" if desc else ">="
        q = self.name("q")
        self.out.append("int %s = %s.search(fn(int k):bool {\n        return %s %s %s\n    })" % (
            q, nm, e % ("%s[k]" % nm), op, pt.lit(pv)))
        idx = [i for i, x in enumerate(v.list()) if (key(x) <= pv if desc else key(x) >= pv)][0]
        self.p([q], [str(idx)])

    def op_search(self, nm, v):
        n = self.d.int(0, v.n)
        q = self.name("q")
        self.out.append("int %s = %s.search(fn(int k):bool {\n        return k >= %d\n    })" % (q, nm, n))
        self.p([q], [str(n)])

    def op_dump(self, nm, v):
        self.dump(nm)

    def op_len(self, nm, v):
        self.p(["%s.len()" % nm, "%s.cap() >= %s.len()" % (nm, nm)], [str(v.n), "true"])


def finish(g, t):
    for nm in sorted(g.vars):
        g.dump(nm)
    code = V.declare([t])
    code.append("fn @@id(int i):int {\n    return i\n}")
    code.append("fn @@dump([%s] v) {\n    println('len', v.len())\n    for x in v {\n        %s\n    }\n}" % (
        t.name, V.println(t.show1("x"))))
    code.append("fn @@mut([%s] v, int i, %s x) {\n    v[i] = x\n}" % (t.name, t.name))
    code.append("fn @@ret([%s] v):[%s] {\n    return v\n}" % (t.name, t.name))
    code.append("fn @@run() {\n    %s\n}" % "\n    ".join(g.out))
    return Case("\n".join(code), g.exp, nontrivial=len(g.used) >= 3, feats=g.used)


def gen_hist(d):
    t = V.any_type(d, 2)
    g = Gen(d, t)
    for _ in range(d.int(4, 22)):
        g.step()
    return finish(g, t)


def gen_sort(d):
    """long vectors: every branch of the sort"""
    t = V.VInt(d.choice(["i64", "i32", "u8", "i16", "u64"]))
    n = d.int(2, 400)
    shape = d.below(7)
    lo, hi = V.irange(t.t)
    m = d.choice([2, 3, 10, n, 10 * n])
    a, c = d.int(1, 997), d.int(0, 996)
    if shape == 0:
        f, fx = (lambda i: i), "i"
    elif shape == 1:
        f, fx = (lambda i: n - i), "%d - i" % n
    elif shape == 2:
        f, fx = (lambda i: (i * a + c) % m), "(i * %d + %d) %% %d" % (a, c, m)
    elif shape == 3:
        f, fx = (lambda i: (i * i * a + c) % m), "(i * i * %d + %d) %% %d" % (a, c, m)
    elif shape == 4:
        f, fx = (lambda i: i ^ a), "i ^ %d" % a
    elif shape == 5:
        f, fx = (lambda i: min(i, n - i) if False else (i if i * 2 < n else n - i)), None
        fx = "@@mnt(i, %d)" % n
    else:
        f, fx = (lambda i: c % 120), str(c % 120)
    xs = [V.wrap(t.t, f(i)) for i in range(n)]
    desc = d.bool(1, 3)
    out = ["[%s] v = []" % t.name, "for i in 0..%d {\n        v.push((%s) as %s)\n    }" % (n, fx, t.name)]
    a0, b0 = (0, n)
    if d.bool(1, 4):
        a0 = d.below(n)
        b0 = d.int(a0, n)
        out.append("var w = v.slice(%d, %d)" % (a0, b0))
    else:
        out.append("var w = v")
    out.append("w.sort(fn(int a, int b):bool {\n        return w[a] %s w[b]\n    })" % (">" if desc else "<"))
    ys = xs[:a0] + sorted(xs[a0:b0], reverse=desc) + xs[b0:]
    # print a digest of positions and a few elements
    out.append("u64 h = 7\n    for i, x in v {\n        h = h * 31 + (x as u64) + (i as u64)\n    }")
    h = 7
    for i, x in enumerate(ys):
        h = (h * 31 + (x & (2**64 - 1)) + i) & (2**64 - 1)
    out.append("println(h, v.len())")
    exp = ["%d %d" % (h, n)]
    for _ in range(3):
        i = d.below(n)
        out.append("println(v[%d])" % i)
        exp.append(str(ys[i]))
    code = ["fn @@mnt(int i, int n):int {\n    if i * 2 < n {\n        return i\n    }\n    return n - i\n}",
            "fn @@run() {\n    %s\n}" % "\n    ".join(out)]
    return Case("\n".join(code), exp, nontrivial=n > 12, feats=["shape%d" % shape])


def main():
    chk = Check("P06", rule="a history is non-trivial when it uses at least three kinds of operation, a sort when it has "
                            "more than 12 elements; distinct by generated source")
    run_cases(chk, None, 2600, 40000, batch=40, streams=[("history", 3, gen_hist), ("sort", 1, gen_sort)])
    chk.finish()


run_main(main)
