"""P12: closures share the variables they capture.

Random programs of nested closures, factories, closures stored in containers and
run in coroutines, against an interpreter in which every variable is a cell and
a closure is a body plus the cells it can see."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import Case, Check, run_cases, run_main
import vals
from vals import VInt, VBool, VStr, any_type, declare, place_of, put, get


class VVec:
    """[int], only grown and read"""
    name = "[int]"
    decls = ()

    def gen(self, d):
        return [d.int(0, 9) for _ in range(d.int(1, 3))]

    def lit(self, v):
        return "[%s]" % ", ".join(map(str, v))

    def show1(self, e):
        return [e + ".len()", e + "[%s.len() - 1]" % e]

    def text(self, v):
        return [str(len(v)), str(v[-1])]


class VMap:
    """map<string,int>, only extended and read"""
    name = "map<string,int>"
    decls = ()

    def gen(self, d):
        return {"k": d.int(0, 9)}

    def lit(self, v):
        return "{%s}" % ", ".join("'%s': %d" % kv for kv in v.items())

    def show1(self, e):
        return [e + ".len()", e + "['k']"]

    def text(self, v):
        return [str(len(v)), str(v["k"])]


INT = VInt("i64")


class Fn:
    """a closure's text: parameters, statements, result variable"""

    def __init__(self, params, ret):
        self.params, self.ret = params, ret
        self.ops = []
        self.result = None

    def sig(self):
        return (tuple(t.name for _, t in self.params), self.ret.name if self.ret else None)

    def typ(self):
        return "fn(%s)%s" % (", ".join(t.name for _, t in self.params), ":" + self.ret.name if self.ret else "")


class Gen:
    def __init__(self, d):
        self.d = d
        self.n = 0
        self.types = []
        self.feats = set()
        self.factories = []
        self.loopdepth = 0
        self.top = False
        self.pool = [INT, VStr(), any_type(d, 1, "@@a"), any_type(d, 2, "@@b"), any_type(d, 1, "@@c"), VVec(), VMap()]
        self.types += [t for t in self.pool if not isinstance(t, (VVec, VMap))]

    def name(self, p):
        self.n += 1
        return "%s_%d" % (p, self.n)

    # ---- statements; a scope is a list of ("var", name, type) / ("fn", name, Fn) / ("list", name)

    def vars(self, scope, t=None):
        return [(n, ty) for k, n, ty in scope if k == "var" and (t is None or ty.name == t.name)]

    def lit_args(self, f):
        return [(t, t.gen(self.d)) for _, t in f.params]

    def decl(self, scope, ops):
        d = self.d
        t = d.choice(self.pool)
        n = self.name("v")
        same = self.vars(scope, t) if not isinstance(t, (VVec, VMap)) else []
        if same and d.bool(1, 3):
            ops.append(("copydecl", n, t, d.choice(same)[0]))
        else:
            ops.append(("decl", n, t, t.gen(d)))
        scope.append(("var", n, t))

    def closure(self, scope, depth, sig=None):
        d = self.d
        if sig:
            params, ret = [(self.name("p"), t) for t in sig[0]], sig[1]
        else:
            params = [(self.name("p"), d.choice(self.pool)) for _ in range(d.int(0, 2))]
            ret = d.choice([None, d.choice(self.pool)])
        f = Fn(params, ret)
        inner = list(scope) + [("var", n, t) for n, t in params]
        top, self.top = self.top, False
        self.body(inner, f.ops, depth - 1, d.int(1, 4))
        self.top = top
        if ret:
            cands = self.vars(inner, ret)
            if not cands:
                n = self.name("v")
                f.ops.append(("decl", n, ret, ret.gen(d)))
                cands = [(n, ret)]
            f.result = cands[-1 - d.below(len(cands))][0]
        return f

    def body(self, scope, ops, depth, n):
        d = self.d
        for _ in range(n):
            k = d.below(20)
            vs = self.vars(scope)
            fns = [(m, f) for kk, m, f in scope if kk == "fn"]
            lists = [m for kk, m, _ in scope if kk == "list"]
            if k < 2 or not vs:
                self.decl(scope, ops)
            elif k < 7:
                self.mutate(scope, ops)
            elif k < 9:
                ops.append(("print", d.choice(vs)))
            elif k < 12 and depth > 0:
                f = self.closure(scope, depth)
                m = self.name("f")
                ops.append(("fn", m, f))
                scope.append(("fn", m, f))
            elif k < 15 and fns:
                m, f = d.choice(fns)
                args = self.lit_args(f)
                dst = [x for x in self.vars(scope, f.ret)] if f.ret and not isinstance(f.ret, (VVec, VMap)) else []
                how = d.choice(["plain", "plain", "go"]) if self.top else "plain"
                if how == "go":
                    self.feats.add("coroutine")
                ops.append(("call", m, f, args, d.choice(dst)[0] if dst and d.bool() else None, how))
            elif k < 16 and self.factories:
                m, f, made = d.choice(self.factories)
                n2 = self.name("f")
                ops.append(("call", m, f, self.lit_args(f), None, "make:" + n2))
                scope.append(("fn", n2, made))
                self.feats.add("factory")
            elif k < 18 and depth > 0 and self.loopdepth < 2:
                # closures made in a loop, kept in a list
                l = self.name("l")
                ops.append(("list", l))
                inner = list(scope)
                lo = []
                self.loopdepth += 1
                cnt = d.int(1, 4)
                kind = d.choice(["count", "in", "in2"])
                iv = self.name("i")
                iv2 = self.name("w")
                itemt = INT
                if kind == "count":
                    items = list(range(cnt))
                elif kind == "in":
                    itemt = d.choice([INT, VStr(), self.pool[2]])
                    items = [itemt.gen(d) for _ in range(cnt)]
                    inner.append(("var", iv, itemt))
                else:
                    itemt = d.choice([INT, VStr(), self.pool[2]])
                    items = [itemt.gen(d) for _ in range(cnt)]
                    inner.append(("var", iv, INT))
                    inner.append(("var", iv2, itemt))
                if d.bool(3, 4):
                    self.decl(inner, lo)
                if d.bool(1, 3):
                    self.mutate(inner, lo)
                f = self.closure(inner, depth, ([INT], INT))
                lo.append(("push", l, f))
                if d.bool(1, 4):
                    self.mutate(inner, lo)
                self.loopdepth -= 1
                ops.append(("loop", kind, iv, iv2, itemt, items, lo))
                scope.append(("list", l, None))
                self.feats.add("loop-" + kind)
            elif lists:
                ops.append(("each", d.choice(lists), d.int(0, 9), self.name("r"), d.bool()))
            else:
                self.mutate(scope, ops)

    def mutate(self, scope, ops):
        d = self.d
        vs = self.vars(scope)
        if not vs:
            return self.decl(scope, ops)
        n, t = d.choice(vs)
        if isinstance(t, VVec):
            ops.append(("push1", n, d.int(0, 99)))
        elif isinstance(t, VMap):
            ops.append(("mput", n, d.choice(["k", "x", "y"]), d.int(0, 99)))
        else:
            same = [x for x in self.vars(scope, t) if x[0] != n]
            if same and d.bool(1, 3):
                ops.append(("copy", n, t, d.choice(same)[0]))
                return
            suf, ct, path = place_of(d, t, None)
            if isinstance(ct, VInt) and d.bool():
                ops.append(("add", n, suf, ct, path, d.int(1, 100)))
            elif isinstance(ct, VStr) and d.bool(1, 3):
                ops.append(("cat", n, suf, path, d.choice(["z", "yy"])))
            else:
                ops.append(("set", n, suf, ct, path, ct.gen(d)))

    # ---- text

    def text(self, ops, ind):
        out = []
        p = "    " * ind
        for o in ops:
            k = o[0]
            if k == "decl":
                out.append("%s%s %s = %s" % (p, o[2].name, o[1], o[2].lit(o[3])))
            elif k == "copydecl":
                out.append("%s%s %s = %s" % (p, o[2].name, o[1], o[3]))
            elif k == "copy":
                out.append("%s%s = %s" % (p, o[1], o[3]))
            elif k == "set":
                out.append("%s%s%s = %s" % (p, o[1], o[2], o[3].lit(o[5])))
            elif k == "add":
                out.append("%s%s%s += %d" % (p, o[1], o[2], o[5]))
            elif k == "cat":
                out.append("%s%s%s = %s%s + '%s'" % (p, o[1], o[2], o[1], o[2], o[4]))
            elif k == "push1":
                out.append("%s%s.push(%d)" % (p, o[1], o[2]))
            elif k == "mput":
                out.append("%s%s['%s'] = %d" % (p, o[1], o[2], o[3]))
            elif k == "print":
                n, t = o[1]
                out.append("%sprintln(%s)" % (p, ", ".join(["'%s'" % n] + t.show1(n))))
            elif k == "fn":
                out += self.fntext("%svar %s = " % (p, o[1]), o[2], ind, "")
            elif k == "push":
                out += self.fntext("%s%s.push(" % (p, o[1]), o[2], ind, ")")
            elif k == "list":
                out.append("%s[fn(i64):i64] %s = []" % (p, o[1]))
            elif k == "loop":
                _, kind, iv, iv2, itemt, items, lo = o
                if kind == "count":
                    out.append("%sfor int %s = 0; %s < %d; %s += 1 {" % (p, iv, iv, len(items), iv))
                else:
                    out.append("%s[%s] x%s = [%s]" % (p, itemt.name, iv, ", ".join(itemt.lit(x) for x in items)))
                    out.append("%sfor %s in x%s {" % (p, iv if kind == "in" else "%s, %s" % (iv, iv2), iv))
                out += self.text(lo, ind + 1)
                out.append(p + "}")
            elif k == "each":
                _, l, a, r, again = o
                out.append("%sfor %s in %s {" % (p, r, l))
                for _ in range(2 if again else 1):
                    out.append("%s    println('%s', %s(%d))" % (p, r, r, a))
                out.append(p + "}")
            elif k == "call":
                _, m, f, args, dst, how = o
                call = "%s(%s)" % (m, ", ".join(t.lit(v) for t, v in args))
                if how.startswith("make:"):
                    out.append("%svar %s = %s" % (p, how[5:], call))
                    continue
                if how == "go":
                    call = "%s = go %s" % ("var " + self.fut(o), call)
                    out.append(p + call)
                    call = self.fut(o) + (".await()" if f.ret else ".await_void()")
                if dst:
                    out.append("%s%s = %s" % (p, dst, call))
                elif f.ret:
                    r = "r" + self.fut(o)
                    out.append("%svar %s = %s" % (p, r, call))
                    out.append("%sprintln(%s)" % (p, ", ".join(["'%s'" % m] + f.ret.show1(r))))
                else:
                    out.append(p + call)
        return out

    def fut(self, o):
        if not hasattr(self, "futs"):
            self.futs = {}
        return self.futs.setdefault(id(o), "fu_%d" % len(self.futs))

    def fntext(self, head, f, ind, tail):
        out = ["%sfn(%s)%s {" % (head, ", ".join("%s %s" % (t.name, n) for n, t in f.params),
                                 ":%s!" % f.ret.name if f.ret and False else (":" + f.ret.name if f.ret else ""))]
        out += self.text(f.ops, ind + 1)
        if f.result:
            out.append("    " * (ind + 1) + "return " + f.result)
        out.append("    " * ind + "}" + tail)
        return out

    # ---- interpretation

    def run(self, ops, env, out):
        for o in ops:
            self.fuel -= 1
            if self.fuel < 0:
                raise OverflowError
            k = o[0]
            if k == "decl":
                v = o[3]
                env[o[1]] = [list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v]
            elif k == "copydecl":
                env[o[1]] = [env[o[3]][0]]
            elif k == "copy":
                env[o[1]][0] = env[o[3]][0]
            elif k == "set":
                c = env[o[1]]
                c[0] = put(c[0], o[4], o[5])
            elif k == "add":
                c = env[o[1]]
                c[0] = put(c[0], o[4], vals.wrap(o[3].t, get(c[0], o[4]) + o[5]))
            elif k == "cat":
                c = env[o[1]]
                c[0] = put(c[0], o[3], get(c[0], o[3]) + o[4])
                if len(get(c[0], o[3])) > 4000:
                    raise OverflowError
            elif k == "push1":
                env[o[1]][0].append(o[2])
            elif k == "mput":
                env[o[1]][0][o[2]] = o[3]
            elif k == "print":
                n, t = o[1]
                out.append(vals.line([n] + t.text(env[n][0])))
            elif k == "fn":
                env[o[1]] = (o[2], dict(env))
            elif k == "push":
                env[o[1]].append((o[2], dict(env)))
            elif k == "list":
                env[o[1]] = []
            elif k == "loop":
                _, kind, iv, iv2, itemt, items, lo = o
                for j, x in enumerate(items):
                    e = dict(env)
                    if kind == "in":
                        e[iv] = [x]
                    elif kind == "in2":
                        e[iv] = [j]
                        e[iv2] = [x]
                    self.run(lo, e, out)
            elif k == "each":
                _, l, a, r, again = o
                for inst in env[l]:
                    for _ in range(2 if again else 1):
                        out.append("%s %d" % (r, self.call(inst, [a], out)))
            elif k == "call":
                _, m, f, args, dst, how = o
                av = [list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v for _, v in args]
                if m.startswith("@@"):
                    r = self.call((f, {"": None}), av, out)
                    env[how[5:]] = r
                    continue
                r = self.call(env[m], av, out)
                if dst:
                    env[dst][0] = r
                elif f.ret:
                    out.append(vals.line([m] + f.ret.text(r)))

    def call(self, inst, args, out):
        f, env = inst
        e = dict(env)
        for (n, _), v in zip(f.params, args):
            e[n] = [v]
        self.run(f.ops, e, out)
        if f.result:
            r = e[f.result]
            return r if isinstance(r, tuple) else r[0]


def gen_prog(d):
    g = Gen(d)
    for k in range(d.below(3)):
        params = [(g.name("p"), d.choice(g.pool)) for _ in range(d.int(0, 3))]
        f = Fn(params, None)
        scope = [("var", n, t) for n, t in params]
        g.body(scope, f.ops, 1, d.int(0, 2))
        made = g.closure(scope, 2)
        m = g.name("f")
        f.ops.append(("fn", m, made))
        f.result = m
        f.made = made
        g.factories.append(("@@mk%d" % k, f, made))
    scope, ops = [], []
    g.top = True
    g.decl(scope, ops)
    g.decl(scope, ops)
    g.body(scope, ops, 3, d.int(4, 12))
    for n, t in g.vars(scope):
        ops.append(("print", (n, t)))
    out = []
    g.fuel = 1500
    try:
        g.run(ops, {}, out)
        ok = True
    except OverflowError:
        ok = False
    if not ok or len(out) > 300:
        return Case("fn @@run():void! {\n    println('skip')\n}", ["skip"], False, errable=True)
    code = declare(g.types)
    for m, f, made in g.factories:
        code.append("fn %s(%s):%s {" % (m, ", ".join("%s %s" % (t.name, n) for n, t in f.params), made.typ()))
        code += g.text(f.ops, 1)
        code.append("    return %s" % f.result)
        code.append("}")
    code.append("fn @@run():void! {")
    code += g.text(ops, 1)
    code.append("}")
    captured = nested(ops)
    return Case("\n".join(code), out, nontrivial=captured > 0 and len(out) > 2, feats=sorted(g.feats) + (["nested"] if captured > 1 else []),
                errable=True)


def nested(ops):
    best = 0
    for o in ops:
        if o[0] in ("fn", "push"):
            best = max(best, 1 + nested(o[2].ops))
        elif o[0] == "loop":
            best = max(best, nested(o[6]))
    return best


def main():
    chk = Check("P12", rule="non-trivial: the case creates a closure and prints more than two lines; distinct by source text")
    run_cases(chk, None, 2600, 30000, batch=26, run_timeout=40, streams=[("prog", 1, gen_prog)])
    return chk.finish()


if __name__ == "__main__":
    run_main(main)
