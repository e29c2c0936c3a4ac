"""Generic code means the same for every type it is used with, and interface calls reach the method of the value's type."""
import os
import re
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import Case, Check, run_cases, run_main
import vals as V


# ------------------------------------------------------------------------------------------------ interfaces

class Meth:
    def __init__(self, name, params, ret, err):
        self.name, self.params, self.ret, self.err = name, params, ret, err

    def sig(self, sub=None):
        f = lambda t: sub.get(id(t), t.name) if sub else t.name
        r = ":%s%s" % (f(self.ret) if self.ret else "void", "!" if self.err else "") if self.ret or self.err else ""
        return "fn %s(%s)%s" % (self.name, ", ".join(f(t) for t in self.params), r)


class Iface:
    def __init__(self, name, meths, parents=()):
        self.name, self.own, self.parents = name, meths, list(parents)

    def all(self):
        out = list(self.own)
        for p in self.parents:
            out += [m for m in p.all() if m not in out]
        return out

    def bases(self):
        """every interface a type that declares this one may be used as"""
        out = [self]
        for p in self.parents:
            out += [b for b in p.bases() if b not in out]
        return out


class Impl:
    """body: method -> (receiver, [step], result); step: ('set', field, src) | ('call', meth, [src])"""

    def __init__(self, name, t, ifaces):
        self.name, self.t, self.ifaces = name, t, ifaces
        self.body = {}

    def meths(self):
        out = []
        for i in self.ifaces:
            out += [m for m in i.all() if m not in out]
        return out

    def usable(self):
        out = []
        for i in self.ifaces:
            out += [b for b in i.bases() if b not in out]
        return out


def src_of(d, t, impl, m, upto=None):
    """where a value of type t may come from inside a method: a field, a parameter, a literal or a sum"""
    c = [("lit", t.gen(d))]
    if isinstance(impl.t, V.VRec):
        c += [("field", f) for f, ft in impl.t.fields if ft.name == t.name] * 2
    c += [("par", k) for k, p in enumerate(m.params) if p.name == t.name] * 2
    s = d.choice(c)
    if isinstance(t, V.VInt) and d.bool(1, 3):
        return ("add", s, d.choice(c))
    return s


def src_text(s, t, impl):
    if s[0] == "lit":
        return t.lit(s[1])
    if s[0] == "field":
        return "self.%s" % s[1]
    if s[0] == "par":
        return "p%d" % s[1]
    return "%s + %s" % (src_text(s[1], t, impl), src_text(s[2], t, impl))


def src_val(s, t, impl, cell, args):
    if s[0] == "lit":
        return s[1]
    if s[0] == "field":
        return cell[s[1]]
    if s[0] == "par":
        return args[s[1]]
    return V.wrap(t.t, src_val(s[1], t, impl, cell, args) + src_val(s[2], t, impl, cell, args))


class Thrown(Exception):
    pass


def invoke(impl, m, cell, args, depth=0):
    recv, steps, guard, res = impl.body[m]
    if recv == "self":
        cell = dict(cell)
    if guard is not None:
        k, v, msg = guard
        if args[k] == v:
            raise Thrown(msg)
    for st in steps:
        if st[0] == "set":
            cell[st[1]] = src_val(st[3], st[2], impl, cell, args)
        else:
            invoke(impl, st[1], cell, [src_val(s, t, impl, cell, args) for s, t in zip(st[2], st[1].params)], depth + 1)
    return src_val(res, m.ret, impl, cell, args) if m.ret else None


def mutates(impl, m):
    recv, steps, _, _ = impl.body[m]
    return recv != "self" and any(s[0] == "set" or mutates(impl, s[1]) for s in steps)


def gen_iface(d):
    feats = set()
    pool = [V.scalar(d) for _ in range(d.int(1, 3))] + [V.VInt("i64")]
    if d.bool(1, 3):
        pool.append(V.VRec("@@rec", [("x", V.scalar(d)), ("y", V.scalar(d))]))
    code, nm = [], [0]
    ifaces = []
    for k in range(d.int(1, 3)):
        ms = []
        generic = d.bool(1, 3)
        tp = d.choice(pool)
        for _ in range(d.int(1, 3)):
            ps = [d.choice(pool) for _ in range(d.choice([0, 1, 1, 2, 3, 7]))]
            ms.append(Meth("m%d" % nm[0], ps, d.choice(pool) if d.bool(3, 4) else None, d.bool(1, 5)))
            nm[0] += 1
        name = "@@i%d" % k
        parents = []
        if ifaces and d.bool(1, 3):
            parents = [d.choice(ifaces)]
            feats.add("combined")
        if generic:
            feats.add("generic interface")
            code.append("type %s<T>%s = interface{\n%s\n}" % (
                name, ": " + ", ".join(p.name for p in parents) if parents else "",
                "\n".join("    " + m.sig({id(tp): "T"}) for m in ms)))
            name = "%s<%s>" % (name, tp.name)
        else:
            code.append("type %s%s = interface{\n%s\n}" % (
                name, ": " + ", ".join(p.name for p in parents) if parents else "", "\n".join("    " + m.sig() for m in ms)))
        ifaces.append(Iface(name, ms, parents))
        if generic and parents:
            # what a combined generic interface inherits is fixed per instance; kept to plain interfaces
            ifaces.pop()
            code.pop()
    if not ifaces:
        ifaces.append(Iface("@@j", [Meth("mj", [V.VInt("i64")], V.VInt("i64"), False)]))
        code.append("type @@j = interface{\n    fn mj(i64):i64\n}")
    impls = []
    for k in range(d.int(1, 3)):
        chosen = []
        for _ in range(d.int(1, 2)):
            i = d.choice(ifaces)
            if not any(i in c.bases() or c in i.bases() for c in chosen):
                chosen.append(i)
        alias = d.bool(1, 4)
        name = "@@t%d" % k
        if alias:
            t = V.VInt(d.choice(["i8", "u16", "i32", "u64", "i64"]))
            t = type("A", (), {"fields": [("v", t)], "name": name, "base": t})()
            feats.add("alias")
        else:
            t = V.VRec(name, [("f%d" % j, d.choice(pool) if d.bool(2, 3) else V.scalar(d)) for j in range(d.int(1, 4))])
        im = Impl(name, t, chosen)
        im.alias = alias
        code.append("type %s: %s = %s" % (name, ", ".join(i.name for i in chosen),
                                          t.base.name if alias else "struct{\n%s\n}" % "\n".join(
                                              "    %s %s" % (ft.name, f) for f, ft in t.fields)))
        done = []
        for m in im.meths():
            recv = d.choice(["self", "&self", "*self"]) if not alias else "self"
            steps = []
            guard = None
            if m.err and m.params and not alias:
                g = d.below(len(m.params))
                if isinstance(m.params[g], (V.VInt, V.VBool, V.VStr)):
                    guard = (g, m.params[g].gen(d), "e%d" % d.below(100))
            if not alias:
                for _ in range(d.choice([0, 1, 1, 2, 3])):
                    c = [x for x in done if not x.err and im.body[x][0] != "&self" or recv == "&self" and not x.err]
                    if c and d.bool(1, 4):
                        cm = d.choice(c)
                        if recv != "&self" and im.body[cm][0] == "&self":
                            continue
                        steps.append(("call", cm, [src_of(d, p, im, m) for p in cm.params]))
                        feats.add("self call")
                    else:
                        f, ft = d.choice(t.fields)
                        steps.append(("set", f, ft, src_of(d, ft, im, m)))
            if alias:
                res = None
                if m.ret:
                    c = [("lit", m.ret.gen(d))] + [("par", j) for j, p in enumerate(m.params) if p.name == m.ret.name]
                    if m.ret.name == t.base.name:
                        c += [("own",)] * 3
                    res = d.choice(c)
            else:
                res = src_of(d, m.ret, im, m) if m.ret else None
            im.body[m] = (recv, steps, guard, res)
            done.append(m)
            b = []
            if guard:
                g = guard
                b.append("    if p%d == %s {\n        throw errorf('%s')\n    }" % (g[0], m.params[g[0]].lit(g[1]), g[2]))
            for st in steps:
                if st[0] == "set":
                    b.append("    self.%s = %s" % (st[1], src_text(st[3], st[2], im)))
                else:
                    call = "self.%s(%s)" % (st[1].name, ", ".join(src_text(s, p, im) for s, p in zip(st[2], st[1].params)))
                    b.append("    %s%s" % ("var @c%d = " % len(b) if st[1].ret else "", call))
                    b[-1] = b[-1].replace("@c", "c_")
            if res:
                b.append("    return %s" % ("(self as %s)" % t.base.name if res[0] == "own" else src_text(res, m.ret, im)))
            r = ":%s%s" % (m.ret.name if m.ret else "void", "!" if m.err else "") if m.ret or m.err else ""
            code.append("fn %s.%s(%s)%s {\n%s\n}" % (
                name, m.name, ", ".join([recv] + ["%s p%d" % (p.name, j) for j, p in enumerate(m.params)]), r, "\n".join(b)))
        if len(set(im.body[m][0] for m in im.body)) > 1:
            feats.add("mixed receivers")
        impls.append(im)
    if len(impls) > 1:
        feats.add("several types")
    out, exp = [], []
    n = [0]

    def fresh(p):
        n[0] += 1
        return "%s%d" % (p, n[0])

    def make(im, ref):
        if im.alias:
            v = im.t.base.gen(d)
            return {"v": v}, "(%s as %s)" % (V.ilit(im.t.base.name, v), im.name)
        vals_ = [(f, t, t.gen(d)) for f, t in im.t.fields]
        cell = {f: v for f, t, v in vals_}
        if ref:
            return cell, "new %s(%s)" % (im.name, ", ".join("%s = %s" % (f, t.lit(v)) for f, t, v in vals_))
        return cell, "%s{%s}" % (im.name, ", ".join("%s: %s" % (f, t.lit(v)) for f, t, v in vals_))

    objs = []       # [expr, impl, cell, isref]
    holders = []    # dict(expr, iface, impl, cell, isref, shared)

    def new_obj():
        im = d.choice(impls)
        ref = d.bool() and not im.alias
        cell, e = make(im, ref)
        x = fresh("v")
        out.append("var %s = %s" % (x, e))
        objs.append([x, im, cell, ref])
        return objs[-1]

    def args_of(m):
        return [p.gen(d) for p in m.params]

    def do_call(expr, im, m, cell, pre=""):
        args = args_of(m)
        g = im.body[m][2]
        if g and d.bool():
            args[g[0]] = g[1]
        call = "%s.%s(%s)" % (expr, m.name, ", ".join(p.lit(a) for p, a in zip(m.params, args)))
        try:
            if im.alias:
                res = im.body[m][3]
                r = None if not m.ret else cell["v"] if res[0] == "own" else src_val(res, m.ret, im, cell, args)
            else:
                r = invoke(im, m, cell, args)
            thrown = None
        except Thrown as e:
            thrown, r = str(e), None
        if m.err:
            if m.ret:
                dv = m.ret.gen(d)
                x = fresh("q")
                out.append("%s d%s = %s" % (m.ret.name, x, m.ret.lit(dv)))
                out.append("var %s = %s catch e {\n        println('caught', e.msg())\n        d%s\n    }" % (x, call, x))
                out.append("println(%s)" % ", ".join(m.ret.show1(x)))
                if thrown:
                    exp.append("caught %s" % thrown)
                    r = dv
                exp.append(V.line(m.ret.text(r)))
            else:
                out.append("%s catch e {\n        println('caught', e.msg())\n    }" % call)
                if thrown:
                    exp.append("caught %s" % thrown)
            feats.add("errors")
        elif m.ret:
            x = fresh("q")
            out.append("var %s = %s" % (x, call))
            out.append("println(%s)" % ", ".join(m.ret.show1(x)))
            exp.append(V.line(m.ret.text(r)))
        else:
            out.append(call)

    def hold(o, i):
        x, im, cell, ref = o
        return dict(iface=i, impl=im, cell=cell if ref else dict(cell), isref=ref, shared=False)

    for _ in range(d.int(1, 3)):
        new_obj()
    for i in ifaces:
        o = [o for o in objs if i in o[1].usable()]
        if o:
            o = d.choice(o)
            x = fresh("h")
            out.append("%s %s = %s" % (i.name, x, o[0]))
            holders.append(dict(hold(o, i), expr=x))
    vec = {}
    fns = []
    for _ in range(d.int(4, 14)):
        op = d.below(12)
        if op < 1:
            new_obj()
        elif op < 5 and holders:
            h = d.choice(holders)
            ms = [m for m in h["iface"].all() if not h["shared"] or not mutates(h["impl"], m)]
            if ms:
                do_call(h["expr"], h["impl"], d.choice(ms), h["cell"])
        elif op < 6 and objs:
            o = d.choice(objs)
            m = d.choice(o[1].meths())
            if o[1].body[m][0] == "&self" and not o[3]:
                continue
            do_call(o[0], o[1], m, o[2])
            feats.add("direct")
        elif op < 7 and holders:
            h = d.choice(holders)
            c = [o for o in objs if h["iface"] in o[1].usable()]
            if c and h.get("var", True):
                o = d.choice(c)
                out.append("%s = %s" % (h["expr"], o[0]))
                h.update(hold(o, h["iface"]))
                feats.add("reassign")
        elif op < 8 and holders:
            # copies of a holder share a reference; what a copy of a boxed value shares is left open
            h = d.choice(holders)
            x = fresh("h")
            k = d.below(3)
            if k == 0:
                out.append("var %s = %s" % (x, h["expr"]))
            elif k == 1:
                code.append("fn @@p%s(%s x):%s {\n    return x\n}" % (x, h["iface"].name, h["iface"].name))
                out.append("var %s = @@p%s(%s)" % (x, x, h["expr"]))
            else:
                code.append("type @@s%s = struct{\n    u8 a\n    %s x\n    u8 b\n}" % (x, h["iface"].name))
                out.append("var b%s = @@s%s{a: 1, x: %s, b: 2}\n    var %s = b%s.x" % (x, x, h["expr"], x, x))
                feats.add("field")
            if not h["isref"]:
                h["shared"] = True
            holders.append(dict(h, expr=x))
        elif op < 9 and objs:
            o = d.choice(objs)
            i = d.choice(o[1].usable())
            if i.name not in vec:
                vec[i.name] = (fresh("l"), [])
                out.append("[%s] %s = []" % (i.name, vec[i.name][0]))
            l, items = vec[i.name]
            out.append("%s.push(%s)" % (l, o[0]))
            items.append(hold(o, i))
            k = d.below(len(items))
            h = items[k]
            do_call("%s[%d]" % (l, k), h["impl"], d.choice(i.all()), h["cell"])
            feats.add("vec")
        elif op < 10 and holders:
            h = d.choice(holders)
            im = d.choice(impls)
            if h["iface"] not in im.usable():
                continue
            asref = d.bool(1, 3) and not im.alias
            tn = "ref<%s>" % im.name if asref else im.name
            yes = im is h["impl"] and asref == h["isref"]
            x = fresh("w")
            if im.alias:
                show = ["%s as %s" % (x, im.t.base.name)]
                txt = [str(h["cell"]["v"])] if yes else []
            else:
                f, ft = d.choice(im.t.fields)
                show = ft.show1("%s.%s" % (x, f))
                txt = ft.text(h["cell"][f]) if yes else []
            out.append("if %s is %s %s {\n        println('yes', %s)\n    } else {\n        println('no')\n    }" % (
                h["expr"], tn, x, ", ".join(show)))
            exp.append(V.line(["yes"] + txt) if yes else "no")
            feats.add("is")
        elif op < 11 and objs:
            # a generic function that may only use the constraint
            o = d.choice([o for o in objs if not o[3]] or [None])
            if o is None:
                continue
            i = d.choice(o[1].usable())
            ms = [m for m in i.own if not m.err and m.ret and o[1].body[m][0] != "&self"]
            if not ms or "<" in i.name:
                continue
            m = d.choice(ms)
            x = fresh("g")
            code.append("#where T:%s\nfn @@%s<T>(T x%s):%s {\n    return x.%s(%s)\n}" % (
                i.name, x, "".join(", %s p%d" % (p.name, j) for j, p in enumerate(m.params)), m.ret.name, m.name,
                ", ".join("p%d" % j for j in range(len(m.params)))))
            args = args_of(m)
            cell = dict(o[2])
            if o[1].alias:
                res = o[1].body[m][3]
                r = cell["v"] if res[0] == "own" else src_val(res, m.ret, o[1], cell, args)
            else:
                r = invoke(o[1], m, cell, args)
            out.append("var %s = @@%s(%s)\n    println(%s)" % (
                x, x, ", ".join([o[0]] + [p.lit(a) for p, a in zip(m.params, args)]), ", ".join(m.ret.show1(x))))
            exp.append(V.line(m.ret.text(r)))
            feats.add("constraint")
        elif objs:
            o = d.choice(objs)
            i = d.choice(o[1].usable())
            ms = [m for m in i.all() if not m.err and m.ret]
            if not ms:
                continue
            m = d.choice(ms)
            x = fresh("k")
            args = args_of(m)
            h = hold(o, i)
            code.append("fn @@%s(%s x):%s {\n    return x.%s(%s)\n}" % (
                x, i.name, m.ret.name, m.name, ", ".join(p.lit(a) for p, a in zip(m.params, args))))
            if o[1].alias:
                res = o[1].body[m][3]
                r = h["cell"]["v"] if res[0] == "own" else src_val(res, m.ret, o[1], h["cell"], args)
            else:
                r = invoke(o[1], m, h["cell"], args)
            out.append("var %s = @@%s(%s)\n    println(%s)" % (x, x, o[0], ", ".join(m.ret.show1(x))))
            exp.append(V.line(m.ret.text(r)))
            feats.add("parameter")
    for x, im, cell, ref in objs:
        if im.alias:
            out.append("println(%s as %s)" % (x, im.t.base.name))
            exp.append(str(cell["v"]))
        else:
            out.append("println(%s)" % ", ".join(y for f, t in im.t.fields for y in t.show1("%s.%s" % (x, f))))
            exp.append(V.line([y for f, t in im.t.fields for y in t.text(cell[f])]))
    decl = V.declare(pool)
    code = decl + code
    code.append("fn @@run() {\n    %s\n}" % "\n    ".join(out))
    return Case("\n".join(code), exp, nontrivial=len(feats) >= 3, feats=sorted(feats))


# -------------------------------------------------------------------------------------------------- generics

class VPair(V.VT):
    """@@p<A, B> = struct{ A a, i8 n, B b }"""

    def __init__(self, a, b):
        self.a, self.b = a, b
        self.name = "@@p<%s,%s>" % (a.name, b.name)
        self.decls = tuple(a.decls) + tuple(b.decls)

    def gen(self, d):
        return (self.a.gen(d), d.int(-5, 5), self.b.gen(d))

    def lit(self, v):
        return "%s{a: %s, n: %d, b: %s}" % (self.name, self.a.lit(v[0]), v[1], self.b.lit(v[2]))

    def show1(self, e):
        return self.a.show1(e + ".a") + [e + ".n"] + self.b.show1(e + ".b")

    def text(self, v):
        return self.a.text(v[0]) + [str(v[1])] + self.b.text(v[2])


class VList(V.VT):
    """vec printed by its first element and length"""

    def __init__(self, t):
        self.t = t
        self.name = "[%s]" % t.name
        self.decls = t.decls

    def show1(self, e):
        return [e + ".len()"] + self.t.show1(e + "[0]")

    def text(self, v):
        return [str(len(v))] + self.t.text(v[0])


PRELUDE = {
    "pair": """type @@p<A,B> = struct{
    A a
    i8 n
    B b
}
fn @@p<A,B>.fst(self):A {
    return self.a
}
fn @@p<A,B>.snd(&self):B {
    return self.b
}
fn @@p<A,B>.snd2(*self):B {
    return self.b
}
fn @@p<A,B>.seta(*self, A x) {
    self.a = x
    self.n += 1
}
fn @@p<A,B>.swap(self):@@p<B,A> {
    return @@p<B,A>{a: self.b, n: self.n, b: self.a}
}
fn @@p<A,B>.with<C>(self, C c):@@p<A,C> {
    return @@p<A,C>{a: self.a, n: self.n, b: c}
}
fn @@p<A,B>.make(A a, B b):@@p<A,B> {
    return @@p<A,B>{a: a, n: 3, b: b}
}
fn @@mk<A,B>(A a, B b):@@p<A,B> {
    return @@p<A,B>{a: a, n: 1, b: b}
}
fn @@sw<A,B>(@@p<A,B> x):@@p<B,A> {
    return x.swap()
}""",
    "fns": """fn @@id<T>(T x):T {
    return x
}
fn @@id2<T>(T x):T {
    var y = @@id<T>(x)
    return y
}
fn @@dup<T>(T x):(T, T) {
    return (x, x)
}
fn @@rep<T>(T x, int n):[T] {
    [T] l = []
    for int i = 0; i < n; i += 1 {
        l.push(x)
    }
    return l
}
fn @@pick<T>(bool c, T a, T b):T {
    if c {
        return a
    }
    return b
}
fn @@last<T>([T] l):T {
    return l[l.len() - 1]
}
fn @@app<A,B>(A x, fn(A):B f):B {
    return f(x)
}
fn @@mapv<A,B>([A] l, fn(A):B f):[B] {
    [B] r = []
    for x in l {
        r.push(f(x))
    }
    return r
}
fn @@rec<T>(T a, T b, int n):T {
    if n == 0 {
        return a
    }
    return @@rec<T>(b, a, n - 1)
}""",
    "num": """#where T:comparable
fn @@max<T>(T a, T b):T {
    if a > b {
        return a
    }
    return b
}
#where T:numeric
fn @@sum<T>([T] l, T z):T {
    var s = z
    for x in l {
        s = s + x
    }
    return s
}
#where T:numeric
fn @@mix<T>(T a, T b):T {
    return a * b - a
}
#where T:addable
fn @@add<T>(T a, T b):T {
    return a + b
}""",
    "stack": """type @@s<T> = struct{
    [T] l
    int n
}
fn @@s<T>.push(*self, T x) {
    self.l.push(x)
    self.n += 1
}
fn @@s<T>.pop(*self):T {
    self.n -= 1
    var x = self.l[self.n]
    self.l = self.l.slice(0, self.n)
    return x
}
fn @@s<T>.top(*self):T {
    return self.l[self.n - 1]
}""",
    "opt": """type @@o<T> = T|null
type @@u<T> = union{
    T ok
    string no
}
fn @@some<T>(bool c, T x):@@o<T> {
    if c {
        return x
    }
    return null
}
fn @@unw<T>(@@u<T> x, T z):T {
    return match x {
        is @@u.ok v -> v
        is @@u.no v -> z
    }
}""",
}


def gtype(d, k=0, pair=True):
    if pair and k < 2 and d.bool(1, 4):
        return VPair(gtype(d, 2), gtype(d, 2))
    return V.any_type(d, 1, "@@r%d" % d.below(100))


def gen_generic(d):
    feats = set()
    used = {"pair", "fns"}
    types = [gtype(d) for _ in range(d.int(2, 4))]
    out, exp, env = [], [], []
    n = [0]
    need = list(types)

    def fresh(p="x"):
        n[0] += 1
        return "%s%d" % (p, n[0])

    def show(t, e, v):
        out.append("println(%s)" % ", ".join(t.show1(e)))
        exp.append(V.line(t.text(v)))

    def new(t=None):
        t = t or d.choice(types)
        v = t.gen(d)
        x = fresh()
        out.append("%s %s = %s" % (t.name, x, t.lit(v)))
        env.append((x, t, v))
        return env[-1]

    def add(t, e, v, shown=True):
        x = fresh()
        out.append("var %s = %s" % (x, e))
        env.append((x, t, v))
        if shown:
            show(t, x, v)

    def some():
        return d.choice(env[-8:])

    def same(t):
        c = [e for e in env if e[1].name == t.name]
        if c and d.bool(2, 3):
            return d.choice(c)
        return new(t)

    for t in types:
        new(t)
    for _ in range(d.int(4, 12)):
        x, t, v = some()
        op = d.below(20)
        if isinstance(t, VList):
            k = d.below(3)
            if k == 0:
                add(t.t, "@@last(%s)" % x, v[-1])
            elif k == 1:
                add(t.t, "@@last<%s>(%s)" % (t.t.name, x), v[-1])
            else:
                y, t2, v2 = new()
                add(VList(t2), "@@mapv(%s, fn(%s q):%s {\n        return %s\n    })" % (x, t.t.name, t2.name, y), [v2] * len(v))
                feats.add("fn arg")
            continue
        explicit = d.bool(1, 3)
        ta = "<%s>" % t.name if explicit else ""
        if op < 2:
            add(t, "%s%s(%s)" % (d.choice(["@@id", "@@id2"]), ta, x), v)
        elif op < 3:
            add(V.VTup([t, t]), "@@dup%s(%s)" % (ta, x), (v, v))
        elif op < 5:
            k = d.int(1, 4)
            add(VList(t), "@@rep%s(%s, %d)" % (ta, x, k), [v] * k)
            feats.add("list")
        elif op < 6:
            y, _, v2 = same(t)
            c = d.bool()
            add(t, "@@pick%s(%s, %s, %s)" % (ta, "true" if c else "false", x, y), v if c else v2)
        elif op < 7:
            y, _, v2 = same(t)
            k = d.below(6)
            add(t, "@@rec%s(%s, %s, %d)" % (ta, x, y, k), v if k % 2 == 0 else v2)
            feats.add("recursion")
        elif op < 8:
            y, t2, v2 = some()
            if isinstance(t2, VList):
                continue
            add(t2, "@@app(%s, fn(%s q):%s {\n        return %s\n    })" % (x, t.name, t2.name, y), v2)
            feats.add("fn arg")
        elif op < 11:
            y, t2, v2 = some()
            if isinstance(t2, VList) or '@@p<' in t.name + t2.name:
                continue
            k = d.below(3)
            p = VPair(t, t2)
            if k == 0:
                add(p, "@@mk%s(%s, %s)" % ("<%s,%s>" % (t.name, t2.name) if explicit else "", x, y), (v, 1, v2))
            elif k == 1:
                add(p, "%s.make(%s, %s)" % (p.name, x, y), (v, 3, v2))
                feats.add("static")
            else:
                add(p, "%s{a: %s, n: 9, b: %s}" % (p.name, x, y), (v, 9, v2))
            feats.add("pair")
        elif op < 15 and isinstance(t, VPair):
            k = d.below(7)
            if k == 0:
                add(t.a, "%s.fst()" % x, v[0])
            elif k == 1:
                add(t.b, "%s.snd2()" % x, v[2])
            elif k == 2:
                add(VPair(t.b, t.a), "%s.swap()" % x, (v[2], v[1], v[0]))
            elif k == 3:
                y, t2, v2 = some()
                if isinstance(t2, VList) or '@@p<' in t2.name:
                    continue
                add(VPair(t.a, t2), "%s.with(%s)" % (x, y), (v[0], v[1], v2))
                feats.add("generic method")
            elif k == 4:
                w = t.a.gen(d)
                out.append("%s.seta(%s)" % (x, t.a.lit(w)))
                nv = (w, V.wrap("i8", v[1] + 1), v[2])
                env[:] = [(x, t, nv) if e[0] == x else e for e in env]
                show(t, x, nv)
            elif k == 5:
                add(VPair(t.b, t.a), "@@sw(%s)" % x, (v[2], v[1], v[0]))
            else:
                y = fresh("r")
                out.append("var %s = new %s(a = %s.a, n = 4, b = %s.b)" % (y, t.name, x, x))
                out.append("println(%s)" % ", ".join(t.b.show1("%s.snd()" % y)) if len(t.b.show1("q")) == 1 else
                           "println(%s.n)" % y)
                exp.append(V.line(t.b.text(v[2])) if len(t.b.show1("q")) == 1 else "4")
            feats.add("method")
        elif op < 17 and t.ordered:
            used.add("num")
            y, _, v2 = same(t)
            k = d.below(4)
            if k == 0 and not isinstance(t, V.VStr):
                add(t, "@@max%s(%s, %s)" % (ta, x, y), max(v, v2))
            elif k == 1 and isinstance(t, V.VInt):
                add(t, "@@mix%s(%s, %s)" % (ta, x, y), V.wrap(t.t, v * v2 - v))
            elif k == 2 and isinstance(t, V.VInt):
                l = fresh("l")
                out.append("[%s] %s = [%s, %s, %s]" % (t.name, l, x, y, x))
                add(t, "@@sum%s(%s, %s)" % (ta, l, y), V.wrap(t.t, v + v2 + v + v2))
            elif isinstance(t, V.VInt):
                add(t, "@@add%s(%s, %s)" % (ta, x, y), V.wrap(t.t, v + v2))
            feats.add("constraint")
        elif op < 18:
            used.add("stack")
            s = fresh("s")
            out.append("var %s = @@s<%s>{l: [], n: 0}" % (s, t.name))
            st = []
            for _ in range(d.int(1, 5)):
                y, _, v2 = same(t)
                k = d.below(4)
                if k < 2 or not st:
                    out.append("%s.push(%s)" % (s, y))
                    st.append(v2)
                elif k == 2:
                    add(t, "%s.pop()" % s, st.pop())
                else:
                    add(t, "%s.top()" % s, st[-1])
            out.append("println(%s.n)" % s)
            exp.append(str(len(st)))
            feats.add("stack")
        else:
            used.add("opt")
            if d.bool():
                c = d.bool()
                o = fresh("o")
                out.append("@@o<%s> %s = @@some%s(%s, %s)" % (t.name, o, "<%s>" % t.name, "true" if c else "false", x))
                out.append("if %s is %s w%s {\n        println(%s)\n    } else {\n        println('null')\n    }" % (
                    o, t.name, o, ", ".join(t.show1("w" + o))))
                exp.append(V.line(t.text(v)) if c else "null")
            else:
                c = d.bool()
                y, _, v2 = same(t)
                o = fresh("o")
                out.append("@@u<%s> %s = @@u<%s>.%s" % (t.name, o, t.name, "ok(%s)" % x if c else "no('no')"))
                add(t, "@@unw<%s>(%s, %s)" % (t.name, o, y), v if c else v2)
            feats.add("union")
    for x, t, v in env[-6:]:
        show(t, x, v)
    code = V.declare([e[1] for e in env] + need) + [PRELUDE[k] for k in sorted(used)]
    code.append("fn @@run() {\n    %s\n}" % "\n    ".join(out))
    return Case("\n".join(code), exp, nontrivial=len(feats) >= 3, feats=sorted(feats))


# ---------------------------------------------------------------------------------------------------- lifted

def _gens():
    """the generators of the other program checks"""
    import importlib
    import pbt
    keep, pbt.run_main = pbt.run_main, lambda f: None
    sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
    try:
        m = {n: importlib.import_module(n) for n in ("control", "dyn", "errs", "closures", "chans", "aggs", "vecs", "maps", "strs")}
    finally:
        pbt.run_main = keep
    return [m["dyn"].gen_union, m["dyn"].gen_enum, m["errs"].gen, m["closures"].gen_prog, m["chans"].gen_select,
            m["chans"].gen_single, m["control"].gen_flow, m["control"].gen_calls, m["aggs"].gen_places, m["vecs"].gen_hist,
            m["maps"].gen_map, m["strs"].gen]


GENS = _gens()


def gen_lifted(d):
    """every function of an ordinary program becomes generic in an unused parameter; two instances behave alike"""
    k = d.below(len(GENS))
    case = GENS[k](d)
    src = case.code
    names = [n for n in dict.fromkeys(re.findall(r"^fn (@@\w+)\(", src, re.M))]
    if "@@run" not in names or case.errable or case.want_exit or case.tail or re.search(r"^(var|const|i8|u8|i16|u16|i32|u32|i64|u64|int|f64|string|bool|@@\w+|\[.*\]) @@\w+ = ",
                                         src, re.M):
        return case
    lift = []
    for n in names:
        if n != "@@run" and re.search(re.escape(n) + r"(?![\w(])", src) or re.search(r"#linkid \S+\s+fn " + re.escape(n), src):
            continue
        lift.append(n)
    for n in lift:
        src = re.sub(r"^fn %s\(" % re.escape(n), "fn %s<ZQ>(" % n, src, flags=re.M)
        src = re.sub(r"(?<!fn )%s\(" % re.escape(n), "%s<ZQ>(" % n, src)
    # code that stays ordinary uses one instance
    out, generic = [], False
    for line in src.split("\n"):
        if line.startswith("fn "):
            generic = "<ZQ>(" in line.split(")")[0]
        out.append(line if generic or line.startswith("fn ") else line.replace("<ZQ>", "<i32>"))
    src = "\n".join(out).replace("fn @@run<ZQ>(", "fn @@lifted<ZQ>(").replace("@@run<ZQ>(", "@@lifted<ZQ>(")
    a, b = d.choice([("i8", "string"), ("f64", "[u8]"), ("bool", "(i8,i64)"), ("u64", "[i16;3]")])
    src += "\nfn @@run() {\n    @@lifted<%s>()\n    @@lifted<%s>()\n}" % (a, b)
    return Case(src, case.expect * 2, nontrivial=case.nontrivial, feats=["lifted"] + list(case.feats),
                imports=case.imports)


def main():
    chk = Check("P11", rule="an interface history is non-trivial when it has three features (several types, mixed receivers, "
                            "combined or generic interfaces, errors, containers, type tests), a generic one when it uses three "
                            "kinds of generic code; distinct by generated source")
    run_cases(chk, None, 2600, 40000, batch=20, streams=[("interface", 3, gen_iface), ("generic", 3, gen_generic), ("lifted", 3, gen_lifted)])
    chk.finish()


run_main(main)
