"""Garbage collection: reachable objects keep their contents whatever holds them, unreachable ones are given back."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import Case, Check, run_cases, run_main
from lang import Prof
from progs import prog

BASE = """type @@node = struct{
    int id
    string tag
    [int] data
    map<int,string> m
}
fn @@mk(int id):ref<@@node> {
    var n = new @@node(id = id)
    n.tag = fmt.sprintf('tag%d', id)
    n.data = [id, id + 1, id + 2]
    n.m = {7: n.tag}
    return n
}
fn @@ok(ref<@@node> n):int {
    if n.tag != fmt.sprintf('tag%d', n.id) || n.data.len() != 3 || n.data[0] != n.id || n.data[2] != n.id + 2 || n.m[7] != n.tag {
        return -1
    }
    return n.id
}
fn @@churn(int n) {
    for int i = 0; i < n; i += 1 {
        var g = @@mk(9000 + i)
        [string] l = []
        for int j = 0; j < 6; j += 1 {
            l.push('garbage' + g.tag)
        }
        var big = vec<int>.new(-1, 40 + i * 7)
        var mm = {g.tag: big}
    }
}
fn @@cycle(int naps) {
    runtime.gc()
    for int i = 0; i < naps; i += 1 {
        co.sleep(1)
    }
}"""


class Slot:
    """how one reference is held: setup text, read expression, write statement"""

    def __init__(self, kind, k, d):
        self.kind = kind
        v = "s%d" % k
        n = "@@node"
        r = "ref<@@node>"
        self.decl = []
        self.after = None
        init = "@@mk(%d)" % k
        if kind == "local":
            self.setup = "%s %s = %s" % (r, v, init)
            self.get, self.set = v, v + " = @X"
        elif kind == "field":
            self.decl = ["type @@h%d = struct{\n    u8 pad\n    %s a\n    %s b\n}" % (k, r, r)]
            f = d.choice("ab")
            self.setup = "var %s = new @@h%d(a = %s, b = %s)" % (v, k, init, init)
            self.get, self.set = "%s.%s" % (v, f), "%s.%s = @X" % (v, f)
        elif kind == "value":
            self.decl = ["type @@w%d = struct{\n    i32 pad\n    %s a\n    f64 z\n}" % (k, r)]
            self.setup = "@@w%d %s = @@w%d{pad: 3, a: %s, z: 1.5}" % (k, v, k, init)
            self.get, self.set = v + ".a", v + ".a = @X"
        elif kind == "vec":
            n_ = d.int(1, 9)
            i = d.below(n_)
            self.setup = "[%s] %s = [%s]" % (r, v, ", ".join([init] * n_))
            self.get, self.set = "%s[%d]" % (v, i), "%s[%d] = @X" % (v, i)
        elif kind == "push":
            # kept as the last element of a growing vector
            self.setup = "[%s] %s = []\n    %s.push(%s)" % (r, v, v, init)
            self.get, self.set = "%s[%s.len() - 1]" % (v, v), "%s.push(@X)" % v
        elif kind == "bigvec":
            # one of many elements, in objects of all sizes
            n_ = d.choice([20, 130, 300, 1000, 5000])
            i = d.choice([0, n_ // 2, n_ - 1, d.below(n_)])
            self.setup = "var %sn = @@mk(-8)\n    var %s = vec<%s>.new(%sn, %d)\n    %s[%d] = %s" % (v, v, r, v, n_, v, i, init)
            self.get = "%s[%d]" % (v, i)
            # a copy of the whole vector or only the element
            self.set = d.choice(["%s[%d] = @X" % (v, i), "var %sx@N = vec<%s>.new(@X, %d)\n    %s = %sx@N" % (v, r, n_, v, v)])
        elif kind == "bigmap":
            n_ = d.choice([30, 200, 600])
            i = d.below(n_)
            self.setup = "map<int,%s> %s = {}\n    var %sn = @@mk(-8)\n    for int k%s = 0; k%s < %d; k%s += 1 {\n        %s[k%s] = %sn\n    }\n    %s[%d] = %s" % (
                r, v, v, v, v, n_, v, v, v, v, v, i, init)
            self.get, self.set = "%s[%d]" % (v, i), "%s[%d] = @X" % (v, i)
        elif kind == "bigstruct":
            n_ = d.choice([40, 150, 400])
            i = d.choice([0, n_ - 1, d.below(n_)])
            self.decl = ["type @@bs%d = struct{\n    u8 c\n    [%s?;%d] l\n    %s z\n}" % (k, r, n_, r),
                         "fn @@bo%d(%s? x):%s {\n    if x is %s v {\n        return v\n    }\n    return @@mk(-5)\n}" % (k, r, r, r)]
            self.setup = "var %s = new @@bs%d(c = 1, z = %s)" % (v, k, init)
            if d.bool():
                self.get, self.set = v + ".z", v + ".z = @X"
            else:
                self.setup += "\n    %s.l[%d] = %s" % (v, i, init)
                self.get, self.set = "@@bo%d(%s.l[%d])" % (k, v, i), "%s.l[%d] = @X" % (v, i)
        elif kind == "thrown":
            # what an error carries is held by nothing else while the error is on its way
            # (deferred code that can fail itself is a known finding of P09)
            q = d.choice(["@@cycle(2)", "@@ga%d(80)", "runtime.gc()\n        @@ga%d(200)", "co.sleep(2)", "@@cycle(1)\n        @@ga%d(80)"]).replace("%d", str(k))
            self.decl = ["type @@gt%d = struct{\n    int a\n    %s? n\n    string s\n}" % (k, r),
                         "fn @@ga%d(int n) {\n    for int i = 0; i < n; i += 1 {\n        var g = new @@gt%d(a = -1, s = 'x')\n    }\n}" % (k, k),
                         "type @@er%d:throwable = struct{\n    int pad\n    %s n\n}" % (k, r),
                         "fn @@er%d.msg(&self):string {\n    return fmt.sprintf('e%%d', @@ok(self.n))\n}" % k,
                         "fn @@th%d(int n, int id):int! {\n    defer {\n        %s\n    }\n    if n > 0 {\n        return @@th%d(n - 1, id) + 1\n    }\n"
                         "    throw %s\n    return 1\n}" % (k, q, k, d.choice(["new @@er%d(pad = 1, n = @@mk(id))" % k, "errorf('e%d', id)"])),
                         "fn @@ct%d(%s x):%s {\n    int id = @@ok(x)\n    string got = ''\n    int z = @@th%d(%d, id) catch e {\n        @@churn(3)\n        got = e.msg()\n        0\n    }\n"
                         "    if got == fmt.sprintf('e%%d', id) && z == 0 {\n        return x\n    }\n    return @@mk(-6)\n}" % (k, r, r, k, d.int(0, 3))]
            self.setup = "%s %s = %s" % (r, v, init)
            self.get, self.set = "@@ct%d(%s)" % (k, v), "%s = @X" % v
        elif kind == "pending":
            # arguments of coroutines that have not started
            n_ = d.choice([1, 5, 40])
            self.decl = ["fn @@pg%d(int a, %s x, string z):int {\n    %s\n    return @@ok(x) + a + z.len()\n}" % (k, r, d.choice(["", "co.yield()"])),
                         "fn @@pd%d(%s x):%s! {\n    int id = @@ok(x)\n    [ref<future_t<int>>] l = []\n    for int i = 0; i < %d; i += 1 {\n"
                         "        l.push(@async(@@pg%d(i, @@mk(id), fmt.sprintf('%%d', 1000 + i)), %s))\n    }\n    runtime.gc()\n    @@churn(12)\n"
                         "    int i = 0\n    for f in l {\n        if f.await() != id + i + 4 {\n            return @@mk(-7)\n        }\n        i += 1\n    }\n    return x\n}" % (
                             k, r, r, n_, k, d.choice(["co.SAME", "0"]))]
            self.setup = "%s %s = %s" % (r, v, init)
            self.get, self.set = "@@pd%d(%s)" % (k, v), "%s = @X" % v
        elif kind == "vecvec":
            self.setup = "[[%s]] %s = [[%s], [%s, %s]]" % (r, v, init, init, init)
            self.get, self.set = v + "[1][1]", v + "[1][1] = @X"
        elif kind == "slice":
            self.setup = "[%s] %sb = [%s, %s, %s, %s]\n    var %s = %sb.slice(1, 3)\n    %sb = []" % (r, v, init, init, init, init, v, v, v)
            self.get, self.set = v + "[1]", v + "[1] = @X"
        elif kind == "map":
            self.setup = "map<string,%s> %s = {'a': %s, 'b': %s}" % (r, v, init, init)
            self.get, self.set = "%s['b']" % v, "%s['b'] = @X" % v
        elif kind == "imap":
            # fresh keys make the table grow
            self.setup = "map<int,%s> %s = {}\n    int %sk = 0\n    %s[0] = %s" % (r, v, v, v, init)
            self.get, self.set = "%s[%sk]" % (v, v), "%sk += 1\n    %s[%sk] = @X" % (v, v, v)
        elif kind == "array":
            n_ = d.int(1, 5)
            i = d.below(n_)
            self.setup = "[%s;%d] %s = [%s]" % (r, n_, v, ", ".join([init] * n_))
            self.get, self.set = "%s[%d]" % (v, i), "%s[%d] = @X" % (v, i)
        elif kind == "heaparray":
            n_ = d.int(2, 5)
            i = d.below(n_)
            self.decl = ["type @@a%d = struct{\n    u8 c\n    [%s;%d] l\n}" % (k, r, n_)]
            self.setup = "var %s = new @@a%d(c = 1, l = [%s])" % (v, k, ", ".join([init] * n_))
            self.get, self.set = "%s.l[%d]" % (v, i), "%s.l[%d] = @X" % (v, i)
        elif kind == "closure":
            self.decl = ["type @@k%d = struct{\n    i32 pad\n    %s a\n}" % (k, r)]
            self.setup = "@@k%d %sc = @@k%d{pad: 3, a: %s}\n    var %s = fn():%s {\n        return %sc.a\n    }\n    var %sw = fn(%s x) {\n        %sc.a = x\n    }" % (
                k, v, k, init, v, r, v, v, r, v)
            self.get, self.set = v + "()", v + "w(@X)"
        elif kind == "bound":
            # the value lives only in the closure's environment
            self.decl = ["fn @@bind%d(%s x):fn():%s {\n    return fn():%s {\n        return x\n    }\n}" % (k, r, r, r)]
            self.setup = "var %s = @@bind%d(%s)" % (v, k, init)
            self.get, self.set = v + "()", "%s = @@bind%d(@X)" % (v, k)
        elif kind == "union":
            self.decl = ["type @@u%d = int|%s|string" % (k, r),
                         "fn @@uo%d(@@u%d x):%s {\n    if x is %s v {\n        return v\n    }\n    return @@mk(-5)\n}" % (k, k, r, r)]
            self.setup = "@@u%d %s = %s" % (k, v, init)
            self.get, self.set = "@@uo%d(%s)" % (k, v), "%s = @X" % v
        elif kind == "any":
            self.setup = "any %s = %s" % (v, init)
            self.get, self.set = "(%s as %s)" % (v, r), "%s = @X" % v
        elif kind == "null":
            self.decl = ["fn @@no%d(%s? x):%s {\n    if x is %s v {\n        return v\n    }\n    return @@mk(-5)\n}" % (k, r, r, r)]
            self.setup = "%s? %s = %s" % (r, v, init)
            self.get, self.set = "@@no%d(%s)" % (k, v), "%s = @X" % v
        elif kind == "tuple":
            self.setup = "(int, %s, u8) %s = (4, %s, 9)" % (r, v, init)
            self.get, self.set = v + "[1]", "%s[1] = @X" % v
        elif kind == "chan":
            # a channel element needs a default value, hence the vector around the reference
            self.setup = "var %s = chan<[%s]>.new(1)\n    %s.send([%s])" % (v, r, v, init)
            # reading takes the value out and puts it back
            self.decl = ["fn @@peek%d(chan<[%s]> c):%s! {\n    var x = c.recv()\n    c.send(x)\n    return x[0]\n}" % (k, r, r)]
            self.get, self.set = "@@peek%d(%s)" % (k, v), "var %sx@N = @X\n    %s.recv()\n    %s.send([%sx@N])" % (v, v, v, v)
        elif kind == "iface":
            self.decl = ["type @@i%d = interface{\n    fn node():%s\n}" % (k, r),
                         "type @@b%d:@@i%d = struct{\n    int pad\n    %s n\n}" % (k, k, r),
                         "fn @@b%d.node(&self):%s {\n    return self.n\n}" % (k, r)]
            self.setup = "@@i%d %s = new @@b%d(pad = 1, n = %s)" % (k, v, k, init)
            self.get, self.set = v + ".node()", "%s = new @@b%d(pad = 2, n = @X)" % (v, k)
        elif kind == "chain":
            dep = d.int(1, 4)
            self.decl = ["type @@c%d = struct{\n    [u8;3] pad\n    ref<@@c%d>? next\n    %s n\n}" % (k, k, r),
                         "fn @@cw%d(int n, %s x):ref<@@c%d> {\n    if n == 0 {\n        return new @@c%d(next = null, n = x)\n    }\n    return new @@c%d(next = @@cw%d(n - 1, x), n = @@mk(-3))\n}" % (k, r, k, k, k, k),
                         "fn @@cr%d(ref<@@c%d> h):%s {\n    if h.next is ref<@@c%d> nx {\n        return @@cr%d(nx)\n    }\n    return h.n\n}" % (k, k, r, k, k)]
            self.setup = "var %s = @@cw%d(%d, %s)" % (v, k, dep, init)
            self.get, self.set = "@@cr%d(%s)" % (k, v), "%s = @@cw%d(%d, @X)" % (v, k, dep)
        elif kind == "future":
            # the reference is only held by the result of a finished coroutine, before that by its argument
            self.decl = ["fn @@give%d(%s x):%s {\n    %s\n    return x\n}" % (k, r, r, d.choice(["", "co.yield()", "co.sleep(1)"]))]
            self.setup = "var %s = go @@give%d(%s)" % (v, k, init)
            self.get, self.set = v + ".await()", "%s = go @@give%d(@X)" % (v, k)
        elif kind == "global":
            self.decl = ["[%s] @@g%d = []" % (r, k)]
            self.setup = "@@g%d.push(%s)" % (k, init)
            self.get, self.set = "@@g%d[0]" % k, "@@g%d[0] = @X" % k
        elif kind == "gmap":
            self.decl = ["map<int,%s> @@g%d = {}" % (r, k)]
            self.setup = "@@g%d[5] = %s" % (k, init)
            self.get, self.set = "@@g%d[5]" % k, "@@g%d[5] = @X" % k
        elif kind == "gstruct":
            self.decl = ["type @@gt%d = struct{\n    int a\n    [%s] l\n    u8 b\n}" % (k, r), "@@gt%d @@g%d = @@gt%d{a: 1, l: [], b: 2}" % (k, k, k)]
            self.setup = "@@g%d.l.push(%s)" % (k, init)
            self.get, self.set = "@@g%d.l[0]" % k, "@@g%d.l = [@X]" % k
        elif kind == "deep":
            # held by a parameter of a suspended frame further down
            self.decl = ["fn @@dp%d(int n, %s x, int z):%s {\n    if n > 0 {\n        var y = @@dp%d(n - 1, @@mk(-4), z)\n        if @@ok(y) != -4 {\n            return y\n        }\n        return x\n    }\n    %s\n    return x\n}" % (
                k, r, r, k, d.choice(["@@cycle(1)", "@@churn(4)", "co.yield()\n    @@churn(2)"]))]
            self.setup = "%s %s = %s" % (r, v, init)
            self.get, self.set = "@@dp%d(%d, %s, 1)" % (k, d.int(1, 5), v), "%s = @X" % v
        elif kind == "ptrptr":
            self.decl = ["type @@p%d = struct{\n    %s n\n}" % (k, r), "type @@q%d = struct{\n    int x\n    ref<@@p%d> p\n}" % (k, k)]
            self.setup = "var %s = new @@q%d(x = 1, p = new @@p%d(n = %s))" % (v, k, k, init)
            self.get = v + ".p.n"
            self.set = v + ".p.n = @X" if d.bool() else "%s.p = new @@p%d(n = @X)" % (v, k)
        else:
            raise ValueError(kind)


KINDS = ["local", "field", "value", "vec", "push", "vecvec", "slice", "map", "imap", "array", "heaparray", "closure", "bound",
         "union", "any", "null", "tuple", "chan", "iface", "chain", "ptrptr", "future", "deep",
         "bigvec", "bigmap", "bigstruct", "thrown", "pending"]
GLOBAL = ["global", "gmap", "gstruct"]


def gen_juggle(d):
    n = d.int(2, 6)
    par = d.choice([1, 1, 2, 4])
    slots = [Slot(d.choice(KINDS + (GLOBAL if par == 1 else [])), k, d) for k in range(n)]
    cur = list(range(n))
    ops = []
    for _ in range(d.int(1, 7)):
        op = d.below(4)
        a, b = d.below(n), d.below(n)
        quiet = [d.choice(["", "", "co.yield()", "@@churn(%d)" % d.int(1, 12), "runtime.gc()", "runtime.gc()\n    co.yield()",
                           "@@cycle(%d)" % d.int(1, 3), "co.sleep(1)"]) for _ in range(3)]
        ops.append((op, a, b, quiet))
    rounds = d.choice([1, 2, 3, 8, 20])
    if rounds > 3:
        ops = [(o, a, b, ["co.yield()" if "cycle" in q or "sleep" in q else q for q in qs]) for o, a, b, qs in ops]
    nid = [100]
    body = []
    for j, (op, a, b, q) in enumerate(ops):
        if op < 2:
            # swap: for a while one of the two is only held by a local
            body += ["var t%d = %s" % (j, slots[a].get), q[0], "var w%d = %s" % (j, slots[b].get),
                     slots[a].set.replace("@X", "w%d" % j), q[1],
                     slots[b].set.replace("@X", "t%d" % j), q[2]]
        elif op == 2:
            # the token of a is dropped, b is copied
            body += ["var w%d = %s" % (j, slots[b].get), slots[a].set.replace("@X", "w%d" % j), q[0]]
        else:
            body += [slots[a].set.replace("@X", "@@mk(r * 100 + %d)" % (100 + j)), q[0], q[1]]
    cnt = [0]

    def num(t):
        while "@N" in t:
            cnt[0] += 1
            u = "_%d" % cnt[0]
            t = t.replace("x@N", "x" + u)
        return t
    body = [num(x) for x in body]
    chk = ["return fmt.sprintf('%s', %s)" % (" ".join(["%d"] * n), ", ".join("@@ok(%s)" % s.get for s in slots))]
    for r in range(rounds):
        for j, (op, a, b, q) in enumerate(ops):
            if op < 2:
                ta, tb = cur[a], cur[b]
                cur[a] = tb
                cur[b] = ta
            elif op == 2:
                cur[a] = cur[b]
            else:
                cur[a] = r * 100 + 100 + j
    code = [BASE]
    for s in slots:
        code += s.decl
    src = [s.setup for s in slots]
    src.append("for int r = 0; r < %d; r += 1 {\n    %s\n    }" % (rounds, "\n    ".join(x for x in body if x)))
    src += ["@@cycle(%d)" % d.int(0, 3), "@@churn(%d)" % d.int(0, 30)] + chk
    exp = [" ".join(map(str, cur))]
    code.append("fn @@work():string! {\n    %s\n}" % "\n    ".join(src))
    if par == 1:
        code.append("fn @@run():void! {\n    println(@@work())\n}")
    else:
        code.append("fn @@run():void! {\n    %s\n    %s\n}" % (
            "\n    ".join("var f%d = go @@work()" % k for k in range(par)),
            "\n    ".join("println(f%d.await())" % k for k in range(par))))
        exp = exp * par
    txt = "\n".join(x for _, _, _, q in ops for x in q)
    return Case("\n".join(code), exp, nontrivial="gc" in txt or "cycle" in "\n".join(src),
                feats=["juggle"] + sorted({"in-" + s.kind for s in slots}), errable=True, imports=["co", "runtime", "fmt"])


def gen_tree(d):
    """large structures, mutated while collections run"""
    depth, fan = d.choice([(2, 8), (4, 3), (7, 2), (3, 5), (60, 1)])
    rounds = d.int(1, 6)
    steps = d.int(5, 60)
    gap = d.int(2, 20)
    ygap = d.int(1, 6)
    par = d.int(1, 3)
    code = [BASE, """type @@tr = struct{
    int id
    ref<@@node> n
    [ref<@@tr>] kids
}
fn @@build(int depth, int id):ref<@@tr> {
    var t = new @@tr(id = id, n = @@mk(id))
    if depth > 0 {
        for int i = 0; i < %d; i += 1 {
            t.kids.push(@@build(depth - 1, (id * 7 + i * 3 + 1) %% 1000))
        }
    }
    return t
}
fn @@sum(ref<@@tr> t):int {
    if @@ok(t.n) != t.id {
        return -1000000
    }
    int s = t.id
    for k in t.kids {
        s += @@sum(k)
    }
    return s
}
fn @@work(int me):int! {
    var a = @@build(%d, me)
    var b = @@build(1, me + 1)
    int sa = @@sum(a)
    int sb = @@sum(b)
    int bad = 0
    for int r = 0; r < %d; r += 1 {
        for int i = 0; i < %d; i += 1 {
            int p = i %% a.kids.len()
            var k = a.kids[p]
            b.kids.push(k)
            a.kids[p] = new @@tr(id = 1, n = @@mk(1))
            @@churn(2)
            if i %% %d == 0 {
                runtime.gc()
            }
            if i %% %d == 0 {
                co.yield()
            }
            a.kids[p] = b.kids[b.kids.len() - 1]
            b.kids = b.kids.slice(0, b.kids.len() - 1)
            var t = a.kids[p]
            var nn = t.n
            t.n = @@mk(5)
            @@churn(1)
            t.n = nn
        }
        if @@sum(a) != sa || @@sum(b) != sb {
            bad += 1
        }
    }
    return sa * 1000 + bad
}""" % (fan, depth, rounds, steps, gap, ygap)]

    def total(dp, i):
        return i + (sum(total(dp - 1, (i * 7 + j * 3 + 1) % 1000) for j in range(fan)) if dp > 0 else 0)
    src = ["var f%d = go @@work(%d)" % (k, k) for k in range(par)]
    src += ["println(f%d.await())" % k for k in range(par)]
    code.append("fn @@run():void! {\n    %s\n}" % "\n    ".join(src))
    return Case("\n".join(code), [str(total(depth, k) * 1000) for k in range(par)], feats=["tree", "tree%dx%d" % (depth, fan)],
                errable=True, imports=["co", "runtime", "fmt"])


def gen_barrier(d):
    """pointers move between a large heap and locals while it is being marked"""
    n = d.choice([300, 3000, 12000])
    steps = d.choice([20, 100, 300])
    hold = d.int(1, 4)
    par = d.int(1, 2)
    # (only slots that hold a bare reference: overwriting a nullable one has no barrier, a known finding)
    null = d.choice(["cells[p].v = spare", "cells[p] = new @@cell(id = p, v = spare)"])
    body = []
    a = d.choice([1, 7, 31, 101])
    for j in range(hold):
        body.append("""        int p%(j)d = (i * %(a)d + %(b)d) %% %(n)d
        ref<@@lite> x%(j)d = cells[p%(j)d].v
        %(null)s""" % dict(j=j, a=a, b=j * (n // hold), n=n, null=null.replace("[p]", "[p%d]" % j).replace("id = p", "id = p%d" % j)))
        if d.bool():
            body.append("        " + d.choice(["co.yield()", "@@lchurn(%d)" % d.int(5, 200)]))
    body.append("        if i %% %d == 0 {\n            runtime.gc()\n        }" % d.choice([5, 17, 60]))
    body += ["        " + d.choice(["co.yield()", "@@lchurn(%d)" % d.int(5, 200), "co.yield()\n        @@lchurn(50)\n        co.yield()"])]
    for j in range(hold):
        body.append("        if x%d.id != p%d || x%d.chk != p%d * 3 {\n            bad += 1\n        }" % (j, j, j, j))
        body.append("        cells[p%d].v = x%d" % (j, j))
    code = [BASE, """type @@lite = struct{
    int id
    int chk
    ref<@@lite>? next
}
type @@cell = struct{
    ref<@@lite> v
    int id
}
fn @@lchurn(int n) {
    for int i = 0; i < n; i += 1 {
        var g = new @@lite(id = -1, chk = -1)
        var c = new @@cell(id = -1, v = g)
    }
}
fn @@work():string! {
    [ref<@@cell>] cells = []
    ref<@@lite> spare = new @@lite(id = -2, chk = -6)
    for int i = 0; i < %d; i += 1 {
        var x = new @@lite(id = i, chk = i * 3)
        cells.push(new @@cell(id = i, v = x))
    }
    int bad = 0
    for int i = 0; i < %d; i += 1 {
%s
    }
    for int i = 0; i < %d; i += 1 {
        if cells[i].id != i {
            bad += 1
        }
        var y = cells[i].v
        if y.id != i || y.chk != i * 3 {
            bad += 1
        }
    }
    return fmt.sprintf('bad %%d', bad)
}""" % (n, steps, "\n".join(body), n)]
    code.append("fn @@run():void! {\n    %s\n    %s\n}" % (
        "\n    ".join("var f%d = go @@work()" % k for k in range(par)), "\n    ".join("println(f%d.await())" % k for k in range(par))))
    return Case("\n".join(code), ["bad 0"] * par, feats=["barrier", "barrier-%d" % n], errable=True, imports=["co", "runtime", "fmt"])


def gen_noise(d):
    """ordinary computations with collections at arbitrary points"""
    noise = ["@@cycle(1)", "runtime.gc()", "@@churn(3)", "@@churn(12)", "co.yield()"]
    c = prog(d, Prof(types=d.choice([["i64", "i32"], ["i64", "f64", "u8"]]), aggs=True, strings=True, vecs=True, max_fns=3,
                     max_stmts=7, max_depth=3, max_params=5, noise=noise), ncalls=2)
    if not c.expect:
        return c
    c.code = BASE.replace("@@cycle(int naps) {\n    runtime.gc()", "@@cycle(int naps) {\n    if @@cycles > 12 {\n        return\n    }\n    @@cycles += 1\n    runtime.gc()") + "\nint @@cycles = 0\n" + c.code
    c.key = c.sample = c.code
    c.imports = ["co", "runtime", "fmt"]
    c.feats = ["noise"] + [f for f in c.feats if "gc" in f or "cycle" in f or "churn" in f]
    return c


SHAPES = {
    "node": ("[ref<@@node>] h = []", "h.push(@@mk(i))", 3000, 250),
    "vec": ("[[int]] h = []", "h.push(vec<int>.new(i, 100))", 3000, 800),
    "big": ("[[int]] h = []", "h.push(vec<int>.new(i, 20000))", 40, 160000),
    "str": ("[string] h = []", "h.push(fmt.sprintf('%d-%d-abcdefghijklmnopqrstuvwxyz-abcdefghijklmnopqrstuvwxyz', i, i))", 4000, 64),
    "map": ("[map<int,int>] h = []", "map<int,int> m = {}\n        for int j = 0; j < 30; j += 1 {\n            m[j] = i\n        }\n        h.push(m)", 800, 700),
    "closure": ("[fn():int] h = []", "int x = i\n        h.push(fn():int {\n            return x\n        })", 4000, 40),
    "union": ("[@@un] h = []", "@@un u = @@mk(i)\n        h.push(u)", 3000, 250),
    "cycle": ("[ref<@@cy>] h = []", "var a = new @@cy(id = i)\n        var b = new @@cy(id = i)\n        a.next = b\n        b.next = a\n        h.push(a)", 4000, 64),
}


def gen_reclaim(d):
    """what is dropped comes back, even when the objects point at each other"""
    kind = d.choice(sorted(SHAPES))
    decl, push, n, size = SHAPES[kind]
    n = n * d.int(2, 6) // 2
    keep = d.int(0, 20)
    code = [BASE, "type @@un = int|ref<@@node>|string", "type @@cy = struct{\n    int id\n    ref<@@cy>? next\n    [u8;40] pad\n}"]
    code.append("""fn @@fill():i64! {
    %s
    for int i = 0; i < %d; i += 1 {
        %s
    }
    runtime.gc()
    co.sleep(3)
    if h.len() != %d {
        println('lost')
    }
    return runtime.malloc_bytes()
}
fn @@settle(i64 limit):bool {
    for int k = 0; k < 2000; k += 1 {
        runtime.gc()
        co.sleep(5)
        if runtime.malloc_bytes() < limit {
            return true
        }
    }
    return false
}
fn @@run():void! {
    [ref<@@node>] kept = []
    for int i = 0; i < %d; i += 1 {
        kept.push(@@mk(i))
    }
    var f = go @@fill()
    i64 full = f.await()
    bool ok = @@settle(full - %d)
    println(ok)
    int s = 0
    for k in kept {
        s += @@ok(k)
    }
    println(s)
}""" % (decl, n, push, n, keep, n * size // 2))
    return Case("\n".join(code), ["true", str(keep * (keep - 1) // 2)], feats=["reclaim-" + kind], errable=True,
                imports=["co", "runtime", "fmt"])


def main():
    chk = Check("P13", rule="a case is one program; non-trivial when a collection is requested while the structure is being "
                "built or changed; distinct by program text")
    chk.assumptions = ["collections run concurrently, so which collection sees which state varies from run to run; the output "
                       "may not"]
    run_cases(chk, None, 2000, 20000, batch=12, run_timeout=45, confirm=3,
              streams=[("juggle", 6, gen_juggle), ("tree", 2, gen_tree), ("barrier", 2, gen_barrier), ("noise", 3, gen_noise), ("reclaim", 1, gen_reclaim)])
    chk.finish()


run_main(main)
