"""Errors, panics and defer: random programs that throw, catch, defer and leave blocks early, against an interpreter."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import Case, Check, run_cases, run_main


class Thrown(Exception):
    def __init__(self, msg):
        self.msg = msg


class Leave(Exception):
    """a throw statement leaves its function, whatever try encloses it"""

    def __init__(self, msg):
        self.msg = msg


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class Gen:
    """statements are tuples; `err` says whether a throw may leave the current statement"""

    def __init__(self, d):
        self.d = d
        self.n = 0
        self.fns = []  # (name, errable, body, ret)
        self.feats = set()
        self.big = 0

    def num(self):
        self.n += 1
        return self.n

    def block(self, depth, err, loop, intry, lo=1, hi=4):
        return [self.stmt(depth, err, loop, intry) for _ in range(self.d.int(lo, hi))]

    def stmt(self, depth, err, loop, intry):
        d = self.d
        self.big += 1
        k = d.below(20)
        if self.big > 40:
            k = k % 4
        if k < 3:
            return ("print", self.num())
        if k < 4:
            return ("set", d.int(1, 5), d.int(-3, 9))
        if k < 6:
            self.feats.add("defer")
            body = []
            for _ in range(d.int(1, 2)):
                j = d.below(6)
                if j == 5:
                    body.append(("dvec", d.int(0, 2)))
                    self.feats.add("defer-access")
                elif j == 3 and self.calm:
                    body.append(("doob", d.int(0, 5), "e%d" % self.num()))
                elif j == 4 and self.fns and self.calm:
                    f = d.choice(self.fns)
                    body.append(("dcall", f, d.int(-2, 6), "e%d" % self.num()))
                    self.feats.add("defer-call")
                else:
                    body.append(d.choice([("print", self.num()), ("set", d.int(1, 3), d.int(-3, 9))]))
            return ("defer", body)
        if k < 8 and depth:
            return ("if", d.int(2, 4), self.block(depth - 1, err, loop, intry),
                    self.block(depth - 1, err, loop, intry) if d.bool() else None)
        if k < 10 and depth:
            self.feats.add("loop")
            return ("for", "it%d" % self.num(), d.int(1, 3), self.block(depth - 1, err, True, intry))
        if k < 11 and loop:
            self.feats.add("break")
            return ("leave", d.int(2, 3), d.choice(["break", "continue"]))
        if k < 13 and self.errable:
            self.feats.add("throw")
            return ("throw", d.int(1, 3), self.num())
        if k < 15 and depth and not self.calm:
            self.feats.add("try")
            return ("try", self.block(depth - 1, True, loop, True), "e%d" % self.num(),
                    self.block(depth - 1, err, loop, intry))
        if k < 18 and self.fns:
            f = d.choice(self.fns)
            mode = "plain"
            if f[1]:
                mode = "plain" if (err or intry) and d.bool() else "catch"
            self.feats.add("call-" + mode)
            return ("call", self.num(), f, d.int(-2, 6), mode, "e%d" % self.num(), d.int(-9, 99),
                    self.block(0, err, False, intry, 0, 1) if mode == "catch" else [])
        if k < 19:
            self.feats.add("oob")
            return ("oob", self.num(), d.int(0, 5), "e%d" % self.num())
        if k < 20 and depth:
            self.feats.add("return")
            return ("ret", d.int(2, 4), d.int(-5, 5))
        return ("print", self.num())

    def fn(self):
        d = self.d
        self.big = 0
        err = self.errable = d.bool(3, 4)
        # deferred code that may fail runs only where no error can be pending (known finding)
        self.calm = not err and d.bool()
        body = self.block(d.int(1, 3), err, False, False, 2, 6)
        self.fns.append(("@@f%d" % len(self.fns), err, body, d.int(-5, 5)))


def emit(b, ind, out):
    for s in b:
        k = s[0]
        if k == "print":
            out.append("%sprintln('p%d', v)" % (ind, s[1]))
        elif k == "set":
            out.append("%sv = v * %d + (%d)" % (ind, s[1], s[2]))
        elif k == "defer":
            out.append("%sdefer {" % ind)
            emit(s[1], ind + "    ", out)
            out.append("%s}" % ind)
        elif k == "if":
            out.append("%sif @@m(v, %d) {" % (ind, s[1]))
            emit(s[2], ind + "    ", out)
            if s[3] is not None:
                out.append("%s} else {" % ind)
                emit(s[3], ind + "    ", out)
            out.append("%s}" % ind)
        elif k == "for":
            out.append("%sfor %s in 0..%d {" % (ind, s[1], s[2]))
            out.append("%s    println('%s', %s)" % (ind, s[1], s[1]))
            emit(s[3], ind + "    ", out)
            out.append("%s}" % ind)
        elif k == "leave":
            out.append("%sif @@m(v, %d) {\n%s    %s\n%s}" % (ind, s[1], ind, s[2], ind))
        elif k == "throw":
            out.append("%sif @@m(v, %d) {\n%s    throw errorf('t%d:%%d', v)\n%s}" % (ind, s[1], ind, s[2], ind))
        elif k == "try":
            out.append("%stry {" % ind)
            emit(s[1], ind + "    ", out)
            out.append("%s} catch %s {" % (ind, s[2]))
            out.append("%s    println('c', %s.msg())" % (ind, s[2]))
            emit(s[3], ind + "    ", out)
            out.append("%s}" % ind)
        elif k == "call":
            _, n, f, arg, mode, e, fb, cb = s
            if mode == "plain":
                out.append("%svar r%d = %s(v + (%d))" % (ind, n, f[0], arg))
            else:
                out.append("%svar r%d = %s(v + (%d)) catch %s {" % (ind, n, f[0], arg, e))
                out.append("%s    println('k', %s.msg())" % (ind, e))
                emit(cb, ind + "    ", out)
                out.append("%s    %d" % (ind, fb))
                out.append("%s}" % ind)
            out.append("%sv = (v + r%d) %% 50" % (ind, n))
        elif k == "oob":
            _, n, i, e = s
            out.append("%svar o%d = l[%d] catch %s {" % (ind, n, i, e))
            out.append("%s    println('o', %s.msg())\n%s    77" % (ind, e, ind))
            out.append("%s}" % ind)
            out.append("%sv = (v + o%d) %% 60" % (ind, n))
        elif k == "dvec":
            out.append("%sv = (v + l[%d]) %% 50" % (ind, s[1]))
        elif k in ("doob", "dcall"):
            x = "l[%d]" % s[1] if k == "doob" else "%s(v + (%d))" % (s[1][0], s[2])
            out.append("%stry {\n%s    v = (v + %s) %% 50\n%s} catch %s {\n%s    println('d', %s.msg())\n%s}" % (
                ind, ind, x, ind, s[-1], ind, s[-1], ind))
        elif k == "ret":
            out.append("%sif @@m(v, %d) {\n%s    return v + (%d)\n%s}" % (ind, s[1], ind, s[2], ind))
    return out


def crem(a, b):
    r = abs(a) % b
    return -r if a < 0 else r


LIST = [4, 9, 1]


class Interp:
    def __init__(self):
        self.out = []
        self.steps = 0

    def call(self, f, v):
        self.steps += 1
        if self.steps > 60:
            raise OverflowError
        fr = {"v": v}
        try:
            self.block(f[2] + [("last", f[3])], fr)
        except Ret as r:
            return r.v
        except Leave as t:
            raise Thrown(t.msg)

    def cond(self, fr, m):
        return crem(fr["v"], m) == 0

    def block(self, b, fr):
        defers = []
        try:
            for s in b:
                self.stmt(s, fr, defers)
        finally:
            if not isinstance(sys.exc_info()[1], OverflowError):
                for x in reversed(defers):
                    self.block(x, fr)

    def stmt(self, s, fr, defers):
        k = s[0]
        if len(self.out) > 300 or abs(fr["v"]) > 1 << 60:
            raise OverflowError
        if k == "print":
            self.out.append("p%d %d" % (s[1], fr["v"]))
        elif k == "set":
            fr["v"] = fr["v"] * s[1] + s[2]
        elif k == "defer":
            defers.append(s[1])
        elif k == "if":
            if self.cond(fr, s[1]):
                self.block(s[2], fr)
            elif s[3] is not None:
                self.block(s[3], fr)
        elif k == "for":
            for i in range(s[2]):
                try:
                    self.block([("rawi", s[1], i)] + s[3], fr)
                except Brk:
                    break
                except Cont:
                    continue
        elif k == "rawi":
            self.out.append("%s %d" % (s[1], s[2]))
        elif k == "leave":
            if self.cond(fr, s[1]):
                raise Brk() if s[2] == "break" else Cont()
        elif k == "throw":
            if self.cond(fr, s[1]):
                raise Leave("t%d:%d" % (s[2], fr["v"]))
        elif k == "try":
            try:
                self.block(s[1], fr)
            except Thrown as t:
                self.block([("rawc", t.msg)] + s[3], fr)
        elif k == "dvec":
            fr["v"] = crem(fr["v"] + LIST[s[1]], 50)
        elif k == "rawc":
            self.out.append("c " + s[1])
        elif k == "call":
            _, n, f, arg, mode, e, fb, cb = s
            try:
                r = self.call(f, fr["v"] + arg)
            except Thrown as t:
                if mode == "plain":
                    raise
                self.out.append("k " + t.msg)
                self.block(cb, fr)
                r = fb
            fr["v"] = crem(fr["v"] + r, 50)
        elif k == "oob":
            _, n, i, e = s
            if i < len(LIST):
                r = LIST[i]
            else:
                self.out.append("o index out of range [%d] with length %d" % (i, len(LIST)))
                r = 77
            fr["v"] = crem(fr["v"] + r, 60)
        elif k == "doob":
            if s[1] < len(LIST):
                fr["v"] = crem(fr["v"] + LIST[s[1]], 50)
            else:
                self.out.append("d index out of range [%d] with length %d" % (s[1], len(LIST)))
        elif k == "dcall":
            try:
                r = self.call(s[1], fr["v"] + s[2])
                fr["v"] = crem(fr["v"] + r, 50)
            except Thrown as t:
                self.out.append("d " + t.msg)
        elif k == "last":
            raise Ret(fr["v"] + s[1])
        elif k == "ret":
            if self.cond(fr, s[1]):
                # the value is computed before the deferred blocks run
                raise Ret(fr["v"] + s[2])


def gen(d):
    g = Gen(d)
    for _ in range(d.int(1, 3)):
        g.fn()
    it = Interp()
    calls = []
    for _ in range(d.int(2, 4)):
        f = d.choice(g.fns)
        a = d.int(-8, 12)
        mark, steps = len(it.out), it.steps
        try:
            it.steps = 0
            r = it.call(f, a)
            it.out.append("= %d" % r)
        except Thrown as t:
            it.out.append("! " + t.msg)
        except OverflowError:
            del it.out[mark:]
            continue
        calls.append((f, a))
    code = ["fn @@m(int v, int m):bool {\n    return v % m == 0\n}"]
    for name, err, body, ret in g.fns:
        lines = emit(body, "    ", [])
        code.append("fn %s(int v):int%s {\n    [int] l = [4, 9, 1]\n%s\n    return v + (%d)\n}" % (
            name, "!" if err else "", "\n".join(lines), ret))
    out = []
    for f, a in calls:
        if f[1]:
            out.append("try {\n        println('=', %s(%d))\n    } catch e {\n        println('!', e.msg())\n    }" % (f[0], a))
        else:
            out.append("println('=', %s(%d))" % (f[0], a))
    code.append("fn @@run() {\n    %s\n}" % "\n    ".join(out or ["println('none')"]))
    return Case("\n".join(code), it.out if calls else ["none"], nontrivial=len(g.feats) >= 3 and len(it.out) > 4,
                feats=sorted(g.feats))


def main():
    chk = Check("P09", rule="a program is non-trivial when it uses three of throw, try, catch, defer, early exit, out of "
                            "range access, and prints more than four lines; distinct by generated source")
    run_cases(chk, gen, 3000, 40000, batch=40)
    chk.finish()


run_main(main)
