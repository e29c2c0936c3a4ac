"""Channels: every value sent is received once, in order; closing and select behave as documented."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import Case, Check, run_cases, run_main
import vals as V


def elem(d, tag="@@r"):
    return V.any_type(d, 1, tag)


# ------------------------------------------------- one coroutine, exact model

def gen_single(d):
    """operations that never block, on a few buffered channels: the outcome is a function of the history"""
    nch = d.int(1, 3)
    ts = [elem(d, "@@r%d" % k) for k in range(nch)]
    caps = [d.choice([1, 1, 2, 3, 4, 7, 0]) for _ in range(nch)]
    st = [{"q": [], "closed": False} for _ in range(nch)]
    code = V.declare(ts)
    out, exp = [], []
    feats = set()
    for k in range(nch):
        out.append("var ch%d = chan<%s>.new(%s)" % (k, ts[k].name, caps[k] if caps[k] or d.bool() else ""))
    nops = d.int(4, 26)
    for op_i in range(nops):
        k = d.below(nch)
        t, cap, s = ts[k], caps[k], st[k]
        op = d.weighted([(6, "try_send"), (5, "send"), (6, "try_recv"), (5, "recv"), (1, "close"), (2, "closed"), (4, "select")])
        if op == "send" and len(s["q"]) >= cap and not s["closed"]:
            op = "try_send"
        if op == "recv" and not s["q"] and not s["closed"]:
            op = "try_recv"
        feats.add(op)
        if op in ("send", "try_send"):
            v = t.gen(d)
            out.append("%s v%d = %s" % (t.name, op_i, t.lit(v)))
            if op == "send":
                out.append("ch%d.send(v%d) catch e {\n        println('E', e.msg())\n    }" % (k, op_i))
                if s["closed"]:
                    exp.append("E send on closed channel")
                    feats.add("send-closed")
                else:
                    s["q"].append(v)
            else:
                out.append("bool b%d = ch%d.try_send(v%d) catch e {\n        println('E', e.msg())\n        false\n    }\n    println('ts', b%d)" % (
                    op_i, k, op_i, op_i))
                if s["closed"]:
                    exp += ["E send on closed channel", "ts false"]
                    feats.add("send-closed")
                elif len(s["q"]) < cap:
                    s["q"].append(v)
                    exp.append("ts true")
                else:
                    exp.append("ts false")
                    feats.add("full")
        elif op == "recv":
            dv = t.gen(d)
            out.append("%s d%d = %s" % (t.name, op_i, t.lit(dv)))
            out.append("var r%d = ch%d.recv() catch e {\n        println('E', e.msg())\n        d%d\n    }\n    println('r', %s)" % (
                op_i, k, op_i, ", ".join(t.show1("r%d" % op_i))))
            if s["q"]:
                v = s["q"].pop(0)
                if s["closed"]:
                    feats.add("drain")
                exp.append("r " + V.line(t.text(v)))
            else:
                exp += ["E recv on closed channel", "r " + V.line(t.text(dv))]
                feats.add("recv-closed")
        elif op == "try_recv":
            if s["closed"] and not s["q"]:
                continue
            out.append("var (r%d, b%d) = ch%d.try_recv()\n    println('tr', b%d)" % (op_i, op_i, k, op_i))
            if s["q"]:
                v = s["q"].pop(0)
                out.append("println('v', %s)" % ", ".join(t.show1("r%d" % op_i)))
                exp += ["tr true", "v " + V.line(t.text(v))]
            else:
                exp.append("tr false")
                feats.add("empty")
        elif op == "close":
            out.append("ch%d.close() catch e {\n        println('E', e.msg())\n    }" % k)
            if s["closed"]:
                exp.append("E chan already closed")
            s["closed"] = True
        elif op == "closed":
            out.append("println('closed', ch%d.is_closed())" % k)
            exp.append("closed " + ("true" if s["closed"] else "false"))
        else:
            # at most one case of the select can proceed
            cand, ready = [], []
            used = 0
            for j in d.shuffle(range(nch)):
                for dirn in d.shuffle(["recv", "send"]):
                    if d.bool(1, 3):
                        continue
                    sj = st[j]
                    rdy = (bool(sj["q"]) or sj["closed"]) if dirn == "recv" else (len(sj["q"]) < caps[j] or sj["closed"])
                    if rdy and ready:
                        continue
                    if rdy:
                        ready.append((j, dirn))
                    cand.append((j, dirn))
            default = not ready or d.bool(1, 3)
            if not cand or (default and len(cand) + 1 < 2):
                continue
            arms = []
            for x, (j, dirn) in enumerate(cand):
                tj = ts[j]
                if dirn == "recv":
                    body = ["println('S', %d)" % x]
                    if st[j]["q"]:
                        body.append("println('v', %s)" % ", ".join(tj.show1("msg")))
                    if not (st[j]["q"] and st[j]["closed"]):
                        body.append("println(ch%d.is_successful())" % j)
                    arms.append("        ch%d.on_recv() -> msg {\n            %s\n        }" % (j, "\n            ".join(body)))
                else:
                    v = tj.gen(d)
                    out.append("%s w%d_%d = %s" % (tj.name, op_i, x, tj.lit(v)))
                    arms.append("        ch%d.on_send(w%d_%d) -> {\n            println('S', %d)\n            println(ch%d.is_successful())\n        }" % (
                        j, op_i, x, x, j))
                if (j, dirn) in ready:
                    exp.append("S %d" % x)
                    sj = st[j]
                    if dirn == "recv":
                        if sj["q"]:
                            exp += ["v " + V.line(tj.text(sj["q"].pop(0)))] + ([] if sj["closed"] else ["true"])
                            feats.add("select-recv")
                        else:
                            exp.append("false")
                            feats.add("select-closed")
                    elif sj["closed"]:
                        exp.append("false")
                        feats.add("select-closed")
                    else:
                        sj["q"].append(v)
                        exp.append("true")
                        feats.add("select-send")
            if default:
                arms.append("        _ -> {\n            println('S default')\n        }")
                if not ready:
                    exp.append("S default")
                    feats.add("select-default")
            out.append("select {\n%s\n    }" % "\n".join(arms))
    for k in range(nch):
        if not st[k]["q"]:
            continue
        for x, v in enumerate(st[k]["q"]):
            out.append("var z%d_%d = ch%d.recv()\n    println('end', %s)" % (k, x, k, ", ".join(ts[k].show1("z%d_%d" % (k, x)))))
            exp.append("end " + V.line(ts[k].text(v)))
    code.append("fn @@run():void! {\n    %s\n}" % "\n    ".join(out))
    return Case("\n".join(code), exp, nontrivial=len(feats) >= 4, feats=sorted(feats), errable=True, imports=["co"])


# ------------------------------------------------- several coroutines, results that no schedule can change

PAY = {
    "int": ("int", "(@P * 100000 + @I)", "@X"),
    "str": ("string", "@@mk(@P, @I)", "@@un(@X)"),
    "rec": ("@@pay", "@@pay{p: @P as u8, a: 1.5, s: @@mk(@P, @I), i: @I}", "@@val(@X)"),
    "vec": ("[int]", "[@P, @I, @P * 100000 + @I]", "@@vv(@X)"),
    "u8": ("u8", "(@I as u8)", None),
    "any": ("@@u", "@@uu(@P, @I)", "@@ux(@X)"),
    "arr": ("[i64;5]", "[@P, 7, @P * 100000 + @I, 9, @I]", "@@av(@X)"),
}

HELP = {
    "str": """fn @@mk(int p, int i):string {
    return fmt.sprintf('%d:%d', p, i)
}
fn @@un(string s):int {
    int p = 0
    int i = 0
    bool second = false
    for ch in s {
        if ch == 58 {
            second = true
        } else if second {
            i = i * 10 + (ch as int - 48)
        } else {
            p = p * 10 + (ch as int - 48)
        }
    }
    return p * 100000 + i
}""",
    "rec": """type @@pay = struct{
    u8 p
    f64 a
    string s
    int i
}
fn @@val(@@pay x):int {
    if x.a != 1.5 {
        return -1
    }
    int v = @@un(x.s)
    if v != x.p as int * 100000 + x.i {
        return -2
    }
    return v
}""",
    "vec": """fn @@vv([int] x):int {
    if x.len() != 3 || x[0] * 100000 + x[1] != x[2] {
        return -1
    }
    return x[2]
}""",
    "arr": """fn @@av([i64;5] x):int {
    if x[0] * 100000 + x[4] != x[2] || x[1] != 7 || x[3] != 9 {
        return -1
    }
    return x[2]
}""",
    "any": """type @@u = int|string|null
fn @@uu(int p, int i):@@u {
    if i % 2 == 0 {
        @@u r = p * 100000 + i
        return r
    }
    @@u r = @@mk(p, i)
    return r
}
fn @@ux(@@u x):int {
    if x is int v {
        return v
    }
    if x is string s {
        return @@un(s)
    }
    return -1
}""",
}


def pay_help(kind):
    if kind == "rec":
        return [HELP["str"], HELP["rec"]]
    if kind == "any":
        return [HELP["str"], HELP["any"]]
    return [HELP[kind]] if kind in HELP else []


def pace(d, i="i"):
    k = d.below(8)
    if k < 3:
        return ""
    if k < 5:
        return "co.yield()"
    if k < 6:
        return "if %s %% %d == 0 {\n            co.yield()\n        }" % (i, d.int(2, 5))
    if k < 7:
        return "if %s %% %d == %d {\n            co.sleep(1)\n        }" % (i, d.int(5, 9), d.int(0, 3))
    return "if %s == %d {\n            co.sleep(%d)\n        }" % (i, d.int(0, 6), d.int(1, 4))


def go(d, call):
    return "@async(%s, co.SAME)" % call if d.bool(1, 4) else "go %s" % call


def gen_fan(d):
    """producers and consumers over one channel; each consumer checks that the values of one producer arrive in order"""
    kind = d.choice(["int", "str", "rec", "vec", "arr"])
    ty, mk, un = PAY[kind]
    cap = d.choice([0, 0, 1, 2, 3, 5, 16])
    np_, nc = d.int(1, 5), d.int(1, 4)
    counts = [d.int(0, 30) for _ in range(np_)]
    total = sum(counts)
    closer = d.bool()
    code = pay_help(kind)
    yp, yc = pace(d), pace(d, "got")
    code.append("""fn @@prod(chan<%s> ch, chan<int> done, int p, int n):void! {
    for int i = 0; i < n; i += 1 {
        ch.send(%s)
        %s
    }
    done.send(n)
}""" % (ty, mk.replace("@P", "p").replace("@I", "i"), yp))
    if closer:
        take = "var x = ch.recv() catch e {\n            if e.msg() != 'recv on closed channel' {\n                bad += 1000\n            }\n            break\n        }"
        # leaving a loop out of a catch block: keep a flag
        body = """    bool open = true
    for open {
        %s x = ch.recv() catch e {
            open = false
            if e.msg() != 'recv on closed channel' {
                bad += 1000
            }
            %s
        }
        if !open {
            continue
        }
""" % (ty, mk.replace("@P", "0").replace("@I", "0"))
    else:
        body = """    for int k = 0; k < quota; k += 1 {
        %s x = ch.recv()
""" % ty
    code.append("""type @@res = struct{
    int got
    int sum
    int bad
}
fn @@cons(chan<%s> ch, int quota):@@res! {
    int got = 0
    int sum = 0
    int bad = 0
    [int] last = [%s]
%s        int v = %s
        int p = v / 100000
        int i = v %% 100000
        if v < 0 || p >= %d {
            bad += 100
            continue
        }
        if i <= last[p] {
            bad += 1
        }
        last[p] = i
        got += 1
        sum += v
        %s
    }
    return @@res{got: got, sum: sum, bad: bad}
}""" % (ty, ", ".join(["-1"] * np_), body, un.replace("@X", "x"), np_, yc))
    quotas = []
    left = total
    for c in range(nc):
        q = left if c == nc - 1 else d.int(0, left)
        quotas.append(q)
        left -= q
    main = ["var ch = chan<%s>.new(%s)" % (ty, cap or ""), "var done = chan<int>.new(%s)" % d.choice(["", "1", "8"])]
    starts = [("c", c) for c in range(nc)] + [("p", p) for p in range(np_)]
    for kind_, x in d.shuffle(starts):
        if kind_ == "c":
            main.append("var f%d = %s" % (x, go(d, "@@cons(ch, %d)" % quotas[x])))
        else:
            main.append(go(d, "@@prod(ch, done, %d, %d)" % (x, counts[x])))
    main.append("int sent = 0\n    for int k = 0; k < %d; k += 1 {\n        sent += done.recv()\n    }" % np_)
    if closer:
        main.append("ch.close()")
    main.append("int got = 0\n    int sum = 0\n    int bad = 0")
    for c in range(nc):
        main.append("var r%d = f%d.await()\n    got += r%d.got\n    sum += r%d.sum\n    bad += r%d.bad" % (c, c, c, c, c))
    main.append("println(sent, got, sum, bad)")
    exp = ["%d %d %d 0" % (total, total, sum(p * 100000 + i for p in range(np_) for i in range(counts[p])))]
    code.append("fn @@run():void! {\n    %s\n}" % "\n    ".join(main))
    feats = ["fan", "fan-" + kind, "fan-cap%s" % (cap if cap < 2 else "N"), "fan-close" if closer else "fan-quota"]
    return Case("\n".join(code), exp, nontrivial=total >= 4 and np_ + nc >= 3, feats=feats, errable=True,
                imports=["co", "fmt"])


def gen_pipe(d):
    """a chain of stages; order is preserved end to end"""
    n = d.int(1, 40)
    stages = d.int(1, 5)
    kind = d.choice(["int", "u8", "str"])
    ty = {"int": "int", "u8": "u8", "str": "string"}[kind]
    code = list(pay_help("str") if kind == "str" else [])
    ops = []
    for s in range(stages):
        m, a = d.choice([1, 3, -1, 7]), d.int(0, 50)
        ops.append((m, a))
        if kind == "str":
            tr = "@@mk(0, @@un(x) * 2 + %d)" % (a % 2)
        else:
            tr = "x * %s + %s" % ((m if m > 0 else 5), a)
        code.append("""fn @@st%d(chan<%s> a, chan<%s> b):void! {
    bool open = true
    int i = 0
    for open {
        %s x = a.recv() catch e {
            open = false
            %s
        }
        if open {
            b.send(%s)
            %s
            i += 1
        }
    }
    b.close()
}""" % (s, ty, ty, ty, "'0:0'" if kind == "str" else "0", tr, pace(d)))
    bits = 8 if kind == "u8" else 64
    vals = []
    for i in range(n):
        v = (i * 37 + 11) % 200
        for m, a in ops:
            if kind == "str":
                v = v * 2 + a % 2
            else:
                v = v * (m if m > 0 else 5) + a
                v &= (1 << bits) - 1
                if kind == "int" and v >> 63:
                    v -= 1 << 64
        vals.append(v)
    main = []
    for s in range(stages + 1):
        main.append("var ch%d = chan<%s>.new(%s)" % (s, ty, d.choice(["", "", "1", "2", "5"])))
    code.append("""fn @@src(chan<%s> a):void! {
    for int i = 0; i < %d; i += 1 {
        int v = (i * 37 + 11) %% 200
        a.send(%s)
        %s
    }
    a.close()
}""" % (ty, n, {"int": "v", "u8": "v as u8", "str": "@@mk(0, v)"}[kind], pace(d)))
    parts = ["@@src(ch0)"] + ["@@st%d(ch%d, ch%d)" % (s, s, s + 1) for s in range(stages)]
    for p in d.shuffle(parts):
        main.append(go(d, p))
    main.append("for int i = 0; i < %d; i += 1 {\n        var x = ch%d.recv()\n        println(x)\n    }" % (n, stages))
    main.append("ch%d.recv() catch e {\n        println('E', e.msg())\n        %s\n    }" % (stages, "''" if kind == "str" else "0"))
    exp = [("0:%d" % v if kind == "str" else str(v)) for v in vals] + ["E recv on closed channel"]
    code.append("fn @@run():void! {\n    %s\n}" % "\n    ".join(main))
    return Case("\n".join(code), exp, nontrivial=n > 2, feats=["pipe", "pipe-" + kind], errable=True, imports=["co", "fmt"])


def gen_select(d):
    """a select loop over several channels with senders and receivers on the other side"""
    nr, ns = d.int(0, 3), d.int(0, 3)
    if nr + ns < 2:
        nr, ns = 1, 1
    loops = d.int(1, 2)           # number of coroutines running the same select
    rc = [d.int(0, 20) for _ in range(nr)]
    sc = [d.int(0, 20) for _ in range(ns)]
    # the select may only send what the other side still wants, so those channels have no buffer
    caps = [d.choice([0, 0, 1, 2, 4]) if x < nr else 0 for x in range(nr + ns)]
    kinds = [d.choice(["int", "str", "arr"]) for _ in range(nr + ns)]
    helps = []
    for k in kinds:
        for h in pay_help(k):
            if h not in helps:
                helps.append(h)
    code = helps
    total = sum(rc) + sum(sc)
    # the selecting coroutine(s): a shared quota handed out through a token channel keeps the number of selects exact
    args = ["chan<int> tok"] + ["chan<%s> c%d" % (PAY[k][0], x) for x, k in enumerate(kinds)]
    arms = []
    for x in d.shuffle(range(nr + ns)):
        ty, mk, un = PAY[kinds[x]]
        if x < nr:
            arms.append("""            c%d.on_recv() -> msg {
                int v = %s
                if v / 100000 != %d {
                    bad += 1
                }
                if !c%d.is_successful() {
                    bad += 100
                }
                if v %% 100000 <= last[%d] {
                    bad += 10
                }
                last[%d] = v %% 100000
                rsum += v
            }""" % (x, un.replace("@X", "msg"), x, x, x, x))
        else:
            # with loops > 1 the sequence numbers interleave; only the count is checked there
            arms.append("""            c%d.on_send(%s) -> {
                seq[%d] += 1
                if !c%d.is_successful() {
                    bad += 100
                }
            }""" % (x, mk.replace("@P", "(%d + me)" % (x * 4)).replace("@I", "seq[%d]" % x), x, x))
    dflt = d.bool(1, 4)
    if dflt:
        arms.append("""            _ -> {
                co.yield()
                again = true
            }""")
    code.append("""type @@res = struct{
    int rsum
    int bad
    [int] seq
}
fn @@sel(%s, int me):@@res! {
    int rsum = 0
    int bad = 0
    [int] seq = [%s]
    [int] last = [%s]
    bool go_on = true
    int i = 0
    for go_on {
        tok.recv() catch e {
            go_on = false
            0
        }
        if !go_on {
            continue
        }
        bool again = true
        for again {
            again = false
            select {
%s
            }
        }
        i += 1
        %s
    }
    return @@res{rsum: rsum, bad: bad, seq: seq}
}""" % (", ".join(args), ", ".join(["0"] * (nr + ns)), ", ".join(["-1"] * (nr + ns)), "\n".join(arms), pace(d)))
    main = ["var tok = chan<int>.new(%d)" % (total + 1)]
    for x, k in enumerate(kinds):
        main.append("var c%d = chan<%s>.new(%s)" % (x, PAY[k][0], caps[x] or ""))
    for k in range(total):
        pass
    main.append("for int k = 0; k < %d; k += 1 {\n        tok.send(k)\n    }\n    tok.close()" % total)
    starts = []
    for x in range(nr):
        ty, mk, un = PAY[kinds[x]]
        code.append("""fn @@p%d(chan<%s> ch):void! {
    for int i = 0; i < %d; i += 1 {
        ch.send(%s)
        %s
    }
}""" % (x, ty, rc[x], mk.replace("@P", str(x)).replace("@I", "i"), pace(d)))
        starts.append("var f%d = go @@p%d(c%d)" % (x, x, x))
    for y in range(ns):
        x = nr + y
        ty, mk, un = PAY[kinds[x]]
        code.append("""fn @@p%d(chan<%s> ch):int! {
    int bad = 0
    [int] last = [-1, -1]
    for int i = 0; i < %d; i += 1 {
        int v = %s
        int p = v / 100000 - %d
        if p < 0 || p > 1 {
            bad += 100
            continue
        }
        if v %% 100000 <= last[p] {
            bad += 1
        }
        last[p] = v %% 100000
        %s
    }
    return bad * 1000 + last[0] + last[1] + 2
}""" % (x, ty, sc[y], un.replace("@X", "ch.recv()"), x * 4, pace(d)))
        starts.append("var f%d = go @@p%d(c%d)" % (x, x, x))
    for l in range(loops):
        starts.append("var s%d = go @@sel(tok, %s, %d)" % (l, ", ".join("c%d" % x for x in range(nr + ns)), l))
    main += d.shuffle(starts)
    main.append("int rsum = 0\n    int bad = 0")
    if ns:
        main.append("[int] seq = [%s]" % ", ".join(["0"] * (nr + ns)))
    for l in range(loops):
        main.append("var r%d = s%d.await()\n    rsum += r%d.rsum\n    bad += r%d.bad" % (l, l, l, l))
        for y in range(ns):
            main.append("seq[%d] += r%d.seq[%d]" % (nr + y, l, nr + y))
    for x in range(nr):
        main.append("f%d.await_void()" % x)
    exp = []
    for y in range(ns):
        x = nr + y
        main.append("println('recv', f%d.await(), seq[%d])" % (x, x))
        exp.append("recv %d %d" % (sc[y], sc[y]))
    main.append("println(rsum, bad)")
    exp.append("%d 0" % sum(x * 100000 + i for x in range(nr) for i in range(rc[x])))
    code.append("fn @@run():void! {\n    %s\n}" % "\n    ".join(main))
    feats = ["select", "select-loops%d" % loops] + (["select-nonblock"] if dflt else [])
    if nr and ns:
        feats.append("select-mixed")
    return Case("\n".join(code), exp, nontrivial=total >= 4, feats=feats, errable=True, imports=["co", "fmt"])


def gen_close(d):
    """closing a channel: the buffered values are delivered once, every waiter is woken with the error"""
    cap = d.choice([0, 1, 2, 4])
    mode = d.choice(["recv", "send", "select"])
    n = d.int(1, 6)
    kind = d.choice(["int", "str", "arr"])
    ty, mk, un = PAY[kind]
    code = pay_help(kind)
    zero = mk.replace("@P", "0").replace("@I", "0")
    main = ["var ch = chan<%s>.new(%s)" % (ty, cap or ""), "var other = chan<int>.new()"]
    exp = []
    if mode == "recv":
        pre = d.int(0, min(cap, n))
        code.append("""fn @@w(chan<%s> ch):int! {
    int r = -1
    %s x = ch.recv() catch e {
        if e.msg() == 'recv on closed channel' {
            r = -7
        }
        %s
    }
    if r == -7 {
        return r
    }
    return %s
}""" % (ty, ty, zero, un.replace("@X", "x")))
        for k in range(n):
            main.append("var f%d = %s" % (k, go(d, "@@w(ch)")))
        if d.bool():
            main.append("co.sleep(%d)" % d.int(1, 3))
        for k in range(pre):
            main.append("ch.send(%s)" % mk.replace("@P", "1").replace("@I", str(k)))
        main.append("ch.close()")
        main.append("int closed = 0\n    int sum = 0")
        for k in range(n):
            main.append("int r%d = f%d.await()\n    if r%d == -7 {\n        closed += 1\n    } else {\n        sum += r%d\n    }" % (k, k, k, k))
        main.append("println(closed, sum)")
        exp = ["%d %d" % (n - pre, sum(100000 + k for k in range(pre)))]
    elif mode == "send":
        fill = cap
        code.append("""fn @@w(chan<%s> ch, int k):int! {
    int r = 1
    ch.send(%s) catch e {
        r = -1
        if e.msg() == 'send on closed channel' {
            r = -7
        }
    }
    return r
}""" % (ty, mk.replace("@P", "2").replace("@I", "k")))
        for k in range(fill):
            main.append("ch.send(%s)" % mk.replace("@P", "1").replace("@I", str(k)))
        for k in range(n):
            main.append("var f%d = %s" % (k, go(d, "@@w(ch, %d)" % k)))
        if d.bool():
            main.append("co.sleep(%d)" % d.int(1, 3))
        main.append("ch.close()")
        for k in range(n):
            main.append("println(f%d.await())" % k)
            exp.append("-7")
        for k in range(fill):
            main.append("%s x%d = ch.recv()\n    println(%s)" % (ty, k, un.replace("@X", "x%d" % k)))
            exp.append(str(100000 + k))
        main.append("ch.recv() catch e {\n        println(e.msg())\n        %s\n    }" % zero)
        exp.append("recv on closed channel")
    else:
        pre = 0  # after a close the success flag says nothing about values still buffered
        code.append("""fn @@w(chan<%s> ch, chan<int> other):int! {
    int r = -1
    select {
        other.on_recv() -> v {
            r = -2
        }
        ch.on_recv() -> x {
            if ch.is_successful() {
                r = %s
            } else {
                r = -7
            }
        }
    }
    return r
}""" % (ty, un.replace("@X", "x")))
        for k in range(n):
            main.append("var f%d = %s" % (k, go(d, "@@w(ch, other)")))
        if d.bool():
            main.append("co.sleep(%d)" % d.int(1, 3))
        for k in range(pre):
            main.append("ch.send(%s)" % mk.replace("@P", "1").replace("@I", str(k)))
        main.append("ch.close()\n    int closed = 0\n    int sum = 0")
        for k in range(n):
            main.append("int r%d = f%d.await()\n    if r%d == -7 {\n        closed += 1\n    } else {\n        sum += r%d\n    }" % (k, k, k, k))
        main.append("println(closed, sum)")
        exp = ["%d %d" % (n - pre, sum(100000 + k for k in range(pre)))]
    code.append("fn @@run():void! {\n    %s\n}" % "\n    ".join(main))
    return Case("\n".join(code), exp, feats=["close-" + mode], errable=True, imports=["co", "fmt"])


def gen_swap(d):
    """coroutines that send and receive on the same channels in one select, stopped by closing a third"""
    n = d.int(2, 5)
    nch = d.int(1, 3)
    kinds = [d.choice(["int", "arr", "str"]) for _ in range(nch)]
    code = []
    for k in kinds:
        for h in pay_help(k):
            if h not in code:
                code.append(h)
    caps = [d.choice([0, 0, 0, 1, 3]) for _ in range(nch)]
    arms = []
    for x in range(nch):
        ty, mk, un = PAY[kinds[x]]
        snd = """            c%d.on_send(%s) -> {
                sent += %d + ns
                ns += 1
                stat.send(1)
            }""" % (x, mk.replace("@P", "%d" % (x + 1)).replace("@I", "ns"), 100000 * (x + 1))
        rcv = """            c%d.on_recv() -> msg {
                int v = %s
                if v / 100000 != %d {
                    bad += 1
                }
                got += v
                nr += 1
                stat.send(1)
            }""" % (x, un.replace("@X", "msg"), x + 1)
        arms += [snd, rcv]
    arms = d.shuffle(arms + ["""            quit.on_recv() -> {
                go_on = false
            }"""])
    code.append("""type @@res = struct{
    int sent
    int got
    int ns
    int nr
    int bad
}
fn @@sw(%s, chan<int> quit, chan<int> stat):@@res! {
    int sent = 0
    int got = 0
    int ns = 0
    int nr = 0
    int bad = 0
    int i = 0
    bool go_on = true
    for go_on {
        select {
%s
        }
        // which ready case a select takes is open, so the stop signal is looked at here as well
        if quit.is_closed() {
            go_on = false
        }
        i += 1
        %s
    }
    return @@res{sent: sent, got: got, ns: ns, nr: nr, bad: bad}
}""" % (", ".join("chan<%s> c%d" % (PAY[k][0], x) for x, k in enumerate(kinds)), "\n".join(arms), pace(d)))
    main = ["var c%d = chan<%s>.new(%s)" % (x, PAY[k][0], caps[x] or "") for x, k in enumerate(kinds)]
    main.append("var quit = chan<int>.new()\n    var stat = chan<int>.new(%d)" % d.choice([1, 4, 1000]))
    for k in range(n):
        main.append("var f%d = go @@sw(%s, quit, stat)" % (k, ", ".join("c%d" % x for x in range(nch))))
    want = d.int(2, 60)
    # the counter keeps draining until every worker has left
    code.append("""fn @@drain(chan<int> stat):int! {
    int k = 0
    bool open = true
    for open {
        stat.recv() catch e {
            open = false
            0
        }
        k += 1
    }
    return k - 1
}""")
    main.append("for int k = 0; k < %d; k += 1 {\n        stat.recv()\n    }" % want)
    main.append("var dr = go @@drain(stat)\n    quit.close()")
    main.append("int sent = 0\n    int got = 0\n    int ns = 0\n    int nr = 0\n    int bad = 0")
    for k in range(n):
        main.append("var r%d = f%d.await()\n    sent += r%d.sent\n    got += r%d.got\n    ns += r%d.ns\n    nr += r%d.nr\n    bad += r%d.bad" % ((k,) * 7))
    main.append("stat.close()\n    int seen = dr.await() + %d\n    println(seen == ns + nr, bad)" % want)
    for x, k in enumerate(kinds):
        ty, mk, un = PAY[k]
        main.append("""bool more%d = true
    for more%d {
        var (x, ok) = c%d.try_recv()
        more%d = ok
        if ok {
            got += %s
            nr += 1
        }
    }""" % (x, x, x, x, un.replace("@X", "x")))
    main.append("println(sent == got, ns == nr, ns + nr >= %d)" % want)
    code.append("fn @@run():void! {\n    %s\n}" % "\n    ".join(main))
    return Case("\n".join(code), ["true 0", "true true true"], nontrivial=want >= 4, feats=["swap", "swap%d" % nch],
                errable=True, imports=["co", "fmt"])


def main():
    chk = Check("P15", rule="a case is one program; non-trivial when a single-coroutine history uses at least four kinds of "
                "operation, or at least four values travel between coroutines; distinct by program text")
    chk.assumptions = ["programs are built so that every schedule gives the same output"]
    run_cases(chk, None, 2200, 26000, batch=14, run_timeout=30, confirm=2, streams=[("single", 4, gen_single), ("fan", 3, gen_fan), ("pipe", 2, gen_pipe),
                                                       ("select", 3, gen_select), ("close", 2, gen_close), ("swap", 2, gen_swap)])
    chk.finish()


if __name__ == "__main__":
    run_main(main)
