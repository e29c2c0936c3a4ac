"""Coroutines: what a coroutine computes does not depend on where it is suspended; await delivers its result or error."""
import os
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import Case, Check, run_cases, run_main
from lang import Ctx, Excluded, Frame, Fuel, Gen, Prof, tname
import vals as V

EMPTY = "fn @@run() {\n}"


def spawn(d, fn, args):
    call = "%s(%s)" % (fn, args)
    return "@async(%s, co.SAME)" % call if d.bool(1, 3) else "go %s" % call


def gen_frames(d):
    """random functions with suspension points anywhere, several instances at a time"""
    noise = ["co.yield()", "co.yield()", "co.yield()", "co.sleep(1)", "@@deep(%d)" % d.int(1, 60), "@@churn()"]
    types = d.choice([["i64", "i32"], ["i64", "f64"], ["f64", "f32", "i64", "u8"], ["i64"]])
    # a sleep inside nested loops would take long: sleeps are rationed by a counter
    prof = Prof(types=types, max_fns=3, max_stmts=9, max_depth=3, max_params=d.choice([3, 8]), prints=False, noise=noise,
                aggs=d.bool(1, 2), strings=False, max_vars=50)
    g = Gen(d, prof)
    for _ in range(d.int(1, 3)):
        g.func()
    src, exs, waits = [], [], []
    g.scopes = [[]]
    n = d.int(2, 7)
    for i in range(n):
        fn = g.funcs[-1] if d.bool(2, 3) else d.choice(g.funcs)
        args = [g.construct_lit(t) for _, t in fn.params]
        src.append("    var f%d = %s" % (i, spawn(d, fn.name, ", ".join(a.s for a in args))))
        r = g.fresh("r")
        late = d.bool(1, 3)
        wait = ["    %s %s = f%d.await()" % (tname(fn.ret), r, i)]

        def ex(c, f, fn=fn, args=args, r=r):
            f[r] = [fn.call(c, [a.ev(c, f) for a in args])]
        lv = g.leaves_of(r, fn.ret)
        x = None
        if lv:
            s, x = g.print_stmt(lv, "    ")
            wait += s
        if late:
            src += wait
            exs += [ex] + ([x] if x else [])
        else:
            waits.append((wait, [ex] + ([x] if x else [])))
    for wait, xs in d.shuffle(waits):
        src += wait
        exs += xs
    c = Ctx()
    fr = Frame()
    try:
        for x in exs:
            x(c, fr)
    except (Fuel, Excluded):
        return Case(EMPTY, [], nontrivial=False)
    code = [g.finish()]
    code.append("""int @@slept = 0
fn @@nap() {
    if @@slept < 20 {
        @@slept += 1
        co.sleep(1)
    }
}
fn @@deep(int n):int {
    if n <= 0 {
        co.yield()
        return 1
    }
    int a = n * 3
    f64 b = n as f64 * 0.5
    int r = @@deep(n - 1)
    if b != n as f64 * 0.5 || a != n * 3 || r != n {
        println('frame damaged at', n)
    }
    return r + 1
}
fn @@churn() {
    [string] l = []
    for int i = 0; i < 20; i += 1 {
        l.push('abcdefgh' + 'xyz')
    }
}""")
    text = "\n".join(code).replace("co.sleep(1)\n    }\n}", "@KEEP").replace("co.sleep(1)", "@@nap()").replace(
        "@KEEP", "co.sleep(1)\n    }\n}")
    text += "\nfn @@run():void! {\n%s\n}" % "\n".join(src)
    feats = ["frames"] + sorted(f for f in g.feats if f.startswith("co.") or f.startswith("@@"))
    return Case(text, c.out, nontrivial=len(feats) > 1 and n >= 3, feats=feats, imports=["co"], errable=True)


def gen_tree(d):
    """coroutines that start and await further coroutines, results and errors of every type travel up"""
    t = V.any_type(d, 2)
    depth = d.int(1, 4)
    code = V.declare([t])
    vals = [t.gen(d) for _ in range(d.int(2, 5))]
    code.append("fn @@val(int k):%s {\n%s\n    return %s\n}" % (t.name, "\n".join(
        "    if k == %d {\n        return %s\n    }" % (i, t.lit(v)) for i, v in enumerate(vals[:-1])), t.lit(vals[-1])))
    nv = len(vals)
    fan = d.int(1, 3)
    err_mod = d.choice([0, 0, 2, 3, 5])
    nap = d.choice(["", "co.yield()", "co.sleep(n % 2)", "co.yield()\n    co.yield()"])
    # node(n, id): leaves answer val(id % nv) or an error; inner nodes pass on the answer of child (id % fan)
    starts, takes = [], []
    code.append("fn @@leaf(int id):%s! {\n    %s\n%s    return @@val(id %% %d)\n}" % (
        t.name, nap.replace("n %", "id %"),
        "    if id %% %d == 0 {\n        throw errorf('leaf %%d', id)\n    }\n" % err_mod if err_mod else "", nv))
    # an error nobody waits for yet ends the program: a coroutine that may fail is started on the same processor, so that
    # it cannot run before the await
    order = d.shuffle(range(fan))
    begin = {}
    for k in range(fan):
        args = "n - 1, id * %d + %d" % (fan, k)
        if err_mod:
            begin[k] = "    var f%d = @async(@@node(%s), co.SAME)" % (k, args)
        else:
            starts.append("    var f%d = %s" % (k, spawn(d, "@@node", args)))
    code.append("fn @@node(int n, int id):%s! {\n    if n == 0 {\n        return @@leaf(id)\n    }\n    %s\n%s\n    int errs = 0\n    %s last = @@val(id %% %d)" % (
        t.name, nap, "\n".join(starts), t.name, nv))
    for k in order:
        code[-1] += "\n" + begin.get(k, "") + "\n    %s x%d = f%d.await() catch e {\n        errs += 1\n        @@val(0)\n    }\n    if id %% %d == %d {\n        last = x%d\n    }" % (
            t.name, k, k, fan, k, k)
    code[-1] += "\n    if errs > 1 {\n        throw errorf('node %d %d %d', n, id, errs)\n    }\n    return last\n}"

    class Err(Exception):
        pass

    def leaf(i):
        if err_mod and i % err_mod == 0:
            raise Err("leaf %d" % i)
        return vals[min(i % nv, nv - 1)]

    def node(n, i):
        if n == 0:
            return leaf(i)
        errs, last = 0, vals[i % nv]
        for k in order:
            try:
                x = node(n - 1, i * fan + k)
            except Err:
                errs += 1
                x = vals[0]
            if i % fan == k:
                last = x
        if errs > 1:
            raise Err("node %d %d %d" % (n, i, errs))
        return last

    src, exp = [], []
    roots = [d.below(30) for _ in range(d.int(1, 4))]
    for k, i in enumerate(roots):
        if not err_mod:
            src.append("var f%d = %s" % (k, spawn(d, "@@node", "%d, %d" % (depth, i))))
    for k in d.shuffle(range(len(roots))):
        if err_mod:
            src.append("var f%d = @async(@@node(%d, %d), co.SAME)" % (k, depth, roots[k]))
        src.append("var x%d = f%d.await() catch e {\n        println('E', e.msg())\n        @@val(0)\n    }\n    println(%s)" % (
            k, k, ", ".join(t.show1("x%d" % k))))
        try:
            v = node(depth, roots[k])
        except Err as e:
            exp.append("E " + str(e))
            v = vals[0]
        exp.append(V.line(t.text(v)))
    # awaiting a second time gives the same answer
    k = d.below(len(roots))
    src.append("var y = f%d.await() catch e {\n        println('E', e.msg())\n        @@val(0)\n    }\n    println(%s)" % (
        k, ", ".join(t.show1("y"))))
    try:
        v = node(depth, roots[k])
    except Err as e:
        exp.append("E " + str(e))
        v = vals[0]
    exp.append(V.line(t.text(v)))
    code.append("fn @@run():void! {\n    %s\n}" % "\n    ".join(src))
    return Case("\n".join(code), exp, nontrivial=depth * fan >= 2, feats=["tree", "tree-err" if err_mod else "tree-ok"],
                imports=["co"], errable=True)


def gen_capture(d):
    """closures started as coroutines see the captured variables of their creator"""
    n = d.int(1, 8)
    src, exp = [], []
    mode = d.choice(["own", "shared"])
    yields = d.int(0, 3)
    body_y = "\n            ".join(["co.yield()"] * yields)
    if mode == "own":
        # each closure writes its own slot of a shared vector
        src.append("[int] out = [%s]\n    [string] txt = [%s]" % (", ".join(["0"] * n), ", ".join(["''"] * n)))
        src.append("var done = chan<int>.new(%d)" % d.choice([1, n]))
        src.append("""for int i = 0; i < %d; i += 1 {
        int me = i
        string s = 'v'
        f64 w = me as f64 * 0.25
        go fn():void! {
            int acc = 0
            for int k = 0; k <= me; k += 1 {
                acc += k * k
                s = s + 'x'
                w += 1.0
            %s
            }
            out[me] = acc * 100 + (w * 4.0) as int
            txt[me] = s
            done.send(me)
        }()
    }""" % (n, body_y))
        src.append("int tot = 0\n    for int i = 0; i < %d; i += 1 {\n        tot += done.recv()\n    }\n    println(tot)" % n)
        exp.append(str(n * (n - 1) // 2))
        src.append("for int i = 0; i < %d; i += 1 {\n        println(out[i], txt[i])\n    }" % n)
        for i in range(n):
            acc = sum(k * k for k in range(i + 1))
            exp.append("%d %s" % (acc * 100 + i + 4 * (i + 1), "v" + "x" * (i + 1)))
    else:
        iters = d.int(1, 40)
        src.append("int cnt = 0\n    int inside = 0\n    int bad = 0\n    [int] log = []\n    var mu = mutex.mutex_t.new()\n    var done = chan<bool>.new()")
        src.append("""for int i = 0; i < %d; i += 1 {
        int me = i
        go fn():void! {
            for int k = 0; k < %d; k += 1 {
                mu.lock()
                inside += 1
                if inside != 1 {
                    bad += 1
                }
                int old = cnt
            %s
                cnt = old + 1
                log.push(me)
                inside -= 1
                mu.unlock()
            }
            done.send(true)
        }()
    }""" % (n, iters, body_y))
        src.append("for int i = 0; i < %d; i += 1 {\n        done.recv()\n    }\n    int s = 0\n    for v in log {\n        s += v\n    }\n    println(cnt, bad, log.len(), s)" % n)
        exp.append("%d 0 %d %d" % (n * iters, n * iters, iters * n * (n - 1) // 2))
    return Case("fn @@run():void! {\n    %s\n}" % "\n    ".join(src), exp, nontrivial=n > 1 and yields > 0,
                feats=["capture-" + mode], imports=["co", "co.mutex"], errable=True)


def gen_mutex(d):
    """several locks, nested in a fixed order; the invariants they protect hold whenever a lock is held"""
    nl = d.int(1, 3)
    n = d.int(2, 9)
    iters = d.int(1, 60)
    pauses = [d.choice(["", "", "co.yield()", "if k % 7 == 3 {\n            co.yield()\n        }",
                        "if k % 11 == 5 {\n            co.sleep(1)\n        }"]) for _ in range(4)]
    starve = d.bool(2, 5)
    if starve:  # hold the lock so long that waiters get priority over newcomers
        nl, n, iters = d.int(1, 2), d.int(3, 12), d.int(1, 4)
        pauses = [d.choice(["co.sleep(%d)" % d.int(1, 3), "co.sleep(2)", "co.yield()", ""]) for _ in range(4)]
    trying = d.bool(2, 5)
    code = ["type @@st = struct{\n    int a\n    int b\n    int inside\n    int bad\n}"]
    if trying:  # the method is not exported
        code.append("#linkid rt_mutex_try_lock\nfn @@tl(ref<mutex.mutex_t> m):bool")
    params = ", ".join("ref<mutex.mutex_t> m%d, ref<@@st> s%d" % (k, k) for k in range(nl))
    body = []
    for k in range(nl):
        take = "m%d.lock()" % k
        if trying and d.bool(3, 5):
            take = "if (me + k) %% %d == 0 {\n            for !@@tl(m%d) {\n                %s\n            }\n        } else {\n            m%d.lock()\n        }" % (
                d.int(1, 3), k, d.choice(["co.yield()", "co.sleep(1)"]), k)
        body += [take, "s%d.inside += 1" % k,
                 "if s%d.inside != 1 || s%d.a + s%d.b != 1000 {\n            s%d.bad += 1\n        }" % (k, k, k, k),
                 "s%d.a -= me + k" % k, pauses[k % len(pauses)], "s%d.b += me + k" % k]
    for k in reversed(range(nl)):
        body += [pauses[(k + 1) % len(pauses)], "s%d.inside -= 1" % k, "m%d.unlock()" % k, pauses[3]]
    code.append("fn @@w(int me, %s):int {\n    for int k = 0; k < %d; k += 1 {\n        %s\n    }\n    return me\n}" % (
        params, iters, "\n        ".join(b for b in body if b)))
    src = []
    for k in range(nl):
        src.append("var m%d = mutex.mutex_t.new()\n    var s%d = new @@st(a = 1000)" % (k, k))
    args = ", ".join("m%d, s%d" % (k, k) for k in range(nl))
    for i in range(n):
        src.append("var f%d = %s" % (i, spawn(d, "@@w", "%d, %s" % (i, args))))
    src.append("int tot = 0")
    for i in range(n):
        src.append("tot += f%d.await()" % i)
    src.append("println(tot)")
    exp = [str(n * (n - 1) // 2)]
    moved = sum(i + k for i in range(n) for k in range(iters))
    for k in range(nl):
        src.append("println(s%d.a, s%d.b, s%d.inside, s%d.bad)" % (k, k, k, k))
        exp.append("%d %d 0 0" % (1000 - moved, moved))
    code.append("fn @@run():void! {\n    %s\n}" % "\n    ".join(src))
    return Case("\n".join(code), exp, nontrivial=iters >= 2 or starve, feats=["mutex%d" % nl] + ["starving"] * starve + ["trylock"] * trying, imports=["co", "co.mutex"], errable=True)


def main():
    chk = Check("P14", rule="a case is one program; non-trivial when several coroutines run and at least one suspension point "
                "lies inside them; distinct by program text")
    chk.assumptions = ["programs are built so that every schedule gives the same output"]
    run_cases(chk, None, 3600, 40000, batch=16, run_timeout=40, confirm=2,
              streams=[("frames", 4, gen_frames), ("tree", 3, gen_tree), ("capture", 2, gen_capture), ("mutex", 2, gen_mutex)])
    chk.finish()


run_main(main)
