"""Driver for checks whose cases are evaluated by the checker itself rather than
by a generated nature program: generation, parallel evaluation, confirmation,
shrinking and replay files."""
import json
import multiprocessing as mp
import os
import sys
import traceback
from multiprocessing.connection import wait

from natbuild import JOBS
from pbt import Draw, Scratch, shrink, subseed


class Inconclusive(Exception):
    pass


_ctx = {}


def _eval(stream, rec=None, seed=None, idx=0):
    gen, evalf = _ctx["streams"][stream]
    dr = Draw(seed=seed, replay=rec)
    case = gen(dr)
    d = os.path.join(_ctx["dir"], "p%d" % os.getpid())
    os.makedirs(d, exist_ok=True)
    why = None
    inc = None
    try:
        why = evalf(case, d)
    except Inconclusive as e:
        inc = str(e)
    for f in os.listdir(d):
        p = os.path.join(d, f)
        if os.path.isdir(p) and not os.path.islink(p):
            import shutil
            shutil.rmtree(p, ignore_errors=True)
        else:
            os.unlink(p)
    return case, why, inc, dr.rec


def _chunk(job):
    out = []
    for stream, seed, idx in job:
        if _ctx["stop"].value:
            break
        try:
            case, why, inc, rec = _eval(stream, seed=seed, idx=idx)
        except Exception:
            return [("trouble", "stream %s case %d\n%s" % (stream, idx, traceback.format_exc()))]
        out.append((idx, stream, case.key, case.nontrivial, case.sample, list(case.feats), why, inc,
                    rec if why else None))
    return out


def _one(job):
    stream, rec = job
    try:
        case, why, inc, rec2 = _eval(stream, rec=rec)
    except Exception:
        return None, None
    return why, rec2


def _work(fn, items, lo, step, conn):
    try:
        for i in range(lo, len(items), step):
            conn.send((i, fn(items[i])))
        conn.close()
    finally:
        os._exit(0)


def pmap(fn, items, each=None):
    """fn over items in forked processes; a process that dies loses its items (their result is None)"""
    ctx = mp.get_context("fork")
    n = max(1, min(JOBS, len(items)))
    procs, conns = [], []
    for k in range(n):
        r, w = ctx.Pipe(False)
        p = ctx.Process(target=_work, args=(fn, items, k, n, w), daemon=True)
        p.start()
        w.close()
        procs.append(p)
        conns.append(r)
    out = [None] * len(items)
    try:
        while conns:
            ready = wait(conns, 240)
            if not ready:
                break
            for c in ready:
                try:
                    i, v = c.recv()
                except (EOFError, OSError):
                    conns.remove(c)
                    c.close()
                    continue
                out[i] = v
                if each:
                    each(v)
        for p in procs:
            p.join(1)
    finally:
        for p in procs:
            if p.is_alive():
                p.kill()
    return out


class DCase:
    """key: identity of the case; sample: readable form; info: what a replay file shows"""

    def __init__(self, key, nontrivial=True, sample=None, feats=(), info=None, **kw):
        self.key = key
        self.nontrivial = nontrivial
        self.sample = sample
        self.feats = feats
        self.info = info
        self.__dict__.update(kw)


def kind_of(why):
    return why.split(":")[0][:60]


def run_direct(chk, streams, n_quick, n_thorough, chunk=8, shrink_s=40, max_violations=1):
    """streams: [(name, weight, gen, evalf)]; gen(draw) -> DCase, evalf(case, dir) -> None or why"""
    scratch = Scratch(chk.pid)
    _ctx["streams"] = {s[0]: (s[2], s[3]) for s in streams}
    _ctx["dir"] = scratch.dir
    names = [s[0] for s in streams for _ in range(s[1])]
    total = chk.args.n or (n_quick if chk.quick else n_thorough)
    _ctx["stop"] = mp.RawValue("i", 0)

    def report(stream, rec):
        case = _ctx["streams"][stream][0](Draw(replay=rec))
        why = [r[0] for r in pmap(_one, [(stream, rec)] * 3) if r]
        bad = [w for w in why if w]
        if not bad:
            return False
        chk.violation({"property": chk.pid, "stream": stream, "choices": rec, "why": bad[0],
                       "failed": "%d of 3 runs" % len(bad), "case": case.info or case.sample}, bad[0])
        return True

    try:
        if chk.args.replay:
            obj = json.load(open(chk.args.replay))
            chk.count(obj["choices"])
            report(obj["stream"], obj["choices"])
            return
        if chk.args.dump:
            for i in range(chk.args.n or 3):
                st = names[i % len(names)]
                c = _ctx["streams"][st][0](Draw(seed=subseed(chk.pid, chk.seed, st, i)))
                print("--", st, c.feats, c.nontrivial)
                print(c.info or c.sample)
            return
        jobs = [(names[i % len(names)], subseed(chk.pid, chk.seed, names[i % len(names)], i), i) for i in range(total)]
        jobs = [jobs[i:i + chunk] for i in range(0, total, chunk)]
        failures = []

        def each(res):
            if res and res[0][0] == "trouble":
                raise RuntimeError(res[0][1])
            for idx, stream, key, nt, sample, feats, why, inc, rec in res:
                chk.count(key, nt, sample, [stream] + list(feats))
                if inc:
                    chk.inconclusive.append(inc)
                if why:
                    failures.append((idx, stream, why, rec))
            if len(failures) >= 8:
                _ctx["stop"].value = 1
        lost = [j for j, r in zip(jobs, pmap(_chunk, jobs, each)) if r is None]
        if lost:
            if len(lost) > len(jobs) // 2:
                raise RuntimeError("the processes evaluating the cases ended early")
            chk.inconclusive += ["case %d: the evaluating process ended" % j[0][2] for j in lost]
        failures.sort(key=lambda f: len(f[3]))
        for idx, stream, why, rec in failures:
            if len(chk.violations) >= max_violations:
                break
            again = [r[0] for r in pmap(_one, [(stream, rec)] * 3) if r]
            if not any(again):
                chk.inconclusive.append("case %d failed once, then not in 3 runs: %s" % (idx, why[:300]))
                continue
            kind = kind_of([w for w in again if w][0])

            def fails_many(recs):
                res = [r or (None, None) for r in pmap(_one, [(stream, r) for r in recs])]
                return [bool(w) and kind_of(w) == kind and len(r2) <= len(rec) + 4 for w, r2 in res]
            small = shrink(rec, fails_many, shrink_s if chk.quick else shrink_s * 3)
            if not report(stream, small):
                report(stream, rec)
    finally:
        scratch.close()
