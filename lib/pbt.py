"""Property-based testing core: recorded random choices, batching, isolation of
a failing case, shrinking, replay files and evidence."""
import argparse
import hashlib
import json
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import tempfile
import threading
import time
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import natbuild
from natbuild import BuildError, Toolchain, VERIF, JOBS

FINDINGS = os.path.join(VERIF, "known_findings.jsonl")


# ---------------------------------------------------------------- choices

class Draw:
    """Source of choices. Every value handed out is recorded; a recorded list
    can be replayed (missing entries read as 0, entries are clamped)."""

    def __init__(self, seed=None, replay=None):
        self.rng = random.Random(seed) if replay is None else None
        self.replay = replay
        self.pos = 0
        self.rec = []

    def below(self, n):
        """uniform in [0, n)"""
        if n <= 1:
            self.rec.append(0)
            self.pos += 1
            return 0
        if self.replay is not None:
            v = self.replay[self.pos] if self.pos < len(self.replay) else 0
            v = v % n if v >= n else v
        else:
            v = self.rng.randrange(n)
        self.pos += 1
        self.rec.append(v)
        return v

    def int(self, lo, hi):
        return lo + self.below(hi - lo + 1)

    def choice(self, seq):
        return seq[self.below(len(seq))]

    def weighted(self, pairs):
        """pairs: [(weight, value)]; the first entry is the simplest"""
        total = sum(w for w, _ in pairs)
        k = self.below(total)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        return pairs[-1][1]

    def bool(self, num=1, den=2):
        """True with probability num/den; shrinks to False"""
        return self.below(den) >= den - num

    def shuffle(self, seq):
        seq = list(seq)
        for i in range(len(seq) - 1, 0, -1):
            j = i - self.below(i + 1)
            seq[i], seq[j] = seq[j], seq[i]
        return seq


def subseed(*parts):
    return int.from_bytes(hashlib.sha256("/".join(map(str, parts)).encode()).digest()[:8], "little")


# ---------------------------------------------------------------- running

class Scratch:
    def __init__(self, tag):
        base = "/dev/shm" if os.path.isdir("/dev/shm") and os.access("/dev/shm", os.W_OK) and \
            os.environ.get("VERIF_SHM", "0") == "1" else None
        self.dir = tempfile.mkdtemp(prefix="verif-%s-" % tag, dir=base)
        self.n = 0
        self.lock = threading.Lock()

    def new(self):
        with self.lock:
            self.n += 1
            d = os.path.join(self.dir, "w%06d" % self.n)
        os.makedirs(d)
        return d

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


_live = set()


def _stop(signum, frame):
    for pid in list(_live):
        try:
            os.killpg(pid, signal.SIGKILL)
        except OSError:
            pass
    os._exit(128 + signum)


def run_proc(cmd, cwd, env=None, timeout=60, stdin=None):
    """-> (rc, stdout, stderr, timed_out); the whole process group is killed"""
    e = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin",
         "LANG": "C.UTF-8", "HOME": cwd, "TMPDIR": cwd}
    if env:
        e.update(env)
    p = subprocess.Popen(cmd, cwd=cwd, env=e, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.PIPE, start_new_session=True)
    _live.add(p.pid)
    to = False
    try:
        out, err = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, err = p.communicate()
    else:
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
    _live.discard(p.pid)
    return p.returncode, out, err, to


GNU_LD = "/usr/bin/ld"


class Nature:
    """Compiles and runs Nature programs with the toolchain built from /repo."""

    def __init__(self, tag):
        self.tc = Toolchain()
        self.scratch = Scratch(tag)
        self.compiles = 0

    def compile(self, files, entry="main.n", args=(), builtin_ld=False, timeout=120, d=None, out="main"):
        """-> (dir, rc, message, timed_out)"""
        d = d or self.scratch.new()
        for n, text in files.items():
            p = os.path.join(d, n)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as f:
                f.write(text.encode() if isinstance(text, str) else text)
        cmd = [self.tc.nature, "build"]
        if not builtin_ld:
            cmd += ["--ld", GNU_LD]
        cmd += list(args) + ["-o", out, entry]
        self.compiles += 1
        rc, so, se, to = run_proc(cmd, d, {"NATURE_ROOT": self.tc.root}, timeout)
        msg = (so + se).decode(errors="replace")
        msg = "\n".join(l for l in msg.splitlines() if "/usr/bin/ld" not in l)
        return d, rc, msg, to

    def run(self, d, args=(), timeout=60, env=None, stdin=None, exe="main"):
        return run_proc([os.path.join(d, exe)] + list(args), d, env, timeout, stdin)

    def drop(self, d):
        shutil.rmtree(d, ignore_errors=True)


# ---------------------------------------------------------------- cases

class Case:
    """One generated test: top-level declarations in which every global name
    starts with '@@', an entry function '@@run', and the expected output lines.

    expect: list of lines the case prints (after '@@' substitution nothing in
    it may depend on the case id).
    exit: None when the case returns normally; otherwise a predicate name used
    in argv mode, see check_exit."""

    def __init__(self, code, expect, nontrivial=True, key=None, sample=None, imports=(), errable=False,
                 want_exit=0, stderr=None, feats=(), tail=None):
        self.code = code
        self.expect = expect
        self.nontrivial = nontrivial
        self.key = key if key is not None else code
        self.sample = sample if sample is not None else code
        self.imports = list(imports)
        self.errable = errable
        self.want_exit = want_exit
        self.feats = list(feats)
        self.tail = tail
        self.rec = None
        self.seed = None


def assemble(cases, argv_mode=False):
    imps = []
    for c in cases:
        for i in c.imports:
            if i not in imps:
                imps.append(i)
    errable = any(c.errable for c in cases)
    if argv_mode and "os" not in imps:
        imps.append("os")
    out = ["import %s" % i for i in imps]
    for k, c in enumerate(cases):
        out.append(c.code.replace("@@", "c%d_" % k))
    if argv_mode:
        out.append("fn main():void%s {" % ("!" if errable else ""))
        out.append("    var verif_argv = os.args()")
        out.append("    string verif_sel = verif_argv[1]")
        for k in range(len(cases)):
            out.append("    if verif_sel == '%d' {" % k)
            out.append("        c%d_run()" % k)
            out.append("    }")
        out.append("}")
    else:
        # a long main function makes the register allocator slow; use groups
        groups = []
        for g in range(0, len(cases), 12):
            ge = any(c.errable for c in cases[g:g + 12])
            out.append("fn verif_group%d():void%s {" % (g, "!" if ge else ""))
            for k in range(g, min(g + 12, len(cases))):
                out.append("    println('#CASE %d')" % k)
                out.append("    c%d_run()" % k)
            out.append("}")
            groups.append(g)
        out.append("fn main():void%s {" % ("!" if errable else ""))
        for g in groups:
            out.append("    verif_group%d()" % g)
        out.append("    println('#END')")
        out.append("}")
    return "\n".join(out) + "\n"


class Outcome:
    def __init__(self, ok, why="", actual=None):
        self.ok, self.why, self.actual = ok, why, actual


def split_output(text):
    per, cur = {}, None
    ended = False
    for line in text.split("\n"):
        if line.startswith("#CASE "):
            cur = int(line[6:])
            per[cur] = []
        elif line == "#END":
            ended = True
            cur = None
        elif cur is not None:
            per[cur].append(line)
    if not ended and cur is not None and per[cur] and per[cur][-1] == "":
        per[cur].pop()
    return per, ended


def describe_rc(rc, to):
    if to:
        return "timed out"
    if rc < 0:
        return "killed by signal %d" % -rc
    return "exit code %d" % rc


class Unmodelled(Exception):
    """the program needs something the harness does not model: its cases decide nothing"""


class BatchRunner:
    """Runs cases in batches through the compiler and compares outputs."""

    def __init__(self, nat, argv_mode=False, builtin_every=0, run_timeout=60, env=None, compile_timeout=240,
                 variants=None):
        self.nat = nat
        self.argv_mode = argv_mode
        self.builtin_every = builtin_every
        self.run_timeout = run_timeout
        self.compile_timeout = compile_timeout
        self.env = env
        self.count = 0
        self.unmodelled = []

    def run_batch(self, cases, builtin_ld=False):
        """-> list of Outcome (one per case)"""
        src = assemble(cases, self.argv_mode)
        d, rc, msg, to = self.nat.compile({"main.n": src}, builtin_ld=builtin_ld, timeout=self.compile_timeout)
        try:
            if rc != 0 or not os.path.exists(os.path.join(d, "main")):
                why = "compiler %s on a valid program: %s" % (describe_rc(rc, to), msg[-800:])
                return [Outcome(False, why, None) for _ in cases]
            if self.argv_mode:
                res = []
                for k, c in enumerate(cases):
                    rc, so, se, to = self.nat.run(d, [str(k)], self.run_timeout, self.env)
                    res.append(self.judge_argv(c, rc, so, se, to))
                return res
            rc, so, se, to = self.nat.run(d, [], self.run_timeout, self.env)
            per, ended = split_output(so.decode(errors="surrogateescape"))
            res = []
            for k, c in enumerate(cases):
                if k not in per:
                    res.append(Outcome(False, "not reached: program %s" % describe_rc(rc, to), None))
                elif not ended and k == max(per):
                    res.append(Outcome(False, "program %s; stdout tail %r; stderr tail %r" %
                                       (describe_rc(rc, to), per[k][-3:], se[-300:].decode(errors="replace")), per[k]))
                elif per[k] != c.expect:
                    res.append(Outcome(False, first_diff(c.expect, per[k]), per[k]))
                else:
                    res.append(Outcome(True))
            return res
        except Unmodelled as e:
            self.unmodelled += ["not modelled: %s" % e] * len(cases)
            return [Outcome(True) for _ in cases]
        finally:
            self.nat.drop(d)

    @staticmethod
    def strip_noise(why):
        """what a compiler failure has in common over similar inputs"""
        return re.sub(r"[0-9]+", "N", re.sub(r"w[0-9]+/\S*|nature-[0-9a-f]+|'[^']*'|\"[^\"]*\"", "", why))[:200]

    def judge_argv(self, c, rc, so, se, to):
        text = so.decode(errors="surrogateescape")
        lines = text.split("\n")
        if lines and lines[-1] == "":
            lines.pop()
        if to:
            return Outcome(False, "timed out", lines)
        if rc < 0:
            return Outcome(False, "killed by signal %d; stderr %r" % (-rc, se[-300:]), lines)
        if c.want_exit is not None and rc != c.want_exit:
            return Outcome(False, "exit code %d, expected %d; output tail %r" % (rc, c.want_exit, lines[-3:]), lines)
        head = lines[:len(c.expect)]
        if head != c.expect:
            return Outcome(False, first_diff(c.expect, lines), lines)
        rest = lines[len(c.expect):]
        if c.tail is None:
            if rest:
                return Outcome(False, "extra output %r" % rest[:3], lines)
        else:
            why = c.tail(rest)
            if why:
                return Outcome(False, why + "; got %r" % rest[:4], lines)
        return Outcome(True)


def first_diff(exp, act):
    for i in range(max(len(exp), len(act))):
        e = exp[i] if i < len(exp) else "<nothing>"
        a = act[i] if i < len(act) else "<nothing>"
        if e != a:
            return "line %d: expected %r, got %r" % (i + 1, e, a)
    return "outputs equal"


# ---------------------------------------------------------------- shrinking

def shrink(choices, fails_many, budget_s, width=64):
    """Greedy reduction of a recorded choice list. fails_many(lists) -> bools;
    the first failing candidate of a round is adopted."""
    end = time.time() + budget_s
    best = list(choices)
    seen = {tuple(best)}

    def size(c):
        return (len(c), sum(c))

    def try_many(cands):
        nonlocal best
        todo = []
        for c in cands:
            if tuple(c) in seen:
                continue
            seen.add(tuple(c))
            todo.append(c)
            if len(todo) == width:
                if run(todo):
                    return True
                todo = []
            if time.time() > end:
                return False
        return bool(todo) and time.time() < end and run(todo)

    def run(todo):
        nonlocal best
        res = fails_many(todo)
        bad = [c for c, b in zip(todo, res) if b]
        if bad:
            best = list(min(bad, key=size))
            return True
        return False

    def deletions():
        n = len(best)
        sz = max(1, n // 2)
        while sz >= 1:
            step = max(1, sz // 2)
            for i in range(n - sz, -1, -step):
                yield best[:i] + best[i + sz:]
            if sz >= 4:
                for i in range(0, n - sz, sz):
                    yield best[:i] + [0] * sz + best[i + sz:]
            sz //= 2

    def lower():
        for i, v in enumerate(best):
            if v:
                for nv in sorted({0, v // 2, v - 1}):
                    if nv < v:
                        yield best[:i] + [nv] + best[i + 1:]
        # lower one, delete a following one (a smaller count with fewer items)
        for i, v in enumerate(best):
            if v:
                for k in range(i + 1, min(len(best), i + 8)):
                    yield best[:i] + [v - 1] + best[i + 1:k] + best[k + 1:]

    while time.time() < end:
        if try_many(deletions()):
            continue
        if try_many(lower()):
            continue
        break
    return best


# ---------------------------------------------------------------- findings

def known_findings(pid):
    res = []
    if os.path.exists(FINDINGS):
        for line in open(FINDINGS):
            line = line.strip()
            if line:
                f = json.loads(line)
                if f.get("property") == pid and f.get("status") == "known":
                    res.append(f)
    return res


def probe_findings(chk, nat):
    """Print the recorded known findings that still reproduce."""
    for f in known_findings(chk.pid):
        if f.get("target") and f["target"] != nat.target:
            continue
        if "source" not in f:
            chk.known(f["what"])
            continue
        d, rc, msg, to = nat.compile({"main.n": f["source"]}, builtin_ld=f.get("builtin_ld", False))
        ok = False
        if rc == 0:
            r = nat.run(d, timeout=30)
            ok = r[0] == f.get("rc", 0) and r[1].decode(errors="replace").split("\n")[:-1] == f["expect"]
        elif f.get("rejected"):
            ok = rc == 1
        nat.drop(d)
        if not ok:
            chk.known(f["what"])


# ---------------------------------------------------------------- check driver

class Check:
    """Common frame of one property check: arguments, counters, evidence."""

    def __init__(self, pid, level="exploration", rule=""):
        ap = argparse.ArgumentParser()
        ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"), choices=["quick", "thorough"])
        ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1") or 1))
        ap.add_argument("--replay")
        ap.add_argument("--budget", type=float, default=None, help="seconds of generation (thorough only)")
        ap.add_argument("--n", type=int, default=None, help="number of cases")
        ap.add_argument("--dump", action="store_true", help="print a generated case and stop")
        self.args = ap.parse_args()
        self.pid = pid
        self.tier = self.args.tier
        self.seed = self.args.seed
        self.level = level
        self.rule = rule
        self.t0 = time.time()
        self.evaluations = 0
        self.nontrivial = set()
        self.feats = {}
        self.samples = []
        self.violations = []
        self.inconclusive = []
        self.assumptions = []
        self.extra = {}
        self.excluded = 0
        self.lock = threading.Lock()

    @property
    def quick(self):
        return self.tier == "quick"

    def count(self, key, nontrivial=True, sample=None, feats=()):
        with self.lock:
            self.evaluations += 1
            if nontrivial:
                k = hashlib.sha256(repr(key).encode(errors="replace")).digest()[:12]
                fresh = k not in self.nontrivial
                self.nontrivial.add(k)
                n = len(self.nontrivial)
                # samples spread over the run: the 1st, 2nd, 4th, 8th, ...
                if fresh and sample is not None and n & (n - 1) == 0 and len(self.samples) < 24:
                    self.samples.append(sample if len(str(sample)) < 1600 else str(sample)[:1600] + "...")
            for f in feats:
                self.feats[f] = self.feats.get(f, 0) + 1

    def replay_path(self, name):
        d = os.path.join(VERIF, "replays")
        os.makedirs(d, exist_ok=True)
        return os.path.join(d, name)

    def violation(self, replay_obj, why):
        blob = json.dumps(replay_obj, indent=1, sort_keys=True, default=str)
        h = hashlib.sha256(blob.encode()).hexdigest()[:10]
        p = self.replay_path("%s-%s.json" % (self.pid, h))
        with open(p, "w") as f:
            f.write(blob)
        self.violations.append({"replay": p, "why": str(why)[:1000]})
        print("VIOLATION property=%s replay=%s" % (self.pid, p))
        print("  " + str(why)[:1500].replace("\n", "\n  "))
        sys.stdout.flush()

    def known(self, what):
        print("KNOWN-FINDING: property=%s %s" % (self.pid, what))

    def finish(self):
        ev = {
            "property": self.pid, "tier": self.tier, "seed": self.seed, "level": self.level,
            "coverage": {
                "evaluations": self.evaluations,
                "distinct_nontrivial": len(self.nontrivial),
                "rule": self.rule,
                "samples": self.samples[-12:],
                "features": dict(sorted(self.feats.items())),
                "inconclusive": len(self.inconclusive),
                "inconclusive_samples": self.inconclusive[:5],
                "excluded_known_findings": self.excluded,
            },
            "wall_s": round(time.time() - self.t0, 2),
            "assumptions": self.assumptions,
            "violations": self.violations,
        }
        ev["coverage"].update(self.extra)
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        p = os.path.join(VERIF, "evidence", self.pid + ".json")
        tmp = p + ".%d" % os.getpid()
        with open(tmp, "w") as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(tmp, p)
        print("%s %s seed=%d: %d evaluations, %d distinct non-trivial, %d inconclusive, %d violations, %.1fs" % (
            self.pid, self.tier, self.seed, self.evaluations, len(self.nontrivial), len(self.inconclusive),
            len(self.violations), time.time() - self.t0))
        sys.stdout.flush()
        sys.exit(1 if self.violations else 0)


def run_main(main):
    """Run a check's main(); internal trouble is exit 3, never a verdict."""
    signal.signal(signal.SIGTERM, _stop)
    signal.signal(signal.SIGINT, _stop)
    try:
        main()
    except BuildError as e:
        print("BUILD-ERROR: %s" % e)
        sys.exit(2)


def run_cases(chk, gen, n_quick, n_thorough, batch=80, argv_mode=False, builtin_every=0, run_timeout=60,
              env=None, compile_timeout=240, nat=None, shrink_s=40, streams=None, max_violations=1, confirm=3):
    """Drive a Case generator: gen(draw) -> Case.

    streams: optional list of (name, weight, gen) used instead of gen."""
    own = nat is None
    nat = nat or Nature(chk.pid)
    streams = streams or [("main", 1, gen)]
    gens = {nm: g for nm, _, g in streams}
    br = BatchRunner(nat, argv_mode, builtin_every, run_timeout, env, compile_timeout)

    def make(stream, seed=None, rec=None):
        dr = Draw(seed=seed, replay=rec)
        c = gens[stream](dr)
        c.rec = dr.rec
        c.stream = stream
        return c

    def single(c, tries=1, builtin=False, enough=99):
        """number of failures out of tries, last outcome"""
        bad, last = 0, None
        for _ in range(tries):
            if bad >= enough:
                break
            o = br.run_batch([c], builtin)[0]
            if not o.ok:
                bad += 1
                last = o
        return bad, last

    def report(c, builtin, o, nfail, ntry):
        obj = {"property": chk.pid, "stream": c.stream, "choices": c.rec, "builtin_ld": builtin,
               "source": assemble([c], argv_mode), "expected": c.expect, "actual": o.actual, "why": o.why,
               "failed": "%d of %d runs" % (nfail, ntry),
               "how": "build 'source' with the nature compiler and run it"
                      + (" with argument 0" if argv_mode else "")}
        chk.violation(obj, o.why)

    try:
        if chk.args.replay:
            obj = json.load(open(chk.args.replay))
            if "batch" in obj:
                cs = [make(s, rec=r) for s, r in obj["batch"]]
                outs = br.run_batch(cs, obj.get("builtin_ld", False))
                bad = [o for o in outs if not o.ok]
                for c in cs:
                    chk.count(c.key, c.nontrivial, c.sample, c.feats)
                if bad:
                    chk.violation(obj, bad[0].why)
                return
            c = make(obj["stream"], rec=obj["choices"])
            chk.count(c.key, c.nontrivial, c.sample, c.feats)
            nbad, o = single(c, 3, obj.get("builtin_ld", False))
            if nbad:
                report(c, obj.get("builtin_ld", False), o, nbad, 3)
            return
        if chk.args.dump:
            names = [nm for nm, w, _ in streams for _ in range(w)]
            for i in range(chk.args.n or 3):
                c = make(names[i % len(names)], seed=subseed(chk.pid, chk.seed, names[i % len(names)], i))
                print(c.code)
                print("--", c.feats, c.nontrivial)
                for l in c.expect:
                    print("=>", l)
            return

        probe_findings(chk, nat)
        total = chk.args.n or (n_quick if chk.quick else n_thorough)
        deadline = time.time() + chk.args.budget if chk.args.budget else None
        names = [nm for nm, w, _ in streams for _ in range(w)]
        stop = threading.Event()
        failures = []
        began = time.time()

        def do_batch(b):
            if stop.is_set() or (deadline and time.time() > deadline):
                return
            cs = []
            for i in range(b * batch, min((b + 1) * batch, total)):
                st = names[i % len(names)]
                try:
                    c = make(st, seed=subseed(chk.pid, chk.seed, st, i))
                except Exception as e:  # generator trouble is ours
                    raise RuntimeError("generator %s failed at case %d: %r" % (st, i, e)) from e
                c.idx = i
                cs.append(c)
            if not cs:
                return
            builtin = bool(builtin_every) and b % builtin_every == 0
            outs = br.run_batch(cs, builtin)
            for c, o in zip(cs, outs):
                chk.count(c.key, c.nontrivial, c.sample, c.feats)
            if any(not o.ok for o in outs):
                with chk.lock:
                    failures.append((b, cs, outs, builtin))
                    if len(failures) >= 4:
                        stop.set()

        nb = (total + batch - 1) // batch
        with ThreadPoolExecutor(JOBS) as ex:
            for f in [ex.submit(do_batch, b) for b in range(nb)]:
                f.result()

        for b, cs, outs, builtin in sorted(failures, key=lambda t: t[0]):
            if len(chk.violations) >= max_violations:
                break
            if time.time() - began > 450:
                chk.inconclusive.append("batch %d failed, no time left to confirm: %s" % (
                    b, [o.why for o in outs if not o.ok][0][:300]))
                continue
            # one failing case can make the rest "not reached" or the whole
            # program uncompilable: look at each suspicious case by itself
            suspects = [c for c, o in zip(cs, outs) if not o.ok and not o.why.startswith("not reached")]
            with ThreadPoolExecutor(JOBS) as ex:
                res = list(ex.map(lambda c: single(c, 1, builtin), suspects))
            bad = [(c, r[1]) for c, r in zip(suspects, res) if r[0]]
            if bad:
                c, o = min(bad, key=lambda t: len(t[0].code))
                nfail, o2 = single(c, confirm, builtin)
                if nfail == 0:
                    nfail, o2 = single(c, 10, builtin, 1)
                    if nfail == 0:
                        chk.inconclusive.append("case %d failed twice, then not in %d runs: %s" % (
                            c.idx, confirm + 10, o.why[:300]))
                        continue
                st = c.stream

                compile_kind = o2.why.startswith("compiler ")
                clean = br.strip_noise(o2.why)

                def fails_many(recs):
                    cands = []
                    for r in recs:
                        try:
                            cc = make(st, rec=r)
                            if len(cc.rec) > len(c.rec) + 4:
                                cc = None
                        except Exception:
                            cc = None
                        cands.append(cc)
                    idx = [k for k, cc in enumerate(cands) if cc is not None]
                    groups = [[k] for k in idx] if compile_kind or argv_mode else [idx[g::JOBS] for g in range(JOBS)]

                    def one(g):
                        return list(zip(g, br.run_batch([cands[k] for k in g], builtin))) if g else []
                    bad = set()
                    with ThreadPoolExecutor(JOBS) as ex:
                        for part in ex.map(one, groups):
                            for k, oo in part:
                                if oo.ok or oo.why.startswith("not reached"):
                                    continue
                                if oo.why.startswith("compiler ") != compile_kind:
                                    continue
                                if compile_kind and br.strip_noise(oo.why) != clean:
                                    continue
                                bad.add(k)
                    return [k in bad for k in range(len(recs))]
                # every candidate that hangs costs a full timeout: report those as they are
                hang = "timed out" in o2.why
                small = c.rec if hang else shrink(c.rec, fails_many, shrink_s if chk.quick else shrink_s * 3)
                if hang:
                    report(c, builtin, o2, nfail, confirm)
                    continue
                sc = make(st, rec=small)
                nf, so = single(sc, 3, builtin)
                if nf:
                    report(sc, builtin, so, nf, 3)
                else:
                    report(c, builtin, o2, nfail, confirm)
                continue
            # fails only in company: re-run the batch, then drop cases
            again = 0
            for _ in range(6):
                o2 = br.run_batch(cs, builtin)
                if any(not o.ok for o in o2):
                    again += 1
                    outs = o2
                    if again >= 2:
                        break
            if not again:
                chk.inconclusive.append("batch %d failed once, then not in 6 runs: %s" % (
                    b, [o.why for o in outs if not o.ok][0][:300]))
                continue
            cur = list(cs)
            end = time.time() + shrink_s
            size = len(cur) // 2
            while size >= 1 and time.time() < end:
                i, shrunk = 0, False
                while i < len(cur) and time.time() < end:
                    cand = cur[:i] + cur[i + size:]
                    if cand and any(not o.ok for o in br.run_batch(cand, builtin)):
                        cur = cand
                        shrunk = True
                    else:
                        i += size
                size = size // 2 if not shrunk or size > len(cur) // 2 else size
            for _ in range(6):
                fin = br.run_batch(cur, builtin)
                why = [o.why for o in fin if not o.ok]
                if why:
                    break
            if not why:
                cur, why = cs, [o.why for o in outs if not o.ok]
            chk.violation({"property": chk.pid, "batch": [[c.stream, c.rec] for c in cur], "builtin_ld": builtin,
                           "source": assemble(cur, argv_mode), "expected": [c.expect for c in cur], "why": why[0],
                           "how": "build 'source' with the nature compiler and run it"}, why[0])
    finally:
        chk.inconclusive += br.unmodelled
        chk.extra["compiled_programs"] = chk.extra.get("compiled_programs", 0) + nat.compiles
        if own:
            nat.scratch.close()
