"""Code for arm64 and riscv64: generated programs are compiled for both and run in an interpreter of the instruction
sets; what they print must be what the evaluator says."""
import json
import operator
import os
import struct
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import Case, Check, Nature, Unmodelled, run_cases, run_main, run_proc
from natbuild import VERIF, BuildError
from lang import Prof, hi, lo, tdiv, trem, wrap, WIDTH
from progs import prog

ARCHES = (("arm64", "linux_arm64", "aarch64"), ("riscv64", "linux_riscv64", "riscv64"))
ATTR = {"aarch64": "+all", "riscv64": "+m,+a,+f,+d,+c,+zicsr"}
TYPES = ["i8", "u8", "i16", "u16", "i32", "u32", "i64", "u64", "bool", "f32", "f64"]
# order of the host functions in harness/emu.c
HOST = [["xp_" + t] for t in TYPES] + [["xp_nl"], ["xp_case"], ["memory_move", "memmove", "memcpy"], ["memory_set", "memset"],
                                          ["xp_alloc"], ["xp_unmodelled"]]
PRELUDE = "".join("#linkid xp_%s\nfn xp_%s(%s v)\n" % (t, t, t) for t in TYPES) + \
    "#linkid xp_nl\nfn xp_nl()\n#linkid xp_case\nfn xp_case(i64 v)\n"


class Cross(Nature):
    """compiles for one target, links with stand-ins of the runtime functions and runs the result in the interpreter"""

    def __init__(self, tag, target, arch):
        super().__init__(tag)
        self.target, self.arch = target, arch
        self.top = self.scratch.new()
        self.emu = os.path.join(self.top, "emu")
        self.tool(["gcc", "-O2", "-frounding-math", "-ffp-contract=off", "-o", self.emu,
                   os.path.join(VERIF, "harness", "emu.c"), "-lm"])
        s = [".data", ".balign 16", ".globl global_safepoint", "global_safepoint: .zero 64", ".text"]
        for k, names in enumerate(HOST):
            for n in names:
                s += [".globl " + n, n + ":"]
            s += ["hlt #%d" % k if arch == "aarch64" else ".word %d" % (0xb | k << 7), "ret"]
        self.stubs = os.path.join(self.top, arch + ".o")
        open(self.stubs + ".s", "w").write("\n".join(s) + "\n")
        self.tool(["llvm-mc-18", "-triple=" + arch, "-mattr=" + ATTR[arch], "-filetype=obj", "-o", self.stubs, self.stubs + ".s"])

    @staticmethod
    def tool(cmd):
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("%s: %s" % (cmd[0], r.stdout.decode(errors="replace")[-500:]))

    def compile(self, files, entry="main.n", args=(), builtin_ld=False, timeout=120, d=None, out="main"):
        d = d or self.scratch.new()
        src = files["main.n"].replace("println('#END')", "xp_case(-1)")
        for k in range(src.count("println('#CASE ")):
            src = src.replace("println('#CASE %d')" % k, "xp_case(%d)" % k)
        open(os.path.join(d, "main.n"), "w").write(PRELUDE + src)
        keep = os.path.join(VERIF, "harness", "keepobj.sh")
        self.compiles += 1
        rc, so, se, to = run_proc([self.tc.nature, "build", "--target", self.target, "--ld", keep, "-o", "main.o", "main.n"],
                                  d, {"NATURE_ROOT": self.tc.root}, timeout)
        if rc or to or not os.path.exists(os.path.join(d, "main.o")):
            return d, rc or 1, (so + se).decode(errors="replace"), to
        rc, so, se, to = run_proc(["llvm-nm-18", "-u", "-j", "main.o"], d, {}, timeout)
        other = set(so.decode().split()) - {n for h in HOST for n in h} - {"global_safepoint"}
        rc, so, se, to = run_proc(["ld.lld-18", "-e", "0", "-o", "main", "main.o", self.stubs] +
                                  ["--defsym=%s=xp_unmodelled" % n for n in sorted(other)], d, {}, timeout)
        return d, rc, (so + se).decode(errors="replace"), to

    def run(self, d, args=(), timeout=60, env=None, stdin=None, exe="main"):
        rc, so, se, to = run_proc([self.emu, os.path.join(d, exe), "main.main"], d, env, timeout, stdin)
        text = so.decode(errors="replace")
        if "#STOP" in text:
            why = text[text.index("#STOP") + 6:]
            if why.startswith("call of an unmodelled") or why.startswith("unknown instruction") and self.valid(why[20:28]):
                raise Unmodelled(why)
        return rc, so.replace(b"#STOP", b"STOP"), se, to

    def valid(self, word):
        """is this an instruction of the architecture that the interpreter does not know?"""
        r = subprocess.run(["llvm-mc-18", "-disassemble", "-triple=" + self.arch, "-mattr=" + ATTR[self.arch]],
                           input=" ".join("0x" + word[i:i + 2] for i in (6, 4, 2, 0)).encode(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        return b"invalid" not in r.stdout


# arm64 contracts a product that feeds a sum, so floating point programs use either products or sums there.
# riscv64 computes narrower integers without wrapping around and arm64 those below 32 bits (known findings).
SUMS, PRODUCTS = ["+", "-", "/"], ["*", "/"]


OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": tdiv, "%": trem, "&": operator.and_, "|": operator.or_,
       "^": operator.xor, "<<": operator.lshift, ">>": operator.rshift, "==": operator.eq, "!=": operator.ne,
       "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge}


def streams(arch):
    arm = arch == "arm64"
    wide = ["i32", "u32", "i64", "u64"] if arm else ["i64", "u64"]

    # arm64: only leaf functions (known finding: a value reloaded after a call can be stored back changed)
    leaf = dict(calls=False, prints=False, max_vars=10) if arm else {}

    def fops(d):
        return d.choice([SUMS, PRODUCTS]) if arm else ["+", "-", "*", "/"]

    def near(d, t, around):
        """a value at an edge of the range of some instruction's immediate, or next to another operand"""
        k = d.choice([0, 3, 8, 10, 11, 11, 12, 12, 13, 15, 16, 20, 24, 31, 32, 47, 48, 63])
        v = (1 << k) * d.choice([1, 1, -1, -1, 3, 0xfff, -0xfff]) if not around or d.bool(1, 3) else d.choice(around)
        return wrap(t, v + d.choice([0, 0, -1, 1, -2, 2]))

    def forms(d):
        """one operator with a constant on one side or in memory, as a value, as a condition and in an assignment"""
        src, run, exp = [], [], []
        for i in range(d.int(3, 9)):
            t, op = d.choice(wide), d.choice(sorted(OPS))
            b = near(d, t, [])
            a = near(d, t, [b, b, -b, lo(t), hi(t), 1 << 63])
            side = d.below(3)
            if op in ("<<", ">>"):
                b %= WIDTH[t]
            if op in ("/", "%") and (b == 0 or b == -1 and a == lo(t)):
                b = 3
            v = OPS[op](a, b)
            rt = "bool" if isinstance(v, bool) else t
            la, lb = "(%d as %s)" % (a, t), "(%d as %s)" % (b, t)
            x, y = [("p", lb), (la, "p"), ("p", "q")][side]
            how = d.below(4)
            e = "%s %s %s" % (x, op, y)
            if how == 1 and rt == "bool":
                body = "    if %s {\n        return true\n    }\n    return false" % e
            elif how == 2 and rt == "bool":
                body = "    i64 n = 0\n    for n < 1 && %s {\n        n += 1\n    }\n    return n == 1" % e
            elif how == 1 and x == "p":
                body = "    p %s= %s\n    return p" % (op, y)
            elif how == 2:
                body = "    %s r = %s\n    return r" % (rt, e)
            else:
                body = "    return %s" % e
            src.append("fn @@f%d(%s p, %s q):%s {\n%s\n}" % (i, t, t, rt, body))
            args = (lb, la) if side == 1 else (la, lb)
            run += ["%s r%d = @@f%d(%s, %s)" % (rt, i, i, args[0], args[1]), "xp_%s(r%d)" % (rt, i), "xp_nl()"]
            exp.append(str(v).lower() if rt == "bool" else str(wrap(t, v)))
        return Case("\n".join(src) + "\nfn @@run() {\n    " + "\n    ".join(run) + "\n}", exp, feats=["forms"])

    def frames(d):
        """frames and fields further away than the offsets of an instruction reach"""
        t = d.choice(wide + ["f64"])
        n, m = d.choice([3, 30, 127, 250]), d.choice([1, 31, 60, 126])
        fields = [("a", "[%s;%d]" % (t, n)), ("x", "i64"), ("b", "[i64;%d]" % m), ("y", t), ("z", "f64")]
        d.shuffle(fields)
        src = "type @@s = struct{\n    %s\n}\n" % "\n    ".join("%s %s" % (ft, f) for f, ft in fields)
        body, model = ["@@s v = @@s{}", "@@s w = @@s{}"], {}
        for _ in range(d.int(2, 8)):
            f, ft = d.choice(fields)
            k = d.choice([0, n - 1, n // 2]) if f == "a" else d.choice([0, m - 1, m // 2])
            et = t if f == "a" else "i64" if f == "b" else ft
            place = "%s.%s%s" % (d.choice("vw"), f, "[%d]" % k if ft[0] == "[" else "")
            x = d.int(0, 5000)
            if et == "i64":
                body.append("%s = p + %d" % (place, x))
                x += 7
            else:
                body.append("%s = (%d%s as %s)" % (place, x, ".0" if et == "f64" else "", et))
            model[place] = (et, x)
        exp = []
        for j, place in enumerate(sorted(model)[:6]):
            et, x = model[place]
            body += ["%s x%d = %s" % (et, j, place), "xp_%s(x%d)" % (et, j), "xp_nl()"]
            exp.append(str(struct.unpack("<Q", struct.pack("<d", x))[0]) if et == "f64" else str(x))
        return Case(src + "fn @@f(i64 p) {\n    " + "\n    ".join(body) + "\n}\nfn @@run() {\n    @@f(7)\n}", exp, feats=["frames"])

    def pick(d, *options):
        return [t for t in d.choice(options) if arm or t not in ("i32", "u32")]

    def ints(d):
        ts = wide[:]
        d.shuffle(ts)
        return prog(d, Prof(cross=arch, **leaf, types=ts[:d.int(1, len(ts))], max_fns=2, max_stmts=8, max_depth=4))

    def floats(d):
        t = pick(d, ["f64"], ["f32"], ["f64", "f32"], ["f64", "i32", "u32"], ["f32", "i64"], ["f64", "u64"])
        return prog(d, Prof(cross=arch, **leaf, types=t, fops=fops(d), max_fns=2, max_stmts=8, max_depth=4))

    def pressure(d):
        t = pick(d, ["i64", "f64"], ["i64"], ["f64", "f32", "i64"], ["i32", "i64", "f64"])
        return prog(d, Prof(cross=arch, **leaf, types=t, fops=fops(d), max_fns=2, max_stmts=14, max_depth=3, max_params=8,
                            match=d.bool(1, 2)))

    def flow(d):
        t = pick(d, ["i64", "i32"], ["i64", "u64", "i32"], ["i64"], ["i32", "u32", "u64"])
        return prog(d, Prof(cross=arch, **leaf, types=t, max_fns=4, max_stmts=9, max_depth=2, max_params=8))

    def aggs(d):
        t = pick(d, ["i64"], ["i32", "f64"], ["f32"], ["f64"], ["i32", "i64"], ["u32", "f32", "i32"])
        # arm64: large copies are calls, so no loops that keep other values alive over them
        return prog(d, Prof(cross=arch, **leaf, types=t, fops=fops(d), aggs=True, max_fns=3, max_stmts=4 if arm else 7, max_depth=2,
                            max_params=2, loops=not arm, match=not arm))

    return [(arch + "-ints", 2, ints), (arch + "-floats", 2, floats), (arch + "-pressure", 2, pressure),
            (arch + "-flow", 1, flow), (arch + "-aggs", 3, aggs), (arch + "-forms", 4, forms), (arch + "-frames", 1, frames)]


def main():
    chk = Check("P26", rule="a case is non-trivial when the generated program evaluates at least three operator nodes and "
                            "prints at least one value; distinct by generated source")
    replayed = json.load(open(chk.args.replay)) if chk.args.replay else {}
    for arch, target, triple in ARCHES:
        if replayed and not (replayed.get("stream") or replayed["batch"][0][0]).startswith(arch):
            continue
        nat = Cross(chk.pid, target, triple)
        try:
            run_cases(chk, None, 1600, 20000, batch=40, nat=nat, streams=streams(arch))
        finally:
            nat.scratch.close()
    chk.finish()


run_main(main)
