"""P17: the compiler survives any source text: it ends with status 0 or 1 and touches no memory it should not."""
import glob
import os
import re
import signal
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import ldkit
import natbuild
from direct import DCase, Inconclusive, run_direct
from pbt import Check, run_main

TOK = re.compile(r"[ \t]+|\n|[A-Za-z_]\w*|\d[\w.]*|'(?:[^'\\\n]|\\.)*'|\"(?:[^\"\\\n]|\\.)*\"|//[^\n]*|->|[=!<>+*/%&|^-]=|<<=?|>>=|&&|\|\||\.\.\.?|.")
CORPUS = None
WORDS = None


def corpus():
    """programs to start from: the repository's own samples, and one made here in case there are none"""
    global CORPUS, WORDS
    import reject
    out = [reject.PRE + "fn main() {\n    var x = q_f(1, 2)\n    println(x)\n}\n"]
    base = natbuild.REPO + "/tests/features/cases"
    for f in sorted(glob.glob(base + "/*.n") + glob.glob(base + "/*/*.n")):
        out.append(open(f, errors="replace").read())
    for f in sorted(glob.glob(base + "/*.testar")):
        for part in re.split(r"^--- .*\n", open(f, errors="replace").read(), flags=re.M):
            out.append(part)
    out = [s for s in out if "fn main" in s and len(s) < 5000 and not re.search(r"^import '", s, re.M)]
    out += [re.sub(r"\bq0_\w+", "main", b.replace("\x01", "").replace("\x02", "")) for b in reject.DECL]
    CORPUS = [TOK.findall(s) for s in out]
    WORDS = sorted({t for s in CORPUS for t in s})


CHARS = "'\"`\\{}()[]<>.,;:=+-*/%!&|^~?@#$ \n\t\r0123456789abxoeEfn_" + "\x01\x7f\xe9世"
LITS = ["18446744073709551616", "99999999999999999999999999", "0x", "0xffffffffffffffffff", "0b", "0b2", "0o9", "1e999", "1e",
        "1.5e-400", ".5", "1..2", "'\\x4", "'\\", "\"", "`", "'\\q'", "''", "/*", "//", "-9223372036854775808", "a" * 300,
        "a" * 1500, "'" + "s" * 1500 + "'", "[" * 40, "(" * 40, "{" * 40, "!" * 40, "-" * 41, "&", "*", "...", "#", "@", "?", ";"]


def mutate(d, t):
    """one change of a token list"""
    t = list(t)
    k = d.below(13)
    if not t:
        return [d.choice(WORDS)]
    i = d.below(len(t))
    j = min(len(t), i + d.int(1, 4))
    if k == 0:
        del t[i:j]
    elif k == 1:
        t[i:i] = t[i:j]
    elif k == 2:
        t[i] = d.choice(WORDS)
    elif k == 3:
        t.insert(i, d.choice(WORDS))
    elif k == 4:
        q = d.below(len(t))
        t[i], t[q] = t[q], t[i]
    elif k == 5:
        t = t[:i]
    elif k == 6:
        o = d.choice(CORPUS)
        a = d.below(len(o))
        t[i:j] = o[a:a + d.int(1, 12)]
    elif k == 7:
        t[i] = t[i][:len(t[i]) // 2]
    elif k == 8:
        t[i] = d.choice(LITS)
    elif k == 9:
        c = d.choice(CHARS)
        p = d.below(len(t[i]) + 1)
        t[i] = t[i][:p] + c + t[i][p + d.below(2):]
    elif k == 10:
        # another name of the same program
        names = sorted({x for x in t if re.match(r"[A-Za-z_]\w*$", x)})
        spots = [n for n, x in enumerate(t) if re.match(r"[A-Za-z_]\w*$", x)]
        if names:
            t[d.choice(spots)] = d.choice(names)
    elif k == 11:
        # a whole line moves or vanishes
        lines = "".join(t).split("\n")
        x = lines.pop(d.below(len(lines)))
        if d.bool():
            lines.insert(d.below(len(lines) + 1), x)
        t = TOK.findall("\n".join(lines))
    else:
        # a line of another program
        o = "".join(d.choice(CORPUS)).split("\n")
        lines = "".join(t).split("\n")
        lines.insert(d.below(len(lines) + 1), d.choice(o))
        t = TOK.findall("\n".join(lines))
    return t


def gen(d):
    t = d.choice(CORPUS)
    n = d.weighted([(5, 1), (3, 2), (1, 3), (1, 8)])
    for _ in range(n):
        t = mutate(d, t)
    src = "".join(t).replace("\0", "")
    return DCase(src, True, src[-300:], ["mutations:%d" % n], src, src=src)


NATURE = None


def run(src, d):
    with open(os.path.join(d, "main.n"), "w", errors="surrogatepass") as f:
        f.write(src)
    stub = os.path.join(d, "ld")
    with open(stub, "w") as f:
        f.write('#!/bin/sh\nwhile [ $# -gt 0 ]; do if [ "$1" = -o ]; then : > "$2"; exit 0; fi; shift; done\n')
    os.chmod(stub, 0o755)
    env = dict(os.environ, NATURE_ROOT=NATURE[1], ASAN_OPTIONS="detect_leaks=0:exitcode=77:allocator_may_return_null=1",
               UBSAN_OPTIONS="exitcode=77")
    try:
        p = subprocess.run([NATURE[0], "build", "--ld", stub, "main.n"], cwd=d, env=env, stdin=subprocess.DEVNULL,
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=200)
    except subprocess.TimeoutExpired:
        return None, ""
    return p.returncode, p.stdout.decode("utf-8", "replace")


def evaluate(case, d):
    rc, out = run(case.src, d)
    if rc is None:
        return "compiler ran for more than 200 s"
    if rc in (0, 1):
        if rc == 1 and not out.strip():
            return "refused without a report"
        return None
    if rc == -signal.SIGKILL:
        raise Inconclusive("compiler killed")
    if "allocation-size-too-big" in out or "out-of-memory" in out:
        raise Inconclusive("out of memory")
    if "stack-overflow" in out and len(case.src) > 100000:
        raise Inconclusive("stack")
    at = re.search(r"ERROR: AddressSanitizer: ([\w-]+)", out) or re.search(r"runtime error: (.*)", out) or \
        re.search(r"(Assertion .*|Assert .*)", out)
    fr = re.findall(r"#\d+ 0x[0-9a-f]+ in (\w+) /\S*?/(src/\S+|utils/\S+)", out)
    return "compiler ended by %s: %s at %s" % (signal.Signals(-rc).name if rc < 0 else "status %d" % rc,
                                               at.group(1)[:160] if at else out.strip()[-160:], fr[:3])


def main():
    global NATURE
    chk = Check("P17", rule="every case is a damaged or recombined program; distinct by text")
    tc = natbuild.Toolchain()
    NATURE = (natbuild.build_compiler(extra=ldkit.ASAN, ldflags=["-fsanitize=address,undefined"]), tc.root)
    corpus()
    run_direct(chk, [("mutated", 1, gen, evaluate)], 1800, 60000, chunk=4)
    chk.finish()


if __name__ == "__main__":
    run_main(main)
