"""P22: the linker survives arbitrary input files.

Valid objects, archives, import libraries and stub libraries of every supported
format are damaged and linked by an instrumented build of the linker: it must
report success or an error, never crash, read out of bounds or touch the output
file of a failed link."""
import os
import struct
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import elf as elfcheck        # noqa: E402
import ldkit                  # noqa: E402
from direct import DCase, Inconclusive, run_direct   # noqa: E402
from pbt import Check, Scratch, run_main, run_proc   # noqa: E402

LD = None
SEEDS = {}
INTERESTING = [0, 1, 2, 3, 4, 7, 8, 15, 16, 0x7f, 0x80, 0xff, 0x100, 0x7fff, 0x8000, 0xfff1, 0xfff2, 0xffff, 0x10000, 0x7fffffff,
               0x80000000, 0xfffffffe, 0xffffffff, 0x100000000, 0x7fffffffffffffff, 0x8000000000000000, 0xfffffffffffffff0,
               0xffffffffffffffff]

COFF = """
.section .drectve,"yn"
.ascii " /INCLUDE:keep /DEFAULTLIB:liby /ALTERNATENAME:alt=value /FAILIFMISMATCH:mode=1"
.text
.globl mainCRTStartup
.def mainCRTStartup; .scl 2; .type 32; .endef
.seh_proc mainCRTStartup
mainCRTStartup:
 pushq %rbx
 .seh_pushreg %rbx
 subq $32, %rsp
 .seh_stackalloc 32
 .seh_endprologue
 call other
 leaq value(%rip), %rax
 movq _tls_index(%rip), %rcx
 leaq tv@SECREL32(%rcx), %rcx
 call *__imp_ext(%rip)
 addq $32, %rsp
 popq %rbx
 ret
 .seh_endproc
.section .text$mn,"xr",discard,grp
.globl grp
grp: ret
.section .data,"dw"
.globl value, keep
value: 
.quad mainCRTStartup, alt, dflt
keep: .long mainCRTStartup@IMGREL, 0
.secrel32 value
.section .tls$a,"dw"
tv: .quad 5
.comm cm,24
.weak wk
.set wk, value
.section .debug_info,"dr"
.quad value
"""
COFF2 = """
.text
.globl other, _tls_index
other: call grp
 jmp wk2
.section .text$mn,"xr",discard,grp
.globl grp
grp: ret
.text
.weak wk2
wk2: ret
.data
.globl _tls_index
_tls_index: .quad 0
.globl __imp_ext
__imp_ext: .quad other
.comm cm,48
.section .pdata,"dr"
.long other@IMGREL, grp@IMGREL, grp@IMGREL
"""
MACHO = """
.section __TEXT,__text,regular,pure_instructions
.globl _main
.p2align 2
_main:
.cfi_startproc
 stp x29, x30, [sp, #-16]!
 .cfi_def_cfa_offset 16
 .cfi_offset w29, -16
 .cfi_offset w30, -8
 adrp x0, _value@PAGE
 add x0, x0, _value@PAGEOFF
 adrp x1, _ext@GOTPAGE
 ldr x1, [x1, _ext@GOTPAGEOFF]
 adrp x2, _tv@TLVPPAGE
 ldr x2, [x2, _tv@TLVPPAGEOFF]
 bl _other
 bl _write
 ldp x29, x30, [sp], #16
 ret
.cfi_endproc
.section __DATA,__data
.globl _value
.p2align 3
_value: .quad _main
.quad _other+8
.long _main-_value
.section __TEXT,__cstring,cstring_literals
l_str: .asciz "hello"
.section __TEXT,__literal8,8byte_literals
.quad 0x3ff0000000000000
.section __DATA,__thread_vars,thread_local_variables
.globl _tv
_tv: .quad __tlv_bootstrap
.quad 0
.quad _tv$tlv$init
.section __DATA,__thread_data,thread_local_regular
_tv$tlv$init: .quad 7
.section __DATA,__mod_init_func,mod_init_funcs
.quad _main
.comm _cm,16,3
.subsections_via_symbols
"""
MACHO2 = """
.section __TEXT,__text,regular,pure_instructions
.globl _other
.p2align 2
_other:
.cfi_startproc
 adrp x0, l_s@PAGE
 add x0, x0, l_s@PAGEOFF
 ret
.cfi_endproc
.weak_definition _w
.globl _w
_w: ret
.section __TEXT,__cstring,cstring_literals
l_s: .asciz "hello"
.section __DATA,__data
.globl _ext
_ext: .quad 3
.zerofill __DATA,__bss,_z,64,4
.subsections_via_symbols
"""
TBD = """--- !tapi-tbd
tbd-version:     4
targets:         [ arm64-macos, x86_64-macos ]
install-name:    '/usr/lib/libSystem.B.dylib'
current-version: 1345.100.2
compatibility-version: 1.2
reexported-libraries:
  - targets:         [ arm64-macos ]
    libraries:       [ '/usr/lib/system/libsystem_c.dylib' ]
exports:
  - targets:         [ arm64-macos, x86_64-macos ]
    symbols:         [ _write, __tlv_bootstrap, dyld_stub_binder, '$ld$previous$/x$1$1$10.0$11.0$$' ]
    weak-symbols:    [ _weakone ]
    objc-classes:    [ NSObject ]
--- !tapi-tbd
tbd-version:     4
targets:         [ arm64-macos ]
install-name:    '/usr/lib/system/libsystem_c.dylib'
exports:
  - targets:         [ arm64-macos ]
    symbols:         [ _exit ]
...
"""
LDS = """/* script */ OUTPUT_FORMAT(elf64-x86-64)
GROUP ( o1.o AS_NEEDED ( o2.o ) )
INPUT(o3.o)
"""


def prepare(dr):
    """valid inputs of every format"""
    def ar(out, members, fmt="gnu"):
        subprocess.run(["llvm-ar", "--format=" + fmt, "rc", out] + members, cwd=dr, check=True, stdout=subprocess.DEVNULL)

    from pbt import Draw
    for k, seed in enumerate((3, 11, 29, 41, 57, 83, 101, 151, 163, 187, 190, 211)):
        for t in range(50):
            c = elfcheck.gen(Draw(seed=seed * 1000 + t)).c
            if len(c["objs"]) > 1 and len(c["defs"]) > 6:
                break
        sub = "%s/e%d" % (dr, k)
        os.mkdir(sub)
        inputs = elfcheck.build_inputs(c, sub)
        files = sorted(f for f in os.listdir(sub))
        SEEDS["elf%d" % k] = ("linux", c["arch"], int(c["pie"]), int(c["debug"]), "_start", sub,
                              [os.path.basename(i) for i in inputs], files)
    sub = dr + "/script"
    os.mkdir(sub)
    ldkit.mc("x86_64-linux-gnu", ".globl _start\n_start: call f1\n call f3\n", sub + "/o0.o")
    for i in (1, 2, 3):
        ldkit.mc("x86_64-linux-gnu", ".globl f%d\nf%d: ret\n" % (i, i), sub + "/o%d.o" % i)
    with open(sub + "/libs.so", "w") as f:
        f.write(LDS)
    SEEDS["script"] = ("linux", "amd64", 0, 0, "_start", sub, ["o0.o", "libs.so"], ["libs.so"])
    sub = dr + "/coff"
    os.mkdir(sub)
    ldkit.mc("x86_64-windows-gnu", COFF, sub + "/a.obj")
    ldkit.mc("x86_64-windows-gnu", COFF2, sub + "/b.obj")
    with open(sub + "/k.def", "w") as f:
        f.write("LIBRARY k.dll\nEXPORTS\n ext\n dat DATA\n byord @7 NONAME\n")
    subprocess.run(["llvm-dlltool-18", "-m", "i386:x86-64", "-d", "k.def", "-l", "libk.a", "-D", "k.dll"], cwd=sub, check=True)
    ldkit.mc("x86_64-windows-gnu", ".globl dflt\n.text\ndflt: ret\n", sub + "/c.obj")
    ar(sub + "/libx.lib", [sub + "/b.obj"])
    ar(sub + "/liby.lib", [sub + "/c.obj"])
    SEEDS["coff"] = ("windows", "amd64", 0, 0, "mainCRTStartup", sub, ["a.obj", "b.obj", "-L" + sub], ["a.obj", "b.obj", "liby.lib"])
    SEEDS["coffimp"] = ("windows", "amd64", 0, 0, "mainCRTStartup", sub, ["a.obj", "libx.lib", "libk.a", "-L" + sub], ["a.obj", "libx.lib", "libk.a"])
    sub = dr + "/macho"
    os.mkdir(sub)
    ldkit.mc("arm64-apple-macos12", MACHO, sub + "/a.o")
    ldkit.mc("arm64-apple-macos12", MACHO2, sub + "/b.o")
    with open(sub + "/libSystem.tbd", "w") as f:
        f.write(TBD)
    ar(sub + "/libb.a", [sub + "/b.o"], "darwin")
    SEEDS["macho"] = ("darwin", "arm64", 1, 0, "-", sub, ["a.o", "b.o", "libSystem.tbd"], ["a.o", "b.o", "libSystem.tbd"])
    SEEDS["machoar"] = ("darwin", "arm64", 1, 1, "-", sub, ["a.o", "libb.a", "libSystem.tbd"], ["a.o", "libb.a", "libSystem.tbd"])


def elf_spots(data):
    """offsets of fields worth changing: (offset, width)"""
    out = []
    try:
        e = ldkit.Elf(data)
    except Exception:
        return out
    out += [(16, 2), (18, 2), (40, 8), (48, 4), (58, 2), (60, 2), (62, 2)]
    for i, s in enumerate(e.sh):
        b = e.shoff + i * 64
        out += [(b, 4), (b + 4, 4), (b + 8, 8), (b + 24, 8), (b + 32, 8), (b + 40, 4), (b + 44, 4), (b + 48, 8), (b + 56, 8)]
        if s["type"] == 2:
            for k in range(s["size"] // 24):
                q = s["off"] + 24 * k
                out += [(q, 4), (q + 4, 1), (q + 5, 1), (q + 6, 2), (q + 8, 8), (q + 16, 8)]
        elif s["type"] == 4:
            for k in range(s["size"] // 24):
                q = s["off"] + 24 * k
                out += [(q, 8), (q + 8, 4), (q + 12, 4), (q + 16, 8)]
        elif s["type"] == 17 or s["name"].startswith((".eh_frame", ".debug", ".riscv.attributes", ".note")):
            out += [(s["off"] + k, 4) for k in range(0, min(s["size"], 200), 4)]
            out += [(s["off"] + k, 1) for k in range(0, min(s["size"], 64))]
    return out


def coff_spots(data):
    if len(data) < 20:
        return []
    m, ns, t, sp, nsym, oh, ch = struct.unpack_from("<HHIIIHH", data, 0)
    if m != 0x8664:
        return []
    out = [(0, 2), (2, 2), (8, 4), (12, 4), (16, 2)]
    for i in range(ns):
        b = 20 + 40 * i
        out += [(b, 1), (b + 1, 4), (b + 8, 4), (b + 12, 4), (b + 16, 4), (b + 20, 4), (b + 24, 4), (b + 32, 2), (b + 34, 2), (b + 36, 4)]
        if b + 40 <= len(data):
            pr, = struct.unpack_from("<I", data, b + 24)
            nr, = struct.unpack_from("<H", data, b + 32)
            for k in range(min(nr, 30)):
                out += [(pr + 10 * k, 4), (pr + 10 * k + 4, 4), (pr + 10 * k + 8, 2)]
            ps, sz = struct.unpack_from("<II", data, b + 20)[0], struct.unpack_from("<I", data, b + 16)[0]
            out += [(ps + k, 1) for k in range(min(sz, 40))]
    for k in range(min(nsym, 60)):
        q = sp + 18 * k
        out += [(q, 4), (q + 4, 4), (q + 8, 4), (q + 12, 2), (q + 14, 2), (q + 16, 1), (q + 17, 1)]
    out.append((sp + 18 * nsym, 4))
    return out


def macho_spots(data):
    if data[:4] != b"\xcf\xfa\xed\xfe":
        return []
    out = [(4, 4), (8, 4), (12, 4), (16, 4), (20, 4), (24, 4)]
    nc, = struct.unpack_from("<I", data, 16)
    p = 32
    for _ in range(min(nc, 40)):
        if p + 8 > len(data):
            break
        c, sz = struct.unpack_from("<II", data, p)
        out += [(p + k, 4) for k in range(0, min(sz, 720), 4)]
        if c == 0x19 and p + 72 <= len(data):
            n, = struct.unpack_from("<I", data, p + 64)
            for k in range(min(n, 20)):
                b = p + 72 + 80 * k
                if b + 80 <= len(data):
                    ro, nr = struct.unpack_from("<II", data, b + 56)
                    for j in range(min(nr, 20)):
                        out += [(ro + 8 * j, 4), (ro + 8 * j + 4, 4), (ro + 8 * j + 7, 1)]
                    off, = struct.unpack_from("<I", data, b + 48)
                    out += [(off + j, 4) for j in range(0, 64, 4)]
        if c == 2 and p + 24 <= len(data):
            so, ns, st, ss = struct.unpack_from("<IIII", data, p + 8)
            for k in range(min(ns, 30)):
                b = so + 16 * k
                out += [(b, 4), (b + 4, 1), (b + 5, 1), (b + 6, 2), (b + 8, 8)]
        p += max(sz, 8)
    return out


def ar_spots(data):
    if data[:8] not in (b"!<arch>\n", b"!<thin>\n"):
        return []
    out = [(k, 1) for k in range(8)]
    p = 8
    while p + 60 <= len(data) and len(out) < 4000:
        out += [(p + k, 1) for k in range(60)]
        try:
            sz = int(data[p + 48:p + 58])
        except ValueError:
            break
        if data[p:p + 1] in (b"/", b"_"):
            out += [(p + 60 + k, 4) for k in range(0, min(sz, 120), 4)]
        sub = data[p + 60:p + 60 + sz]
        for f in (elf_spots, coff_spots, macho_spots):
            out += [(p + 60 + o, w) for o, w in f(sub)][:400]
        if data[:8] == b"!<thin>\n" and data[p:p + 1] != b"/":
            sz = 0
        p += 60 + sz + (sz & 1)
    return out


def gen(d):
    name = d.choice(sorted(SEEDS))
    os_, arch, pie, debug, entry, sub, inputs, files = SEEDS[name]
    f = d.choice(files)
    with open(os.path.join(sub, f), "rb") as h:
        data = bytearray(h.read())
    orig = bytes(data)
    spots = [s for s in (elf_spots(orig) + coff_spots(orig) + macho_spots(orig) + ar_spots(orig)) if s[0] + s[1] <= len(orig)]
    ops = []
    textual = f.endswith((".tbd", ".so"))
    for _ in range(d.weighted([(5, 1), (2, 2), (1, 4)])):
        r = d.below(10)
        n = len(data)
        if n == 0:
            break
        if textual and r < 8:
            i = d.below(n)
            k = d.below(5)
            j = min(n, i + d.choice([1, 2, 5, 20, 60]))
            if k == 0:
                del data[i:j]
            elif k == 1:
                data[i:i] = data[i:j]
            elif k == 2:
                data[i:i + 1] = bytes([d.choice(list(b"\n\t []{}:,-'\"#\\$0!&*|>%@\x00\xff()/;"))])
            elif k == 3:
                data[i:i] = d.choice([b"[", b"{", b"- ", b"'", b"\\x", b"\n\n", b"---\n", b"[[[[[[[[", b"AS_NEEDED(", b"9" * 30, b"/*", b"&a ", b"*a"])
            else:
                data = data[:j]
            ops.append((k, i, j))
        elif spots and r < 8:
            o, w = d.choice(spots)
            if o + w > n:
                continue
            cur = int.from_bytes(data[o:o + w], "little")
            v = d.choice(INTERESTING + [cur + 1, cur - 1, cur * 2, cur + 8, cur ^ 1 << d.below(8 * w), n, n - 1, n + 1, cur + n]) if d.bool(3, 4) else \
                d.below(1 << 8 * w)
            data[o:o + w] = (v & (1 << 8 * w) - 1).to_bytes(w, "little")
            ops.append((o, w, v))
        elif r == 8:
            o = d.below(n)
            data[o] = d.below(256)
            ops.append((o, data[o]))
        else:
            o = d.below(n)
            k = d.below(3)
            if k == 0:
                data = data[:o]
            elif k == 1:
                del data[o:o + d.choice([1, 4, 8, 16, 64])]
            else:
                data[o:o] = bytes(d.choice([1, 4, 8, 16, 64]))
            ops.append(("cut", k, o))
    data = bytes(data)
    return DCase((name, f, data), nontrivial=data != orig and len(data) > 0, sample="%s %s %s" % (name, f, ops), feats=[name, f],
                 info={"seed": name, "file": f, "operations": ops, "bytes": data.hex() if len(data) < 20000 else ""}, name=name, f=f, data=data)


def evaluate(case, dr):
    os_, arch, pie, debug, entry, sub, inputs, files = SEEDS[case.name]
    for f in os.listdir(sub):
        p = os.path.join(dr, f)
        if f == case.f:
            with open(p, "wb") as h:
                h.write(case.data)
        else:
            os.link(os.path.join(sub, f), p)
    out = dr + "/a.out"
    with open(out, "wb") as h:
        h.write(b"previous contents")
    env = dict(os.environ, ASAN_OPTIONS="detect_leaks=0:abort_on_error=0:exitcode=99:hard_rss_limit_mb=3000:allocator_may_return_null=1",
               UBSAN_OPTIONS="halt_on_error=1:exitcode=99:print_stacktrace=1")
    args = [i.replace(sub, dr) for i in inputs]
    before = sorted(os.listdir(dr))
    rc, so, se, to = run_proc([LD, os_, arch, str(pie), str(debug), entry, out] + args, dr, timeout=60, env=env)
    if to:
        raise Inconclusive("timeout")
    msg = (so + se).decode(errors="replace")
    if "hard rss limit" in msg:
        raise Inconclusive("memory limit")
    if rc == 99 or rc < 0 or rc >= 128 or "runtime error" in msg or "ERROR: AddressSanitizer" in msg:
        lines = [l.strip() for l in msg.splitlines() if "ERROR" in l or "runtime error" in l or l.strip().startswith("#")]
        site = [l.split(" in ", 1)[-1] for l in lines if l.startswith("#") and "/src/" in l]
        first = [l for l in lines if "ERROR" in l or "runtime error" in l]
        return "memory error in %s: %s" % ((site or ["?"])[0].split(" ")[0], (first or ["signal %d" % -rc])[0][:200])
    if rc == 0:
        return None
    if rc < 11 or rc > 30:
        return "exit code %d: %s" % (rc, msg[:200])
    if "error" not in msg:
        return "no diagnostic: exit code %d" % rc
    if open(out, "rb").read() != b"previous contents":
        return "failed link changed the output file"
    if sorted(os.listdir(dr)) != before:
        return "failed link left files behind: %s" % sorted(set(os.listdir(dr)) - set(before))
    return None


def main():
    global LD
    chk = Check("P22", rule="non-trivial when the damaged file differs from the valid one; distinct by file contents")
    LD = ldkit.build_ldrun(asan=True)
    seeds = Scratch("P22-seeds")
    try:
        prepare(seeds.dir)
        for name in sorted(SEEDS):
            os_, arch, pie, debug, entry, sub, inputs, files = SEEDS[name]
            rc, so, se, to = run_proc([LD, os_, arch, str(pie), str(debug), entry, sub + "/out"] + inputs, sub, timeout=120,
                                      env={"ASAN_OPTIONS": "detect_leaks=0"})
            if rc:
                print("note: undamaged %s does not link: %s" % (name, (so + se).decode(errors="replace")[:300]))
            else:
                os.unlink(sub + "/out")
        run_direct(chk, [("damage", 1, gen, evaluate)], 16000, 300000, chunk=16)
    finally:
        seeds.close()
    chk.finish()


if __name__ == "__main__":
    run_main(main)
