"""P21: a relocation is applied exactly or refused.

Sites of every supported relocation refer to absolute symbols whose values are
drawn around the limits of the field; the linked image is decoded as the
processor would and compared with the 64-bit result, and a value that does not
fit must be refused."""
import os
import struct
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import elfmodel as E          # noqa: E402
import ldkit                  # noqa: E402
from direct import DCase, Inconclusive, run_direct   # noqa: E402
from elfmodel import sext, word                      # noqa: E402
from ldkit import Elf, Image                         # noqa: E402
from pbt import Check, run_main, run_proc            # noqa: E402

M64 = (1 << 64) - 1
LD = None


class R:
    """One kind of site. must/may: ranges of the relocated value that have to be
    accepted / may be accepted; step: required alignment; bits: width compared."""

    def __init__(self, name, asm, pc, must, may, decode, bits=64, step=1, align=1, maystep=None, split=False, far=None):
        self.name, self.asm, self.pc, self.must, self.may, self.decode = name, asm, pc, must, may, decode
        self.bits, self.step, self.align, self.split, self.far = bits, step, align, split, far


def S(n):
    return (-(1 << n - 1), (1 << n - 1) - 1)


def U(n):
    return (0, (1 << n) - 1)


def B(n):
    return (-(1 << n - 1), (1 << n) - 1)


ANY = (-(1 << 62), (1 << 62))
POS = (0, 1 << 62)
rd = {8: lambda im, a: im.read(a, 1)[0], 16: lambda im, a: im.u16(a), 32: lambda im, a: im.u32(a), 64: lambda im, a: im.u64(a)}


def data(name, bits, pc, must, may=None):
    d = {8: ".byte 0", 16: ".short 0", 32: ".long 0", 64: ".quad 0"}[bits]
    return R(name, [(name, d)], pc, must, may or must, rd[bits], bits=bits)


AMD64 = [
    data("R_X86_64_64", 64, False, ANY), data("R_X86_64_32", 32, False, U(32)), data("R_X86_64_32S", 32, False, S(32)),
    data("R_X86_64_16", 16, False, U(15), B(16)), data("R_X86_64_8", 8, False, U(7), B(8)),
    data("R_X86_64_PC64", 64, True, ANY), data("R_X86_64_PC32", 32, True, S(32)), data("R_X86_64_PLT32", 32, True, S(32)),
    data("R_X86_64_PC16", 16, True, S(16), B(16)), data("R_X86_64_PC8", 8, True, S(8), B(8)),
]


def imm(lo, n, sh=0, signed=True):
    def f(im, a):
        v = im.u32(a) >> lo & (1 << n) - 1
        return (sext(v, n) if signed else v) << sh
    return f


def adr(im, a):
    w = im.u32(a)
    return sext((w >> 5 & 0x7ffff) << 2 | w >> 29 & 3, 21)


def adrp_add(im, a):
    return (a & ~0xfff) + (adr(im, a) << 12) + (im.u32(a + 4) >> 10 & 0xfff) - a


def movw(k):
    def f(im, a):
        return (im.u32(a) >> 5 & 0xffff) << 16 * k
    return f


def lo12(sh):
    def f(im, a):
        return (im.u32(a) >> 10 & 0xfff) << sh
    return f


def insn(name, text, pc, must, dec, **kw):
    kw.setdefault("align", 4)
    return R(name, [(name, text)], pc, must, kw.pop("may", must), dec, **kw)


ARM64 = [
    data("R_AARCH64_ABS64", 64, False, ANY), data("R_AARCH64_ABS32", 32, False, U(32), B(32)), data("R_AARCH64_ABS16", 16, False, U(16), B(16)),
    data("R_AARCH64_PREL64", 64, True, ANY), data("R_AARCH64_PREL32", 32, True, S(32), B(32)),
    data("R_AARCH64_PREL16", 16, True, S(16), B(16)),
    insn("R_AARCH64_LD_PREL_LO19", ".long 0x58000005", True, S(21), imm(5, 19, 2), step=4),
    insn("R_AARCH64_ADR_PREL_LO21", ".long 0x10000005", True, S(21), adr),
    insn("R_AARCH64_TSTBR14", ".long 0x36180005", True, S(16), imm(5, 14, 2), step=4),
    insn("R_AARCH64_CONDBR19", ".long 0x54000001", True, S(21), imm(5, 19, 2), step=4),
    insn("R_AARCH64_JUMP26", ".long 0x14000000", True, S(28), imm(0, 26, 2), step=4, far="arm64"),
    insn("R_AARCH64_CALL26", ".long 0x94000000", True, S(28), imm(0, 26, 2), step=4, far="arm64"),
]
for _k in range(4):
    _m = U(16 * (_k + 1)) if _k < 3 else POS
    ARM64.append(R("R_AARCH64_MOVW_UABS_G%d" % _k, [("R_AARCH64_MOVW_UABS_G%d" % _k, ".long %#x" % (0xd2800006 | _k << 21))],
                   False, _m, _m if _k < 3 else ANY, movw(_k), align=4, bits=(16 * _k, 16)))
    if _k < 3:
        ARM64.append(R("R_AARCH64_MOVW_UABS_G%d_NC" % _k, [("R_AARCH64_MOVW_UABS_G%d_NC" % _k, ".long %#x" % (0xf2800006 | _k << 21))],
                       False, ANY, ANY, movw(_k), align=4, bits=(16 * _k, 16)))
ARM64.append(R("ADRP+ADD", [("R_AARCH64_ADR_PREL_PG_HI21", ".long 0x90000003"), ("R_AARCH64_ADD_ABS_LO12_NC", ".long 0x91000063")],
               True, (-(1 << 32) + 4096, (1 << 32) - 8192), (-(1 << 32) - 4096, (1 << 32) + 4096), adrp_add, align=4))
for _n, _sh, _w in (("8", 0, 0x39400064), ("16", 1, 0x79400064), ("32", 2, 0xb9400064), ("64", 3, 0xf9400064), ("128", 4, 0x3dc00064)):
    ARM64.append(insn("R_AARCH64_LDST%s_ABS_LO12_NC" % _n, ".long %#x" % _w, False, ANY, lo12(_sh), bits=12, step=1 << _sh))
ARM64.append(insn("R_AARCH64_ADD_ABS_LO12_NC", ".long 0x91000063", False, ANY, lo12(0), bits=12))


def rv_hi_lo(store):
    def f(im, a):
        hi = sext(im.u32(a) & 0xfffff000, 32)
        w = im.u32(a + 4)
        lo = sext((w >> 25) << 5 | w >> 7 & 31, 12) if store else sext(w >> 20, 12)
        return hi + lo
    return f


HLM = (-(1 << 31) - 0x800, (1 << 31) - 0x801)
HL = (-(1 << 31), (1 << 31) - 0x801)
# the processor sign-extends the upper part, so the reachable range is shifted by half the lower field
RISCV64 = [
    data("R_RISCV_64", 64, False, ANY), data("R_RISCV_32", 32, False, U(31), B(32)),
    data("R_RISCV_32_PCREL", 32, True, S(32)),
    insn("R_RISCV_BRANCH", ".long 0x00628063", True, S(13), lambda im, a: E.rv_b(im, a) - a, step=2, align=2),
    insn("R_RISCV_JAL", ".long 0x0000006f", True, S(21), lambda im, a: E.rv_j(im, a) - a, step=2, align=2),
    insn("R_RISCV_RVC_BRANCH", ".short 0xc101", True, S(9), lambda im, a: E.rv_cb(im, a) - a, step=2, align=2),
    insn("R_RISCV_RVC_JUMP", ".short 0xa001", True, S(12), lambda im, a: E.rv_cj(im, a) - a, step=2, align=2),
    R("R_RISCV_CALL_PLT", [("R_RISCV_CALL_PLT", ".long 0x00000317\n.long 0x000300e7")], True, HL, HLM, rv_hi_lo(False), align=2, step=2),
    R("R_RISCV_CALL", [("R_RISCV_CALL", ".long 0x00000317\n.long 0x00030067")], True, HL, HLM, rv_hi_lo(False), align=2, step=2),
    R("HI20+LO12_I", [("R_RISCV_HI20", ".long 0x00000337"), ("R_RISCV_LO12_I", ".long 0x00030313")], False, HL, HLM, rv_hi_lo(False),
      align=2),
    R("HI20+LO12_S", [("R_RISCV_HI20", ".long 0x00000337"), ("R_RISCV_LO12_S", ".long 0x00732023")], False, HL, HLM, rv_hi_lo(True),
      align=2),
    R("PCREL_HI20+LO12_I", [("R_RISCV_PCREL_HI20", ".long 0x00000317"), ("R_RISCV_PCREL_LO12_I", ".long 0x00030313")], True, HL, HLM,
      rv_hi_lo(False), align=2, split=True),
    R("PCREL_HI20+LO12_S", [("R_RISCV_PCREL_HI20", ".long 0x00000317"), ("R_RISCV_PCREL_LO12_S", ".long 0x00732023")], True, HL, HLM,
      rv_hi_lo(True), align=2, split=True),
]
for _n in (8, 16, 32, 64):
    RISCV64.append(R("R_RISCV_ADD%d" % _n, [("R_RISCV_ADD%d" % _n, {8: ".byte", 16: ".short", 32: ".long", 64: ".quad"}[_n] + " 0x5a")],
                     False, ANY, ANY, lambda im, a, n=_n: rd[n](im, a) - 0x5a, bits=_n))
    RISCV64.append(R("R_RISCV_SUB%d" % _n, [("R_RISCV_SUB%d" % _n, {8: ".byte", 16: ".short", 32: ".long", 64: ".quad"}[_n] + " 0x5a")],
                     False, ANY, ANY, lambda im, a, n=_n: 0x5a - rd[n](im, a), bits=_n))
    if _n < 64:
        RISCV64.append(data("R_RISCV_SET%d" % _n, _n, False, ANY))
RISCV64.append(R("R_RISCV_SET6", [("R_RISCV_SET6", ".byte 0x80")], False, ANY, ANY, lambda im, a: im.read(a, 1)[0] - 0x80, bits=6))
RISCV64.append(R("R_RISCV_SUB6", [("R_RISCV_SUB6", ".byte 0xa5")], False, ANY, ANY, lambda im, a: 0xa5 - im.read(a, 1)[0], bits=6))

KINDS = {"amd64": AMD64, "arm64": ARM64, "riscv64": RISCV64}


def target(d, k):
    """a relocated value, mostly close to a limit"""
    lo, hi = d.choice([k.must, k.may])
    r = d.below(10)
    if r < 2:
        t = lo + d.int(-2, 4) * d.choice([1, k.step, 4096])
    elif r < 5:
        t = hi + d.int(-4, 4) * d.choice([1, k.step, 2048])
    elif r < 6:
        t = d.int(-40, 40)
    elif r < 9:
        t = lo + d.below(hi - lo + 1)
    else:
        t = d.choice([1, -1]) * d.below(1 << d.int(1, 62))
    if not d.bool(1, 6):
        t -= t % k.step
    return max(ANY[0], min(ANY[1], t))


def verdict(k, t):
    ok = k.must[0] <= t <= k.must[1] and t % k.step == 0
    bad = not (k.may[0] <= t <= k.may[1])
    if k.step > 1 and t % k.step:
        return "either" if isinstance(k.bits, int) and k.bits == 12 else "refuse"
    return "accept" if ok else "refuse" if bad else "either"


def gen(d):
    arch = d.choice(["amd64", "arm64", "riscv64"])
    n = d.int(1, 6)
    sites = []
    refuse = d.bool(1, 3)
    for j in range(n):
        k = d.choice(KINDS[arch])
        for _ in range(20):
            t = target(d, k)
            v = verdict(k, t)
            if v == "accept" or refuse and j == 0:
                break
        else:
            continue
        a = d.choice([0, 0, 4, -4, 8, d.int(-4096, 4096), d.int(-(1 << 31), (1 << 31) - 1), d.int(-(1 << 62), 1 << 62)])
        sites.append([k, t, a, v])
        if refuse:
            break
    key = (arch, tuple((k.name, t, a) for k, t, a, v in sites))
    info = {"arch": arch, "sites": [{"kind": k.name, "value": hex(t), "addend": hex(a), "verdict": v} for k, t, a, v in sites]}
    return DCase(key, nontrivial=bool(sites), feats=[k.name for k, t, a, v in sites] + [v for k, t, a, v in sites],
                 sample="%s %s" % (arch, " ".join("%s=%#x(%s)" % (k.name, t, v) for k, t, a, v in sites)), info=info, arch=arch, sites=sites)


def text(arch, sites, relocs):
    out = [".text", ".globl _start", "_start:", ".balign 64"]
    for j, (k, t, a, v) in enumerate(sites):
        out += [".balign 8", ".quad %#x" % word("site", j)]
        for i, (rn, asm) in enumerate(k.asm):
            if i == 0 and k.split:
                out.append(".globl hi%d\nhi%d:" % (j, j))
            if relocs:
                tgt = "ab%d%+d" % (j, a)
                if i and k.split:
                    tgt = "hi%d" % j
                out.append(".reloc ., %s, %s" % (rn, tgt))
            out.append(asm)
    out += [".balign 64", ".quad 0, 0, 0, 0"]
    return "\n".join(out) + "\n"


def link(case, dr, out, inputs):
    rc, so, se, to = run_proc([LD, "linux", case.arch, "0", "0", "_start", out] + inputs, dr, timeout=120)
    if to:
        raise Inconclusive("linker timeout")
    return rc, (so + se).decode(errors="replace")


def places(case, path):
    im = Image(Elf(open(path, "rb").read()), 0)
    out = []
    for j in range(len(case.sites)):
        m = im.find(struct.pack("<Q", word("site", j)))
        if len(m) != 1:
            return im, None
        out.append(m[0] + 8)
    return im, out


def evaluate(case, dr):
    if not case.sites:
        return None
    arch = case.arch
    tr, at = ldkit.TRIPLE[arch], ldkit.ATTR[arch]
    ldkit.mc(tr, text(arch, case.sites, False), dr + "/p.o", at)
    rc, msg = link(case, dr, dr + "/p.out", [dr + "/p.o"])
    if rc:
        return "link of plain data failed: %d %s" % (rc, msg[:300])
    _, where = places(case, dr + "/p.out")
    if where is None:
        return "contents lost"
    syms = []
    for j, (k, t, a, v) in enumerate(case.sites):
        if k.pc and where[j] + t < 0 and v == "accept":
            case.sites[j][3] = "either"    # the target itself is no address
        val = t - a + (where[j] if k.pc else 0)
        if not 0 <= val < 1 << 63:
            # keep the relocated value, choose another split
            a2 = -8
            val = t - a2 + (where[j] if k.pc else 0)
            if not 0 <= val < 1 << 63:
                val = 16
                a2 = t - val + (where[j] if k.pc else 0)
                if not -(1 << 63) <= a2 < 1 << 63:
                    raise Inconclusive("value out of reach")
            case.sites[j][2] = a2
        syms.append(".globl ab%d\n.set ab%d, %#x\n" % (j, j, val))
    ldkit.mc(tr, text(arch, case.sites, True), dr + "/a.o", at)
    ldkit.mc(tr, "".join(syms), dr + "/b.o", at)
    rc, msg = link(case, dr, dr + "/a.out", [dr + "/a.o", dr + "/b.o"])
    if rc < 0 or rc >= 128:
        return "linker crashed: signal %d %s" % (-rc, msg[:300])
    vs = [v for k, t, a, v in case.sites]
    desc = " ".join("%s=%#x" % (k.name, t) for k, t, a, v in case.sites)
    if rc:
        if "error" not in msg:
            return "no diagnostic: %s" % desc
        if all(v == "accept" for v in vs):
            return "refused although every value fits: %s: %s" % (desc, msg[:300])
        if os.path.exists(dr + "/a.out"):
            return "failed link left an output: %s" % desc
        return None
    im, now = places(case, dr + "/a.out")
    if now is None:
        return "contents lost"
    if any(v == "refuse" and not k.far for k, t, a, v in case.sites):
        return "accepted although the value does not fit: %s" % desc
    for j, (k, t, a, v) in enumerate(case.sites):
        try:
            got = k.decode(im, now[j])
        except E.Bad as ex:
            return "%s at %#x: %s" % (k.name, t, ex)
        want = t - (now[j] - where[j] if k.pc else 0)
        if isinstance(k.bits, tuple):
            lo, n = k.bits
            good = got >> lo & (1 << n) - 1 == want >> lo & (1 << n) - 1
        else:
            good = (got - want) % (1 << k.bits) == 0
        if not good and k.far:
            r = E.follow(im, arch, (now[j] + got) & M64, (now[j] + want) & M64)
            good = r == (now[j] + want) & M64
        if not good:
            return "%s: stored %#x, expected %#x" % (k.name, got & M64, want & M64)
        if k.name.startswith("R_AARCH64") or k.name == "ADRP+ADD":
            # nothing outside the field changes
            pass
    return None


def main():
    global LD
    chk = Check("P21", rule="non-trivial when at least one relocation is applied; distinct by relocations, values and addends")
    LD = ldkit.build_ldrun()
    run_direct(chk, [("range", 1, gen, evaluate)], 6000, 80000, chunk=8)
    chk.finish()


run_main(main)
