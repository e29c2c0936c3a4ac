"""Random link inputs for the three ELF targets and the model of what the linked
image must look like: every definition carries unique marker words, every
reference is followed in the loaded image and must arrive at the right word."""
import hashlib
import struct

from ldkit import Elf, Image, PF_R, PF_W, PF_X

M64 = (1 << 64) - 1


def word(*key):
    """marker word: unique, and no plausible instruction or address"""
    h = hashlib.sha256(repr(key).encode()).digest()
    return (int.from_bytes(h[:8], "little") | 0xA100000000000000) & 0xBFFFFFFFFFFFFFFF


class Bad(Exception):
    pass


# ------------------------------------------------------------------ reference forms
# A form emits assembly for a reference to sym+add and decodes the linked bytes to
# the address (or tp offset) the reference denotes. `where` is code or data,
# `abs` needs a fixed base, `tls` wants a thread-local target, `got`: no addend.

class Form:
    def __init__(self, name, where, emit, decode, abs=False, tls=False, noadd=False, align=1, code=False, local=True,
                 weak0=False, near=False, wr=False):
        self.name, self.where, self.emit, self.decode = name, where, emit, decode
        self.abs, self.tls, self.noadd, self.align, self.code, self.local = abs, tls, noadd, align, code, local
        self.weak0, self.near, self.wr = weak0, near, wr


def sa(s, a):
    return s if a == 0 else "%s%+d" % (s, a)


def rel32(im, a):
    return im.s32(a) + a + 4


def need(im, a, want, what):
    got = im.read(a, len(want))
    if got != want:
        raise Bad("%s: instruction bytes %s" % (what, im.read(a, 12).hex()))


def x86_gotload(im, a, load=b"\x48\x8b\x05", lea=b"\x48\x8d\x05", imm=b"\x48\xc7\xc0", what="got load"):
    b = im.read(a, len(load))
    n = len(load)
    if b == load:
        return im.u64(rel32(im, a + n))
    if b == lea:
        return rel32(im, a + n)
    if b == imm:
        return im.s32(a + n) & M64
    raise Bad("%s: instruction bytes %s" % (what, im.read(a, 12).hex()))


def x86_gotcall(im, a, op):
    b = im.read(a, 6)
    if b[0] == 0xff:
        return im.u64(rel32(im, a + 2))
    if op == "call":
        if b[:2] in (b"\x67\xe8", b"\x90\xe8"):
            return rel32(im, a + 2)
        if b[0] == 0xe8:
            return rel32(im, a + 1)
    else:
        if b[0] == 0xe9:
            return rel32(im, a + 1)
        if b[1] == 0xe9:
            return rel32(im, a + 2)
    raise Bad("got %s: instruction bytes %s" % (op, b.hex()))


def x86_gottpoff(im, a):
    b = im.read(a, 3)
    if b == b"\x48\x8b\x05":
        return im.u64(rel32(im, a + 3))
    if b == b"\x48\xc7\xc0":
        return im.s32(a + 3) & M64
    raise Bad("gottpoff: instruction bytes %s" % im.read(a, 12).hex())


def x86_tlsgd(im, a):
    b = im.read(a, 16)
    if b[:9] == bytes.fromhex("64488b042500000000"):
        if b[9:12] == bytes.fromhex("488d80"):
            return im.s32(a + 12) & M64
        if b[9:12] == bytes.fromhex("480305"):
            return im.u64(rel32(im, a + 12))
        if b[9:12] == bytes.fromhex("4881c0"):
            return im.s32(a + 12) & M64
    raise Bad("tlsgd: instruction bytes %s" % b.hex())


def x86_tlsdesc(im, a):
    b = im.read(a, 9)
    if b[7:9] == b"\x66\x90" and b[:3] == b"\x48\xc7\xc0":
        return im.s32(a + 3) & M64
    raise Bad("tlsdesc: instruction bytes %s" % b.hex())


def x86_tlsld(im, a):
    # lea x@tlsld(%rip),%rdi; call __tls_get_addr -> padded mov %fs:0,%rax ; then lea x@dtpoff(%rax),%rcx
    b = im.read(a, 19)
    if b[:8] == bytes.fromhex("31c064488b00482d") and b[12:15] == bytes.fromhex("488d88"):
        return im.s32(a + 15) - im.s32(a + 8) & M64
    i = b.find(bytes.fromhex("64488b042500000000"), 0, 12)
    if i < 0 or b[12:15] != bytes.fromhex("488d88"):
        raise Bad("tlsld: instruction bytes %s" % b.hex())
    return im.s32(a + 15) & M64


def op_bytes(prefix, f):
    def dec(im, a):
        need(im, a, prefix, "operand")
        return f(im, a + len(prefix))
    return dec


def x86_jump(im, a, near, short):
    if im.read(a, 1)[0] == short:    # resolved by the assembler
        return a + 2 + sext(im.read(a + 1, 1)[0], 8)
    need(im, a, near, "jump")
    return rel32(im, a + len(near))


AMD64 = [
    Form("abs64", "data", lambda s, a, u: ".quad %s" % sa(s, a), lambda im, a: im.u64(a), weak0=True, wr=True),
    Form("pc32", "data", lambda s, a, u: ".long %s-." % sa(s, a), lambda im, a: (im.s32(a) + a) & M64),
    Form("pc64", "data", lambda s, a, u: ".quad %s-." % sa(s, a), lambda im, a: (im.u64(a) + a) & M64),
    Form("abs32", "data", lambda s, a, u: ".long %s" % sa(s, a), lambda im, a: im.u32(a), abs=True, weak0=True),
    Form("gotpcrel", "data", lambda s, a, u: ".long %s@GOTPCREL+4\n.long 0" % s, lambda im, a: im.u64(im.s32(a) + a - 4),
         noadd=True, local=False),
    Form("lea", "code", lambda s, a, u: "leaq %s(%%rip), %%rdx" % sa(s, a), op_bytes(b"\x48\x8d\x15", rel32)),
    Form("mov_rip", "code", lambda s, a, u: "movl $0x12345678, %s(%%rip)" % sa(s, a),
         op_bytes(b"\xc7\x05", lambda im, a: (im.s32(a) + a + 8) & M64)),
    Form("got_mov", "code", lambda s, a, u: "movq %s@GOTPCREL(%%rip), %%rax" % s, x86_gotload, noadd=True, local=False, weak0=True),
    Form("got_mov_r9", "code", lambda s, a, u: "movq %s@GOTPCREL(%%rip), %%r9" % s,
         lambda im, a: x86_gotload(im, a, b"\x4c\x8b\x0d", b"\x4c\x8d\x0d", b"\x49\xc7\xc1"), noadd=True, local=False, weak0=True),
    Form("got_cmp", "code", lambda s, a, u: "cmpq %s@GOTPCREL(%%rip), %%rdx" % s,
         lambda im, a: x86_gotload(im, a, b"\x48\x3b\x15", b"\xff\xff\xff", b"\x48\x81\xfa"), noadd=True, local=False),
    Form("got_test", "code", lambda s, a, u: "testq %%rdx, %s@GOTPCREL(%%rip)" % s,
         lambda im, a: x86_gotload(im, a, b"\x48\x85\x15", b"\xff\xff\xff", b"\x48\xf7\xc2"), noadd=True, local=False),
    Form("got_call", "code", lambda s, a, u: "call *%s@GOTPCREL(%%rip)" % s, lambda im, a: x86_gotcall(im, a, "call"),
         noadd=True, local=False, code=True),
    Form("got_jmp", "code", lambda s, a, u: "jmp *%s@GOTPCREL(%%rip)" % s, lambda im, a: x86_gotcall(im, a, "jmp"),
         noadd=True, local=False, code=True),
    Form("call_plt", "code", lambda s, a, u: "call %s@PLT" % s, op_bytes(b"\xe8", rel32), noadd=True, code=True),
    Form("call", "code", lambda s, a, u: "call %s" % sa(s, a), op_bytes(b"\xe8", rel32), code=True),
    Form("jmp", "code", lambda s, a, u: "jmp %s" % sa(s, a), lambda im, a: x86_jump(im, a, b"\xe9", 0xeb), code=True),
    Form("jne", "code", lambda s, a, u: "jne %s" % sa(s, a), lambda im, a: x86_jump(im, a, b"\x0f\x85", 0x75), code=True),
    Form("movabs", "code", lambda s, a, u: "movabsq $%s, %%rbx" % sa(s, a), op_bytes(b"\x48\xbb", lambda im, a: im.u64(a)),
         abs=True, weak0=True),
    Form("mov32", "code", lambda s, a, u: "movl $%s, %%ebx" % sa(s, a), op_bytes(b"\xbb", lambda im, a: im.u32(a)), abs=True,
         weak0=True),
    Form("mov32s", "code", lambda s, a, u: "movq $%s, %%rbx" % sa(s, a),
         op_bytes(b"\x48\xc7\xc3", lambda im, a: im.s32(a) & M64), abs=True, weak0=True),
    Form("idx32s", "code", lambda s, a, u: "movq %s(,%%rcx,8), %%rbx" % sa(s, a),
         op_bytes(b"\x48\x8b\x1c\xcd", lambda im, a: im.s32(a) & M64), abs=True),
    Form("gotoff", "code", lambda s, a, u: "leaq _GLOBAL_OFFSET_TABLE_(%%rip), %%rcx\nmovabsq $%s@GOTOFF, %%rbx" % s,
         lambda im, a: (rel32(im, a + 3) + im.u64(a + 9)) & M64, noadd=True),
    Form("got64", "code", lambda s, a, u: "leaq _GLOBAL_OFFSET_TABLE_(%%rip), %%rcx\nmovabsq $%s@GOT, %%rbx" % s,
         lambda im, a: im.u64((rel32(im, a + 3) + im.u64(a + 9)) & M64), noadd=True, local=False, abs=True),
    Form("tpoff32", "code", lambda s, a, u: "leaq %s@TPOFF(%%rax), %%rbx" % sa(s, a) if a == 0 else "leaq %s@TPOFF%+d(%%rax), %%rbx" % (s, a),
         op_bytes(b"\x48\x8d\x98", lambda im, a: im.s32(a) & M64), tls=True),
    Form("tpoff64", "data", lambda s, a, u: ".quad %s@TPOFF" % s, lambda im, a: im.u64(a), tls=True, noadd=True),
    Form("gottpoff", "code", lambda s, a, u: "movq %s@GOTTPOFF(%%rip), %%rax" % s, x86_gottpoff, tls=True, noadd=True),
    Form("tlsgd", "code", lambda s, a, u: ".byte 0x66\nleaq %s@TLSGD(%%rip), %%rdi\n.value 0x6666\nrex64\ncall __tls_get_addr@PLT" % s,
         x86_tlsgd, tls=True, noadd=True),
    Form("tlsdesc", "code", lambda s, a, u: "leaq %s@TLSDESC(%%rip), %%rax\ncall *%s@TLSCALL(%%rax)" % (s, s), x86_tlsdesc, tls=True,
         noadd=True),
    Form("tlsld", "code", lambda s, a, u: "leaq %s@TLSLD(%%rip), %%rdi\ncall __tls_get_addr@PLT\nleaq %s@DTPOFF(%%rax), %%rcx" % (s, s),
         x86_tlsld, tls=True, noadd=True),
]


def sext(v, n):
    return v - (1 << n) if v >> n - 1 & 1 else v


def a64_adrp(im, a, reg):
    w = im.u32(a)
    if w & 0x9f000000 != 0x90000000 or w & 31 != reg:
        raise Bad("adrp: instruction %08x" % w)
    return (a & ~0xfff) + (sext((w >> 5 & 0x7ffff) << 2 | w >> 29 & 3, 21) << 12) & M64


def a64_addlo(im, a, base):
    w = im.u32(a)
    if w & 0xffc00000 != 0x91000000:
        raise Bad("add lo12: instruction %08x" % w)
    return base + (w >> 10 & 0xfff)


def a64_ldst(im, a, op, sh, base):
    w = im.u32(a)
    if w & 0xffc00000 != op:
        raise Bad("load/store lo12: instruction %08x" % w)
    return base + ((w >> 10 & 0xfff) << sh)


def a64_b26(im, a, op):
    w = im.u32(a)
    if w & 0xfc000000 != op:
        raise Bad("branch: instruction %08x" % w)
    return a + (sext(w & 0x3ffffff, 26) << 2)


def a64_imm19(im, a, mask, op):
    w = im.u32(a)
    if w & mask != op:
        raise Bad("imm19: instruction %08x" % w)
    return a + (sext(w >> 5 & 0x7ffff, 19) << 2)


def a64_adr(im, a):
    w = im.u32(a)
    if w & 0x9f000000 != 0x10000000:
        raise Bad("adr: instruction %08x" % w)
    return a + sext((w >> 5 & 0x7ffff) << 2 | w >> 29 & 3, 21)


def a64_tstbr(im, a):
    w = im.u32(a)
    if w & 0x7f000000 != 0x36000000:
        raise Bad("tbz: instruction %08x" % w)
    return a + (sext(w >> 5 & 0x3fff, 14) << 2)


def a64_movw(im, a):
    """movz/movn/movk sequence building a value; stops at the first other instruction"""
    v, n = 0, 0
    while n < 4:
        w = im.u32(a + 4 * n)
        op = w & 0xff800000
        hw, imm = w >> 21 & 3, w >> 5 & 0xffff
        if op == 0xd2800000 and n == 0:
            v = imm << 16 * hw
        elif op == 0x92800000 and n == 0:
            v = ~(imm << 16 * hw) & M64
        elif op == 0xf2800000 and n > 0:
            v = v & ~(0xffff << 16 * hw) | imm << 16 * hw
        else:
            break
        n += 1
    if n == 0:
        raise Bad("movz: instruction %08x" % im.u32(a))
    return v


def a64_tprel(im, a):
    # add x0,x0,#hi,lsl 12 ; add x0,x0,#lo
    w0, w1 = im.u32(a), im.u32(a + 4)
    if w0 & 0xffc00000 != 0x91400000 or w1 & 0xffc00000 != 0x91000000:
        raise Bad("tprel add: instructions %08x %08x" % (w0, w1))
    return ((w0 >> 10 & 0xfff) << 12) + (w1 >> 10 & 0xfff)


def a64_tlsdesc(im, a):
    # relaxed to nop; nop?; movz; movk in some order: evaluate the four instructions
    v = None
    for k in range(4):
        w = im.u32(a + 4 * k)
        if w == 0xd503201f:
            continue
        op, hw, imm = w & 0xff800000, w >> 21 & 3, w >> 5 & 0xffff
        if w & 31 != 0:
            raise Bad("tlsdesc: instruction %08x" % w)
        if op == 0xd2800000:
            v = imm << 16 * hw
        elif op == 0xf2800000 and v is not None:
            v = v & ~(0xffff << 16 * hw) | imm << 16 * hw
        else:
            raise Bad("tlsdesc: instruction %08x" % w)
    if v is None:
        raise Bad("tlsdesc: no value built")
    return v


def a64_got(im, a):
    p = a64_adrp(im, a, 0)
    w = im.u32(a + 4)
    if w & 0xffc00000 == 0xf9400000:
        return im.u64(p + ((w >> 10 & 0xfff) << 3))
    if w & 0xffc00000 == 0x91000000:    # relaxed
        return p + (w >> 10 & 0xfff)
    raise Bad("got load: instruction %08x" % w)


def a64_tlsgd(im, a):
    """address of the two-word GOT entry -> (module, offset) as tp-independent pair"""
    p = a64_adrp(im, a, 0)
    e = a64_addlo(im, a + 4, p)
    if im.u64(e) != 1:
        raise Bad("tlsgd: module id %d" % im.u64(e))
    return ("dtp", im.u64(e + 8))


ARM64 = [
    Form("abs64", "data", lambda s, a, u: ".quad %s" % sa(s, a), lambda im, a: im.u64(a), weak0=True, wr=True),
    Form("prel32", "data", lambda s, a, u: ".word %s-." % sa(s, a), lambda im, a: (im.s32(a) + a) & M64),
    Form("prel64", "data", lambda s, a, u: ".quad %s-." % sa(s, a), lambda im, a: (im.u64(a) + a) & M64),
    Form("abs32", "data", lambda s, a, u: ".word %s" % sa(s, a), lambda im, a: im.u32(a), abs=True, weak0=True),
    Form("adrp_add", "code", lambda s, a, u: "adrp x3, %s\nadd x3, x3, :lo12:%s" % (sa(s, a), sa(s, a)),
         lambda im, a: a64_addlo(im, a + 4, a64_adrp(im, a, 3))),
    Form("adrp_ldr8", "code", lambda s, a, u: "adrp x3, %s\nldr x4, [x3, :lo12:%s]" % (sa(s, a), sa(s, a)),
         lambda im, a: a64_ldst(im, a + 4, 0xf9400000, 3, a64_adrp(im, a, 3)), align=8),
    Form("adrp_str4", "code", lambda s, a, u: "adrp x3, %s\nstr w4, [x3, :lo12:%s]" % (sa(s, a), sa(s, a)),
         lambda im, a: a64_ldst(im, a + 4, 0xb9000000, 2, a64_adrp(im, a, 3)), align=4),
    Form("adrp_ldrh", "code", lambda s, a, u: "adrp x3, %s\nldrh w4, [x3, :lo12:%s]" % (sa(s, a), sa(s, a)),
         lambda im, a: a64_ldst(im, a + 4, 0x79400000, 1, a64_adrp(im, a, 3)), align=2),
    Form("adrp_ldrb", "code", lambda s, a, u: "adrp x3, %s\nldrb w4, [x3, :lo12:%s]" % (sa(s, a), sa(s, a)),
         lambda im, a: a64_ldst(im, a + 4, 0x39400000, 0, a64_adrp(im, a, 3))),
    Form("adrp_ldrq", "code", lambda s, a, u: "adrp x3, %s\nldr q4, [x3, :lo12:%s]" % (s, s),
         lambda im, a: a64_ldst(im, a + 4, 0x3dc00000, 4, a64_adrp(im, a, 3)), align=16, noadd=True),
    Form("bl", "code", lambda s, a, u: "bl %s" % sa(s, a), lambda im, a: a64_b26(im, a, 0x94000000), code=True),
    Form("b", "code", lambda s, a, u: "b %s" % sa(s, a), lambda im, a: a64_b26(im, a, 0x14000000), code=True),
    Form("adr", "code", lambda s, a, u: "adr x5, %s" % sa(s, a), a64_adr, near=True),
    Form("ldrlit", "code", lambda s, a, u: "ldr x5, %s" % sa(s, a), lambda im, a: a64_imm19(im, a, 0xff000000, 0x58000000),
         align=4, near=True),
    Form("condbr", "code", lambda s, a, u: "b.ne %s" % sa(s, a), lambda im, a: a64_imm19(im, a, 0xff00001f, 0x54000001), code=True,
         near=True),
    Form("cbz", "code", lambda s, a, u: "cbz x7, %s" % sa(s, a), lambda im, a: a64_imm19(im, a, 0xff00001f, 0xb4000007), code=True,
         near=True),
    Form("got", "code", lambda s, a, u: "adrp x0, :got:%s\nldr x0, [x0, :got_lo12:%s]" % (s, s), a64_got, noadd=True, local=False,
         weak0=True),
    Form("movw", "code", lambda s, a, u: "movz x6, #:abs_g3:%s\nmovk x6, #:abs_g2_nc:%s\nmovk x6, #:abs_g1_nc:%s\n"
         "movk x6, #:abs_g0_nc:%s" % ((sa(s, a),) * 4), a64_movw, abs=True, weak0=True),
    Form("movw2", "code", lambda s, a, u: "movz x6, #:abs_g1:%s\nmovk x6, #:abs_g0_nc:%s\nnop" % ((sa(s, a),) * 2), a64_movw, abs=True,
         weak0=True),
    Form("tprel", "code", lambda s, a, u: "add x0, x0, :tprel_hi12:%s\nadd x0, x0, :tprel_lo12_nc:%s" % (sa(s, a), sa(s, a)),
         a64_tprel, tls=True),
    Form("gottprel", "code", lambda s, a, u: "adrp x0, :gottprel:%s\nldr x0, [x0, :gottprel_lo12:%s]" % (s, s),
         lambda im, a: a64_gottprel(im, a), tls=True, noadd=True),
    Form("tlsdesc", "code", lambda s, a, u: "adrp x0, :tlsdesc:%s\nldr x1, [x0, :tlsdesc_lo12:%s]\nadd x0, x0, :tlsdesc_lo12:%s\n"
         ".tlsdesccall %s\nblr x1" % (s, s, s, s), a64_tlsdesc, tls=True, noadd=True),
]


def a64_gottprel(im, a):
    w = im.u32(a)
    if w & 0x9f000000 == 0x90000000:
        p = a64_adrp(im, a, 0)
        w1 = im.u32(a + 4)
        if w1 & 0xffc00000 != 0xf9400000:
            raise Bad("gottprel: instruction %08x" % w1)
        return im.u64(p + ((w1 >> 10 & 0xfff) << 3))
    return a64_movw(im, a)


def rv_u(im, a, op):
    w = im.u32(a)
    if w & 0x7f != op:
        raise Bad("u-type: instruction %08x" % w)
    return sext(w & 0xfffff000, 32)


def rv_i(im, a, op, f3):
    w = im.u32(a)
    if w & 0x7f != op or w >> 12 & 7 != f3:
        raise Bad("i-type: instruction %08x" % w)
    return sext(w >> 20, 12)


def rv_s(im, a):
    w = im.u32(a)
    if w & 0x7f != 0x23:
        raise Bad("s-type: instruction %08x" % w)
    return sext(w >> 25 << 5 | w >> 7 & 31, 12)


def rv_j(im, a):
    w = im.u32(a)
    if w & 0x7f != 0x6f:
        raise Bad("jal: instruction %08x" % w)
    return a + sext((w >> 31) << 20 | (w >> 12 & 0xff) << 12 | (w >> 20 & 1) << 11 | (w >> 21 & 0x3ff) << 1, 21)


def rv_b(im, a):
    w = im.u32(a)
    if w & 0x7f != 0x63:
        raise Bad("branch: instruction %08x" % w)
    t = a + sext((w >> 31) << 12 | (w >> 7 & 1) << 11 | (w >> 25 & 0x3f) << 5 | (w >> 8 & 15) << 1, 13)
    if w >> 12 & 7 == 1 and t == a + 8:
        # the assembler's long form: inverted branch over a jump
        return rv_j(im, a + 4)
    return t


def rv_cj(im, a):
    w = im.u16(a)
    if w & 0xe003 != 0xa001:
        raise Bad("c.j: instruction %04x" % w)
    b = lambda k: w >> k & 1
    return a + sext(b(12) << 11 | b(8) << 10 | b(10) << 9 | b(9) << 8 | b(6) << 7 | b(7) << 6 | b(2) << 5 | b(11) << 4 |
                    b(5) << 3 | b(4) << 2 | b(3) << 1, 12)


def rv_cb(im, a):
    w = im.u16(a)
    if w & 0xe003 != 0xc001:
        raise Bad("c.beqz: instruction %04x" % w)
    b = lambda k: w >> k & 1
    return a + sext(b(12) << 8 | b(6) << 7 | b(5) << 6 | b(2) << 5 | b(11) << 4 | b(10) << 3 | b(4) << 2 | b(3) << 1, 9)


def rv_call(im, a):
    return a + rv_u(im, a, 0x17) + rv_i(im, a + 4, 0x67, 0)


RISCV64 = [
    Form("abs64", "data", lambda s, a, u: ".quad %s" % sa(s, a), lambda im, a: im.u64(a), weak0=True, wr=True),
    Form("pcrel32", "data", lambda s, a, u: ".word %s-." % sa(s, a), lambda im, a: (im.s32(a) + a) & M64),
    Form("sub64", "data", lambda s, a, u: ".Ld%s: .quad %s-.Ld%s" % (u, sa(s, a), u), lambda im, a: (im.u64(a) + a) & M64),
    Form("abs32", "data", lambda s, a, u: ".word %s" % sa(s, a), lambda im, a: im.u32(a), abs=True, weak0=True),
    Form("lla", "code", lambda s, a, u: ".Lp%s: auipc t1, %%pcrel_hi(%s)\naddi t1, t1, %%pcrel_lo(.Lp%s)" % (u, sa(s, a), u),
         lambda im, a: a + rv_u(im, a, 0x17) + rv_i(im, a + 4, 0x13, 0)),
    Form("pcrel_ld", "code", lambda s, a, u: ".Lp%s: auipc t1, %%pcrel_hi(%s)\nld t1, %%pcrel_lo(.Lp%s)(t1)" % (u, sa(s, a), u),
         lambda im, a: a + rv_u(im, a, 0x17) + rv_i(im, a + 4, 0x03, 3)),
    Form("pcrel_sd", "code", lambda s, a, u: ".Lp%s: auipc t1, %%pcrel_hi(%s)\nsd t2, %%pcrel_lo(.Lp%s)(t1)" % (u, sa(s, a), u),
         lambda im, a: a + rv_u(im, a, 0x17) + rv_s(im, a + 4)),
    Form("lui", "code", lambda s, a, u: "lui t1, %%hi(%s)\naddi t1, t1, %%lo(%s)" % (sa(s, a), sa(s, a)),
         lambda im, a: rv_u(im, a, 0x37) + rv_i(im, a + 4, 0x13, 0), abs=True, weak0=True),
    Form("lui_sw", "code", lambda s, a, u: "lui t1, %%hi(%s)\nsw t2, %%lo(%s)(t1)" % (sa(s, a), sa(s, a)),
         lambda im, a: rv_u(im, a, 0x37) + rv_s(im, a + 4), abs=True, weak0=True),
    Form("got", "code", lambda s, a, u: ".Lp%s: auipc t1, %%got_pcrel_hi(%s)\nld t1, %%pcrel_lo(.Lp%s)(t1)" % (u, s, u),
         lambda im, a: im.u64(a + rv_u(im, a, 0x17) + rv_i(im, a + 4, 0x03, 3)), noadd=True, local=False, weak0=True),
    Form("call", "code", lambda s, a, u: "call %s" % s, rv_call, code=True, noadd=True),
    Form("jal", "code", lambda s, a, u: "jal %s" % s, rv_j, code=True, near=True, noadd=True),
    Form("beq", "code", lambda s, a, u: ".option norvc\nbeq t0, t1, %s\n.option rvc" % s, rv_b, code=True, near=True, noadd=True),
    Form("tprel", "code", lambda s, a, u: "lui t1, %%tprel_hi(%s)\nadd t1, t1, tp, %%tprel_add(%s)\naddi t1, t1, %%tprel_lo(%s)" %
         ((sa(s, a),) * 3), lambda im, a: rv_u(im, a, 0x37) + rv_i(im, a + 8, 0x13, 0) & M64, tls=True),
    Form("tprel_s", "code", lambda s, a, u: "lui t1, %%tprel_hi(%s)\nadd t1, t1, tp, %%tprel_add(%s)\nsd t2, %%tprel_lo(%s)(t1)" %
         ((sa(s, a),) * 3), lambda im, a: rv_u(im, a, 0x37) + rv_s(im, a + 8) & M64, tls=True),
    Form("tls_ie", "code", lambda s, a, u: ".Lp%s: auipc t1, %%tls_ie_pcrel_hi(%s)\nld t1, %%pcrel_lo(.Lp%s)(t1)" % (u, s, u),
         lambda im, a: im.u64(a + rv_u(im, a, 0x17) + rv_i(im, a + 4, 0x03, 3)), tls=True, noadd=True),
    Form("tls_gd", "code", lambda s, a, u: ".Lp%s: auipc t1, %%tls_gd_pcrel_hi(%s)\naddi t1, t1, %%pcrel_lo(.Lp%s)" % (u, s, u),
         lambda im, a: rv_tlsgd(im, a), tls=True, noadd=True),
]


def rv_tlsgd(im, a):
    e = a + rv_u(im, a, 0x17) + rv_i(im, a + 4, 0x13, 0)
    if im.u64(e) != 1:
        raise Bad("tls gd: module id %d" % im.u64(e))
    return ("dtp", im.u64(e + 8) + 0x800 & M64)


# relocations that the static PIE policy rejects with a diagnostic
for _forms, _names in ((AMD64, "pc64 got64"), (ARM64, "ldrlit condbr cbz"), (RISCV64, "jal beq pcrel32 sub64 tls_ie tls_gd")):
    for _f in _forms:
        if _f.name in _names.split():
            _f.abs = True

FORMS = {"amd64": AMD64, "arm64": ARM64, "riscv64": RISCV64}
MACHINE = {"amd64": 62, "arm64": 183, "riscv64": 243}


def x86_call_abs(im, a):
    return None


def follow(im, arch, a, want):
    """the address reached by executing a linker made stub at a; None if there is none"""
    try:
        if arch == "amd64":
            b = im.read(a, 2)
            n = 0
            if im.read(a, 4) == b"\xf3\x0f\x1e\xfa":
                n = 4
            b = im.read(a + n, 3)
            if b[:2] == b"\xff\x25":
                return im.u64(rel32(im, a + n + 2))
            if b == b"\xf2\xff\x25":
                return im.u64(rel32(im, a + n + 3))
            return None
        if arch == "arm64":
            w = im.u32(a)
            if w & 0x9f00001f == 0x90000010:    # adrp x16
                p = a64_adrp(im, a, 16)
                w1 = im.u32(a + 4)
                if w1 & 0xffc003ff == 0x91000210 and im.u32(a + 8) == 0xd61f0200:
                    return p + (w1 >> 10 & 0xfff)
                if w1 & 0xffc003e0 == 0xf9400200:
                    return im.u64(p + ((w1 >> 10 & 0xfff) << 3))
            return None
        w = im.u32(a)
        if w & 0xfff == 0xe17:      # auipc t3
            return im.u64(a + rv_u(im, a, 0x17) + rv_i(im, a + 4, 0x03, 3))
        return None
    except (Bad, ValueError):
        return None
