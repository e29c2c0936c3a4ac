/* Interpreter for the integer and floating point subset of AArch64 and RV64IMFD that compilers emit.
 * emu FILE SYMBOL: loads a static ELF executable and calls SYMBOL. The instruction `hlt #n` (AArch64) or the custom-0
 * word 0x0b|n<<7 (RISC-V) is a call of host function n followed by whatever comes next in memory. */
#include <elf.h>
#include <fenv.h>
#include <math.h>
#include <stdarg.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>

typedef uint64_t u64;
typedef int64_t i64;
typedef uint32_t u32;
typedef int32_t i32;

#define MEM (96u << 20)
#define STACK_TOP (MEM - 4096)
#define RETADDR 0x10
static uint8_t *mem;
static u64 heap, lowest;
static int sp; /* number of the stack pointer */
static u64 below; /* address below the stack pointer that the instruction has accessed */
static u64 pc, steps;
static u64 x[33]; /* AArch64: 31 is sp, 32 is scratch zero; RISC-V: 0 is zero */
static u64 v[32][2];
static int n, z, c, o;

static void stop(const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    fflush(stdout);
    printf("#STOP ");
    vprintf(f, ap);
    printf(" at pc %#lx\n", pc);
    fflush(stdout);
    exit(3);
}

static void *at(u64 a, unsigned s) {
    if (a < lowest || a + s > MEM || a + s < a) stop("bad access to %#lx", a);
    if (a >= MEM / 2 && a < x[sp]) below = a;
    return mem + a;
}
static u64 ld(u64 a, unsigned s) {
    u64 r = 0;
    memcpy(&r, at(a, s), s);
    return r;
}
static void st(u64 a, u64 w, unsigned s) { memcpy(at(a, s), &w, s); }
static i64 sx(u64 a, unsigned bits) { return bits >= 64 ? (i64) a : (i64) (a << (64 - bits)) >> (64 - bits); }
static float tof(u64 b) {
    float f;
    u32 w = (u32) b;
    memcpy(&f, &w, 4);
    return f;
}
static double tod(u64 b) {
    double f;
    memcpy(&f, &b, 8);
    return f;
}
static u64 fromf(float f) {
    u32 w;
    memcpy(&w, &f, 4);
    return w;
}
static u64 fromd(double f) {
    u64 w;
    memcpy(&w, &f, 8);
    return w;
}

/* ------------------------------------------------------------------ host functions */
enum { H_I8, H_U8, H_I16, H_U16, H_I32, H_U32, H_I64, H_U64, H_BOOL, H_F32, H_F64, H_NL, H_CASE, H_MOVE, H_SET, H_ALLOC, H_OTHER };
static int first = 1;
static void item(const char *f, ...) {
    va_list ap;
    va_start(ap, f);
    if (!first) putchar(' ');
    first = 0;
    vprintf(f, ap);
}
/* arg: integer arguments, fa: first floating argument; returns the result */
static u64 host(unsigned h, u64 *arg, u64 fa) {
    switch (h) {
        case H_I8: item("%d", (int) (int8_t) arg[0]); break;
        case H_U8: item("%d", (int) (uint8_t) arg[0]); break;
        case H_I16: item("%d", (int) (int16_t) arg[0]); break;
        case H_U16: item("%d", (int) (uint16_t) arg[0]); break;
        case H_I32: item("%d", (int) arg[0]); break;
        case H_U32: item("%u", (u32) arg[0]); break;
        case H_I64: item("%ld", (i64) arg[0]); break;
        case H_U64: item("%lu", arg[0]); break;
        case H_BOOL: item("%s", (uint8_t) arg[0] == 1 ? "true" : (uint8_t) arg[0] == 0 ? "false" : "bad bool"); break;
        case H_F32: item("%lu", tof(fa) != tof(fa) ? 1UL : fa & 0xffffffff); break;
        case H_F64: item("%lu", tod(fa) != tod(fa) ? 1UL : fa); break;
        case H_NL: putchar('\n'); first = 1; break;
        case H_CASE:
            if ((i64) arg[0] < 0) printf("#END\n");
            else printf("#CASE %ld\n", (i64) arg[0]);
            fflush(stdout);
            first = 1;
            steps = 0;
            break;
        case H_MOVE: memmove(at(arg[0], arg[2]), at(arg[1], arg[2]), arg[2]); return arg[0];
        case H_SET: memset(at(arg[0], arg[2]), (int) arg[1], arg[2]); return arg[0];
        case H_ALLOC: {
            u64 a = heap;
            heap += 8192;
            if (heap > MEM / 2) stop("heap exhausted");
            return a;
        }
        default: stop("call of an unmodelled runtime function");
    }
    return 0xdeadbeefcafe0000;
}

/* ------------------------------------------------------------------ AArch64 */
static u64 R(unsigned i, int sf) { return i == 31 ? 0 : sf ? x[i] : (u32) x[i]; }
static u64 RSP(unsigned i, int sf) { return sf ? x[i] : (u32) x[i]; }
static void W(unsigned i, int sf, u64 a) {
    if (i != 31) x[i] = sf ? a : (u32) a;
}
static void WSP(unsigned i, int sf, u64 a) { x[i] = sf ? a : (u32) a; }
static u64 addc(u64 a, u64 b, int cin, int sf, int set) {
    if (sf) {
        __uint128_t u = (__uint128_t) a + b + cin;
        u64 r = (u64) u;
        if (set) n = r >> 63, z = r == 0, c = (int) (u >> 64), o = (~(a ^ b) & (a ^ r)) >> 63;
        return r;
    }
    a = (u32) a, b = (u32) b;
    u64 u = a + b + cin;
    u32 r = (u32) u;
    if (set) n = r >> 31, z = r == 0, c = (int) (u >> 32), o = (~((u32) a ^ (u32) b) & ((u32) a ^ r)) >> 31;
    return r;
}
static int cond(unsigned k) {
    int r;
    switch (k >> 1) {
        case 0: r = z; break;
        case 1: r = c; break;
        case 2: r = n; break;
        case 3: r = o; break;
        case 4: r = c && !z; break;
        case 5: r = n == o; break;
        case 6: r = n == o && !z; break;
        default: return 1;
    }
    return k & 1 ? !r : r;
}
static u64 shifted(u64 a, unsigned type, unsigned k, int sf) {
    unsigned w = sf ? 64 : 32;
    k %= w;
    if (!sf) a = (u32) a;
    u64 r;
    switch (type) {
        case 0: r = a << k; break;
        case 1: r = a >> k; break;
        case 2: r = (u64) (sx(a, w) >> k); break;
        default: r = k ? a >> k | a << (w - k) : a; break;
    }
    return sf ? r : (u32) r;
}
static u64 extended(u64 a, unsigned opt, unsigned k) {
    switch (opt) {
        case 0: a = (uint8_t) a; break;
        case 1: a = (uint16_t) a; break;
        case 2: a = (u32) a; break;
        case 4: a = (u64) (i64) (int8_t) a; break;
        case 5: a = (u64) (i64) (int16_t) a; break;
        case 6: a = (u64) (i64) (i32) a; break;
    }
    return a << k;
}
static u64 ror64(u64 a, unsigned k, unsigned w) {
    u64 m = w == 64 ? ~0ULL : (1ULL << w) - 1;
    a &= m;
    k %= w;
    return k ? (a >> k | a << (w - k)) & m : a;
}
/* DecodeBitMasks */
static int bitmask(unsigned N, unsigned imms, unsigned immr, int sf, u64 *wm, u64 *tm) {
    unsigned t = N << 6 | (~imms & 0x3f);
    int len = -1;
    for (int i = 6; i >= 0; i--)
        if (t >> i & 1) {
            len = i;
            break;
        }
    if (len < 1 || (!sf && N)) return 0;
    unsigned lv = (1u << len) - 1, S = imms & lv, Rr = immr & lv, e = 1u << len;
    unsigned d = (S - Rr) & lv;
    u64 we = S == 63 ? ~0ULL : (1ULL << (S + 1)) - 1, te = d == 63 ? ~0ULL : (1ULL << (d + 1)) - 1;
    we = ror64(we, Rr, e);
    u64 a = 0, b = 0;
    for (unsigned i = 0; i < 64; i += e) a |= we << i, b |= te << i;
    *wm = sf ? a : (u32) a;
    *tm = sf ? b : (u32) b;
    return 1;
}
static void vset(unsigned i, u64 a) { v[i][0] = a, v[i][1] = 0; }
static i64 satd(double d, int bits, int uns) {
    if (d != d) return 0;
    d = trunc(d);
    if (uns) {
        double hi = bits == 64 ? 18446744073709551616.0 : 4294967296.0;
        if (d <= 0) return 0;
        if (d >= hi) return bits == 64 ? -1 : (i64) 0xffffffff;
        return (i64) (u64) d;
    }
    double hi = bits == 64 ? 9223372036854775808.0 : 2147483648.0;
    if (d >= hi) return bits == 64 ? INT64_MAX : INT32_MAX;
    if (d < -hi) return bits == 64 ? INT64_MIN : (i64) INT32_MIN;
    return (i64) d;
}
static void fcmp(double a, double b) {
    if (a != a || b != b) n = 0, z = 0, c = 1, o = 1;
    else if (a == b) n = 0, z = 1, c = 1, o = 0;
    else if (a < b) n = 1, z = 0, c = 0, o = 0;
    else n = 0, z = 0, c = 1, o = 0;
}
static double vfpimm(unsigned b) {
    double m = (16 + (b & 15)) / 16.0;
    int e = (b >> 4 & 7) ^ 4;
    m = ldexp(m, e - 3);
    return b & 0x80 ? -m : m;
}
#define B(hi, lo) (i >> (lo) & ((2u << ((hi) - (lo))) - 1))
static void unknown(u32 i) { stop("unknown instruction %08x", i); }

static void a64(void) {
    u32 i = (u32) ld(pc, 4);
    u64 next = pc + 4;
    unsigned rd = B(4, 0), rn = B(9, 5), rm = B(20, 16), ra = B(14, 10);
    int sf = i >> 31;
    if ((i & 0xffe0001f) == 0xd4400000) { /* hlt */
        u64 r = host(B(20, 5), x, v[0][0]);
        for (int k = 0; k < 19; k++) x[k] = 0x5ca1ab1e00000000ULL + k * 0x01010101;
        for (int k = 0; k < 32; k++)
            if (k < 8 || k > 15) v[k][0] = 0x7ff4000000000000ULL + k, v[k][1] = k;
        n = z = c = o = 0;
        x[0] = r;
    } else if (i == 0xd503201f) { /* nop */
    } else if ((i & 0x1f000000) == 0x10000000) { /* adr, adrp */
        i64 imm = sx((u64) B(23, 5) << 2 | B(30, 29), 21);
        W(rd, 1, sf ? (pc & ~0xfffULL) + ((u64) imm << 12) : pc + imm);
    } else if ((i & 0x1f800000) == 0x11000000) { /* add/sub immediate */
        u64 imm = (u64) B(21, 10) << (i >> 22 & 1 ? 12 : 0), a = RSP(rn, sf);
        int sub = i >> 30 & 1, set = i >> 29 & 1;
        u64 r = sub ? addc(a, ~imm, 1, sf, set) : addc(a, imm, 0, sf, set);
        if (set) W(rd, sf, r);
        else WSP(rd, sf, r);
    } else if ((i & 0x1f800000) == 0x12000000) { /* logical immediate */
        u64 wm, tm, a = R(rn, sf), r;
        if (!bitmask(i >> 22 & 1, B(15, 10), B(21, 16), sf, &wm, &tm)) unknown(i);
        switch (B(30, 29)) {
            case 0: r = a & wm; break;
            case 1: r = a | wm; break;
            case 2: r = a ^ wm; break;
            default: r = a & wm; n = r >> (sf ? 63 : 31) & 1, z = r == 0, c = o = 0; break;
        }
        if (B(30, 29) == 3) W(rd, sf, r);
        else WSP(rd, sf, r);
    } else if ((i & 0x1f800000) == 0x12800000) { /* mov wide */
        unsigned sh = B(22, 21) * 16;
        u64 imm = (u64) B(20, 5) << sh;
        if (!sf && sh > 16) unknown(i);
        switch (B(30, 29)) {
            case 0: W(rd, sf, ~imm); break;
            case 2: W(rd, sf, imm); break;
            case 3: W(rd, sf, (R(rd, sf) & ~(0xffffULL << sh)) | imm); break;
            default: unknown(i);
        }
    } else if ((i & 0x1f800000) == 0x13000000) { /* bitfield */
        u64 wm, tm, a = R(rn, sf), dst = R(rd, sf);
        unsigned immr = B(21, 16), imms = B(15, 10), w = sf ? 64 : 32;
        if ((int) (i >> 22 & 1) != sf || !bitmask(i >> 22 & 1, imms, immr, sf, &wm, &tm)) unknown(i);
        u64 bot = ror64(a, immr, w) & wm, top;
        switch (B(30, 29)) {
            case 0:
                top = a >> imms & 1 ? ~0ULL : 0;
                W(rd, sf, (top & ~tm) | (bot & tm));
                break;
            case 1: W(rd, sf, (dst & ~tm) | (((dst & ~wm) | bot) & tm)); break;
            case 2: W(rd, sf, bot & tm); break;
            default: unknown(i);
        }
    } else if ((i & 0x1fa00000) == 0x13800000) { /* extr */
        unsigned k = B(15, 10), w = sf ? 64 : 32;
        u64 a = R(rn, sf), b = R(rm, sf);
        W(rd, sf, k ? b >> k | a << (w - k) : b);
    } else if ((i & 0x7c000000) == 0x14000000) { /* b, bl */
        if (sf) x[30] = next;
        next = pc + (sx(B(25, 0), 26) << 2);
    } else if ((i & 0xff000010) == 0x54000000) { /* b.cond */
        if (cond(rd & 15)) next = pc + (sx(B(23, 5), 19) << 2);
    } else if ((i & 0x7e000000) == 0x34000000) { /* cbz */
        if ((R(rd, sf) == 0) != (i >> 24 & 1)) next = pc + (sx(B(23, 5), 19) << 2);
    } else if ((i & 0x7e000000) == 0x36000000) { /* tbz */
        unsigned b = (unsigned) sf << 5 | B(23, 19);
        if ((R(rd, 1) >> b & 1) == (i >> 24 & 1)) next = pc + (sx(B(18, 5), 14) << 2);
    } else if ((i & 0xff9ffc1f) == 0xd61f0000) { /* br, blr, ret */
        u64 t = R(rn, 1);
        if (B(22, 21) == 1) x[30] = next;
        if (B(22, 21) == 3) unknown(i);
        next = t;
    } else if ((i & 0x1f000000) == 0x0a000000) { /* logical shifted */
        u64 a = R(rn, sf), b = shifted(R(rm, sf), B(23, 22), B(15, 10), sf), r;
        if (!sf && B(15, 10) > 31) unknown(i);
        if (i >> 21 & 1) b = ~b;
        switch (B(30, 29)) {
            case 0: r = a & b; break;
            case 1: r = a | b; break;
            case 2: r = a ^ b; break;
            default:
                r = a & b;
                if (!sf) r = (u32) r;
                n = r >> (sf ? 63 : 31) & 1, z = r == 0, c = o = 0;
        }
        W(rd, sf, r);
    } else if ((i & 0x1f200000) == 0x0b000000) { /* add/sub shifted */
        if (B(23, 22) == 3 || (!sf && B(15, 10) > 31)) unknown(i);
        u64 b = shifted(R(rm, sf), B(23, 22), B(15, 10), sf), a = R(rn, sf);
        int set = i >> 29 & 1;
        W(rd, sf, i >> 30 & 1 ? addc(a, ~b, 1, sf, set) : addc(a, b, 0, sf, set));
    } else if ((i & 0x1fe00000) == 0x0b200000) { /* add/sub extended */
        if (B(12, 10) > 4) unknown(i);
        u64 b = extended(R(rm, 1), B(15, 13), B(12, 10)), a = RSP(rn, sf);
        int set = i >> 29 & 1;
        u64 r = i >> 30 & 1 ? addc(a, ~b, 1, sf, set) : addc(a, b, 0, sf, set);
        if (set) W(rd, sf, r);
        else WSP(rd, sf, r);
    } else if ((i & 0x1fe0fc00) == 0x1a000000) { /* adc, sbc */
        u64 a = R(rn, sf), b = R(rm, sf);
        W(rd, sf, addc(a, i >> 30 & 1 ? ~b : b, c, sf, i >> 29 & 1));
    } else if ((i & 0x3fe00010) == 0x3a400000 && !(i >> 10 & 1)) { /* ccmp, ccmn */
        u64 a = R(rn, sf), b = i >> 11 & 1 ? rm : R(rm, sf);
        if (cond(B(15, 12))) addc(a, i >> 30 & 1 ? ~b : b, i >> 30 & 1, sf, 1);
        else n = i >> 3 & 1, z = i >> 2 & 1, c = i >> 1 & 1, o = i & 1;
    } else if ((i & 0x3fe00800) == 0x1a800000) { /* csel family */
        u64 a = R(rn, sf), b = R(rm, sf);
        if (i >> 30 & 1) b = ~b;
        if (i >> 10 & 1) b++;
        W(rd, sf, cond(B(15, 12)) ? a : b);
    } else if ((i & 0x7fff0000) == 0x5ac00000) { /* one source */
        u64 a = R(rn, sf), r = 0;
        int w = sf ? 64 : 32;
        switch (B(15, 10)) {
            case 0: for (int k = 0; k < w; k++) r |= (a >> k & 1) << (w - 1 - k); break;
            case 1: for (int k = 0; k < w; k += 16) r |= (u64) __builtin_bswap16(a >> k) << k; break;
            case 2: r = sf ? (u64) __builtin_bswap32((u32) a) | (u64) __builtin_bswap32(a >> 32) << 32 : __builtin_bswap32((u32) a); break;
            case 3: if (!sf) unknown(i); r = __builtin_bswap64(a); break;
            case 4: r = a ? (u64) __builtin_clzll(a) - (64 - w) : (u64) w; break;
            default: unknown(i);
        }
        W(rd, sf, r);
    } else if ((i & 0x7fe00000) == 0x1ac00000) { /* two sources */
        u64 a = R(rn, sf), b = R(rm, sf), r;
        int w = sf ? 64 : 32;
        switch (B(15, 10)) {
            case 2: r = b ? a / b : 0; break;
            case 3: {
                i64 p = sx(a, w), q = sx(b, w);
                r = q == 0 ? 0 : q == -1 ? -(u64) p : (u64) (p / q);
                break;
            }
            case 8: case 9: case 10: case 11: r = shifted(a, B(11, 10), b % w, sf); break;
            default: unknown(i); return;
        }
        W(rd, sf, r);
    } else if ((i & 0x7f000000) == 0x1b000000) { /* three sources */
        u64 a = R(rn, sf), b = R(rm, sf), d = R(ra, sf), p;
        switch (B(23, 21)) {
            case 0: p = a * b; break;
            case 1: p = (u64) ((i64) (i32) R(rn, 1) * (i32) R(rm, 1)); break;
            case 5: p = (u64) (u32) R(rn, 1) * (u32) R(rm, 1); break;
            case 2: W(rd, 1, (u64) ((__int128_t) (i64) a * (i64) b >> 64)); goto done;
            case 6: W(rd, 1, (u64) ((__uint128_t) a * b >> 64)); goto done;
            default: unknown(i); return;
        }
        W(rd, sf, i >> 15 & 1 ? d - p : d + p);
    } else if ((i & 0x3a000000) == 0x28000000) { /* load/store pair */
        unsigned opc = B(31, 30), V = i >> 26 & 1, mode = B(24, 23), L = i >> 22 & 1, rt2 = ra;
        unsigned s = V ? 4u << opc : opc == 2 ? 8 : 4;
        if (opc == 3 || mode == 0 || (!V && opc == 1 && !L)) unknown(i);
        i64 off = sx(B(21, 15), 7) * (i64) s;
        u64 a = x[rn];
        if (mode != 1) a += off;
        for (int k = 0; k < 2; k++) {
            unsigned r = k ? rt2 : rd;
            u64 p = a + (u64) k * s;
            if (V) {
                if (L) {
                    v[r][0] = v[r][1] = 0;
                    memcpy(v[r], at(p, s), s);
                } else memcpy(at(p, s), v[r], s);
            } else if (L) W(r, 1, opc == 1 ? (u64) sx(ld(p, 4), 32) : ld(p, s));
            else st(p, R(r, 1), s);
        }
        if (mode == 1) x[rn] += off;
        if (mode == 3) x[rn] = a;
    } else if ((i & 0x3a000000) == 0x38000000) { /* load/store one register */
        unsigned size = B(31, 30), V = i >> 26 & 1, opc = B(23, 22);
        unsigned sh = V && opc & 2 ? 4 : size, s = 1u << sh;
        u64 a = x[rn], wb = 0;
        int dowb = 0;
        if (i >> 24 & 1) a += (u64) B(21, 10) << sh;
        else if (i >> 21 & 1) {
            if (B(11, 10) != 2) unknown(i);
            a += extended(R(rm, 1), B(15, 13), i >> 12 & 1 ? sh : 0);
        } else {
            i64 off = sx(B(20, 12), 9);
            switch (B(11, 10)) {
                case 0: a += off; break;
                case 1: wb = a + off; dowb = 1; break;
                case 3: a += off; wb = a; dowb = 1; break;
                default: unknown(i);
            }
        }
        if (V) {
            if (opc & 1) {
                v[rd][0] = v[rd][1] = 0;
                memcpy(v[rd], at(a, s), s);
            } else memcpy(at(a, s), v[rd], s);
        } else if (opc == 0) st(a, R(rd, 1), s);
        else if (opc == 1) W(rd, 1, ld(a, s));
        else if (size == 3) unknown(i); /* prefetch */
        else W(rd, opc == 2, (u64) sx(ld(a, s), 8 * s));
        if (dowb) x[rn] = wb;
    } else if ((i & 0x3b000000) == 0x18000000) { /* load literal */
        unsigned opc = B(31, 30), V = i >> 26 & 1;
        u64 a = pc + (sx(B(23, 5), 19) << 2);
        if (V) {
            if (opc == 3) unknown(i);
            v[rd][0] = v[rd][1] = 0;
            memcpy(v[rd], at(a, 4u << opc), 4u << opc);
        } else if (opc == 3) unknown(i);
        else W(rd, 1, opc == 2 ? (u64) sx(ld(a, 4), 32) : ld(a, opc ? 8 : 4));
    } else if ((i & 0x5f200000) == 0x1e200000 && !(i >> 29 & 1)) { /* scalar floating point */
        unsigned ty = B(23, 22);
        if (ty > 1) unknown(i);
#define FA(k) (ty ? tod(v[k][0]) : (double) tof(v[k][0]))
#define FS(k, e) vset(k, ty ? fromd(e) : fromf((float) (e)))
        if (B(15, 10) == 0) { /* conversions with general registers */
            unsigned op = B(20, 16);
            switch (op) {
                case 2: FS(rd, 0); vset(rd, ty ? fromd(sf ? (double) (i64) R(rn, 1) : (double) (i32) R(rn, 0))
                                               : fromf(sf ? (float) (i64) R(rn, 1) : (float) (i32) R(rn, 0))); break;
                case 3: vset(rd, ty ? fromd(sf ? (double) R(rn, 1) : (double) (u32) R(rn, 0))
                                    : fromf(sf ? (float) R(rn, 1) : (float) (u32) R(rn, 0))); break;
                case 24: W(rd, sf, (u64) satd(FA(rn), sf ? 64 : 32, 0)); break;
                case 25: W(rd, sf, (u64) satd(FA(rn), sf ? 64 : 32, 1)); break;
                case 6: if (sf != (int) ty) unknown(i); W(rd, sf, v[rn][0]); break;
                case 7: if (sf != (int) ty) unknown(i); vset(rd, sf ? R(rn, 1) : R(rn, 0)); break;
                default: unknown(i);
            }
        } else if (sf) unknown(i);
        else if (B(14, 10) == 16) { /* one source; bit 15 belongs to the opcode */
            unsigned op = B(20, 15);
            switch (op) {
                case 0: vset(rd, ty ? v[rn][0] : (u32) v[rn][0]); break;
                case 1: vset(rd, ty ? v[rn][0] & ~(1ULL << 63) : (u32) v[rn][0] & 0x7fffffff); break;
                case 2: vset(rd, ty ? v[rn][0] ^ 1ULL << 63 : (u32) v[rn][0] ^ 0x80000000u); break;
                case 3: if (ty) FS(rd, sqrt(FA(rn))); else vset(rd, fromf(sqrtf(tof(v[rn][0])))); break;
                case 4: if (!ty) unknown(i); vset(rd, fromf((float) tod(v[rn][0]))); break;
                case 5: if (ty) unknown(i); vset(rd, fromd((double) tof(v[rn][0]))); break;
                case 8: FS(rd, rint(FA(rn))); break;
                case 9: FS(rd, ceil(FA(rn))); break;
                case 10: FS(rd, floor(FA(rn))); break;
                case 11: FS(rd, trunc(FA(rn))); break;
                default: unknown(i);
            }
        } else if (B(13, 10) == 8 && B(15, 14) == 0) { /* compare */
            fcmp(FA(rn), i >> 3 & 1 ? 0.0 : FA(rm));
        } else if (B(12, 10) == 4) { /* immediate */
            FS(rd, vfpimm(B(20, 13)));
        } else if (B(11, 10) == 3) { /* csel */
            int k = cond(B(15, 12));
            vset(rd, ty ? v[k ? rn : rm][0] : (u32) v[k ? rn : rm][0]);
        } else if (B(11, 10) == 2) { /* two sources */
            double a = FA(rn), b = FA(rm);
            float p = (float) a, q = (float) b;
            switch (B(15, 12)) {
                case 0: ty ? FS(rd, a * b) : vset(rd, fromf(p * q)); break;
                case 1: ty ? FS(rd, a / b) : vset(rd, fromf(p / q)); break;
                case 2: ty ? FS(rd, a + b) : vset(rd, fromf(p + q)); break;
                case 3: ty ? FS(rd, a - b) : vset(rd, fromf(p - q)); break;
                case 8: ty ? FS(rd, -(a * b)) : vset(rd, fromf(-(p * q))); break;
                default: unknown(i);
            }
        } else unknown(i);
    } else if ((i & 0xff000000) == 0x1f000000) { /* fused multiply-add */
        unsigned ty = B(23, 22);
        if (ty > 1) unknown(i);
        double a = FA(rn), b = FA(rm), d = FA(ra);
        int neg = i >> 21 & 1, sub = i >> 15 & 1;
        /* madd d+ab, msub d-ab, nmadd -d-ab, nmsub -d+ab */
        if (neg) d = -d;
        if (sub != neg) a = -a;
        if (ty) FS(rd, fma(a, b, d));
        else vset(rd, fromf(fmaf((float) a, (float) b, (float) d)));
    } else if ((i & 0xbf20fc00) == 0x0e201c00 && B(23, 22) == 2 && rn == rm) { /* mov vector */
        v[rd][0] = v[rn][0], v[rd][1] = i >> 30 & 1 ? v[rn][1] : 0;
    } else if ((i & 0xbffffc00) == 0x2f00e400 || (i & 0xbfffffe0) == 0x2f00e400 || (i & 0xffffffe0) == 0x6f00e400) { /* movi #0 */
        v[rd][0] = v[rd][1] = 0;
    } else unknown(i);
done:
    if (x[31] & 15) stop("misaligned stack pointer %#lx", x[31]);
    pc = next;
}

/* ------------------------------------------------------------------ RISC-V */
static u64 f[32];
static void X(unsigned k, u64 a) {
    if (k) x[k] = a;
}
static float gs(unsigned k) { return f[k] >> 32 == 0xffffffff ? tof(f[k]) : NAN; }
static double gd(unsigned k) { return tod(f[k]); }
static void ss(unsigned k, float a) { f[k] = 0xffffffff00000000ULL | fromf(a != a ? NAN : a); }
static void sd(unsigned k, double a) { f[k] = a != a ? 0x7ff8000000000000ULL : fromd(a); }
static double rnd(double a, unsigned rm, u32 i) {
    switch (rm) {
        case 0: case 7: return rint(a);
        case 1: return trunc(a);
        case 2: return floor(a);
        case 3: return ceil(a);
        default: unknown(i);
    }
    return a;
}
static i64 rvcvt(double d, unsigned kind, unsigned rm, u32 i) {
    if (d != d) return kind & 1 ? (kind & 2 ? -1 : -1) : kind & 2 ? INT64_MAX : INT32_MAX;
    d = rnd(d, rm, i);
    i64 r = satd(d, kind & 2 ? 64 : 32, kind & 1);
    return kind & 2 ? r : (i64) (i32) r;
}
static u64 fclass(double a, int sub, int sgn, int snan) {
    (void) sub;
    if (a != a) return snan ? 1 << 8 : 1 << 9;
    if (isinf(a)) return sgn ? 1 << 0 : 1 << 7;
    if (a == 0) return sgn ? 1 << 3 : 1 << 4;
    if (sub) return sgn ? 1 << 2 : 1 << 5;
    return sgn ? 1 << 1 : 1 << 6;
}
/* the 32 bit form of a compressed instruction, 0 when there is none */
static u32 It(u32 op, u32 f3, u32 rd, u32 r1, i32 imm) { return op | rd << 7 | f3 << 12 | r1 << 15 | (u32) imm << 20; }
static u32 St(u32 op, u32 f3, u32 r1, u32 r2, u32 imm) { return op | (imm & 31) << 7 | f3 << 12 | r1 << 15 | r2 << 20 | (imm >> 5) << 25; }
static u32 Rt(u32 op, u32 f3, u32 rd, u32 r1, u32 r2, u32 f7) { return op | rd << 7 | f3 << 12 | r1 << 15 | r2 << 20 | f7 << 25; }
static u32 Jt(u32 rd, i32 o) { return 0x6f | rd << 7 | (o & 0xff000) | (o >> 11 & 1) << 20 | (o >> 1 & 0x3ff) << 21 | (u32) (o < 0) << 31; }
static u32 Bt(u32 f3, u32 r1, i32 o) { return 0x63 | (o >> 11 & 1) << 7 | (o >> 1 & 15) << 8 | f3 << 12 | r1 << 15 | (o >> 5 & 63) << 25 | (u32) (o < 0) << 31; }
static u32 rvc(u32 i) {
    unsigned f3 = B(15, 13), rd = B(11, 7), r2 = B(6, 2), a = 8 + B(9, 7), b = 8 + B(4, 2);
    i32 imm6 = (i32) sx(B(12, 12) << 5 | B(6, 2), 6);
    unsigned uw = B(12, 10) << 3 | B(6, 6) << 2 | B(5, 5) << 6, ud = B(12, 10) << 3 | B(6, 5) << 6;
    unsigned sh = B(12, 12) << 5 | B(6, 2);
    switch ((i & 3) << 3 | f3) {
        case 0: {
            unsigned k = B(12, 11) << 4 | B(10, 7) << 6 | B(6, 6) << 2 | B(5, 5) << 3;
            return k ? It(0x13, 0, b, 2, (i32) k) : 0;
        }
        case 1: return It(0x07, 3, b, a, (i32) ud);
        case 2: return It(0x03, 2, b, a, (i32) uw);
        case 3: return It(0x03, 3, b, a, (i32) ud);
        case 5: return St(0x27, 3, a, b, ud);
        case 6: return St(0x23, 2, a, b, uw);
        case 7: return St(0x23, 3, a, b, ud);
        case 8: return It(0x13, 0, rd, rd, imm6);
        case 9: return rd ? It(0x1b, 0, rd, rd, imm6) : 0;
        case 10: return It(0x13, 0, rd, 0, imm6);
        case 11:
            if (rd == 2) {
                i32 k = (i32) sx(B(12, 12) << 9 | B(6, 6) << 4 | B(5, 5) << 6 | B(4, 3) << 7 | B(2, 2) << 5, 10);
                return k ? It(0x13, 0, 2, 2, k) : 0;
            }
            return imm6 ? 0x37 | rd << 7 | (u32) imm6 << 12 : 0;
        case 12:
            switch (B(11, 10)) {
                case 0: return It(0x13, 5, a, a, (i32) sh);
                case 1: return It(0x13, 5, a, a, (i32) (sh | 0x400));
                case 2: return It(0x13, 7, a, a, imm6);
                default: {
                    unsigned k = B(6, 5);
                    if (B(12, 12)) return k == 0 ? Rt(0x3b, 0, a, a, b, 32) : k == 1 ? Rt(0x3b, 0, a, a, b, 0) : 0;
                    return k == 0 ? Rt(0x33, 0, a, a, b, 32) : Rt(0x33, k == 1 ? 4 : k == 2 ? 6 : 7, a, a, b, 0);
                }
            }
        case 13:
            return Jt(0, (i32) sx(B(12, 12) << 11 | B(11, 11) << 4 | B(10, 9) << 8 | B(8, 8) << 10 | B(7, 7) << 6 | B(6, 6) << 7 | B(5, 3) << 1 | B(2, 2) << 5, 12));
        case 14: case 15:
            return Bt(f3 & 1, a, (i32) sx(B(12, 12) << 8 | B(11, 10) << 3 | B(6, 5) << 6 | B(4, 3) << 1 | B(2, 2) << 5, 9));
        case 16: return It(0x13, 1, rd, rd, (i32) sh);
        case 17: return It(0x07, 3, rd, 2, (i32) (B(12, 12) << 5 | B(6, 5) << 3 | B(4, 2) << 6));
        case 18: return rd ? It(0x03, 2, rd, 2, (i32) (B(12, 12) << 5 | B(6, 4) << 2 | B(3, 2) << 6)) : 0;
        case 19: return rd ? It(0x03, 3, rd, 2, (i32) (B(12, 12) << 5 | B(6, 5) << 3 | B(4, 2) << 6)) : 0;
        case 20:
            if (!r2) return rd ? It(0x67, 0, B(12, 12), rd, 0) : 0;
            return B(12, 12) ? Rt(0x33, 0, rd, rd, r2, 0) : Rt(0x33, 0, rd, 0, r2, 0);
        case 21: return St(0x27, 3, 2, r2, B(12, 10) << 3 | B(9, 7) << 6);
        case 22: return St(0x23, 2, 2, r2, B(12, 9) << 2 | B(8, 7) << 6);
        case 23: return St(0x23, 3, 2, r2, B(12, 10) << 3 | B(9, 7) << 6);
    }
    return 0;
}

static void rv(void) {
    u32 i = (u32) ld(pc, 2), half = i;
    u64 next = pc + 2;
    if ((i & 3) == 3) i |= (u32) ld(pc + 2, 2) << 16, next = pc + 4;
    else if (!(i = rvc(i))) stop("unknown instruction %08x", half);
    unsigned rd = B(11, 7), f3 = B(14, 12), r1 = B(19, 15), r2 = B(24, 20), f7 = i >> 25;
    u64 a = x[r1], b = x[r2];
    i64 imm = (i32) i >> 20, simm = ((i64) (i32) (i & 0xfe000000) >> 20) | (i64) B(11, 7);
    if ((i & 3) != 3) unknown(i);
    switch (i & 0x7f) {
        case 0x0b: {
            u64 r = host(i >> 7, x + 10, f[10]);
            for (int k = 5; k < 32; k++)
                if (k < 8 || (k > 9 && k < 18) || k > 27) x[k] = 0x5ca1ab1e00000000ULL + (u64) k * 0x01010101;
            for (int k = 0; k < 32; k++)
                if (k < 8 || (k > 9 && k < 18) || k > 27) f[k] = 0x7ff4000000000000ULL + (u64) k;
            x[10] = r;
            break;
        }
        case 0x37: X(rd, (u64) (i64) (i32) (i & 0xfffff000)); break;
        case 0x17: X(rd, pc + (u64) (i64) (i32) (i & 0xfffff000)); break;
        case 0x6f: {
            i64 off = sx((u64) (i >> 31) << 20 | (u64) B(19, 12) << 12 | (u64) (i >> 20 & 1) << 11 | (u64) B(30, 21) << 1, 21);
            X(rd, next);
            next = pc + off;
            break;
        }
        case 0x67:
            if (f3) unknown(i);
            X(rd, next);
            next = (a + imm) & ~1ULL;
            break;
        case 0x63: {
            i64 off = sx((u64) (i >> 31) << 12 | (u64) (i >> 7 & 1) << 11 | (u64) B(30, 25) << 5 | (u64) B(11, 8) << 1, 13);
            int t;
            switch (f3) {
                case 0: t = a == b; break;
                case 1: t = a != b; break;
                case 4: t = (i64) a < (i64) b; break;
                case 5: t = (i64) a >= (i64) b; break;
                case 6: t = a < b; break;
                case 7: t = a >= b; break;
                default: unknown(i); return;
            }
            if (t) next = pc + off;
            break;
        }
        case 0x03: {
            u64 p = a + imm;
            switch (f3) {
                case 0: X(rd, (u64) sx(ld(p, 1), 8)); break;
                case 1: X(rd, (u64) sx(ld(p, 2), 16)); break;
                case 2: X(rd, (u64) sx(ld(p, 4), 32)); break;
                case 3: X(rd, ld(p, 8)); break;
                case 4: X(rd, ld(p, 1)); break;
                case 5: X(rd, ld(p, 2)); break;
                case 6: X(rd, ld(p, 4)); break;
                default: unknown(i);
            }
            break;
        }
        case 0x23:
            if (f3 > 3) unknown(i);
            st(a + simm, b, 1u << f3);
            break;
        case 0x13: {
            u64 r;
            unsigned sh = i >> 20 & 63;
            switch (f3) {
                case 0: r = a + imm; break;
                case 1: if (i >> 26) unknown(i); r = a << sh; break;
                case 2: r = (i64) a < imm; break;
                case 3: r = a < (u64) imm; break;
                case 4: r = a ^ imm; break;
                case 5: if ((i >> 26) & ~16u) unknown(i); r = i >> 30 & 1 ? (u64) ((i64) a >> sh) : a >> sh; break;
                case 6: r = a | imm; break;
                default: r = a & imm; break;
            }
            X(rd, r);
            break;
        }
        case 0x1b: {
            u32 r;
            unsigned sh = i >> 20 & 31;
            switch (f3) {
                case 0: r = (u32) (a + imm); break;
                case 1: if (f7) unknown(i); r = (u32) a << sh; break;
                case 5: if (f7 & ~32u) unknown(i); r = f7 ? (u32) ((i32) a >> sh) : (u32) a >> sh; break;
                default: unknown(i); return;
            }
            X(rd, (u64) (i64) (i32) r);
            break;
        }
        case 0x33: {
            u64 r;
            if (f7 == 1) {
                switch (f3) {
                    case 0: r = a * b; break;
                    case 1: r = (u64) ((__int128_t) (i64) a * (i64) b >> 64); break;
                    case 2: r = (u64) ((__int128_t) (i64) a * b >> 64); break;
                    case 3: r = (u64) ((__uint128_t) a * b >> 64); break;
                    case 4: r = !b ? ~0ULL : (i64) b == -1 ? -a : (u64) ((i64) a / (i64) b); break;
                    case 5: r = !b ? ~0ULL : a / b; break;
                    case 6: r = !b ? a : (i64) b == -1 ? 0 : (u64) ((i64) a % (i64) b); break;
                    default: r = !b ? a : a % b; break;
                }
            } else {
                if (f7 & ~32u || (f7 && f3 != 0 && f3 != 5)) unknown(i);
                switch (f3) {
                    case 0: r = f7 ? a - b : a + b; break;
                    case 1: r = a << (b & 63); break;
                    case 2: r = (i64) a < (i64) b; break;
                    case 3: r = a < b; break;
                    case 4: r = a ^ b; break;
                    case 5: r = f7 ? (u64) ((i64) a >> (b & 63)) : a >> (b & 63); break;
                    case 6: r = a | b; break;
                    default: r = a & b; break;
                }
            }
            X(rd, r);
            break;
        }
        case 0x3b: {
            u32 p = (u32) a, q = (u32) b, r;
            if (f7 == 1) {
                switch (f3) {
                    case 0: r = p * q; break;
                    case 4: r = !q ? ~0u : (i32) q == -1 ? -p : (u32) ((i32) p / (i32) q); break;
                    case 5: r = !q ? ~0u : p / q; break;
                    case 6: r = !q ? p : (i32) q == -1 ? 0 : (u32) ((i32) p % (i32) q); break;
                    case 7: r = !q ? p : p % q; break;
                    default: unknown(i); return;
                }
            } else {
                if (f7 & ~32u) unknown(i);
                switch (f3) {
                    case 0: r = f7 ? p - q : p + q; break;
                    case 1: r = p << (q & 31); break;
                    case 5: r = f7 ? (u32) ((i32) p >> (q & 31)) : p >> (q & 31); break;
                    default: unknown(i); return;
                }
            }
            X(rd, (u64) (i64) (i32) r);
            break;
        }
        case 0x0f: break;
        case 0x07: {
            u64 p = a + imm;
            if (f3 == 2) f[rd] = 0xffffffff00000000ULL | ld(p, 4);
            else if (f3 == 3) f[rd] = ld(p, 8);
            else unknown(i);
            break;
        }
        case 0x27:
            if (f3 != 2 && f3 != 3) unknown(i);
            st(a + simm, f[r2], 1u << f3);
            break;
        case 0x43: case 0x47: case 0x4b: case 0x4f: {
            unsigned r3 = i >> 27, k = i >> 2 & 3;
            int d = i >> 25 & 1;
            if (i >> 26 & 1) unknown(i);
            if (d) {
                double p = gd(r1), q = gd(r2), s = gd(r3);
                sd(rd, fma(k & 2 ? -p : p, q, k == 1 || k == 3 ? -s : s));
            } else {
                float p = gs(r1), q = gs(r2), s = gs(r3);
                ss(rd, fmaf(k & 2 ? -p : p, q, k == 1 || k == 3 ? -s : s));
            }
            break;
        }
        case 0x53: {
            int d = f7 & 1;
            if (f7 & 2) unknown(i);
            switch (f7 >> 2) {
                case 0: d ? sd(rd, gd(r1) + gd(r2)) : ss(rd, gs(r1) + gs(r2)); break;
                case 1: d ? sd(rd, gd(r1) - gd(r2)) : ss(rd, gs(r1) - gs(r2)); break;
                case 2: d ? sd(rd, gd(r1) * gd(r2)) : ss(rd, gs(r1) * gs(r2)); break;
                case 3: d ? sd(rd, gd(r1) / gd(r2)) : ss(rd, gs(r1) / gs(r2)); break;
                case 11: d ? sd(rd, sqrt(gd(r1))) : ss(rd, sqrtf(gs(r1))); break;
                case 4: {
                    u64 sb = d ? 1ULL << 63 : 1ULL << 31, p = d ? f[r1] : fromf(gs(r1)), q = d ? f[r2] : fromf(gs(r2));
                    u64 s = f3 == 0 ? q & sb : f3 == 1 ? ~q & sb : f3 == 2 ? (p ^ q) & sb : 0;
                    if (f3 > 2) unknown(i);
                    f[rd] = ((p & ~sb) | s) | (d ? 0 : 0xffffffff00000000ULL);
                    break;
                }
                case 5: {
                    double p = d ? gd(r1) : gs(r1), q = d ? gd(r2) : gs(r2), r;
                    if (f3 > 1) unknown(i);
                    if (p != p) r = q;
                    else if (q != q) r = p;
                    else if (p == q) r = (signbit(p) != 0) == (f3 == 0) ? p : q;
                    else r = (p < q) == (f3 == 0) ? p : q;
                    d ? sd(rd, r) : ss(rd, (float) r);
                    break;
                }
                case 8:
                    if (d && r2 == 0) sd(rd, (double) gs(r1));
                    else if (!d && r2 == 1) ss(rd, (float) gd(r1));
                    else unknown(i);
                    break;
                case 20: {
                    double p = d ? gd(r1) : gs(r1), q = d ? gd(r2) : gs(r2);
                    if (f3 > 2) unknown(i);
                    X(rd, f3 == 2 ? p == q : f3 == 1 ? p < q : p <= q);
                    break;
                }
                case 24:
                    if (r2 > 3) unknown(i);
                    X(rd, (u64) rvcvt(d ? gd(r1) : gs(r1), r2, f3, i));
                    break;
                case 26: {
                    if (r2 > 3) unknown(i);
                    double p = 0;
                    float q = 0;
                    switch (r2) {
                        case 0: p = (i32) a, q = (float) (i32) a; break;
                        case 1: p = (u32) a, q = (float) (u32) a; break;
                        case 2: p = (double) (i64) a, q = (float) (i64) a; break;
                        case 3: p = (double) a, q = (float) a; break;
                    }
                    d ? sd(rd, p) : ss(rd, q);
                    break;
                }
                case 28:
                    if (f3 == 0) X(rd, d ? f[r1] : (u64) (i64) (i32) f[r1]);
                    else if (f3 == 1 && d) X(rd, fclass(gd(r1), !isnormal(gd(r1)), f[r1] >> 63, !(f[r1] >> 51 & 1)));
                    else if (f3 == 1) X(rd, fclass(gs(r1), !isnormal(gs(r1)), f[r1] >> 31 & 1, !(f[r1] >> 22 & 1)));
                    else unknown(i);
                    break;
                case 30: f[rd] = d ? a : 0xffffffff00000000ULL | (u32) a; break;
                default: unknown(i);
            }
            break;
        }
        default: unknown(i);
    }
    if (x[2] & 15) stop("misaligned stack pointer %#lx", x[2]);
    pc = next;
}

int main(int argc, char **argv) {
    if (argc < 3) return 2;
    FILE *fp = fopen(argv[1], "rb");
    if (!fp) return 2;
    fseek(fp, 0, SEEK_END);
    long size = ftell(fp);
    rewind(fp);
    uint8_t *b = malloc((size_t) size);
    if (fread(b, 1, (size_t) size, fp) != (size_t) size) return 2;
    mem = calloc(1, MEM);
    Elf64_Ehdr *h = (void *) b;
    Elf64_Phdr *ph = (void *) (b + h->e_phoff);
    lowest = MEM;
    for (int k = 0; k < h->e_phnum; k++)
        if (ph[k].p_type == PT_LOAD) {
            if (ph[k].p_vaddr + ph[k].p_memsz > MEM / 4) return 2;
            memcpy(mem + ph[k].p_vaddr, b + ph[k].p_offset, ph[k].p_filesz);
            if (ph[k].p_vaddr < lowest) lowest = ph[k].p_vaddr;
        }
    heap = MEM / 4;
    Elf64_Shdr *sh = (void *) (b + h->e_shoff);
    for (int k = 0; k < h->e_shnum; k++)
        if (sh[k].sh_type == SHT_SYMTAB) {
            Elf64_Sym *s = (void *) (b + sh[k].sh_offset);
            char *names = (char *) b + sh[sh[k].sh_link].sh_offset;
            for (u64 j = 0; j < sh[k].sh_size / sizeof *s; j++)
                if (s[j].st_shndx && !strcmp(names + s[j].st_name, argv[2])) pc = s[j].st_value;
        }
    if (!pc) {
        printf("#STOP no symbol %s\n", argv[2]);
        return 3;
    }
    int arm = h->e_machine == EM_AARCH64;
    sp = arm ? 31 : 2;
    for (int k = 0; k < 32; k++) x[k] = 0x1234567800000000ULL + (u64) k;
    if (arm) x[31] = STACK_TOP, x[30] = RETADDR, x[29] = 0;
    else x[0] = 0, x[2] = STACK_TOP, x[1] = RETADDR, x[8] = 0;
    while (pc != RETADDR) {
        if (pc & (arm ? 3 : 1)) stop("misaligned pc");
        if (++steps > 40000000) stop("endless");
        u64 from = pc;
        below = MEM;
        if (arm) a64();
        else rv();
        if (below < x[sp]) pc = from, stop("access to %#lx below the stack pointer", below);
    }
    if (x[arm ? 31 : 2] != STACK_TOP) stop("stack pointer is off by %ld", (long) (x[arm ? 31 : 2] - STACK_TOP));
    return 0;
}
