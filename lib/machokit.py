"""Reading Mach-O executables: segments, dyld information, symbol tables, unwind tables, signatures."""
import hashlib
import struct


class Bad(Exception):
    pass


def uleb(b, p):
    v = s = 0
    while True:
        if p >= len(b):
            raise Bad("number runs past the end of its table")
        c = b[p]
        p += 1
        v |= (c & 127) << s
        s += 7
        if not c & 128:
            return v, p


def sleb(b, p):
    v = s = 0
    while True:
        c = b[p]
        p += 1
        v |= (c & 127) << s
        s += 7
        if not c & 128:
            return v - (1 << s) if c & 64 else v, p


def cstr(b, p):
    e = b.index(b"\0", p)
    return b[p:e].decode(), e + 1


class Seg:
    pass


class Sect:
    pass


class Image:
    def __init__(self, path):
        with open(path, "rb") as f:
            b = self.b = f.read()
        magic, cpu, sub, ftype, ncmds, size, self.flags, _ = struct.unpack_from("<8I", b, 0)
        if magic != 0xfeedfacf or ftype != 2 or cpu != 0x100000c:
            raise Bad("not an arm64 executable")
        self.segs, self.sects, self.dylibs, self.cmds = [], [], [], {}
        p = 32
        for _ in range(ncmds):
            cmd, n = struct.unpack_from("<II", b, p)
            if n < 8 or n % 8 or p + n > 32 + size:
                raise Bad("load command runs past the header")
            if cmd == 0x19:
                s = Seg()
                name, s.addr, s.size, s.off, s.fsize, s.maxprot, s.prot, ns, _ = struct.unpack_from("<16s4Q4I", b, p + 8)
                s.name = name.rstrip(b"\0").decode()
                s.sects = []
                self.segs.append(s)
                for i in range(ns):
                    t = Sect()
                    (sn, gn, t.addr, t.size, t.off, t.align, t.reloff, t.nreloc, t.flags, t.r1, t.r2,
                     _) = struct.unpack_from("<16s16s2Q8I", b, p + 72 + 80 * i)
                    t.sect, t.seg = sn.rstrip(b"\0").decode(), gn.rstrip(b"\0").decode()
                    if t.seg != s.name:
                        raise Bad("section %s of %s lies in segment %s" % (t.sect, t.seg, s.name))
                    t.zero = t.flags & 0xff in (1, 0xc, 0x12)
                    s.sects.append(t)
                    self.sects.append(t)
            elif cmd in (0xc, 0x80000018, 0x8000001f):
                self.dylibs.append((cstr(b, p + struct.unpack_from("<I", b, p + 8)[0])[0], cmd))
            else:
                self.cmds[cmd] = p
            p += n
        if p != 32 + size:
            raise Bad("load commands are %d bytes, header says %d" % (p - 32, size))
        self.hdr_end = p
        self.check_layout()
        self.read_dyld()
        self.read_syms()
        self.read_trie()
        self.check_signature()

    def check_layout(self):
        last = None
        end = 0
        for s in self.segs:
            if s.addr % 0x4000 or s.size % 0x4000 and s.name != "__LINKEDIT" or s.off % 0x4000:
                raise Bad("segment %s is not page aligned" % s.name)
            if s.name == "__PAGEZERO":
                continue
            if last and s.addr < last.addr + last.size:
                raise Bad("segment %s overlaps %s" % (s.name, last.name))
            if s.off < end and s.fsize:
                raise Bad("segment %s overlaps the one before it in the file" % s.name)
            if s.fsize > s.size or s.off + s.fsize > len(self.b):
                raise Bad("segment %s runs past the file" % s.name)
            end = s.off + s.fsize
            last = s
            pos = s.addr + (self.hdr_end if s.off == 0 else 0)
            for t in s.sects:
                if t.addr % (1 << t.align):
                    raise Bad("section %s,%s is not aligned" % (t.seg, t.sect))
                if t.addr < pos or t.addr + t.size > s.addr + s.size:
                    raise Bad("section %s,%s overlaps its neighbour" % (t.seg, t.sect))
                if not t.zero and t.size:
                    if t.off - s.off != t.addr - s.addr:
                        raise Bad("section %s,%s is not where its segment maps it" % (t.seg, t.sect))
                    if t.addr + t.size > s.addr + s.fsize:
                        raise Bad("section %s,%s is not in the file" % (t.seg, t.sect))
                if t.zero and t.size and t.addr < s.addr + s.fsize:
                    a = s.off + t.addr - s.addr
                    if any(self.b[a:min(a + t.size, s.off + s.fsize)]):
                        raise Bad("zero-fill section %s,%s has content" % (t.seg, t.sect))
                pos = t.addr + t.size

    def seg_of(self, addr):
        for s in self.segs:
            if s.addr <= addr < s.addr + s.size:
                return s
        return None

    def sect_of(self, addr):
        for t in self.sects:
            if t.addr <= addr < t.addr + t.size:
                return t
        return None

    def sect(self, seg, name):
        for t in self.sects:
            if t.seg == seg and t.sect == name:
                return t
        return None

    def read(self, addr, n):
        s = self.seg_of(addr)
        if s is None or s.name == "__PAGEZERO":
            raise Bad("address %#x is not mapped" % addr)
        o = addr - s.addr
        if o + n > s.fsize:
            return (self.b[s.off + o:s.off + s.fsize] if o < s.fsize else b"").ljust(n, b"\0")
        return self.b[s.off + o:s.off + o + n]

    def u32(self, addr):
        return struct.unpack("<I", self.read(addr, 4))[0]

    def u64(self, addr):
        return struct.unpack("<Q", self.read(addr, 8))[0]

    def find(self, what):
        """addresses at which these bytes are mapped from a section"""
        out = []
        p = self.b.find(what)
        while p >= 0:
            for t in self.sects:
                if not t.zero and t.off <= p < t.off + t.size:
                    out.append(t.addr + p - t.off)
            p = self.b.find(what, p + 1)
        return out

    def read_dyld(self):
        p = self.cmds.get(0x80000022)
        if p is None:
            raise Bad("no dyld information")
        self.dyld = v = struct.unpack_from("<10I", self.b, p + 8)
        self.rebases, self.binds, self.weak_binds = set(), {}, {}
        b = self.b[v[0]:v[0] + v[1]]
        p = 0
        at = None
        while p < len(b):
            op, imm = b[p] & 0xf0, b[p] & 15
            p += 1
            if op == 0:
                break
            if op == 0x10:
                if imm != 1:
                    raise Bad("rebase type %d" % imm)
            elif op == 0x20:
                o, p = uleb(b, p)
                at = self.place(imm, o)
            elif op in (0x50, 0x60):
                n = imm
                if op == 0x60:
                    n, p = uleb(b, p)
                for _ in range(n):
                    if at in self.rebases:
                        raise Bad("address %#x is rebased twice" % at)
                    self.rebases.add(at)
                    at += 8
            elif op == 0x30:
                o, p = uleb(b, p)
                at += o
            elif op == 0x40:
                at += imm * 8
            elif op == 0x70:
                self.rebases.add(at)
                o, p = uleb(b, p)
                at += o + 8
            elif op == 0x80:
                n, p = uleb(b, p)
                o, p = uleb(b, p)
                for _ in range(n):
                    self.rebases.add(at)
                    at += o + 8
            else:
                raise Bad("rebase opcode %#x" % op)
        for k, (off, size) in enumerate(((v[2], v[3]), (v[4], v[5]))):
            self.bind_stream(self.b[off:off + size], self.weak_binds if k else self.binds, k)

    def place(self, seg, off):
        if seg >= len(self.segs):
            raise Bad("fixup in segment %d" % seg)
        s = self.segs[seg]
        if off + 8 > s.size or not s.prot & 2:
            raise Bad("fixup at %s+%#x is not in a writable segment" % (s.name, off))
        return s.addr + off

    def bind_stream(self, b, out, weak):
        p = 0
        ordinal, name, flags, addend, at = 0, None, 0, 0, None
        while p < len(b):
            op, imm = b[p] & 0xf0, b[p] & 15
            p += 1
            if op == 0:
                break
            if op == 0x10:
                ordinal = imm
            elif op == 0x20:
                ordinal, p = uleb(b, p)
            elif op == 0x30:
                ordinal = imm - 16 if imm else 0
            elif op == 0x40:
                flags = imm
                name, p = cstr(b, p)
            elif op == 0x50:
                if imm != 1:
                    raise Bad("bind type %d" % imm)
            elif op == 0x60:
                addend, p = sleb(b, p)
            elif op == 0x70:
                o, p = uleb(b, p)
                at = self.place(imm, o)
            elif op == 0x80:
                o, p = uleb(b, p)
                at += o
            elif op in (0x90, 0xa0, 0xb0):
                if at in out:
                    raise Bad("address %#x is bound twice" % at)
                if not weak and ordinal > len(self.dylibs):
                    raise Bad("bind of %s from library %d" % (name, ordinal))
                out[at] = (self.dylibs[ordinal - 1][0] if not weak and ordinal > 0 else None, name, addend, bool(flags & 1))
                at += 8
                if op == 0xa0:
                    o, p = uleb(b, p)
                    at += o
                elif op == 0xb0:
                    at += imm * 8
            else:
                raise Bad("bind opcode %#x" % op)

    def read_syms(self):
        p = self.cmds.get(2)
        if p is None:
            raise Bad("no symbol table")
        so, ns, st, sz = struct.unpack_from("<4I", self.b, p + 8)
        self.syms = []
        for i in range(ns):
            x, t, sec, desc, val = struct.unpack_from("<IBBHQ", self.b, so + 16 * i)
            if x >= sz:
                raise Bad("symbol name out of range")
            self.syms.append((cstr(self.b, st + x)[0], t, sec, desc, val))
        p = self.cmds.get(0xb)
        if p is None:
            raise Bad("no dynamic symbol table")
        v = struct.unpack_from("<18I", self.b, p + 8)
        il, nl, ie, ne, iu, nu = v[:6]
        if (il, ie, iu) != (0, nl, nl + ne) or nl + ne + nu != ns:
            raise Bad("symbol table parts %s do not cover %d symbols" % (v[:6], ns))
        for i, (n, t, sec, desc, val) in enumerate(self.syms):
            want = "local" if i < nl else "defined" if i < nl + ne else "undefined"
            got = "undefined" if t & 0xe == 0 else "defined" if t & 1 else "local"
            if t & 0xe0:
                got = "local"
            if want != got:
                raise Bad("symbol %s is %s but lies in the %s part" % (n, got, want))
            if t & 0xe == 0xe:
                if not 1 <= sec <= len(self.sects):
                    raise Bad("symbol %s is in section %d" % (n, sec))
                s = self.sects[sec - 1]
                if not s.addr <= val <= s.addr + s.size and n != "__mh_execute_header":
                    raise Bad("symbol %s lies outside its section" % n)
        self.indirect = struct.unpack_from("<%dI" % v[13], self.b, v[12])
        self.defs = {}
        for n, t, sec, desc, val in self.syms:
            if t & 0xe0 == 0 and t & 0xe:
                self.defs.setdefault(n, []).append((val, t, sec, desc))
        self.undef = {n: (desc >> 8, desc) for n, t, sec, desc, val in self.syms if t & 0xe == 0}

    def indirect_name(self, t, k):
        i = self.indirect[t.r1 + k]
        if i & 0xc0000000:
            return None
        return self.syms[i][0]

    def read_trie(self):
        off, size = self.dyld[8], self.dyld[9]
        b = self.b[off:off + size]
        self.exports = {}
        if not b:
            return
        todo = [(0, b"")]
        seen = set()
        while todo:
            p, pre = todo.pop()
            if p in seen:
                raise Bad("export tree node reached twice")
            seen.add(p)
            n, p = uleb(b, p)
            if n:
                flags, q = uleb(b, p)
                addr, q = uleb(b, q)
                if q != p + n:
                    raise Bad("export of %s has the wrong length" % pre.decode())
                self.exports[pre.decode()] = (flags, addr)
            p += n
            if p >= len(b):
                raise Bad("export tree node out of range")
            k = b[p]
            p += 1
            for _ in range(k):
                e = b.index(b"\0", p)
                edge = b[p:e]
                o, p = uleb(b, e + 1)
                todo.append((o, pre + edge))

    def starts(self):
        p = self.cmds.get(0x26)
        if p is None:
            return None
        off, size = struct.unpack_from("<II", self.b, p + 8)
        b = self.b[off:off + size]
        a = next(s.addr for s in self.segs if s.name == "__TEXT")
        p = 0
        out = []
        while p < len(b):
            d, p = uleb(b, p)
            if d == 0:
                break
            a += d
            out.append(a)
        return out

    def data_in_code(self):
        p = self.cmds.get(0x29)
        if p is None:
            return []
        off, size = struct.unpack_from("<II", self.b, p + 8)
        return [struct.unpack_from("<IHH", self.b, off + i) for i in range(0, size, 8)]

    def check_signature(self):
        p = self.cmds.get(0x1d)
        if p is None:
            raise Bad("no code signature")
        off, size = struct.unpack_from("<II", self.b, p + 8)
        if off + size != len(self.b):
            raise Bad("code signature is not at the end of the file")
        magic, length, count = struct.unpack_from(">3I", self.b, off)
        if magic != 0xfade0cc0 or length > size:
            raise Bad("code signature blob")
        found = False
        for i in range(count):
            kind, o = struct.unpack_from(">2I", self.b, off + 12 + 8 * i)
            if kind:
                continue
            found = True
            c = off + o
            (m, ln, ver, fl, ho, io, nsp, nc, limit, hs, ht, pl, pg) = struct.unpack_from(">9I4B", self.b, c)
            if m != 0xfade0c02 or hs != 32 or ht != 2:
                raise Bad("code directory")
            if limit != off:
                raise Bad("signature covers %d bytes of %d" % (limit, off))
            page = 1 << pg
            if nc != (limit + page - 1) // page:
                raise Bad("%d page hashes for %d bytes" % (nc, limit))
            if c + ho + 32 * nc > len(self.b):
                raise Bad("page hashes out of range")
            for k in range(nc):
                if hashlib.sha256(self.b[k * page:min((k + 1) * page, limit)]).digest() != self.b[c + ho + 32 * k:c + ho + 32 * k + 32]:
                    raise Bad("hash of page %d is wrong" % k)
            cstr(self.b, c + io)
        if not found:
            raise Bad("no code directory")

    def unwind(self, base):
        """list of (start, end, encoding, personality slot address, lsda) sorted by start"""
        t = self.sect("__TEXT", "__unwind_info")
        if t is None:
            return None
        b = self.read(t.addr, t.size)
        ver, co, cn, po, pn, io, n = struct.unpack_from("<7I", b, 0)
        if ver != 1 or n < 1:
            raise Bad("unwind table header")
        common = struct.unpack_from("<%dI" % cn, b, co)
        pers = struct.unpack_from("<%dI" % pn, b, po)
        idx = [struct.unpack_from("<3I", b, io + 12 * i) for i in range(n)]
        if [x[0] for x in idx] != sorted(x[0] for x in idx):
            raise Bad("unwind index is not sorted")
        lsda = {}
        lo, hi = idx[0][2], idx[-1][2]
        keys = []
        for q in range(lo, hi, 8):
            f, l = struct.unpack_from("<2I", b, q)
            keys.append(f)
            lsda[f] = l
        if keys != sorted(keys):
            raise Bad("unwind language data is not sorted")
        rows = []
        for i in range(n - 1):
            f, so, lo = idx[i]
            if i + 1 < n and not all(f <= k < idx[i + 1][0] for k in keys[(lo - idx[0][2]) // 8:(idx[i + 1][2] - idx[0][2]) // 8]):
                raise Bad("unwind language data is filed under the wrong page")
            kind = struct.unpack_from("<I", b, so)[0]
            page = []
            if kind == 2:
                eo, en = struct.unpack_from("<HH", b, so + 4)
                page = [struct.unpack_from("<2I", b, so + eo + 8 * k) for k in range(en)]
            elif kind == 3:
                eo, en, xo, xn = struct.unpack_from("<4H", b, so + 4)
                loc = struct.unpack_from("<%dI" % xn, b, so + xo)
                for k in range(en):
                    w = struct.unpack_from("<I", b, so + eo + 4 * k)[0]
                    e = w >> 24
                    if e >= cn + xn:
                        raise Bad("unwind encoding index out of range")
                    page.append((f + (w & 0xffffff), common[e] if e < cn else loc[e - cn]))
            else:
                raise Bad("unwind page kind %d" % kind)
            if page and page[0][0] != f:
                raise Bad("unwind page starts at %#x, index says %#x" % (page[0][0], f))
            rows += page
        if [r[0] for r in rows] != sorted({r[0] for r in rows}):
            raise Bad("unwind entries are not sorted")
        out = []
        for k, (f, e) in enumerate(rows):
            end = rows[k + 1][0] if k + 1 < len(rows) else idx[-1][0]
            pi = e >> 28 & 3
            if pi > pn:
                raise Bad("personality %d of %d" % (pi, pn))
            ls = None
            if e & 0x40000000:
                if f not in lsda:
                    raise Bad("function %#x has no language data entry" % f)
                ls = base + lsda[f]
            out.append((base + f, base + end, e & ~0x70000000, base + pers[pi - 1] if pi else None, ls))
        return out
