"""COFF objects, short import members and archives written byte by byte, and a
reader of PE images; none of it shares code with the linker under test."""
import struct

CODE, DATA, BSS, INFO, REMOVE, COMDAT = 0x20, 0x40, 0x80, 0x200, 0x800, 0x1000
DISCARD, EXEC, READ, WRITE = 0x02000000, 0x20000000, 0x40000000, 0x80000000

ABSOLUTE, ADDR64, ADDR32, ADDR32NB, REL32, SECTION, SECREL = 0, 1, 2, 3, 4, 10, 11


class Sec:
    def __init__(self, name, flags, align, data, size=None):
        self.name, self.flags, self.align = name, flags, align
        self.data = bytearray(data)
        self.size = len(self.data) if size is None else size
        self.relocs = []          # (offset, symbol, type)
        self.selection = 0
        self.assoc = None         # Sec
        self.leader = None        # symbol emitted right after the section symbol


class Sym:
    def __init__(self, name, sec=None, value=0, cls=2, weak=None, search=3, typ=0):
        # sec: Sec, None (undefined or common) or "abs"
        self.name, self.sec, self.value, self.cls, self.weak, self.search, self.typ = name, sec, value, cls, weak, search, typ


def write_obj(secs, syms, big=False, pad=0):
    """secs: [Sec]; syms: [Sym] in table order (section symbols are added here)"""
    strtab = bytearray(b"\0\0\0\0")

    def long(n):
        o = len(strtab)
        strtab.extend(n + b"\0")
        return o
    order = []
    index = {}
    placed = set()
    pos = 0

    def add(kind, s):
        nonlocal pos
        order.append((kind, s))
        index[(kind, id(s))] = pos
        placed.add(id(s))
        pos += 2 if kind == "sec" or s.weak is not None else 1
    for s in secs:
        add("sec", s)
        if s.leader is not None:
            add("sym", s.leader)
    for y in syms:
        if id(y) not in placed:
            add("sym", y)
    nsym = pos
    hdr = 56 if big else 20
    off = hdr + 40 * len(secs)
    heads = b""
    body = bytearray()

    def here():
        return off + len(body)
    for s in secs:
        raw = rel = 0
        nrel = len(s.relocs)
        fl = s.flags | (s.align.bit_length() << 20)
        if s.data and not s.flags & BSS:
            body.extend(b"\xAA" * pad)
            raw = here()
            body.extend(s.data)
        if nrel:
            rel = here()
            if nrel >= 0xffff:
                fl |= 0x01000000
                body.extend(struct.pack("<IIH", nrel + 1, 0, 0))
            for o, y, t in s.relocs:
                k = ("sec", id(y)) if isinstance(y, Sec) else ("sym", id(y))
                body.extend(struct.pack("<IIH", o, index[k], t))
        nm = s.name.encode()
        nm = nm.ljust(8, b"\0") if len(nm) <= 8 else (b"/%d" % long(nm)).ljust(8, b"\0")
        heads += struct.pack("<8sIIIIIIHHI", nm, 0, 0, s.size, raw, rel, 0, min(nrel, 0xffff), 0, fl)
    symoff = here()
    num = {id(s): i + 1 for i, s in enumerate(secs)}
    tab = bytearray()

    def entry(name, value, secno, typ, cls, naux):
        nm = name.encode()
        nm = nm.ljust(8, b"\0") if len(nm) <= 8 else struct.pack("<II", 0, long(nm))
        tab.extend(nm + (struct.pack("<IiHBB", value, secno, typ, cls, naux) if big else
                         struct.pack("<IhHBB", value, secno, typ, cls, naux)))

    def aux(b):
        tab.extend(b.ljust(20 if big else 18, b"\0"))
    for kind, s in order:
        if kind == "sec":
            entry(s.name, 0, num[id(s)], 0, 3, 1)
            a = num[id(s.assoc)] if s.assoc is not None else 0
            aux(struct.pack("<IHHIHBBH", s.size, min(len(s.relocs), 0xffff), 0, 0, a & 0xffff, s.selection, 0,
                            a >> 16 if big else 257 * len(s.name)))    # unused bytes in ordinary objects
        elif s.weak is not None:
            entry(s.name, 0, 0, s.typ, 105, 1)
            aux(struct.pack("<II", index[("sym", id(s.weak))], s.search))
        else:
            no = 0 if s.sec is None else -1 if s.sec == "abs" else num[id(s.sec)]
            entry(s.name, s.value, no, s.typ, s.cls, 0)
    struct.pack_into("<I", strtab, 0, len(strtab))
    if big:
        head = struct.pack("<HHHHI16sIIIIIII", 0, 0xffff, 2, 0x8664, 0,
                           bytes.fromhex("c7a1bad1eebaa94baf20faf66aa4dcb8"), 0, 0, 0, 0, len(secs), symoff, nsym)
    else:
        head = struct.pack("<HHIIIHH", 0x8664, len(secs), 0, symoff, nsym, 0, 0)
    return bytes(head + heads + body + tab + strtab)


def write_import(public, dll, hint, typ, nametype, export=None):
    p = public.encode() + b"\0" + dll.encode() + b"\0" + (export.encode() + b"\0" if export is not None else b"")
    return struct.pack("<HHHHIIHH", 0, 0xffff, 0, 0x8664, 0, len(p), hint, typ | nametype << 2) + p


def write_archive(members, style="gnu"):
    """members: [(name, bytes)]"""
    out = bytearray(b"!<arch>\n")

    def put(name, data):
        out.extend(b"%-16s%-12d%-6d%-6d%-8s%-10d`\n" % (name, 0, 0, 0, b"644", len(data)))
        out.extend(data)
        if len(out) & 1:
            out.extend(b"\n")
    if style == "gnu":
        put(b"/", struct.pack(">I", 0))
        names = b""
        where = {}
        for n, _ in members:
            if len(n) > 15:
                where[n] = len(names)
                names += n.encode() + b"/\n"
        if names:
            put(b"//", names)
        for n, d in members:
            put(b"/%d" % where[n] if n in where else n.encode() + b"/", d)
    elif style == "bsd":
        for n, d in members:
            nb = n.encode().ljust((len(n) + 8) // 8 * 8, b"\0")
            put(b"#1/%d" % len(nb), nb + d)
    else:  # names as written by librarians
        put(b"/", struct.pack(">I", 0))
        put(b"/", struct.pack("<II", 0, 0))
        names = b""
        where = []
        for n, _ in members:
            where.append(len(names))
            names += n.encode() + b"\0"
        put(b"//", names)
        for (n, d), w in zip(members, where):
            put(b"/%d" % w, d)
    return bytes(out)


class PE:
    def __init__(self, data):
        self.data = data
        if data[:2] != b"MZ":
            raise ValueError("no MZ header")
        pe = struct.unpack_from("<I", data, 0x3c)[0]
        if data[pe:pe + 4] != b"PE\0\0":
            raise ValueError("no PE signature")
        (self.machine, nsec, _, symptr, nsym, opt, self.chars) = struct.unpack_from("<HHIIIHH", data, pe + 4)
        o = pe + 24
        (magic, _, _, self.codesize, self.initsize, self.uninitsize, self.entry, self.basecode) = struct.unpack_from("<HBBIIIII", data, o)
        (self.base, self.salign, self.falign) = struct.unpack_from("<QII", data, o + 24)
        (self.imagesize, self.headers) = struct.unpack_from("<II", data, o + 56)
        (self.subsystem, self.dllchars) = struct.unpack_from("<HH", data, o + 68)
        ndir = struct.unpack_from("<I", data, o + 108)[0]
        if magic != 0x20b or self.machine != 0x8664 or opt != 112 + 8 * ndir:
            raise ValueError("not a PE32+ image for amd64")
        self.dirs = [struct.unpack_from("<II", data, o + 112 + 8 * i) for i in range(ndir)]
        self.secs = []
        for i in range(nsec):
            n, vs, rva, rs, ro, _, _, _, _, fl = struct.unpack_from("<8sIIIIIIHHI", data, o + opt + 40 * i)
            name = n.rstrip(b"\0").decode("latin1")
            if name[:1] == "/" and name[1:].isdigit():
                k = symptr + 18 * nsym + int(name[1:])
                name = data[k:data.index(b"\0", k)].decode("latin1")
            self.secs.append({"name": name, "vsize": vs, "rva": rva, "rsize": rs, "off": ro, "flags": fl, "index": i + 1})
        self.hdr_end = o + opt + 40 * nsec

    def sec_at(self, rva):
        for s in self.secs:
            if s["rva"] <= rva < s["rva"] + max(s["vsize"], 1):
                return s
        return None

    def read(self, rva, n):
        for s in self.secs:
            if s["rva"] <= rva and rva + n <= s["rva"] + s["vsize"]:
                k = rva - s["rva"]
                b = self.data[s["off"] + k:s["off"] + min(k + n, s["rsize"])] if s["rsize"] > k else b""
                return b.ljust(n, b"\0")
        raise ValueError("rva %#x+%d is outside every section" % (rva, n))

    def u16(self, rva):
        return struct.unpack("<H", self.read(rva, 2))[0]

    def u32(self, rva):
        return struct.unpack("<I", self.read(rva, 4))[0]

    def s32(self, rva):
        return struct.unpack("<i", self.read(rva, 4))[0]

    def u64(self, rva):
        return struct.unpack("<Q", self.read(rva, 8))[0]

    def cstr(self, rva):
        out = b""
        while True:
            c = self.read(rva + len(out), 1)
            if c == b"\0":
                return out.decode("latin1")
            out += c
