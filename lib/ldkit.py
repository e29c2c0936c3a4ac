"""Helpers of the linker checks: building the linker under test, assembling
inputs with LLVM, reading ELF images."""
import os
import struct
import subprocess

import natbuild as nb
from natbuild import BuildError

ASAN = ("-O1", "-g", "-fsanitize=address,undefined", "-fno-sanitize-recover=all", "-fno-omit-frame-pointer",
        "-fno-sanitize=alignment,nonnull-attribute,returns-nonnull-attribute,pointer-overflow")


def build_ldrun(asan=False):
    """the linker sources of the current tree with the driver of /verif/harness"""
    extra = list(ASAN) if asan else ["-O1"]
    hh = nb.headers_hash([nb.REPO + "/" + d for d in ("src", "utils", "include")])
    import glob
    srcs = sorted(glob.glob(nb.REPO + "/src/ld/*.c")) + sorted(glob.glob(nb.REPO + "/utils/yaml/*.c")) + \
        sorted(p for p in glob.glob(nb.REPO + "/utils/*.c"))
    flags = nb.compiler_flags(extra)
    objs = nb.compile_objs("gcc", flags, srcs, hh, "linker")
    drv = nb.compile_objs("gcc", flags, [nb.VERIF + "/harness/ldrun.c"], hh, "ldrun")
    key = nb.sha(*(extra + drv + objs))
    out = os.path.join(nb.CACHE, "ldrun-" + key)
    if not os.path.exists(out):
        lib = out + ".%d.a" % os.getpid()
        r = subprocess.run(["ar", "qcD", lib] + objs, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError(r.stdout.decode())
        try:
            nb.link("gcc", drv + [lib], out, ["-fsanitize=address,undefined"] if asan else [])
        finally:
            os.unlink(lib)
    return out


TRIPLE = {"amd64": "x86_64-linux-gnu", "arm64": "aarch64-linux-gnu", "riscv64": "riscv64-linux-gnu"}
ATTR = {"amd64": [], "arm64": [], "riscv64": ["-mattr=+m,+a,+f,+d,+c"]}


def mc(triple, text, out, args=()):
    r = subprocess.run(["llvm-mc", "-triple=" + triple, "-filetype=obj", "-o", out] + list(args), input=text.encode(),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise RuntimeError("llvm-mc: %s\n%s" % (r.stdout.decode()[:2000], text[:4000]))


class Elf:
    """A little-endian ELF64 file read independently of the code under test."""

    def __init__(self, data):
        self.data = data
        if data[:4] != b"\x7fELF" or data[4] != 2 or data[5] != 1:
            raise ValueError("not an ELF64 LSB file")
        (self.type, self.machine, _, self.entry, self.phoff, self.shoff, self.flags, self.ehsize, self.phentsize,
         self.phnum, self.shentsize, self.shnum, self.shstrndx) = struct.unpack_from("<HHIQQQIHHHHHH", data, 16)
        self.ph = []
        for i in range(self.phnum):
            t, f, off, va, pa, fs, ms, al = struct.unpack_from("<IIQQQQQQ", data, self.phoff + i * self.phentsize)
            self.ph.append({"type": t, "flags": f, "off": off, "va": va, "filesz": fs, "memsz": ms, "align": al})
        self.sh = []
        for i in range(self.shnum):
            n, t, f, a, off, sz, l, inf, al, es = struct.unpack_from("<IIQQQQIIQQ", data, self.shoff + i * self.shentsize)
            self.sh.append({"n": n, "type": t, "flags": f, "addr": a, "off": off, "size": sz, "link": l, "info": inf,
                            "align": al, "entsize": es, "index": i})
        if self.sh:
            st = self.sh[self.shstrndx]
            for s in self.sh:
                s["name"] = self.cstr(st["off"] + s["n"])

    def cstr(self, off):
        return self.data[off:self.data.index(b"\0", off)].decode("latin1")

    def section(self, name):
        for s in self.sh:
            if s["name"] == name:
                return s
        return None

    def content(self, s):
        return self.data[s["off"]:s["off"] + s["size"]] if s["type"] != 8 else b"\0" * s["size"]

    def symbols(self):
        out = []
        for s in self.sh:
            if s["type"] == 2:
                st = self.sh[s["link"]]
                for k in range(s["size"] // 24):
                    n, info, other, shndx, val, sz = struct.unpack_from("<IBBHQQ", self.data, s["off"] + 24 * k)
                    out.append({"name": self.cstr(st["off"] + n), "type": info & 15, "bind": info >> 4,
                                "vis": other & 3, "shndx": shndx, "value": val, "size": sz, "index": k,
                                "first_global": s["info"]})
        return out


PF_X, PF_W, PF_R = 1, 2, 4


class Image:
    """What the loader would put into memory, at a chosen base; RELATIVE and
    IRELATIVE relocations are applied (an IRELATIVE slot gets IFUNC + resolver)."""
    IFUNC = 1 << 60
    RELATIVE = {62: 8, 183: 1027, 243: 3}
    IRELATIVE = {62: 37, 183: 1032, 243: 58}

    def __init__(self, elf, base):
        self.elf = elf
        self.base = base
        self.segs = []
        for p in elf.ph:
            if p["type"] == 1:
                mem = bytearray(elf.data[p["off"]:p["off"] + p["filesz"]])
                if len(mem) != p["filesz"]:
                    raise ValueError("load segment reaches past the end of the file")
                mem += b"\0" * (p["memsz"] - p["filesz"])
                self.segs.append([p["va"] + base, mem, p["flags"], p])
        self.relocs = 0

    def seg(self, addr, size=1):
        for s in self.segs:
            if s[0] <= addr and addr + size <= s[0] + len(s[1]):
                return s
        return None

    def read(self, addr, size):
        s = self.seg(addr, size)
        if s is None:
            raise ValueError("address %#x is outside every load segment" % addr)
        return bytes(s[1][addr - s[0]:addr - s[0] + size])

    def u64(self, addr):
        return struct.unpack("<Q", self.read(addr, 8))[0]

    def u32(self, addr):
        return struct.unpack("<I", self.read(addr, 4))[0]

    def u16(self, addr):
        return struct.unpack("<H", self.read(addr, 2))[0]

    def s32(self, addr):
        return struct.unpack("<i", self.read(addr, 4))[0]

    def put64(self, addr, v):
        s = self.seg(addr, 8)
        if s is None:
            raise ValueError("dynamic relocation at %#x outside every load segment" % addr)
        if not s[2] & PF_W:
            raise ValueError("dynamic relocation at %#x in a read-only segment" % addr)
        struct.pack_into("<Q", s[1], addr - s[0], v & (1 << 64) - 1)

    def apply(self, start, end):
        rel, irel = self.RELATIVE[self.elf.machine], self.IRELATIVE[self.elf.machine]
        for a in range(start, end, 24):
            off, info, add = struct.unpack("<QQq", self.read(a, 24))
            t = info & 0xffffffff
            if t == rel:
                self.put64(off + self.base, add + self.base)
            elif t == irel:
                self.put64(off + self.base, (add + self.base) | self.IFUNC)
            elif t == 0:
                pass
            else:
                raise ValueError("unexpected dynamic relocation type %d" % t)
            self.relocs += 1

    def find(self, pat):
        """addresses of every occurrence of the bytes"""
        out = []
        for va, mem, fl, p in self.segs:
            i = mem.find(pat)
            while i >= 0:
                out.append(va + i)
                i = mem.find(pat, i + 1)
        return out
