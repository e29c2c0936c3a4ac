"""P23: linking COFF objects gives a PE image in which every reference reaches its target."""
import os
import struct
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
import ldkit
from coffkit import (ABSOLUTE, ADDR32, ADDR32NB, ADDR64, BSS, CODE, COMDAT, DATA, DISCARD, EXEC, PE, READ, REL32, REMOVE,
                     SECREL, SECTION, WRITE, Sec, Sym, write_archive, write_import, write_obj)
from direct import DCase, Inconclusive, run_direct
from pbt import Check, run_main

LD = None
ANY, SAME, EXACT, ASSOC, LARGEST, NODUP = 2, 3, 4, 5, 6, 1

KINDS = {
    "text": (CODE | EXEC | READ, [".text", ".text$a", ".text$mn", ".text$zz"]),
    "rdata": (DATA | READ, [".rdata", ".rdata$r", ".rdata$zzz", ".xdata"]),
    "data": (DATA | READ | WRITE, [".data", ".data$a", ".data$b", "mydata", ".averylongname", ".averylongname$x"]),
    "crt": (DATA | READ, [".CRT$XCA", ".CRT$XCU", ".CRT$XCZ", ".CRT$XIA", ".CRT$XLB"]),
    "tls": (DATA | READ | WRITE, [".tls", ".tls$", ".tls$AAA", ".tls$ZZZ"]),
    "bss": (BSS | READ | WRITE, [".bss", ".bss$x", ".data$bss", ".tls$bss"]),
    "debug": (DATA | READ | DISCARD, [".debug_info", ".debug_line", ".debug_s"]),
}


class World:
    def __init__(self, d):
        self.d = d
        self.nid = 0
        self.objs = []
        self.kept_only = []
        self.feats = set()

    def marker(self):
        self.nid += 1
        return b"\xc0\xff\xee" + struct.pack("<I", self.nid * 2654435761 % 2**32) + b"sec%05d\xfe" % self.nid


class Obj:
    def __init__(self, k, archive=None):
        self.k = k
        self.name = "o%d" % k
        self.archive = archive
        self.secs = []
        self.syms = []
        self.undef = {}
        self.sites = []    # (sec, offset, type, symbol, addend)
        self.defs = {}
        self.directives = []
        self.big = False
        self.pad = 0
        self.pdata = []
        self.include = []
        self.shadow = False
        self.learn = 0     # leading sites of the address table

    def ref(self, name):
        """symbol of this object naming a global"""
        if name in self.defs:
            return self.defs[name]
        if name not in self.undef:
            y = Sym(name)
            self.undef[name] = y
            self.syms.append(y)
        return self.undef[name]


def new_sec(w, o, kind=None, name=None, size=None, mark=True):
    d = w.d
    kind = kind or d.weighted([(4, "text"), (3, "rdata"), (4, "data"), (1, "crt"), (1, "tls"), (2, "bss"), (1, "debug")])
    fl, names = KINDS[kind]
    s = Sec(name or d.choice(names), fl, 1 << d.weighted([(3, 0), (1, 1), (1, 2), (2, 3), (2, 4), (1, 5), (1, 6), (1, 12)]), b"")
    s.kind = kind
    s.obj = o
    s.mark = None
    n = 16 + (size if size is not None else d.weighted([(20, d.int(0, 40)), (1, d.int(3000, 9000))]))
    if kind == "bss":
        s.size = n
    else:
        s.mark = w.marker()
        s.data = bytearray(s.mark + bytes((i * 7 + w.nid) & 255 for i in range(n - 16)))
        if kind == "text" and not mark:
            pass
        s.size = len(s.data)
    o.secs.append(s)
    w.feats.add(kind)
    return s


def define(w, o, name, s, value, cls=2):
    y = Sym(name, s, value, cls, typ=0x20 if s != "abs" and s is not None and s.kind == "text" else 0)
    o.syms.append(y)
    if cls == 2:
        o.defs[name] = y
    return y


def site(o, s, typ, y, addend):
    n = {ADDR64: 8, SECTION: 2}.get(typ, 4)
    off = len(s.data)
    s.data.extend((addend & (256 ** n - 1)).to_bytes(n, "little"))
    s.size = len(s.data)
    s.relocs.append((off, y, typ))
    o.sites.append((s, off, typ, y, addend))


def gen(d, bad=False):
    w = World(d)
    nobj = d.int(1, 4)
    objs = [Obj(k) for k in range(nobj)]
    nlib = d.weighted([(2, 0), (3, 1), (2, 2)])
    members = []
    for a in range(nlib):
        for _ in range(d.int(1, 4)):
            members.append(Obj(nobj + len(members), archive=a))
    allobjs = objs + members
    w.globals = {}      # name -> kind
    for o in allobjs:
        o.big = d.bool(1, 5)
        o.pad = d.choice([0, 0, 1, 3, 7])
        for _ in range(d.int(1, 4)):
            new_sec(w, o)
        holder = new_sec(w, o, "data" if d.bool(2, 3) else "rdata")
        o.holder = holder
    # globals with one definition
    names = []
    for o in allobjs:
        for j in range(d.int(1, 3)):
            nm = "g%d_%d" % (o.k, j) + ("_a_long_symbol_name" if d.bool(1, 3) else "")
            s = d.choice([x for x in o.secs if x.kind != "debug"])
            define(w, o, nm, s, d.int(0, s.size))
            names.append(nm)
            w.globals[nm] = "def"
        if d.bool(1, 4):
            s = d.choice(o.secs)
            o.local = define(w, o, "local" if d.bool() else "local_with_long_name", s, d.int(0, s.size), cls=3)
        else:
            o.local = None
    if d.bool(1, 3):
        # a member that would also define a name, in a later archive: never extracted for it
        cand = [m for m in members]
        if cand:
            src = d.choice(cand)
            sh = Obj(len(allobjs), archive=max(m.archive for m in members) + 1)
            s = new_sec(w, sh, "data")
            sh.holder = s
            sh.local = None
            sh.shadow = True
            define(w, sh, d.choice(sorted(src.defs)), s, 0)
            members.append(sh)
            allobjs.append(sh)
            w.feats.add("shadowed")
    # comdats
    w.comdats = {}
    for c in range(d.weighted([(2, 0), (2, 1), (2, 2), (1, 3)])):
        nm = "cd%d" % c + ("_long_comdat_leader" if d.bool() else "")
        sel = d.choice([ANY, ANY, SAME, EXACT, LARGEST, NODUP])
        pool = objs if d.bool(3, 4) or not members else [d.choice([m for m in members if not m.shadow])]
        pool = [pool[0]] if sel == NODUP else [o for o in pool if d.bool(3, 4)] or [pool[-1]]
        size = d.int(0, 30)
        second = d.bool(1, 3)
        proto = None
        kind = d.choice(["text", "rdata", "data", "bss" if sel in (ANY, LARGEST, SAME) else "data"])
        for o in pool:
            for _ in range(1):
                sz = size if sel in (SAME, EXACT) else d.int(0, 30)
                s = new_sec(w, o, kind, d.choice(KINDS[kind][1][:2]) + "", sz)
                s.flags |= COMDAT
                s.selection = sel
                if sel == EXACT:
                    if proto is None:
                        proto = (s.data, s.mark)
                    else:
                        s.data, s.mark = bytearray(proto[0]), proto[1]
                y = define(w, o, nm, s, d.choice([0, 0, 4]))
                s.leader = y
                if second:
                    define(w, o, nm + "_x", s, 12)
                if d.bool(1, 3):
                    a = new_sec(w, o, d.choice(["rdata", "data"]))
                    a.flags |= COMDAT
                    a.selection = ASSOC
                    a.assoc = s
                    if d.bool(1, 3):
                        o.secs.remove(a)
                        o.secs.insert(o.secs.index(s), a)
                    w.feats.add("associative")
                w.comdats.setdefault(nm, []).append(s)
        names.append(nm)
        w.globals[nm] = "comdat"
        if second:
            names.append(nm + "_x")
            w.globals[nm + "_x"] = "comdat"
        w.feats.add("comdat%d" % sel)
    # commons, absolutes
    w.commons = {}
    for c in range(d.weighted([(3, 0), (2, 1), (1, 3)])):
        nm = "com%d" % c
        for o in [o for o in objs if d.bool(2, 3)] or [objs[0]]:
            sz = d.int(1, 70)
            y = Sym(nm, None, sz)
            o.syms.append(y)
            o.defs[nm] = y
            w.commons.setdefault(nm, []).append(sz)
        names.append(nm)
        w.globals[nm] = "common"
        w.feats.add("common")
        free = [o for o in objs if nm not in o.defs]
        if free and d.bool(1, 4):
            s = d.choice([x for x in free[0].secs if x.kind != "debug" and not x.flags & COMDAT])
            define(w, free[0], nm, s, d.int(0, s.size))
            w.globals[nm] = "def"
            w.feats.add("common+def")
    absn = []
    for c in range(d.weighted([(3, 0), (1, 1)])):
        o = d.choice(objs)
        y = Sym("abs%d" % c, "abs", d.int(0, 2**31 - 1))
        o.syms.append(y)
        o.defs[y.name] = y
        absn.append(y.name)
        w.globals[y.name] = "abs"
        w.feats.add("absolute")
    # weak externals
    w.weak = {}
    for c in range(d.weighted([(3, 0), (2, 1), (1, 2)])):
        nm = "wk%d" % c
        strong = d.bool(1, 3)
        so = d.choice(objs)
        for o in objs:
            if o is so and strong:
                s = d.choice([x for x in o.secs if x.kind != "debug" and not x.flags & COMDAT])
                define(w, o, nm, s, d.int(0, s.size))
            elif d.bool():
                fb = ".weak.%s.default.%d" % (nm, o.k)
                s = d.choice([x for x in o.secs if x.kind != "debug" and not x.flags & COMDAT])
                f = define(w, o, fb, s, d.int(0, s.size))
                y = Sym(nm, weak=f, search=d.choice([1, 2, 3, 3]))
                o.syms.append(y)
                o.undef[nm] = y
                w.weak.setdefault(nm, []).append((o, fb))
                w.globals[fb] = "def"
        if strong or nm in w.weak:
            names.append(nm)
            w.globals[nm] = "weak"
            w.feats.add("weak+strong" if strong else "weak")
    # imports
    w.imports = {}
    imp_members = []
    for c in range(d.weighted([(2, 0), (1, 1), (2, 3), (1, 6)])):
        typ = d.choice([0, 0, 1, 2])
        nt = d.choice([0, 1, 1, 2, 3, 4])
        nm = d.choice(["", "", "_", "?", "@"]) + "imp%d" % c + d.choice(["", "", "@8", "@@YAXH@Z"])
        dll = d.choice(["alpha.dll", "beta.dll", "Alpha.DLL", "a-much-longer-name.dll"])
        hint = d.int(0, 65535)
        ex = "exported%d" % c if nt == 4 else None
        imp = nm
        if nt in (2, 3) and imp[:1] in "_@?":
            imp = imp[1:]
        if nt == 3:
            imp = imp.split("@")[0]
        if nt == 4:
            imp = ex
        w.imports[nm] = {"dll": dll, "type": typ, "key": ("ord", hint) if nt == 0 else ("name", imp, hint)}
        imp_members.append((nm, dll, write_import(nm, dll, hint, typ, nt, ex)))
        w.feats.add("import-n%d" % nt)
    # directives
    w.alias = {}
    w.deflib = None
    for o in objs:
        if d.bool(1, 6):
            src, dst = "alt%d" % o.k, d.choice([n for n in names if w.globals[n] in ("def", "comdat", "common")])
            w.alias.setdefault(src, dst)
            names.append(src)
            w.globals[src] = "alias"
            o.directives.append(d.choice(["/alternatename:%s=%s", "-ALTERNATENAME:%s=%s", "/alternatename:\"%s=%s\""]) % (src, dst))
            w.feats.add("alternatename")
        if members and d.bool(1, 6):
            inc = d.choice(sorted(d.choice(members).defs))
            o.directives.append("/include:" + inc)
            o.include.append(inc)
            w.feats.add("include")
        if d.bool(1, 8):
            w.deflib = o
        if d.bool(1, 8):
            o.directives.append("/failifmismatch:\"key=%s\"" % "1")
    # reference sites
    w.pie = d.bool(3, 4)
    w.debug = d.bool(1, 3)
    lim = {}
    for o in allobjs:
        prim = new_sec(w, o, d.choice(["text", "data", "rdata"]))
        o.tab = new_sec(w, o, "data", ".data")
        for s in o.secs:
            if s.flags & BSS and not s.flags & COMDAT:
                site(o, o.tab, ADDR32NB, s, 0)
        for nm in sorted(o.defs):
            if w.globals.get(nm) in ("common",) or (w.globals.get(nm) == "comdat" and o.defs[nm].sec.flags & BSS):
                site(o, o.tab, ADDR32NB, o.defs[nm], 0)
        o.learn = len(o.sites)
        for _ in range(d.int(0, 14)):
            s = d.choice([x for x in o.secs if not x.flags & BSS and (x.selection in (0, ANY, LARGEST))])
            if s.selection == LARGEST:
                continue      # sizes are fixed
            what = d.weighted([(6, "global"), (2, "own"), (1, "image"), (2, "import" if w.imports else "global"),
                               (1, "abs" if absn else "global")])
            t = d.choice([ADDR64, ADDR64, ADDR32NB, REL32, REL32, REL32 + d.int(1, 5), SECTION, SECREL, ABSOLUTE])
            add = d.choice([0, 0, 0, d.int(0, 100), -d.int(0, 100), d.int(0, 30000)])
            if what == "own":
                cands = [x for x in o.secs if x.kind != "debug" and not x.flags & COMDAT]
                y = o.local if o.local is not None and o.local.sec.kind != "debug" and not o.local.sec.flags & COMDAT and d.bool() else d.choice(cands)
            elif what == "image":
                y = o.ref(d.choice(["__ImageBase", "__ImageBase", "__image_base__"]))
                t = d.choice([ADDR64, ADDR32NB, REL32])
                add = abs(add)
            elif what == "abs":
                y = o.ref(d.choice(absn))
                t = d.choice([ADDR64, ADDR32])
                add = abs(add)
            elif what == "import":
                nm = d.choice(sorted(w.imports))
                im = w.imports[nm]
                y = o.ref(nm if im["type"] != 1 and d.bool() else "__imp_" + nm)
                add = 0
                if t in (SECTION, SECREL):
                    t = REL32
            else:
                y = o.ref(d.choice(names))
                if w.globals[y.name] == "abs":
                    continue
            if t == SECREL:
                add = abs(add)
            if t == SECTION:
                add = 0
            site(o, s, t, y, add)
            w.feats.add("r%d" % t)
        if d.bool(1, 4):
            fns = [x for x in o.secs if x.kind == "text" and not x.flags & COMDAT]
            if fns:
                p = Sec(".pdata", DATA | READ, 4, b"")
                p.kind, p.obj, p.mark = "pdata", o, None
                o.secs.append(p)
                for _ in range(d.int(1, 3)):
                    f = d.choice(fns)
                    a, b = 0, d.int(1, 12)
                    for y, v in ((f, a), (f, b), (d.choice([x for x in o.secs if x.kind in ("rdata", "data") and not x.flags & COMDAT]), 0)):
                        off = len(p.data)
                        p.data.extend(struct.pack("<I", v))
                        p.relocs.append((off, y, ADDR32NB))
                        o.pdata.append((y, v))
                p.size = len(p.data)
                w.feats.add("pdata")
    w.lists = {}
    for nm, sn in (("__CTOR_LIST__", ".ctors"), ("__DTOR_LIST__", ".dtors")):
        if d.bool(1, 8):
            for o in objs:
                for _ in range(d.int(0, 2)):
                    c = Sec(sn, DATA | READ | WRITE, 8, b"")
                    c.kind, c.obj, c.mark = "list", o, None
                    o.secs.append(c)
                    t = d.choice([x for x in o.secs if x.kind == "text" and not x.flags & COMDAT] or [o.tab])
                    c.data.extend(struct.pack("<Q", d.int(0, 9)))
                    c.relocs.append((0, t, ADDR64))
                    c.size = 8
                    w.lists.setdefault(nm, []).append((o, c, t, c.data[0]))
            o = d.choice(objs)
            y = o.ref(nm)
            site(o, o.tab, ADDR32NB, y, 0)
            w.lists.setdefault(nm, [])
            w.listsite = getattr(w, "listsite", []) + [(nm, o, len(o.tab.data) - 4)]
            w.feats.add("ctor-list")
    w.bounds = []
    if d.bool(1, 8):
        o = d.choice(objs)
        for nm in ("__data_start__", "__data_end__"):
            site(o, o.tab, ADDR32NB, o.ref(nm), 0)
            w.bounds.append((o, len(o.tab.data) - 4))
        w.feats.add("bounds")
    if d.bool(1, 5):
        o = d.choice(objs)
        s = new_sec(w, o, "rdata", ".rdata$T", 40)
        define(w, o, "_tls_used", s, 16)
        w.feats.add("tls-directory")
    entry_obj = d.choice(objs)
    es = new_sec(w, entry_obj, "text")
    w.entry = d.choice(["mainCRTStartup", "mainCRTStartup", "start_here"])
    define(w, entry_obj, w.entry, es, d.int(0, 15))
    if d.bool(1, 100):
        o = d.choice(objs)
        s = new_sec(w, o, "data")
        y = o.ref(w.entry)
        for _ in range(65535 + d.int(0, 2)):
            s.relocs.append((0, y, ABSOLUTE))
        site(o, s, ADDR64, y, 3)
        w.feats.add("reloc-overflow")
    w.nodef = False
    if w.deflib is not None and members:
        # the last archive is found through a directive and the library path
        w.defname = d.choice(["deflib", "deflib.lib"])
        w.deflib.directives.append(d.choice(["/defaultlib:%s", "/DEFAULTLIB:\"%s\"", "-defaultlib:%s"]) % w.defname)
        w.feats.add("defaultlib")
    else:
        w.deflib = None
    for o in allobjs:
        if d.bool(1, 4):
            e = Sec(d.choice([".text", ".data", ".bss"]), d.choice([CODE | EXEC | READ, DATA | READ]), 4, b"")
            e.kind, e.obj, e.mark = "empty", o, None
            o.secs.insert(d.int(0, len(o.secs)), e)
        if d.bool(1, 6):
            r = new_sec(w, o, "rdata", ".note")
            r.flags |= REMOVE
        if o.directives:
            t = Sec(".drectve", 0x200 | 0x800, 1, (" ".join(o.directives) + " ").encode())
            t.kind, t.obj, t.mark = "drectve", o, None
            o.secs.append(t)
    w.bad = inject(w, d, objs, names) if bad else None
    # command line
    w.objs, w.members, w.allobjs = objs, members, allobjs
    w.imp = imp_members
    w.style = d.choice(["gnu", "gnu", "bsd", "ms"])
    w.order = d.shuffle(["o%d" % o.k for o in objs[1:]])
    w.objorder = [objs[0]] + sorted(objs[1:], key=lambda o: w.order.index("o%d" % o.k))
    w.libfirst = d.bool(1, 3)
    model(w)
    feats = sorted(w.feats)
    return DCase(key=repr((w.bad, [[(s.name, s.flags, bytes(s.data), s.size, [(r[0], r[2], getattr(r[1], "name", "")) for r in s.relocs][:50]) for s in o.secs] for o in allobjs], w.entry, w.pie)),
                 nontrivial=len(feats) >= 8, sample="%d objects, %d members, %s" % (nobj, len(members), " ".join(feats)),
                 feats=feats, info=describe(w), w=w)


def inject(w, d, objs, names):
    k = d.choice(["undefined", "duplicate", "nodup", "same", "exact", "select", "mismatch", "addr32", "entry"])
    o = d.choice(objs)
    if k == "undefined":
        site(o, o.tab, ADDR64, o.ref("nowhere"), 0)
    elif k == "duplicate":
        nm = d.choice([n for n in names if w.globals[n] == "def" and any(n in x.defs for x in objs)])
        own = [x for x in objs if nm in x.defs and x.defs[nm].sec is not None][0]
        p = Obj(90)
        p.local = None
        p.holder = p.tab = new_sec(w, p, "data")
        define(w, p, nm, p.holder, 0)
        objs.append(p)
    elif k in ("nodup", "same", "exact", "select"):
        sel = {"nodup": NODUP, "same": SAME, "exact": EXACT, "select": ANY}[k]
        for i in range(2):
            p = Obj(90 + i)
            p.local = None
            s = new_sec(w, p, "data", None, 8 + 8 * i if k == "same" else 8)
            p.holder = p.tab = s
            s.flags |= COMDAT
            s.selection = LARGEST if k == "select" and i else sel
            s.leader = define(w, p, "badcd", s, 0)
            objs.append(p)
    elif k == "mismatch":
        for i in range(2):
            p = Obj(90 + i)
            p.local = None
            p.holder = p.tab = new_sec(w, p, "data")
            t = Sec(".drectve", 0xA00, 1, b"/failifmismatch:badkey=%d" % i)
            t.kind, t.obj, t.mark = "drectve", p, None
            p.secs.append(t)
            objs.append(p)
    elif k == "addr32":
        site(o, o.tab, ADDR32, o.ref(w.entry), 0)
    else:
        w.entry = "no_such_entry"
    return k


def describe(w):
    out = []
    for o in w.allobjs:
        out.append("object %s%s%s" % (o.name, " archive %d" % o.archive if o.archive is not None else "", " big" if o.big else ""))
        for s in o.secs:
            out.append("  section %s %s size %d align %d sel %d%s" % (s.name, s.kind, s.size, s.align, s.selection,
                                                                     " assoc" if s.assoc is not None else ""))
            for r in s.relocs[:40]:
                out.append("    +%d type %d -> %s" % (r[0], r[2], getattr(r[1], "name", "?")))
        for y in o.syms:
            out.append("  symbol %s %s %d%s" % (y.name, y.sec if y.sec in (None, "abs") else y.sec.name, y.value, " weak->" + y.weak.name if y.weak is not None else ""))
        for x in o.directives:
            out.append("  directive " + x)
    out.append("imports %s" % w.imports)
    out.append("entry %s pie %s debug %s order %s bad %s" % (w.entry, w.pie, w.debug, w.order, w.bad))
    return "\n".join(out)


def model(w):
    """which objects are linked, and where every global name leads"""
    loaded = list(w.objorder)
    for o in w.objs:
        if o not in loaded:
            loaded.append(o)
    # the first member in command-line order provides a name
    prov = {}
    for m in sorted(w.members, key=lambda m: m.archive):
        for n in m.defs:
            prov.setdefault(n, m)
    wanted_imports = set()
    while True:
        have = set()
        for o in loaded:
            have |= set(o.defs)
        need = set([w.entry])
        for o in loaded:
            need |= set(o.undef) | set(o.include)
        for src, dst in w.alias.items():
            if src in need and src not in have:
                need.add(dst)
        more = []
        for n in sorted(need):
            if n in have:
                continue
            if n in prov and prov[n] not in loaded and prov[n] not in more:
                more.append(prov[n])
            b = n[6:] if n.startswith("__imp_") else n
            if b in w.imports:
                wanted_imports.add(b)
        if not more:
            break
        loaded += more
    w.loaded = loaded
    w.wanted_imports = wanted_imports
    # comdat choice
    drop = set()
    w.prevail = {}
    for nm, secs in w.comdats.items():
        secs = sorted((s for s in secs if s.obj in loaded), key=lambda s: loaded.index(s.obj))
        if not secs:
            continue
        best = secs[0]
        for s in secs[1:]:
            if s.selection == LARGEST and s.size > best.size:
                best = s
        w.prevail[nm] = best
        drop |= {id(s) for s in secs if s is not best}
    for o in loaded:
        for s in o.secs:
            if s.assoc is not None and id(s.assoc) in drop:
                drop.add(id(s))
    w.drop = drop
    w.kept = [s for o in loaded for s in o.secs if id(s) not in drop and s.kind not in ("empty", "drectve")
              and not s.flags & REMOVE and (w.debug or s.kind != "debug")]


def find_def(w, name, depth=0):
    """(sec, value) | ("common", size) | ("abs", v) | ("thunk"|"iat", import) | ("image",)"""
    if name in ("__ImageBase", "__image_base__"):
        return ("image",)
    if name in ("__CTOR_LIST__", "__DTOR_LIST__", "__data_start__", "__data_end__"):
        return ("made",)
    for o in w.loaded:
        y = o.defs.get(name)
        if y is not None and y.sec not in (None, "abs") and id(y.sec) not in w.drop:
            return ("sec", y.sec, y.value)
    for o in w.loaded:
        y = o.defs.get(name)
        if y is not None and y.sec == "abs":
            return ("abs", y.value)
    if name in w.commons:
        return ("common", name, max(w.commons[name]))
    if name in w.wanted_imports:
        return ("thunk" if w.imports[name]["type"] == 0 else "iat", name)
    if name.startswith("__imp_") and name[6:] in w.wanted_imports:
        return ("iat", name[6:])
    for o in w.loaded:
        for n, fb in [(n, f) for n, l in w.weak.items() for (oo, f) in l if oo is o]:
            if n == name:
                return find_def(w, fb, depth + 1)
    if name in w.alias and depth < 4:
        return find_def(w, w.alias[name], depth + 1)
    return None


def build(w, dr):
    def obj_bytes(o):
        return write_obj(o.secs, o.syms, o.big, o.pad)
    files = []
    for o in w.loaded:
        if o.archive is None:
            p = dr + "/%s.obj" % o.name
            open(p, "wb").write(obj_bytes(o))
            files.append(p)
    libs = []
    for a in sorted({m.archive for m in w.members}):
        ms = [m for m in w.members if m.archive == a]
        p = dr + "/lib%d.%s" % (a, "a" if w.style == "bsd" else "lib")
        open(p, "wb").write(write_archive([("member%d%s.obj" % (m.k, "_with_a_long_name" if m.k % 2 else ""), obj_bytes(m)) for m in ms], w.style))
        if w.deflib is not None and a == max(m.archive for m in w.members):
            os.mkdir(dr + "/libs")
            os.rename(p, dr + "/libs/deflib.lib")
            continue
        libs.append(p)
    if w.imp:
        p = dr + "/imports.lib"
        open(p, "wb").write(write_archive([(dll, b) for _, dll, b in w.imp], "gnu" if w.style == "bsd" else w.style))
        libs.append(p)
    return libs + files if w.libfirst else files + libs


def do_link(w, dr, out):
    args = [LD, "windows", "amd64", str(int(w.pie)), str(int(w.debug)), w.entry if w.entry != "mainCRTStartup" else "-", out] + build(w, dr)
    if w.deflib is not None:
        args.append("-L" + dr + "/libs")
    if w.entry == "mainCRTStartup":
        args[5] = "mainCRTStartup"
    try:
        r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    except subprocess.TimeoutExpired:
        raise Inconclusive("linker timed out")
    return r.returncode, r.stdout.decode("latin1")


def evaluate(case, dr):
    w = case.w
    out = dr + "/a.exe"
    rc, msg = do_link(w, dr, out)
    if rc:
        return "valid link refused: rc %d %s" % (rc, msg[:400])
    try:
        return verify(w, open(out, "rb").read())
    except (ValueError, struct.error, IndexError) as e:
        return "malformed image: %s" % e


def eval_bad(case, dr):
    w = case.w
    out = dr + "/a.exe"
    open(out, "wb").write(b"previous")
    rc, msg = do_link(w, dr, out)
    if rc < 0 or rc >= 128:
        return "linker crashed: %d %s" % (rc, msg[:300])
    if rc == 0:
        return "invalid input accepted: %s" % w.bad
    if "error" not in msg:
        return "no diagnostic: %s" % w.bad
    if open(out, "rb").read() != b"previous":
        return "failed link changed the output: %s" % w.bad
    return None


def verify(w, data):
    pe = PE(data)
    # headers
    end = pe.headers
    if pe.hdr_end > pe.headers or pe.headers % pe.falign:
        return "headers: size %d" % pe.headers
    last = 0
    for s in pe.secs:
        if s["rva"] % pe.salign or s["rva"] < last or s["rva"] < pe.headers:
            return "headers: section %s at %#x overlaps or is misaligned" % (s["name"], s["rva"])
        last = s["rva"] + max(s["vsize"], 1)
        if s["rsize"]:
            if s["off"] % pe.falign or s["rsize"] % pe.falign or s["off"] < end:
                return "headers: file range of section %s" % s["name"]
            end = s["off"] + s["rsize"]
            if end > len(data):
                return "headers: section %s reaches past the end of the file" % s["name"]
    if pe.imagesize % pe.salign or pe.imagesize != -(-last // pe.salign) * pe.salign:
        return "headers: image size %#x, last section ends at %#x" % (pe.imagesize, last)
    for what, bit, got in (("code", CODE, pe.codesize), ("initialised", DATA, pe.initsize)):
        want = sum(s["rsize"] for s in pe.secs if s["flags"] & bit)
        if got != want:
            return "headers: size of %s data is %d, sections have %d" % (what, got, want)
    code = [s["rva"] for s in pe.secs if s["flags"] & CODE]
    if code and pe.basecode != code[0]:
        return "headers: base of code"
    if bool(pe.chars & 1) != (not w.pie) or bool(pe.dllchars & 0x40) != w.pie:
        return "headers: relocatability flags %#x %#x, position independent %s" % (pe.chars, pe.dllchars, w.pie)
    # contents
    addr = {}
    marks = {}
    for s in w.kept:
        if s.mark:
            marks[s.mark] = s
    pos = 0
    found = {}
    while True:
        pos = data.find(b"\xc0\xff\xee", pos)
        if pos < 0:
            break
        m = data[pos:pos + 16]
        if m[7:10] == b"sec" and m[15:16] == b"\xfe":
            found.setdefault(m, []).append(pos)
        pos += 1
    for m, l in found.items():
        if m not in marks:
            who = [(o.name, s.name) for o in w.allobjs for s in o.secs if s.mark == m]
            return "contents: a section that must not be linked is in the image: %s" % who
        if len(l) > 1:
            return "contents: section %s of %s occurs %d times" % (marks[m].name, marks[m].obj.name, len(l))
    for m, s in marks.items():
        if m not in found:
            return "contents: section %s of %s is missing" % (s.name, s.obj.name)
        off = found[m][0]
        osec = [x for x in pe.secs if x["off"] <= off < x["off"] + x["rsize"] and x["rsize"]]
        if not osec:
            return "contents: section %s of %s lies outside all sections" % (s.name, s.obj.name)
        addr[id(s)] = osec[0]["rva"] + off - osec[0]["off"]
    bykey = {id(s): s for s in w.kept}

    def sym_rva(o, y):
        """('rva', n) or ('abs', n), or None when not known yet"""
        if isinstance(y, Sec):
            return ("rva", addr[id(y)]) if id(y) in addr else None
        if y.cls == 3:
            return ("rva", addr[id(y.sec)] + y.value) if id(y.sec) in addr else None
        r = find_def(w, y.name)
        if r is None:
            raise RuntimeError("model: %s is undefined" % y.name)
        if r[0] == "sec":
            return ("rva", addr[id(r[1])] + r[2]) if id(r[1]) in addr else None
        if r[0] == "common":
            return ("rva", addr[r[1]]) if r[1] in addr else None
        if r[0] in ("abs", "made"):
            return r
        if r[0] == "image":
            return ("rva", 0)
        return ("import",) + r
    # addresses of sections without contents, learned from the tables of addresses
    space = []
    for o in w.loaded:
        for s, off, t, y, add in o.sites[:o.learn]:
            if id(s) in addr and sym_rva(o, y) is None:
                v = pe.u32(addr[id(s)] + off)
                if isinstance(y, Sec):
                    addr[id(y)] = v
                else:
                    r = find_def(w, y.name)
                    if r[0] == "sec":
                        addr[id(r[1])] = v - r[2]
                    else:
                        addr[r[1]] = v
                        al = 1
                        while al < r[2] and al < 32:
                            al *= 2
                        if v % al:
                            return "layout: common %s at %#x is not aligned to %d" % (r[1], v, al)
                        space.append((v, r[2], "common " + r[1]))
                        if pe.sec_at(v) is None or not pe.sec_at(v)["flags"] & WRITE:
                            return "layout: common %s is not in writable memory" % r[1]
    # layout
    outs = {}
    for s in w.kept:
        if s.kind in ("pdata", "list"):
            continue
        if id(s) not in addr:
            continue
        a = addr[id(s)]
        if a % s.align:
            return "layout: section %s of %s at %#x is not aligned to %d" % (s.name, s.obj.name, a, s.align)
        x = pe.sec_at(a)
        if x is None or a + s.size > x["rva"] + x["vsize"]:
            return "layout: section %s of %s does not lie within a section" % (s.name, s.obj.name)
        full = s.name.split("$")[0]
        if x["name"] not in (full, full[:8]):
            return "layout: section %s of %s is in %s" % (s.name, s.obj.name, x["name"])
        outs.setdefault(x["index"], []).append(s)
        space.append((a, s.size, "%s of %s" % (s.name, s.obj.name)))
    space.sort()
    for (a, n, what), (b, _, other) in zip(space, space[1:]):
        if a + n > b:
            return "layout: %s (%#x+%d) and %s (%#x) overlap" % (what, a, n, other, b)
    for k, secs in outs.items():
        x = pe.secs[k - 1]
        for bit, nm in ((EXEC, "execute"), (WRITE, "write"), (READ, "read")):
            want = any(s.flags & bit for s in secs)
            if want and not x["flags"] & bit:
                return "layout: section %s lacks %s permission" % (x["name"], nm)
            if not want and x["flags"] & bit and x["name"] not in (".idata", ".data", ".bss", ".text"):
                return "layout: section %s has %s permission" % (x["name"], nm)
        secs.sort(key=lambda s: addr[id(s)])
        for p, q in zip(secs, secs[1:]):
            if p.name > q.name:
                return "order: %s of %s precedes %s of %s" % (p.name, p.obj.name, q.name, q.obj.name)
            if p.name == q.name and p.obj.archive is None and q.obj.archive is None:
                kp = (w.loaded.index(p.obj), p.obj.secs.index(p))
                kq = (w.loaded.index(q.obj), q.obj.secs.index(q))
                if kp > kq:
                    return "order: %s of %s precedes that of %s" % (p.name, p.obj.name, q.obj.name)
    for s in w.kept:
        if s.flags & BSS and id(s) in addr and pe.read(addr[id(s)], s.size).strip(b"\0"):
            return "contents: uninitialised section %s of %s is not zero" % (s.name, s.obj.name)
    # imports
    slots = {}
    rva, size = pe.dirs[1]
    seen = []
    if rva:
        k = 0
        while True:
            ilt, _, _, nm, iat = struct.unpack("<IIIII", pe.read(rva + 20 * k, 20))
            if not (ilt or nm or iat):
                break
            if 20 * (k + 2) > size:
                return "imports: directory size %d" % size
            dll = pe.cstr(nm)
            if dll.lower() in seen:
                return "imports: two descriptors for %s" % dll
            seen.append(dll.lower())
            j = 0
            while True:
                e, f = pe.u64(ilt + 8 * j), pe.u64(iat + 8 * j)
                if e != f:
                    return "imports: lookup and address tables of %s differ" % dll
                if not e:
                    break
                if not e >> 63 and e & 1:
                    return "imports: name entry at odd address %#x" % e
                slots[iat + 8 * j] = (dll.lower(),) + (("ord", e & 0xffff) if e >> 63 else ("name", pe.cstr(e + 2), pe.u16(e)))
                j += 1
            k += 1
        ia, isz = pe.dirs[12]
        for a in slots:
            if not ia <= a < ia + isz:
                return "imports: slot %#x is outside the address table directory" % a
    want = sorted((w.imports[n]["dll"].lower(),) + w.imports[n]["key"] for n in w.wanted_imports)
    if sorted(slots.values()) != want:
        return "imports: %s, expected %s" % (sorted(slots.values()), want)
    # relocations
    base_rel = set()
    for o in w.loaded:
        for s, off, t, y, add in o.sites:
            if id(s) not in bykey or t == ABSOLUTE:
                if id(s) in bykey and pe.u32(addr[id(s)] + off) != add & 0xffffffff:
                    return "relocation: ignored type changed the field"
                continue
            p = addr[id(s)] + off
            r = sym_rva(o, y)
            if r is None or r[0] == "made":
                continue
            where = "relocation: type %d at %s+%d of %s to %s%+d" % (t, s.name, off, o.name, getattr(y, "name", ""), add)
            got = {ADDR64: pe.u64, SECTION: pe.u16}.get(t, pe.u32)(p)
            if t == ADDR64 and w.pie and r[0] != "abs" and s.kind != "debug":
                base_rel.add(p)
            if r[0] == "import":
                if t == ADDR64:
                    tgt = got - pe.base
                elif t == ADDR32NB:
                    tgt = got
                else:
                    tgt = p + 4 + (t - REL32) + pe.s32(p)
                key = (w.imports[r[2]]["dll"].lower(),) + w.imports[r[2]]["key"]
                if r[1] == "thunk":
                    if pe.read(tgt, 2) != b"\xff\x25" or not pe.sec_at(tgt)["flags"] & EXEC:
                        return where + ": no jump at %#x" % tgt
                    tgt = tgt + 6 + pe.s32(tgt + 2)
                if slots.get(tgt) != key:
                    return where + ": slot %#x is %s, expected %s" % (tgt, slots.get(tgt), key)
                continue
            v = r[1]
            if t == ADDR64:
                want = (v + add + (0 if r[0] == "abs" else pe.base)) % 2**64
            elif t == ADDR32:
                want = v + add
            elif t == ADDR32NB:
                want = v + add
            elif t == SECTION:
                x = home(w, pe, o, y, addr, v)
                if x is None:
                    continue
                want = x["index"]
            elif t == SECREL:
                x = home(w, pe, o, y, addr, v)
                if x is None:
                    continue
                want = v - x["rva"] + add
            else:
                want = (v + add - p - 4 - (t - REL32)) % 2**32
            if got != want:
                return where + ": %#x, expected %#x" % (got, want)
    # everything else is as in the input
    for s in w.kept:
        if not s.mark:
            continue
        img = bytearray(pe.read(addr[id(s)], s.size))
        org = bytearray(s.data)
        for off, y, t in s.relocs:
            n = {ADDR64: 8, SECTION: 2, ABSOLUTE: 0}.get(t, 4)
            img[off:off + n] = org[off:off + n] = b"\0" * n
        if img != org:
            return "contents: section %s of %s was altered" % (s.name, s.obj.name)
    # lists of constructors and bounds
    for nm, o, off in getattr(w, "listsite", []):
        a = pe.u32(addr[id(o.tab)] + off)
        have, k = [], 8
        if pe.u64(a) != 2**64 - 1:
            return "lists: %s starts with %#x" % (nm, pe.u64(a))
        while pe.u64(a + k):
            have.append(pe.u64(a + k))
            if w.pie:
                base_rel.add(a + k)
            k += 8
        want = [addr[id(t)] + n + pe.base for q in w.loaded for (o2, c, t, n) in w.lists[nm] if o2 is q]
        if have != want:
            return "lists: %s is %s, expected %s" % (nm, [hex(x) for x in have], [hex(x) for x in want])
    if w.bounds:
        lo, hi = [pe.u32(addr[id(o.tab)] + off) for o, off in w.bounds]
        x = pe.sec_at(lo)
        if x is None or (x["rva"], x["rva"] + x["vsize"]) != (lo, hi):
            return "bounds: data from %#x to %#x" % (lo, hi)
    # base relocations
    got = []
    rva, size = pe.dirs[5]
    if not w.pie and rva:
        return "base relocations: present in a fixed image"
    k = 0
    while k < size:
        page, n = pe.u32(rva + k), pe.u32(rva + k + 4)
        if n < 8 or n % 4 or page % 4096:
            return "base relocations: block of %d bytes for %#x" % (n, page)
        for j in range(8, n, 2):
            e = pe.u16(rva + k + j)
            if e >> 12 == 10:
                got.append(page + (e & 4095))
            elif e >> 12:
                return "base relocations: type %d" % (e >> 12)
        k += n
    if len(got) != len(set(got)):
        return "base relocations: repeated entry"
    if w.pie and set(got) != base_rel:
        miss, extra = sorted(base_rel - set(got)), sorted(set(got) - base_rel)
        return "base relocations: missing %s, unexpected %s" % ([hex(x) for x in miss[:4]], [hex(x) for x in extra[:4]])
    # unwind table
    ent = []
    for o in w.loaded:
        v = [addr[id(y)] + a for y, a in o.pdata]
        ent += [tuple(v[i:i + 3]) for i in range(0, len(v), 3)]
    rva, size = pe.dirs[3]
    tab = [struct.unpack("<III", pe.read(rva + 12 * i, 12)) for i in range(size // 12)] if rva else []
    if sorted(tab) != sorted(ent) or [t[0] for t in tab] != sorted(t[0] for t in tab):
        return "unwind: table %s, expected %s" % (tab[:6], sorted(ent)[:6])
    # entry and thread storage directory
    r = find_def(w, w.entry)
    if pe.entry != addr[id(r[1])] + r[2]:
        return "entry: %#x, expected %#x" % (pe.entry, addr[id(r[1])] + r[2])
    r = find_def(w, "_tls_used")
    want = (addr[id(r[1])] + r[2], 40) if r else (0, 0)
    if pe.dirs[9] != want:
        return "tls directory: %s, expected %s" % (pe.dirs[9], want)
    return None


def home(w, pe, o, y, addr, v):
    """the output section a symbol belongs to"""
    if isinstance(y, Sec):
        return pe.sec_at(addr[id(y)])
    if y.cls == 3:
        return pe.sec_at(addr[id(y.sec)])
    r = find_def(w, y.name)
    if r[0] == "sec":
        return pe.sec_at(addr[id(r[1])])
    if r[0] == "common":
        return pe.sec_at(addr[r[1]])
    return None


def main():
    global LD
    chk = Check("P23", rule="non-trivial when at least eight features (section kinds, relocation types, comdat selections, "
                            "weak, common, imports, directives) meet in one link; distinct by input contents")
    LD = ldkit.build_ldrun()
    run_direct(chk, [("valid", 7, lambda d: gen(d), evaluate), ("invalid", 1, lambda d: gen(d, True), eval_bad)], 20000, 400000, chunk=16)
    chk.finish()


if __name__ == "__main__":
    run_main(main)
