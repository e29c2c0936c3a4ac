"""P24: linking Mach-O objects gives an image in which every reference reaches its target once dyld has loaded it."""
import itertools
import os
import struct
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "lib"))
import ldkit
from direct import DCase, Inconclusive, run_direct
from machokit import Bad, Image
from pbt import Check, run_main

LD = None
BASE = 0x100000000
TEXT = ["__TEXT,__text,regular,pure_instructions"] * 3 + ["__TEXT,__hot,regular,pure_instructions",
                                                          "__TEXT,__StaticInit,regular,pure_instructions"]
RO = ["__TEXT,__const", "__TEXT,__myro", "__TEXT,__gcc_except_tab"]
RW = ["__DATA,__data", "__DATA,__data", "__DATA,__const", "__DATA,__mydata", "__DATA_CONST,__const", "__DATA_DIRTY,__data"]
STR = "__TEXT,__cstring,cstring_literals"
SYSTEM = "/usr/lib/libSystem.B.dylib"


class Def:
    """one definition: a label at some offset of an item that starts with a marker"""
    marker = None
    size = 0
    off = 0
    dup = False
    align = 0

    def __init__(self, name, obj, kind, vis):
        self.name, self.obj, self.kind, self.vis = name, obj, kind, vis


class Obj:
    def __init__(self, k):
        self.k = k
        self.archive = None
        self.secs = {}      # directive -> lines
        self.tail = []
        self.head = []
        self.defs = []
        self.refs = set()
        self.sites = []
        self.unwind = []
        self.inits = []
        self.subs = False
        self.secrel = 0
        self.dices = []

    def put(self, sec, line):
        self.secs.setdefault(sec, []).append(line)

    def text(self):
        out = list(self.head)
        for s, ls in self.secs.items():
            out.append(".section " + s)
            out += ls
        return "\n".join(out + self.tail + ([".subsections_via_symbols"] if self.subs else [])) + "\n"


class World:
    def __init__(self, d):
        self.d = d
        self.n = 0
        self.names = set()
        self.objs = []
        self.imports = {}   # name -> (dylib index, weak, tlv)
        self.dylibs = []
        self.feats = set()
        self.defs = []

    def fresh(self, pre=None):
        d = self.d
        pre = pre or d.choice(["_f", "_g", "_fn_with_a_long_name_", "_f1", "__ZN3foo3barE", "_x$y", "_q.r"])
        while True:
            self.n += 1
            s = pre + str(self.n)
            if s not in self.names:
                self.names.add(s)
                return s

    def mark(self):
        self.n += 1
        return struct.pack("<Q", (self.n * 0x9E3779B97F4A7C15 | 0x8000000000000001) & (2**64 - 1))

    def visible(self, o):
        """definitions object o can name"""
        return [x for x in self.defs if x.obj is o or x.vis not in ("local", "temp")]


def label(o, sec, x):
    if x.vis in ("global", "weak", "weakhid", "private"):
        o.put(sec, ".globl " + x.name if x.vis != "private" else ".private_extern " + x.name)
        if x.vis == "weak":
            o.put(sec, ".weak_definition " + x.name)
        elif x.vis == "weakhid":
            o.put(sec, ".weak_def_can_be_hidden " + x.name)
    if x.vis == "temp":     # the assembler refers to such a label by the symbol before it
        o.put(sec, "_before%s:" % x.name)
    o.put(sec, x.name + ":")


def quad(m):
    return ".quad 0x%016x" % struct.unpack("<Q", m)[0]


def make_def(w, o, kind, vis, name=None):
    d = w.d
    if name is None:
        name = w.fresh("L" if vis == "temp" else None)
    x = Def(name, o, kind, vis)
    o.defs.append(x)
    w.defs.append(x)
    x.align = d.weighted([(4, 3), (2, 2), (2, 4), (1, 0), (1, 6), (1, 9), (1, 12)])
    if kind in ("bss", "comm", "data"):
        if d.bool(1, 12):
            x.align = d.choice([13, 14, 15])
    if kind == "func":
        x.align = max(2, x.align)
    if kind == "data":
        x.align = max(3, x.align)
    return x


def gen_objects(w):
    d = w.d
    nobj = d.int(1, 5)
    w.objs = [Obj(k) for k in range(nobj)]
    for o in w.objs[1:]:
        if d.bool(2, 5):
            o.archive = d.below(2)
    main = Def("_main", w.objs[0], "func", "global")
    main.align = 2
    w.names.add("_main")
    w.objs[0].defs.append(main)
    w.defs.append(main)
    for o in w.objs:
        o.subs = d.bool(1, 3)
        if d.bool(1, 3):
            o.secrel = d.int(1, 1 << 30)
        for _ in range(d.int(2, 9)):
            kind = d.weighted([(5, "func"), (5, "data"), (2, "ro"), (1, "str"), (2, "bss"), (1, "comm"), (1, "abs"), (1, "tlv"), (1, "tbss")])
            if kind in ("func", "data", "ro"):
                vis = d.weighted([(4, "global"), (2, "weak"), (1, "weakhid"), (2, "private"), (3, "local"), (2, "temp")])
            elif kind == "str":
                vis = d.choice(["temp", "temp", "local"])
            elif kind in ("comm",):
                vis = "global"
            elif kind == "abs":
                vis = d.choice(["global", "local"])
            elif kind == "bss":
                vis = d.choice(["global", "local", "private"])
            else:
                vis = d.choice(["global", "local"])
            make_def(w, o, kind, vis)
    # the same weak name in several objects
    direct = [o for o in w.objs if o.archive is None]
    for x in list(w.defs):
        if x.vis == "weak" and x.obj.archive is None and x.kind in ("func", "data") and len(direct) > 1 and d.bool(1, 2):
            o = d.choice([o for o in direct if o is not x.obj])
            if any(y.name == x.name for y in o.defs):
                continue
            x.dup = True
            y = make_def(w, o, x.kind, d.choice(["weak", "weak", "global"]), x.name)
            y.dup = True
            w.feats.add("weak-duplicate")
        if x.kind == "comm" and x.obj.archive is None and len(direct) > 1 and d.bool(1, 2):
            o = d.choice([o for o in direct if o is not x.obj])
            x.dup = True
            y = make_def(w, o, d.choice(["comm", "data"]), "global", x.name)
            y.dup = True
            w.feats.add("common-duplicate")
    # the same local name in several objects
    loc = [x for x in w.defs if x.vis == "local" and x.kind in ("func", "data", "ro")]
    if loc and nobj > 1 and d.bool(1, 2):
        x = d.choice(loc)
        o = d.choice([o for o in w.objs if o is not x.obj])
        if not any(y.name == x.name for y in o.defs):
            make_def(w, o, x.kind, "local", x.name)
            w.feats.add("local-duplicate")


def gen_dylibs(w):
    d = w.d
    w.dylibs = [dict(name=SYSTEM, weak=False, syms={"__tlv_bootstrap": "", "dyld_stub_binder": "", "_exit": "", "_objc_msgSend": ""})]
    w.imports["__tlv_bootstrap"] = w.imports["_objc_msgSend"] = [0]
    for k in range(d.weighted([(2, 0), (3, 1), (2, 2), (1, 3), (1, 18)])):
        w.dylibs.append(dict(name="/usr/lib/lib%s%d.dylib" % (d.choice(["a", "bc"]), k), weak=d.bool(1, 4), syms={}))
    for k, l in enumerate(w.dylibs):
        for _ in range(d.int(1, 3)):
            n = w.fresh("_imp")
            l["syms"][n] = d.weighted([(4, ""), (1, "weak"), (1, "tlv")])
            w.imports.setdefault(n, []).append(k)
    # names that both a library and an object have
    for x in w.defs:
        if x.vis == "global" and x.kind in ("func", "data") and not x.dup and x.name != "_main" and d.bool(1, 10):
            k = d.below(len(w.dylibs))
            w.dylibs[k]["syms"][x.name] = d.choice(["", "weak"])
            w.imports.setdefault(x.name, []).append(k)
            w.feats.add("object-and-library")


def gen_order(w):
    """command line: objects, archives and libraries"""
    d = w.d
    items = [("obj", o) for o in w.objs if o.archive is None]
    for a in sorted({o.archive for o in w.objs if o.archive is not None}):
        items.append(("ar", a))
    for k, l in enumerate(w.dylibs):
        items.append(("dylib", k))
    w.order = d.shuffle(items)


def target(w, o, pred):
    c = [x for x in w.visible(o) if pred(x)]
    return w.d.choice(c) if c else None


def imp(w, tlv=False):
    """an import that no object defines"""
    own = {x.name for x in w.defs}
    c = [n for n in w.imports if n not in own and (w.dylibs[w.imports[n][0]]["syms"][n] == "tlv") == tlv and n != "__tlv_bootstrap"]
    return w.d.choice(c) if c else None


def emit(w):
    d = w.d
    for o in w.objs:
        for x in o.defs:
            if x.kind == "abs":
                x.value = d.choice([0, 1, 0x1234, 0x7fffffff, 0x123456789a])
                if x.vis == "global":
                    o.head.append(".globl " + x.name)
                o.head.append("%s = %#x" % (x.name, x.value))
            elif x.kind == "bss":
                x.size = d.choice([1, 4, 8, 24, 100, 5000])
                if x.vis != "local":
                    o.head.append((".globl " if x.vis == "global" else ".private_extern ") + x.name)
                o.head.append(".zerofill __DATA,__bss,%s,%d,%d" % (x.name, x.size, x.align))
            elif x.kind == "comm":
                x.size = d.choice([1, 4, 8, 24, 100, 5000])
                o.head.append(".comm %s,%d,%d" % (x.name, x.size, x.align))
            elif x.kind == "tbss":
                x.size = d.choice([1, 4, 8, 24])
                x.align = min(x.align, 4)
                o.head.append(".tbss %s$tlv$init,%d,%d" % (x.name, x.size, x.align))
    for o in w.objs:
        for x in o.defs:
            if x.kind == "func":
                emit_func(w, o, x)
            elif x.kind in ("data", "ro"):
                emit_data(w, o, x)
            elif x.kind == "str":
                x.marker = b"str%08d" % w.n
                w.n += 1
                o.put(STR, x.name + ":")
                o.put(STR, '.asciz "%s"' % x.marker.decode())
            elif x.kind in ("tlv", "tbss"):
                emit_tlv(w, o, x)
        if d.bool(1, 4):
            fs = [x for x in o.defs if x.kind == "func" and not x.dup]
            s = "__DATA,__mod_init_func,mod_init_funcs"
            for x in [d.choice(fs) for _ in range(d.int(1, 3))] if fs else []:
                if not o.inits:
                    o.put(s, ".p2align 3")
                o.put(s, ".quad " + x.name)
                o.inits.append(x)
                w.feats.add("initializers")
        emit_unwind(w, o)
        if d.bool(1, 8):
            alias(w, o)


def alias(w, o):
    """another name for a definition of some other object"""
    d = w.d
    x = target(w, o, lambda x: x.obj is not o and x.vis in ("global", "weak") and x.kind in ("func", "data") and not x.dup)
    if x is None or x.name in w.imports or o.archive is not None:
        return
    a = Def(w.fresh("_alias"), o, "alias", "global")
    a.to = x.name
    o.head += [".globl " + a.name, ".set %s, %s" % (a.name, x.name)]
    o.refs.add(x.name)
    w.late.append(a)
    w.feats.add("alias")
    # someone else points at it
    p = d.choice([q for q in w.objs if q is not o] or [o])
    if p is o:
        return
    y = Def(w.fresh(), p, "data", "local")
    y.align = 3
    w.late.append(y)
    s = "__DATA,__data"
    p.put(s, ".p2align 3")
    label(p, s, y)
    y.marker = w.mark()
    p.put(s, quad(y.marker))
    p.put(s, ".quad " + a.name)
    p.refs.add(a.name)
    p.sites.append(("ptr", y, 8, a.name, 0))


def ref(o, name):
    o.refs.add(name)


def emit_func(w, o, x):
    d = w.d
    s = TEXT[0] if x.name == "_main" else d.choice(TEXT)
    o.put(s, ".p2align %d" % x.align)
    label(o, s, x)
    x.sec = s
    x.marker = w.mark()
    o.put(s, quad(x.marker))
    off = 8
    for _ in range(d.weighted([(1, 0), (3, 2), (2, 4), (1, 8)])):
        k = d.weighted([(4, "call"), (3, "page"), (3, "load"), (3, "got"), (1, "tlv"), (1, "diff"), (1, "pad"), (1, "dice"), (1, "objc")])
        if k == "call":
            if d.bool(1, 3) and imp(w):
                t, add = imp(w), 0
            else:
                # a branch to the object's own copy may already be resolved by the assembler
                y = target(w, o, lambda y: y.kind == "func" and not (y.dup and any(z.name == y.name for z in o.defs)))
                if y is None:
                    continue
                t, add = y.name, 0
            o.put(s, "%s %s%s" % (d.choice(["bl", "b"]), t, "+%d" % add if add else ""))
            o.sites.append(("call", x, off, t, add))
            ref(o, t)
            off += 4
        elif k == "page":
            y = target(w, o, lambda y: y.kind not in ("abs", "tlv", "tbss") and y.name not in w.imports)
            if y is None:
                continue
            add = d.weighted([(5, 0), (1, 1), (1, 8), (1, 4096), (1, 70000), (1, 0x7fff00)])
            r = d.int(0, 15)
            a = "+%d" % add if add else ""
            o.put(s, "adrp x%d, %s@PAGE%s" % (r, y.name, a))
            o.put(s, "add x%d, x%d, %s@PAGEOFF%s" % (r, r, y.name, a))
            o.sites.append(("page", x, off, y.name, add))
            ref(o, y.name)
            off += 8
        elif k == "load":
            sh = d.below(5)
            y = target(w, o, lambda y: y.kind in ("data", "bss", "comm", "func") and not y.dup and y.align >= sh and y.off == 0 and y.name not in w.imports)
            if y is None:
                continue
            add = d.weighted([(5, 0), (1, 1), (1, 3), (1, 256)]) << sh
            r = d.int(0, 15)
            a = "+%d" % add if add else ""
            op = ["ldrb w3", "ldrh w3", "ldr w3", "ldr x3", "ldr q3"][sh]
            if d.bool(1, 3):
                op = ["strb w3", "strh w3", "str s3", "str d3", "str q3"][sh]
            o.put(s, "adrp x%d, %s@PAGE%s" % (r, y.name, a))
            o.put(s, "%s, [x%d, %s@PAGEOFF%s]" % (op, r, y.name, a))
            o.sites.append(("load", x, off, y.name, add, sh))
            ref(o, y.name)
            off += 8
        elif k == "got":
            if d.bool(1, 3) and imp(w):
                t = imp(w)
            else:
                y = target(w, o, lambda y: y.kind not in ("tlv", "tbss", "str") and y.vis != "temp")
                t = y.name
            r = d.int(0, 15)
            o.put(s, "adrp x%d, %s@GOTPAGE" % (r, t))
            o.put(s, "ldr x%d, [x%d, %s@GOTPAGEOFF]" % (r, r, t))
            o.sites.append(("got", x, off, t))
            ref(o, t)
            off += 8
        elif k == "tlv":
            y = target(w, o, lambda y: y.kind in ("tlv", "tbss"))
            t = y.name if y else None
            if imp(w, True) and (t is None or d.bool()):
                t = imp(w, True)
            if t is None:
                continue
            r = d.int(0, 15)
            o.put(s, "adrp x%d, %s@TLVPPAGE" % (r, t))
            o.put(s, "ldr x%d, [x%d, %s@TLVPPAGEOFF]" % (r, r, t))
            o.sites.append(("tlvp", x, off, t))
            ref(o, t)
            off += 8
        elif k == "diff":
            off = emit_diff(w, o, s, x, off, 4)
        elif k == "objc":
            n = d.choice(["init", "alloc", "a:b:", "setX:"])
            o.put(s, 'bl "_objc_msgSend$%s"' % n)
            o.sites.append(("objc", x, off, n))
            off += 4
            w.feats.add("selector-stub")
        elif k == "dice":
            o.put(s, ".data_region jt32")
            o.put(s, ".long 0x11223344")
            o.put(s, ".end_data_region")
            o.dices.append((x, off, 4, 4))
            off += 4
        else:
            n = d.choice([4, 12, 4096, 20000])
            o.put(s, ".space %d" % n)
            off += n
    x.size = off


def emit_diff(w, o, s, x, off, width):
    d = w.d
    b = [y for y in o.defs if y.kind in ("func", "data", "ro") and not y.dup and y.vis in ("local", "global", "private")]
    a = [y for y in w.visible(o) if y.kind in ("func", "data", "ro", "bss") and not y.dup and y.vis != "temp" and y.name not in w.imports]
    if not a or not b:
        return off
    a, b = d.choice(a), d.choice(b)
    if a is b or b.name in w.imports:
        return off
    add = d.weighted([(4, 0), (1, 4), (1, -8), (1, 100000)])
    o.put(s, "%s %s - %s%s" % (".long" if width == 4 else ".quad", a.name, b.name, "%+d" % add if add else ""))
    o.sites.append(("diff", x, off, a.name, b.name, add, width))
    ref(o, a.name)
    return off + width


def emit_data(w, o, x):
    d = w.d
    s = d.choice(RW if x.kind == "data" else RO)
    o.put(s, ".p2align %d" % x.align)
    label(o, s, x)
    x.sec = s
    x.marker = w.mark()
    o.put(s, quad(x.marker))
    off = 8
    for _ in range(d.weighted([(2, 0), (3, 1), (2, 3), (1, 6)])):
        k = d.weighted([(6, "ptr"), (2, "diff"), (1, "long"), (1, "gotpc"), (1, "pad"), (1, "second"), (1, "bound")])
        if k == "pad":
            n = d.choice([8, 64, 4096, 16384])
            o.put(s, ".space %d" % n)
            off += n
        elif k == "second" and not x.dup and x.vis not in ("temp", "weak", "weakhid"):
            y = Def(w.fresh(), o, x.kind, d.choice(["global", "local", "private"]))
            y.off, y.item, y.align = off, x, 3
            label(o, s, y)
            o.put(s, ".quad 0")
            off += 8
            w.late.append(y)
            o.sites.append(("sym", x, y.off, y.name))
        elif k == "diff":
            off = emit_diff(w, o, s, x, off, 8)
        elif k == "long":
            n = emit_diff(w, o, s, x, off, 4)
            if n > off:
                o.put(s, ".long 0")
                off += 8
        elif k == "gotpc":
            y = target(w, o, lambda y: y.kind not in ("tlv", "tbss", "str", "abs") and y.vis != "temp")
            t = imp(w) if d.bool(1, 3) and imp(w) else y.name
            o.put(s, ".long %s@GOT - ." % t)
            o.put(s, ".long 0")
            o.sites.append(("gotpc", x, off, t))
            ref(o, t)
            off += 8
        elif x.kind == "data" and k == "ptr":
            if d.bool(1, 4) and imp(w):
                t = imp(w)
            else:
                y = target(w, o, lambda y: y.kind not in ("tlv", "tbss"))
                t = y.name
            add = d.weighted([(6, 0), (1, 8), (1, -16), (1, 0x12345), (1, 300)])
            o.put(s, ".quad %s%s" % (t, "%+d" % add if add else ""))
            o.sites.append(("ptr", x, off, t, add))
            ref(o, t)
            off += 8
        elif x.kind == "data" and k == "bound":
            seg, sec = s.split(",")[:2]
            if seg == "__DATA_DIRTY":
                continue
            n, e = d.choice([("section$start$%s$%s" % (seg, sec), ("sect", seg, sec, 0)), ("section$end$%s$%s" % (seg, sec), ("sect", seg, sec, 1)),
                             ("segment$start$%s" % seg, ("seg", seg, 0)), ("segment$end$%s" % seg, ("seg", seg, 1)),
                             ("segment$start$__TEXT", ("seg", "__TEXT", 0)), ("__mh_execute_header", ("seg", "__TEXT", 0))])
            o.put(s, ".quad " + n)
            o.sites.append(("bound", x, off, e))
            w.feats.add("boundary")
            off += 8
        elif x.kind == "data" and k == "wref":
            pass
    if x.kind == "data" and d.bool(1, 12):
        n = w.fresh("_missing")
        o.head.append(".weak_reference " + n)
        o.put(s, ".quad " + n)
        o.sites.append(("null", x, off, n))
        off += 8
        w.feats.add("weak-missing")
    x.size = off


def emit_tlv(w, o, x):
    d = w.d
    if x.kind == "tlv":
        s = "__DATA,__thread_data,thread_local_regular"
        o.put(s, ".p2align %d" % d.choice([3, 3, 4, 5]))
        o.put(s, "%s$tlv$init:" % x.name)
        x.marker = w.mark()
        o.put(s, quad(x.marker))
        if d.bool(1, 3):
            o.put(s, ".space %d" % d.choice([1, 8, 40]))
    s = "__DATA,__thread_vars,thread_local_variables"
    if x.vis == "global":
        o.put(s, ".globl " + x.name)
    o.put(s, x.name + ":")
    o.put(s, ".quad __tlv_bootstrap")
    o.put(s, ".quad 0")
    o.put(s, ".quad %s$tlv$init" % x.name)
    o.refs.add("__tlv_bootstrap")
    w.feats.add("thread-local")


def emit_unwind(w, o):
    d = w.d
    if d.bool(1, 3):
        return
    s = "__LD,__compact_unwind,regular,debug"
    for x in o.defs:
        if x.kind != "func" or x.dup or d.bool(1, 3):
            continue
        enc = d.choice([0x02001000, 0x02002000, 0x02003003, 0x04000000, 0x04000001, 0x0400000f, 0x04000101])
        pers = lsda = None
        if d.bool(1, 3):
            y = target(w, o, lambda y: y.kind == "func" and y.vis in ("global", "private") and not y.dup)
            pers = imp(w) if d.bool() and imp(w) else y.name if y else None
            pers = w.pers.setdefault(len(w.pers), pers) if len(w.pers) < 3 and pers not in w.pers.values() else \
                d.choice(sorted(v for v in w.pers.values() if v)) if any(w.pers.values()) else None
            if pers is not None and any(y.name == pers and y.vis in ("local", "temp") and y.obj is not o for y in w.defs):
                pers = None
        if pers and d.bool(1, 2):
            lsda = w.fresh("L")
            t = "__TEXT,__gcc_except_tab"
            o.put(t, ".p2align 2")
            o.put(t, lsda + ":")
            m = w.mark()
            o.put(t, ".long 0x%x, 0x%x" % struct.unpack("<II", m))
            lsda = (lsda, m)
        if not o.unwind:
            o.put(s, ".p2align 3")
        o.put(s, ".quad " + x.name)
        o.put(s, ".long %d" % x.size)
        o.put(s, ".long %#x" % (enc | (0x40000000 if lsda else 0)))
        o.put(s, ".quad " + (pers or "0"))
        o.put(s, ".quad " + (lsda[0] if lsda else "0"))
        if pers:
            ref(o, pers)
        o.unwind.append((x, enc, pers, lsda[1] if lsda else None))
        w.feats.add("unwind")


def loaded(w):
    """objects of the image: those named, and archive members that define what is missing"""
    pos = {}
    for i, (k, v) in enumerate(w.order):
        pos[(k, v if k != "obj" else v.k)] = i
    use = [o for o in w.objs if o.archive is None]
    changed = True
    while changed:
        changed = False
        have = {x.name for o in use for x in o.defs if x.vis not in ("local", "temp")}
        need = set().union(*[o.refs for o in use]) - have
        for o in w.objs:
            if o.archive is None or o in use:
                continue
            for x in o.defs:
                if x.vis in ("local", "temp") or x.name not in need:
                    continue
                libs = [k for k in w.imports.get(x.name, ()) if w.dylibs[k]["syms"][x.name] != "weak"]
                if all(pos[("ar", o.archive)] < pos[("dylib", k)] for k in libs):
                    use.append(o)
                    changed = True
                    break
            if changed:
                break
    return use, pos


def gen(d):
    w = World(d)
    w.late = []
    w.pers = {}
    gen_objects(w)
    gen_dylibs(w)
    gen_order(w)
    emit(w)
    for y in w.late:
        w.defs.append(y)
        y.obj.defs.append(y)
    w.use, w.pos = loaded(w)
    key = repr([(o.archive, o.secrel, o.text()) for o in w.objs]) + repr(w.dylibs) + repr([(k, v if k != "obj" else v.k) for k, v in w.order])
    n = sum(len(o.sites) for o in w.use)
    info = key.replace("\\n", "\n")
    return DCase(key, n >= 3, "%d objects, %d references" % (len(w.objs), n), sorted(w.feats), info, world=w)


def gen_error(d):
    """an image that cannot be made"""
    c = gen(d)
    w = c.world
    o = d.choice(w.use)
    kind = d.choice(["missing", "missing", "missing-data", "twice", "libonly"])
    t = TEXT[0]
    w.expect = kind
    if kind == "missing":
        o.put(t, ".p2align 2")
        o.put(t, "bl _nowhere")
        w.expect = "_nowhere"
    elif kind == "missing-data":
        o.put("__DATA,__data", ".p2align 3")
        o.put("__DATA,__data", ".quad _nowhere2")
        w.expect = "_nowhere2"
    elif kind == "twice":
        x = d.choice([x for x in w.defs if x.vis == "global" and x.kind in ("func", "data") and x.obj in w.use and x.obj.archive is None and not x.dup])
        o = Obj(len(w.objs))
        o.put(t, ".globl %s\n%s:\nnop" % (x.name, x.name))
        w.objs.append(o)
        w.order.insert(d.below(len(w.order) + 1), ("obj", o))
        w.expect = x.name
    else:       # only the entry is missing
        o = w.objs[0]
        for s in o.secs:
            o.secs[s] = [l.replace("_main:", "_mainx:").replace(".globl _main", ".globl _mainx") if l in ("_main:", ".globl _main") else l for l in o.secs[s]]
        w.expect = "_main"
    c.key += repr((kind, w.expect, [(k, v if k != "obj" else v.k) for k, v in w.order]))
    c.nontrivial = True
    c.feats = ["error-" + kind]
    return c


def eval_error(case, dr):
    w = case.world
    try:
        rc, out = link(w, dr)
    except subprocess.TimeoutExpired:
        raise Inconclusive("linker timeout")
    if rc == 0:
        return "image made although it must fail because of %s" % w.expect
    if os.path.exists(os.path.join(dr, "out")):
        return "failed link leaves an output file"
    if w.expect not in out:
        return "message does not name %s: %s" % (w.expect, out.strip()[:200])
    return None


def tbd(l):
    groups = {}
    for n, k in l["syms"].items():
        groups.setdefault(k, []).append(n)
    out = ["--- !tapi-tbd", "tbd-version: 4", "targets: [ arm64-macos ]", "install-name: '%s'" % l["name"], "current-version: 1.2.3", "exports:",
           "  - targets: [ arm64-macos ]"]
    for k, f in (("", "symbols"), ("weak", "weak-symbols"), ("tlv", "thread-local-symbols")):
        if k in groups:
            out.append("    %s: [ %s ]" % (f, ", ".join("'%s'" % n for n in groups[k])))
    return "\n".join(out) + "\n...\n"


def secrel(path, seed):
    """turn references to local symbols into references to their sections"""
    with open(path, "rb") as f:
        b = bytearray(f.read())
    ncmds = struct.unpack_from("<I", b, 16)[0]
    p = 32
    secs = []
    for _ in range(ncmds):
        cmd, n = struct.unpack_from("<II", b, p)
        if cmd == 0x19:
            ns = struct.unpack_from("<I", b, p + 64)[0]
            secs = [p + 72 + 80 * i for i in range(ns)]
        elif cmd == 2:
            symoff = struct.unpack_from("<I", b, p + 8)[0]
        p += n
    for s in secs:
        seg, sect = bytes(b[s + 16:s + 32]).rstrip(b"\0"), bytes(b[s:s + 16]).rstrip(b"\0")
        if not seg.startswith(b"__DATA") or sect == b"__thread_vars":
            continue
        off, = struct.unpack_from("<I", b, s + 48)
        ro, nr = struct.unpack_from("<II", b, s + 56)
        prev = None
        for i in range(nr):
            a, v = struct.unpack_from("<II", b, ro + 8 * i)
            t = v >> 28
            if t == 0 and v >> 27 & 1 and prev != 1 and v >> 25 & 3 == 3:
                seed = (seed * 1103515245 + 12345) & 0x7fffffff
                k = v & 0xffffff
                _, nt, sc, _, val = struct.unpack_from("<IBBHQ", b, symoff + 16 * k)
                if nt & 0xf == 0xe and seed >> 16 & 1:
                    struct.pack_into("<I", b, ro + 8 * i + 4, v & 0xf7000000 | sc)
                    old, = struct.unpack_from("<Q", b, off + a)
                    struct.pack_into("<Q", b, off + a, (old + val) & (2**64 - 1))
            prev = t
    with open(path, "wb") as f:
        f.write(b)


def build(w, dr):
    for o in w.objs:
        p = os.path.join(dr, "o%d" % o.k)
        with open(p + ".s", "w") as f:
            f.write(o.text())
        r = subprocess.run(["llvm-mc-18", "-triple=arm64-apple-macos11", "-filetype=obj", p + ".s", "-o", p + ".o"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise RuntimeError("assembler: " + r.stdout.decode()[:600] + "\n" + o.text())
        if o.secrel:
            secrel(p + ".o", o.secrel)
    args = []
    for k, v in w.order:
        if k == "obj":
            args.append("o%d.o" % v.k)
        elif k == "ar":
            r = subprocess.run(["llvm-ar-18", "--format=darwin", "rcs", "lib%d.a" % v] + ["o%d.o" % o.k for o in w.objs if o.archive == v],
                               cwd=dr, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
            if r.returncode:
                raise RuntimeError("ar: " + r.stdout.decode())
            args.append("lib%d.a" % v)
        else:
            with open(os.path.join(dr, "d%d.tbd" % v), "w") as f:
                f.write(tbd(w.dylibs[v]))
            args.append("+-weak_library d%d.tbd" % v if w.dylibs[v]["weak"] else "d%d.tbd" % v)
    return args


def link(w, dr):
    args = build(w, dr)
    p = subprocess.run([LD, "darwin", "arm64", "1", "0", "-", "out"] + args, cwd=dr, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=60)
    return p.returncode, p.stdout.decode("utf-8", "replace")


def evaluate(case, dr):
    w = case.world
    try:
        rc, out = link(w, dr)
    except subprocess.TimeoutExpired:
        raise Inconclusive("linker timeout")
    if rc:
        return "link fails (%d): %s" % (rc, out.strip()[:300])
    try:
        return verify(w, Image(os.path.join(dr, "out")))
    except Bad as e:
        return str(e)


def sext(v, n):
    return v - (1 << n) if v >> (n - 1) & 1 else v


def adrp(im, at):
    i = im.u32(at)
    if i & 0x9f000000 != 0x90000000:
        raise Bad("instruction %08x at %#x is not adrp" % (i, at))
    return (at & ~0xfff) + (sext((i >> 5 & 0x7ffff) << 2 | i >> 29 & 3, 21) << 12), i & 31


def verify(w, im):
    use = w.use
    bound = lambda at: im.binds.get(at)
    glob = {}
    for o in sorted(use, key=lambda o: w.pos[("obj", o.k)] if o.archive is None else w.pos[("ar", o.archive)]):
        for x in o.defs:
            if x.vis in ("local", "temp"):
                continue
            r = 2 if x.kind == "comm" else 1 if x.vis in ("weak", "weakhid") else 0
            if x.name not in glob or r < glob[x.name][0]:
                glob[x.name] = (r, x)
    glob = {n: x for n, (r, x) in glob.items()}
    addr = {}

    def where(x):
        """address of a definition of a loaded object"""
        if x.kind == "alias":
            return where(glob[x.to])
        if id(x) in addr:
            return addr[id(x)]
        if x.kind == "abs":
            a = x.value
        elif x.off:
            a = where(x.item) + x.off
        elif x.marker is not None and x.kind != "tlv":
            f = im.find(x.marker)
            if len(f) != 1:
                raise Bad("content of %s is in the image %d times" % (x.name, len(f)))
            a = f[0]
            if x.align and x.kind != "str" and a % (1 << x.align):
                raise Bad("%s at %#x is not aligned to %d" % (x.name, a, 1 << x.align))
        else:
            c = im.defs.get(x.name, [])
            if len(c) != 1:
                raise Bad("symbol %s occurs %d times" % (x.name, len(c)))
            a = c[0][0]
            if x.kind in ("bss", "comm"):
                al = x.align
                if x.kind == "comm":
                    al = max(y.align for o in use for y in o.defs if y.name == x.name and y.kind == "comm")
                if a % (1 << al):
                    raise Bad("%s at %#x is not aligned to %d" % (x.name, a, 1 << al))
        addr[id(x)] = a
        return a

    def resolve(o, name):
        """('at', def) or ('import', library, name)"""
        for x in o.defs:
            if x.name == name and x.vis in ("local", "temp"):
                return "at", x
        if name in glob:
            return "at", glob[name]
        ks = sorted(w.imports[name], key=lambda k: (w.dylibs[k]["syms"][name] == "weak", w.pos[("dylib", k)]))
        return "import", ks[0]

    def exported_weak(x):
        return x.vis == "weak"

    def pointer(at, o, name, add, what):
        """the pointer at an address is what dyld must make of the name"""
        k, x = resolve(o, name)
        v = im.u64(at)
        if k == "import":
            b = bound(at)
            lib = w.dylibs[x]
            if b is None:
                raise Bad("%s to %s is not bound" % (what, name))
            if (b[0], b[1], b[2]) != (lib["name"], name, add):
                raise Bad("%s to %s%+d is bound to %s" % (what, name, add, b))
            if b[3] != lib["weak"]:
                raise Bad("%s to %s: weak import is %s" % (what, name, b[3]))
            if at in im.rebases:
                raise Bad("%s to %s is bound and rebased" % (what, name))
            wb = im.weak_binds.get(at)
            if (lib["syms"][name] == "weak") != (wb is not None) or wb and (wb[1], wb[2]) != (name, add):
                raise Bad("%s to %s%+d: weak bind is %s" % (what, name, add, wb))
            return
        if bound(at) is not None:
            raise Bad("%s to %s is bound to %s" % (what, name, bound(at)))
        want = (where(x) + add) & (2**64 - 1)
        if v != want:
            raise Bad("%s to %s%+d is %#x, should be %#x" % (what, name, add, v, want))
        absolute = x.kind == "abs"
        if (at in im.rebases) == absolute:
            raise Bad("%s to %s is %srebased" % (what, name, "" if absolute else "not "))
        y = glob[x.to] if x.kind == "alias" else x
        if exported_weak(y):
            b = im.weak_binds.get(at)
            if b is None or b[1] not in (name, y.name) or b[2] != add:
                raise Bad("%s to weak %s%+d has weak bind %s" % (what, name, add, b))
        elif at in im.weak_binds:
            raise Bad("%s to %s has weak bind %s" % (what, name, im.weak_binds[at]))

    def slot(at, o, name, what, kinds):
        t = im.sect_of(at)
        if t is None or t.flags & 0xff not in kinds or (at - t.addr) % 8:
            raise Bad("%s to %s goes through %#x, which is no pointer slot" % (what, name, at))
        pointer(at, o, name, 0, what)
        if t.flags & 0xff == 6:
            n = im.indirect_name(t, (at - t.addr) // 8)
            k, x = resolve(o, name)
            if n is not None and n != name and not (k == "at" and x.kind == "alias"):
                raise Bad("slot of %s is recorded as %s" % (name, n))
            if n is None and k == "import":
                raise Bad("slot of import %s has no symbol recorded" % name)

    for o in use:
        for s in o.sites:
            kind, x, off = s[0], s[1], s[2]
            at = where(x) + off
            if kind == "sym":
                continue
            if kind == "ptr":
                pointer(at, o, s[3], s[4], "pointer")
            elif kind == "null":
                b = bound(at)
                if b is None or b[1] != s[3] or not b[3]:
                    raise Bad("weak reference to missing %s has bind %s" % (s[3], b))
            elif kind == "call":
                i = im.u32(at)
                if i & 0x7c000000 != 0x14000000:
                    raise Bad("instruction %08x of call to %s" % (i, s[3]))
                to = at + sext(i & 0x3ffffff, 26) * 4
                k, y = resolve(o, s[3])
                if k == "at" and to == where(y) + s[4]:
                    continue
                t = im.sect_of(to)
                if t is None or t.flags & 0xff != 8 or (to - t.addr) % 12 or s[4]:
                    raise Bad("call to %s+%d reaches %#x" % (s[3], s[4], to))
                page, r = adrp(im, to)
                l, j = im.u32(to + 4), im.u32(to + 8)
                if l & 0xffc00000 != 0xf9400000 or l >> 5 & 31 != r or l & 31 != j >> 5 & 31 or j & 0xfffffc1f != 0xd61f0000:
                    raise Bad("stub of %s is %08x %08x" % (s[3], l, j))
                slot(page + (l >> 10 & 0xfff) * 8, o, s[3], "call", (6,))
                n = im.indirect_name(t, (to - t.addr) // 12)
                if n != s[3] and not (k == "at" and y.kind == "alias"):
                    raise Bad("stub of %s is recorded as %s" % (s[3], n))
            elif kind == "objc":
                i = im.u32(at)
                to = at + sext(i & 0x3ffffff, 26) * 4
                t = im.sect_of(to)
                if i & 0xfc000000 != 0x94000000 or t is None or t.sect != "__objc_stubs":
                    raise Bad("message %s reaches %#x" % (s[3], to))
                page, r = adrp(im, to)
                l = im.u32(to + 4)
                if l & 0xffc003ff != 0xf9400021 or r != 1:
                    raise Bad("selector load of %s is %08x" % (s[3], l))
                sel = page + (l >> 10 & 0xfff) * 8
                q = im.u64(sel)
                if sel not in im.rebases or im.read(q, len(s[3]) + 1) != s[3].encode() + b"\0":
                    raise Bad("selector of %s" % s[3])
                page, r = adrp(im, to + 8)
                l, j = im.u32(to + 12), im.u32(to + 16)
                if l & 0xffc003ff != 0xf9400210 or r != 16 or j != 0xd61f0200:
                    raise Bad("stub of message %s is %08x %08x" % (s[3], l, j))
                slot(page + (l >> 10 & 0xfff) * 8, o, "_objc_msgSend", "message", (6,))
            elif kind in ("page", "load"):
                page, r = adrp(im, at)
                i = im.u32(at + 4)
                if kind == "page":
                    if i & 0xffc00000 != 0x91000000 or i >> 5 & 31 != r:
                        raise Bad("instruction %08x after adrp of %s" % (i, s[3]))
                    to = page + (i >> 10 & 0xfff)
                else:
                    to = page + ((i >> 10 & 0xfff) << s[5])
                k, y = resolve(o, s[3])
                if to != where(y) + s[4]:
                    raise Bad("%s of %s+%d reaches %#x, should be %#x" % (kind, s[3], s[4], to, where(y) + s[4]))
            elif kind in ("got", "tlvp"):
                page, r = adrp(im, at)
                i = im.u32(at + 4)
                k, y = resolve(o, s[3])
                if i & 0xffc00000 == 0x91000000 and k == "at" and (kind == "tlvp" or y.vis != "weak"):
                    to = page + (i >> 10 & 0xfff)
                    if to != where(y):
                        raise Bad("%s of %s reaches %#x, should be %#x" % (kind, s[3], to, where(y)))
                    continue
                if i & 0xffc00000 != 0xf9400000 or i >> 5 & 31 != r:
                    raise Bad("instruction %08x after adrp of %s" % (i, s[3]))
                slot(page + (i >> 10 & 0xfff) * 8, o, s[3], kind, (6,) if kind == "got" else (0x14,))
            elif kind == "gotpc":
                slot(at + sext(im.u32(at), 32), o, s[3], "relative slot reference", (6,))
            elif kind == "diff":
                v = sext(im.u32(at), 32) if s[6] == 4 else sext(im.u64(at), 64)
                want = where(resolve(o, s[3])[1]) - where(resolve(o, s[4])[1]) + s[5]
                if v != want:
                    raise Bad("%s - %s%+d is %d, should be %d" % (s[3], s[4], s[5], v, want))
                if at in im.rebases or bound(at):
                    raise Bad("difference at %#x is relocated at run time" % at)
            elif kind == "bound":
                e = s[3]
                if e[0] == "seg":
                    g = next(g for g in im.segs if g.name == e[1])
                    want = g.addr + (g.size if e[2] else 0)
                else:
                    t = im.sect(e[1], e[2])
                    want = t.addr + (t.size if e[3] else 0)
                if im.u64(at) != want or at not in im.rebases:
                    raise Bad("boundary %s is %#x, should be %#x" % (e, im.u64(at), want))
    # thread-local descriptors
    tl = [t for t in im.sects if t.flags & 0xff in (0x11, 0x12)]
    base = min([t.addr for t in tl] or [0])
    spans = []
    for o in use:
        for x in o.defs:
            if x.kind in ("tlv", "tbss"):
                a = where(x)
                t = im.sect_of(a)
                if t is None or t.flags & 0xff != 0x13 or (a - t.addr) % 24:
                    raise Bad("descriptor of %s is at %#x" % (x.name, a))
                pointer(a, o, "__tlv_bootstrap", 0, "thread-local descriptor")
                if a + 16 in im.rebases or bound(a + 16):
                    raise Bad("offset of %s is relocated at run time" % x.name)
                init = im.u64(a + 16) + base
                if x.kind == "tlv":
                    f = im.find(x.marker)
                    if f != [init]:
                        raise Bad("initial value of %s is at %s, its descriptor says %#x" % (x.name, f, init))
                else:
                    t = im.sect_of(init)
                    if t is None or t.flags & 0xff != 0x12 or init + x.size > t.addr + t.size or init % (1 << x.align):
                        raise Bad("zero-filled thread-local %s is at %#x" % (x.name, init))
                    spans.append((init, init + x.size, x.name))
            elif x.kind in ("bss", "comm") and (x.vis == "local" or glob[x.name] is x):
                a = where(x)
                n = x.size
                if x.kind == "comm":
                    n = max(y.size for q in use for y in q.defs if y.name == x.name and y.kind == "comm")
                t = im.sect_of(a)
                if t is None or not t.zero or a + n > t.addr + t.size:
                    raise Bad("zero-filled %s is at %#x" % (x.name, a))
                spans.append((a, a + n, x.name))
    spans.sort()
    for p, q in zip(spans, spans[1:]):
        if q[0] < p[1]:
            raise Bad("%s and %s overlap" % (p[2], q[2]))
    # initializers in order
    t = next((t for t in im.sects if t.flags & 0xff == 9), None)
    have = [im.u64(t.addr + 8 * i) for i in range(t.size // 8)] if t else []
    seqs = [[]]         # members of one archive come in any order
    for k, v in w.order:
        part = [[(o, x) for x in o.inits] for o in use if o.inits and (k == "obj" and o is v or k == "ar" and o.archive == v)]
        seqs = [s + [e for b in p for e in b] for s in seqs for p in itertools.permutations(part)]
    seq = next((s for s in seqs if have == [where(resolve(o, x.name)[1]) for o, x in s]), None)
    if seq is None:
        raise Bad("initializers are %s" % [hex(v) for v in have])
    for i in range(len(have)):
        pointer(t.addr + 8 * i, seq[i][0], seq[i][1].name, 0, "initializer")
    # symbol table and exports
    exp = {"__mh_execute_header": (0, 0)}
    for n, x in glob.items():
        a = where(x)
        y = glob[x.to] if x.kind == "alias" else x
        c = im.defs.get(n, [])
        if [e[0] for e in c] != [a]:
            raise Bad("symbol %s has addresses %s, should be %#x" % (n, [hex(e[0]) for e in c], a))
        if x.vis in ("global", "weak"):
            if not c[0][1] & 1:
                raise Bad("symbol %s is not external" % n)
            fl = (4 if x.vis == "weak" else 0) | (2 if y.kind == "abs" else 1 if y.kind in ("tlv", "tbss") else 0)
            exp[n] = (fl, a if y.kind == "abs" else a - BASE)
            if (c[0][3] & 0x80 != 0) != (x.vis == "weak"):
                raise Bad("symbol %s: weak bit of %#x" % (n, c[0][3]))
    vis = {}
    for o in use:
        for x in o.defs:
            if x.vis in ("global", "weak"):
                vis[x.name] = 1
    for n in set(exp) | set(im.exports):
        if exp.get(n) != im.exports.get(n):
            if n in glob and glob[n].vis in ("private", "weakhid") and n in vis:
                continue
            raise Bad("export of %s is %s, should be %s" % (n, im.exports.get(n), exp.get(n)))
    for o in use:
        for x in o.defs:
            if x.vis == "local" and x.kind not in ("tlv", "tbss") and where(x) not in [e[0] for e in im.defs.get(x.name, [])]:
                raise Bad("local symbol %s is not recorded at %#x" % (x.name, where(x)))
    for n, (ordinal, desc) in im.undef.items():
        if n in w.imports:
            k = resolve(use[0], n)[1] if n not in glob else None
            lib = w.dylibs[k]["name"] if k is not None else None
            if lib is None or not 1 <= ordinal <= len(im.dylibs) or im.dylibs[ordinal - 1][0] != lib:
                raise Bad("undefined %s is recorded for library %d" % (n, ordinal))
            if bool(desc & 0x40) != w.dylibs[k]["weak"]:
                raise Bad("undefined %s: description %#x" % (n, desc))
    # libraries
    names = [l[0] for l in im.dylibs]
    want = [SYSTEM] + [w.dylibs[v]["name"] for k, v in w.order if k == "dylib" and v]
    if names != want:
        raise Bad("libraries are %s, should be %s" % (names, want))
    for n, cmd in im.dylibs:
        weak = next(l["weak"] for l in w.dylibs if l["name"] == n)
        if (cmd == 0x80000018) != weak:
            raise Bad("library %s is loaded by command %#x" % (n, cmd))
    p = im.cmds.get(0x80000028)
    if p is None or struct.unpack_from("<Q", im.b, p + 8)[0] + BASE != where(glob["_main"]):
        raise Bad("entry point")
    # function starts
    st = im.starts()
    if st != sorted(set(st)):
        raise Bad("function starts are not increasing")
    for n, x in glob.items():
        if x.kind == "func" and where(x) not in st:
            raise Bad("function %s is not among the function starts" % n)
    # data in code
    want = sorted((where(x) + off - BASE, n, k) for o in use for x, off, n, k in o.dices)
    if im.data_in_code() != want:
        raise Bad("data in code is %s, should be %s" % (im.data_in_code(), want))
    # unwind entries
    uw = im.unwind(BASE)
    rec = {}
    for o in use:
        for x, enc, pers, lsda in o.unwind:
            a = where(x)
            rec[a] = 1
            row = next((r for r in uw or [] if r[0] <= a < r[1]), None)
            end = next((r for r in uw or [] if r[0] <= a + x.size - 4 < r[1]), None)
            if row is None or row[2] != enc or end is None or end[2] != enc:
                raise Bad("unwind entry of %s is %s, should be %#x" % (x.name, row and hex(row[2]), enc))
            if (row[3] is None) != (pers is None):
                raise Bad("personality of %s is %s" % (x.name, row[3]))
            if pers:
                slot(row[3], o, pers, "personality", (6,))
            if (row[4] is None) != (lsda is None) or lsda and (row[0] != a or im.read(row[4], 8) != lsda):
                raise Bad("language data of %s is at %s" % (x.name, row[4]))
    for o in use:
        for x in o.defs:
            if x.kind == "func" and where(x) not in rec:
                row = next((r for r in uw or [] if r[0] <= where(x) < r[1]), None)
                if row and row[2]:
                    raise Bad("function %s has unwind entry %#x of another" % (x.name, row[2]))
    return None


def main():
    global LD
    chk = Check("P24", rule="the image has at least three references whose targets are checked; distinct by inputs and their order")
    LD = ldkit.build_ldrun()
    run_direct(chk, [("link", 9, gen, evaluate), ("error", 1, gen_error, eval_error)], 3000, 60000, chunk=4)
    chk.finish()


if __name__ == "__main__":
    run_main(main)
