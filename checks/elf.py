"""Every reference in a linked ELF image reaches the definition the symbol rules select."""
import os
import re
import struct
import subprocess
import sys

sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "lib"))
from pbt import Check, run_main, run_proc
from direct import DCase, Inconclusive, run_direct
import ldkit
from ldkit import Elf, Image, PF_R, PF_W, PF_X
import elfmodel as E
from elfmodel import FORMS, M64, Bad, word

LD = None
SECS = {
    "text": [".text", ".text", ".text.fn%d", ".text.hot%d"],
    "rodata": [".rodata", ".rodata.r%d"],
    "data": [".data", ".data.d%d"],
    "relro": [".data.rel.ro", ".data.rel.ro.local"],
    "bss": [".bss", ".bss.b%d"],
    "tdata": [".tdata", ".tdata.t%d"],
    "tbss": [".tbss", ".tbss.t%d"],
    "custom": ["cset_a", "cset_b"],
}
FLAGS = {"text": '"ax"', "rodata": '"a"', "data": '"aw"', "relro": '"aw"', "bss": '"aw",@nobits', "tdata": '"awT"',
         "tbss": '"awT",@nobits', "custom": '"aw"'}
TLS = ("tdata", "tbss")
NOBITS = ("bss", "tbss", "common")


class Def:
    def __init__(self, **kw):
        self.__dict__.update(dict(refs=[], comdat=None, vis="", cfi=False, pers=None, lsda=None, words=2, align=3, ifunc=False, text=None))
        self.__dict__.update(kw)


class Ref:
    def __init__(self, form, name, k, d, want, j):
        self.form, self.name, self.k, self.owner, self.want, self.j = form, name, k, d, want, j


def gen(d, invalid=False):
    arch = d.choice(["amd64", "arm64", "riscv64"])
    pie = d.bool()
    debug = d.bool(1, 4)
    relax = arch == "riscv64" and not pie and d.bool()
    cfi = not (arch == "riscv64" and pie)   # the static PIE policy rejects its unwind relocations
    nobj = d.int(1, 4)
    objs = [{"i": i, "ar": None} for i in range(nobj)]
    nar = d.choice([0, 0, 1, 2])
    ars = []
    for a in range(nar):
        mem = []
        for _ in range(d.int(1, 3)):
            o = {"i": len(objs), "ar": a}
            objs.append(o)
            mem.append(o["i"])
        ars.append({"members": mem, "format": d.choice(["gnu", "gnu", "bsd", "thin"]), "pos": d.int(1, nobj)})
    feats = {arch, "pie" if pie else "exec"}
    defs = []
    uid = [0]

    def newdef(obj, name, bind, sec, **kw):
        uid[0] += 1
        x = Def(id=uid[0], obj=obj, name=name, bind=bind, sec=sec,
                secname=kw.pop("secname", None) or (d.choice(SECS[sec]).replace("%d", str(uid[0])) if sec in SECS else None),
                align=kw.pop("align", None) or d.choice([3, 3, 3, 4, 5, 6, 8, 12]), words=kw.pop("words", None) or d.int(1, 5), **kw)
        defs.append(x)
        return x

    newdef(0, "_start", "global", "text")
    names = []
    for o in objs:
        for _ in range(d.int(1, 5)):
            nm = "sy%d" % len(names)
            names.append(nm)
            r = d.below(20)
            direct = [q["i"] for q in objs if q["ar"] is None]
            if r < 14:
                sec = d.choice(["text", "text", "text", "rodata", "data", "data", "relro", "bss", "tdata", "tbss", "custom"])
                bind = d.weighted([(6, "global"), (2, "local"), (2, "weak")])
                x = newdef(o["i"], nm, bind, sec, vis=d.weighted([(6, ""), (1, "hidden"), (1, "protected")]) if bind != "local" else "",
                           cfi=sec == "text" and cfi and d.bool(1, 3))
                others = [q for q in direct if q != o["i"]]
                if bind != "local" and o["ar"] is None and others and d.bool(1, 3):
                    k = d.below(3)
                    oo = d.choice(others)
                    if k == 0:
                        newdef(oo, nm, "weak", sec)
                        feats.add("weak-dup")
                    elif k == 1:
                        newdef(oo, nm, "local", sec)
                        feats.add("local-dup")
                    elif bind == "global" and sec in ("data", "bss"):
                        newdef(oo, nm, "global", "common", words=1)
                        feats.add("strong-common")
                if o["ar"] is not None and bind == "global":
                    # an object on the command line may already define it, weakly or not
                    k = d.below(6)
                    if k == 0:
                        x.bind = "weak"
                        newdef(d.choice(direct), nm, "global", sec)
                        feats.add("archive-dup")
            elif r < 16 and o["ar"] is None:
                for q in sorted({o["i"], d.choice(direct)}):
                    newdef(q, nm, "global", "common", words=d.int(1, 8), align=d.int(3, 6))
                feats.add("common")
            elif r < 18:
                newdef(o["i"], nm, "global" if d.bool() else "local", "text", ifunc=True)
                feats.add("ifunc")
            elif o["ar"] is None:
                for q in sorted({o["i"], d.choice(direct), d.choice(direct)}):
                    newdef(q, nm, "weak", "text", comdat=nm, secname=".text." + nm, cfi=cfi and d.bool(1, 3))
                    if d.bool():
                        newdef(q, nm + "_d", "weak", "data", comdat=nm, secname=".data." + nm)
                feats.add("comdat")
            else:
                newdef(o["i"], nm, "global", "text")
    if ars and d.bool(1, 3):
        # two members with nothing but the same definition: the first one wins
        nm = "sy%d" % len(names)
        names.append(nm)
        sec = d.choice(["text", "data", "rodata"])
        ar = d.below(len(ars))
        at = d.int(0, len(ars[ar]["members"]))
        for k in range(2):
            o = {"i": len(objs), "ar": ar}
            objs.append(o)
            ars[ar]["members"].insert(at + k, o["i"])
            newdef(o["i"], nm, "global", sec)
        feats.add("twin-members")
    # members of one comdat group must exist in the winning object to be referenced
    strings = [d.choice(["", "a", "ab", "abc", "bc", "c", "xyz", "yz", "hello"]) + str(d.below(3)) for _ in range(d.int(0, 5))]
    strdefs = []
    for k, s in enumerate(strings):
        o = d.choice(objs[:3])["i"]
        w = d.choice([1, 1, 1, 2, 4])
        al = d.choice([w, w, 8])
        strdefs.append((o, "ms%d" % k, b"".join(bytes([ch]) + bytes(w - 1) for ch in s.encode() + b"\0"),
                        '.rodata.str%d.%d,"aMS",@progbits,%d' % (w, al, w), al))
    for k in range(d.choice([0, 0, 4, 8])):
        w = d.choice([4, 8, 8, 16])
        al = d.choice([w, w, 4, 32])
        strdefs.append((d.choice(objs[:3])["i"], "mc%d" % k, d.choice([bytes(w), b"\x11" * w, b"\x22" * w, bytes(range(w))]),
                        '.rodata.cst%d.%d,"aM",@progbits,%d' % (w, al, w), al))
    weak_undef = ["wu0", "wu1"]

    def resolve(name, obj, loaded):
        """the definition a reference from obj reaches"""
        loc = [x for x in defs if x.name == name and x.obj == obj and x.bind == "local"]
        if loc:
            return loc[0]
        gone = set()
        cands = []
        seen = set()
        for oi in loaded:
            for x in defs:
                if x.obj != oi:
                    continue
                if x.comdat and x.comdat in seen and (x.comdat, oi) not in gone:
                    continue
                if x.name == name and x.bind != "local":
                    cands.append(x)
            for x in defs:
                if x.obj == oi and x.comdat and x.comdat not in seen:
                    seen.add(x.comdat)
                    gone.add((x.comdat, oi))
        strong = [x for x in cands if x.bind == "global" and x.sec != "common"]
        if strong:
            return strong[0]
        com = [x for x in cands if x.sec == "common"]
        if com:
            return max(com, key=lambda x: x.words)
        return cands[0] if cands else None

    direct = [o["i"] for o in objs if o["ar"] is None]
    # references; validity is settled against every object being loaded, then again on the loaded set
    everything = direct + [o["i"] for o in objs if o["ar"] is not None]
    for x in defs:
        if x.sec in NOBITS:
            continue
        if x.comdat and x.sec == "data":
            continue
        where = "code" if x.sec == "text" else "data"
        nref = d.int(0, 4) if x.name != "_start" else d.int(2, 6)
        for j in range(nref):
            k = d.below(12)
            forms = [f for f in FORMS[arch] if f.where == where and not (f.abs and pie) and
                     not (f.wr and pie and x.sec in ("rodata", "text"))]
            if k == 0:
                f = d.choice([f for f in forms if f.weak0 and not f.tls] or [None])
                if f is None:
                    continue
                x.refs.append(Ref(f, d.choice(weak_undef), 0, x, "zero", j))
                feats.add("weak-undef")
                continue
            if k in (1, 2) and strdefs:
                mine = [s for s in strdefs if s[0] == x.obj]
                f = d.choice([f for f in forms if not f.tls and not f.code and f.local and not f.near and f.align == 1 and not f.noadd] or [None])
                if not mine or f is None:
                    continue
                s = d.choice(mine)
                x.refs.append(Ref(f, s[1], d.below(len(s[2])) if d.bool() else 0, x, ("str", s[2], s[4]), j))
                feats.add("merge")
                continue
            t = d.choice(defs)
            if t.bind == "local" and t.obj != x.obj:
                continue
            y = resolve(t.name, x.obj, everything)
            if y is None:
                continue
            alld = [z for z in defs if z.name == t.name]
            if any(z.obj == x.obj and z is not y for z in alld):
                # the assembler may settle a difference within one section by itself
                continue
            if any(z.comdat for z in alld) and t.name.endswith("_d") and y is None:
                continue
            tls = y.sec in TLS
            if any((z.sec in TLS) != tls for z in alld):
                continue
            fs = [f for f in forms if f.tls == tls and (not f.code or all(z.sec == "text" for z in alld)) and
                  f.align <= min(1 << z.align for z in alld) and
                  (not y.ifunc or f.code or f.name == "abs64" and x.sec != "rodata") and
                  (not f.near or (x.obj == t.obj and x.secname == t.secname == ".text" and t.bind == "global" and len(alld) == 1 and
                                  all(z.align <= 6 for z in defs if z.obj == x.obj and z.secname == ".text")))]
            if arch == "riscv64" and any(z.vis for z in alld) and False:
                continue
            if not fs:
                continue
            f = d.choice(fs)
            wk = 0 if f.noadd or y.ifunc or f.align == 16 else d.below(min(z.words for z in alld))
            x.refs.append(Ref(f, t.name, wk, x, "def", j))
            feats.add(f.name)
    for x in defs:
        if x.cfi and not x.comdat and d.bool():
            fn = [z for z in defs if z.sec == "text" and not z.ifunc and not z.comdat and z.name != x.name and
                  (z.obj == x.obj or z.bind == "global" and z.obj in direct and not z.vis) and len([q for q in defs if q.name == z.name]) == 1]
            ro = [z for z in defs if z.sec == "rodata" and z.obj == x.obj and not z.comdat and len([q for q in defs if q.name == z.name]) == 1]
            if fn:
                x.pers = d.choice([z for z in fn if z.bind == "local" and z.secname == ".text"] or fn).name
                feats.add("personality")
                if ro and d.bool():
                    x.lsda = d.choice(ro).name
                    feats.add("lsda")
    specials = []
    for nm in ("_end", "__ehdr_start", "__init_array_start", "__init_array_end", "__start_cset_a", "__stop_cset_a",
               "__start_cset_b", "__stop_cset_b", "_etext", "_edata", "__bss_start"):
        if nm.startswith("__st") and not any(x.secname == nm.split("_", 3)[3] for x in defs if x.obj in direct):
            continue
        if d.bool(1, 3):
            specials.append(nm)
    if not pie:
        specials += ["__rela_iplt_start", "__rela_iplt_end"]
    inits = []
    for _ in range(d.choice([0, 0, 1, 2, 4])):
        tgt = d.choice([x for x in defs if x.sec == "text" and x.bind == "global" and not x.ifunc and not x.comdat and
                        x.obj in direct and len([z for z in defs if z.name == x.name]) == 1] or defs[:1])
        inits.append((d.choice(direct), d.choice([None, None, 1, 5, 10, 100, 65535]), tgt.name))
    dbg = []
    if debug:
        for x in defs:
            if x.bind == "global" and x.sec in ("text", "data") and not x.comdat and not x.ifunc and d.bool(1, 3) and \
                    len([z for z in defs if z.name == x.name]) == 1:
                dbg.append((x.obj, x.name, d.below(x.words)))
        feats.add("debug")
    # which archive members get loaded
    ar_order = []
    inputs = []
    for i in range(nobj + 1):
        for a, ar in enumerate(ars):
            if ar["pos"] == i:
                inputs.append(("a", a))
                ar_order += ar["members"]
        if i < nobj:
            inputs.append(("o", i))

    def pull(live):
        loaded = list(direct)

        def wanted(l):
            out = {"_start"} if l == 0 else set()
            for x in defs:
                if x.obj == l and not (live and x.comdat):
                    out |= {r.name for r in x.refs if r.want == "def"}
            return out - {z.name for z in defs if z.obj == l and z.bind == "local"}
        again = True
        while again:
            again = False
            for oi in ar_order:
                if oi in loaded:
                    continue
                for nm in sorted({x.name for x in defs if x.obj == oi and x.bind != "local"}):
                    if any(nm in wanted(l) for l in loaded) and \
                            not any(x.name == nm and x.obj in loaded and x.bind != "local" for x in defs):
                        loaded.append(oi)
                        again = True
                        break
        return loaded

    loaded = pull(False)
    if loaded != pull(True):
        # whether a reference in a discarded group pulls a member is left open
        for x in defs:
            if x.comdat:
                x.refs = [r for r in x.refs if r.want != "def"]
        loaded = pull(False)
    if len(loaded) > len(direct):
        feats.add("archive-pull")
    if any(oi not in loaded for oi in ar_order):
        feats.add("archive-skip")
    # every reference of a loaded object must have a definition; the others are dropped
    case = dict(arch=arch, pie=pie, debug=debug, relax=relax, objs=objs, ars=ars, defs=defs, strdefs=strdefs, loaded=loaded,
                specials=specials, inits=inits, dbg=dbg, inputs=inputs, weak_undef=weak_undef, resolve=resolve,
                compress=debug and d.bool())
    bad = None
    if invalid:
        bad = d.choice(["dup", "undef", "entry", "machine"])
        cands = [x for x in defs if x.bind == "global" and x.obj in direct and x.sec not in ("common",) and not x.comdat]
        case["bad"] = bad
        case["badx"] = d.choice(cands).name
        case["badobj"] = d.choice(direct)
        feats.add("bad-" + bad)
    text = {o["i"]: emit(case, o["i"]) for o in objs}
    case["text"] = text
    info = {"arch": arch, "pie": pie, "inputs": inputs, "archives": ars, "loaded": loaded, "asm": text, "bad": bad}
    key = (arch, pie, tuple(sorted(text.items())))
    return DCase(key, nontrivial=len(feats) >= 5, sample="%s %s %d objects %d definitions: %s" % (
        arch, "pie" if pie else "exec", len(objs), len(defs), " ".join(sorted(feats))), feats=sorted(feats), info=info, c=case)


def emit(c, oi):
    arch = c["arch"]
    out = []
    A = out.append
    if arch == "riscv64":
        A(".option %srelax" % ("" if c["relax"] else "no"))
    mine = [x for x in c["defs"] if x.obj == oi]
    used = set()
    for x in mine:
        if x.sec == "common":
            A(".comm %s,%d,%d" % (x.name, 8 * x.words, 1 << x.align))
            continue
        flags = FLAGS[x.sec]
        if x.comdat:
            flags = flags.replace('"ax"', '"axG"').replace('"aw"', '"awG"')
        A(".section %s,%s%s%s" % (x.secname, flags, "" if "@" in flags else ",@progbits", ",%s,comdat" % x.comdat if x.comdat else ""))
        if x.sec == "text" and arch == "riscv64":
            A(".balign %d" % (1 << x.align))
        else:
            A(".balign %d" % (1 << x.align))
        if x.bind != "local":
            A(".%s %s" % ("globl" if x.bind == "global" else "weak", x.name))
        if x.vis:
            A(".%s %s" % (x.vis, x.name))
        A(".type %s,@%s" % (x.name, "gnu_indirect_function" if x.ifunc else "function" if x.sec == "text" else
                            "tls_object" if x.sec in TLS else "object"))
        A("%s:" % x.name)
        if x.cfi:
            A(".cfi_startproc")
            if x.pers:
                A(".cfi_personality 0x1b, %s" % x.pers)
            if x.lsda:
                A(".cfi_lsda 0x1b, %s" % x.lsda)
        if x.sec in NOBITS:
            A(".zero %d" % (8 * x.words))
        else:
            A(".quad " + ", ".join("%#x" % word(x.id, k) for k in range(x.words)))
        for r in x.refs:
            A(".quad %#x" % word(x.id, "ref", r.j))
            A(r.form.emit(r.name, r.k * 8 if r.want == "def" else r.k, "%d_%d" % (x.id, r.j)))
            if r.form.name in ("tlsgd", "tlsld"):
                used.add("__tls_get_addr")
            if r.want == "zero":
                A(".weak %s" % r.name)
            A(".balign 8")
        if x.cfi:
            A(".cfi_endproc")
        A(".size %s, .-%s" % (x.name, x.name))
    strs = [s for s in c["strdefs"] if s[0] == oi]
    secs = set()
    if strs:
        for _, nm, s, sec, al in strs:
            A(".section %s\n.balign %d" % (sec, min(al, int(sec.rsplit(",", 1)[1]))))
            if al > int(sec.rsplit(",", 1)[1]):
                A(".p2align 0" if sec in secs else ".balign %d" % al)
            secs.add(sec)
            A("%s: .byte %s" % (nm, ",".join(map(str, s))))
    if oi == 0 and c["specials"]:
        A('.section .data.specials,"aw",@progbits\n.balign 8')
        for k, nm in enumerate(c["specials"]):
            A(".quad %#x\n.quad %s" % (word("special", k), nm))
    for k, (o, pr, nm) in enumerate(c["inits"]):
        if o == oi:
            A('.section .init_array%s,"aw",@init_array\n.balign 8\n.quad %s' % ("" if pr is None else ".%05d" % pr, nm))
    dbg = [g for g in c["dbg"] if g[0] == oi]
    if dbg:
        A('.section .debug_info,"",@progbits')
        for _, nm, k in dbg:
            A(".quad %#x\n.quad %s+%d\n.%s .Ldstr_%s" % (word("dbg", nm), nm, 8 * k, "word" if arch != "amd64" else "long", nm))
        # long enough for the compressor to find repetitions
        A(".zero 300\n.rept 20\n.quad 0x1234567890\n.endr")
        A('.section .debug_str,"MS",@progbits,1')
        for _, nm, k in dbg:
            A(".Ldstr_%s: .asciz \"name of %s\"" % (nm, nm))
    if c.get("bad") == "undef" and oi == c["badobj"]:
        A('.data\n.quad nowhere_defined')
    if c.get("bad") == "dup" and oi == c["badobj"]:
        if not any(x.name == c["badx"] and x.bind != "local" for x in mine) and not any(x.name == c["badx"] for x in mine):
            A('.data\n.globl %s\n%s: .quad 1' % (c["badx"], c["badx"]))
        else:
            A('.data\n.quad nowhere_defined')
    A('.section .note.GNU-stack,"",@progbits')
    t = "\n".join(out) + "\n"
    if c.get("bad") == "entry" and oi == 0:
        t = re.sub(r"\b_start\b", "_other_start", t)
    return t


def build_inputs(c, dr):
    args = []
    if c["compress"]:
        args = ["--compress-debug-sections=zlib"]
    for o in c["objs"]:
        ldkit.mc(ldkit.TRIPLE[c["arch"]], c["text"][o["i"]], "%s/o%d.o" % (dr, o["i"]), ldkit.ATTR[c["arch"]] + args)
    if c.get("bad") == "machine":
        other = {"amd64": "arm64", "arm64": "riscv64", "riscv64": "amd64"}[c["arch"]]
        ldkit.mc(ldkit.TRIPLE[other], ".globl other\nother: .quad 0\n", "%s/o%d.o" % (dr, c["badobj"]), ldkit.ATTR[other])
    for a, ar in enumerate(c["ars"]):
        fmt = ar["format"]
        cmd = ["llvm-ar", "--format=" + ("bsd" if fmt == "bsd" else "gnu"), "rc" + ("T" if fmt == "thin" else ""), "lib%d.a" % a] + \
            ["o%d.o" % m for m in ar["members"]]
        if fmt == "thin":
            cmd = ["llvm-ar", "--thin", "rc", "lib%d.a" % a] + ["o%d.o" % m for m in ar["members"]]
        r = subprocess.run(cmd, cwd=dr, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise RuntimeError(r.stdout.decode())
    return ["%s/%s" % (dr, "lib%d.a" % i if k == "a" else "o%d.o" % i) for k, i in c["inputs"]]


def do_link(c, dr, inputs, out):
    rc, so, se, to = run_proc([LD, "linux", c["arch"], str(int(c["pie"])), str(int(c["debug"])), "_start", out] + inputs, dr, timeout=120)
    if to:
        raise Inconclusive("linker timeout")
    return rc, (so + se).decode(errors="replace")


def eval_valid(case, dr):
    c = case.c
    inputs = build_inputs(c, dr)
    out = dr + "/a.out"
    rc, msg = do_link(c, dr, inputs, out)
    if rc < 0 or rc >= 128:
        return "linker crashed: signal %d %s" % (-rc, msg[:500])
    if rc:
        return "link failed: %d %s" % (rc, msg[:500])
    data = open(out, "rb").read()
    rc, msg = do_link(c, dr, inputs, out + "2")
    if rc or open(out + "2", "rb").read() != data:
        return "second link differs"
    try:
        return check_image(c, data)
    except Bad as e:
        return "wrong image: %s" % e
    except ValueError as e:
        return "malformed image: %s" % e


def special(c, im, nm):
    m = im.find(struct.pack("<Q", word("special", c["specials"].index(nm))))
    if len(m) != 1:
        raise Bad("special %s: marker occurs %d times" % (nm, len(m)))
    return im.u64(m[0] + 8)


def check_image(c, data):
    e = Elf(data)
    arch = c["arch"]
    pie = c["pie"]
    if e.machine != E.MACHINE[arch] or e.type != (3 if pie else 2):
        return "header: machine %d type %d" % (e.machine, e.type)
    base = 0x555550000000 if pie else 0
    im = Image(e, base)
    # program headers
    loads = [p for p in e.ph if p["type"] == 1]
    last = -1
    for p in loads:
        if p["filesz"] > p["memsz"]:
            return "program header: file size above memory size"
        if p["align"] and (p["va"] - p["off"]) % p["align"]:
            return "program header: offset and address disagree modulo alignment"
        page = p["va"] & ~0xfff
        if p["memsz"] and page <= last:
            return "program header: load segments overlap or are unordered"
        if p["memsz"]:
            last = (p["va"] + p["memsz"] - 1) & ~0xfff
        if p["flags"] & PF_W and p["flags"] & PF_X:
            return "program header: writable and executable segment"
    for p in e.ph:
        if p["type"] == 0x6474e551 and p["flags"] & PF_X:
            return "program header: executable stack"
    syms = e.symbols()
    byname = {}
    for s in syms:
        byname.setdefault(s["name"], []).append(s)
        if (s["bind"] == 0) != (s["index"] < s["first_global"]):
            return "symbol table: local/global order"
    # dynamic relocations
    dyn = [p for p in e.ph if p["type"] == 2]
    if pie:
        tags = {}
        if dyn:
            for a in range(dyn[0]["va"], dyn[0]["va"] + dyn[0]["memsz"], 16):
                t, v = struct.unpack("<QQ", im.read(a + base, 16))
                if t == 0:
                    break
                tags[t] = v
            if 7 in tags and tags.get(8):
                if tags.get(9) != 24:
                    return "dynamic: DT_RELAENT %s" % tags.get(9)
                im.apply(tags[7] + base, tags[7] + tags[8] + base)
    else:
        # what the C start-up code does
        st, en = [special(c, im, nm) for nm in ("__rela_iplt_start", "__rela_iplt_end")]
        if st < en:
            im.apply(st, en)
    # where every definition went
    addr = {}
    tls = [p for p in e.ph if p["type"] == 7]
    tbase = None
    if tls:
        t = tls[0]
        al = max(1, t["align"])
        if t["va"] % al:
            return "TLS segment: misaligned"
        if arch == "amd64":
            tbase = -((t["memsz"] + al - 1) // al * al)
        elif arch == "arm64":
            tbase = (16 + al - 1) // al * al
        else:
            tbase = 0
    loaded = c["loaded"]
    spans = []
    for x in c["defs"]:
        if x.obj not in loaded:
            if x.sec not in NOBITS and im.find(struct.pack("<Q", word(x.id, 0))):
                return "archive: member o%d was linked although nothing needs it" % x.obj
            continue
        if x.sec in NOBITS:
            continue
        where = im.find(struct.pack("<Q", word(x.id, 0)))
        win = c["resolve"](x.name, x.obj, loaded)
        if x.comdat and not where:
            if win is x:
                return "definition %s of o%d is missing from the image" % (x.name, x.obj)
            continue
        if len(where) != 1:
            return "definition %s of o%d occurs %d times in the image" % (x.name, x.obj, len(where))
        a = where[0]
        for k in range(1, x.words):
            if im.u64(a + 8 * k) != word(x.id, k):
                return "contents of %s damaged at word %d" % (x.name, k)
        if a % (1 << x.align):
            return "alignment of %s: %#x is not a multiple of %d" % (x.name, a, 1 << x.align)
        fl = im.seg(a)[2]
        want = {"text": PF_X, "rodata": 0}.get(x.sec, PF_W)
        if fl & PF_W != want & PF_W or want & PF_X and not fl & PF_X:
            return "segment flags of %s (%s): %d" % (x.name, x.sec, fl)
        addr[x.id] = a
        spans.append((a, a + 8 * x.words, x.name))
    relro = [p for p in e.ph if p["type"] == 0x6474e552]
    for x in c["defs"]:
        if x.id in addr and x.sec == "relro" and relro:
            r = relro[0]
            if not r["va"] + base <= addr[x.id] < r["va"] + base + r["memsz"]:
                return "relro: %s is outside the protected range" % x.name
        if x.id in addr and x.sec in ("data", "custom", "bss") and relro and not x.secname.startswith(".data.rel.ro"):
            r = relro[0]
            if (r["va"] + base) & ~0xfff <= addr[x.id] < (r["va"] + base + r["memsz"] + 0xfff) & ~0xfff:
                return "relro: writable %s lies in the protected range" % x.name
    # zero-initialised definitions are found through the symbol table
    for x in c["defs"]:
        if x.obj not in loaded or x.sec not in NOBITS:
            continue
        if c["resolve"](x.name, x.obj, loaded) is not x and x.sec != "common":
            continue
        y = c["resolve"](x.name, x.obj, loaded)
        if y.sec not in NOBITS or y.id in addr:
            continue
        ss = [s for s in byname.get(x.name, []) if (s["bind"] == 0) == (y.bind == "local" or bool(y.vis == "hidden" and s["bind"] == 0))]
        if len(ss) != 1:
            continue
        a = ss[0]["value"]
        if x.sec == "tbss":
            if not tls:
                return "TLS segment: missing"
            a = a if a >= tls[0]["va"] and pie is None else a
            # symbol values of thread-local symbols are offsets into the TLS segment
            addr[y.id] = ("tls", a)
            if a + 8 * y.words > tls[0]["memsz"] or a + tls[0]["va"] < tls[0]["va"] + tls[0]["filesz"]:
                return "TLS segment: %s at offset %#x does not fit the zero part" % (x.name, a)
            if a % (1 << y.align):
                return "alignment of %s" % x.name
            continue
        a += base
        same = [z for z in c["defs"] if z.name == x.name and z.obj in loaded and z.sec == "common"]
        words = max([z.words for z in same] + [y.words]) if y.sec == "common" else y.words
        al = max([z.align for z in same] + [y.align]) if y.sec == "common" else y.align
        if any(im.read(a, 8 * words)):
            return "contents of %s are not zero" % x.name
        if a % (1 << al):
            return "alignment of %s: %#x is not a multiple of %d" % (x.name, a, 1 << al)
        if im.seg(a)[2] & (PF_W | PF_X) != PF_W:
            return "segment flags of %s: %d" % (x.name, im.seg(a)[2])
        addr[y.id] = a
        spans.append((a, a + 8 * words, x.name))
    spans.sort()
    for p, q in zip(spans, spans[1:]):
        if p[1] > q[0]:
            return "overlap: %s and %s share addresses" % (p[2], q[2])
    # the symbol table agrees with the contents
    for x in c["defs"]:
        if x.id in addr and x.sec not in NOBITS and x.bind == "global" and not isinstance(addr[x.id], tuple):
            if c["resolve"](x.name, -1, loaded) is not x:
                continue
            ss = byname.get(x.name, [])
            vals = {s["value"] for s in ss}
            want = addr[x.id] - base - (tls[0]["va"] if x.sec in TLS and tls else 0)
            if want not in vals and not x.ifunc:
                return "symbol table: %s is %s, contents are at %#x" % (x.name, [hex(v) for v in vals], want)
    if e.entry + base != addr[1]:
        return "entry point %#x is not _start at %#x" % (e.entry, addr[1])
    # follow every reference
    for x in c["defs"]:
        if x.id not in addr or x.sec in NOBITS:
            continue
        pos = addr[x.id] + 8 * x.words
        for r in x.refs:
            m = im.find(struct.pack("<Q", word(x.id, "ref", r.j)))
            if len(m) != 1:
                return "contents of %s: reference marker %d occurs %d times" % (x.name, r.j, len(m))
            try:
                got = r.form.decode(im, m[0] + 8)
            except (Bad, ValueError) as ex:
                return "reference %s (%s) from %s: %s" % (r.name, r.form.name, x.name, ex)
            why = check_ref(c, im, arch, x, r, got, addr, tls, tbase, base)
            if why:
                return why
    return check_special(c, e, im, base, addr, byname)


def check_ref(c, im, arch, x, r, got, addr, tls, tbase, base):
    what = "reference %s+%d (%s) from %s of o%d" % (r.name, r.k, r.form.name, x.name, x.obj)
    if r.want == "zero":
        return None if got == 0 else "%s: undefined weak symbol resolved to %#x" % (what, got)
    if isinstance(r.want, tuple):
        want = r.want[1][r.k:]
        if r.k == 0 and got % r.want[2]:
            return "%s: merged constant at %#x, alignment %d" % (what, got, r.want[2])
        if im.seg(got, len(want)) is None or im.read(got, len(want)) != want:
            return "%s: string %r not found at %#x" % (what, want, got)
        return None
    y = c["resolve"](r.name, x.obj, c["loaded"])
    if y is None:
        return None
    if y.sec in TLS:
        if y.id not in addr:
            return None
        a = addr[y.id]
        off = a[1] if isinstance(a, tuple) else a - base - tls[0]["va"]
        off += 8 * r.k
        if isinstance(got, tuple):
            return None if got[1] == off & M64 else "%s: dtp offset %#x, expected %#x" % (what, got[1], off)
        if got != (tbase + off) & M64:
            return "%s: tp offset %#x, expected %#x" % (what, got, (tbase + off) & M64)
        return None
    if y.id not in addr:
        return None
    want = addr[y.id] + 8 * r.k
    if y.ifunc:
        if got == want | Image.IFUNC:
            return None
        t = E.follow(im, arch, got, want)
        if t != want | Image.IFUNC:
            return "%s: reaches %#x (stub to %s), expected the indirect function resolved by %#x" % (what, got, t and hex(t), want)
        return None
    if got == want:
        return None
    if r.form.code and E.follow(im, arch, got, want) == want:
        return None
    return "%s: reaches %#x, expected %#x" % (what, got, want)


def check_special(c, e, im, base, addr, byname):
    vals = {}
    for k, nm in enumerate(c["specials"]):
        vals[nm] = special(c, im, nm)
    top = max(p["va"] + p["memsz"] for p in e.ph if p["type"] == 1) + base
    ordinary = [x for x in c["defs"] if x.id in addr and not isinstance(addr[x.id], tuple) and x.sec not in TLS]
    if "_end" in vals and not max(addr[x.id] + 8 * x.words for x in ordinary) <= vals["_end"] <= top + 4096:
        return "special _end: %#x" % vals["_end"]
    if "_etext" in vals:
        tx = [addr[x.id] + 8 * x.words for x in ordinary if x.sec == "text"]
        if vals["_etext"] < max(tx):
            return "special _etext: %#x below the end of the code" % vals["_etext"]
    if "__ehdr_start" in vals and im.read(vals["__ehdr_start"], 4) != b"\x7fELF":
        return "special __ehdr_start: %#x" % vals["__ehdr_start"]
    for s in ("cset_a", "cset_b"):
        mem = [x for x in c["defs"] if x.id in addr and x.secname == s]
        a, b = vals.get("__start_" + s), vals.get("__stop_" + s)
        if mem:
            lo, hi = min(addr[x.id] for x in mem), max(addr[x.id] + 8 * x.words for x in mem)
            if a is not None and not lo - 4096 < a <= lo:
                return "special __start_%s: %#x, first element at %#x" % (s, a, lo)
            if b is not None and not b >= hi:
                return "special __stop_%s: %#x, last element ends at %#x" % (s, b, hi)
            inside = [x for x in ordinary if x.secname != s and a is not None and b is not None and a <= addr[x.id] < b]
            if inside:
                return "special __start_%s: range contains %s of %s" % (s, inside[0].name, inside[0].secname)
    a, b = vals.get("__init_array_start"), vals.get("__init_array_end")
    want = []
    for i, (o, pr, nm) in enumerate(c["inits"]):
        if o in c["loaded"]:
            want.append(((pr if pr is not None else 1 << 20), o, i, nm))
    want.sort()
    if a is not None and b is not None:
        if (b - a) != 8 * len(want):
            return "special init array: %d bytes for %d entries" % (b - a, len(want))
        got = [im.u64(a + 8 * k) for k in range(len(want))]
        exp = [addr[c["resolve"](w[3], -1, c["loaded"]).id] for w in want]
        if got != exp:
            return "special init array: %s, expected %s" % ([hex(g) for g in got], [hex(g) for g in exp])
    return check_debug(c, e, addr, base) or check_eh(c, e, im, base, addr)


def check_debug(c, e, addr, base):
    if not c["dbg"]:
        return None
    dbg = [g for g in c["dbg"] if g[0] in c["loaded"]]
    if not dbg:
        return None
    sec, ss = e.section(".debug_info"), e.section(".debug_str")
    if not sec or not ss:
        return "debug: section missing"
    if sec["flags"] & 0x800:
        return "debug: output section is compressed"
    d = e.content(sec)
    s = e.content(ss)
    for o, nm, k in dbg:
        i = d.find(struct.pack("<Q", word("dbg", nm)))
        if i < 0:
            return "debug: marker of %s missing" % nm
        v, so = struct.unpack_from("<QI", d, i + 8)
        want = addr[c["resolve"](nm, -1, c["loaded"]).id] - base + 8 * k
        if v != want:
            return "debug: address of %s is %#x, expected %#x" % (nm, v, want)
        t = ("name of %s" % nm).encode() + b"\0"
        if s[so:so + len(t)] != t:
            return "debug: name of %s not at string offset %d" % (nm, so)
    return None


def augmentation(im, cie, fde):
    """personality routine and language-specific data named by a record"""
    def leb(p):
        v = sh = 0
        while True:
            b = im.read(p, 1)[0]
            p += 1
            v |= (b & 127) << sh
            sh += 7
            if b < 128:
                return v, p
    p = cie + 9
    aug = b""
    while im.read(p, 1) != b"\0":
        aug += im.read(p, 1)
        p += 1
    p += 1
    _, p = leb(p)
    _, p = leb(p)
    _, p = leb(p)
    pers = lsda = None
    if aug[:1] == b"z":
        _, p = leb(p)
        for ch in aug[1:]:
            if ch == ord("P"):
                if im.read(p, 1)[0] != 0x1b:
                    raise Inconclusive("personality encoding")
                pers = p + 1 + im.s32(p + 1)
                p += 5
            elif ch in b"LR":
                p += 1
        if b"L" in aug:
            n, q = leb(fde + 16)
            if n == 4 and im.s32(q):
                lsda = q + im.s32(q)
    return pers, lsda


def check_eh(c, e, im, base, addr):
    fns = [x for x in c["defs"] if x.cfi and x.id in addr]
    if not fns:
        return None
    hs = [p for p in e.ph if p["type"] == 0x6474e550]
    if not hs:
        return "unwind: no header segment"
    a = hs[0]["va"] + base
    ver, pe, ce, te = im.read(a, 4)
    if (ver, pe, ce, te) != (1, 0x1b, 3, 0x3b):
        raise Inconclusive("unwind header encodings %s" % ((ver, pe, ce, te),))
    eh = a + 4 + im.s32(a + 4)
    n = im.u32(a + 8)
    tab = [(a + im.s32(a + 12 + 8 * k), a + im.s32(a + 16 + 8 * k)) for k in range(n)]
    if tab != sorted(tab):
        return "unwind: search table not sorted"
    starts = dict(tab)
    # walk the records themselves
    seen = {}
    p = eh
    for _ in range(10000):
        if im.seg(p, 4) is None:
            break
        ln = im.u32(p)
        if ln == 0:
            break
        idf = im.u32(p + 4)
        if idf:
            cie = p + 4 - idf
            if im.seg(cie, 8) is None or im.u32(cie + 4) != 0:
                return "unwind: record at %#x names no common record" % p
            pc = (p + 8 + im.s32(p + 8))
            seen[pc] = (p, im.u32(p + 12), cie)
        p += 4 + ln
    for x in fns:
        pc = addr[x.id]
        if pc not in seen:
            return "unwind: no record for %s" % x.name
        if starts.get(pc) != seen[pc][0]:
            return "unwind: search table entry of %s" % x.name
        if seen[pc][1] < 8 * x.words:
            return "unwind: record of %s covers %d bytes" % (x.name, seen[pc][1])
        pers, lsda = augmentation(im, seen[pc][2], seen[pc][0])
        for what, nm, got in (("personality", x.pers, pers), ("handler data", x.lsda, lsda)):
            want = addr[c["resolve"](nm, x.obj, c["loaded"]).id] if nm else None
            if got != want:
                return "unwind: %s of %s is %s, expected %s" % (what, x.name, got and hex(got), want and hex(want))
    for pc in starts:
        if pc not in seen:
            return "unwind: search table entry %#x without record" % pc
    return None


def gen_bad(d):
    return gen(d, invalid=True)


def eval_bad(case, dr):
    c = case.c
    inputs = build_inputs(c, dr)
    out = dr + "/a.out"
    with open(out, "wb") as f:
        f.write(b"previous contents")
    before = sorted(os.listdir(dr))
    rc, msg = do_link(c, dr, inputs, out)
    if rc < 0 or rc >= 128:
        return "linker crashed: signal %d %s" % (-rc, msg[:500])
    if rc == 0:
        return "invalid input accepted: %s" % c["bad"]
    if rc < 11:
        return "invalid input: exit code %d %s" % (rc, msg[:200])
    if "error" not in msg:
        return "no diagnostic for invalid input: %s" % c["bad"]
    if open(out, "rb").read() != b"previous contents":
        return "failed link changed the output file"
    if sorted(os.listdir(dr)) != before:
        return "failed link left files behind: %s" % sorted(set(os.listdir(dr)) - set(before))
    return None


def main():
    global LD
    chk = Check("P20", rule="non-trivial when at least five features (relocation forms, archives, weak, common, comdat, "
                            "indirect functions, merging, debug) meet in one link; distinct by target and assembly text")
    LD = ldkit.build_ldrun()
    run_direct(chk, [("valid", 7, lambda d: gen(d), eval_valid), ("invalid", 1, gen_bad, eval_bad)], 5000, 60000, chunk=6)
    chk.finish()


if __name__ == "__main__":
    run_main(main)
