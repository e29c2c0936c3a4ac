"""Builds the compiler and the amd64 runtime from /repo's current working tree.

Objects are cached under /verif/.cache by the hash of what they are compiled
from, so a changed tree is always rebuilt and an unchanged one is not."""
import glob
import hashlib
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".cache")
JOBS = os.cpu_count() or 4

MAIN_DEFS = ["-D_GNU_SOURCE", "-D__AMD64=1", "-D__LINUX=1"]
CONFIG_H = """#ifndef NATURE_CONFIG_H
#define NATURE_CONFIG_H
#define BUILD_VERSION "v0.0.0"
#define BUILD_TIME "1970-01-01"
#define BUILD_TYPE "release"
#endif
"""


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        if isinstance(p, str):
            p = p.encode()
        h.update(len(p).to_bytes(8, "little"))
        h.update(p)
    return h.hexdigest()[:32]


def read(path):
    with open(path, "rb") as f:
        return f.read()


_hdr_cache = {}


def headers_hash(dirs):
    """Hash of every header (and textually included file) below dirs."""
    key = tuple(dirs)
    if key in _hdr_cache:
        return _hdr_cache[key]
    h = hashlib.sha256()
    for d in dirs:
        for root, sub, files in os.walk(d):
            sub[:] = sorted(s for s in sub if s not in (".git", "_build", "mbedtls", "tests"))
            for f in sorted(files):
                if f.endswith((".h", ".in", ".inc", ".def")):
                    p = os.path.join(root, f)
                    h.update(p.encode())
                    h.update(read(p))
    _hdr_cache[key] = h.hexdigest()
    return _hdr_cache[key]


def compile_objs(cc, flags, sources, hdr_hash, what):
    objdir = os.path.join(CACHE, "obj")
    os.makedirs(objdir, exist_ok=True)
    todo, objs = [], []
    for s in sources:
        key = sha(cc, "\0".join(flags), hdr_hash, s, read(s))
        o = os.path.join(objdir, key + ".o")
        objs.append(o)
        if not os.path.exists(o):
            todo.append((s, o))

    def one(so):
        s, o = so
        tmp = o + ".%d.tmp.o" % os.getpid()
        r = subprocess.run([cc] + flags + ["-c", s, "-o", tmp], stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT)
        if r.returncode != 0:
            return s + ":\n" + r.stdout.decode(errors="replace")
        os.replace(tmp, o)
        return None

    # longest files first keeps all cores busy to the end
    todo.sort(key=lambda so: -os.path.getsize(so[0]))
    with ThreadPoolExecutor(JOBS) as ex:
        errs = [e for e in ex.map(one, todo) if e]
    if errs:
        raise BuildError("building %s failed:\n%s" % (what, errs[0][-4000:]))
    return objs


def compiler_sources():
    src = sorted(glob.glob(REPO + "/src/**/*.c", recursive=True))
    for d in ("cmd", "utils", "utils/yaml", "utils/llhttp"):
        src += sorted(glob.glob("%s/%s/*.c" % (REPO, d)))
    return src


def config_dir():
    d = os.path.join(CACHE, "cfg")
    os.makedirs(d + "/config", exist_ok=True)
    p = d + "/config/config.h"
    if not os.path.exists(p) or read(p).decode() != CONFIG_H:
        tmp = p + ".%d" % os.getpid()
        with open(tmp, "w") as f:
            f.write(CONFIG_H)
        os.replace(tmp, p)
    return d


def compiler_flags(extra):
    return MAIN_DEFS + ["-I" + config_dir(), "-I" + REPO + "/include", "-I" + REPO,
                        "-std=gnu11", "-w"] + extra


def compiler_objs(extra=("-O1",), cc="gcc", with_main=True):
    hh = headers_hash([REPO + "/" + d for d in ("src", "utils", "cmd", "include", "runtime", "config")])
    srcs = compiler_sources()
    if with_main:
        srcs = [REPO + "/main.c"] + srcs
    return compile_objs(cc, compiler_flags(list(extra)), srcs, hh, "compiler")


def link(cc, objs, out, flags=()):
    tmp = out + ".%d.tmp" % os.getpid()
    r = subprocess.run([cc] + list(flags) + objs + ["-o", tmp, "-lm", "-lpthread"],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError("link failed: " + r.stdout.decode(errors="replace")[-3000:])
    os.replace(tmp, out)


def build_compiler(extra=("-O1",), cc="gcc", ldflags=()):
    objs = compiler_objs(extra, cc)
    key = sha(*([cc] + list(extra) + list(ldflags) + objs))
    out = os.path.join(CACHE, "nature-" + key)
    if not os.path.exists(out):
        link(cc, objs, out, ldflags)
    return out


RT_FLAGS = ["-DLLHTTP_STATIC_LIB", "-DRUNTIME", "-DTEST_MODE"] + MAIN_DEFS


def musl_gcc():
    for n in ("x86_64-linux-musl-gcc", "musl-gcc"):
        p = shutil.which(n)
        if p:
            return p
    raise BuildError("no musl gcc")


def build_runtime(opt=("-g", "-O2", "-fno-omit-frame-pointer")):
    cc = musl_gcc()
    inc = ["-I" + REPO + "/runtime/mbedtls/include", "-I" + REPO + "/include", "-I" + REPO]
    flags = RT_FLAGS + inc + ["-static", "-std=gnu11", "-w"] + list(opt)
    rt = [p for p in glob.glob(REPO + "/runtime/**/*.c", recursive=True)]
    mbed = sorted(p for p in rt if "/mbedtls/" in p)
    own = sorted(p for p in rt if "/mbedtls/" not in p) + sorted(glob.glob(REPO + "/utils/*.c"))
    hh = headers_hash([REPO + "/" + d for d in ("runtime", "utils", "include", "src")])
    h = hashlib.sha256()
    for root, sub, files in os.walk(REPO + "/runtime/mbedtls"):
        sub.sort()
        for f in sorted(files):
            if f.endswith(".h"):
                h.update(read(os.path.join(root, f)))
    mh = h.hexdigest()
    # mbedtls is third-party code; -O1 halves its build time
    mflags = [f if f != "-O2" else "-O1" for f in flags if f != "-g"]
    with ThreadPoolExecutor(2) as ex:
        a = ex.submit(compile_objs, cc, flags, own, hh, "runtime")
        b = ex.submit(compile_objs, cc, mflags, mbed, mh + hh, "mbedtls")
        objs = a.result() + b.result()
    asm = compile_objs(cc, RT_FLAGS + inc + ["-g"], [REPO + "/runtime/aco/acosw.S"], hh, "acosw")
    objs = asm + objs
    key = sha(*objs)
    out = os.path.join(CACHE, "libruntime-%s.a" % key)
    if not os.path.exists(out):
        # members get the names of their sources so that archive order is stable
        d = out + ".%d.d" % os.getpid()
        os.makedirs(d)
        names = []
        for i, o in enumerate(objs):
            n = os.path.join(d, "rt%03d.o" % i)
            os.link(o, n)
            names.append(n)
        tmp = out + ".%d.tmp" % os.getpid()
        r = subprocess.run(["ar", "qcD", tmp] + names, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        shutil.rmtree(d)
        if r.returncode != 0:
            raise BuildError(r.stdout.decode())
        os.replace(tmp, out)
    return out


def make_root(libruntime):
    """A NATURE_ROOT that is /repo except for lib/linux_amd64/libruntime.a."""
    key = sha(libruntime, REPO)
    root = os.path.join(CACHE, "root-" + key)
    if os.path.isdir(root):
        return root
    tmp = root + ".%d.tmp" % os.getpid()
    shutil.rmtree(tmp, ignore_errors=True)
    os.makedirs(tmp + "/lib/linux_amd64")
    os.symlink(REPO + "/std", tmp + "/std")
    for d in os.listdir(REPO + "/lib"):
        if d != "linux_amd64":
            os.symlink(REPO + "/lib/" + d, tmp + "/lib/" + d)
    for f in os.listdir(REPO + "/lib/linux_amd64"):
        if f != "libruntime.a":
            os.symlink(REPO + "/lib/linux_amd64/" + f, tmp + "/lib/linux_amd64/" + f)
    os.symlink(libruntime, tmp + "/lib/linux_amd64/libruntime.a")
    try:
        os.rename(tmp, root)
    except OSError:
        shutil.rmtree(tmp, ignore_errors=True)
    return root


class Toolchain:
    def __init__(self):
        os.makedirs(CACHE, exist_ok=True)
        with ThreadPoolExecutor(2) as ex:
            a = ex.submit(build_compiler)
            b = ex.submit(build_runtime)
            self.nature = a.result()
            self.libruntime = b.result()
        self.root = make_root(self.libruntime)


if __name__ == "__main__":
    import time
    t = time.time()
    try:
        tc = Toolchain()
    except BuildError as e:
        print(e)
        sys.exit(2)
    print(tc.nature, tc.root, "%.1fs" % (time.time() - t))
