"""Builds instrumented (symbolic) and native (replay) harness executables from /repo's current sources."""
import concurrent.futures as cf
import hashlib, os, re, subprocess, sys, shutil, threading, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
BUILD = os.environ.get("SYMX_BUILD", os.path.join(VERIF, "build"))
ENG = os.path.join(VERIF, "engine")
LLVM = "/usr/lib/llvm-18/bin"
INC_COMMON = ["-I" + ENG, "-I" + REPO + "/src", "-I/opt/vp/compat/include", "-I/opt/vp/compat/openfst/include"]
SYM_INC = ["-I" + ENG + "/stubs", "-isystem", "/usr/include/jsoncpp"]
NAT_INC = ["-isystem", "/usr/include/jsoncpp", "-I" + ENG + "/natstubs"]
SYM_FLAGS = ["-O1", "-gline-tables-only", "-DNDEBUG", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_GLIBCXX_ASSERTIONS", "-DCSV_IO_NO_THREAD", "-DSYM_ENGINE",
             "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-w", "-fno-threadsafe-statics"]
NAT_FLAGS = ["-O1", "-g1", "-DNDEBUG", "-D_GLIBCXX_ASSERTIONS", "-DCSV_IO_NO_THREAD", "-DSYM_REPLAY", "-w", "-ffunction-sections", "-fdata-sections"]
PROGRAM = REPO + "/src/main.cpp"
NPROC = os.cpu_count() or 4


class BuildError(Exception):
    pass


def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode != 0:
        raise BuildError("command failed: %s\n%s" % (" ".join(cmd), p.stdout[-6000:]))
    return p.stdout


def fhash(*paths):
    h = hashlib.sha256()
    for p in paths:
        h.update(p.encode())
        with open(p, "rb") as f:
            h.update(f.read())
    return h.hexdigest()


def tree_files(d, exts):
    out = []
    for r, ds, fs in os.walk(d):
        ds.sort()
        for f in sorted(fs):
            if f.endswith(exts):
                out.append(os.path.join(r, f))
    return out


_hdr = {}


def header_hash(kind):
    if kind not in _hdr:
        fs = tree_files(REPO + "/src", (".h", ".hpp", ".inc")) + tree_files(ENG + "/" + ("stubs" if kind == "sym" else "natstubs"), ("",)) + [ENG + "/sym.h"] + tree_files(VERIF + "/harness", (".h",))
        _hdr[kind] = fhash(*fs)
    return _hdr[kind]


def tool(name, src, cmd):
    """build an engine tool when its source changed"""
    os.makedirs(BUILD, exist_ok=True)
    out = os.path.join(BUILD, name)
    key = fhash(src) + hashlib.sha256(" ".join(cmd).encode()).hexdigest()
    kf = out + ".key"
    if os.path.exists(out) and os.path.exists(kf) and open(kf).read() == key:
        return out
    tmp = out + ".tmp%d" % os.getpid()
    run([c if c != "@OUT" else tmp for c in cmd])
    os.replace(tmp, out)
    with open(kf, "w") as f:
        f.write(key)
    return out


def engine_tools():
    cxx = run([LLVM + "/llvm-config", "--cxxflags"]).split()
    cxx = [c for c in cxx if not c.startswith("-O") and c != "-fno-exceptions"]
    with cf.ThreadPoolExecutor(2) as ex:
        a = ex.submit(tool, "symx.so", ENG + "/pass.cpp", ["clang++", "-O1", "-fPIC", "-shared", "-fno-rtti"] + cxx + ["-std=c++17", ENG + "/pass.cpp", "-o", "@OUT"])
        b = ex.submit(tool, "rt.o", ENG + "/rt.cpp", ["clang++", "-std=c++17", "-O2", "-g", "-c", ENG + "/rt.cpp", "-o", "@OUT"])
        return a.result(), b.result()


def std_of(src, harness=False):
    # same language level as the repository's build uses
    return "-std=gnu++14" if os.path.basename(src) == "PathHeap.cpp" and src.startswith(REPO) else "-std=gnu++17"


_locks, _glock = {}, threading.Lock()


def cached(key, ext, make):
    d = os.path.join(BUILD, "cache")
    os.makedirs(d, exist_ok=True)
    out = os.path.join(d, key + ext)
    with _glock:
        lk = _locks.setdefault(out, threading.Lock())
    with lk:
        if not os.path.exists(out):
            tmp = out + ".tmp%d" % os.getpid()
            make(tmp)
            os.replace(tmp, out)
    return out


_all = []


def incl(src):
    """a harness that includes a source file of the repository depends on it"""
    if not src.startswith(VERIF + "/harness/") or '.cpp"' not in open(src).read():
        return ""
    if not _all:
        _all.append(fhash(*tree_files(REPO + "/src", (".cpp",))))
    return _all[0]


def bc_of(src, extra):
    flags = SYM_FLAGS + (["-fno-builtin"] if src.startswith(ENG + "/lib/") else []) + [std_of(src)] + SYM_INC + INC_COMMON + list(extra)
    key = hashlib.sha256((fhash(src) + incl(src) + header_hash("sym") + " ".join(flags)).encode()).hexdigest()[:32]

    def mk(tmp):
        if src == PROGRAM:  # its main becomes an ordinary function, with the value main returns at its end
            run(["clang++"] + flags + ["-emit-llvm", "-S", src, "-o", tmp])
            t = open(tmp).read()
            open(tmp, "w").write(re.sub(r"@main\b", "@fstalign_main", t))
        else:
            run(["clang++"] + flags + ["-emit-llvm", "-c", src, "-o", tmp])
    return cached(key, ".bc", mk)


def nat_of(src, extra, asan):
    flags = NAT_FLAGS + [std_of(src)] + NAT_INC + INC_COMMON + list(extra) + (["-fsanitize=address"] if asan else [])
    key = hashlib.sha256((fhash(src) + incl(src) + header_hash("nat") + " ".join(flags) + "g++").encode()).hexdigest()[:32]

    def mk(tmp):
        run(["g++"] + flags + ["-c", src, "-o", tmp])
        if src == PROGRAM:
            run(["objcopy", "--redefine-sym", "main=fstalign_main", tmp])
    return cached(key, ".o", mk)


def repo_src(names):
    return [REPO + "/src/" + n for n in names]


def all_sources():
    """every source of the repository that its own build compiles, without the program's main"""
    return sorted(f for f in os.listdir(REPO + "/src") if f.endswith(".cpp") and f not in ("main.cpp", "SynonymEngine.cpp"))


def with_fallback(f):
    """link the listed sources; when that leaves undefined symbols (code moved between files), link all of them"""
    def g(harness, sources, *a, **k):
        try:
            return f(harness, sources, *a, **k)
        except BuildError as e:
            if "undefined" not in str(e) and "No such file" not in str(e) and "no such file" not in str(e):
                raise
            t = open(harness).read()  # but not what the harness includes or stands in for
            given = set(re.findall(r'#include "([^"]*[.]cpp)"', t)) | {w for l in re.findall(r"^// not linked: (.*)", t, re.M) for w in l.split()}
            return f(harness, sorted(set(all_sources()) - given | {s for s in sources if os.path.exists(REPO + "/src/" + s)}), *a, **k)
    return g


@with_fallback
def build_sym(harness, sources, lib=(), extra=(), keep=""):
    """harness: path; sources: names below /repo/src; lib: files below engine/lib"""
    so, rt = engine_tools()
    srcs = [harness] + repo_src(sources) + [ENG + "/lib/" + l for l in lib]
    with cf.ThreadPoolExecutor(NPROC) as ex:
        bcs = list(ex.map(lambda s: bc_of(s, extra), srcs))
    key = hashlib.sha256((fhash(*bcs) + fhash(so, rt) + keep + REPO).encode()).hexdigest()[:32]

    def mk(tmp):
        base = tmp + ".w"
        try:
            run([LLVM + "/llvm-link", "-o", base + ".bc"] + bcs)
            run([LLVM + "/opt", "-load-pass-plugin=" + so, "-scalarize-load-store", "-symx-src=" + REPO + "/src/", "-passes=symint,globaldce,function(lower-expect,lowerswitch,loweratomic,scalarizer),symx,globaldce,verify", base + ".bc", "-o", base + ".i.bc"])
            run(["clang++", "-O1", "-x", "ir", "-c", base + ".i.bc", "-o", base + ".o", "-w"])
            run(["clang++", "-no-pie", base + ".o", rt, "-o", tmp, "-lz3", "-lfst", "-ljsoncpp", "-lfmt", "-licuuc", "-lstdc++", "-lm", "-lpthread", "-ldl"])
        finally:
            for e in (".bc", ".i.bc", ".o"):
                if os.path.exists(base + e) and not os.environ.get("SYMX_KEEP"):
                    os.unlink(base + e)
    return cached(key, ".sym", mk)


@with_fallback
def build_nat(harness, sources, extra=(), natlibs=(), asan=True, natsrc=()):
    srcs = [harness] + repo_src(sources) + [ENG + "/replay.cpp"] + [ENG + "/lib/" + l for l in natsrc]
    with cf.ThreadPoolExecutor(NPROC) as ex:
        objs = list(ex.map(lambda s: nat_of(s, extra, asan), srcs))
    key = hashlib.sha256((fhash(*objs) + str(natlibs) + str(asan)).encode()).hexdigest()[:32]
    return cached(key, ".nat", lambda tmp: run(["g++"] + objs + ["-o", tmp, "-Wl,--gc-sections"] + (["-fsanitize=address"] if asan else []) + ["-lfst", "-ljsoncpp", "-lspdlog", "-lfmt", "-licuuc", "-licui18n", "-licudata", "-lpthread", "-ldl"] + list(natlibs)))
