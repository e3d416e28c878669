"""Build /repo's library and the harnesses from the current working tree (out of tree, under /verif/.build)."""
import hashlib, os, subprocess, sys, shutil, fcntl
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("BFDEV_REPO", "/repo")
BUILD = os.environ.get("VERIF_BUILD", os.path.join(VERIF, ".build"))
HARNESS = os.path.join(VERIF, "harness")

# harness-only variants: same library, other harness flags (header-only code is compiled with the harness)
VARIANTS = {"nobuiltin": ("asan", ["-I" + os.path.join(HARNESS, "altarch")]),
            "giant": ("plain", ["-DGIANT"])}      # only cases of gigabytes, see harness/giant.h

class BuildError(Exception): pass

def tree_files():
    for top in ("CMakeLists.txt", "build.cmake", "cmake", "scripts", "src", "include", "arch"):
        p = os.path.join(REPO, top)
        if os.path.isfile(p): yield p
        for d, dirs, fs in os.walk(p):
            dirs.sort()
            for f in sorted(fs): yield os.path.join(d, f)

def tree_hash():
    h = hashlib.sha256()
    for p in tree_files():
        h.update(os.path.relpath(p, REPO).encode() + b"\0")
        with open(p, "rb") as f: h.update(hashlib.sha256(f.read()).digest())
    return h.hexdigest()[:16]

SAN = "-fsanitize=bounds -fno-sanitize-recover=bounds -fsanitize=address -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern"
CONFIGS = {
    # name: (compiler, cflags, cmake options)
    "asan":  ("gcc", "-O2 -g1 " + SAN, []),
    "plain": ("gcc", "-O2 -g1 -ftrivial-auto-var-init=zero", []),
    "alt":   ("gcc", "-O1 -g1 " + SAN.replace("pattern", "zero"), ["-DBFDEV_CRC_EXTEND=OFF", "-DBFDEV_DEBUG_LIST=OFF", "-DBFDEV_DEBUG_SLIST=OFF", "-DBFDEV_DEBUG_HLIST=OFF",
              "-DBFDEV_DEBUG_ILIST=OFF", "-DBFDEV_DEBUG_RBTREE=OFF", "-DBFDEV_DEBUG_HEAP=OFF", "-DBFDEV_DEBUG_REFCNT=OFF", "-DBFDEV_DEBUG_MEMALLOC=OFF"]),
    "tsan":  ("clang", "-O1 -g1 -fsanitize=thread", []),
    "clang": ("clang", "-O2 -g1 " + SAN, []),
    "ubsan": ("clang", "-O1 -g1 -fsanitize=undefined -fno-sanitize=function,pointer-overflow,vptr -fno-sanitize-recover=undefined -fno-omit-frame-pointer", []),
    "msan":  ("clang", "-O1 -g1 -fsanitize=memory -fno-omit-frame-pointer", []),
    "O0":    ("gcc", "-O0 -g1", []),
    "O3":    ("clang", "-O3 -g1", []),
    "gccO3": ("gcc", "-O3 -g1", []),
    "fuzz":  ("clang", "-O1 -g1 -fsanitize=fuzzer-no-link,address -fno-omit-frame-pointer -ftrivial-auto-var-init=pattern", []),
}

def run(cmd, what, timeout=900, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout, **kw)
    if p.returncode: raise BuildError("%s failed (%d): %s\n%s" % (what, p.returncode, " ".join(cmd), p.stdout[-6000:]))
    return p.stdout

def env():
    e = dict(os.environ)
    for k in ("CFLAGS", "LDFLAGS", "ASAN_OPTIONS", "UBSAN_OPTIONS", "TSAN_OPTIONS", "LSAN_OPTIONS"): e.pop(k, None)
    return e

def build_lib(config, th=None):
    th = th or tree_hash()
    cc, flags, opts = CONFIGS[config]
    d = os.path.join(BUILD, th, config)
    os.makedirs(d, exist_ok=True)
    with open(os.path.join(BUILD, th, config + ".lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        ok = os.path.join(d, ".ok")
        if not os.path.exists(ok):
            run(["cmake", "-S", REPO, "-B", d, "-G", "Ninja", "-DCMAKE_BUILD_TYPE=None", "-DBFDEV_STRICT=OFF",
                 "-DBFDEV_EXAMPLES=OFF", "-DBFDEV_TESTSUITE=OFF", "-DBFDEV_ASAN=OFF", "-DBFDEV_UBSAN=OFF", "-DBFDEV_GCOV=OFF",
                 "-DCMAKE_C_COMPILER=" + cc, "-DCMAKE_C_FLAGS=" + flags] + opts, "cmake", env=env())
            # the CRC tables are undeclared outputs of the generators: make them first, then build
            run(["ninja", "-C", d, "gen-crc8", "gen-crc16", "gen-crc16be", "gen-crc32", "gen-crc32be", "gen-crc64", "gen-crc64be"], "table generators", env=env())
            run(["ninja", "-C", d, "bfdev_static"], "library build", env=env())
            run(["ninja", "-C", d, "bfdev_static"], "library build", env=env())
            open(ok, "w").close()
    return d

def includes(d):
    return ["-I" + os.path.join(REPO, "include"), "-I" + os.path.join(d, "generated"), "-I" + os.path.join(REPO, "arch/generic/include"), "-I" + HARNESS]

def build_harness(src, config, th=None, extra=(), fuzz=False):
    th = th or tree_hash()
    if config in VARIANTS: config, more = VARIANTS[config]; extra = tuple(extra) + tuple(more)
    d = build_lib(config, th)
    cc, flags, _ = CONFIGS[config]
    hh = hashlib.sha256()
    for f in sorted(os.listdir(HARNESS)):
        if f.endswith(".h") or f in ("pbt.c", "ta.c", src):
            with open(os.path.join(HARNESS, f), "rb") as fh: hh.update(fh.read())
    hh.update(repr((extra, fuzz, "whole", flags)).encode())
    out = os.path.join(d, "h_" + os.path.splitext(src)[0] + ("_fuzz" if fuzz else "") + "_" + hh.hexdigest()[:12])
    if os.path.exists(out): return out
    tmp = out + ".%d" % os.getpid()
    fl = flags.split()
    if fuzz: fl = [("-fsanitize=fuzzer,address" if x.startswith("-fsanitize=fuzzer-no-link") else x) for x in fl] + ["-DPBT_FUZZ"]
    if cc == "clang": fl += ["-Wno-error=incompatible-function-pointer-types", "-Wno-error=implicit-function-declaration", "-Wno-error=int-conversion"]    # what gcc lets pass
    run([cc, "-std=gnu11", "-w"] + fl + list(extra) + includes(d) +
        [os.path.join(HARNESS, "pbt.c"), os.path.join(HARNESS, "ta.c"), os.path.join(HARNESS, src), "-o", tmp,
         "-Wl,--whole-archive", os.path.join(d, "libbfdev.a"), "-Wl,--no-whole-archive", "-lm", "-lpthread"], "harness build", env=env())
    os.rename(tmp, out)
    return out

def usable(pid, config, th=None):
    """the public names a user of this property needs must compile; returns the compiler's complaint or None"""
    src = os.path.join(HARNESS, "use", pid + ".c")
    if not os.path.exists(src): return None
    d = build_lib(config, th or tree_hash())
    p = subprocess.run(["gcc", "-std=gnu11", "-Werror=implicit-function-declaration", "-fsyntax-only"] + includes(d) + [src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", env=env())
    return p.stdout if p.returncode else None

def clean_other_builds(th):
    if not os.path.isdir(BUILD): return
    for n in os.listdir(BUILD):
        if n != th and len(n) == 16: shutil.rmtree(os.path.join(BUILD, n), ignore_errors=True)
