"""Builds /repo's working tree and the harnesses, per sanitizer variant, with a content-addressed cache."""
import glob, hashlib, os, shutil, subprocess, sys, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(ROOT, "build")
HARN = os.path.join(ROOT, "harness")

def tool(*names):
    for n in names:
        if os.path.exists(n):
            return n
        w = shutil.which(n)
        if w:
            return w
    raise SystemExit("missing tool: " + names[0])

CC = tool("/usr/bin/clang-18", "clang")
CXX = tool("/usr/bin/clang++-18", "clang++")
# Used only where clang refuses code that the repository's own compiler takes, such as a
# header written in C alone: the objects of both link and report alike.
GCC, GXX = shutil.which("gcc"), shutil.which("g++")
LAX_C = ["-Wno-error=implicit-function-declaration", "-Wno-error=implicit-int", "-Wno-error=int-conversion",
         "-Wno-error=incompatible-function-pointer-types"]
LAX_CXX = ["-fpermissive", "-Drestrict=__restrict", "-D_Bool=bool", "-D_Static_assert=static_assert",
           "-D_Thread_local=thread_local", "-Dtypeof=__typeof__", "-D_Alignof=alignof", "-D_Alignas=alignas", "-D_Noreturn="]
OBJCOPY = tool("/usr/bin/objcopy", "llvm-objcopy")

COMMON = ["-g", "-fPIC", "-fno-common", "-fno-strict-aliasing", "-fno-omit-frame-pointer",
          "-D_FILE_OFFSET_BITS=64", "-D_REENTRANT", "-D_GNU_SOURCE", "-w", "-march=nocona"]
VARIANTS = {
    # -fno-sanitize=...: the library reads unaligned words on purpose, and passes
    # (NULL, 0) to memcpy; neither is an observable misbehaviour here.
    "asan": ["-O1", "-fsanitize=address,undefined", "-fno-sanitize=alignment,enum,function,nonnull-attribute,pointer-overflow,returns-nonnull-attribute",
             "-fno-sanitize-recover=all", "-fno-builtin"],
    "tsan": ["-O1", "-fsanitize=thread", "-fno-builtin"],
    "plain": ["-O2"],
}
LINK = {
    "asan": ["-fsanitize=address,undefined"],
    "tsan": ["-fsanitize=thread"],
    "plain": [],
}
REDIR = ["malloc", "calloc", "realloc", "free", "strdup", "strndup", "valloc", "posix_memalign", "aligned_alloc", "memalign", "reallocarray", "asprintf", "vasprintf",
         "clock_gettime",
         "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_cond_wait", "pthread_cond_timedwait",
         "pthread_cond_signal", "pthread_cond_broadcast", "pthread_create", "pthread_mutex_init", "pthread_cond_init"]

def redirects(variant):
    out = []
    for s in REDIR:
        out += ["--redefine-sym", "%s=vf_%s" % (s, s)]
    if variant == "tsan":
        out += ["--redefine-sym", "__tsan_atomic_thread_fence=vf_tsan_fence"]
        for n in (8, 16, 32, 64):
            for op in ("load", "store", "exchange", "fetch_add", "fetch_sub", "fetch_and", "fetch_or"):
                out += ["--redefine-sym", "__tsan_atomic%d_%s=vf_tsan_%d_%s" % (n, op, n, op)]
            for op, w in (("compare_exchange_strong", "cas"), ("compare_exchange_weak", "casw")):
                out += ["--redefine-sym", "__tsan_atomic%d_%s=vf_tsan_%d_%s" % (n, op, n, w)]
            out += ["--redefine-sym", "__tsan_atomic%d_compare_exchange_val=vf_tsan_%d_cas_val" % (n, n)]
    return out

class BuildError(Exception):
    pass

def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:32]

def read(p):
    with open(p, "rb") as f:
        return f.read()

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode != 0:
        raise BuildError("$ " + " ".join(cmd) + "\n" + r.stdout.decode(errors="replace"))

def other(cc, flags):
    """The command line for the compiler to try when cc refuses the source."""
    fl = [f for f in flags if not f.startswith("-Wno-error")]
    fl = [f.replace(",function,", ",") for f in fl]
    return [GCC] + fl if cc == CC else [GXX] + [f.replace("-std=c++17", "-std=gnu++20") for f in fl] + LAX_CXX

def headers_hash():
    files = sorted(glob.glob(REPO + "/src/**/*.h", recursive=True))
    return sha(*[x for f in files for x in (f, read(f))])

def compile_one(cc, flags, src, key, redir):
    out = os.path.join(BUILD, "obj", key + ".o")
    if os.path.exists(out):
        os.utime(out)
        return out
    fd, tmp = tempfile.mkstemp(dir=os.path.join(BUILD, "obj"), suffix=".o")
    os.close(fd)
    try:
        try:
            run([cc] + flags + ["-c", src, "-o", tmp])
        except BuildError as e:
            if not (GCC and GXX):
                raise
            try:
                run(other(cc, flags) + ["-c", src, "-o", tmp])
            except BuildError:
                raise e
        if redir:
            run([OBJCOPY] + redir + [tmp])
        os.replace(tmp, out)
    finally:
        if os.path.exists(tmp):
            os.unlink(tmp)
    return out

def inc(variant):
    return ["-I" + REPO + "/src/include", "-I" + REPO + "/src/main/aerospike", "-I" + REPO + "/src/main"]

def build(names, variant, pool=None):
    """names: harness base names. Returns {name: executable}."""
    os.makedirs(os.path.join(BUILD, "obj"), exist_ok=True)
    os.makedirs(os.path.join(BUILD, "bin"), exist_ok=True)
    hh = headers_hash()
    vh = sha(*[read(f) for f in sorted(glob.glob(HARN + "/*.hpp"))])
    flags = COMMON + VARIANTS[variant]
    redir = redirects(variant)
    ex = pool or ThreadPoolExecutor(8)
    srcs = sorted(glob.glob(REPO + "/src/main/**/*.c", recursive=True))
    if not srcs:
        raise BuildError("no sources under " + REPO)
    lib = []
    for s in srcs:
        fl = flags + ["-std=gnu99"] + LAX_C + inc(variant)
        lib.append(ex.submit(compile_one, CC, fl, s, sha("lib", CC, fl, redir, s, read(s), hh), redir))
    cxx = flags + ["-std=c++17"] + inc(variant) + ["-I" + HARN]
    rt = ex.submit(compile_one, CXX, cxx, HARN + "/runtime.cpp", sha("rt", CXX, cxx, read(HARN + "/runtime.cpp"), vh), [])
    har = {}
    for n in names:
        p = "%s/%s.cpp" % (HARN, n)
        har[n] = ex.submit(compile_one, CXX, cxx, p, sha("har", CXX, cxx, redir, read(p), vh, hh), redir)
    libo = [f.result() for f in lib]
    rto = rt.result()

    def link(n):
        o = har[n].result()
        cmdline = LINK[variant] + ["-lssl", "-lcrypto", "-lcrypt", "-lpthread", "-lm", "-lrt"]
        key = sha("bin", CXX, o, rto, libo, cmdline)
        out = os.path.join(BUILD, "bin", "%s-%s-%s" % (n, variant, key[:16]))
        if not os.path.exists(out):
            fd, tmp = tempfile.mkstemp(dir=os.path.join(BUILD, "bin"))
            os.close(fd)
            run([CXX, o, rto] + libo + cmdline + ["-o", tmp])
            os.chmod(tmp, 0o755)
            os.replace(tmp, out)
        os.utime(out)
        return out
    return {n: link(n) for n in names}

def prune(max_bytes=3 << 30):
    """Keep the cache bounded: drop the least recently used files."""
    fs = []
    for d in ("obj", "bin"):
        for f in glob.glob(os.path.join(BUILD, d, "*")):
            try:
                st = os.stat(f)
                fs.append((st.st_mtime, st.st_size, f))
            except OSError:
                pass
    tot = sum(s for _, s, _ in fs)
    for _, s, f in sorted(fs):
        if tot <= max_bytes:
            break
        try:
            os.unlink(f)
            tot -= s
        except OSError:
            pass
