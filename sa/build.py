"""Compiles analysis translation units from /repo's current sources to LLVM IR.

A content-hash cache (sources + flags + unit text) under /verif/.cache only
avoids recompiling identical inputs; any edit in /repo/include or /repo/src
changes the key."""
import hashlib, os, subprocess, sys, tempfile, concurrent.futures as cf

REPO = os.environ.get("VERIF_REPO", "/repo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CACHE = os.path.join(VERIF, ".cache")
CLANG = "/usr/bin/clang++-18"
GXX = "/usr/bin/g++"
JOBS = int(os.environ.get("VERIF_JOBS", "8"))


class BuildError(Exception):
    def __init__(self, what, text):
        Exception.__init__(self, what)
        self.what = what
        self.text = text


_srchash = None


def source_hash():
    global _srchash
    if _srchash is None:
        h = hashlib.sha256()
        for root in ("include", "src"):
            for d, ds, fs in sorted(os.walk(os.path.join(REPO, root))):
                ds.sort()
                for f in sorted(fs):
                    p = os.path.join(d, f)
                    h.update(p.encode() + b"\0")
                    with open(p, "rb") as fh:
                        h.update(fh.read())
                    h.update(b"\0")
        _srchash = h.hexdigest()
    return _srchash


ATOMIC_KINDS = ["BOOL", "CHAR", "CHAR16_T", "CHAR32_T", "WCHAR_T", "SHORT", "INT", "LONG", "LLONG", "POINTER"]

COMMON = ["-O2", "-DNDEBUG", "-gline-tables-only", "-fno-unroll-loops", "-fno-vectorize", "-fno-slp-vectorize",
          "-fno-discard-value-names", "-w", "-fno-strict-aliasing", "-mllvm", "-inline-threshold=100000",
          "-fno-jump-tables", "-I" + REPO + "/include"]

PRELUDE_GCC = r"""
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <cerrno>
#include <climits>
#include <cfloat>
#include <cassert>
#include <ctime>
#include <new>
#include <chrono>
#include <limits>
#include <ratio>
#include <thread>
#include <type_traits>
#include <utility>
#include <algorithm>
#include <unistd.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <pthread.h>
#include <sched.h>
#include <emmintrin.h>
#pragma clang diagnostic ignored "-Weverything"
#undef __clang__
#undef __clang_major__
#undef __clang_minor__
#undef __clang_patchlevel__
#undef __clang_version__
#undef __GNUC__
#undef __GNUC_MINOR__
#undef __GNUC_PATCHLEVEL__
#define __GNUC__ 13
#define __GNUC_MINOR__ 3
#define __GNUC_PATCHLEVEL__ 0
template<class T> void verif_clear_padding(T*) noexcept;
#define BOOST_ATOMIC_DETAIL_CLEAR_PADDING(x) verif_clear_padding(x)
"""

# the paths of processors without a dedicated back-end: portable compiler builtins only
NOARCH = "\n".join("#undef " + x for x in ("__x86_64__", "__x86_64", "__amd64__", "__amd64", "__i386__")) + "\n"
NOATOMIC = sum([["-U__GCC_ATOMIC_%s_LOCK_FREE" % k, "-D__GCC_ATOMIC_%s_LOCK_FREE=1" % k] for k in ATOMIC_KINDS], [])

# name -> (flags, prelude).  Every config is a way a user's translation unit is really compiled on this platform,
# or (gcc*, arch) clang steered onto the code path another supported compiler takes.
CONFIGS = {
    "def": (["-std=c++17"], ""),
    "snb": (["-std=c++17", "-march=sandybridge"], ""),
    "fb": (["-std=c++17", "-DBOOST_ATOMIC_FORCE_FALLBACK"], ""),
    "gcc": (["-std=c++17", "-march=sandybridge"], PRELUDE_GCC),
    "gccb": (["-std=gnu++11"], PRELUDE_GCC),
    "gccfb": (["-std=gnu++11", "-DBOOST_ATOMIC_FORCE_FALLBACK"], PRELUDE_GCC),
    "arch": (["-std=c++17", "-march=sandybridge"] + sum([["-U__GCC_ATOMIC_%s_LOCK_FREE" % k, "-D__GCC_ATOMIC_%s_LOCK_FREE=1" % k] for k in ATOMIC_KINDS], []), ""),
    "noflag": (["-std=c++17", "-mcx16", "-U__GCC_ASM_FLAG_OUTPUTS__"] + sum([["-U__GCC_ATOMIC_%s_LOCK_FREE" % k, "-D__GCC_ATOMIC_%s_LOCK_FREE=1" % k] for k in ATOMIC_KINDS], []), ""),
    "gccarch": (["-std=c++17", "-march=sandybridge"] + sum([["-U__GCC_ATOMIC_%s_LOCK_FREE" % k, "-D__GCC_ATOMIC_%s_LOCK_FREE=1" % k] for k in ATOMIC_KINDS], []), PRELUDE_GCC),
    # 16 byte operations without vector moves and without flag outputs: cmpxchg16b with "A" register pairs
    "gccold": (["-std=c++17", "-mcx16", "-U__GCC_ASM_FLAG_OUTPUTS__"] + sum([["-U__GCC_ATOMIC_%s_LOCK_FREE" % k, "-D__GCC_ATOMIC_%s_LOCK_FREE=1" % k] for k in ATOMIC_KINDS], []), PRELUDE_GCC),
    # __atomic builtins with the generic extra operations, __sync builtins
    "port": (["-std=c++17"], PRELUDE_GCC + NOARCH),
    "sync": (["-std=c++17", "-mcx16"] + NOATOMIC, PRELUDE_GCC + NOARCH),
}


# other processors: compiled to IR for their target with this platform's headers (never assembled, linked or run)
STUBS = os.path.join(os.path.dirname(os.path.abspath(__file__)), "stubs")
CROSS = ["-nostdinc", "-isystem", STUBS, "-isystem", "/usr/include/c++/13", "-isystem", "/usr/include/x86_64-linux-gnu/c++/13",
         "-isystem", "/usr/lib/llvm-18/lib/clang/18/include", "-isystem", "/usr/include/x86_64-linux-gnu", "-isystem", "/usr/include"]
TARGETS = {
    "a64": ("a64", ["--target=aarch64-linux-gnu"]),
    "a64lse": ("a64", ["--target=aarch64-linux-gnu", "-march=armv8.3-a"]),
    "ppc": ("ppc", ["--target=powerpc64le-linux-gnu", "-mcpu=pwr8"]),
    "arm7": ("arm", ["--target=armv7-linux-gnueabihf"]),
    "arm8": ("arm", ["--target=armv8-linux-gnueabihf"]),
    "i386": ("x86", ["--target=i686-linux-gnu"]),
    # variants: older instruction sets, compiler intrinsics with the processor's own extra operations
    "ppc7": ("ppc", ["--target=powerpc64le-linux-gnu", "-mcpu=pwr7"]),
    "arm6": ("arm", ["--target=armv6-linux-gnueabihf"]),
    "i386s": ("x86", ["--target=i686-linux-gnu", "-msse2"]),
    "i386pic": ("x86", ["--target=i686-linux-gnu", "-msse", "-mno-sse2", "-DBOOST_ATOMIC_DETAIL_X86_ASM_PRESERVE_EBX"]),
    "sparc": ("sparc", ["--target=sparcv9-linux-gnu"]),
    "a64g": ("a64", ["--target=aarch64-linux-gnu"]),
    "ppcg": ("ppc", ["--target=powerpc64le-linux-gnu", "-mcpu=pwr8"]),
    "arm7g": ("arm", ["--target=armv7-linux-gnueabihf"]),
    "arm8g": ("arm", ["--target=armv8-linux-gnueabihf"]),
}
for _n, (_a, _f) in TARGETS.items():
    CONFIGS[_n] = (["-std=c++17"] + _f + CROSS + (NOATOMIC if not _n.endswith("g") else []), "")


def arch(cfg):
    return TARGETS[cfg][0] if cfg in TARGETS else "x86"


def bits32(cfg):
    return cfg in TARGETS and cfg.startswith(("arm", "i386"))


def _run(cmd, cwd=None, timeout=600):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout)
    return p.returncode, p.stdout.decode("utf-8", "replace"), p.stderr.decode("utf-8", "replace")


def compile_ir(text, flags, name="unit", srcfile=None, base=None):
    """returns the path of a .bc file"""
    flags = list(base if base is not None else COMMON) + list(flags)
    h = hashlib.sha256()
    h.update(source_hash().encode())
    h.update("\0".join(flags).encode() + b"\0")
    if srcfile:
        h.update(srcfile.encode())
    h.update((text or "").encode())
    k = h.hexdigest()[:32]
    os.makedirs(CACHE, exist_ok=True)
    out = os.path.join(CACHE, k + ".bc")
    if os.path.exists(out):
        return out
    with tempfile.TemporaryDirectory(prefix="verif-sa-") as d:
        src = srcfile
        if not src:
            src = os.path.join(d, name + ".cpp")
            with open(src, "w") as f:
                f.write(text)
        tmp = os.path.join(d, "o.bc")
        rc, so, se = _run([CLANG, "-c", "-emit-llvm"] + flags + [src, "-o", tmp])
        if rc != 0:
            raise BuildError(name, se)
        tmp2 = out + ".%d.tmp" % os.getpid()
        with open(tmp, "rb") as a, open(tmp2, "wb") as b:
            b.write(a.read())
        os.replace(tmp2, out)
    return out


def compile_many(jobs):
    """jobs: list of kwargs for compile_ir; returns list of (path | BuildError) in order"""
    def one(kw):
        try:
            return compile_ir(**kw)
        except BuildError as e:
            return e
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(one, jobs))


def syntax_many(jobs):
    """jobs: (compiler, text, flags); returns list of (rc, stderr)"""
    def one(j):
        comp, text, flags = j
        with tempfile.TemporaryDirectory(prefix="verif-sa-") as d:
            src = os.path.join(d, "w.cpp")
            with open(src, "w") as f:
                f.write(text)
            rc, so, se = _run([comp, "-fsyntax-only", "-I" + REPO + "/include"] + flags + [src])
            return rc, se
    with cf.ThreadPoolExecutor(JOBS) as ex:
        return list(ex.map(one, jobs))


def prune_cache(limit=400):
    try:
        fs = [os.path.join(CACHE, f) for f in os.listdir(CACHE)]
        if len(fs) > limit:
            fs.sort(key=os.path.getmtime)
            for f in fs[:len(fs) - limit]:
                os.remove(f)
    except OSError:
        pass
