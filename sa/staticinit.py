"""Constant initialisation: globals of the library's types, and the library's own static objects, must be emitted with
a constant initialiser and without any dynamic initialisation (llvm.global_ctors, guarded statics, TLS wrappers).
Compiled at -O0, so that the front end's decision is visible and not the optimiser's."""
import struct
from . import build, llvm

O0 = ["-O0", "-DNDEBUG", "-gline-tables-only", "-w", "-I" + build.REPO + "/include"]
GUARDS = ("__cxa_guard_acquire", "__cxa_guard_release", "__cxa_thread_atexit", "_ZTH", "__tls_guard", "pthread_once", "call_once", "__cxa_atexit")


def fp_bytes(t, txt):
    if txt.startswith("0xK"):
        x = int(txt[3:], 16)
        return [(x >> (8 * i)) & 255 for i in range(10)] + [0] * (t.size - 10)
    if txt.startswith("0x"):
        d = struct.unpack("<d", struct.pack("<Q", int(txt[2:], 16)))[0]
    else:
        d = float(txt)
    return list(struct.pack("<f" if t.kind == "float" else "<d", d))


def const_bytes(v):
    """the bytes of a constant as a list; None for bytes that are not numbers (addresses, undefined padding)"""
    t = v.ty
    n = t.size or 0
    if v.kind == "int":
        return [(v.val >> (8 * i)) & 255 for i in range(n)]
    if v.kind == "fp":
        return fp_bytes(t, v.val)
    if v.kind in ("null", "aggzero"):
        return [0] * n
    if v.kind == "agg":
        out = [0] * n
        for k, e in enumerate(v.ops):
            o = t.offsets[k] if t.kind == "struct" else k * t.elem.size
            b = const_bytes(e)
            out[o:o + len(b)] = b
        return out
    return [None] * n


def dynamic(m):
    """reasons why the module needs dynamic initialisation: [(what, where)]"""
    out = []
    g = m.globals.get("llvm.global_ctors")
    if g is not None:
        names = []
        for f in m.functions.values():
            if f.name.startswith("_GLOBAL__sub_I") or f.name.startswith("__cxx_global_var_init"):
                names.append(f)
        for f in names or [None]:
            loc = ()
            if f is not None:
                for i in f.insts():
                    if i.loc:
                        loc = i.loc
                        break
            out.append(("dynamic initialiser %s" % (f.name if f else "llvm.global_ctors"), loc))
    for f in m.functions.values():
        if f.decl:
            continue
        for i in f.insts():
            if i.op in ("call", "invoke"):
                n = llvm.callee_name(i) or ""
                if n in GUARDS or n.startswith("_ZTH") or n.startswith("_ZTW"):
                    out.append(("%s calls %s" % (f.name, n), i.loc))
    return out
