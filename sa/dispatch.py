"""Which search variant may run where (A14): guards of processor specific code.

Facts established on every path: the highest cpuid leaf, and cpuid feature bits known to be set.  Values carried
are function addresses and the bits of cpuid results; everything else is unknown."""
from . import llvm
from .engine import Incomplete

FEATURE = {"sse2": (1, "dx", 26), "sse41": (1, "cx", 19)}
UNKNOWN = ("?",)


class Path:
    __slots__ = ("env", "facts", "trail", "mem")

    def copy(self):
        p = Path()
        p.env, p.facts, p.trail, p.mem = dict(self.env), self.facts, self.trail, dict(self.mem)
        return p


class Guards:
    def __init__(self, fn, short, needs, is_table):
        """short(name) -> variant name or None; needs(variant) -> features required; is_table(global name)"""
        self.fn, self.short, self.needs, self.is_table = fn, short, needs, is_table
        self.findings = []
        self.counts = {"cpuid queries": 0, "stored variants": 0, "called variants": 0, "guarded paths": 0}
        self.n = 0

    def find(self, rule, i, msg, p):
        self.findings.append((rule, i.loc, msg, p.trail))

    def run(self):
        p = Path()
        p.env, p.facts, p.trail, p.mem = {}, frozenset(), (), {}
        for n, a in enumerate(self.fn.args):
            p.env[a] = ("arg", n)
        work = [(self.fn.blocks[0], None, p, frozenset())]
        while work:
            b, pred, p, seen = work.pop()
            self.n += 1
            if self.n > 2000:
                raise Incomplete("too many paths")
            if b in seen:
                raise Incomplete("loop around the selection of a search variant")
            p = p.copy()
            phis = {i: self.val(p, i.ops[i.attr["blocks"].index(pred)]) for i in b.insts if i.op == "phi"}
            p.env.update(phis)
            states = [p]
            for i in b.insts[:-1]:
                if i.op == "phi":
                    continue
                states = [z for s in states for z in self.step(s, i)]
            for s in states:
                for nb, z in self.term(s, b.insts[-1], b):
                    work.append((nb, b, z, seen | {b}))

    # ------------------------------------------------------------ values
    def val(self, p, v):
        if v in p.env:
            return p.env[v]
        if v.kind in ("func", "alias"):
            return ("fn", frozenset([v.name]))
        if v.kind == "int":
            return ("int", v.val, v.ty.bits)
        if v.kind in ("null", "aggzero"):
            return ("int", 0, 64)
        if v.kind == "cexpr" and v.op in ("ptrtoint", "inttoptr", "bitcast"):
            return self.val(p, v.ops[0])
        if v.kind == "global":
            return ("glob", v.name)
        return UNKNOWN

    def bits(self, v, w):
        if v[0] == "bits":
            return v[1]
        if v[0] == "int":
            return tuple((v[1] >> k) & 1 for k in range(w))
        if v[0] == "reg":
            return tuple((v[1], v[2], k) for k in range(32))
        return None

    def step(self, p, i):
        op = i.op
        if op == "select":
            out = []
            for s, t in self.branch(p, i.ops[0]):
                s = s.copy()
                s.env[i] = self.val(s, i.ops[1 if t else 2])
                out.append(s)
            return out
        p = p.copy()
        p.env[i] = UNKNOWN
        V = [self.val(p, o) for o in i.ops]
        if op in ("bitcast", "ptrtoint", "inttoptr", "freeze", "addrspacecast"):
            p.env[i] = V[0]
        elif op == "extractvalue" and V[0][0] == "cpuid":
            p.env[i] = ("reg", V[0][1], V[0][2][i.attr["idx"][0]])
        elif op in ("and", "or", "xor", "lshr", "shl", "trunc", "zext", "sext"):
            p.env[i] = self.arith(i, op, V)
        elif op == "icmp":
            p.env[i] = ("cmp", i.attr["pred"], V[0], V[1], i.ops[0].ty.bits or 64)
        elif op == "alloca":
            p.env[i] = ("slot", i.idx)
        elif op == "load":
            if V[0][0] == "slot":
                p.env[i] = p.mem.get(V[0], UNKNOWN)
            elif V[0][0] == "glob" and self.is_table(V[0][1]):
                p.env[i] = ("selected",)
        elif op == "store":
            if V[1][0] == "slot":
                p.mem[V[1]] = V[0]
            elif V[1][0] == "glob" and self.is_table(V[1][1]):
                self.counts["stored variants"] += 1
                self.target(p, i, V[0], "stored for later searches")
        elif op in ("atomicrmw", "cmpxchg"):
            if V[0][0] == "glob" and self.is_table(V[0][1]):
                self.counts["stored variants"] += 1
                self.target(p, i, V[-1], "stored for later searches")
        elif op == "call":
            self.call(p, i, V)
        return [p]

    def call(self, p, i, V):
        c = i.attr["callee"]
        if c.kind == "asm":
            text, cons = c.val
            if "cpuid" in text:
                self.cpuid(p, i, V, cons)
            elif "=m" not in cons and "=*m" not in cons:
                pass
            return
        if c.kind in ("func", "alias"):
            n = self.short(c.name)
            if n is None:
                for v in V:
                    if v[0] == "slot" and not c.name.startswith("llvm."):
                        p.mem.pop(v, None)
                return
            t = ("fn", frozenset([c.name]))
        else:
            t = self.val(p, c)
            if t == ("selected",):
                # whatever was stored is callable: stores are judged separately
                self.args(p, i, V)
                return
            if t[0] != "fn":
                if t[0] == "arg" or len(i.ops) != 3:
                    return
                raise Incomplete("indirect call of an unknown function")
        self.counts["called variants"] += 1
        self.target(p, i, t, "called")
        self.args(p, i, V)

    def args(self, p, i, V):
        want = [("arg", k) for k in range(len(self.fn.args))]
        if self.fn_is_search() and list(V[:3]) != want[:3]:
            self.find("dispatch-arguments", i, "the selected search is not given this search's address, table and size", p)

    def fn_is_search(self):
        return self.short(self.fn.name) is not None

    def cpuid(self, p, i, V, cons):
        self.counts["cpuid queries"] += 1
        outs = [x for x in cons.split(",") if x.startswith("=")]
        regs = []
        for o in outs:
            o = o.strip("=&")
            regs.append({"{ax}": "ax", "{bx}": "bx", "{cx}": "cx", "{dx}": "dx"}.get(o, "?"))
        ins = [x for x in cons.split(",") if not x.startswith(("=", "~"))]
        leaf = None
        for v, x in zip(V, ins):
            r = regs[int(x)] if x.isdigit() else {"{ax}": "ax"}.get(x, "?")
            if r == "ax" and v[0] == "int":
                leaf = v[1]
        if leaf is None:
            raise Incomplete("cpuid with an unknown leaf")
        if leaf and self.max_leaf(p) < leaf:
            self.find("leaf-not-available", i, "cpuid leaf %d is queried without leaf 0 having reported it (an older processor returns unrelated data)" % leaf, p)
        p.env[i] = ("cpuid", leaf, regs)

    def max_leaf(self, p):
        return max([f[1] for f in p.facts if f[0] == "max"] + [0])

    def target(self, p, i, t, how):
        if t == ("selected",):
            return
        if t[0] != "fn":
            raise Incomplete("an unknown function is %s" % how)
        for n in t[1]:
            s = self.short(n)
            if s is None:
                self.find("unknown-variant", i, "%s, which is not one of the searches, is %s" % (llvm.demangle(n), how), p)
                continue
            for f in self.needs(s):
                if ("bit",) + FEATURE[f] not in p.facts:
                    self.find("variant-not-supported", i, "%s is %s although cpuid leaf %d e%s bit %d is not known to be set" % ((s, how) + FEATURE[f]), p)

    def arith(self, i, op, V):
        w = i.ty.bits
        sw = i.ops[0].ty.bits
        if not w or not sw:
            return UNKNOWN
        a = self.bits(V[0], sw)
        if a is None:
            return UNKNOWN
        if op == "trunc":
            return ("bits", a[:w])
        if op == "zext":
            return ("bits", a + (0,) * (w - sw))
        if op == "sext":
            return ("bits", a + (a[-1],) * (w - sw))
        b = self.bits(V[1], sw)
        if b is None:
            return UNKNOWN
        if op == "and":
            return ("bits", tuple(0 if 0 in (x, y) else y if x == 1 else x if y == 1 else x if x == y else ("and", x, y) for x, y in zip(a, b)))
        if op == "or":
            return ("bits", tuple(1 if 1 in (x, y) else y if x == 0 else x if y == 0 else x if x == y else ("or", x, y) for x, y in zip(a, b)))
        if op == "xor":
            return ("bits", tuple(x if y == 0 else ("not", x) if y == 1 and x not in (0, 1) else 1 - x if y == 1 else y if x == 0 else ("?", i.idx) for x, y in zip(a, b)))
        if V[1][0] != "int":
            return UNKNOWN
        k = V[1][1]
        if op == "lshr":
            return ("bits", a[k:] + (0,) * k)
        return ("bits", (0,) * k + a[:w - k])

    # ------------------------------------------------------------ conditions
    def branch(self, p, c):
        """[(path, truth)]"""
        v = self.val(p, c)
        out = []
        for t in (True, False):
            z = p.copy()
            if self.assume(z, v, t):
                out.append((z, t))
        return out

    def bit_fact(self, p, x, t):
        """bit expression x is t; False when impossible"""
        if x in (0, 1):
            return bool(x) == t
        if x[0] == "not":
            return self.bit_fact(p, x[1], not t)
        if x[0] == "and":
            return (self.bit_fact(p, x[1], t) and self.bit_fact(p, x[2], t)) if t else True
        if x[0] == "or":
            return True if t else (self.bit_fact(p, x[1], t) and self.bit_fact(p, x[2], t))
        if x[0] == "?":
            return True
        if t:
            if ("nobit",) + x in p.facts:
                return False
            p.facts |= {("bit",) + x}
        else:
            if ("bit",) + x in p.facts:
                return False
            p.facts |= {("nobit",) + x}
        return True

    def assume(self, p, v, t):
        if v[0] == "int":
            return bool(v[1]) == t
        if v[0] == "bits" and len(v[1]) == 1:
            return self.bit_fact(p, v[1][0], t)
        if v[0] != "cmp":
            return True
        pred, a, b, w = v[1:]
        # leaf 0 eax against a constant
        for x, y, flip in ((a, b, False), (b, a, True)):
            if x[:1] == ("reg",) and x[1] == 0 and x[2] == "ax" and y[0] == "int":
                c = y[1]
                q = pred
                if flip:
                    q = {"ult": "ugt", "ule": "uge", "ugt": "ult", "uge": "ule", "slt": "sgt", "sle": "sge", "sgt": "slt", "sge": "sle"}.get(q, q)
                if q[0] == "s" and q != "sgt" and q != "sge":
                    return True
                lo = None
                if t:
                    lo = {"uge": c, "ugt": c + 1, "eq": c, "sge": c, "sgt": c + 1, "ne": 1 if c == 0 else None}.get(q)
                else:
                    lo = {"ult": c, "ule": c + 1, "ne": c, "eq": 1 if c == 0 else None}.get(q)
                if lo is not None and lo < 1 << 31:
                    p.facts |= {("max", lo)}
                return True
        if pred in ("eq", "ne"):
            x, y = self.bits(a, w), self.bits(b, w)
            if x is None or y is None:
                return True
            if (pred == "eq") == t:
                for u, v2 in zip(x, y):
                    if v2 in (0, 1):
                        if not self.bit_fact(p, u, bool(v2)):
                            return False
                    elif u in (0, 1):
                        if not self.bit_fact(p, v2, bool(u)):
                            return False
                return True
            # different: informative when exactly one bit is open
            open_ = [(u, v2) for u, v2 in zip(x, y) if u != v2]
            if not open_:
                return False
            if any(u in (0, 1) and v2 in (0, 1) for u, v2 in open_):
                return True
            if len(open_) == 1:
                u, v2 = open_[0]
                if v2 in (0, 1):
                    return self.bit_fact(p, u, not v2)
                if u in (0, 1):
                    return self.bit_fact(p, v2, not u)
            return True
        if pred in ("slt", "sgt"):
            # sign bit tests
            x = self.bits(a, w)
            if x is not None and pred == "slt" and b[0] == "int" and b[1] == 0:
                return self.bit_fact(p, x[-1], t)
            if x is not None and pred == "sgt" and b[0] == "int" and b[1] == (1 << w) - 1:
                return self.bit_fact(p, x[-1], not t)
        return True

    def term(self, p, i, b):
        if i.op == "br":
            if len(b.succs) == 1 or not i.ops:
                return [(b.succs[0], p)]
            out = []
            for z, t in self.branch(p, i.ops[0]):
                z.trail = z.trail + (("branch %s" % ("taken" if t else "not taken"), i.loc),)
                out.append((b.succs[0 if t else 1], z))
            return out
        if i.op == "ret":
            self.counts["guarded paths"] += 1
            if i.ops:
                v = self.val(p, i.ops[0])
                if v[0] == "fn":
                    self.target(p, i, v, "selected")
            return []
        if i.op == "unreachable":
            return []
        if i.op == "switch":
            v = self.val(p, i.ops[0])
            return [(dst, p.copy()) for dst in b.succs]
        return [(x, p.copy()) for x in b.succs]
