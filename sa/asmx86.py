"""Abstract interpreter for the x86 inline assembly blocks found in the IR, plus
the inline-asm contract rules (what a block writes must be declared, early
clobbers, lock prefixes, memory clobbers).  Operates on value terms; memory
accesses are handed to the same domain hooks that LLVM instructions use."""
import re
from . import terms as T

REG = {}
for _n, _l in (("a", "al ax eax rax"), ("b", "bl bx ebx rbx"), ("c", "cl cx ecx rcx"), ("d", "dl dx edx rdx")):
    for _s, _w in zip(_l.split(), (8, 16, 32, 64)):
        REG[_s] = ("r" + _n + "x", _w)
for _n in ("si", "di", "bp", "sp"):
    for _s, _w in ((_n + "l", 8), (_n, 16), ("e" + _n, 32), ("r" + _n, 64)):
        REG[_s] = ("r" + _n, _w)
for _n in range(8, 16):
    for _s, _w in (("b", 8), ("w", 16), ("d", 32), ("", 64)):
        REG["r%d%s" % (_n, _s)] = ("r%d" % _n, _w)
for _n in range(16):
    REG["xmm%d" % _n] = ("xmm%d" % _n, 128)
LETTER = {"a": "rax", "b": "rbx", "c": "rcx", "d": "rdx", "S": "rsi", "D": "rdi"}
SUF = {"b": 8, "w": 16, "l": 32, "q": 64}
MOD = {"b": 8, "w": 16, "k": 32, "q": 64}
CC = {"z": ("zf", 1), "e": ("zf", 1), "nz": ("zf", 0), "ne": ("zf", 0), "c": ("cf", 1), "b": ("cf", 1), "nc": ("cf", 0),
      "ae": ("cf", 0), "s": ("sf", 1), "ns": ("sf", 0)}
ALU = ["add", "sub", "and", "or", "xor", "adc", "sbb", "cmp", "test", "mov", "xchg", "xadd", "cmpxchg", "bts", "btr", "btc", "bt",
       "neg", "not", "inc", "dec"]


class Operand:
    __slots__ = ("n", "con", "out", "early", "ind", "tie", "reg", "cls", "ir", "val", "size", "arg", "cc", "inout", "pair")


def x86_waits(ins):
    return any(x[0] == "ins" and x[2] in ("pause", "mfence", "lfence", "sfence") for x in ins)


class AsmUnsupported(Exception):
    pass


def split_constraints(s):
    out, cur, d = [], "", 0
    for ch in s:
        if ch == "{":
            d += 1
        elif ch == "}":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur)
            cur = ""
        else:
            cur += ch
    if cur:
        out.append(cur)
    return out


def parse_constraints(cons):
    ops = []
    clob = set()
    for c in split_constraints(cons):
        if c.startswith("~"):
            clob.add(c[2:-1])
            continue
        o = Operand()
        o.n = len(ops)
        o.con = c
        o.out = c.startswith("=") or c.startswith("+")
        o.early = o.ind = False
        o.tie = o.reg = o.cls = o.val = o.size = o.arg = o.cc = o.pair = None
        o.inout = False
        x = c[1:] if o.out else c
        while x and x[0] in "&*%":
            if x[0] == "&":
                o.early = True
            if x[0] == "*":
                o.ind = True
            x = x[1:]
        if x.startswith("{@cc"):
            o.cc = x[4:-1]
        elif x.startswith("{"):
            r = x[1:-1]
            o.reg = REG[r][0] if r in REG else r
        elif x.isdigit():
            o.tie = int(x)
        elif x == "A":
            o.pair = ("rax", "rdx")
        elif x in LETTER:
            o.reg = LETTER[x]
        else:
            o.cls = x
        ops.append(o)
    return ops, clob


def tokenise(s):
    """-> list of (label|None, lock, mnemonic, [operand strings])"""
    s = re.sub(r"\$\(|\$\)|\$\|", "", s)
    s = re.sub(r"#.*", "", s)
    out = []
    lock = False
    for line in re.split(r"[\n;]", s):
        line = line.strip()
        while True:
            m = re.match(r"^([A-Za-z0-9_.$]+):\s*", line)
            if not m:
                break
            out.append(("label", m.group(1)))
            line = line[m.end():].strip()
        if not line or line.startswith("."):
            continue
        if line == "lock":
            lock = True
            continue
        if line.startswith("lock "):
            lock = True
            line = line[5:].strip()
        if line in ("rep", "repz"):
            continue
        m = re.match(r"^(\S+)\s*(.*)$", line)
        mn = m.group(1)
        args = []
        cur, d = "", 0
        for ch in m.group(2):
            if ch in "({":
                d += 1
            elif ch in ")}":
                d -= 1
            if ch == "," and d == 0:
                args.append(cur.strip())
                cur = ""
            else:
                cur += ch
        if cur.strip():
            args.append(cur.strip())
        out.append(("ins", lock, mn, args))
        lock = False
    return out


class Asm:
    def __init__(self, e, inst, callee):
        self.e = e
        self.i = inst
        self.text, self.cons = callee.val
        self.ops, self.clob = parse_constraints(self.cons)
        self.ins = tokenise(self.text)
        self.memclob = "memory" in self.clob
        self.volatile = callee.attr.get("sideeffect", False)
        k = 0
        for o in self.ops:      # the address of each memory operand, to recognise the read half of a "+m"
            o.ir = None
            if o.out and not o.ind:
                continue
            o.ir = inst.ops[k] if k < len(inst.ops) else None
            k += 1
        self.findings = set()
        self.written = {}       # reg -> position of first write
        self.labels = {}
        for n, x in enumerate(self.ins):
            if x[0] == "label":
                self.labels.setdefault(x[1], []).append(n)

    # ---- operand lookup
    def opref(self, a):
        m = re.match(r"^\$(\d+)$", a) or re.match(r"^\$\{(\d+)(?::(\w+))?\}$", a)
        if not m:
            return None
        o = self.ops[int(m.group(1))]
        w = None
        if m.lastindex and m.lastindex > 1 and m.group(2):
            w = MOD.get(m.group(2))
        return o, w

    def regof(self, o):
        if o.tie is not None:
            return self.regof(self.ops[o.tie])
        if o.pair:
            return o.pair
        return o.reg or ("v", o.n)

    def decode(self, a):
        """-> ('imm',term) ('reg',reg,width|None,op|None) ('mem',op|None,base reg,disp)"""
        r = self.opref(a)
        if r:
            o, w = r
            if o.ind:
                return ("mem", o, None, 0)
            if o.cls is not None and o.arg is not None and not o.out and T.isc(o.arg) and any(x in o.cls for x in "iKneIJNC"):
                return ("imm", o.arg)
            return ("reg", self.regof(o), w or (o.size if o.size in (8, 16, 32, 64, 128) else None), o)
        if a.startswith("$$"):
            return ("imm", T.C(64, int(a[2:], 0)))
        if a.startswith("%"):
            x = a.lstrip("%")
            if x not in REG:
                raise AsmUnsupported("register " + a)
            return ("reg", REG[x][0], REG[x][1], None)
        m = re.match(r"^(-?(?:0x)?[0-9a-fA-F]*)\((.*)\)$", a)
        if m:
            d = self.decode(m.group(2).strip())
            if d[0] != "reg":
                raise AsmUnsupported("address " + a)
            return ("mem", None, d[1], int(m.group(1), 0) if m.group(1) else 0)
        raise AsmUnsupported("operand " + a)

    def finding(self, rule, msg):
        self.findings.add((rule, msg))

    # ---- register file lives in s.mem so that observation renames reach it
    def rkey(self):
        return ("R", self.i.idx)

    def getreg(self, s, r):
        if isinstance(r, tuple) and len(r) == 2 and r[0] != "v":
            return T.concat([self.getreg(s, r[0]), self.getreg(s, r[1])])
        for (o, n, t) in s.mem.get(self.rkey(), ()):
            if o == r:
                return t
        w = 128 if str(r).startswith("xmm") else 64
        t = T.S(w, ("asmundef", self.i.idx, str(r)))
        self.putreg(s, r, t)
        return t

    def putreg(self, s, r, t):
        segs = [x for x in s.mem.get(self.rkey(), ()) if x[0] != r]
        segs.append((r, t[1] // 8 if t[1] >= 8 else 0, t))
        segs.sort(key=lambda x: str(x[0]))
        s.mem[self.rkey()] = tuple(segs)

    def rd(self, s, r, w, pos):
        t = self.getreg(s, r)
        return T.trunc(t, w) if w < t[1] else t

    def wr(self, s, r, w, v, pos):
        old = self.getreg(s, r)
        if w in (8, 16) and old[1] == 64:
            v = T.concat([v, T.extract(old, w, old[1] - w)])
        elif w == 32:
            v = T.zext(v, old[1])
        self.putreg(s, r, v)

    # ---- static contract rules
    def contract(self):
        outs = {}
        ins_only = {}
        for o in self.ops:
            if o.ind or o.cc:
                continue
            r = self.regof(o)
            rs = r if isinstance(r, tuple) and r[0] != "v" else (r,)
            for x in rs:
                if o.out:
                    outs[x] = o
                elif o.tie is None:
                    ins_only[x] = o
        tied = {self.ops[o.tie].n for o in self.ops if o.tie is not None}
        clobr = {REG[c][0] for c in self.clob if c in REG}
        seq = []    # (pos, kind, reg) in program order
        loops = [(self.labels[m][0], n) for n, x in enumerate(self.ins) if x[0] == "ins" and re.match(r"^j", x[2])
                 for m in [x[3][0].rstrip("bf")] if m in self.labels and self.labels[m][0] < n]
        for n, x in enumerate(self.ins):
            if x[0] != "ins":
                continue
            rd, wr = self.effects(x)
            for r in rd:
                seq.append((n, "r", r))
            for r in wr:
                seq.append((n, "w", r))
            if self.memwrite(x) and not self.memclob:
                ok = False
                for a in x[3]:
                    d = self.decode(a)
                    if d[0] == "mem" and d[1] is not None and d[1].out:
                        ok = True
                if not ok:
                    self.finding("asm-undeclared-memory-write", "'%s' writes memory that is neither an output operand nor covered by a memory clobber" % " ".join([x[2]] + x[3]))
        touches = self.memclob
        for n, x in enumerate(self.ins):
            if x[0] != "ins" or x[2].startswith("j"):
                continue
            for a in x[3]:
                d = self.decode(a)
                if d[0] != "mem":
                    continue
                touches = True
                o = d[1]
                if o is not None and o.out and not self.memclob and not self.puremov(x, a) and not any(p.ind and not p.out and p.ir is o.ir for p in self.ops):
                    self.finding("asm-undeclared-memory-read", "'%s' reads memory operand %d, which is declared as written only, without a memory clobber" % (" ".join([x[2]] + x[3]), o.n))
                if d[1] is None and not self.memclob and not any(o.ind and not o.out or o.ind and o.out and o.con.startswith("+") for o in self.ops):
                    self.finding("asm-undeclared-memory-read", "'%s' accesses memory through a register, with neither a memory operand nor a memory clobber" % " ".join([x[2]] + x[3]))
        if (touches or x86_waits(self.ins)) and not self.volatile:
            self.finding("asm-not-volatile", "the block accesses memory or orders other accesses but is not volatile: the compiler may drop, merge or move it")
        for n, k, r in seq:
            if k == "w" and r not in outs and r not in clobr:
                if r in ins_only:
                    if not self.restored(r, seq):
                        self.finding("asm-input-modified", "instruction %d modifies register operand %d which is declared as input only" % (n, ins_only[r].n))
                elif not (isinstance(r, tuple)):
                    if not self.restored(r, seq):
                        self.finding("asm-undeclared-clobber", "register %%%s is modified but is neither an output nor a clobber" % r)
        # early clobber: an output register (not tied to an input, not early-clobber) written before an input is last read
        lastread = {}
        for n, k, r in seq:
            if k == "r" and r in ins_only:
                lastread[r] = n
        memread = -1
        for n, x in enumerate(self.ins):
            if x[0] == "ins" and not x[2].startswith("j"):
                for a in x[3]:
                    d = self.decode(a)
                    if d[0] == "mem" and d[1] is not None:
                        memread = max(memread, n)
        for lo, hi in loops:
            for r in list(lastread):
                if lo <= lastread[r] <= hi:
                    lastread[r] = hi
            if lo <= memread <= hi:
                memread = hi
        for r, o in outs.items():
            if o.early or o.n in tied:
                continue
            ws = [n for n, k, rr in seq if k == "w" and rr == r]
            if not ws:
                continue
            first = min(ws)
            cls = self.ops[o.n]
            if memread > first and not cls.con.strip("=+&").startswith(("x", "v", "Y")):  # a vector register is no address
                self.finding("asm-missing-early-clobber", "output operand %d is written (instruction %d) before a memory operand is last used, without '&'" % (o.n, first))
            for r2, n2 in lastread.items():
                if n2 > first and not (isinstance(r2, str) and isinstance(r, str) and r != r2):
                    self.finding("asm-missing-early-clobber", "output operand %d is written (instruction %d) before input operand %d is last read, without '&'" % (o.n, first, ins_only[r2].n))

    def mnem(self, mn):
        """-> (base, width or None)"""
        if mn in ALU:
            return mn, None
        if mn[-1] in SUF and mn[:-1] in ALU:
            return mn[:-1], SUF[mn[-1]]
        return mn, None

    def restored(self, r, seq):
        """register r is exchanged away first and exchanged back last, with the same partner, which is not written while it
        keeps the value of r"""
        ws = [m for m, kk, rr in seq if kk == "w" and rr == r]
        if len(ws) < 2:
            return False
        a, b = self.ins[ws[0]], self.ins[ws[-1]]
        if not (self.mnem(a[2])[0] == "xchg" == self.mnem(b[2])[0] and sorted(a[3]) == sorted(b[3])):
            return False
        both = [rr for m, kk, rr in seq if kk == "w" and m == ws[0]]
        if any(kk == "w" and rr != r and rr in both and ws[0] < m < ws[-1] for m, kk, rr in seq):
            return False
        return True

    def puremov(self, x, a):
        """a store that does not read its destination"""
        b, w = self.mnem(x[2])
        return x[2].startswith("fistp") or a is x[3][-1] and (b == "mov" or x[2].startswith(("vmov", "mova", "movd", "movq", "movups", "set")))

    def memwrite(self, x):
        b, w = self.mnem(x[2])
        if not x[3] or b in ("cmp", "test", "bt") or x[2].startswith("fild"):
            return False
        if x[2].startswith("j"):
            return False
        try:
            d = self.decode(x[3][-1])
            if d[0] == "mem":
                return True
            if b in ("xchg",):
                return any(self.decode(a)[0] == "mem" for a in x[3])
        except AsmUnsupported:
            pass
        return False

    def effects(self, x):
        """registers read / written by one instruction"""
        mn, args = x[2], x[3]
        rd, wr = set(), set()
        if mn.startswith("j"):
            return rd, wr
        b, w = self.mnem(mn)
        ds = [self.decode(a) for a in args]

        def regs(d):
            if d[0] == "reg":
                return [d[1]] if not (isinstance(d[1], tuple) and d[1][0] != "v") else list(d[1])
            if d[0] == "mem" and d[2] is not None:
                return [d[2]]
            return []
        if mn in ("cmpxchg8b", "cmpxchg16b"):
            rd |= {"rax", "rdx", "rbx", "rcx"}
            wr |= {"rax", "rdx"}
            for d in ds:
                rd |= set(regs(d))
            return rd, wr
        if mn.startswith(("fild", "fistp")):
            for d in ds:
                rd |= set(regs(d))
            return rd, wr
        if mn == "cpuid":
            return {"rax", "rcx"}, {"rax", "rbx", "rcx", "rdx"}
        if mn.startswith("cmpxchg"):
            rd.add("rax")
            wr.add("rax")
        for n, d in enumerate(ds):
            last = n == len(ds) - 1
            if d[0] == "mem":
                rd |= set(regs(d))
                continue
            if not last or len(ds) == 1:
                rd |= set(regs(d)) if not mn.startswith("set") else set()
            if last:
                isload = b == "mov" or mn.startswith(("movz", "movs", "vmov", "mova", "movd", "movl", "movq", "set"))
                if not isload:
                    rd |= set(regs(d))
                if b not in ("cmp", "test", "bt"):
                    wr |= set(regs(d))
            if b in ("xchg", "xadd"):
                rd |= set(regs(d))
                wr |= set(regs(d))
        return rd, wr

    # ---- interpretation
    def run(self, s):
        e, i = self.e, self.i
        # bind inputs
        k = 0
        args = i.ops
        direct_out = [o for o in self.ops if o.out and not o.ind]
        tys = []
        if i.ty.kind == "struct":
            tys = list(i.ty.elems)
        elif i.ty.kind != "void":
            tys = [i.ty]
        from .engine import tybits
        for o, ty in zip(direct_out, tys):
            o.size = tybits(ty)
        for o in self.ops:
            if o.out and not o.ind:
                continue
            a = e.val(s, args[k])
            if args[k].ty.kind != "ptr":
                o.size = a[1]
            o.arg = a
            k += 1
        self.contract()
        for rule, msg in sorted(self.findings):
            e.asm_finding(s, i, rule, msg)
        e.asm_seen(i, self)
        s = s.copy()
        if self.memclob and self.volatile:
            e.domain.on_compiler_barrier(e, s, i)
        for o in self.ops:
            if o.arg is None or o.ind:
                continue
            r = self.regof(o)
            a = o.arg
            if isinstance(r, tuple) and r[0] != "v":
                self.putreg(s, r[0], T.trunc(a, 64))
                self.putreg(s, r[1], T.extract(a, 64, 64) if a[1] > 64 else T.C(64, 0))
                continue
            W = 128 if a[1] == 128 or str(r).startswith("xmm") else 64
            if a[1] < W:
                a = T.concat([a, T.S(W - a[1], ("asmhi", i.idx, o.n))])
            self.putreg(s, r, a)
        outs = []
        seen = set()
        work = [(0, s)]
        steps = 0
        while work:
            pc, st = work.pop()
            steps += 1
            if steps > 4000:
                raise AsmUnsupported("asm did not converge")
            while pc < len(self.ins) and self.ins[pc][0] == "label":
                key = (pc, frozenset(st.mem.items()), frozenset(st.facts.items()), frozenset(st.ts.items()))
                if key in seen:
                    break
                seen.add(key)
                pc += 1
            else:
                if pc >= len(self.ins):
                    outs.append(st)
                    continue
                for npc, ns in self.step(st, pc):
                    work.append((npc, ns))
        res = []
        for st in outs:
            vals = []
            for o, ty in zip(direct_out, tys):
                w = tybits(ty)
                if o.cc:
                    if o.cc not in CC:
                        raise AsmUnsupported("flag " + o.cc)
                    f, pol = CC[o.cc]
                    t = self.flag(st, f)
                    if not pol:
                        t = T.lnot(t)
                    vals.append(T.zext(t, w))
                else:
                    r = self.regof(o)
                    t = self.getreg(st, r)
                    vals.append(T.trunc(t, w) if t[1] > w else t)
            st.mem.pop(self.rkey(), None)
            if i.ty.kind == "struct":
                st.env[i] = ("agg", tuple(vals))
            elif i.ty.kind != "void":
                st.env[i] = vals[0]
            if self.memclob and self.volatile:
                for s2 in e.domain.on_compiler_barrier(e, st, i) or [st]:
                    res.append(s2)
            else:
                res.append(st)
        return res

    def flag(self, s, f):
        for (o, n, t) in s.mem.get(self.rkey(), ()):
            if o == f:
                return t
        return T.S(1, ("flag", self.i.idx, f))

    def setflags(self, s, res=None, zf=None, cf=None):
        if res is not None:
            zf = T.icmp("eq", res, T.C(res[1], 0))
            self.putreg(s, "sf", T.bit(res, T.C(8, res[1] - 1)))
        self.putreg(s, "zf", zf)
        if cf is not None:
            self.putreg(s, "cf", cf)
        else:
            self.putreg(s, "cf", T.S(1, ("flagcf", self.i.idx)))

    def memloc(self, s, d):
        if d[1] is not None:
            return self.e.resolve(d[1].arg)
        p = T.add(self.getreg(s, d[2]), T.C(64, d[3]))
        return self.e.resolve(p)

    def step(self, s, pc):
        _, lock, mn, args = self.ins[pc]
        e, i, dm = self.e, self.i, self.e.domain
        s = s.copy()
        nxt = pc + 1
        if mn == "pause":
            r = dm.on_pause(e, s, i)
            return [(nxt, x) for x in (r if r is not None else [s])]
        if mn == "nop":
            return [(nxt, s)]
        if mn in ("mfence", "lfence", "sfence"):
            r = dm.on_hw_fence(e, s, i, mn)
            return [(nxt, x) for x in (r if r is not None else [s])]
        if mn[0] == "j":
            lab = args[0]
            base = lab.rstrip("bf")
            c = self.labels.get(base)
            if not c:
                raise AsmUnsupported("label " + lab)
            tgt = [x for x in c if (x < pc if lab.endswith("b") else x > pc)]
            tgt = (tgt[-1] if lab.endswith("b") else tgt[0]) if tgt else c[0]
            if mn == "jmp":
                return [(tgt, s)]
            cc = mn[1:]
            if cc not in CC:
                raise AsmUnsupported(mn)
            f, pol = CC[cc]
            t = self.flag(s, f)
            if not pol:
                t = T.lnot(t)
            k = s.decide(t)
            out = []
            for want, where in ((True, tgt), (False, nxt)):
                if k is not None and k != want:
                    continue
                s2 = s.copy()
                if s2.assume(t, want):
                    out.append((where, s2))
            return out
        if mn.startswith("set"):
            f, pol = CC[mn[3:]] if mn[3:] in CC else (None, None)
            if f is None:
                raise AsmUnsupported(mn)
            t = self.flag(s, f)
            if not pol:
                t = T.lnot(t)
            d = self.decode(args[0])
            if d[0] == "mem":
                region, off = self.memloc(s, d)
                return [(nxt, x) for x in dm.acc_store(e, s, i, region, off, 1, T.zext(t, 8), "na", False)]
            self.wr(s, d[1], 8, T.zext(t, 8), pc)
            return [(nxt, s)]
        if mn in ("cmpxchg8b", "cmpxchg16b"):
            half = 32 if mn.endswith("8b") else 64
            d = self.decode(args[0])
            region, off = self.memloc(s, d)
            exp = T.concat([self.rd(s, "rax", half, pc), self.rd(s, "rdx", half, pc)])
            new = T.concat([self.rd(s, "rbx", half, pc), self.rd(s, "rcx", half, pc)])
            if not lock:
                e.asm_finding(s, i, "asm-missing-lock", "%s on memory without a lock prefix" % mn)
            out = []
            for s2, ok, obs in dm.acc_cas(e, s, i, region, off, half // 4, exp, new, self.order(), self.order(), False):
                if not ok:
                    self.wr(s2, "rax", half, T.trunc(obs, half), pc)
                    self.wr(s2, "rdx", half, T.extract(obs, half, half), pc)
                    # zf only; other flags unchanged
                self.putreg(s2, "zf", T.TRUE if ok else T.FALSE)
                out.append((nxt, s2))
            return out
        if mn in ("xorps", "pxor") and self.decode(args[0])[1] == self.decode(args[1])[1]:
            self.putreg(s, self.decode(args[1])[1], T.C(128, 0))
            return [(nxt, s)]
        if mn in ("vmovdqa", "movdqa", "vmovq", "movq", "movlps", "vmovaps", "movaps") and any(
                (lambda d: d[0] == "reg" and (d[2] == 128 or str(d[1]).startswith("xmm")))(self.decode(a)) for a in args):
            size = 16 if "dqa" in mn or "aps" in mn else 8
            src, dst = self.decode(args[0]), self.decode(args[1])
            if src[0] == "mem":
                region, off = self.memloc(s, src)
                out = []
                for s2, t in dm.acc_load(e, s, i, region, off, size, "mov", size == 8 or mn[0] == "v"):
                    self.putreg(s2, dst[1], T.zext(t, 128))
                    out.append((nxt, s2))
                return out
            t = T.trunc(self.getreg(s, src[1]), 8 * size)
            if dst[0] == "mem":
                region, off = self.memloc(s, dst)
                return [(nxt, x) for x in dm.acc_store(e, s, i, region, off, size, t, "mov", size == 8 or mn[0] == "v")]
            self.putreg(s, dst[1], T.zext(t, 128))
            return [(nxt, s)]
        if mn in ("fildll", "fildq", "fistpll", "fistpq") and len(args) == 1:
            # 64-bit integers go through the x87 stack exactly, by one access
            d = self.decode(args[0])
            if d[0] != "mem":
                raise AsmUnsupported("instruction " + mn)
            region, off = self.memloc(s, d)
            if mn.startswith("fild"):
                out = []
                for s2, t in dm.acc_load(e, s, i, region, off, 8, "mov", True):
                    if "st0" in s2.ts:
                        raise AsmUnsupported("x87 stack")
                    s2.ts["st0"] = t
                    out.append((nxt, s2))
                return out
            t = s.ts.pop("st0", None)
            if t is None:
                raise AsmUnsupported("x87 stack")
            return [(nxt, x) for x in dm.acc_store(e, s, i, region, off, 8, t, "mov", True)]
        m = re.match(r"^mov([zs])([bwl])([wlq])?$", mn)
        if m and len(args) == 2:
            src, dst = self.decode(args[0]), self.decode(args[1])
            sw = SUF[m.group(2)]
            dw = SUF[m.group(3)] if m.group(3) else dst[2]
            ext = T.zext if m.group(1) == "z" else T.sext
            if src[0] == "mem":
                region, off = self.memloc(s, src)
                out = []
                for s2, t in dm.acc_load(e, s, i, region, off, sw // 8, "mov", True):
                    self.wr(s2, dst[1], dw, ext(t, dw), pc)
                    out.append((nxt, s2))
                return out
            t = self.rd(s, src[1], sw, pc)
            self.wr(s, dst[1], dw, ext(t, dw), pc)
            return [(nxt, s)]
        b, w = self.mnem(mn)
        if b not in ALU:
            raise AsmUnsupported("instruction " + mn)
        ds = [self.decode(a) for a in args]
        if w is None:
            for d in reversed(ds):
                if d[0] == "reg" and d[2]:
                    w = d[2]
                    break
        if w is None:
            raise AsmUnsupported("width of " + mn)
        for d in ds:
            if d[0] == "reg" and d[2] and d[3] is None and d[2] != w:
                e.asm_finding(s, i, "asm-width", "%s uses a register of width %d" % (mn, d[2]))

        def rdop(st, d):
            if d[0] == "imm":
                t = d[1]
                if t[1] > w:
                    return T.trunc(t, w)
                return T.C(w, T.sval(t)) if T.isc(t) else T.sext(t, w)
            if d[0] == "reg":
                return self.rd(st, d[1], w, pc)
            raise AsmUnsupported("memory source")
        mems = [d for d in ds if d[0] == "mem"]
        n = w // 8
        if b == "cmpxchg":
            src, dst = ds
            if dst[0] != "mem":
                raise AsmUnsupported("cmpxchg reg")
            region, off = self.memloc(s, dst)
            exp = self.rd(s, "rax", w, pc)
            new = rdop(s, src)
            if not lock and dm.is_shared(e, s, region):
                e.asm_finding(s, i, "asm-missing-lock", "%s on shared memory without a lock prefix" % mn)
            out = []
            for s2, ok, obs in dm.acc_cas(e, s, i, region, off, n, exp, new, self.order(), self.order(), False):
                if not ok:
                    self.wr(s2, "rax", w, obs, pc)
                self.putreg(s2, "zf", T.TRUE if ok else T.FALSE)
                out.append((nxt, s2))
            return out
        if b == "mov":
            src, dst = ds
            if src[0] == "mem":
                region, off = self.memloc(s, src)
                out = []
                for s2, t in dm.acc_load(e, s, i, region, off, n, "mov", True):
                    self.wr(s2, dst[1], w, t, pc)
                    out.append((nxt, s2))
                return out
            t = rdop(s, src)
            if dst[0] == "mem":
                region, off = self.memloc(s, dst)
                return [(nxt, x) for x in dm.acc_store(e, s, i, region, off, n, t, "mov", True)]
            self.wr(s, dst[1], w, t, pc)
            return [(nxt, s)]

        def compute(old, src):
            """-> (new, cf)"""
            if b in ("add", "xadd"):
                r = T.add(old, src)
                return r, T.icmp("ult", r, src)
            if b in ("sub", "cmp"):
                return T.sub(old, src), T.icmp("ult", old, src)
            if b in ("and", "test"):
                return T.and_(old, src), T.FALSE
            if b == "or":
                return T.or_(old, src), T.FALSE
            if b == "xor":
                return T.xor(old, src), T.FALSE
            if b == "neg":
                return T.neg(old), T.lnot(T.icmp("eq", old, T.C(w, 0)))
            if b == "not":
                return T.not_(old), None
            if b == "inc":
                return T.add(old, T.C(w, 1)), None
            if b == "dec":
                return T.sub(old, T.C(w, 1)), None
            if b in ("bts", "btr", "btc", "bt"):
                n_ = T.trunc(src, 8) if src[1] > 8 else src
                mask = T.shl(T.C(w, 1), src)
                f = {"bts": lambda: T.or_(old, mask), "btr": lambda: T.and_(old, T.not_(mask)), "btc": lambda: T.xor(old, mask),
                     "bt": lambda: old}[b]
                return f(), T.bit(old, T._shamt(src))
            if b == "xchg":
                return src, None
            raise AsmUnsupported(mn)

        def flags(st, new, cf):
            if b in ("not", "xchg"):
                return
            if b in ("bts", "btr", "btc", "bt"):
                self.putreg(st, "cf", cf)
                return
            if b in ("inc", "dec"):
                c = self.flag(st, "cf")
                self.setflags(st, res=new, cf=c)
                return
            self.setflags(st, res=new, cf=cf)
        if len(ds) == 1:
            src, dst = None, ds[0]
        else:
            src, dst = ds
        if src is not None and src[0] == "mem" and b == "xchg":
            src, dst = dst, src
        if dst[0] == "mem":
            region, off = self.memloc(s, dst)
            sv = rdop(s, src) if src is not None else None
            if b in ("cmp", "test", "bt"):
                out = []
                for s2, t in dm.acc_load(e, s, i, region, off, n, "mov", True):
                    new, cf = compute(t, sv)
                    flags(s2, new, cf)
                    out.append((nxt, s2))
                return out
            shared = dm.is_shared(e, s, region)
            if shared and not lock and b != "xchg":
                e.asm_finding(s, i, "asm-missing-lock", "%s is a read-modify-write of shared memory without a lock prefix" % mn)
            out = []
            if lock or b == "xchg" or shared:
                for s2, old in dm.acc_rmw(e, s, i, region, off, n, lambda old: compute(old, sv)[0], self.order(), lock or b == "xchg"):
                    new, cf = compute(old, sv)
                    flags(s2, new, cf)
                    if b in ("xchg", "xadd"):
                        self.wr(s2, src[1], w, old, pc)
                    out.append((nxt, s2))
                return out
            old = e.mem_read(s, region, off, n)
            new, cf = compute(old, sv)
            e.mem_write(s, region, off, n, new)
            flags(s, new, cf)
            if b in ("xchg", "xadd"):
                self.wr(s, src[1], w, old, pc)
            return [(nxt, s)]
        if src is not None and src[0] == "mem":
            region, off = self.memloc(s, src)
            out = []
            for s2, sv in dm.acc_load(e, s, i, region, off, n, "mov", True):
                old = self.rd(s2, dst[1], w, pc)
                new, cf = compute(old, sv)
                flags(s2, new, cf)
                if b not in ("cmp", "test", "bt"):
                    self.wr(s2, dst[1], w, new, pc)
                out.append((nxt, s2))
            return out
        if b == "xor" and src is not None and src[0] == "reg" and src[1] == dst[1]:
            self.wr(s, dst[1], w, T.C(w, 0), pc)
            self.setflags(s, res=T.C(w, 0), cf=T.FALSE)
            return [(nxt, s)]
        old = self.rd(s, dst[1], w, pc)
        sv = rdop(s, src) if src is not None else None
        new, cf = compute(old, sv)
        flags(s, new, cf)
        if b not in ("cmp", "test", "bt"):
            self.wr(s, dst[1], w, new, pc)
        if b in ("xchg", "xadd"):
            self.wr(s, src[1], w, old, pc)
        return [(nxt, s)]

    def order(self):
        """ordering a locked instruction in this block provides: full at hardware level; without a memory clobber the
        compiler may still move other accesses across it"""
        return "seq_cst" if (self.memclob and self.volatile) else "relaxed"


def execute(e, s, i, callee):
    a = Asm(e, i, callee)
    try:
        return a.run(s)
    except AsmUnsupported as x:
        from .engine import Incomplete
        raise Incomplete("asm at %s: %s: %r" % (i.loc[:1], x, callee.val[0]))
