"""Abstract interpreter and contract rules for the inline assembly of the load-linked / store-conditional processors:
AArch64 (with and without LSE), ARM (32-bit) and PowerPC.

A load-linked is an observation of the object.  A store-conditional either fails, changing nothing, or succeeds, and
then nothing has changed since the load-linked: the pair is one indivisible access whose observed value is what the
load-linked returned.  A 16 byte load-exclusive pair is an indivisible observation only when its store succeeds
(Arm ARM B2.2.1), until then its halves may come from different moments."""
import re
from . import terms as T
from .asmx86 import Asm, AsmUnsupported, parse_constraints

CONDS = {"eq": ("zf", 1), "ne": ("zf", 0)}
NZ = {"w": 32, "x": 64}


def tokenise(s, arch):
    s = re.sub(r"\$\(|\$\)", "", s.replace("$|", "|"))
    out = []
    for line in re.split(r"[\n;]", s):
        line = re.sub(r"//.*|@.*", "", line).strip()
        while True:
            m = re.match(r"^([A-Za-z0-9_.]+):\s*", line)
            if not m:
                break
            out.append(("label", m.group(1)))
            line = line[m.end():].strip()
        if not line:
            continue
        m = re.match(r"^(\S+)\s*(.*)$", line)
        mn, rest = m.group(1), m.group(2)
        if mn.startswith(".") and mn not in (".word", ".short"):
            continue
        args, cur, d = [], "", 0
        for ch in rest:
            if ch in "({[":
                d += 1
            elif ch in ")}]":
                d -= 1
            if ch == "," and d == 0:
                args.append(cur.strip())
                cur = ""
            else:
                cur += ch
        if cur.strip():
            args.append(cur.strip())
        out.append(("ins", False, mn, args))
    return out


class Ins:
    """decoded instruction: kind and operand roles"""
    __slots__ = ("k", "size", "bits", "rd", "wr", "mem", "tgt", "cond", "fn", "fr", "fw", "text", "pair", "imm")

    def __init__(self, k):
        self.k = k
        self.size = self.bits = 0
        self.rd, self.wr = [], []
        self.mem = self.tgt = self.cond = self.fn = None
        self.fr = self.fw = False
        self.pair = False


def decode_a64(mn, a):
    m = re.match(r"^ld(a?)x([rp])([bh]?)$", mn)
    if m:
        i = Ins("ll")
        i.bits = 5 if m.group(1) else 0
        i.pair = m.group(2) == "p"
        i.size = {"b": 1, "h": 2, "": 0}[m.group(3)]
        i.wr, i.mem = a[:-1], a[-1]
        return i
    m = re.match(r"^st(l?)x([rp])([bh]?)$", mn)
    if m:
        i = Ins("sc")
        i.bits = 6 if m.group(1) else 0
        i.pair = m.group(2) == "p"
        i.size = {"b": 1, "h": 2, "": 0}[m.group(3)]
        i.wr, i.rd, i.mem = a[:1], a[1:-1], a[-1]
        return i
    m = re.match(r"^ld(ar|apr)([bh]?)$", mn)
    if m:
        i = Ins("load")
        i.bits = 5 if m.group(1) == "ar" else 1
        i.size = {"b": 1, "h": 2, "": 0}[m.group(2)]
        i.wr, i.mem = a[:1], a[1]
        return i
    m = re.match(r"^stlr([bh]?)$", mn)
    if m:
        i = Ins("store")
        i.bits = 6
        i.size = {"b": 1, "h": 2, "": 0}[m.group(1)]
        i.rd, i.mem = a[:1], a[1]
        return i
    m = re.match(r"^(swp|cas|ldadd|ldclr|ldset|ldeor)(a?)(l?)([bh]?)$", mn)
    if m:
        i = Ins("cas" if m.group(1) == "cas" else "rmw")
        i.fn = m.group(1)
        i.bits = {"": "relaxed", "a": "acquire", "l": "release", "al": "seq_cst"}[m.group(2) + m.group(3)]
        i.size = {"b": 1, "h": 2, "": 0}[m.group(4)]
        i.mem = a[2]
        i.rd = [a[0]] if i.k == "rmw" else [a[0], a[1]]
        i.wr = [a[1]] if i.k == "rmw" else [a[0]]
        return i
    if mn in ("cbnz", "cbz"):
        i = Ins("branch")
        i.rd, i.tgt, i.cond = a[:1], a[1], mn
        return i
    if mn.startswith("b.") and mn[2:] in CONDS:
        i = Ins("branch")
        i.tgt, i.cond, i.fr = a[0], mn[2:], True
        return i
    if mn == "b":
        i = Ins("branch")
        i.tgt, i.cond = a[0], "al"
        return i
    if mn == "dmb":
        i = Ins("fence")
        i.bits = {"ish": 7, "sy": 7, "ishld": 1, "ld": 1}.get(a[0])
        return i if i.bits is not None else None
    if mn == "cset" and a[1] in CONDS:
        i = Ins("cset")
        i.wr, i.cond, i.fr = a[:1], a[1], True
        return i
    if mn == "ccmp" and a[3] in CONDS:
        i = Ins("ccmp")
        i.rd, i.cond, i.fr, i.fw, i.imm = a[:2], a[3], True, True, a[2]
        return i
    if mn in ("cmp",):
        i = Ins("cmp")
        i.rd, i.fw = a[:2], True
        return i
    return alu(mn, a, ("adds", "subs"), ("adc", "sbc"))


def alu(mn, a, setters, carriers):
    base = mn
    i = Ins("alu")
    if mn in ("yield", "nop", "isb"):
        return Ins("nop")
    if mn in ("uxtb", "uxth", "sxtb", "sxth", "mov", "neg", "mvn", "not", "li"):
        i.fn, i.wr, i.rd = mn, a[:1], a[1:2]
        return i
    if mn in setters:
        i.fw = True
        base = mn[:-1] if mn.endswith("s") else mn
    if mn in carriers:
        i.fr = True
    if base in ("add", "sub", "and", "orr", "eor", "rsb", "adc", "sbc", "or", "xor", "nor", "subf", "bic"):
        i.fn, i.wr, i.rd = base, a[:1], a[1:]
        if len(a) == 2:
            i.rd = [a[0], a[1]]
        return i
    return None


def decode_arm(mn, a):
    c = None
    m = re.match(r"^(cmp|eor|strex[bhd]?|stlex[bhd]?|mov)(eq|ne)$", mn)
    if m:
        mn, c = m.group(1), m.group(2)
    if re.match(r"^it[te]*$", mn):
        return Ins("nop")
    i = None
    m = re.match(r"^ld(r|a)ex([bhd]?)$", mn)
    if m:
        i = Ins("ll")
        i.bits = 5 if m.group(1) == "a" else 0
        i.size = {"b": 1, "h": 2, "d": 8, "": 4}[m.group(2)]
        i.pair = m.group(2) == "d"
        i.wr, i.mem = a[:-1], a[-1]
    m = re.match(r"^st(r|l)ex([bhd]?)$", mn)
    if m:
        i = Ins("sc")
        i.bits = 6 if m.group(1) == "l" else 0
        i.size = {"b": 1, "h": 2, "d": 8, "": 4}[m.group(2)]
        i.pair = m.group(2) == "d"
        i.wr, i.rd, i.mem = a[:1], a[1:-1], a[-1]
    m = re.match(r"^(lda|stl)([bh]?)$", mn)
    if m:
        i = Ins("load" if m.group(1) == "lda" else "store")
        i.bits = 5 if m.group(1) == "lda" else 6
        i.size = {"b": 1, "h": 2, "": 4}[m.group(2)]
        (i.wr if i.k == "load" else i.rd).append(a[0])
        i.mem = a[1]
    if mn == "dmb":
        i = Ins("fence")
        i.bits = {"ish": 7, "sy": 7, "ishld": 1}.get(a[0] if a else "sy")
        if i.bits is None:
            return None
    if mn == "mcr" and a == ["p15", "0", a[2], "c7", "c10", "5"]:
        # data memory barrier of ARMv6
        i = Ins("fence")
        i.bits = 7
        return i
    if mn == ".word" or mn == ".short":
        v = [int(x, 0) for x in a]
        if v == [0xF57FF05B]:
            i = Ins("fence")
            i.bits = 7
    if mn in ("bne", "beq", "b"):
        i = Ins("branch")
        i.tgt, i.cond, i.fr = a[0], mn[1:] or "al", mn != "b"
    if mn in ("cmp", "teq"):
        i = Ins("cmp")
        i.fn, i.rd, i.fw = mn, a[:2], True
    if i is None:
        i = alu(mn, a, ("eors", "adds", "subs", "ands", "orrs", "rsbs"), ("adc", "sbc"))
    if i is not None and c is not None:
        i.cond, i.fr = c, True
    return i


def decode_ppc(mn, a):
    w = {"b": 1, "h": 2, "w": 4, "d": 8}
    m = re.match(r"^l([bhwd])arx$", mn)
    if m:
        i = Ins("ll")
        i.size, i.wr, i.mem = w[m.group(1)], a[:1], a[1]
        return i
    m = re.match(r"^st([bhwd])cx\.$", mn)
    if m:
        i = Ins("sc")
        i.size, i.rd, i.mem, i.fw = w[m.group(1)], a[:1], a[1], True
        return i
    m = re.match(r"^l([bhw])z$", mn)
    if m or mn == "ld":
        i = Ins("load")
        i.size, i.wr, i.mem = w[m.group(1)] if m else 8, a[:1], a[1]
        return i
    m = re.match(r"^st([bhwd])$", mn)
    if m:
        i = Ins("store")
        i.size, i.rd, i.mem = w[m.group(1)], a[:1], a[1]
        return i
    if mn in ("sync", "lwsync", "isync", "hwsync"):
        i = Ins("fence")
        i.bits = {"sync": 7, "hwsync": 7, "lwsync": 3, "isync": "isync"}[mn]
        return i
    m = re.match(r"^b(ne|eq)[-+]?$", mn)
    if m:
        i = Ins("branch")
        i.tgt, i.cond, i.fr = a[0], m.group(1), True
        return i
    if mn == "b":
        i = Ins("branch")
        i.tgt, i.cond = a[0], "al"
        return i
    if mn in ("cmpw", "cmpd", "cmplw", "cmpld"):
        i = Ins("cmp")
        i.rd, i.fw, i.fn = a[:2], True, mn
        i.size = 4 if mn.endswith("w") else 8
        return i
    if mn in ("extsb", "extsh"):
        i = Ins("alu")
        i.fn, i.wr, i.rd = {"extsb": "sxtb", "extsh": "sxth"}[mn], a[:1], a[1:2]
        return i
    if mn == "rlwinm":
        i = Ins("alu")
        i.fn, i.wr, i.rd = "rlwinm", a[:1], a[1:]
        return i
    return alu(mn, a, (), ())


def decode_sparc(mn, a):
    if mn in ("cas", "casx"):
        # compares memory with the second operand, exchanges it with the third
        i = Ins("cas")
        i.size, i.mem = 4 if mn == "cas" else 8, a[0]
        i.rd, i.wr, i.bits = [a[1], a[2]], [a[2]], "relaxed"
        return i
    if mn == "swap":
        i = Ins("rmw")
        i.fn, i.size, i.mem, i.rd, i.wr, i.bits = "swp", 4, a[0], [a[1]], [a[1]], "relaxed"
        return i
    if mn == "membar":
        k = {x.strip() for x in " ".join(a).split("|")}
        if not k or k - {"#LoadLoad", "#LoadStore", "#StoreStore", "#StoreLoad", "#Sync", "#MemIssue"}:
            return None
        i = Ins("fence")
        if "#Sync" in k:
            k |= {"#LoadLoad", "#LoadStore", "#StoreStore", "#StoreLoad"}
        i.bits = (1 if {"#LoadLoad", "#LoadStore"} <= k else 0) | (2 if {"#StoreStore", "#LoadStore"} <= k else 0) | (4 if "#StoreLoad" in k else 0)
        return i
    return alu(mn, a, (), ())


DECODE = {"sparc": decode_sparc, "a64": decode_a64, "arm": decode_arm, "ppc": decode_ppc}


class RAsm(Asm):
    def __init__(self, e, inst, callee, arch):
        self.arch = arch
        Asm.__init__(self, e, inst, callee)
        self.ins = tokenise(self.text, arch)
        self.labels = {}
        for n, x in enumerate(self.ins):
            if x[0] == "label":
                self.labels.setdefault(x[1], []).append(n)
        self.reg = 32 if arch == "arm" else 64
        for o in self.ops:      # x86 register letters mean nothing here
            if o.cls is None and o.tie is None and not o.cc:
                o.cls = o.con.lstrip("=+&*%")
            o.reg = o.pair = None
            if o.cls and o.cls.startswith("{"):
                raise AsmUnsupported("register constraint " + o.con)
        self.dec = []
        for x in self.ins:
            if x[0] == "label":
                self.dec.append(None)
                continue
            d = DECODE[arch](x[2], x[3])
            if d is None:
                raise AsmUnsupported("instruction %s %s" % (x[2], ", ".join(x[3])))
            d.text = " ".join([x[2], ", ".join(x[3])])
            self.dec.append(d)

    # ---- operands
    def opref(self, a):
        m = re.match(r"^\$(\d+)$", a) or re.match(r"^\$\{(\d+)(?::(\w+))?\}$", a)
        if not m:
            return None
        o = self.ops[int(m.group(1))]
        return o, (m.group(2) if m.lastindex and m.lastindex > 1 else None)

    def operand(self, a):
        """('imm', value) ('op', register, width, operand) ('mem', operand) ('zr',)"""
        a = a.strip()
        r = self.opref(a)
        if r:
            o, md = r
            if o.ind:
                return ("mem", o)
            t = self.ops[o.tie] if o.tie is not None else o
            reg = ("v", t.n)
            w = self.reg
            if self.arch == "a64" and md in NZ:
                w = NZ[md]
            elif self.arch == "arm" and md in ("H", "R"):
                reg = ("v", t.n, "h")
            elif md not in (None, "Q"):
                raise AsmUnsupported("operand modifier " + md)
            return ("op", reg, w, o)
        m = re.match(r"^\[(.*)\]$", a)
        if m and self.opref(m.group(1).strip()):
            o = self.opref(m.group(1).strip())[0]
            if o.ind or o.out:
                raise AsmUnsupported("operand " + a)
            return ("mem", o)
        if a in ("xzr", "wzr"):
            return ("zr", 64 if a[0] == "x" else 32)
        m = re.match(r"^#?(-?(?:0x)?[0-9a-fA-F]+)$", a)
        if m:
            return ("imm", int(m.group(1), 0))
        raise AsmUnsupported("operand " + a)

    def width(self, d):
        for a in d.wr + d.rd:
            o = self.operand(a)
            if o[0] == "op":
                return o[2]
            if o[0] == "zr":
                return o[1]
        return self.reg

    def rval(self, s, a, w):
        o = self.operand(a)
        if o[0] == "imm":
            return T.C(w, o[1])
        if o[0] == "zr":
            return T.C(w, 0)
        if o[0] != "op":
            raise AsmUnsupported("operand " + a)
        t = self.getreg(s, o[1])
        return T.trunc(t, w) if w < t[1] else t

    def wval(self, s, a, v):
        o = self.operand(a)
        if o[0] == "zr":
            return
        self.putreg(s, o[1], T.zext(v, self.reg) if v[1] < self.reg else v)

    def getreg(self, s, r):
        for (o, n, t) in s.mem.get(self.rkey(), ()):
            if o == r:
                return t
        t = T.S(self.reg, ("asmundef", self.i.idx, str(r)))
        self.putreg(s, r, t)
        return t

    # ---- contract
    def contract(self):
        outs, ins_only = {}, {}
        tied = {o.tie for o in self.ops if o.tie is not None}
        for o in self.ops:
            if o.ind or o.cc or o.tie is not None:
                continue
            (outs if o.out else ins_only)[("v", o.n)] = o
        readmem = {o.ir for o in self.ops if o.ind and not o.out}

        def regs(lst):
            out = []
            for a in lst:
                o = self.operand(a)
                if o[0] == "op":
                    out.append(o[1][:2])
            return out
        seq = []
        memuse = []
        touches = self.memclob
        for n, d in enumerate(self.dec):
            if d is None:
                continue
            for r in regs(d.rd) + (regs(d.wr) if d.cond and d.k not in ("branch", "cset") else []):
                seq.append((n, "r", r))
            for r in regs(d.wr):
                seq.append((n, "w", r))
            if d.fw and not ({"cc", "cr0"} & self.clob):
                self.finding("asm-undeclared-clobber", "'%s' modifies the condition flags, which the block does not declare" % d.text)
            if d.k == "fence":
                touches = True
                if not self.memclob:
                    self.finding("asm-undeclared-memory-read", "'%s' orders memory accesses but the block has no memory clobber: the compiler may move accesses across it" % d.text)
            if d.mem:
                touches = True
                memuse.append(n)
                o = self.operand(d.mem)
                if o[0] != "mem":
                    raise AsmUnsupported("address " + d.mem)
                reads = d.k not in ("store", "sc")
                writes = d.k in ("store", "sc", "rmw", "cas")
                if reads and not o[1].ind and not self.memclob:
                    self.finding("asm-undeclared-memory-read", "'%s' accesses memory through a register, with neither a memory operand nor a memory clobber" % d.text)
                if reads and o[1].out and not self.memclob and o[1].ir not in readmem:
                    self.finding("asm-undeclared-memory-read", "'%s' reads memory operand %d, which is declared as written only, without a memory clobber" % (d.text, o[1].n))
                if writes and not o[1].out and not self.memclob:
                    self.finding("asm-undeclared-memory-write", "'%s' writes memory that is neither an output operand nor covered by a memory clobber" % d.text)
        if touches and not self.volatile:
            self.finding("asm-not-volatile", "the block accesses memory or orders other accesses but is not volatile: the compiler may drop, merge or move it")
        for n, k, r in seq:
            if k == "w" and r in ins_only:
                self.finding("asm-input-modified", "'%s' modifies register operand %d, which is declared as input only" % (self.dec[n].text, ins_only[r].n))
        lastread = {}
        for n, k, r in seq:
            if k == "r" and r in ins_only:
                lastread[r] = n
        for n in memuse:
            lastread["mem"] = n
        loops = []
        for n, d in enumerate(self.dec):
            if d is not None and d.k == "branch":
                t = self.target(d.tgt, n)
                if t < n:
                    loops.append((t, n))
        for lo, hi in loops:
            for r in list(lastread):
                if lo <= lastread[r] <= hi:
                    lastread[r] = hi
        for r, o in outs.items():
            if o.early or o.n in tied:
                continue
            ws = [n for n, k, rr in seq if k == "w" and rr == r]
            if not ws:
                continue
            for r2, n2 in lastread.items():
                if n2 > min(ws):
                    self.finding("asm-missing-early-clobber", "output operand %d is written (instruction %d) before %s is last used, without '&'" % (
                        o.n, min(ws), "a memory operand" if r2 == "mem" else "input operand %d" % ins_only[r2].n))
        # an early result tied to an input: both must not be another operand still needed

    def target(self, lab, pc):
        base = lab.rstrip("bf") if lab[:1].isdigit() else lab
        c = self.labels.get(base)
        if not c:
            raise AsmUnsupported("label " + lab)
        if lab[:1].isdigit():
            t = [x for x in c if (x < pc if lab.endswith("b") else x > pc)]
            if not t:
                raise AsmUnsupported("label " + lab)
            return t[-1] if lab.endswith("b") else t[0]
        return c[0]

    # ---- interpretation
    def run(self, s):
        e, i = self.e, self.i
        from .engine import tybits
        k = 0
        args = i.ops
        direct_out = [o for o in self.ops if o.out and not o.ind]
        tys = []
        if i.ty.kind == "struct":
            tys = list(i.ty.elems)
        elif i.ty.kind != "void":
            tys = [i.ty]
        for o in self.ops:
            if o.out and not o.ind:
                continue
            a = e.val(s, args[k])
            if args[k].ty.kind != "ptr":
                o.size = a[1]
            o.arg = a
            k += 1
        self.contract()
        for rule, msg in sorted(self.findings):
            e.asm_finding(s, i, rule, msg)
        e.asm_seen(i, self)
        s = s.copy()
        if self.memclob and self.volatile:
            e.domain.on_compiler_barrier(e, s, i)
        for o in self.ops:
            if o.arg is None or o.ind:
                continue
            a = o.arg
            r = ("v", self.ops[o.tie].n if o.tie is not None else o.n)
            if a[1] > self.reg:
                self.putreg(s, r, T.trunc(a, self.reg))
                self.putreg(s, r + ("h",), T.extract(a, self.reg, a[1] - self.reg))
                continue
            if a[1] < self.reg:
                # PowerPC passes values extended to a register; elsewhere the upper bits are not defined
                a = T.concat([a, T.S(self.reg - a[1], ("asmhi", i.idx, o.n))])
            self.putreg(s, r, a)
        outs, seen = [], set()
        work = [(0, s)]
        steps = 0
        while work:
            pc, st = work.pop()
            steps += 1
            if steps > 4000:
                raise AsmUnsupported("asm did not converge")
            while pc < len(self.ins) and self.ins[pc][0] == "label":
                key = (pc, frozenset(st.mem.items()), frozenset(st.facts.items()), frozenset(st.ts.items()))
                if key in seen:
                    break
                seen.add(key)
                pc += 1
            else:
                if pc >= len(self.ins):
                    outs.append(st)
                    continue
                work.extend(self.step(st, pc))
        res = []
        for st in outs:
            vals = []
            for o, ty in zip(direct_out, tys):
                w = tybits(ty)
                t = self.getreg(st, ("v", o.n))
                if w > t[1]:
                    t = T.concat([t, self.getreg(st, ("v", o.n, "h"))])
                vals.append(T.trunc(t, w) if t[1] > w else t)
            st.mem.pop(self.rkey(), None)
            if i.ty.kind == "struct":
                st.env[i] = ("agg", tuple(vals))
            elif i.ty.kind != "void":
                st.env[i] = vals[0]
            if self.memclob and self.volatile:
                res += e.domain.on_compiler_barrier(e, st, i) or [st]
            else:
                res.append(st)
        return res

    def cond(self, s, c):
        """the condition as a Boolean term"""
        f, pol = CONDS[c]
        t = self.flag(s, f)
        return t if pol else T.lnot(t)

    def fork(self, s, t, yes, no):
        k = s.decide(t)
        out = []
        for want, where in ((True, yes), (False, no)):
            if k is not None and k != want:
                continue
            s2 = s.copy()
            if s2.assume(t, want):
                out.append((where, s2))
        return out

    def step(self, s, pc):
        d = self.dec[pc]
        e, i, dm = self.e, self.i, self.e.domain
        s = s.copy()
        nxt = pc + 1
        if d.k == "nop":
            return [(nxt, s)]
        if d.k == "branch":
            s.ts["ctrl"] = True
            tgt = self.target(d.tgt, pc)
            if d.cond == "al":
                return [(tgt, s)]
            if d.cond in ("cbnz", "cbz"):
                t = T.icmp("eq", self.rval(s, d.rd[0], self.width(d)), T.C(self.width(d), 0))
                if d.cond == "cbnz":
                    t = T.lnot(t)
            else:
                t = self.cond(s, d.cond)
            return self.fork(s, t, tgt, nxt)
        if d.cond and d.k not in ("cset", "ccmp"):
            out = []
            for w, s2 in self.fork(s, self.cond(s, d.cond), 1, 0):
                s2.ts["ctrl"] = True
                out += self.exec(s2, pc, d) if w else [(nxt, s2)]
            return out
        return self.exec(s, pc, d)

    def exec(self, s, pc, d):
        e, i, dm = self.e, self.i, self.e.domain
        nxt = pc + 1
        if d.k == "fence":
            dm.on_risc_fence(e, s, i, d.bits)
            return [(nxt, s)]
        if d.mem:
            o = self.operand(d.mem)
            region, off = e.resolve(o[1].arg)
            o1 = self.operand((d.rd if d.k in ("sc", "store", "rmw", "cas") else d.wr)[0])
            w = o1[2] if o1[0] == "op" else 64
            n = d.size or w // 8
            half = n * 8
            if d.pair:
                half = 64 if self.arch == "a64" else 32
                if self.arch == "a64":
                    half = w
                n = half // 4
            bits = 8 * n
            if bits <= w and d.k in ("rmw", "cas", "sc", "store", "ll", "load") and bits < 32 and w == 64 and self.arch == "a64":
                raise AsmUnsupported("register width in " + d.text)
            if not (self.memclob and self.volatile) and self.arch == "a64":
                # nothing keeps the compiler from moving other accesses across the block
                lb = 0 if not isinstance(d.bits, str) else "relaxed"
            else:
                lb = d.bits
            out = []
            if d.k in ("ll", "load"):
                f = dm.acc_ll if d.k == "ll" else dm.acc_oload
                for s2, t in f(e, s, i, region, off, n, lb):
                    if d.pair:
                        self.wval(s2, d.wr[0], T.trunc(t, half))
                        self.wval(s2, d.wr[1], T.extract(t, half, half))
                    else:
                        self.wval(s2, d.wr[0], t)
                    out.append((nxt, s2))
                return out
            if d.k in ("sc", "store"):
                v = T.concat([self.rval(s, d.rd[0], half), self.rval(s, d.rd[1], half)]) if d.pair else self.rval(s, d.rd[0], bits)
                if d.k == "store":
                    return [(nxt, x) for x in dm.acc_ostore(e, s, i, region, off, n, v, lb)]
                for s2, ok in dm.acc_sc(e, s, i, region, off, n, v, lb):
                    if self.arch == "ppc":
                        self.putreg(s2, "zf", T.TRUE if ok else T.FALSE)
                    else:
                        self.wval(s2, d.wr[0], T.C(32, 0 if ok else 1))
                    out.append((nxt, s2))
                return out
            if d.k == "rmw":
                v = self.rval(s, d.rd[0], bits)
                f = {"swp": lambda o: v, "ldadd": lambda o: T.add(o, v), "ldclr": lambda o: T.and_(o, T.not_(v)),
                     "ldset": lambda o: T.or_(o, v), "ldeor": lambda o: T.xor(o, v)}[d.fn]
                for s2, old in dm.acc_rmw(e, s, i, region, off, n, f, lb):
                    self.wval(s2, d.wr[0], old)
                    out.append((nxt, s2))
                return out
            if d.k == "cas":
                exp, new = self.rval(s, d.rd[0], bits), self.rval(s, d.rd[1], bits)
                for s2, ok, obs in dm.acc_cas(e, s, i, region, off, n, exp, new, lb, lb, False):
                    self.wval(s2, d.wr[0], exp if ok else obs)
                    out.append((nxt, s2))
                return out
        w = self.width(d)
        if d.k == "cset":
            self.wval(s, d.wr[0], T.zext(self.cond(s, d.cond), w))
            return [(nxt, s)]
        if d.k == "ccmp":
            c = self.cond(s, d.cond)
            z = T.icmp("eq", self.rval(s, d.rd[0], w), self.rval(s, d.rd[1], w))
            nz = int(d.imm.lstrip("#"), 0) & 4
            out = []
            for yes, s2 in self.fork(s, c, 1, 0):
                self.putreg(s2, "zf", z if yes else (T.TRUE if nz else T.FALSE))
                out.append((nxt, s2))
            return out
        if d.k == "cmp":
            if d.fn in ("cmpw", "cmplw"):
                w = 32
            self.putreg(s, "zf", T.icmp("eq", self.rval(s, d.rd[0], w), self.rval(s, d.rd[1], w)))
            self.putreg(s, "cf", T.lnot(T.icmp("ult", self.rval(s, d.rd[0], w), self.rval(s, d.rd[1], w))))
            return [(nxt, s)]
        if d.k != "alu":
            raise AsmUnsupported(d.text)
        v = [self.rval(s, a, w) for a in d.rd]
        f = d.fn
        cf = None
        if f in ("mov", "li"):
            r = v[0]
        elif f in ("uxtb", "uxth", "sxtb", "sxth"):
            n = 8 if f[3] == "b" else 16
            r = (T.zext if f[0] == "u" else T.sext)(T.trunc(v[0], n), w)
        elif f == "neg":
            r = T.neg(v[0])
        elif f in ("mvn", "not"):
            r = T.not_(v[0])
        elif f == "add":
            r = T.add(v[0], v[1])
            cf = T.icmp("ult", r, v[0])
        elif f == "sub":
            r = T.sub(v[0], v[1])
            cf = T.lnot(T.icmp("ult", v[0], v[1]))
        elif f == "rsb":
            r = T.sub(v[1], v[0])
        elif f == "subf":
            r = T.sub(v[1], v[0])
        elif f == "adc":
            r = T.add(T.add(v[0], v[1]), T.zext(self.flag(s, "cf"), w))
        elif f == "sbc":
            r = T.sub(T.sub(v[0], v[1]), T.zext(T.lnot(self.flag(s, "cf")), w))
        elif f == "and":
            r = T.and_(*v)
        elif f in ("orr", "or"):
            r = T.or_(*v)
        elif f in ("eor", "xor"):
            r = T.xor(*v)
        elif f == "nor":
            r = T.not_(T.or_(*v))
        elif f == "bic":
            r = T.and_(v[0], T.not_(v[1]))
        elif f == "rlwinm":
            sh, m = v[1][2], v[2][2]
            if len(v) == 4:
                if m > v[3][2] or v[3][2] != 31:
                    raise AsmUnsupported(d.text)
                m = (1 << (32 - m)) - 1
            if sh:
                raise AsmUnsupported(d.text)
            r = T.zext(T.and_(T.trunc(v[0], 32), T.C(32, m)), w)
        elif f in ("extsb", "extsh"):
            r = T.sext(T.trunc(v[0], 8 if f[-1] == "b" else 16), w)
        else:
            raise AsmUnsupported(d.text)
        self.wval(s, d.wr[0], r)
        if d.fw:
            self.putreg(s, "zf", T.icmp("eq", r, T.C(w, 0)))
            self.putreg(s, "cf", cf if cf is not None else T.S(1, ("flagcf", i.idx)))
        return [(nxt, s)]


def execute(e, s, i, callee, arch):
    try:
        return RAsm(e, i, callee, arch).run(s)
    except AsmUnsupported as x:
        from .engine import Incomplete
        raise Incomplete("asm at %s: %s: %r" % (i.loc[:1], x, callee.val[0]))
