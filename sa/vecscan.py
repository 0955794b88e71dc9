"""Abstract interpretation of the table searches (A14).

Table contents are never given values.  A word loaded from the table is the
pair of halves (table, k, lo) (table, k, hi) of entry k; a comparison of such
halves with those of the searched address yields a Boolean built from the atoms
'half h of entry k equals that half of the address'; vector shuffles, packs and
masks move such Booleans around as bits.  Positions and sizes are linear
expressions over symbols with bounds: the size is 64*Q + s for each residue s
and symbolic Q >= 0, a loop gets a symbol D for the number of iterations left
whose bounds are verified to be inductive.  Paths fork on undecided
comparisons; each return is judged against the contract."""
from . import llvm
from .engine import Incomplete

M64 = (1 << 64) - 1


# ------------------------------------------------------------------ linear
class Lin:
    __slots__ = ("c", "t")

    def __init__(self, c=0, t=()):
        self.c = c
        self.t = t if isinstance(t, tuple) else tuple(sorted((k, v) for k, v in t.items() if v))

    def __eq__(self, o):
        return isinstance(o, Lin) and self.c == o.c and self.t == o.t

    def __hash__(self):
        return hash((self.c, self.t))

    def add(self, o, k=1):
        if isinstance(o, int):
            return Lin(self.c + k * o, self.t)
        d = dict(self.t)
        for s, v in o.t:
            d[s] = d.get(s, 0) + k * v
        return Lin(self.c + k * o.c, d)

    def scale(self, k):
        return Lin(self.c * k, {s: v * k for s, v in self.t})

    def const(self):
        return None if self.t else self.c

    def coef(self, s):
        return dict(self.t).get(s, 0)

    def subst(self, s, e):
        k = self.coef(s)
        if not k:
            return self
        return Lin(self.c, {a: v for a, v in self.t if a != s}).add(e, k)

    def multiple(self, m):
        return all(v % m == 0 for _, v in self.t)

    def __repr__(self):
        out = ["%s%s" % ("" if v == 1 else "-" if v == -1 else "%d*" % v, s) for s, v in self.t]
        if self.c or not out:
            out.append("%d" % self.c)
        return " + ".join(out).replace("+ -", "- ")


def L(x):
    return x if isinstance(x, Lin) else Lin(x)


# ------------------------------------------------------------------ Booleans
# (neg, frozenset of frozensets of atoms); atoms are (half, Lin k)
FALSE = (False, frozenset())
TRUE = (True, frozenset())


def b_not(b):
    return (not b[0], b[1])


def _simp(d):
    return frozenset(c for c in d if not any(o < c for o in d))


def b_and(a, b):
    for x, y in ((a, b), (b, a)):
        if x == TRUE:
            return y
        if x == FALSE:
            return FALSE
    if a == b:
        return a
    if not a[0] and not b[0]:
        return (False, _simp(frozenset(x | y for x in a[1] for y in b[1])))
    if a[0] and b[0]:
        return (True, _simp(a[1] | b[1]))
    raise Incomplete("mixed Boolean")


def b_or(a, b):
    return b_not(b_and(b_not(a), b_not(b)))


def full(b):
    """k when the Boolean is exactly 'entry k equals the address'"""
    if b[0] or len(b[1]) != 1:
        return None
    c = next(iter(b[1]))
    ks = {k for _, k in c}
    if len(ks) == 1 and {h for h, _ in c} == {"lo", "hi"}:
        return next(iter(ks))
    return None


def about(c):
    """the entry a conjunction talks about, when there is only one"""
    ks = {k for _, k in c}
    return next(iter(ks)) if len(ks) == 1 else None


def map_b(b, f):
    return (b[0], frozenset(frozenset((h, f(k)) for h, k in c) for c in b[1]))


# ------------------------------------------------------------------ values
# ("lin", width, Lin) ("ptr", base, Lin bytes) ("bits", [Bool...]) ("raw", [(what, k, half)...])
# ("sel", width, ((Bool, Lin)...), Lin|None) first true Boolean picks    ("deleg", Lin added, Lin K)  ("fn", name) ("undef", width)
def width(ty):
    if ty.kind == "int":
        return ty.bits
    if ty.kind == "ptr":
        return 64
    if ty.kind == "vector":
        return ty.count * width(ty.elem)
    if ty.kind in ("float",):
        return 32
    if ty.kind in ("double",):
        return 64
    raise Incomplete("type %s" % ty)


def bits_const(v, w):
    return ("bits", tuple(TRUE if v >> i & 1 else FALSE for i in range(w)))


class State:
    __slots__ = ("env", "lo", "hi", "C", "none", "true", "loops", "trail", "rel", "back", "size", "T")

    def __init__(self):
        self.env, self.lo, self.hi, self.rel = {}, {}, {}, {}
        self.C = Lin(0)
        self.none = frozenset()
        self.true = ()
        self.loops = {}
        self.trail = ()
        self.back = None
        self.size = None
        self.T = None

    def copy(self):
        s = State()
        s.env, s.lo, s.hi, s.rel, s.loops = dict(self.env), dict(self.lo), dict(self.hi), dict(self.rel), dict(self.loops)
        s.C, s.none, s.true, s.trail, s.back, s.size, s.T = self.C, self.none, self.true, self.trail, self.back, self.size, self.T
        return s

    # bounds of a linear expression
    def lower(self, e, depth=2):
        r = e.c
        ok = True
        for s, v in e.t:
            b = self.lo.get(s) if v > 0 else self.hi.get(s)
            if b is None:
                ok = False
                break
            r += v * b
        best = r if ok else None
        if depth:
            for s, v in e.t:
                # D = U - J with J >= 0: replace the symbol when it enters negatively
                if v < 0 and s in self.rel:
                    U, J = self.rel[s]
                    x = self.lower(e.subst(s, U.add(Lin(0, {J: 1}), -1)), depth - 1)
                    if x is not None and (best is None or x > best):
                        best = x
        return best

    def upper(self, e):
        x = self.lower(e.scale(-1))
        return None if x is None else -x

    def assume(self, e):
        """e >= 0; False when impossible"""
        u = self.upper(e)
        if u is not None and u < 0:
            return False
        if len(e.t) == 1:
            s, v = e.t[0]
            if v > 0:
                b = -(e.c // v)         # v*s + c >= 0  =>  s >= ceil(-c/v)
                if self.lo.get(s) is None or self.lo[s] < b:
                    self.lo[s] = b
            else:
                b = e.c // -v           # s <= floor(c/-v)
                if self.hi.get(s) is None or self.hi[s] > b:
                    self.hi[s] = b
            if self.lo.get(s) is not None and self.hi.get(s) is not None:
                if self.lo[s] > self.hi[s]:
                    return False
                if self.lo[s] == self.hi[s]:
                    self.fix(s, Lin(self.lo[s]))
        return True

    def fix(self, s, e):
        self.rename(lambda l: l.subst(s, e))
        for t in list(self.rel):
            if t == s:
                del self.rel[t]
            else:
                U, J = self.rel[t]
                self.rel[t] = (U.subst(s, e), J)

    def rename(self, f):
        self.C = f(self.C)
        self.size = f(self.size)
        self.T = f(self.T)
        self.none = frozenset(f(k) for k in self.none)
        self.true = tuple(map_b(b, f) for b in self.true)
        for k, v in list(self.env.items()):
            self.env[k] = map_v(v, f)
        for h, r in self.loops.items():
            self.loops[h] = r.map(f)


def map_v(v, f):
    k = v[0]
    if k == "lin":
        return (k, v[1], f(v[2]))
    if k == "ptr":
        return (k, v[1], f(v[2]))
    if k == "bits":
        return (k, tuple(map_b(b, f) for b in v[1]))
    if k == "raw":
        return (k, tuple((w, f(n), h) for w, n, h in v[1]))
    if k == "diff":
        return (k, tuple(map_b(b, f) for b in v[1]))
    if k == "sel":
        return (k, v[1], tuple((map_b(b, f), f(x)) for b, x in v[2]), None if v[3] is None else f(v[3]))
    if k == "deleg":
        return (k, f(v[1]), f(v[2]))
    return v


class LoopRec:
    """what was assumed at the loop header"""
    __slots__ = ("phis", "dC", "C", "D", "step", "dT", "T")

    def map(self, f):
        r = LoopRec()
        r.phis = {p: map_v(v, f) for p, v in self.phis.items()}
        r.C, r.T = f(self.C), f(self.T)
        r.dC, r.D, r.step, r.dT = self.dC, self.D, self.step, self.dT
        return r


class Scan:
    MAXSTATES = 4000

    def __init__(self, fn, lower=()):
        self.fn = fn
        self.allowed = lower            # variants this one may hand the whole job to
        self.findings = []
        self.counts = {"paths": 0, "loads": 0, "loops": 0, "comparisons": 0}
        self.n = 0
        self.heads = back_edges(fn)
        self.quiet = False
        self.probe = None
        self.cmps = []

    def find(self, rule, i, msg, s):
        if not self.quiet:
            self.findings.append((rule, i.loc, msg, s.trail))

    # ---------------------------------------------------------- driver
    def run(self, size):
        st = State()
        st.lo["Q"] = 0
        st.env[self.fn.args[0]] = ("raw", (("addr", Lin(0), "lo"), ("addr", Lin(0), "hi")))
        st.env[self.fn.args[1]] = ("ptr", "table", Lin(0))
        st.env[self.fn.args[2]] = ("lin", 64, size)
        st.size = st.T = size
        self.exec_from(self.fn.blocks[0], None, st)

    def exec_from(self, blk, pred, st):
        work = [(blk, pred, st)]
        while work:
            b, p, s = work.pop()
            self.n += 1
            if self.n > self.MAXSTATES:
                raise Incomplete("state budget exceeded")
            if b in self.heads and self.probe is None or self.probe is not None and b in self.heads and b is not self.probe[0]:
                if p in self.heads[b]:
                    self.close(b, p, s)
                    continue
                nxt = self.open(b, p, s)
                for s2 in nxt:
                    work += self.block(b, p, s2, phis_done=True)
                continue
            if self.probe is not None and b is self.probe[0] and p in self.heads[b]:
                self.probe[1].append((self.phi_in(b, p, s), s))
                continue
            work += self.block(b, p, s)

    def phis(self, b):
        return [i for i in b.insts if i.op == "phi"]

    def phi_in(self, b, p, s):
        return {i: self.val(s, i.ops[i.attr["blocks"].index(p)], i.ty) for i in self.phis(b)}

    def block(self, b, p, s, phis_done=False):
        s = s.copy()
        if not phis_done:
            s.env.update(self.phi_in(b, p, s))
        states = [s]
        for i in b.insts:
            if i.op == "phi":
                continue
            if i is b.insts[-1]:
                break
            nxt = []
            for x in states:
                nxt += self.step(x, i)
            states = nxt
        out = []
        for x in states:
            out += self.term(x, b.insts[-1], b)
        return out

    # ---------------------------------------------------------- loops
    def open(self, b, p, s):
        """states with the loop invariant assumed, verified by close()"""
        entry = self.phi_in(b, p, s)
        self.counts["loops"] += 1
        # probe: how do the phis advance, which comparisons bound them
        sub = Scan(self.fn, self.allowed)
        sub.quiet = True
        ps = s.copy()
        syms = {}
        for n, (ph, v) in enumerate(entry.items()):
            nm = "P%d.%d" % (b.idx, n)
            if v[0] == "lin":
                ps.env[ph] = ("lin", v[1], Lin(0, {nm: 1}))
            elif v[0] == "ptr":
                ps.env[ph] = ("ptr", v[1], Lin(0, {nm: 8}))
            else:
                raise Incomplete("a loop carries a value that is not a position")
            ps.lo[nm] = 0
            syms[ph] = nm
        sub.probe = (b, [])
        sub.heads = {k: v for k, v in self.heads.items()}
        for x in sub.block(b, p, ps, phis_done=True):
            sub.exec_from(*x)
        backs = sub.probe[1]
        # a path on which a comparison pinned a symbol says nothing about the step in general
        loose = [(e, z) for e, z in backs if not any(z.lo.get(n) is not None and z.lo.get(n) == z.hi.get(n) for n in syms.values())]
        backs = loose or backs
        if not backs:
            return [self.with_env(s, entry)]        # never comes back
        step = {}
        for ph in entry:
            ds = set()
            for bv, bs in backs:
                v = bv[ph]
                if v[0] not in ("lin", "ptr"):
                    raise Incomplete("loop step")
                e = v[2]
                c = e.add(Lin(0, {syms[ph]: 8 if v[0] == "ptr" else 1}), -1).const()
                if c is None:
                    # the probe may have fixed the symbol by an exit test; or the advance is not constant
                    raise Incomplete("the loop does not advance by a constant")
                ds.add(c)
            if len(ds) != 1:
                raise Incomplete("the loop advances by different amounts")
            step[ph] = ds.pop()
        main = [ph for ph in entry if step[ph]]
        if not main:
            raise Incomplete("the loop does not advance")
        # iteration number J: phi = entry + step*J; bounds for J from the comparisons the loop makes
        J = "J%d" % b.idx
        cand = []
        for pred, a, c in sub.cmps:
            d = a.add(c, -1)
            for ph in entry:
                x = entry[ph][2].add(Lin(0, {J: step[ph]}))
                if entry[ph][0] == "ptr":
                    x = Lin(x.c // 8, {a: k // 8 for a, k in x.t})
                d = d.subst(syms[ph], x)
            k = d.coef(J)
            if not k:
                continue
            if k < 0:
                d = d.scale(-1)
                k = -k
            rest = d.subst(J, Lin(0))
            if not rest.multiple(k):
                continue
            U = Lin((-rest.c - 1) // k, {x: -v // k for x, v in rest.t})
            for e in (0, 1):
                u = U.add(e)
                if u not in cand and not any(x.startswith(("P", "J")) for x, _ in u.t):
                    cand.append(u)
        dCs = []
        for ph in main:
            x = abs(step[ph])
            x = x // 8 if entry[ph][0] == "ptr" else x
            if (x, 0) not in dCs:
                dCs.append((x, 0))
        dCs += [(0, x) for x, _ in dCs] + [(0, 0)]
        cand.sort(key=lambda u: (u.c, u.t))
        for U in cand + [None]:
            for dC, dT in dCs:
                r = self.try_inv(b, p, s, entry, step, J, U, dC, dT)
                if r is not None:
                    return [r]
        raise Incomplete("no loop invariant")

    def with_env(self, s, env):
        s = s.copy()
        s.env.update(env)
        return s

    def header_state(self, b, s, entry, step, J, U, dC, dT):
        x = s.copy()
        D = "D%d" % b.idx
        for old in (D, J):
            x.lo.pop(old, None)
            x.hi.pop(old, None)
            x.rel.pop(old, None)
        x.lo[J] = 0
        if U is None:
            cnt = Lin(0, {J: 1})
        else:
            lu = x.lower(U)
            if lu is None or lu < 0:
                return None
            cnt = U.add(Lin(0, {D: 1}), -1)
            x.lo[D] = 0
            x.rel[D] = (U, J)
        env = {ph: (v[0], v[1], v[2].add(cnt.scale(step[ph]))) for ph, v in entry.items()}
        r = LoopRec()
        r.phis = env
        r.D = D if U is not None else None
        r.dC = dC
        r.step = step
        x.C = x.C.add(cnt.scale(dC))
        r.C = x.C
        r.dT = dT
        x.T = x.T.add(cnt.scale(-dT))
        r.T = x.T
        x.none = frozenset()
        x.true = ()
        x.env.update(env)
        x.loops[b] = r
        return x

    def try_inv(self, b, p, s, entry, step, J, U, dC, dT):
        x = self.header_state(b, s, entry, step, J, U, dC, dT)
        if x is None:
            return None
        sub = Scan(self.fn, self.allowed)
        sub.quiet = True
        sub.probe = (b, [])
        sub.heads = self.heads
        try:
            for y in sub.block(b, p, x, phis_done=True):
                sub.exec_from(*y)
        except Incomplete:
            return None
        for env, st in sub.probe[1]:
            if not self.preserved(b, env, st):
                return None
        self.counts["loads"] += 0
        return x

    def preserved(self, b, env, st):
        r = st.loops[b]
        for ph, v in env.items():
            h = r.phis[ph]
            if v[0] != h[0] or v[2].add(h[2], -1).const() != r.step[ph]:
                return False
        d = st.C.add(r.C, -1).const()
        if d is None or d < r.dC:
            return False
        d = r.T.add(st.T, -1).const()
        if d is None or d < r.dT:
            return False
        if r.D is not None:
            # one iteration fewer is left: D - 1 must not be negative.  The symbol may have been fixed on this path.
            l = st.lower(Lin(-1, {r.D: 1})) if r.D in st.lo else None
            if st.lo.get(r.D) is None:
                return False
            if l is None or l < 0:
                return False
        return True

    def close(self, b, p, s):
        if not self.preserved(b, self.phi_in(b, p, s), s):
            raise Incomplete("loop invariant not preserved")

    # ---------------------------------------------------------- values
    def val(self, s, v, ty=None):
        if v in s.env:
            return s.env[v]
        w = width(v.ty) if v.kind not in ("func", "alias", "asm", "block") else 0
        if v.kind == "int":
            x = v.val
            return ("lin", w, Lin(x)) if w == 64 or w > 1 else bits_const(x, w)
        if v.kind in ("null", "aggzero"):
            return bits_const(0, w) if v.ty.kind == "vector" else ("lin", w, Lin(0))
        if v.kind in ("undef", "poison"):
            return ("undef", w)
        if v.kind in ("agg", "const", "data", "vec") or v.ops:
            out = ()
            for o in v.ops:
                x = self.val(s, o)
                if x[0] == "lin" and x[2].const() is not None:
                    x = bits_const(x[2].c & ((1 << x[1]) - 1), x[1])
                if x[0] != "bits":
                    raise Incomplete("vector constant")
                out += x[1]
            return ("bits", out)
        if v.kind == "func":
            return ("fn", v.name)
        raise Incomplete("operand %r" % v)

    def as_bits(self, v, w=None):
        if v[0] == "bits":
            return v[1]
        if v[0] == "lin" and v[2].const() is not None:
            return bits_const(v[2].c & ((1 << v[1]) - 1), v[1])[1]
        raise Incomplete("not a mask: %s" % v[0])

    # ---------------------------------------------------------- branches
    def decide(self, s, b):
        """list of (state, truth)"""
        if b == TRUE:
            return [(s, True)]
        if b == FALSE:
            return [(s, False)]
        t, f = s.copy(), s.copy()
        pos, neg = (f, t) if b[0] else (t, f)
        # pos: some conjunction holds; neg: none does
        pos.true = pos.true + ((False, b[1]),)
        neg2 = neg
        for c in b[1]:
            k = about(c)
            if k is not None:
                neg2.none = neg2.none | {k}
        self.advance(neg2)
        return [(t, True), (f, False)]

    def advance(self, s):
        while s.C in s.none:
            s.C = s.C.add(1)
        while s.T.add(-1) in s.none:
            s.T = s.T.add(-1)

    def cmp(self, s, i, pred, a, c):
        """fork on a comparison of linear expressions: list of (state, truth)"""
        self.counts["comparisons"] += 1
        if self.probe is not None:
            self.cmps.append((pred, a, c))
        if pred[0] in "us" and pred not in ("ult", "ule", "ugt", "uge", "slt", "sle", "sgt", "sge"):
            raise Incomplete(pred)
        sides = [(s, a, c)]
        if pred[0] == "u":
            nxt = []
            for st, x, y in sides:
                for st2, x2 in self.sign(st, x):
                    for st3, y2 in self.sign(st2, y):
                        nxt.append((st3, x2, y2))
            sides = nxt
        out = []
        for st, x, y in sides:
            d = x.add(y, -1)
            if pred in ("eq", "ne"):
                out += [(z, t == (pred == "eq")) for z, t in self.eq(st, d)]
                continue
            p = pred[1:]
            e = {"lt": d.scale(-1).add(-1), "le": d.scale(-1), "gt": d.add(-1), "ge": d}[p]
            out += self.ge0(st, e)
        return out

    def sign(self, s, x):
        l = s.lower(x)
        if l is not None and l >= 0:
            return [(s, x)]
        out = []
        a, b = s.copy(), s.copy()
        if a.assume(x):
            out.append((a, x))
        u = s.upper(x)
        if b.assume(x.scale(-1).add(-1)):
            out.append((b, x.add(1 << 64)))
        return out

    def ge0(self, s, e):
        l, u = s.lower(e), s.upper(e)
        if l is not None and l >= 0:
            return [(s, True)]
        if u is not None and u < 0:
            return [(s, False)]
        a, b = s.copy(), s.copy()
        out = []
        if a.assume(e):
            out.append((a, True))
        if b.assume(e.scale(-1).add(-1)):
            out.append((b, False))
        return out

    def eq(self, s, d):
        l, u = s.lower(d), s.upper(d)
        if d.const() is not None:
            return [(s, d.c == 0)]
        if l is not None and l > 0 or u is not None and u < 0:
            return [(s, False)]
        out = []
        a = s.copy()
        if a.assume(d) and a.assume(self.again(a, d).scale(-1)):
            out.append((a, True))
        for e in (d.add(-1), d.scale(-1).add(-1)):
            b = s.copy()
            if b.assume(e):
                out.append((b, False))
        return out

    def again(self, s, d):
        # after an assumption fixed a symbol the expression has to be evaluated with it
        for x, _ in d.t:
            if s.lo.get(x) is not None and s.lo.get(x) == s.hi.get(x):
                d = d.subst(x, Lin(s.lo[x]))
        return d

    # ---------------------------------------------------------- instructions
    def step(self, s, i):
        op = i.op
        if op in ("icmp",):
            return self.icmp(s, i)
        if op == "select":
            c = self.val(s, i.ops[0])
            if c[0] == "bits" and len(c[1]) == 1:
                out = []
                for st, t in self.decide(s, c[1][0]):
                    st = st.copy()
                    st.env[i] = self.val(st, i.ops[1 if t else 2])
                    out.append(st)
                return out
            if c[0] == "bits":
                a, b = self.as_bits(self.val(s, i.ops[1])), self.as_bits(self.val(s, i.ops[2]))
                n = len(a) // len(c[1])
                r = []
                for k, (x, y) in enumerate(zip(a, b)):
                    r.append(b_or(b_and(c[1][k // n], x), b_and(b_not(c[1][k // n]), y)) if y != FALSE else b_and(c[1][k // n], x))
                s = s.copy()
                s.env[i] = ("bits", tuple(r))
                return [s]
            raise Incomplete("select")
        if op == "call" and i.attr["callee"].kind == "func" and i.attr["callee"].name.startswith(("llvm.umin", "llvm.umax")):
            a, b = self.val(s, i.ops[0]), self.val(s, i.ops[1])
            if a[0] == b[0] == "lin":
                out = []
                for st, t in self.cmp(s, i, "uge", a[2], b[2]):
                    st = st.copy()
                    # the comparison may have fixed a symbol: take the operands again
                    st.env[i] = self.val(st, i.ops[1 if t == ("umin" in i.attr["callee"].name) else 0])
                    out.append(st)
                return out
        s = s.copy()
        s.env[i] = self.compute(s, i)
        if s.env[i] is None:
            del s.env[i]
        return [s]

    def icmp(self, s, i):
        a, b = self.val(s, i.ops[0]), self.val(s, i.ops[1])
        pred = i.attr["pred"]
        ty = i.ops[0].ty
        ew = width(ty.elem) if ty.kind == "vector" else width(ty)
        n = width(ty) // ew
        if a[0] == "ptr" and b[0] == "ptr" and a[1] == b[1]:
            a, b = ("lin", 64, a[2]), ("lin", 64, b[2])
        if a[0] == "ptr" and b[0] == "lin" and b[2] == Lin(0):
            s = s.copy()
            s.env[i] = ("bits", (b_not(FALSE) if pred == "ne" else FALSE,))
            return [s]
        if a[0] == "lin" and b[0] == "lin" and n == 1:
            out = []
            for st, t in self.cmp(s, i, pred, a[2], b[2]):
                st = st.copy()
                st.env[i] = ("bits", (TRUE if t else FALSE,))
                out.append(st)
            return out
        s = s.copy()
        if a[0] == "raw" or b[0] == "raw":
            if a[0] != "raw" or b[0] != "raw" or pred not in ("eq", "ne") or ew not in (32, 64):
                raise Incomplete("comparison of table contents")
            if len(a[1]) != len(b[1]):
                raise Incomplete("comparison of table contents of different sizes")
            h = ew // 32
            r = []
            for k in range(n):
                c = TRUE
                for j in range(h):
                    c = b_and(c, self.half_eq(a[1][k * h + j], b[1][k * h + j]))
                r.append(c if pred == "eq" else b_not(c))
            s.env[i] = ("bits", tuple(r))
            return [s]
        if a[0] == "diff" and pred in ("eq", "ne") and b[0] in ("lin", "bits") and all(x == FALSE for x in self.as_bits(b)):
            h = ew // 32
            r = []
            for k in range(n):
                c = TRUE
                for j in range(h):
                    c = b_and(c, a[1][k * h + j])
                r.append(c if pred == "eq" else b_not(c))
            s.env[i] = ("bits", tuple(r))
            return [s]
        if a[0] == "sel" and b[0] == "lin":
            out = []
            for st, v in self.split_sel(s, a):
                st.env[i.ops[0]] = ("lin", a[1], v)
                out += self.icmp(st, i)
            return out
        if a[0] == "bits" or b[0] == "bits":
            x, y = self.as_bits(a), self.as_bits(b)
            r = []
            for k in range(n):
                p, q = x[k * ew:(k + 1) * ew], y[k * ew:(k + 1) * ew]
                if pred in ("eq", "ne"):
                    ne = FALSE
                    for u, v in zip(p, q):
                        d = u if v == FALSE else v if u == FALSE else b_not(u) if v == TRUE else b_not(v) if u == TRUE else FALSE if u == v else None
                        if d is None:
                            raise Incomplete("comparison of masks")
                        ne = b_or(ne, d)
                    r.append(ne if pred == "ne" else b_not(ne))
                elif pred == "slt" and all(v == FALSE for v in q):
                    r.append(p[-1])
                elif pred == "sgt" and all(v == TRUE for v in q):
                    r.append(b_not(p[-1]))
                elif pred == "sgt" and all(v == FALSE for v in p):
                    r.append(q[-1])
                elif pred == "ugt" and all(v == FALSE for v in q):
                    ne = FALSE
                    for u in p:
                        ne = b_or(ne, u)
                    r.append(ne)
                else:
                    raise Incomplete("comparison %s of masks" % pred)
            s.env[i] = ("bits", tuple(r))
            return [s]
        raise Incomplete("comparison of %s and %s" % (a[0], b[0]))

    def half_eq(self, a, b):
        if a[0] == "addr" and b[0] == "tab":
            a, b = b, a
        if a == b:
            return TRUE
        if a[0] == "tab" and b[0] == "addr":
            if a[2] != b[2]:
                # low half against high half: some other condition, which says nothing about the entry
                return (False, frozenset([frozenset([("x" + a[2], a[1])])]))
            return (False, frozenset([frozenset([(a[2], a[1])])]))
        raise Incomplete("comparison of table entries with each other")

    def split_sel(self, s, v):
        out = []
        st = s.copy()
        for b, x in v[2]:
            for z, t in self.decide(st, b):
                if t:
                    out.append((z.copy(), x))
                else:
                    st = z
        if v[3] is not None:
            out.append((st.copy(), v[3]))
        return out

    def sel_map(self, v, f, w=None):
        return ("sel", w or v[1], tuple((b, f(x)) for b, x in v[2]), None if v[3] is None else f(v[3]))

    def compute(self, s, i):
        op = i.op
        if op == "call":
            return self.call(s, i)
        V = [self.val(s, o) for o in i.ops]
        if op in ("bitcast", "freeze"):
            return V[0] if not (V[0][0] == "lin" and i.ty.kind == "vector") else ("bits", self.as_bits(V[0]))
        if op == "ptrtoint":
            return ("lin", 64, V[0][2]) if False else V[0]
        if op == "inttoptr":
            return V[0]
        if op == "gep":
            off, var = llvm.gep_offset(i)
            if V[0][0] == "raw":
                raise Incomplete("arithmetic on the searched address")
            if V[0][0] != "ptr":
                raise Incomplete("address arithmetic")
            e = V[0][2].add(off)
            for ix, sc in var:
                x = self.val(s, ix)
                if x[0] != "lin":
                    raise Incomplete("table index is not a position")
                e = e.add(x[2].scale(sc))
            return ("ptr", V[0][1], e)
        if op == "load":
            return self.load(s, i, V[0])
        if op == "extractvalue":
            raise Incomplete("aggregate")
        if op in ("insertelement", "extractelement", "shufflevector"):
            return self.vec(s, i, V)
        w = width(i.ty)
        if op in ("zext", "sext", "trunc"):
            sw = width(i.ops[0].ty)
            v = V[0]
            n = 1
            if i.ty.kind == "vector":
                n = i.ty.count
            if v[0] == "bits":
                a, b = sw // n, w // n
                r = []
                for k in range(n):
                    lane = list(v[1][k * a:(k + 1) * a])
                    if b <= a:
                        lane = lane[:b]
                    else:
                        lane += [lane[-1] if op == "sext" else FALSE] * (b - a)
                    r += lane
                return ("bits", tuple(r))
            if v[0] in ("raw", "diff") and op == "trunc" and n == 1 and w == 32:
                return (v[0], v[1][:1])
            if v[0] == "sel":
                if op == "trunc" and any(x.const() is None or x.c >= 1 << w for _, x in v[2]):
                    self.find("index-truncated", i, "an index is truncated to %d bits" % w, s)
                return self.sel_map(v, lambda x: x, w)
            if v[0] == "lin":
                if op == "trunc":
                    c = v[2].const()
                    if c is not None:
                        return ("lin", w, Lin(c & ((1 << w) - 1)))
                    self.find("index-truncated", i, "a position or size is truncated to %d bits, so a large table is searched wrongly" % w, s)
                    raise Stop()
                return ("lin", w, v[2])
            raise Incomplete("%s of %s" % (op, v[0]))
        if op in ("add", "sub", "or", "and", "xor", "shl", "lshr", "ashr", "mul", "udiv"):
            return self.arith(s, i, op, V[0], V[1], w)
        if op == "fence":
            return None
        raise Incomplete("instruction %s" % op)

    def arith(self, s, i, op, a, b, w):
        if a[0] == b[0] == "raw" and op == "xor" and len(a[1]) == len(b[1]):
            return ("diff", tuple(self.half_eq(x, y) for x, y in zip(a[1], b[1])))
        if a[0] == "diff" and op == "and" and b[0] in ("lin", "bits"):
            x = self.as_bits(b)
            if all(len(set(x[k:k + 32])) == 1 for k in range(0, len(x), 32)):
                return ("diff", tuple(c if x[32 * k] == TRUE else TRUE for k, c in enumerate(a[1])))
        if a[0] == "diff" and op in ("shl", "lshr") and b[0] == "lin" and b[2].const() == 32 and len(a[1]) == 2:
            return ("diff", (TRUE, a[1][0]) if op == "shl" else (a[1][1], TRUE))
        if i.ty.kind == "vector" or a[0] == "bits" and b[0] in ("bits", "lin") or b[0] == "bits" and a[0] == "lin":
            if op in ("and", "or", "xor"):
                x, y = self.as_bits(a), self.as_bits(b)
                if op == "and":
                    return ("bits", tuple(b_and(p, q) for p, q in zip(x, y)))
                if op == "or":
                    return ("bits", tuple(b_or(p, q) for p, q in zip(x, y)))
                r = []
                for p, q in zip(x, y):
                    if q == TRUE:
                        r.append(b_not(p))
                    elif p == TRUE:
                        r.append(b_not(q))
                    elif q == FALSE:
                        r.append(p)
                    elif p == FALSE:
                        r.append(q)
                    else:
                        raise Incomplete("xor of masks")
                return ("bits", tuple(r))
            if op in ("shl", "lshr") and b[0] == "lin" and b[2].const() is not None and i.ty.kind != "vector":
                k = b[2].c
                x = self.as_bits(a)
                if op == "lshr":
                    return ("bits", x[k:] + (FALSE,) * min(k, len(x)))
                return ("bits", (FALSE,) * k + x[:len(x) - k])
            raise Incomplete("%s of masks" % op)
        if a[0] == "lin" and b[0] == "sel" and op in ("add", "or"):
            a, b = b, a
        if a[0] == "sel":
            if b[0] != "lin":
                raise Incomplete("%s of an index" % op)
            k = b[2]
            if op == "add":
                return self.sel_map(a, lambda x: x.add(k))
            if op == "sub":
                return self.sel_map(a, lambda x: x.add(k, -1))
            c = k.const()
            cs = [x.const() for _, x in a[2]] + ([a[3].const()] if a[3] is not None else [])
            if op == "or":
                m = max(cs) if None not in cs else None
                g = 1
                while m is not None and g <= m:
                    g *= 2
                if self.probe is not None:
                    pass            # a probe only proposes the steps; they are verified afterwards
                elif m is None or not (k.multiple(g) and k.c % g == 0):
                    raise Incomplete("or of an index")
                return self.sel_map(a, lambda x: x.add(k))
            if c is None or None in cs:
                raise Incomplete("%s of an index" % op)
            f = {"lshr": lambda x: x >> c, "shl": lambda x: x << c, "and": lambda x: x & c, "mul": lambda x: x * c, "udiv": lambda x: x // c if c else 0, "xor": lambda x: x ^ c}.get(op)
            if f is None:
                raise Incomplete("%s of an index" % op)
            return self.sel_map(a, lambda x: Lin(f(x.c) & ((1 << w) - 1)))
        if a[0] == "deleg" and b[0] == "lin" and op == "add":
            return ("deleg", a[1].add(b[2]), a[2])
        if b[0] == "deleg" and a[0] == "lin" and op == "add":
            return ("deleg", b[1].add(a[2]), b[2])
        if a[0] == "ptr" and b[0] == "ptr" and op == "sub" and a[1] == b[1]:
            return ("lin", 64, a[2].add(b[2], -1))
        if a[0] == "ptr" and b[0] == "lin" and op in ("add", "sub"):
            return ("ptr", a[1], a[2].add(b[2], 1 if op == "add" else -1))
        if a[0] != "lin" or b[0] != "lin":
            raise Incomplete("%s of %s and %s" % (op, a[0], b[0]))
        x, y = a[2], b[2]
        if op == "add":
            if y.const() is not None and y.c >= 1 << (w - 1):
                y = y.add(-(1 << w))
            return ("lin", w, x.add(y))
        if op == "sub":
            return ("lin", w, x.add(y, -1))
        if op == "or":
            for p, q in ((x, y), (y, x)):
                c = q.const()
                if c is not None and c >= 0:
                    g = 1
                    while g <= c:
                        g *= 2
                    if p.multiple(g) and p.c % g == 0:
                        return ("lin", w, p.add(c))
                    if p.multiple(g):
                        return ("lin", w, Lin((p.c & ~(g - 1)) + ((p.c % g) | c), p.t))
            if self.probe is not None:
                return ("lin", w, x.add(y))
            raise Incomplete("or of positions")
        c = y.const()
        if op == "and" and c is None:
            x, y = y, x
            c = y.const()
        if op == "mul" and c is None:
            x, y = y, x
            c = y.const()
        if c is None:
            raise Incomplete("%s of positions" % op)
        if op == "and":
            c &= (1 << w) - 1
            inv = ~c & ((1 << w) - 1)
            if inv & (inv + 1) == 0:        # ...1110000
                g = inv + 1
                if x.multiple(g):
                    return ("lin", w, Lin(x.c // g * g, x.t))
            if c & (c + 1) == 0:            # 000...111
                g = c + 1
                if x.multiple(g):
                    return ("lin", w, Lin(x.c % g))
            if c == 0:
                return ("lin", w, Lin(0))
            cc = c
            g = 1
            while g <= cc:
                g *= 2
            if x.multiple(g):
                return ("lin", w, Lin(x.c & c))
            # a mask of high bits with a bounded top: x & 0x...f0 with x below 2^k
            k = c.bit_length()
            if 16 <= k < w and (c | inv & ((c & -c) - 1)) == (1 << k) - 1:
                u = s.upper(x)
                if u is None or u >= 1 << k:
                    self.find("index-truncated", i, "a position or size is reduced to %d bits, so a large table is searched wrongly" % k, s)
                    raise Stop()
            raise Incomplete("and of positions with %#x" % c)
        if op == "mul":
            return ("lin", w, x.scale(c))
        if op == "shl":
            return ("lin", w, x.scale(1 << c))
        if op in ("lshr", "udiv", "ashr"):
            g = c if op == "udiv" else 1 << c
            if x.multiple(g):
                return ("lin", w, Lin(x.c // g, {k: v // g for k, v in x.t}))
        raise Incomplete("%s of positions" % op)

    def vec(self, s, i, V):
        op = i.op
        if op == "insertelement":
            ew = width(i.ops[1].ty)
            k = V[2][2].const()
            base, e = V[0], V[1]
            n = width(i.ty) // ew
            if e[0] == "raw":
                h = ew // 32
                cells = list(base[1]) if base[0] == "raw" else [("undef", Lin(0), "")] * (n * h)
                cells[k * h:(k + 1) * h] = e[1]
                return ("raw", tuple(cells))
            x = list(self.as_bits(base)) if base[0] != "undef" else [FALSE] * (n * ew)
            x[k * ew:(k + 1) * ew] = self.as_bits(e)
            return ("bits", tuple(x))
        if op == "extractelement":
            ew = width(i.ty)
            k = V[1][2].const()
            if V[0][0] == "raw":
                h = ew // 32
                return ("raw", V[0][1][k * h:(k + 1) * h])
            return ("bits", self.as_bits(V[0])[k * ew:(k + 1) * ew])
        ew = width(i.ops[0].ty.elem)
        n = i.ops[0].ty.count
        a, b = V[0], V[1]
        mask = i.attr["mask"]
        if "raw" in (a[0], b[0]):
            if ew % 32:
                raise Incomplete("shuffle of parts of table entries")
            h = ew // 32
            und = (("undef", Lin(0), ""),) * (n * h)
            x = (a[1] if a[0] == "raw" else und) + (b[1] if b[0] == "raw" else und)
            r = ()
            for m in mask:
                r += x[m * h:(m + 1) * h] if m >= 0 else (("undef", Lin(0), ""),) * h
            return ("raw", r)
        if a[0] == "undef" and b[0] == "undef":
            return ("undef", width(i.ty))
        x = (tuple(self.as_bits(a)) if a[0] != "undef" else (FALSE,) * (n * ew)) + (tuple(self.as_bits(b)) if b[0] != "undef" else (FALSE,) * (n * ew))
        r = ()
        for m in mask:
            if 0 <= m:
                r += x[m * ew:(m + 1) * ew]
            else:
                r += (FALSE,) * ew
        return ("bits", r)

    def load(self, s, i, p):
        if p[0] != "ptr" or p[1] != "table":
            raise Incomplete("load from something other than the table")
        w = width(i.ty) // 8
        off = p[2]
        self.counts["loads"] += 1
        al = i.attr.get("align") or 1
        if al > 16 or not off.multiple(al) or off.c % al:
            self.find("misaligned-access", i, "a %d byte access assumes %d byte alignment at byte offset %s of the table" % (w, al, off), s)
        if w % 8 or not off.multiple(8) or off.c % 8:
            raise Incomplete("access to a part of an entry")
        k0 = Lin(off.c // 8, {a: v // 8 for a, v in off.t})
        lo = s.lower(k0)
        # the table has room for the next even number of entries
        lim = s.size.add(s.size.c & 1)
        rest = s.lower(lim.add(k0, -1).add(-(w // 8)))
        if lo is None or lo < 0 or rest is None or rest < 0:
            self.find("read-outside-table", i, "entries %s to %s are read, the table has %s" % (k0, k0.add(w // 8 - 1), s.size), s)
        cells = []
        for k in range(w // 8):
            cells += [("tab", k0.add(k), "lo"), ("tab", k0.add(k), "hi")]
        return ("raw", tuple(cells))

    def call(self, s, i):
        c = i.attr["callee"]
        if c.kind == "asm":
            return self.asm(s, i, c)
        n = c.name if c.kind in ("func", "alias") else ""
        V = None
        if n.startswith("llvm."):
            if n.startswith(("llvm.dbg", "llvm.lifetime", "llvm.experimental.noalias", "llvm.prefetch", "llvm.donothing")):
                return None
            if n.startswith("llvm.assume"):
                return None
            V = [self.val(s, o) for o in i.ops]
            if n.startswith("llvm.cttz"):
                b = self.as_bits(V[0]) if V[0][0] != "sel" else None
                if b is None:
                    raise Incomplete("cttz of an index")
                w = len(b)
                zp = self.as_bits(V[1])[0] == TRUE
                seen, r = set(), []
                for k, x in enumerate(b):
                    if x == FALSE or x in seen:
                        continue
                    seen.add(x)
                    r.append((x, Lin(k)))
                anyb = FALSE
                for x, _ in r:
                    anyb = b_or(anyb, x)
                if r and r[-1][0] == TRUE:
                    return ("sel", width(i.ty), tuple(r), None)
                known = any(t[1] <= anyb[1] or t == anyb for t in s.true)
                if not known and zp:
                    self.find("count-of-zero", i, "the position of the lowest set bit of a mask that may be zero", s)
                return ("sel", width(i.ty), tuple(r), None if known or zp else Lin(w))
            if n == "llvm.x86.sse2.packssdw.128" or n == "llvm.x86.sse2.packsswb.128" or n.startswith("llvm.x86.sse2.packuswb"):
                iw = 32 if "ssdw" in n else 16
                r = []
                for v in V[:2]:
                    x = self.as_bits(v)
                    for k in range(len(x) // iw):
                        lane = x[k * iw:(k + 1) * iw]
                        if len(set(lane)) != 1:
                            raise Incomplete("saturating pack of a lane that is not a mask")
                        if "uswb" in n:
                            r += [FALSE] * (iw // 2)
                        else:
                            r += list(lane[:iw // 2])
                return ("bits", tuple(r))
            if n.startswith(("llvm.x86.sse2.pmovmskb", "llvm.x86.sse.movmsk.ps", "llvm.x86.sse2.movmsk.pd")):
                x = self.as_bits(V[0])
                ew = 8 if "pmovmskb" in n else 32 if ".ps" in n else 64
                r = [x[k + ew - 1] for k in range(0, len(x), ew)]
                return ("bits", tuple(r + [FALSE] * (width(i.ty) - len(r))))
            if n.startswith(("llvm.x86.sse41.ptestz",)):
                r = FALSE
                for p, q in zip(self.as_bits(V[0]), self.as_bits(V[1])):
                    r = b_or(r, b_and(p, q))
                return ("bits", (b_not(r),) + (FALSE,) * 31)
            if n.startswith("llvm.vector.reduce.or"):
                x = self.as_bits(V[0])
                w = width(i.ty)
                r = [FALSE] * w
                for k in range(0, len(x), w):
                    r = [b_or(p, q) for p, q in zip(r, x[k:k + w])]
                return ("bits", tuple(r))
            if n.startswith(("llvm.umin", "llvm.umax")) and V[0][0] == V[1][0] == "lin":
                d = V[0][2].add(V[1][2], -1)
                l, u = s.lower(d), s.upper(d)
                if l is not None and l >= 0:
                    return V[1] if "umin" in n else V[0]
                if u is not None and u <= 0:
                    return V[0] if "umin" in n else V[1]
            raise Incomplete("call of %s" % n)
        d = llvm.demangle(n) or "?"
        short = d.split("(")[0].split("::")[-1]
        if short.startswith("find_address") and len(i.ops) == 3:
            V = [self.val(s, o) for o in i.ops]
            if short not in self.allowed:
                raise Incomplete("call of %s" % short)
            if V[0] != self_addr():
                self.find("delegated-wrongly", i, "%s is asked for another address" % short, s)
                raise Stop()
            if V[1][0] != "ptr" or V[2][0] != "lin" or not V[1][2].multiple(8) or V[1][2].c % 8:
                raise Incomplete("arguments of %s" % short)
            K = Lin(V[1][2].c // 8, {a: v // 8 for a, v in V[1][2].t})
            if K.add(V[2][2]) != s.size:
                self.find("delegated-wrongly", i, "%s searches entries from %s, %s of them, of %s" % (short, K, V[2][2], s.size), s)
            return ("deleg", Lin(0), K)
        raise Incomplete("call of %s" % short)

    def asm(self, s, i, c):
        text, cons = c.val
        t = text.replace("\n", " ").replace("\t", " ").split()
        V = [self.val(s, o) for o in i.ops]
        if t and t[0] in ("pand", "vpand", "andps", "vandps", "andpd", "por", "vpor", "orps") and len(V) == 2 and text.count("\n") <= 1:
            ops = "".join(t[1:]).split(",")
            if sorted(set(ops)) in (["$0", "$1"], ["$0", "$2"]) and ops[-1] == "$0":
                f = b_or if "or" in t[0] else b_and
                return ("bits", tuple(f(p, q) for p, q in zip(self.as_bits(V[0]), self.as_bits(V[1]))))
        raise Incomplete("assembly: %s" % text.strip())

    # ---------------------------------------------------------- block ends
    def term(self, s, i, b):
        if i.op == "br":
            if len(b.succs) == 1 or not i.ops:
                return [(b.succs[0], b, s)]
            c = self.as_bits(self.val(s, i.ops[0]))[0]
            out = []
            for st, t in self.decide(s, c):
                st.trail = st.trail + (("%s: %s" % ("taken" if t else "not taken", "branch"), i.loc),) if len(st.trail) < 12 else st.trail
                out.append((b.succs[0 if t else 1], b, st))
            return out
        if i.op == "switch":
            v = self.val(s, i.ops[0])
            if v[0] != "lin":
                raise Incomplete("switch on %s" % v[0])
            out = []
            rest = [s]
            for val, dst in i.attr["cases"]:
                nr = []
                for st in rest:
                    for z, t in self.cmp(st, i, "eq", v[2], Lin(val)):
                        if t:
                            out.append((dst, b, z))
                        else:
                            nr.append(z)
                rest = nr
            return out + [(i.attr["default"], b, z) for z in rest]
        if i.op == "ret":
            self.ret(s, i)
            return []
        if i.op == "unreachable":
            return []
        raise Incomplete("terminator %s" % i.op)

    def ret(self, s, i):
        if self.probe is not None:
            return
        self.counts["paths"] += 1
        v = self.val(s, i.ops[0])
        size = s.size
        if v[0] == "deleg":
            if v[1] != v[2]:
                self.find("wrong-index", i, "the result of searching from entry %s is returned plus %s" % (v[2], v[1]), s)
            d = s.lower(s.C.add(v[2], -1))
            if d is None or d < 0:
                self.find("entries-not-searched", i, "entries %s to %s are not searched" % (s.C, v[2].add(-1)), s)
            return
        if v[0] == "lin":
            k = v[2]
            for t in s.true:
                if full(t) == k:
                    return self.found(s, i, k, frozenset())
            return self.notfound(s, i, k, frozenset())
        if v[0] == "sel":
            earlier = set()
            for b, x in v[2]:
                if b == TRUE:
                    self.notfound(s, i, x, frozenset(earlier))
                    return
                k = full(b)
                if k is None:
                    ks = {about(c) for c in b[1]}
                    self.find("match-without-equality", i, "entry %s is reported although only a part of the address was compared" % ", ".join(str(z) for z in ks) if None not in ks else
                              "a mask bit does not correspond to one entry", s)
                    return
                if k != x:
                    self.find("wrong-index", i, "a match of entry %s is reported as index %s" % (k, x), s)
                    return
                if not self.found(s, i, k, frozenset(earlier)):
                    return
                for c in b[1]:
                    earlier.add(about(c))
            if v[3] is not None:
                self.notfound(s, i, v[3], frozenset(earlier))
            return
        raise Incomplete("result %s" % v[0])

    def found(self, s, i, k, extra):
        d = s.lower(s.size.add(k, -1).add(-1))
        if d is not None and d >= 0:
            return True
        # the entry may be the unused one after the last: nothing before it may match
        n = 0
        j = k.add(-1)
        while n < 64:
            b = s.lower(s.C.add(j, -1).add(-1))
            if b is not None and b >= 0:
                break
            if j not in extra and j not in s.none:
                self.find("unused-entry-hides-match", i, "a match of the unused entry %s is reported before entry %s has been looked at" % (k, j), s)
                return False
            j = j.add(-1)
            n += 1
        u = s.lower(k.add(s.size, -1))
        # when k is not certainly beyond the size it is either a real entry or the unused one: both are fine
        return True

    def notfound(self, s, i, k, extra):
        d = s.lower(k.add(s.size, -1))
        if d is None or d < 0:
            self.find("wrong-index", i, "index %s is returned without a match of that entry (size %s)" % (k, s.size), s)
            return
        c = s.C
        n = 0
        while n < 64:
            r = s.lower(c.add(s.T, -1))
            if r is not None and r >= 0:
                return
            if c in extra or c in s.none:
                c = c.add(1)
                n += 1
                continue
            break
        self.find("entries-not-searched", i, "'not found' is returned without having looked at entry %s (size %s)" % (c, s.size), s)


class Stop(Exception):
    """the path was reported; nothing more can be said about it"""


def self_addr():
    return ("raw", (("addr", Lin(0), "lo"), ("addr", Lin(0), "hi")))


def back_edges(fn):
    """loop header -> set of latches"""
    out = {}
    color = {}
    stack = [(fn.blocks[0], iter(fn.blocks[0].succs))]
    color[fn.blocks[0]] = 1
    while stack:
        b, it = stack[-1]
        for x in it:
            if color.get(x) == 1:
                out.setdefault(x, set()).add(b)
            elif x not in color:
                color[x] = 1
                stack.append((x, iter(x.succs)))
                break
        else:
            color[b] = 2
            stack.pop()
    return out


def analyse(fn, lower, residues=range(64)):
    """(findings, counts): the search function over every size"""
    findings, counts = [], {}
    for r in residues:
        sc = Scan(fn, lower)
        try:
            sc.run(Lin(r, {"Q": 64}))
        except Stop:
            pass
        findings += [(rule, loc, "%s (size = 64*Q + %d)" % (msg, r), trail) for rule, loc, msg, trail in sc.findings]
        for k, v in sc.counts.items():
            counts[k] = counts.get(k, 0) + v
    return findings, counts
