"""Decides equality of two value terms whose canonical forms differ.
Bitwise-only terms: complete per-bit truth table.  Small total symbol width:
complete enumeration.  Otherwise: refutation by evaluating both terms at fixed
corner valuations; None means neither proved nor refuted."""
import struct, itertools, random
from . import terms as T

CORNERS = [0, 1, 2, 3, 5, 0x55555555555555555555555555555555, 0xaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa, 0x7f, 0x80, 0xff, 0x7fff, 0x8000, 0xffff,
           0x7fffffff, 0x80000000, 0xffffffff, 0x7fffffffffffffff, 0x8000000000000000, 0xffffffffffffffff, (1 << 127) - 1, 1 << 127, (1 << 128) - 1,
           0x3f8000003f800000, 0x3ff0000000000000, 0x4000000000000000, 0x123456789abcdef0fedcba9876543210]


class Unknown(Exception):
    pass


def ev(t, m, memo):
    r = memo.get(t)
    if r is None:
        r = _ev(t, m, memo) & ((1 << t[1]) - 1)
        memo[t] = r
    return r


def sx(v, w):
    return v - (1 << w) if v >> (w - 1) else v


def _ev(t, m, memo):
    o, w = t[0], t[1]
    E = lambda x: ev(x, m, memo)
    if o == "c":
        return t[2]
    if o == "s":
        return m(t)
    if o == "lin":
        return t[2] + sum(c * E(x) for c, x in t[3])
    if o == "mul":
        return E(t[2]) * E(t[3])
    if o == "and":
        r = -1
        for x in t[2]:
            r &= E(x)
        return r
    if o == "or":
        r = 0
        for x in t[2]:
            r |= E(x)
        return r
    if o == "xor":
        r = 0
        for x in t[2]:
            r ^= E(x)
        return r
    if o in ("zext", "trunc"):
        return E(t[2])
    if o == "sext":
        return sx(E(t[2]), t[2][1])
    if o == "ext":
        return E(t[2]) >> t[3]
    if o == "shl":
        n = E(t[3])
        return E(t[2]) << n if n < w else 0
    if o == "lshr":
        n = E(t[3])
        return E(t[2]) >> n if n < w else 0
    if o == "ashr":
        n = E(t[3])
        return sx(E(t[2]), w) >> min(n, w - 1)
    if o == "bit":
        return E(t[2]) >> E(t[3])
    if o == "lnot":
        return 1 - E(t[2])
    if o == "icmp":
        a, b = E(t[3]), E(t[4])
        if t[2][0] == "s":
            a, b = sx(a, t[3][1]), sx(b, t[4][1])
        return int({"eq": a == b, "ult": a < b, "slt": a < b}[t[2]])
    if o == "sel":
        return E(t[3]) if E(t[2]) else E(t[4])
    if o == "bcmp":
        return 0 if E(t[2]) == E(t[3]) else 1
    if o in ("fadd", "fsub", "fmul", "fdiv") and w in (32, 64):
        f = "<f" if w == 32 else "<d"
        a = struct.unpack(f, E(t[2]).to_bytes(w // 8, "little"))[0]
        b = struct.unpack(f, E(t[3]).to_bytes(w // 8, "little"))[0]
        try:
            r = {"fadd": lambda: a + b, "fsub": lambda: a - b, "fmul": lambda: a * b, "fdiv": lambda: a / b}[o]()
            return int.from_bytes(struct.pack(f, r), "little")
        except (OverflowError, ZeroDivisionError):
            raise Unknown
    if o == "op" and t[2] in ("udiv", "sdiv", "urem", "srem"):
        a, b = E(t[3]), E(t[4])
        if b == 0:
            raise Unknown
        if t[2][0] == "s":
            a, b = sx(a, w), sx(b, w)
        q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
        return q if t[2].endswith("div") else a - b * q
    if o == "op":
        # uninterpreted: a hash of the operation and the argument values (functional consistency)
        return hash((t[2],) + tuple(E(x) if isinstance(x, tuple) else x for x in t[3:])) & ((1 << w) - 1)
    if o in ("fadd", "fmul", "fsub", "fdiv", "fabs"):
        vs = [E(x) for x in t[2:]]
        if o in ("fadd", "fmul"):
            vs.sort()
        return hash((o,) + tuple(vs)) & ((1 << w) - 1)
    raise Unknown


def symterms(t, acc):
    if t[0] == "s":
        acc.add(t)
        return
    for x in t[2:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and len(x) > 1 and isinstance(x[1], int):
                symterms(x, acc)
            else:
                for y in x:
                    if isinstance(y, tuple):
                        if len(y) == 2 and isinstance(y[0], int):
                            symterms(y[1], acc)
                        elif y:
                            symterms(y, acc)


def bitwise_only(t, w):
    if t[1] != w:
        return False
    if t[0] in ("s", "c"):
        return True
    if t[0] in ("and", "or", "xor"):
        return all(bitwise_only(x, w) for x in t[2])
    if t[0] == "lin" and T._is_plain_not(t):
        return bitwise_only(T.not_(t), w)
    return False


# ---- linear normal form with split words rejoined
_nmemo = {}


def norm(t):
    r = _nmemo.get(t)
    if r is None:
        r = _norm(t)
        if len(_nmemo) > 200000:
            _nmemo.clear()
        _nmemo[t] = r
    return r


def _norm(t):
    o, w = t[0], t[1]
    if o in ("c", "s"):
        return t
    if o == "zext" or o == "lin":
        parts = {}
        const = 0
        items = list(t[3]) if o == "lin" else [(1, t)]
        if o == "lin":
            const = t[2]
        ch = False
        m = (1 << w) - 1
        while items:
            c, x = items.pop()
            c &= m
            if not c:
                continue
            if x[0] == "zext":
                i = x[2]
                n = i[1]
                if i[0] == "trunc" and i[2][1] == w:
                    # zext(trunc_n X) == X - 2^n * zext(X >> n)
                    X = i[2]
                    ch = True
                    items.append((c, X))
                    items.append((-c << n, T.zext(T.extract(X, n, w - n), w)))
                    continue
                if i[0] == "ext" and i[2][1] == w and i[3] + n == w and not c & ((1 << i[3]) - 1):
                    # 2^k * zext(X >> k) == X - zext(trunc_k X), when the truncation has a form of its own
                    X, k = i[2], i[3]
                    lo = T.trunc(X, k)
                    if lo[0] != "trunc":
                        ch = True
                        items.append((c >> k, X))
                        items.append((-(c >> k), T.zext(lo, w)))
                        continue
                sh = (c & -c).bit_length() - 1
                if i[0] == "lin" and sh + n >= w:
                    ch = True
                    const += c * i[2]
                    for c2, x2 in i[3]:
                        items.append((c * c2, T.zext(x2, w)))
                    continue
            parts[x] = parts.get(x, 0) + c
        if ch:
            # atoms were rewritten: rebuild through the constructors (extract of an extract etc. simplify there)
            return T._mklin(w, const, parts)
        if o == "lin":
            r = T.C(w, t[2])
            for c, x in t[3]:
                r = T.add(r, T.scale(norm(x), c))
            return r if r == t else _norm(r) if r[0] == "lin" else r
        return T.zext(norm(t[2]), w)
    return T.subst_children(t, norm)


# ---- per-bit functions: complete for and/or/xor/not/shift-by-constant/extract/concat
class TooBig(Exception):
    pass


ZERO = ((), 0)
ONE = ((), 1)


def bf_reduce(vs, tt):
    n = len(vs)
    i = 0
    while i < n:
        # does the function depend on variable i ?
        lo = hi = 0
        k = 0
        lo_t, hi_t = 0, 0
        for idx in range(1 << n):
            bit = (tt >> idx) & 1
            rest = (idx & ((1 << i) - 1)) | ((idx >> (i + 1)) << i)
            if (idx >> i) & 1:
                hi_t |= bit << rest
            else:
                lo_t |= bit << rest
        if lo_t == hi_t:
            vs = vs[:i] + vs[i + 1:]
            tt = lo_t
            n -= 1
        else:
            i += 1
    return (vs, tt)


def bf_op(f, a, b):
    if not a[0] and not b[0]:
        return ((), f(a[1], b[1]) & 1)
    vs = tuple(sorted(set(a[0]) | set(b[0]), key=repr))
    if len(vs) > 6:
        raise TooBig
    n = len(vs)
    tt = 0
    ia = [vs.index(v) for v in a[0]]
    ib = [vs.index(v) for v in b[0]]
    for idx in range(1 << n):
        xa = sum(((idx >> p) & 1) << k for k, p in enumerate(ia))
        xb = sum(((idx >> p) & 1) << k for k, p in enumerate(ib))
        if f((a[1] >> xa) & 1, (b[1] >> xb) & 1) & 1:
            tt |= 1 << idx
    return bf_reduce(vs, tt)


def bf_not(a):
    return (a[0], ((1 << (1 << len(a[0]))) - 1) ^ a[1])


AND = lambda x, y: x & y
OR = lambda x, y: x | y
XOR = lambda x, y: x ^ y
_bmemo = {}


def bits(t):
    r = _bmemo.get(t)
    if r is None:
        r = _bits(t)
        if len(_bmemo) > 50000:
            _bmemo.clear()
        _bmemo[t] = r
    return r


def atom(t):
    k = norm(t)
    return [((("v", k, i),), 2) for i in range(t[1])]


def _bits(t):
    o, w = t[0], t[1]
    if o == "c":
        return [((), (t[2] >> i) & 1) for i in range(w)]
    if o == "s":
        return [((("v", t, i),), 2) for i in range(w)]
    if o in ("and", "or", "xor"):
        f = {"and": AND, "or": OR, "xor": XOR}[o]
        vs = [bits(x) for x in t[2]]
        out = vs[0]
        for v in vs[1:]:
            out = [bf_op(f, a, b) for a, b in zip(out, v)]
        return out
    if o == "zext":
        return bits(t[2]) + [ZERO] * (w - t[2][1])
    if o == "sext":
        b = bits(t[2])
        return b + [b[-1]] * (w - t[2][1])
    if o == "trunc":
        return bits(t[2])[:w]
    if o == "ext":
        return bits(t[2])[t[3]:t[3] + w]
    if o == "lnot":
        return [bf_not(bits(t[2])[0])]
    if o == "bit" and T.isc(t[3]) and t[3][2] < t[2][1]:
        return [bits(t[2])[t[3][2]]]
    if o == "sel":
        c = bits(t[2])[0]
        a, b = bits(t[3]), bits(t[4])
        n = bf_not(c)
        return [bf_op(OR, bf_op(AND, c, x), bf_op(AND, n, y)) for x, y in zip(a, b)]
    if o == "lin":
        if T._is_plain_not(t):
            return [bf_not(x) for x in bits(T.not_(t))]
        parts = []
        if t[2]:
            parts.append(bits(T.C(w, t[2])))
        ok = True
        for c, x in t[3]:
            if c & (c - 1):
                ok = False
                break
            s = c.bit_length() - 1
            parts.append(([ZERO] * s + bits(x))[:w])
        if ok:
            out = []
            for col in zip(*parts):
                nz = [x for x in col if x != ZERO]
                if len(nz) > 1:
                    # carry free only when mutually exclusive
                    acc = nz[0]
                    for x in nz[1:]:
                        if bf_op(AND, acc, x) != ZERO:
                            ok = False
                            break
                        acc = bf_op(OR, acc, x)
                    if not ok:
                        break
                    out.append(acc)
                else:
                    out.append(nz[0] if nz else ZERO)
            if ok:
                return out
        if t[2] and w > 1:
            # adding the top bit flips it
            top = 1 << (w - 1)
            if t[2] & top:
                r = bits(T.sub(t, T.C(w, top)))
                return r[:-1] + [bf_not(r[-1])]
        return atom(t)
    if o == "icmp" and t[2] == "eq":
        d = []
        for x, y in zip(bits(t[3]), bits(t[4])):
            z = bf_op(XOR, x, y)
            if z == ONE:
                return [ZERO]
            if z != ZERO:
                d.append(z)
        if not d:
            return [ONE]
        d = sorted(set(d), key=repr)
        if len(d) == 1:
            return [bf_not(d[0])]
        return [((("eq", tuple(d)),), 2)]
    return atom(t)


def equal(a, b, s=None):
    """True / False / None"""
    if a == b:
        return True
    if a[1] != b[1]:
        return False
    if norm(a) == norm(b):
        return True
    try:
        if bits(a) == bits(b):
            return True
        if bits(norm(a)) == bits(norm(b)):
            return True
    except TooBig:
        pass
    syms = set()
    symterms(a, syms)
    symterms(b, syms)
    syms = sorted(syms, key=T.key)
    facts = list(s.facts.items()) if s is not None else []

    def holds(m, memo):
        for t, v in facts:
            try:
                if not (T.symbols(t) <= names):
                    continue
                if bool(ev(t, m, memo)) != v:
                    return False
            except Unknown:
                continue
        return True
    names = set()
    for x in syms:
        names |= T.symbols(x)
    fs = set()
    for t, v in facts:
        if T.symbols(t) & names:
            symterms(t, fs)
    allsyms = sorted(set(syms) | fs, key=T.key)
    names = set()
    for x in allsyms:
        names |= T.symbols(x)
    try:
        w = a[1]
        if bitwise_only(a, w) and bitwise_only(b, w) and len(syms) <= 6 and not any(T.symbols(t) & names for t, v in facts):
            vals = []
            masks = [0] * len(syms)
            # one bit column per valuation, constants folded per bit: complete because bits do not interact
            for asg in itertools.product((0, (1 << w) - 1), repeat=len(syms)):
                d = dict(zip(syms, asg))
                memo = {}
                if ev(a, d.__getitem__, memo) != ev(b, d.__getitem__, memo):
                    return False
            return True
        tot = sum(x[1] for x in allsyms)
        if tot <= 14:
            for asg in itertools.product(*[range(1 << x[1]) for x in allsyms]):
                d = dict(zip(allsyms, asg))
                memo = {}
                if not holds(d.__getitem__, memo):
                    continue
                if ev(a, d.__getitem__, memo) != ev(b, d.__getitem__, memo):
                    return False
            return True
        rnd = random.Random(12345)
        pool = [c for c in CORNERS]
        tries = []
        if len(allsyms) == 1:
            tries = [(c,) for c in pool]
        elif len(allsyms) == 2:
            tries = list(itertools.product(pool, pool))
        else:
            tries = [tuple(rnd.choice(pool) for _ in allsyms) for _ in range(600)]
        tries += [tuple([x] * len(allsyms)) for x in pool]
        tries += [tuple(rnd.getrandbits(128) for _ in allsyms) for _ in range(200)]
        n = 0
        for asg in tries:
            d = {x: v & ((1 << x[1]) - 1) for x, v in zip(allsyms, asg)}
            memo = {}
            try:
                if not holds(d.__getitem__, memo):
                    continue
                n += 1
                if ev(a, d.__getitem__, memo) != ev(b, d.__getitem__, memo):
                    return False
            except Unknown:
                continue
        return None
    except Unknown:
        return None
