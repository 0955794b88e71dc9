"""Small numeric abstract domains on the value terms: known bits of a word, and
linear inequalities over sizes (polyhedra, decided by Fourier-Motzkin
elimination).  Both answer 'provable' or 'not provable' and never guess."""
from functools import lru_cache
from . import terms as T


# ---------------------------------------------------------------- known bits
@lru_cache(maxsize=100000)
def kbits(t):
    """(mask of bits whose value is known, their values)"""
    w = t[1]
    full = (1 << w) - 1
    o = t[0]
    if o == "c":
        return full, t[2]
    if o == "and" and w > 0:
        one, zero = full, 0
        for x in t[2]:
            m, v = kbits(x)
            one &= m & v
            zero |= m & ~v
        return (one | zero) & full, one
    if o == "or":
        one, zero = 0, full
        for x in t[2]:
            m, v = kbits(x)
            one |= m & v
            zero &= m & ~v
        return (one | zero) & full, one & full
    if o == "xor":
        m, v = full, 0
        for x in t[2]:
            a, b = kbits(x)
            m &= a
            v ^= b
        return m, v & m
    if o == "zext":
        m, v = kbits(t[2])
        return m | (full & ~((1 << t[2][1]) - 1)), v
    if o == "lin":
        # known low bits of a modular sum; and above them when carries cannot occur
        acc_m, acc_v = full, t[2]
        for c, x in t[3]:
            m, v = kbits(x)
            k = (c & -c).bit_length() - 1
            if c == 1 << k:
                m, v = ((m << k) | ((1 << k) - 1)) & full, (v << k) & full
            else:
                n = low(m, w)
                m, v = ((1 << min(w, n + k)) - 1) & full, (v * c) & full
                v &= m
            acc_m, acc_v = kadd(acc_m, acc_v, m, v, w)
        return acc_m, acc_v & acc_m
    if o == "sel":
        a, b = kbits(t[3]), kbits(t[4])
        m = a[0] & b[0] & ~(a[1] ^ b[1]) & full
        return m, a[1] & m
    return 0, 0


def low(m, w):
    n = 0
    while n < w and (m >> n) & 1:
        n += 1
    return n


def kadd(m1, v1, m2, v2, w):
    """known bits of a sum, tracking whether the carry into each bit is known"""
    m = v = 0
    ck, c = True, 0
    for n in range(w):
        k1, k2 = (m1 >> n) & 1, (m2 >> n) & 1
        b1, b2 = (v1 >> n) & 1, (v2 >> n) & 1
        if k1 and k2 and ck:
            s = b1 + b2 + c
            m |= 1 << n
            v |= (s & 1) << n
            c = s >> 1
            continue
        # carry out: known when two of the three inputs are known and equal
        kn = [b for k, b in ((k1, b1), (k2, b2), (ck, c)) if k]
        if kn.count(0) >= 2:
            ck, c = True, 0
        elif kn.count(1) >= 2:
            ck, c = True, 1
        else:
            ck = False
    return m, v


def sharpen(op, x, y, r):
    """result r of x op y simplified with known bits"""
    if T.isc(r):
        return r
    m, v = kbits(r)
    w = r[1]
    full = (1 << w) - 1
    if m == full:
        return T.C(w, v)
    if op in ("and", "or") and (T.isc(x) or T.isc(y)):
        k, z = (x, y) if T.isc(x) else (y, x)
        m, v = kbits(z)
        if op == "and":
            cl = full & ~k[2]
            if m & cl == cl:
                return T.sub(z, T.C(w, v & cl))
        elif m & k[2] == k[2]:
            return T.add(z, T.C(w, k[2] & ~v))
    return r


# ---------------------------------------------------------------- linear inequalities over sizes
def lin(t, memo=None):
    """(const, {atom: coef}) over the integers; constants are read as signed"""
    if t[0] == "c":
        return T.sval(t), {}
    if t[0] == "lin":
        m = 1 << t[1]

        def sg(c):
            return c - m if c >> (t[1] - 1) else c
        d = {}
        k = sg(t[2])
        for c, x in t[3]:
            k2, d2 = lin(x)
            k += sg(c) * k2
            for a, c2 in d2.items():
                d[a] = d.get(a, 0) + sg(c) * c2
        return k, {a: c for a, c in d.items() if c}
    return 0, {t: 1}


def lsub(a, b):
    k = a[0] - b[0]
    d = dict(a[1])
    for x, c in b[1].items():
        d[x] = d.get(x, 0) - c
        if not d[x]:
            del d[x]
    return k, d


def ladd(a, b):
    return lsub(a, (-b[0], {x: -c for x, c in b[1].items()}))


def lscale(a, n):
    return a[0] * n, {x: c * n for x, c in a[1].items()}


def infeasible(ineqs, limit=3000):
    """no rational point satisfies every (const + sum >= 0)"""
    cur = []
    for k, d in ineqs:
        d = {x: c for x, c in d.items() if c}
        if not d:
            if k < 0:
                return True
            continue
        cur.append((k, d))
    while True:
        vs = {}
        for k, d in cur:
            for x, c in d.items():
                p, n = vs.get(x, (0, 0))
                vs[x] = (p + (c > 0), n + (c < 0))
        if not vs:
            return False
        x = min(vs, key=lambda v: (vs[v][0] * vs[v][1] - vs[v][0] - vs[v][1], repr(v)))
        pos = [q for q in cur if q[1].get(x, 0) > 0]
        neg = [q for q in cur if q[1].get(x, 0) < 0]
        rest = [q for q in cur if not q[1].get(x, 0)]
        seen = set()
        for p in pos:
            for n in neg:
                a, b = p[1][x], -n[1][x]
                k = p[0] * b + n[0] * a
                d = {}
                for y, c in p[1].items():
                    d[y] = d.get(y, 0) + c * b
                for y, c in n[1].items():
                    d[y] = d.get(y, 0) + c * a
                d = {y: c for y, c in d.items() if c}
                if not d:
                    if k < 0:
                        return True
                    continue
                key = (k, tuple(sorted(((repr(y), c) for y, c in d.items()))))
                if key not in seen:
                    seen.add(key)
                    rest.append((k, d))
        cur = rest
        if len(cur) > limit:
            return False


class Sizes:
    """the linear facts of one path.  Atoms are 64-bit terms taken as non-negative mathematical integers: sizes of
    objects that fit the address space, so the sums of a few of them do not wrap."""

    def __init__(self, facts, extra=()):
        self.ineqs = list(extra)
        self.ne = []
        self.memo = {}
        for t, v in facts.items():
            if t[0] != "icmp" or t[3][1] != 64:
                continue
            a, b = lin(t[3]), lin(t[4])
            p = t[2]
            if p == "eq":
                if v:
                    self.ineqs += [lsub(a, b), lsub(b, a)]
                else:
                    self.ne.append(lsub(a, b))
            elif p in ("ult", "slt"):
                if v:
                    self.ineqs.append(lsub(lsub(b, a), (1, {})))
                else:
                    self.ineqs.append(lsub(a, b))
        # x <= y and x != y gives x < y
        again = True
        left = list(self.ne)
        while again:
            again = False
            for d in list(left):
                for s in (1, -1):
                    e = lscale(d, s)
                    if self.nonneg(e):
                        self.ineqs.append(lsub(e, (1, {})))
                        self.memo.clear()
                        left.remove(d)
                        again = True
                        break

    def atoms(self, e):
        s = set(e[1])
        for k, d in self.ineqs:
            s |= set(d)
        return s

    def nonneg(self, e):
        key = (e[0], frozenset(e[1].items()))
        r = self.memo.get(key)
        if r is None:
            q = self.ineqs + [(0, {x: 1}) for x in self.atoms(e)] + [(-e[0] - 1, {x: -c for x, c in e[1].items()})]
            r = self.memo[key] = infeasible(q)
        return r

    def le(self, a, b):
        return self.nonneg(lsub(b, a))

    def eq(self, a, b):
        d = lsub(a, b)
        if not d[1]:
            return d[0] == 0
        return self.nonneg(d) and self.nonneg(lscale(d, -1))

    def differ(self, a, b, align=1):
        """provably different"""
        d = lsub(a, b)
        if not d[1]:
            return d[0] != 0
        if self.nonneg(lsub(d, (1, {}))) or self.nonneg(lsub(lscale(d, -1), (1, {}))):
            return True
        for n in self.ne:
            for k in {align, 1, -align, -1}:
                if lscale(n, k) == d:
                    return True
            if self.eq(d, n) or self.eq(d, lscale(n, -1)) or self.eq(d, lscale(n, align)) or self.eq(d, lscale(n, -align)):
                return True
        return False
