"""Bit-vector value terms with a canonical form (value numbering).

A term is an immutable tuple (op, width, ...).  Smart constructors keep a
normal form: modular linear combinations for + - * and 'not', flattened
sorted operand sets for & | ^, canonical comparisons, concatenations folded
into linear form.  Floating point values are carried as their bit patterns,
with uninterpreted fp operators, so a bitcast is the identity.  Two values are
considered equal when their normal forms are identical: sound (never equates
different values), deliberately incomplete."""
from functools import lru_cache


def C(w, v):
    return ("c", w, v & ((1 << w) - 1))


def S(w, name):
    return ("s", w, name)


def width(t):
    return t[1]


def isc(t):
    return t[0] == "c"


def sval(t):
    v = t[2]
    return v - (1 << t[1]) if v >> (t[1] - 1) else v


@lru_cache(maxsize=200000)
def key(t):
    return repr(t)


TRUE = ("c", 1, 1)
FALSE = ("c", 1, 0)


def _lin_parts(t):
    if t[0] == "c":
        return t[2], {}
    if t[0] == "lin":
        return t[2], dict((x, c) for c, x in t[3])
    return 0, {t: 1}


def _mklin(w, const, parts):
    m = (1 << w) - 1
    const &= m
    items = [(c & m, x) for x, c in parts.items() if c & m]
    if not items:
        return C(w, const)
    if const == 0 and len(items) == 1 and items[0][0] == 1:
        return items[0][1]
    if len(items) > 1:
        j = _rejoin(w, items)
        if j is not None:
            return _mklin(w, const, j)
        j = _rehigh(w, items) or (_carry(w, items) if w > 32 else None)
        if j is not None:
            return add(add(j[0], j[1]), C(w, const))
    items.sort(key=lambda p: key(p[1]))
    return ("lin", w, const, tuple(items))


def _slice(x):
    """zext of consecutive bits of some term -> (term, first bit, number)"""
    if x[0] != "zext":
        return None
    i = x[2]
    if i[0] == "ext":
        return i[2], i[3], i[1]
    if i[0] == "trunc":
        return i[2], 0, i[1]
    return None


def _rejoin(w, items):
    """c*zext(X[lo:+k]) + (c<<k)*zext(X[lo+k:+n])  ==  c*zext(X[lo:+k+n])"""
    by = {}
    for c, x in items:
        v = _slice(x)
        if v is not None:
            by[(v[0], v[1])] = (c, x, v[2])
    if len(by) < 2:
        return None
    m = (1 << w) - 1
    for (X, lo), (c, x, k) in by.items():
        o = by.get((X, lo + k))
        if o is None or o[0] != (c << k) & m or k + o[2] > w:
            continue
        parts = {y: d for d, y in items if y is not x and y is not o[1]}
        z = extract(X, lo, k + o[2])
        if z[0] == "lin":
            continue
        z = zext(z, w) if z[1] < w else z
        if z[0] in ("lin", "c"):
            continue
        parts[z] = parts.get(z, 0) + c
        return parts
    return None


def _rehigh(w, items):
    """c*(X & ~(2^k-1)) + c*zext(X[0:k])  ==  c*X"""
    m = (1 << w) - 1
    for c, x in items:
        if x[0] != "and":
            continue
        k = [y[2] for y in x[2] if isc(y)]
        if len(k) != 1 or not k[0]:
            continue
        n = (k[0] & -k[0]).bit_length() - 1
        if n == 0 or k[0] != m & ~((1 << n) - 1):
            continue
        Y = and_(*[y for y in x[2] if not isc(y)])
        lowY = None
        for d, z in items:
            if d == c and z[0] == "zext" and z[2][1] <= n:
                if lowY is None:
                    lowY = trunc(Y, n)
                if zext(z[2], n) == lowY:
                    return _mklin(w, 0, {y: e for e, y in items if y is not x and y is not z}), scale(Y, c)
    return None


def _not_of(t):
    """x when t is ~x"""
    if t[0] == "lin" and t[2] == (1 << t[1]) - 1 and len(t[3]) == 1 and t[3][0][0] == t[2]:
        return t[3][0][1]
    return None


def _zx(t, w):
    """zext, distributed over a complement"""
    x = _not_of(t)
    if x is not None:
        return add(neg(zext(x, w)), C(w, (1 << t[1]) - 1))
    return zext(t, w)


def _bothhalves(L, H, k):
    """the term whose low k bits are L and whose bits from k on are H, both the same bitwise operation"""
    lo = list(L[2])
    out = []
    for h in H[2]:
        if h[0] == "ext" and h[3] == k and h[2][1] == k + h[1]:
            l, z = trunc(h[2], k), h[2]
        elif isc(h):
            l = next((x for x in lo if isc(x)), None)
            z = C(k + h[1], (h[2] << k) | l[2]) if l is not None else None
        else:
            return None
        if l not in lo:
            return None
        lo.remove(l)
        out.append(z)
    if lo:
        return None
    r = {"and": and_, "or": or_, "xor": xor}[L[0]](*out)
    return r if r[0] not in ("lin",) else None


def _carry(w, items):
    """c*zext(L) + (c<<k)*zext(H): the halves of an addition, subtraction or complement done
    in two parts, where H holds the carry  L = P + Q,  L ult P  or the borrow  L = P - Q,  P ult Q"""
    m = (1 << w) - 1
    for cl, xl in items:
        if xl[0] != "zext" or xl[2][0] not in ("lin", "and", "or", "xor"):
            continue
        L = xl[2]
        k = L[1]
        for ch, xh in items:
            if xh is xl or ch != (cl << k) & m or xh[0] != "zext" or xh[2][1] + k < w:
                continue
            H = xh[2]
            rest = _mklin(w, 0, {y: e for e, y in items if y is not xl and y is not xh})
            if L[0] != "lin":
                z = _bothhalves(L, H, k) if H[0] == L[0] and k + H[1] == w else None
                if z is not None:
                    return rest, scale(z, cl)
                continue
            a, b = _not_of(L), _not_of(H)
            if a is not None and b is not None:
                r = add(neg(add(zext(a, w), scale(zext(b, w), 1 << k))), C(w, (1 << (k + H[1])) - 1))
                return rest, scale(r, cl)
            for g, y in (H[3] if H[0] == "lin" else ((1, H),)):
                if y[0] != "zext":
                    continue
                y1, flip = y[2], False
                if y1[0] == "lnot":
                    y1, flip = y1[2], True
                if y1[0] != "icmp" or y1[3][1] != k:
                    continue
                p, q = y1[3], y1[4]
                if y1[2] == "eq" and isc(q) and q[2] == 0:
                    # x == 0  is  x ult 1,  x != 0  is  0 ult x
                    p, q = (C(k, 0), p) if flip else (p, C(k, 1))
                elif y1[2] != "ult" or flip:
                    continue
                if g == 1 and p == L:
                    lo = add(_zx(q, w), _zx(sub(L, q), w))
                elif g == (1 << H[1]) - 1 and sub(p, q) == L:
                    lo = add(_zx(p, w), neg(_zx(q, w)))
                else:
                    continue
                hi = add(H, scale(y, -g))
                hc, hp = _lin_parts(hi)
                H2 = C(w, hc)
                for z, e in hp.items():
                    H2 = add(H2, scale(zext(z, w), e if e < 1 << (H[1] - 1) else e - (1 << H[1])))
                return rest, scale(add(lo, scale(H2, 1 << k)), cl)
    return None


def add(a, b):
    w = a[1]
    if w == 1:
        return xor(a, b)
    ca, pa = _lin_parts(a)
    cb, pb = _lin_parts(b)
    for x, c in pb.items():
        pa[x] = pa.get(x, 0) + c
    return _mklin(w, ca + cb, pa)


def scale(a, k):
    w = a[1]
    ca, pa = _lin_parts(a)
    # a part  zext(lo)*1 and the like stay as they are
    return _mklin(w, ca * k, {x: c * k for x, c in pa.items()})


def neg(a):
    return scale(a, -1)


def sub(a, b):
    return add(a, neg(b))


def not_(a):
    if a[1] == 1:
        return lnot(a)
    return add(neg(a), C(a[1], -1))


def mul(a, b):
    if isc(a):
        return scale(b, a[2])
    if isc(b):
        return scale(a, b[2])
    if key(b) < key(a):
        a, b = b, a
    return ("mul", a[1], a, b)


def _flat(op, ts):
    out = []
    for t in ts:
        if t[0] == op:
            out.extend(t[2])
        else:
            out.append(t)
    return out


def _is_not_of(a, b):
    return a == not_(b)


def and_(*ts):
    w = ts[0][1]
    m = (1 << w) - 1
    k = m
    rest = []
    for t in _flat("and", ts):
        if isc(t):
            k &= t[2]
        elif t not in rest:
            rest.append(t)
    if k == 0 or not rest:
        return C(w, k if not rest else 0)
    for i, a in enumerate(rest):
        for b in rest[i + 1:]:
            if _is_not_of(a, b):
                return C(w, 0)
    if k != m:
        # low mask: and(x, 2^n-1) == zext(trunc_n x)
        if k & (k + 1) == 0:
            n = k.bit_length()
            inner = and_(*rest) if len(rest) > 1 else rest[0]
            return zext(trunc(inner, n), w)
        if len(rest) == 1:
            # drop mask bits already known zero
            kz = known_zero(rest[0])
            k2 = k & ~kz & m
            if k2 == 0:
                return C(w, 0)
            if (k2 | kz) & m == m:
                return rest[0]
            k = k2
        if k & (k + 1) == 0 and k != m:
            n = k.bit_length()
            inner = and_(*rest) if len(rest) > 1 else rest[0]
            return zext(trunc(inner, n), w)
        rest.append(C(w, k))
    if len(rest) == 1:
        return rest[0]
    if all(r[0] == "zext" for r in rest):
        n = max(r[2][1] for r in rest)
        mn = min(r[2][1] for r in rest)
        return zext(and_(*[trunc(r, mn) for r in rest]), w)
    rest.sort(key=key)
    return ("and", w, tuple(rest))


def known_zero(t):
    """mask of bits known to be zero"""
    w = t[1]
    m = (1 << w) - 1
    o = t[0]
    if o == "c":
        return ~t[2] & m
    if o == "zext":
        return (known_zero(t[2]) | ~((1 << t[2][1]) - 1)) & m
    if o == "and":
        r = 0
        for x in t[2]:
            r |= known_zero(x)
        return r
    if o in ("or", "xor"):
        r = m
        for x in t[2]:
            r &= known_zero(x)
        return r
    if o == "lin":
        # 2^k * x keeps k low zeros; disjoint sum of parts
        r = None
        if t[2] == 0:
            zs = []
            for c, x in t[3]:
                if c & (c - 1):
                    # generic: low zeros only
                    tz = (c & -c).bit_length() - 1
                    zs.append((1 << tz) - 1)
                else:
                    s = c.bit_length() - 1
                    zs.append(((known_zero(x) << s) | ((1 << s) - 1)) & m)
            # disjointness
            nz = 0
            ok = True
            for z in zs:
                p = ~z & m
                if p & nz:
                    ok = False
                nz |= p
            if ok:
                return ~nz & m
            if len(zs) == 1:
                return zs[0]
        low = m
        tzs = [((c & -c).bit_length() - 1) for c, x in t[3]]
        if t[2]:
            tzs.append((t[2] & -t[2]).bit_length() - 1)
        return (1 << min(tzs)) - 1
    if o == "lshr" and isc(t[3]):
        s = t[3][2]
        return ((known_zero(t[2]) >> s) | ~(m >> s)) & m
    if o == "sel":
        return known_zero(t[3]) & known_zero(t[4])
    return 0


def or_(*ts):
    w = ts[0][1]
    m = (1 << w) - 1
    k = 0
    rest = []
    for t in _flat("or", ts):
        if isc(t):
            k |= t[2]
        elif t not in rest:
            rest.append(t)
    if k == m or not rest:
        return C(w, k)
    for i, a in enumerate(rest):
        for b in rest[i + 1:]:
            if _is_not_of(a, b):
                return C(w, m)
    allp = rest + ([C(w, k)] if k else [])
    if len(allp) == 1:
        return allp[0]
    # disjoint or == add
    if w > 1:
        nz = 0
        dis = True
        for t in allp:
            p = ~known_zero(t) & m
            if p & nz:
                dis = False
                break
            nz |= p
        if dis:
            r = allp[0]
            for t in allp[1:]:
                r = add(r, t)
            return r
    if all(r[0] == "zext" or isc(r) for r in allp):
        n = max([r[2][1] for r in allp if r[0] == "zext"])
        if all((not isc(r)) or r[2] < (1 << n) for r in allp) and n < w:
            return zext(or_(*[trunc(r, n) for r in allp]), w)
    allp.sort(key=key)
    return ("or", w, tuple(allp))


def xor(*ts):
    w = ts[0][1]
    m = (1 << w) - 1
    k = 0
    cnt = {}
    order = []
    for t in _flat("xor", ts):
        if isc(t):
            k ^= t[2]
        else:
            if t not in cnt:
                order.append(t)
            cnt[t] = cnt.get(t, 0) ^ 1
    rest = [t for t in order if cnt[t]]
    if w == 1:
        # pull negations out of the operands
        out = []
        for t in rest:
            n = _lneg(t)
            if n is not None:
                k ^= 1
                out.append(n)
            else:
                out.append(t)
        rest = out
        if len(rest) == 2 and rest[0] == rest[1]:
            rest = []
        if len(rest) == 1:
            return lnot(rest[0]) if k else rest[0]
    if not rest:
        return C(w, k)
    if k == m and w > 1:
        # xor with all ones is 'not'
        inner = xor(*rest)
        return not_(inner)
    if k == 1 << (w - 1) and w > 1:
        # flipping the top bit is adding it
        return add(xor(*rest) if len(rest) > 1 else rest[0], C(w, k))
    allp = rest + ([C(w, k)] if k else [])
    if len(allp) == 1:
        return allp[0]
    if w > 1 and any(known_zero(t) for t in allp):
        nz = 0
        dis = True
        for t in allp:
            p = ~known_zero(t) & m
            if p & nz:
                dis = False
                break
            nz |= p
        if dis:
            r = allp[0]
            for t in allp[1:]:
                r = add(r, t)
            return r
    if all(r[0] == "zext" or isc(r) for r in allp) and any(r[0] == "zext" for r in allp):
        n = max([r[2][1] for r in allp if r[0] == "zext"])
        if all((not isc(r)) or r[2] < (1 << n) for r in allp) and n < w:
            return zext(xor(*[trunc(r, n) for r in allp]), w)
    allp.sort(key=key)
    return ("xor", w, tuple(allp))


def _lneg(t):
    """if t (width 1) is in negated form return its positive form"""
    if t[0] == "lnot":
        return t[2]
    return None


_NEG = {"ne": "eq"}


def lnot(t):
    if isc(t):
        return FALSE if t[2] else TRUE
    if t[0] == "lnot":
        return t[2]
    if t[0] == "icmp":
        p = t[2]
        inv = {"ult": "uge", "ugt": "ule", "slt": "sge", "sgt": "sle"}
        if p in inv:
            return icmp(inv[p], t[3], t[4])
    return ("lnot", 1, t)


def zext(a, w):
    if w == a[1]:
        return a
    if isc(a):
        return C(w, a[2])
    if a[0] == "zext":
        return ("zext", w, a[2])
    if a[0] == "lin" and _disjoint(a):
        # a concatenation: no carry, so the extension distributes over the parts
        parts = {}
        for c, x in a[3]:
            z = zext(x, w)
            if z[0] in ("c", "lin"):
                return ("zext", w, a)
            parts[z] = c
        return _mklin(w, a[2], parts)
    return ("zext", w, a)


@lru_cache(maxsize=50000)
def _disjoint(t):
    m = (1 << t[1]) - 1
    used = t[2]
    for c, x in t[3]:
        if c & (c - 1):
            return False
        k = c.bit_length() - 1
        p = ~known_zero(x) & ((1 << x[1]) - 1)
        p <<= k
        if p & used or p > m:
            return False
        used |= p
    return True


def sext(a, w):
    if w == a[1]:
        return a
    if isc(a):
        return C(w, sval(a))
    if a[0] == "sext":
        return ("sext", w, a[2])
    if a[0] == "zext" and a[2][1] < a[1]:
        return zext(a[2], w)
    if a[1] == 1:
        return neg(zext(a, w))
    return ("sext", w, a)


def trunc(a, w):
    if w == a[1]:
        return a
    o = a[0]
    if o == "c":
        return C(w, a[2])
    if o in ("zext", "sext"):
        i = a[2]
        if w == i[1]:
            return i
        if w < i[1]:
            return trunc(i, w)
        return zext(i, w) if o == "zext" else sext(i, w)
    if o == "trunc":
        return trunc(a[2], w)
    if o == "lin":
        r = C(w, a[2])
        m = (1 << w) - 1
        for c, x in a[3]:
            if c & m:
                r = add(r, scale(trunc(x, w), c))
        return r
    if o == "mul":
        return mul(trunc(a[2], w), trunc(a[3], w))
    if o in ("and", "or", "xor"):
        f = {"and": and_, "or": or_, "xor": xor}[o]
        return f(*[trunc(x, w) for x in a[2]])
    if o == "sel":
        return sel(a[2], trunc(a[3], w), trunc(a[4], w))
    if o == "shl":
        # low bits of a shift depend on low bits only
        return shl_nofold(trunc(a[2], w), a[3])
    if o in ("lshr", "ashr") and isc(a[3]):
        s = a[3][2]
        # extracting bits [s, s+w) of a[2]
        r = _extract(a[2], s, w)
        if r is not None:
            return r
    if w == 1:
        if o == "lshr":
            return bit(a[2], a[3])
        return bit(a, C(8, 0))
    return ("trunc", w, a)


def _extract(t, lo, w):
    """bits [lo, lo+w) of t if it simplifies, else None"""
    o = t[0]
    if lo == 0:
        return trunc(t, w)
    if o == "zext":
        i = t[2]
        if lo >= i[1]:
            return C(w, 0)
        if lo + w <= i[1]:
            return extract(i, lo, w)
        return zext(extract(i, lo, i[1] - lo), w)
    if o == "c":
        return C(w, t[2] >> lo)
    if o == "sel":
        x, y = _extract(t[3], lo, w), _extract(t[4], lo, w)
        return sel(t[2], x, y) if x is not None and y is not None else None
    if o in ("and", "or", "xor"):
        parts = [_extract(x, lo, w) for x in t[2]]
        if all(p is not None for p in parts):
            f = {"and": and_, "or": or_, "xor": xor}[o]
            return f(*parts)
        return None
    if o == "lin":
        # disjoint concatenation: each part occupies its own bit range
        W = t[1]
        # multiples of 2**(lo+w) do not reach the window
        parts = [(c, x) for c, x in t[3] if c & ((1 << (lo + w)) - 1)]
        m = (1 << W) - 1
        nz = []
        if t[2]:
            parts = parts + [(None, C(W, t[2]))]
        tot = 0
        for c, x in parts:
            if c is None:
                p = x[2]
            else:
                if c & (c - 1):
                    return None
                s = c.bit_length() - 1
                p = ((~known_zero(x) & m) << s) & m
            if p & tot:
                return None
            tot |= p
            nz.append(p)
        res = []
        win = ((1 << w) - 1) << lo
        for (c, x), p in zip(parts, nz):
            if not (p & win):
                continue
            if c is None:
                res.append(C(w, x[2] >> lo))
                continue
            s = c.bit_length() - 1
            if s >= lo:
                q = trunc(x, w) if x[1] >= w else zext(x, w)
                if s - lo:
                    q = scale(q, 1 << (s - lo))
                res.append(q)
            else:
                n = min(w, x[1] - (lo - s))
                if n <= 0:
                    continue
                q = extract(x, lo - s, n)
                res.append(zext(q, w) if n < w else q)
        if not res:
            return C(w, 0)
        r = res[0]
        for q in res[1:]:
            r = add(r, q)
        return r
    if o == "lshr" and isc(t[3]):
        s = t[3][2]
        if s + lo + w <= t[1]:
            return extract(t[2], s + lo, w)
    if o == "ext":
        return extract(t[2], t[3] + lo, w)
    return None


def extract(t, lo, w):
    if lo == 0:
        return trunc(t, w)
    r = _extract(t, lo, w)
    if r is not None:
        return r
    if w == 1:
        return bit(t, C(8, lo))
    return ("ext", w, t, lo)


def concat(parts):
    """little-endian list of terms -> one term"""
    w = sum(p[1] for p in parts)
    r = C(w, 0)
    lo = 0
    i = 0
    # merge adjacent extracts of the same source
    merged = []
    for p in parts:
        if merged:
            a = merged[-1]
            src, l0 = _ext_view(a)
            src2, l1 = _ext_view(p)
            if src is not None and src == src2 and l0 + a[1] == l1:
                merged[-1] = extract(src, l0, a[1] + p[1])
                continue
        merged.append(p)
    for p in merged:
        z = zext(p, w) if p[1] < w else p
        r = add(r, scale(z, 1 << lo)) if lo else (add(r, z))
        lo += p[1]
    return r


def _ext_view(t):
    if t[0] == "ext":
        return t[2], t[3]
    if t[0] == "trunc":
        return t[2], 0
    if t[0] == "s":
        return t, 0
    return None, 0


def _shamt(b):
    while b[0] in ("zext",):
        b = b[2]
    return b


def shl_nofold(a, b):
    if isc(b):
        if b[2] >= a[1]:
            return C(a[1], 0)
        return scale(a, 1 << b[2])
    if isc(a) and a[2] == 0:
        return a
    return ("shl", a[1], a, _shamt(b))


def shl(a, b):
    return shl_nofold(a, b)


def lshr(a, b):
    w = a[1]
    if isc(b):
        s = b[2]
        if s == 0:
            return a
        if s >= w:
            return C(w, 0)
        return zext(extract(a, s, w - s), w)
    return ("lshr", w, a, _shamt(b))


def ashr(a, b):
    w = a[1]
    if isc(b):
        s = b[2]
        if s == 0:
            return a
        if known_zero(a) >> (w - 1):
            return lshr(a, b)
        if isc(a):
            return C(w, sval(a) >> min(s, w - 1))
        if s < w:
            return sext(extract(a, s, w - s), w)
    return ("ashr", w, a, _shamt(b))


def bit(a, n):
    """bit n of a (i1)"""
    n = _shamt(n)
    while a[0] in ("zext", "ext", "trunc"):
        if a[0] == "zext":
            if isc(n) and n[2] >= a[2][1]:
                return FALSE
            a = a[2]
        elif not isc(n):
            if a[0] == "ext":
                break
            a = a[2]
        elif a[0] == "ext":
            n = C(8, n[2] + a[3])
            a = a[2]
        else:
            a = a[2]
    if isc(n):
        if a[1] == 1:
            return a if n[2] == 0 else FALSE
        if isc(a):
            return TRUE if (a[2] >> n[2]) & 1 else FALSE
        if a[0] == "lin" and n[2] == 0:
            # low bit of a sum is the xor of low bits
            r = TRUE if a[2] & 1 else FALSE
            for c, x in a[3]:
                if c & 1:
                    r = xor(r, bit(x, n))
            return r
        n = C(8, n[2])
    # bit n of (1<<n') xor..: bit of not
    if a[0] == "lin" and _is_plain_not(a):
        return lnot(bit(not_(a), n))
    return ("bit", 1, a, n)


def _is_plain_not(a):
    m = (1 << a[1]) - 1
    return a[2] == m and len(a[3]) == 1 and a[3][0][0] == m


def icmp(p, a, b):
    w = a[1]
    if p == "ne":
        return lnot(icmp("eq", a, b))
    if p == "eq":
        if a == b:
            return TRUE
        if isc(a) and isc(b):
            return TRUE if a[2] == b[2] else FALSE
        if isc(a):
            a, b = b, a
        if w == 1:
            if isc(b):
                return a if b[2] else lnot(a)
            return lnot(xor(a, b))
        if isc(b):
            if a[0] == "bcmp" and b[2] == 0:
                return icmp("eq", a[2], a[3])
            if a[0] == "zext":
                i = a[2]
                if b[2] >= (1 << i[1]):
                    return FALSE
                return icmp("eq", i, C(i[1], b[2]))
            if a[0] == "sext":
                i = a[2]
                if C(w, sval(C(i[1], b[2]))) == b:
                    return icmp("eq", i, C(i[1], b[2]))
                return FALSE
            if known_zero(a) & b[2]:
                return FALSE
            # single-bit tests
            if a[0] == "and":
                r = _bittest(a)
                if r is not None:
                    if b[2] == 0:
                        return lnot(r)
                if b[2] == 0 and isc(a[2][-1]) is False:
                    cs = [x for x in a[2] if isc(x)]
                else:
                    cs = [x for x in a[2] if isc(x)]
                if cs and len(a[2]) == 2:
                    k = cs[0][2]
                    if k & (k - 1) == 0:
                        x = [x for x in a[2] if not isc(x)][0]
                        bt = bit(x, C(8, k.bit_length() - 1))
                        if b[2] == 0:
                            return lnot(bt)
                        if b[2] == k:
                            return bt
            if a[0] == "sel":
                x = icmp("eq", a[3], b)
                y = icmp("eq", a[4], b)
                if isc(x) and isc(y):
                    if x == y:
                        return x
                    return a[2] if x == TRUE else lnot(a[2])
            if a[0] == "lin" and b[2] == 0 and a[2] == 0 and len(a[3]) == 1 and a[3][0][0] & 1:
                return icmp("eq", a[3][0][1], b)
            if a[0] == "lin" and b[2] == 0 and a[2] == 0:
                # disjoint concatenation equals zero iff every part is zero -- keep whole
                pass
            if a[0] == "lin" and (a[2] or b[2]):
                # move the constant right
                a2 = _mklin(w, 0, dict((x, c) for c, x in a[3]))
                b2 = C(w, b[2] - a[2])
                if a2[0] != "lin":
                    return icmp("eq", a2, b2)
                if len(a2[3]) == 1 and a2[3][0][0] == (1 << w) - 1:
                    return icmp("eq", a2[3][0][1], neg(b2))
                a, b = a2, b2
        else:
            if a[0] == "zext" and b[0] == "zext" and a[2][1] == b[2][1]:
                return icmp("eq", a[2], b[2])
            if a[0] == "sext" and b[0] == "sext" and a[2][1] == b[2][1]:
                return icmp("eq", a[2], b[2])
            if a[0] == "fsym" or b[0] == "fsym":
                pass
            d = sub(a, b)
            if isc(d):
                return FALSE if d[2] else TRUE
            if d[0] == "lin" and (a[0] == "lin" or b[0] == "lin"):
                # canonical orientation of  sum == const
                return _eq_lin(w, d)
            if key(b) < key(a):
                a, b = b, a
            return ("icmp", 1, "eq", a, b)
        if a[0] == "lin":
            return _eq_lin(w, sub(a, b))
        return ("icmp", 1, "eq", a, b)
    # orderings: keep ult, slt family (ugt/ule/... canonicalised by operand swap)
    if isc(a) and isc(b):
        x, y = (a[2], b[2]) if p[0] == "u" else (sval(a), sval(b))
        r = {"gt": x > y, "ge": x >= y, "lt": x < y, "le": x <= y}[p[1:]]
        return TRUE if r else FALSE
    if a == b:
        return TRUE if p[1:] in ("ge", "le") else FALSE
    if p[1:] in ("gt", "ge"):
        return icmp(p[0] + {"gt": "lt", "ge": "le"}[p[1:]], b, a)
    # p in ult ule slt sle
    m = (1 << w) - 1
    smax = m >> 1
    smin = smax + 1
    if p[1:] == "le":
        # a <= b  ->  a < b+1 (const) / a-1 < b
        if isc(b):
            if (p[0] == "u" and b[2] == m) or (p[0] == "s" and b[2] == smax):
                return TRUE
            return icmp(p[0] + "lt", a, C(w, b[2] + 1))
        if isc(a):
            if (p[0] == "u" and a[2] == 0) or (p[0] == "s" and a[2] == smin):
                return TRUE
            return icmp(p[0] + "lt", C(w, a[2] - 1), b)
        return ("lnot", 1, ("icmp", 1, p[0] + "lt", b, a))
    if p == "ult" and isc(b):
        if b[2] == 0:
            return FALSE
        if b[2] == 1:
            return icmp("eq", a, C(w, 0))
    if p == "ult" and isc(a):
        if a[2] == m:
            return FALSE
        if a[2] == 0:
            return icmp("ne", b, C(w, 0))
    if p == "slt" and isc(b) and b[2] == 0:
        return bit(a, C(8, w - 1))
    if p == "slt" and isc(a) and a[2] == m:
        return lnot(bit(b, C(8, w - 1)))
    return ("icmp", 1, p, a, b)


def _eq_lin(w, d):
    """canonical form of  d == 0  for a linear d"""
    items = d[3]
    if len(items) == 2 and d[2] == 0:
        (c1, x1), (c2, x2) = items
        if (c1 + c2) & ((1 << w) - 1) == 0 and c1 & 1:
            if key(x2) < key(x1):
                x1, x2 = x2, x1
            return ("icmp", 1, "eq", x1, x2)
    c0 = items[0][0]
    m = (1 << w) - 1
    if c0 > (m >> 1):
        d = neg(d)
    lhs = _mklin(w, 0, dict((x, c) for c, x in d[3]))
    rhs = C(w, -d[2])
    if lhs[0] != "lin":
        return icmp("eq", lhs, rhs)
    return ("icmp", 1, "eq", lhs, rhs)


def _bittest(a):
    """and(x, shl(1,n)) (variable n) -> bit(x,n)"""
    if len(a[2]) != 2:
        return None
    for x, y in ((a[2][0], a[2][1]), (a[2][1], a[2][0])):
        if y[0] == "shl" and isc(y[2]) and y[2][2] == 1:
            return bit(x, y[3])
    return None


def sel(c, a, b):
    if isc(c):
        return a if c[2] else b
    if a == b:
        return a
    if c[0] == "lnot":
        return sel(c[2], b, a)
    if a[1] == 1:
        if a == TRUE and b == FALSE:
            return c
        if a == FALSE and b == TRUE:
            return lnot(c)
        if b == FALSE:
            return and_(c, a)
        if a == TRUE:
            return or_(c, b)
    # select(x==y, x, y) == y ; select(x==y, y, x) == x
    if c[0] == "icmp" and c[2] == "eq":
        if (a, b) == (c[3], c[4]):
            return b
        if (a, b) == (c[4], c[3]):
            return b
    return ("sel", a[1], c, a, b)


def fop(op, w, *args):
    args = list(args)
    if op in ("fadd", "fmul"):
        args.sort(key=key)
    return (op, w) + tuple(args)


def fsub(w, a, b):
    return ("fsub", w, a, b)


def fneg(a):
    w = a[1]
    # IEEE negation flips the sign bit
    return xor(a, C(w, 1 << (w - 1)))


def opq(op, w, *args):
    return ("op", w, op) + tuple(args)


def symbols(t, acc=None):
    if acc is None:
        acc = set()
    if t[0] == "s":
        acc.add(t[2])
        return acc
    for x in t[2:]:
        if isinstance(x, tuple):
            if x and isinstance(x[0], str) and len(x) > 1:
                symbols(x, acc)
            else:
                for y in x:
                    if isinstance(y, tuple):
                        if y and isinstance(y[0], int) and len(y) == 2 and isinstance(y[1], tuple):
                            symbols(y[1], acc)
                        else:
                            symbols(y, acc)
    return acc


def leaves(t):
    """the symbol terms of t"""
    acc = set()
    subst(t, lambda x: acc.add(x))
    return acc


def subst_children(t, g):
    """rebuild t through the smart constructors with every direct child x replaced by g(x)"""
    o = t[0]
    if o in ("s", "c"):
        return t
    if o == "lin":
        r = C(t[1], t[2])
        for c, x in t[3]:
            r = add(r, scale(g(x), c))
        return r
    if o in ("and", "or", "xor"):
        h = {"and": and_, "or": or_, "xor": xor}[o]
        return h(*[g(x) for x in t[2]])
    if o == "zext":
        return zext(g(t[2]), t[1])
    if o == "sext":
        return sext(g(t[2]), t[1])
    if o == "trunc":
        return trunc(g(t[2]), t[1])
    if o == "ext":
        return extract(g(t[2]), t[3], t[1])
    if o == "shl":
        return shl(g(t[2]), g(t[3]))
    if o == "lshr":
        return lshr(g(t[2]), g(t[3]))
    if o == "ashr":
        return ashr(g(t[2]), g(t[3]))
    if o == "mul":
        return mul(g(t[2]), g(t[3]))
    if o == "bit":
        return bit(g(t[2]), g(t[3]))
    if o == "icmp":
        return icmp(t[2], g(t[3]), g(t[4]))
    if o == "lnot":
        return lnot(g(t[2]))
    if o == "sel":
        return sel(g(t[2]), g(t[3]), g(t[4]))
    if o in ("fadd", "fmul"):
        return fop(o, t[1], *[g(x) for x in t[2:]])
    return t[:2] + tuple(g(x) if isinstance(x, tuple) and len(x) > 1 and isinstance(x[0], str) and isinstance(x[1], int) else x for x in t[2:])


def subst(t, f):
    """rebuild t with f(symbol term) -> term or None (leave)"""
    if t[0] == "s":
        r = f(t)
        return t if r is None else r
    return subst_children(t, lambda x: subst(x, f))


def show(t, d=0):
    if d > 8:
        return "..."
    o = t[0]
    if o == "c":
        return "%d" % (sval(t) if t[1] > 1 and abs(sval(t)) < 1 << 20 else t[2])
    if o == "s":
        n = t[2]
        return n if isinstance(n, str) else ".".join(str(x) for x in n)
    if o == "lin":
        s = []
        for c, x in t[3]:
            c = sval(C(t[1], c))
            s.append(("" if c == 1 else "-" if c == -1 else "%d*" % c) + show(x, d + 1))
        if t[2]:
            s.append("%d" % sval(C(t[1], t[2])))
        return "(" + " + ".join(s) + ")"
    if o in ("and", "or", "xor"):
        return "(" + {"and": " & ", "or": " | ", "xor": " ^ "}[o].join(show(x, d + 1) for x in t[2]) + ")"
    if o in ("zext", "sext", "trunc"):
        return "%s%d(%s)" % (o, t[1], show(t[2], d + 1))
    if o == "icmp":
        return "(%s %s %s)" % (show(t[3], d + 1), t[2], show(t[4], d + 1))
    if o == "bit":
        return "bit(%s,%s)" % (show(t[2], d + 1), show(t[3], d + 1))
    if o == "ext":
        return "%s[%d:+%d]" % (show(t[2], d + 1), t[3], t[1])
    return "%s%d(%s)" % (o, t[1], ", ".join(show(x, d + 1) if isinstance(x, tuple) and x and isinstance(x[0], str) else str(x) for x in t[2:]))
