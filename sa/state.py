"""Abstract states, and the arithmetic / comparison transfer functions on them.

A transfer function returns a list of (state, result) pairs: the input state is partitioned
whenever the result is not one exact linear form over the whole of it (trace partitioning).
"""
from functools import lru_cache
from dom import (A, inter, union, diff, card, slice_image, slice_preimage, TooMany, const, add, addc,
                 sub, scale, atom_expr, is_const, canon, norm, ZERO)

TOP = ('top',)
UNDEF = ('undef',)
NULL = ('p', None, ZERO)
BIG = 1 << 40


@lru_cache(maxsize=200000)
def _img(s, lo, n, w):
    return slice_image(s, lo, n, w)


class State:
    __slots__ = ('env', 'outer', 'mem', 'box', 'rel', 'conds', 'inp', 'seg', 'approx', 'pend', 'last')

    def copy(self):
        s = State.__new__(State)
        s.env = self.env
        s.outer = self.outer
        s.mem = self.mem
        s.box = self.box
        s.rel = self.rel
        s.conds = self.conds
        s.inp = self.inp
        s.seg = self.seg
        s.approx = self.approx
        s.pend = self.pend
        s.last = self.last
        return s

    def key(self, live=None):
        if live is None:
            e = frozenset(self.env.items())
        else:
            e = frozenset((k, v) for k, v in self.env.items() if k in live)
        return (e, memkey(self.mem), frozenset(self.rel.items()), self.conds, memkey(self.inp), self.seg, self.approx,
                self.pend)


def memkey(mem):
    return frozenset((r, frozenset(d.items())) for r, d in mem.items())


def empty_state():
    s = State()
    s.env = {}
    s.outer = ()
    s.mem = {}
    s.box = {}
    s.rel = {}
    s.conds = ()
    s.inp = {}
    s.seg = 0
    s.approx = False
    s.pend = ()
    s.last = None
    return s


# ------------------------------------------------------------------ ranges

def dom_of(st, a):
    return st.box.get(a) or A.full[a]


def slice_set(st, s):
    a, lo, n = s
    d = st.box.get(a)
    if d is None:
        d = A.full[a]
    w = A.width[a]
    if lo == 0 and n >= w:
        return d
    return _img(d, lo, n, w)


def _norm_terms(terms):
    """normalise terms for the relational store: (key, m) with terms = m*key"""
    from math import gcd
    g = 0
    for _, k in terms:
        g = gcd(g, k)
    if terms[0][1] < 0:
        g = -g
    return tuple((s, k // g) for s, k in terms), g


def rng(st, e):
    lo = hi = e[0]
    t = e[1]
    if not t:
        return lo, hi
    for s, k in t:
        d = slice_set(st, s)
        if not d:
            return (0, -1)
        if k > 0:
            lo += k * d[0][0]
            hi += k * d[-1][1]
        else:
            lo += k * d[-1][1]
            hi += k * d[0][0]
    if st.rel and len(t) > 1:
        key, m = _norm_terms(t)
        r = st.rel.get(key)
        if r:
            a, b = (m * r[0], m * r[1]) if m > 0 else (m * r[1], m * r[0])
            lo = max(lo, e[0] + a)
            hi = min(hi, e[0] + b)
        elif len(st.rel) <= 40:
            for key, r in st.rel.items():
                for m in (1, -1):
                    rest = canon(e[0], t + tuple((s, -m * k) for s, k in key))
                    if len(rest[1]) < len(t) and len(rest[1]) <= 1:
                        l2 = h2 = rest[0]
                        for s, k in rest[1]:
                            d = slice_set(st, s)
                            if k > 0:
                                l2 += k * d[0][0]
                                h2 += k * d[-1][1]
                            else:
                                l2 += k * d[-1][1]
                                h2 += k * d[0][0]
                        if m > 0:
                            l2 += r[0]
                            h2 += r[1]
                        else:
                            l2 -= r[1]
                            h2 -= r[0]
                        lo = max(lo, l2)
                        hi = min(hi, h2)
    return lo, hi


def refine_slice(st, s, want, cap=None):
    """restrict slice s to want; None if empty"""
    a, lo, n = s
    d = st.box.get(a)
    if d is None:
        d = A.full[a]
    try:
        nd = slice_preimage(d, lo, n, A.width[a], want, cap if A.kind[a] == 'cell' else 1024)
    except TooMany:
        ns = st.copy()
        ns.pend = st.pend + ((s, want),)
        img = inter(slice_set(st, s), want)
        if not img:
            return None
        return ns
    if not nd:
        return None
    if nd == d:
        return st
    ns = st.copy()
    ns.box = dict(st.box)
    ns.box[a] = nd
    if ns.pend:
        pend = ns.pend
        keep = []
        for (s2, w2) in pend:
            if s2[0] != a:
                keep.append((s2, w2))
                continue
            try:
                nd2 = slice_preimage(ns.box[a], s2[1], s2[2], A.width[a], w2)
                if not nd2:
                    return None
                ns.box[a] = nd2
            except TooMany:
                keep.append((s2, w2))
        ns.pend = tuple(keep)
    return ns


def add_rel(st, terms, lo, hi):
    """record  lo <= sum(terms) <= hi"""
    if not terms:
        return st if lo <= 0 <= hi else None
    key, m = _norm_terms(terms)
    if m > 0:
        a, b = -((-lo) // m), hi // m
    else:
        a, b = -((-hi) // m) if False else -(hi // -m), (-lo) // -m
    old = st.rel.get(key)
    if old:
        a = max(a, old[0])
        b = min(b, old[1])
    if a > b:
        return None
    ns = st.copy()
    ns.rel = dict(st.rel)
    ns.rel[key] = (a, b)
    # bounds propagation onto full-slice atoms
    for i, (s, k) in enumerate(key):
        l2 = h2 = 0
        for j, (s2, k2) in enumerate(key):
            if j != i:
                d = slice_set(ns, s2)
                if k2 > 0:
                    l2 += k2 * d[0][0]
                    h2 += k2 * d[-1][1]
                else:
                    l2 += k2 * d[-1][1]
                    h2 += k2 * d[0][0]
        # a - h2 <= k*s <= b - l2
        x, y = a - h2, b - l2
        if k > 0:
            sl, sh = -((-x) // k), y // k
        else:
            sl, sh = -(y // -k), (-x) // -k
        r = refine_slice(ns, s, ((sl, sh),))
        if r is None:
            return None
        ns = r
    return ns


BOUNDARY = 600


def split_ge0(st, d):
    """partition st by d >= 0 -> (list true, list false)"""
    lo, hi = rng(st, d)
    if lo > hi:
        return [], []
    if lo >= 0:
        return [st], []
    if hi < 0:
        return [], [st]
    t = d[1]
    if len(t) == 1:
        s, k = t[0]
        dom = slice_set(st, s)
        if k > 0:
            thr = -(d[0] // k)          # s >= ceil(-d0/k)
            tr = inter(dom, ((thr, dom[-1][1]),)) if thr <= dom[-1][1] else ()
        else:
            thr = d[0] // -k            # s <= floor(d0/-k)
            tr = inter(dom, ((dom[0][0], thr),)) if thr >= dom[0][0] else ()
        fa = diff(dom, tr)
        x = refine_slice(st, s, tr) if tr else None
        y = refine_slice(st, s, fa) if fa else None
        return ([x] if x else []), ([y] if y else [])
    # pick the term with the widest span
    best = None
    for i, (s, k) in enumerate(t):
        dm = slice_set(st, s)
        sp = abs(k) * (dm[-1][1] - dm[0][0])
        if best is None or sp > best[0]:
            best = (sp, i)
    i = best[1]
    s, k = t[i]
    rest = (d[0], t[:i] + t[i + 1:])
    rl, rh = rng(st, rest)
    dom = slice_set(st, s)
    mn, mx = dom[0][0], dom[-1][1]
    if k > 0:
        tmin = -(rl // k)             # surely true for s >= tmin
        fmax = -(rh // k) - 1         # surely false for s <= fmax
        T = inter(dom, ((tmin, mx),)) if tmin <= mx else ()
        F = inter(dom, ((mn, fmax),)) if fmax >= mn else ()
    else:
        tmax = rl // -k
        fmin = rh // -k + 1
        T = inter(dom, ((mn, tmax),)) if tmax >= mn else ()
        F = inter(dom, ((fmin, mx),)) if fmin <= mx else ()
    B = diff(diff(dom, T), F)
    a, lo_, n_ = s
    if card(B) > BOUNDARY or card(B) > 8 and lo_ + n_ < A.width[a] - 12:
        ts = add_rel(st, t, -d[0], BIG * 4)
        fs = add_rel(st, t, -BIG * 4, -d[0] - 1)
        return ([ts] if ts else []), ([fs] if fs else [])
    trues, falses = [], []
    if T:
        x = refine_slice(st, s, T)
        if x:
            trues.append(x)
    if F:
        x = refine_slice(st, s, F)
        if x:
            falses.append(x)
    for bl, bh in B:
        for v in range(bl, bh + 1):
            x = refine_slice(st, s, ((v, v),))
            if x:
                a, b = split_ge0(x, (rest[0] + k * v, rest[1]))
                trues += a
                falses += b
    return trues, falses


def split_eq0(st, d):
    lo, hi = rng(st, d)
    if lo > hi:
        return [], []
    if lo > 0 or hi < 0:
        return [], [st]
    if lo == 0 and hi == 0:
        return [st], []
    t = d[1]
    if len(t) == 1:
        s, k = t[0]
        if d[0] % k:
            return [], [st]
        v = -d[0] // k
        dom = slice_set(st, s)
        tr = inter(dom, ((v, v),))
        fa = diff(dom, tr)
        x = refine_slice(st, s, tr) if tr else None
        y = refine_slice(st, s, fa) if fa else None
        return ([x] if x else []), ([y] if y else [])
    best = None
    for i, (s, k) in enumerate(t):
        dm = slice_set(st, s)
        sp = abs(k) * (dm[-1][1] - dm[0][0])
        if best is None or sp > best[0]:
            best = (sp, i)
    i = best[1]
    s, k = t[i]
    rest = (d[0], t[:i] + t[i + 1:])
    rl, rh = rng(st, rest)
    dom = slice_set(st, s)
    # k*s = -rest  in [-rh, -rl]
    if k > 0:
        a, b = -(rh // k), (-rl) // k
    else:
        a, b = -((-rl) // -k), rh // -k
    B = inter(dom, ((a, b),)) if a <= b else ()
    F = diff(dom, B)
    if card(B) > BOUNDARY:
        key, m = _norm_terms(t)
        trues, falses = [], []
        x = add_rel(st, t, -d[0], -d[0])
        if x:
            trues.append(x)
        up, dn = split_ge0(st, addc(d, -1))
        falses += up
        for z in dn:
            p, q = split_ge0(z, d)
            falses += q
        return trues, falses
    trues, falses = [], []
    if F:
        x = refine_slice(st, s, F)
        if x:
            falses.append(x)
    for bl, bh in B:
        for v in range(bl, bh + 1):
            x = refine_slice(st, s, ((v, v),))
            if x:
                p, q = split_eq0(x, (rest[0] + k * v, rest[1]))
                trues += p
                falses += q
    return trues, falses


class Imprecise(Exception):
    """the analysis cannot represent this construct exactly"""


class InPlace(Imprecise):
    """text that is not a buffer of its own in this run is written"""


def partition_floor(st, e, m, limit=300):
    """partition by floor(e / m): list of (st, k)"""
    lo, hi = rng(st, e)
    if lo > hi:
        return []
    a, b = lo // m, hi // m
    if a == b:
        return [(st, a)]
    if b - a > limit:
        raise Imprecise("floor partition of %d parts" % (b - a + 1))
    out = []
    rem = [st]
    for k in range(a, b):
        nrem = []
        for s in rem:
            ge, lt = split_ge0(s, addc(e, -(k + 1) * m))
            out += [(x, k) for x in lt]
            nrem += ge
        rem = nrem
    out += [(x, b) for x in rem]
    return out


def modpow(e, w):
    """drop bits at or above 2^w from power-of-two terms (value mod 2^w unchanged)"""
    M = 1 << w
    c = e[0] % M
    ch = c != e[0]
    out = []
    for (a, lo, n), k in e[1]:
        kk = k % M
        if kk == 0:
            ch = True
            continue
        if k > 0 and k & (k - 1) == 0:
            s = k.bit_length() - 1
            if s + n > w:
                n = w - s
                ch = True
            out.append(((a, lo, n), k))
        else:
            if k >= M or k <= -M:
                k = kk if kk < M // 2 else kk - M
                ch = True
            out.append(((a, lo, n), k))
    if not ch:
        return e
    # a constant near 2^w stands for a small negative number: keep it signed if terms remain
    if out and c >= M // 2:
        c -= M
    return canon(c, out)


def to_u(st, w, e):
    """list of (st, e') with e' the exact unsigned value in [0,2^w)"""
    lo, hi = rng(st, e)
    M = 1 << w
    if lo >= 0 and hi < M:
        return [(st, e)]
    e = modpow(e, w)
    lo, hi = rng(st, e)
    if lo >= 0 and hi < M:
        return [(st, e)]
    return [(s, addc(e, -k * M)) for s, k in partition_floor(st, e, M)]


def to_s(st, w, e):
    M = 1 << w
    H = M >> 1
    lo, hi = rng(st, e)
    if lo >= -H and hi < H:
        return [(st, e)]
    out = []
    for s, u in to_u(st, w, e):
        for s2, k in partition_floor(s, addc(u, H), M):
            out.append((s2, addc(u, -k * M)))
    return out


def shr(st, e, l):
    """floor(e / 2^l), e an exact integer"""
    if l == 0:
        return [(st, e)]
    M = 1 << l
    hi_c, lo_c = e[0] >> l, e[0] & (M - 1)
    hi, low = [], []
    for (a, lo, n), k in e[1]:
        if k % M == 0:
            hi.append(((a, lo, n), k >> l))
        elif k & (k - 1) == 0 and k > 0:
            s = k.bit_length() - 1
            nl = l - s
            if n > nl:
                hi.append(((a, lo + nl, n - nl), 1))
                low.append(((a, lo, nl), k))
            else:
                low.append(((a, lo, n), k))
        else:
            low.append(((a, lo, n), k))
    H = canon(hi_c, hi)
    if not low:
        return [(st, H)]
    Lo = canon(lo_c, low)
    return [(s, addc(H, k)) for s, k in partition_floor(st, Lo, M)]


def extract(st, e, l, m):
    """bits l..l+m-1 of a non-negative exact integer"""
    out = []
    for s, h in shr(st, e, l):
        out += to_u(s, m, h)
    return out


def and_const(st, e, mask, w):
    """e exact unsigned < 2^w"""
    lo, hi = rng(st, e)
    if hi >= 0:
        mask &= (1 << hi.bit_length()) - 1
    if mask == 0:
        return [(st, ZERO)]
    runs = []
    i = 0
    while mask >> i:
        if (mask >> i) & 1:
            j = i
            while (mask >> j) & 1:
                j += 1
            runs.append((i, j - i))
            i = j
        else:
            i += 1
    cur = [(st, ZERO)]
    for l, m in runs:
        nxt = []
        for s, acc in cur:
            for s2, x in extract(s, e, l, m):
                nxt.append((s2, add(acc, scale(x, 1 << l))))
        cur = nxt
    return cur


def maybits(st, e):
    """mask of bits that may be set in exact non-negative e built from disjoint power-of-two terms, or None"""
    m = e[0]
    if m < 0:
        return None
    for (a, lo, n), k in e[1]:
        if k <= 0 or k & (k - 1):
            return None
        d = slice_set(st, (a, lo, n))
        mx = d[-1][1]
        b = ((1 << mx.bit_length()) - 1) * k
        if m & b:
            return None
        m |= b
    return m


def values_of(st, e, limit=70000):
    """partition by the value of e: list of (st, int)"""
    if not e[1]:
        return [(st, e[0])]
    if len(e[1]) == 1:
        s, k = e[1][0]
        d = slice_set(st, s)
        if card(d) > limit:
            raise Imprecise("too many values")
        out = []
        for l, h in d:
            for v in range(l, h + 1):
                x = refine_slice(st, s, ((v, v),))
                if x:
                    out.append((x, e[0] + k * v))
        return out
    s, k = max(e[1], key=lambda t: abs(t[1]) * card(slice_set(st, t[0])))
    d = slice_set(st, s)
    if card(d) > limit:
        raise Imprecise("too many values")
    rest = (e[0], tuple(x for x in e[1] if x[0] != s))
    out = []
    for l, h in d:
        for v in range(l, h + 1):
            x = refine_slice(st, s, ((v, v),))
            if x:
                out += values_of(x, (rest[0] + k * v, rest[1]), limit)
    return out


def binop(st, op, w, x, y):
    """x, y: Expr; -> list of (st, Expr) (Expr modulo 2^w)"""
    M = 1 << w
    if op == 'add':
        return [(st, fin(st, w, add(x, y)))]
    if op == 'sub':
        return [(st, fin(st, w, sub(x, y)))]
    if op == 'mul':
        if is_const(y):
            c = y[0] % M
            if c >= M // 2:
                c -= M
            return [(st, fin(st, w, scale(x, c)))]
        if is_const(x):
            return binop(st, op, w, y, x)
        out = []
        for s, v in values_of(st, y, 64):
            out += binop(s, op, w, x, const(v))
        return out
    if op == 'shl':
        if is_const(y):
            return [(st, fin(st, w, scale(x, 1 << (y[0] % M))))]
        out = []
        for s, yu in to_u(st, w, y):
            for s2, v in values_of(s, yu, 64):
                out.append((s2, fin(s2, w, scale(x, 1 << v))))
        return out
    if op in ('lshr', 'ashr'):
        out = []
        for s, yu in to_u(st, w, y):
            for s2, v in values_of(s, yu, 64):
                for s3, xx in (to_u(s2, w, x) if op == 'lshr' else to_s(s2, w, x)):
                    out += shr(s3, xx, v)
        return out
    if op == 'and':
        if is_const(x) and not is_const(y):
            x, y = y, x
        out = []
        for s, xu in to_u(st, w, x):
            for s2, yu in to_u(s, w, y):
                if is_const(yu):
                    out += and_const(s2, xu, yu[0], w)
                elif is_const(xu):
                    out += and_const(s2, yu, xu[0], w)
                elif xu == yu:
                    out.append((s2, xu))
                else:
                    out += bitwise2(s2, 'and', xu, yu)
        return out
    if op == 'or':
        out = []
        for s, xu in to_u(st, w, x):
            for s2, yu in to_u(s, w, y):
                if xu == yu:
                    out.append((s2, xu))
                    continue
                bx, by = maybits(s2, xu), maybits(s2, yu)
                if bx is not None and by is not None and not bx & by:
                    out.append((s2, add(xu, yu)))
                elif is_const(yu) or is_const(xu):
                    if is_const(xu):
                        xu, yu = yu, xu
                    for s3, z in and_const(s2, xu, (M - 1) & ~yu[0], w):
                        out.append((s3, addc(z, yu[0])))
                else:
                    out += bitwise2(s2, 'or', xu, yu)
        return out
    if op == 'xor':
        out = []
        for s, xu in to_u(st, w, x):
            for s2, yu in to_u(s, w, y):
                if is_const(xu):
                    xu2, yu2 = yu, xu
                else:
                    xu2, yu2 = xu, yu
                if is_const(yu2):
                    for s3, z in and_const(s2, xu2, yu2[0], w):
                        # x ^ c = x + c - 2*(x & c)
                        out.append((s3, sub(addc(xu2, yu2[0]), scale(z, 2))))
                elif xu == yu:
                    out.append((s2, ZERO))
                else:
                    out += bitwise2(s2, 'xor', xu, yu)
        return out
    if op in ('udiv', 'urem', 'sdiv', 'srem'):
        out = []
        conv = to_u if op[0] == 'u' else to_s
        for s, xu in conv(st, w, x):
            for s2, yu in conv(s, w, y):
                for s3, v in values_of(s2, yu, 64):
                    if v == 0:
                        continue
                    out += divrem(s3, op, w, xu, v)
        return out
    raise Imprecise("binop " + op)


def divrem(st, op, w, x, v):
    out = []
    lo, hi = rng(st, x)
    parts = [(st, x, 1)]
    if op[0] == 's' and lo < 0:
        pos, neg = split_ge0(st, x)
        parts = [(s, x, 1) for s in pos] + [(s, scale(x, -1), -1) for s in neg]
    sv = 1
    if v < 0:
        v, sv = -v, -1
    for s, y, sx in parts:
        if v & (v - 1) == 0:
            l = v.bit_length() - 1
            qs = shr(s, y, l)
        else:
            # exact division of every term?
            if y[0] % v == 0 and all(k % v == 0 for _, k in y[1]):
                qs = [(s, (y[0] // v, tuple((t, k // v) for t, k in y[1])))]
            else:
                qs = [(s2, const(k)) for s2, k in partition_floor(s, y, v, 70000)]
        for s2, q in qs:
            if op[1:] == 'div':
                out.append((s2, fin(s2, w, scale(q, sx * sv))))
            else:
                out.append((s2, fin(s2, w, scale(sub(y, scale(q, v)), sx))))
    return out


def bitwise2(st, op, x, y):
    """both symbolic: enumerate the cheaper one"""
    def cost(e):
        c = 1
        for s, _ in e[1]:
            c *= card(slice_set(st, s))
        return c
    cx, cy = cost(x), cost(y)
    if min(cx, cy) > 4096:
        raise Imprecise("bitwise " + op)
    if cx < cy:
        x, y = y, x
    out = []
    for s, v in values_of(st, y, 4096):
        out += binop(s, op, 64, x, const(v))
    return out


def fin(st, w, e):
    """cheap normalisation of a w-bit result"""
    M = 1 << w
    if not e[1]:
        return (e[0] % M, ())
    lo, hi = rng(st, e)
    if lo >= 0 and hi < M:
        return e
    e = modpow(e, w)
    lo, hi = rng(st, e)
    if lo <= hi and lo // M == hi // M:
        return addc(e, -(lo // M) * M)
    return e


def cmp(st, pred, w, x, y):
    """-> (trues, falses)"""
    if pred in ('eq', 'ne'):
        d = sub(x, y)
        tr, fa = [], []
        lo, hi = rng(st, d)
        M = 1 << w
        if -M < lo and hi < M and _inrange(st, w, x) and _inrange(st, w, y):
            tr, fa = split_eq0(st, d)
        else:
            for s, du in to_u(st, w, d):
                a, b = split_eq0(s, du)
                tr += a
                fa += b
        return (tr, fa) if pred == 'eq' else (fa, tr)
    conv = to_s if pred[0] == 's' else to_u
    tr, fa = [], []
    for s, a in conv(st, w, x):
        for s2, b in conv(s, w, y):
            op = pred[1:]
            if op == 'ge':
                p, q = split_ge0(s2, sub(a, b))
            elif op == 'gt':
                p, q = split_ge0(s2, addc(sub(a, b), -1))
            elif op == 'le':
                p, q = split_ge0(s2, sub(b, a))
            else:
                p, q = split_ge0(s2, addc(sub(b, a), -1))
            tr += p
            fa += q
    return tr, fa


def _inrange(st, w, e):
    lo, hi = rng(st, e)
    return lo >= 0 and hi < (1 << w)
