"""Abstract domain: interval sets over input atoms, and exact linear forms over
bit-slices of atoms.

An *atom* is an unknown the analysed code can observe: one code unit of an input
string, a length, a symbolic loop counter.  An abstract state keeps, for every atom,
the set of values it may have (an interval set), and every integer the program holds
is a linear form  c + sum(k_i * slice_i)  over bit-slices of atoms.
"""

# ---------------------------------------------------------------- interval sets
# An interval set is a tuple of disjoint, sorted, non-adjacent (lo, hi) pairs.

EMPTY = ()


def iset(*pairs):
    return norm(pairs)


def norm(pairs):
    ps = sorted(p for p in pairs if p[0] <= p[1])
    if not ps:
        return ()
    out = []
    cl, ch = ps[0]
    for lo, hi in ps[1:]:
        if lo <= ch + 1:
            if hi > ch:
                ch = hi
        else:
            out.append((cl, ch))
            cl, ch = lo, hi
    out.append((cl, ch))
    return tuple(out)


def inter(a, b):
    if a == b:
        return a
    out = []
    i = j = 0
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        lo = x[0] if x[0] > y[0] else y[0]
        hi = x[1] if x[1] < y[1] else y[1]
        if lo <= hi:
            out.append((lo, hi))
        if x[1] < y[1]:
            i += 1
        else:
            j += 1
    return tuple(out)


def union(a, b):
    if not a:
        return b
    if not b:
        return a
    if a == b:
        return a
    return norm(a + b)


def diff(a, b):
    out = []
    j = 0
    lb = len(b)
    for lo, hi in a:
        cur = lo
        while j < lb and b[j][1] < cur:
            j += 1
        k = j
        while k < lb and b[k][0] <= hi:
            if b[k][0] > cur:
                out.append((cur, b[k][0] - 1))
            cur = b[k][1] + 1
            if cur > hi:
                break
            k += 1
        if cur <= hi:
            out.append((cur, hi))
    return tuple(out)


def card(a):
    return sum(h - l + 1 for l, h in a)


def contains(a, v):
    for lo, hi in a:
        if lo <= v <= hi:
            return True
        if v < lo:
            return False
    return False


def subset(a, b):
    return not diff(a, b)


def shift(a, k):
    return tuple((l + k, h + k) for l, h in a)


def show(a, fmt="%X"):
    if not a:
        return "{}"
    s = ",".join((fmt % l) if l == h else (fmt % l + ".." + fmt % h) for l, h in a[:12])
    return s + (",...(%d ranges)" % len(a) if len(a) > 12 else "")


MAXIVS = 20000
MANY = []            # noted when a set was not written out for having too many intervals


def slice_image(a, lo, n, width):
    """values of bits lo..lo+n-1 over the set a"""
    if lo == 0 and n >= width:
        return a
    m = 1 << n
    if lo + n >= width:
        return norm([(l >> lo, h >> lo) for l, h in a])
    out = []
    for l, h in a:
        l >>= lo
        h >>= lo
        if h - l + 1 >= m:
            return ((0, m - 1),)
        l2, h2 = l & (m - 1), h & (m - 1)
        if l2 <= h2:
            out.append((l2, h2))
        else:
            out.append((l2, m - 1))
            out.append((0, h2))
        if len(out) > 4096:
            out = list(norm(out))
            if len(out) == 1 and out[0] == (0, m - 1):
                return tuple(out)
    return norm(out)


class TooMany(Exception):
    pass


def slice_preimage(a, lo, n, width, want, cap=None):
    """subset of a whose bits lo..lo+n-1 are in want"""
    if not want:
        return ()
    if lo == 0 and n >= width:
        return inter(a, want)
    top = lo + n
    m = 1 << n
    if top >= width:
        w = tuple((l << lo, (h << lo) + (1 << lo) - 1) for l, h in want)
        return inter(a, w)
    if want == ((0, m - 1),):
        return a
    nblk = 0
    for l, h in a:
        nblk += (h >> top) - (l >> top) + 1
    if nblk * len(want) > (cap or MAXIVS):
        if cap is None and not MANY:
            MANY.append(nblk * len(want))
        raise TooMany()
    out = []
    for l, h in a:
        for blk in range(l >> top, (h >> top) + 1):
            b = blk << top
            for wl, wh in want:
                x = b + (wl << lo)
                y = b + (wh << lo) + (1 << lo) - 1
                if x < l:
                    x = l
                if y > h:
                    y = h
                if x <= y:
                    out.append((x, y))
    return norm(out)


# ---------------------------------------------------------------- atoms

class Atoms:
    """global atom table; atom ids are small ints"""
    def __init__(self):
        self.width = []
        self.name = []
        self.full = []
        self.kind = []
        self.meta = []

    def new(self, width, name, kind="free", full=None, meta=None):
        self.width.append(width)
        self.name.append(name)
        self.kind.append(kind)
        self.full.append(full if full is not None else ((0, (1 << width) - 1),))
        self.meta.append(meta)
        return len(self.width) - 1


A = Atoms()

# ---------------------------------------------------------------- expressions
# Expr = (const, terms)   terms: tuple of ((atom, lo, n), coef), canonical and sorted.


def const(c):
    return (c, ())


ZERO = (0, ())
ONE = (1, ())


def atom_expr(a):
    return (0, (((a, 0, A.width[a]), 1),))


def is_const(e):
    return not e[1]


def canon(c, pairs):
    """pairs: list of ((atom,lo,n),coef) possibly overlapping"""
    if not pairs:
        return (c, ())
    by = {}
    for (a, lo, n), k in pairs:
        if k:
            by.setdefault(a, []).append((lo, n, k))
    out = []
    for a in sorted(by):
        sl = by[a]
        if len(sl) == 1:
            lo, n, k = sl[0]
            out.append(((a, lo, n), k))
            continue
        cuts = set()
        for lo, n, k in sl:
            cuts.add(lo)
            cuts.add(lo + n)
        cuts = sorted(cuts)
        segs = []
        for i in range(len(cuts) - 1):
            l, h = cuts[i], cuts[i + 1]
            tot = 0
            cov = False
            for lo, n, k in sl:
                if lo <= l and h <= lo + n:
                    tot += k << (l - lo)
                    cov = True
            if cov and tot:
                segs.append([l, h - l, tot])
        merged = []
        for s in segs:
            if merged:
                m = merged[-1]
                if m[0] + m[1] == s[0] and s[2] == m[2] << m[1]:
                    m[1] += s[1]
                    continue
            merged.append(s)
        for l, n, k in merged:
            out.append(((a, l, n), k))
    return (c, tuple(out))


def add(x, y):
    if not y[1]:
        return (x[0] + y[0], x[1])
    if not x[1]:
        return (x[0] + y[0], y[1])
    return canon(x[0] + y[0], x[1] + y[1])


def addc(x, c):
    return (x[0] + c, x[1])


def scale(x, k):
    if k == 0:
        return ZERO
    if k == 1:
        return x
    return (x[0] * k, tuple((s, c * k) for s, c in x[1]))


def sub(x, y):
    if not y[1]:
        return (x[0] - y[0], x[1])
    return canon(x[0] - y[0], x[1] + tuple((s, -c) for s, c in y[1]))


def atoms_of(e):
    return {s[0] for s, _ in e[1]}


def subst(e, m):
    """replace atoms by expressions; m: atom -> Expr, only full slices (or const) can be replaced
    by non-trivial expressions; a slice of a replaced atom is re-sliced when m[atom] is a single
    full slice of another atom of the same width."""
    if not e[1]:
        return e
    hit = False
    for (a, lo, n), k in e[1]:
        if a in m:
            hit = True
            break
    if not hit:
        return e
    c = e[0]
    pairs = []
    for (a, lo, n), k in e[1]:
        r = m.get(a)
        if r is None:
            pairs.append(((a, lo, n), k))
            continue
        if not r[1]:
            v = (r[0] >> lo) & ((1 << n) - 1)
            c += k * v
        elif lo == 0 and n == A.width[a]:
            c += k * r[0]
            for s, kk in r[1]:
                pairs.append((s, kk * k))
        elif r[0] == 0 and len(r[1]) == 1 and r[1][0][1] == 1:
            (b, l2, n2), _ = r[1][0]
            n3 = min(n, n2 - lo)
            if n3 > 0:
                pairs.append(((b, l2 + lo, n3), k))
        else:
            raise Unsliceable(a, lo, n)
    return canon(c, pairs)


class Unsliceable(Exception):
    pass


def evaluate(e, env):
    c = e[0]
    for (a, lo, n), k in e[1]:
        c += k * ((env[a] >> lo) & ((1 << n) - 1))
    return c


def show_expr(e):
    parts = []
    for (a, lo, n), k in e[1]:
        nm = A.name[a]
        if not (lo == 0 and n == A.width[a]):
            nm += "[%d:%d]" % (lo + n - 1, lo)
        parts.append(nm if k == 1 else "%d*%s" % (k, nm))
    if e[0] or not parts:
        parts.append(hex(e[0]))
    return "+".join(parts)
