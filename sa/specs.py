"""Specifications, written from the published contract (interface/*.hxx) and the Unicode standard.

Decision trees in the format of trans.py.
"""
from dom import *
from dom import A
from trans import Spec

B8 = ((0, 0xFF),)


def rest(width, *sets):
    full = ((0, (1 << width) - 1),)
    for s in sets:
        full = diff(full, s)
    return full


def bits(e, lo, n):
    (a, l, w), k = e[1][0]
    return (0, (((a, l + lo, n), 1),))


def plus(*es):
    c, p = 0, []
    for e in es:
        c += e[0]
        p += list(e[1])
    return canon(c, p)


def R(*pairs):
    return norm([(p, p) if isinstance(p, int) else p for p in pairs])


# ---------------------------------------------------------------- what fits where
U7, UTF8, UCS2, UTF16, UCS4, UNI = 0, 1, 2, 3, 4, 5

SURR = (0xD800, 0xDFFF)


def encodable(r):
    """code points that the target range admits (surrogates never are characters)"""
    if r == U7:
        return R((0, 0x7F))
    if r == UCS2:
        return R((0, 0xD7FF), (0xE000, 0xFFFF))
    if r in (UTF16, UNI):
        return R((0, 0xD7FF), (0xE000, 0x10FFFF))
    if r == UTF8:
        return R((0, 0xD7FF), (0xE000, 0x7FFFFFFF))
    return R((0, 0xD7FF), (0xE000, 0xFFFFFFFF))


# ---------------------------------------------------------------- UTF-8
CONT = R((0x80, 0xBF))


def u8val(k):
    """decoded value of a k-byte sequence"""
    leadbits = {1: 7, 2: 5, 3: 4, 4: 3, 5: 2, 6: 1}[k]

    def f(cell):
        if k == 1:
            return bits(cell(0), 0, 7)
        parts = [scale(bits(cell(0), 0, leadbits), 1 << (6 * (k - 1)))]
        for j in range(1, k):
            parts.append(scale(bits(cell(j), 0, 6), 1 << (6 * (k - 1 - j))))
        return plus(*parts)
    return f


def pairval(cell):
    """CESU-8 pair: six bytes ED Ax xx ED Bx xx"""
    return plus(const(0x10000), scale(bits(cell(1), 0, 4), 1 << 16), scale(bits(cell(2), 0, 6), 1 << 10),
                scale(bits(cell(4), 0, 4), 1 << 6), bits(cell(5), 0, 6))


def shapes(target):
    """shortest-form sequences whose value the target admits: (list of byte sets, value function, admitted)"""
    out = [
        ([R((0x01, 0x7F))], u8val(1)),
        ([R((0xC2, 0xDF)), CONT], u8val(2)),
        ([R(0xE0), R((0xA0, 0xBF)), CONT], u8val(3)),
        ([R((0xE1, 0xEC), (0xEE, 0xEF)), CONT, CONT], u8val(3)),
        ([R(0xED), R((0x80, 0x9F)), CONT], u8val(3)),
        ([R(0xED), R((0xA0, 0xAF)), CONT, R(0xED), R((0xB0, 0xBF)), CONT], pairval),
        ([R(0xF0), R((0x90, 0xBF)), CONT, CONT], u8val(4)),
        ([R((0xF1, 0xF3)), CONT, CONT, CONT], u8val(4)),
        ([R(0xF4), R((0x80, 0x8F)), CONT, CONT], u8val(4)),
        ([R(0xF4), R((0x90, 0xBF)), CONT, CONT], u8val(4)),
        ([R((0xF5, 0xF7)), CONT, CONT, CONT], u8val(4)),
        ([R(0xF8), R((0x88, 0xBF)), CONT, CONT, CONT], u8val(5)),
        ([R((0xF9, 0xFB)), CONT, CONT, CONT, CONT], u8val(5)),
        ([R(0xFC), R((0x84, 0xBF)), CONT, CONT, CONT, CONT], u8val(6)),
        ([R(0xFD), CONT, CONT, CONT, CONT, CONT], u8val(6)),
    ]
    n = {U7: 1, UCS2: 5, UTF16: 9, UNI: 9, UTF8: 15, UCS4: 15}[target]
    return [(b, v, i < n) for i, (b, v) in enumerate(out)]


def partition(domain, sets):
    """split domain by membership in sets -> [(iset, tuple of indices)]"""
    bounds = set()
    for lo, hi in domain:
        bounds |= {lo, hi + 1}
    for st in sets:
        for lo, hi in st:
            bounds |= {lo, hi + 1}
    bounds = sorted(bounds)
    out = {}
    for a, b in zip(bounds, bounds[1:]):
        if contains(domain, a):
            out.setdefault(tuple(i for i, st in enumerate(sets) if contains(st, a)), []).append((a, b - 1))
    return [(norm(v), k) for k, v in sorted(out.items())]


ANNOUNCED = [(R((1, 0x7F)), 1), (R((0xC0, 0xDF)), 2), (R((0xE0, 0xEF)), 3), (R((0xF0, 0xF7)), 4), (R((0xF8, 0xFB)), 5),
             (R((0xFC, 0xFD)), 6)]


def u8nul(target, leaf, end, kf, leads=None, fail=('fail',)):
    """NUL-terminated UTF-8 -> tree.

    leaf(k, value): one admitted character.  A sequence cut short by the terminator is ignored (end) if
    it could have been completed for the target; if its bytes have the right form but no completion
    exists, kf.  leads: the lead bytes for which that distinction is made (others fail outright)."""
    sh = shapes(target)

    def node(j, opts, need):
        """opts: the shapes that agree with the first j bytes"""
        if len(opts) == 1 and len(opts[0][0]) == j:
            return leaf(j, opts[0][1]) if opts[0][2] else fail
        if j == need and not opts:
            return fail
        out = [(R(0), end if any(o[2] for o in opts) else kf)]
        lenient = R((0xE0, 0xEF)) if (need == 6 and j == 3 and any(len(o[0]) == 6 for o in opts)) else CONT
        for st, key in partition(rest(8, R(0)), [o[0][j] for o in opts]):
            live = [opts[i] for i in key]
            if live:
                out.append((st, node(j + 1, live, max(len(o[0]) for o in live))))
            else:
                a, b = inter(st, lenient), diff(st, lenient)
                if a:
                    out.append((a, node(j + 1, [], need)))
                if b:
                    out.append((b, fail))
        return ('cell', j, out)

    out = [(R(0), end)]
    left = rest(8, R(0))
    for ann, n in ANNOUNCED:
        left = diff(left, ann)
        for st, key in partition(ann, [o[0][0] for o in sh]):
            live = [sh[i] for i in key]
            ok = st if any(o[2] for o in live) else inter(st, leads) if leads is not None else ()
            if ok:
                out.append((ok, node(1, live, n)))
            if diff(st, ok):
                out.append((diff(st, ok), fail))
    out.append((left, fail))
    return ('cell', 0, out)


def check_tree(t):
    """every split is disjoint"""
    if t[0] in ('cell', 'rem'):
        lst = t[2] if t[0] == 'cell' else t[1]
        u = ()
        for s, x in lst:
            assert not inter(u, s), ('overlap', t[:2])
            u = union(u, s)
            check_tree(x)
        if t[0] == 'cell' and t[1] == 0:
            pass
    elif t[0] == 'cond':
        check_tree(t[3])
        check_tree(t[4])


ALL8 = R((0xC0, 0xFD))
PRE8 = {U7: (), UCS2: R((0xC0, 0xEF)), UTF16: R((0xC0, 0xF4)), UNI: R((0xC0, 0xF4)), UTF8: ALL8, UCS4: ALL8}


def conj(preds, value, yes, no):
    """preds: list of (class name, wanted)"""
    t = yes
    for name, want in reversed(preds):
        t = ('cond', name, value, t if want else no, no if want else t)
    return t


def is_utf8(target, preds=()):
    def leaf(k, v):
        return conj(preds, v, ('char', k, [], 1), ('fail',))
    t = u8nul(target, leaf, ('end',), ('kf', 'tail'), PRE8[target])
    return Spec('isUtf8', 'bool', t, 0)


# ---------------------------------------------------------------- emitting
def enc8(v, n):
    """UTF-8 bytes of v (an expression with bit slices), n bytes"""
    if n == 1:
        return [bits(v, 0, 7)]
    lead = {2: (0xC0, 5), 3: (0xE0, 4), 4: (0xF0, 3), 5: (0xF8, 2), 6: (0xFC, 1)}[n]
    out = [addc(bits(v, 6 * (n - 1), lead[1]), lead[0])]
    for i in range(n - 2, -1, -1):
        out.append(addc(bits(v, 6 * i, 6), 0x80))
    return out


def fns(n, f):
    return [lambda cell, i=i: f(cell)[i] for i in range(n)]


LEN8 = [((1, 0x7F), 1), ((0x80, 0x7FF), 2), ((0x800, 0xFFFF), 3), ((0x10000, 0x1FFFFF), 4), ((0x200000, 0x3FFFFFF), 5),
        ((0x4000000, 0x7FFFFFFF), 6)]
HI = R((0xD800, 0xDBFF))
LO = R((0xDC00, 0xDFFF))


def u16nul(target, single, pair, end, kf, lead_kf, fail=('fail',), nul=None):
    """NUL-terminated UTF-16.  single: list of (iset of units, leaf); pair(hi set) -> leaf tree at unit 1"""
    out = [(R(0), end)]
    used = R(0)
    for st, lf in single:
        out.append((st, lf))
        used = union(used, st)
    full = target in (UTF8, UTF16, UCS4, UNI)
    if full or lead_kf:
        for st, lf in (pair if full else [(HI, fail)]):
            out.append((st, ('cell', 1, [(R(0), end if full else kf), (LO, lf), (rest(16, R(0), LO), fail)])))
        used = union(used, HI)
    if rest(16, used):
        out.append((rest(16, used), fail))
    return ('cell', 0, out)


def pair16(cell):
    return plus(const(0x10000), scale(bits(cell(0), 0, 10), 1 << 10), bits(cell(1), 0, 10))


def is_utf16(target, preds=()):
    ok = diff(inter(encodable(target), R((1, 0xFFFF))), R(SURR))
    t = u16nul(target, [(ok, conj(preds, lambda c: c(0), ('char', 1, [], 1), ('fail',)))],
               [(HI, conj(preds, pair16, ('char', 2, [], 1), ('fail',)))], ('end',), ('kf', 'tail'), False)
    return Spec('isUtf16', 'bool', t, 0)


def is_units(name, width, target, preds=()):
    ok = diff(inter(encodable(target), R((1, (1 << width) - 1))), R(SURR))
    t = ('cell', 0, [(R(0), ('end',)), (ok, conj(preds, lambda c: c(0), ('char', 1, [], 1), ('fail',))),
                     (rest(width, R(0), ok), ('fail',))])
    return Spec(name, 'bool', t, 0)


def is_ucs2(target, preds=()):
    return is_units('isUcs2', 16, target, preds)


def is_ucs4(target, preds=()):
    return is_units('isUcs4', 32, target, preds)


def never():
    return Spec('invalid range', 'bool', ('fail',), 0)


# ---------------------------------------------------------------- conversions
def split_lead(leaf_for_shapes):
    return leaf_for_shapes


def to_from8(target):
    """UTF-8 -> UCS-4 / UCS-2 / UTF-16"""
    def leaf(k, v):
        if target != UTF16:
            return ('char', k, [v], 1)
        if v is pairval:
            return ('char', 6, [
                lambda c: plus(const(0xD800), scale(bits(c(1), 0, 4), 64), bits(c(2), 0, 6)),
                lambda c: plus(const(0xDC00), scale(bits(c(4), 0, 4), 64), bits(c(5), 0, 6))], 1)
        if k == 4:
            return ('char', 4, [
                lambda c: plus(const(0xD7C0), scale(bits(c(0), 0, 3), 256), scale(bits(c(1), 0, 6), 4), bits(c(2), 4, 2)),
                lambda c: plus(const(0xDC00), scale(bits(c(2), 0, 4), 64), bits(c(3), 0, 6))], 1)
        return ('char', k, [v], 1)
    t = u8nul(target, leaf, ('end',), ('kf', 'tail'), ALL8)
    return Spec({UCS4: 'toUcs4', UCS2: 'toUcs2', UTF16: 'toUtf16'}[target], 'string', t, ())


def to8_from16():
    single = [(inter(R(r), diff(R((1, 0xFFFF)), R(SURR))), ('char', 1, fns(n, lambda c, n=n: enc8(c(0), n)), 1)) for r, n in LEN8[:3]]
    pair = []
    for k in range(16):
        u = k + 1

        def f(c, u=u):
            return [const(0xF0 + (u >> 2)), plus(const(0x80 + ((u & 3) << 4)), bits(c(0), 2, 4)),
                    plus(const(0x80), scale(bits(c(0), 0, 2), 16), bits(c(1), 6, 4)), plus(const(0x80), bits(c(1), 0, 6))]
        pair.append((R((0xD800 + 64 * k, 0xD83F + 64 * k)), ('char', 2, fns(4, f), 1)))
    return Spec('toUtf8', 'string', u16nul(UTF8, single, pair, ('end',), ('kf', 'tail'), True), ())


def to8_from32():
    br = [(R(0), ('end',))]
    used = R(0)
    for r, n in LEN8:
        s = diff(R(r), R(SURR))
        br.append((s, ('char', 1, fns(n, lambda c, n=n: enc8(c(0), n)), 1)))
        used = union(used, s)
    br.append((rest(32, used), ('fail',)))
    return Spec('toUtf8', 'string', ('cell', 0, br), ())


def to2_from32():
    s = diff(R((1, 0xFFFF)), R(SURR))
    return Spec('toUcs2', 'string', ('cell', 0, [(R(0), ('end',)), (s, ('char', 1, [lambda c: c(0)], 1)), (rest(32, R(0), s), ('fail',))]), ())


def to16_from32():
    s = diff(R((1, 0xFFFF)), R(SURR))
    p = R((0x10000, 0x10FFFF))
    return Spec('toUtf16', 'string', ('cell', 0, [
        (R(0), ('end',)), (s, ('char', 1, [lambda c: c(0)], 1)),
        (p, ('char', 1, [lambda c: addc(bits(c(0), 10, 11), 0xD7C0), lambda c: addc(bits(c(0), 0, 10), 0xDC00)], 1)),
        (rest(32, R(0), s, p), ('fail',))]), ())


def to4_from16():
    s = diff(R((1, 0xFFFF)), R(SURR))
    return Spec('toUcs4', 'string', u16nul(UCS4, [(s, ('char', 1, [lambda c: c(0)], 1))], [(HI, ('char', 2, [pair16], 1))],
                                           ('end',), ('kf', 'tail'), True), ())


# ---------------------------------------------------------------- counting
def len8():
    t = u8nul(UNI, lambda k, v: ('char', k, [], 1), ('kf', 'short', ('end', 'end-1')), ('kf', 'short', ('fail', 'end', 'end-1')), ALL8)
    t = retop(t, ('end',))
    return Spec('unicodeLength', 'count', t, 0)


def retop(t, end):
    return ('cell', 0, [(s, end if s == R(0) else x) for s, x in t[2]])


def len16():
    s = diff(R((1, 0xFFFF)), R(SURR))
    t = u16nul(UTF16, [(s, ('char', 1, [], 1))], [(HI, ('char', 2, [], 1))], ('kf', 'short', ('end', 'end-1')), None, True)
    return Spec('unicodeLength', 'count', retop(t, ('end',)), 0)


def len32():
    s = diff(R((1, 0xFFFFFFFF)), R(SURR))
    return Spec('unicodeLength', 'count', ('cell', 0, [(R(0), ('end',)), (s, ('char', 1, [], 1)), (R(SURR), ('fail',))]), 0)


# ---------------------------------------------------------------- explicit lengths
RMAX = (1 << 31) - 1


def by_length(t, inner=('fail',), top=None):
    """the same judgement when the end of the input is given by a length: running out of units takes the
    place of the terminator, and a NUL inside the input is malformed"""
    if t[0] == 'cell':
        end = [x for s, x in t[2] if s == R(0)]
        br = []
        for s, x in t[2]:
            if s == R(0):
                br.append((s, inner))
            else:
                br.append((s, by_length(x, inner)))
        c = ('cell', t[1], br)
        if not end:
            return c
        return ('rem', [(R((0, t[1])), end[0]), (R((t[1] + 1, RMAX)), c)])
    if t[0] == 'cond':
        return ('cond', t[1], t[2], by_length(t[3], inner), by_length(t[4], inner))
    if t[0] == 'char':
        return t[:4] + ('M',) if len(t) == 4 else t
    return t


def with_length(spec, first=('fail',)):
    m = by_length(spec.modes['S'])
    s = m
    if first != ('fail',):
        _, br = m
        s = ('rem', [(r, x if x[0] != 'cell' else ('cell', 0, [(b, first if b == R(0) else y) for b, y in x[2]])) for r, x in br])
    return Spec(spec.name + ' (length)', spec.kind, s, spec.fail, {'M': m})


def is_utf8_len(preds=()):
    return with_length(is_utf8(UTF8, preds), ('end',))


def len8_len():
    t = u8nul(UNI, lambda k, v: ('char', k, [], 1), ('end',), ('kf', 'tail'), ALL8)
    return with_length(Spec('unicodeLength', 'count', t, 0))


def len16_len():
    s = diff(R((1, 0xFFFF)), R(SURR))
    t = u16nul(UTF16, [(s, ('char', 1, [], 1))], [(HI, ('char', 2, [], 1))], ('end',), None, True)
    return with_length(Spec('unicodeLength', 'count', t, 0))


def len32_len():
    return with_length(len32())


# ---------------------------------------------------------------- lower case
def to_lower(table):
    """table: [(iset, delta)] over all 32-bit values"""
    br = [(s, ('char', 1, [lambda c, d=d: addc(c(0), d)], 1)) for s, d in table]
    return Spec('toLower', 'string', ('rem', [(R(0), ('end',)), (R((1, RMAX)), ('cell', 0, br))]), ())


# ---------------------------------------------------------------- one-sided forms
DC = ('kf', None, ('any',))


def replace(t, f):
    if t[0] == 'cell':
        return ('cell', t[1], [(s, replace(x, f)) for s, x in t[2]])
    if t[0] == 'rem':
        return ('rem', [(s, replace(x, f)) for s, x in t[1]])
    if t[0] == 'cond':
        return ('cond', t[1], t[2], replace(t[3], f), replace(t[4], f))
    return f(t)


def on_valid(spec):
    """only the inputs the specification does not reject"""
    return Spec(spec.name, spec.kind, None, spec.fail,
                {m: replace(t, lambda x: DC if x[0] in ('fail', 'kf') else x) for m, t in spec.modes.items()}, spec.endval)


def only_valid(spec):
    """a truth value that is never true for a rejected input (it may be false for others)"""
    return Spec(spec.name, spec.kind, None, spec.fail,
                {m: replace(t, lambda x: DC if x[0] in ('end',) else x) for m, t in spec.modes.items()}, spec.endval)


# ---------------------------------------------------------------- identity and code pages
def same(name, valid):
    """the input itself if valid() accepts it, else nothing"""
    src = valid

    def f(t):
        if t[0] == 'char':
            return ('char', t[1], [lambda c, i=i: c(i) for i in range(t[1])], t[3])
        return t
    s = Spec(name, 'string', None, (), {m: replace(t, f) for m, t in src.modes.items()})
    s.ident = True
    return s


def same_utf16(name):
    """16-bit units with paired surrogates; a lone first half at the very end stays"""
    ok = diff(R((1, 0xFFFF)), R(SURR))
    one = ('char', 1, [lambda c: c(0)], 1)
    two = ('char', 2, [lambda c: c(0), lambda c: c(1)], 1)
    s = Spec(name, 'string', ('cell', 0, [(R(0), ('end',)), (ok, one),
             (HI, ('cell', 1, [(R(0), one), (LO, two), (rest(16, R(0), LO), ('fail',))])), (LO, ('fail',))]), ())
    s.modes['S'] = s.modes['S']
    s.ident = True
    return s


def same_any(width):
    s = Spec('unchanged', 'string', ('cell', 0, [(R(0), ('end',)), (rest(width, R(0)), ('char', 1, [lambda c: c(0)], 1))]), ())
    s.ident = True
    return s


def nothing(name):
    return Spec(name, 'string', ('fail',), ())


def code_page(table):
    """table: {byte: code point or None}"""
    br = [(R(0), ('end',)), (R((1, 0x7F)), ('char', 1, [lambda c: c(0)], 1))]
    for b in range(0x80, 0x100):
        v = table[b]
        if v is None:
            br.append((R(b), ('fail',)))
        else:
            u = chr(v).encode('utf-8')
            br.append((R(b), ('char', 1, [lambda c, x=x: const(x) for x in u], 1)))
    return Spec('toUtf8 from a code page', 'string', ('cell', 0, br), ())


def round_trip(spec):
    """only inputs that are accepted and are the shortest form of their characters"""
    def no_pairs(t, ed):
        if t[0] == 'cell':
            if t[1] == 3 and ed:
                return DC
            return ('cell', t[1], [(s, no_pairs(x, ed if t[1] else not diff(s, R(0xED)))) for s, x in t[2]])
        if t[0] == 'rem':
            return ('rem', [(s, no_pairs(x, ed)) for s, x in t[1]])
        return t
    v = on_valid(spec)
    v.modes = {m: no_pairs(t, False) for m, t in v.modes.items()}
    return v
