"""The obligations of every property."""
import build
import oracle
import specs
from dom import *
from specs import U7, UTF8, UCS2, UTF16, UCS4, UNI
import run

RANGES = (U7, UTF8, UCS2, UTF16, UCS4, UNI)
RNAME = {U7: 'kAscii', UTF8: 'kUtf8', UCS2: 'kUcs2', UTF16: 'kUtf16', UCS4: 'kUcs4', UNI: 'kUnicode'}
AS, PR, CT, WS = run.CLASSES
# the predicates mk(k) of the harness
MK = {0: [], 1: [(AS, True)], 2: [(PR, True)], 3: [(CT, True)], 4: [(WS, True)], 5: [(AS, False)], 6: [(PR, False)], 7: [(CT, False)],
      8: [(WS, False)], 9: [(AS, True), (CT, False), (WS, False)], 10: [], 11: [], 12: [], 13: [], 14: [(AS, True)],
      15: [(WS, False), (CT, True), (AS, True), (PR, False)]}


def ob(name, fn, spec, sargs=(), **kw):
    d = dict(name=name, fn=fn, spec=spec, sargs=sargs, kind='spec', mode='nul')
    d.update(kw)
    d.setdefault('rule', 'the extracted transducer of %s is equivalent to the specification %s%r' % (fn, spec.__name__, tuple(sargs)))
    return d


# ---------------------------------------------------------------- validation
VALID = {'Utf8': (1, specs.is_utf8, UTF8), 'Utf16': (2, specs.is_utf16, UTF16), 'Ucs2': (2, specs.is_ucs2, UCS2),
         'Ucs4': (4, specs.is_ucs4, UCS4)}


def validation(f, preds=(), forms='ps', wrap=None):
    esz, spec, dflt = VALID[f]
    out = []

    def w(*a):
        return wrap(spec(*a)) if wrap else spec(*a)
    w.__name__ = spec.__name__
    for form in forms:
        mode = 'nul' if form == 'p' else 'str'
        ty = {'p': 'pointer', 's': 'basic_string'}[form]
        for r in RANGES:
            out.append(ob('is%s(%s, %s)' % (f, ty, RNAME[r]), 'h_is%s_%s' % (f, form), w, (r,), esz=esz, mode=mode, extra=(r,)))
        out.append(ob('is%s(%s)' % (f, ty), 'h_is%s_%sd' % (f, form), w, (dflt,), esz=esz, mode=mode))
    return out


def p01(tier):
    return validation('Utf8', forms='ps') + bad_ranges('Utf8')


def p02(tier):
    return validation('Utf16', forms='ps') + validation('Ucs2', forms='ps') + bad_ranges('Utf16') + bad_ranges('Ucs2')


def p03(tier):
    return validation('Ucs4', forms='ps') + bad_ranges('Ucs4')


def bad_ranges(f):
    esz = VALID[f][0]
    return [ob('is%s(pointer, any invalid range from %d)' % (f, r), 'h_is%s_p' % f, specs.never, esz=esz, extra=(('set', ((r, q),)),))
            for r, q in ((6, 0x7FFFFFFF), (0x80000000, 0xFFFFFFFF))] + [
            ob('is%s(pointer, invalid range %d)' % (f, r), 'h_is%s_p' % f, specs.never, esz=esz, extra=(r & 0xFFFFFFFF,))
            for r in (6, 7, 8, 31, 32, -1)]


# ---------------------------------------------------------------- conversion
CONV = [('toUcs4_8', 1, 4, specs.to_from8, (UCS4,)), ('toUcs2_8', 1, 2, specs.to_from8, (UCS2,)),
        ('toUtf16_8', 1, 2, specs.to_from8, (UTF16,)),
        ('toUtf8_16', 2, 1, specs.to8_from16, ()), ('toUcs4_16', 2, 4, specs.to4_from16, ()),
        ('toUtf8_32', 4, 1, specs.to8_from32, ()), ('toUcs2_32', 4, 2, specs.to2_from32, ()),
        ('toUtf16_32', 4, 2, specs.to16_from32, ())]


def conversion(names=None, forms='p', wrap=None):
    out = []
    for nm, esz, osz, spec, sargs in CONV:
        if names and nm not in names:
            continue

        def w(*a, spec=spec):
            return wrap(spec(*a)) if wrap else spec(*a)
        w.__name__ = spec.__name__
        for form in forms:
            out.append(ob('%s from %d-bit units (%s)' % (nm.split('_')[0], 8 * esz, {'p': 'pointer', 's': 'basic_string'}[form]),
                          'h_%s%s' % (nm, form), w, sargs, esz=esz, out=osz, mode='nul' if form == 'p' else 'str'))
    return out


def p04(tier):
    return conversion([c[0] for c in CONV if c[1] == 1], forms='ps')


def p05(tier):
    return conversion([c[0] for c in CONV if c[1] != 1], forms='ps')


def p06(tier):
    out = []
    for f in VALID:
        for o in validation(f, forms='ps', wrap=specs.only_valid):
            o['name'] = 'never accepts what cannot be converted: ' + o['name']
            out.append(o)
    for o in conversion(forms='ps', wrap=specs.on_valid):
        o['name'] = 'converts everything acceptable: ' + o['name']
        out.append(o)
    return out


# ---------------------------------------------------------------- safety
def pointer_calls():
    out = []
    for f in VALID:
        esz, spec, dflt = VALID[f]
        for r in RANGES:
            out.append(dict(name='is%s(pointer, %s)' % (f, RNAME[r]), fn='h_is%s_p' % f, mode='nul', esz=esz, extra=(r,)))
            out.append(dict(name='is%s(basic_string, %s)' % (f, RNAME[r]), fn='h_is%s_s' % f, mode='str', esz=esz, extra=(r,)))
        out.append(dict(name='is%s(pointer, range, predicate)' % f, fn='h_is%s_pp' % f, mode='nul', esz=esz, extra=(dflt, 9), cls=True))
        out.append(dict(name='is%s(basic_string, range, predicate)' % f, fn='h_is%s_sp' % f, mode='str', esz=esz, extra=(dflt, 9), cls=True))
    out.append(dict(name='isUtf8(pointer, length)', fn='h_isUtf8_l', mode='len', esz=1))
    out.append(dict(name='isUtf8(pointer, length, predicate)', fn='h_isUtf8_lp', mode='len', esz=1, extra=(9,), cls=True))
    for nm, esz, osz, _, _ in CONV:
        out.append(dict(name='%s (pointer)' % nm, fn='h_%sp' % nm, mode='nul', esz=esz, out=osz))
        out.append(dict(name='%s (basic_string)' % nm, fn='h_%ss' % nm, mode='str', esz=esz, out=osz))
    for k in range(4):
        out.append(dict(name='toUtf8(pointer, source encoding %d)' % k, fn='h_toUtf8_cp', mode='nul', esz=1, out=1, extra=(k,)))
    for b, esz in ((8, 1), (16, 2), (32, 4)):
        out.append(dict(name='unicodeLength (%d-bit pointer)' % b, fn='h_len%d_p' % b, mode='nul', esz=esz))
        out.append(dict(name='unicodeLength (%d-bit pointer, length)' % b, fn='h_len%d_l' % b, mode='len', esz=esz))
        out.append(dict(name='unicodeLength (%d-bit basic_string)' % b, fn='h_len%d_s' % b, mode='str', esz=esz))
    out.append(dict(name='toLower (UCS-4)', fn='h_lower32d', mode='str', esz=4, out=4))
    out.append(dict(name='toLower (UCS-4, language)', fn='h_lower32', mode='str', esz=4, out=4, extra=(('lang', ()),), weight=3))
    out.append(dict(name='toLower (UTF-16)', fn='h_lower16d', mode='str', esz=2, out=2, weight=4))
    out.append(dict(name='toLower (UTF-8)', fn='h_lower8d', mode='str', esz=1, out=1, weight=5))
    for w, esz in ((8, 1), (16, 2), (32, 4)):
        out.append(dict(name='trim (%d-bit)' % w, fn='h_trim%d' % w, mode='str', esz=esz, inplace=True))
    for w, esz in ((16, 2), (32, 4)):
        out.append(dict(name='trimWhiteSpace (%d-bit)' % w, fn='h_trimws%d' % w, mode='str', esz=esz, inplace=True))
    out.append(dict(name='trimAscii7WhiteSpace', fn='h_trim7', mode='str', esz=1, inplace=True))
    return out


def null_calls():
    out = []
    for f in VALID:
        e = VALID[f][0]
        for fn, x in (('h_is%s_p' % f, (1,)), ('h_is%s_pd' % f, ()), ('h_is%s_po' % f, (9,)), ('h_is%s_pp' % f, (1, 9))):
            out.append(dict(name='is%s(null) %s' % (f, fn), fn=fn, mode='null', esz=e, extra=x, want=1, kind='null'))
    out.append(dict(name='isUtf8(null, length)', fn='h_isUtf8_l', mode='nullen', len=5, want=1, kind='null'))
    out.append(dict(name='isUtf8(null, length, predicate)', fn='h_isUtf8_lp', mode='nullen', len=5, want=1, extra=(9,), kind='null'))
    for nm, esz, osz, _, _ in CONV:
        out.append(dict(name='%s(null)' % nm, fn='h_%sp' % nm, mode='null', out=osz, kind='null'))
    for k in range(4):
        out.append(dict(name='toUtf8(null, source encoding %d)' % k, fn='h_toUtf8_cp', mode='null', out=1, extra=(k,), kind='null'))
    for b in (8, 16, 32):
        out.append(dict(name='unicodeLength(null, %d-bit)' % b, fn='h_len%d_p' % b, mode='null', want=0, kind='null'))
        out.append(dict(name='unicodeLength(null, length, %d-bit)' % b, fn='h_len%d_l' % b, mode='nullen', len=5, want=0, kind='null'))
    for o in out:
        o['rule'] = 'a call with a null pointer returns the neutral result and touches no memory'
    return out


def p07(tier):
    out = []
    for o in pointer_calls():
        o.update(kind='safe', watch=run.SAFETY + ('throw',),
                 rule='no path reads or writes outside an object, dereferences null, recurses without bound or throws')
        out.append(o)
    return out + null_calls() + more_safe(tier)


def more_safe(tier):
    out = []
    for t, nm in ((('set', full(32)), 'any type'), (5, 'type 5'), (6, 'type 6'), (0xFFFFFFFF, 'type -1')):
        for p in (0, 1):
            for w in (8, 16, 32):
                out.append(dict(name='%spredicate of %s applied to a %d-bit character' % ('' if p else 'negated ', nm, w), fn='h_pred%d_2' % w, mode='none',
                                extra=(1, 1, t, p, ('set', full(w), w))))
    for w, esz in ((16, 2), (8, 1)):
        for nm, x in (('null', 'null'), ('tr', lang('tr'))):
            out.append(dict(name='toLower (UTF-%d, language %s)' % (w, nm), fn='h_lower%d' % w, mode='str', esz=esz, out=esz, extra=(x,), weight=5))
    for w, esz in ((8, 1), (16, 2), (32, 4)):
        for sp in ((), (0x41, 0x20)):
            out.append(dict(name='trim with a set of %d (%d-bit)' % (len(sp), w), fn='h_trimset%d' % w, mode='str', esz=esz, inplace=True, extra=(('str', sp),)))
    for bits in (32, 16):
        for o in wide_obs(bits):
            if o.get('kind', 'spec') == 'spec':
                out.append({k: v for k, v in o.items() if k not in ('spec', 'sargs', 'alts')})
    for k in ('_MBCS', '_UNICODE'):
        for o in tchar_obs(k):
            if o.get('kind', 'spec') == 'spec':
                out.append({k: v for k, v in o.items() if k not in ('spec', 'sargs', 'alts')})
    for o in out:
        o.update(kind='safe', watch=run.SAFETY + ('throw',), rule='no path reads or writes outside an object, dereferences null, recurses without bound or throws')
    return out


# ---------------------------------------------------------------- counting, explicit lengths
def p08(tier):
    out = []
    for b, esz, s, sl in ((8, 1, specs.len8, specs.len8_len), (16, 2, specs.len16, specs.len16_len), (32, 4, specs.len32, specs.len32_len)):
        out.append(ob('unicodeLength (%d-bit, NUL-terminated)' % b, 'h_len%d_p' % b, s, esz=esz))
        out.append(ob('unicodeLength (%d-bit, given length)' % b, 'h_len%d_l' % b, sl, esz=esz, mode='len'))
        out.append(ob('unicodeLength (%d-bit, basic_string)' % b, 'h_len%d_s' % b, s, esz=esz, mode='str'))
    return out


def p09(tier):
    out = [ob('isUtf8 (pointer, length)', 'h_isUtf8_l', specs.is_utf8_len, mode='len')]
    for k in ((9,) if tier == 'quick' else sorted(MK)):
        out.append(ob('isUtf8 (pointer, length, predicate %d)' % k, 'h_isUtf8_lp', specs.is_utf8_len, (MK[k],), mode='len', extra=(k,), cls=True))
    return out


# ---------------------------------------------------------------- character classes, predicates
TYPES = {1: AS, 2: PR, 3: CT, 4: WS}


def full(w):
    return ((0, (1 << w) - 1),)


def holds(n, w, lits):
    s = full(w)
    cl = oracle.classes(n)
    for name, want in lits:
        s = inter(s, cl[name]) if want else diff(s, cl[name])
    return s


def setob(name, fn, w, n, lits, extra):
    return dict(name=name, fn=fn, w=w, n=n, kind='set', mode='none', extra=extra, set=holds(n, w, lits),
                rule='the exact set of values for which the predicate returns true equals the reference set')


def p10(tier):
    out = []
    for n in build.versions():
        for k in range(1, 9):
            for w in (32, 16, 8):
                nm, pol = MK[k][0]
                out.append(setob('Unicode %d: %s%s on %d-bit values' % (n, '' if pol else 'not ', nm[2:], w), 'h_pred%d' % w, w, n, MK[k], (k,)))
    return out


def lit(t, p):
    return [(TYPES[t], bool(p))] if t in TYPES else []


ODD = (0, 5)


def p11(tier):
    out = []
    for k in sorted(MK):
        for w in (32, 16, 8):
            out.append(setob('predicate %d on %d-bit values' % (k, w), 'h_pred%d' % w, w, 16, MK[k], (k,)))
    tys = (0, 1, 2, 3, 4, 5)
    for t1 in tys:
        for p1 in (0, 1):
            for t2 in tys:
                for p2 in (0, 1):
                    for w in (32, 16, 8):
                        out.append(setob('%s%d and %s%d on %d-bit values' % ('' if p1 else 'not ', t1, '' if p2 else 'not ', t2, w),
                                         'h_pred%d_2' % w, w, 16, lit(t1, p1) + lit(t2, p2), (t1, p1, t2, p2)))
    for bad in (0xFFFFFFFF, 6, 31, 32, 33, 0x80000000, 0x7FFFFFFF, 257):
        for p in (0, 1):
            out.append(setob('invalid type %d' % bad, 'h_pred32_2', 32, 16, [], (bad, p, 0, 1)))
            for t in (1, 3):
                out.append(setob('type %d and invalid type %d' % (t, bad), 'h_pred32_2', 32, 16, lit(t, 1), (t, 1, bad, p)))
    for t1 in (1, 2, 3, 4):
        for p1 in (0, 1):
            for t2 in (1, 2, 3, 4):
                for p2 in (0, 1):
                    for t3 in ((1, 2, 3, 4) if tier == 'thorough' else (t1,)):
                        for p3 in (0, 1):
                            out.append(setob('%d%d%d%d%d%d' % (t1, p1, t2, p2, t3, p3), 'h_pred32_3', 32, 16,
                                             lit(t1, p1) + lit(t2, p2) + lit(t3, p3), (t1, p1, t2, p2, t3, p3)))
    eq = {}
    for a in sorted(MK):
        for b in sorted(MK):
            same = sorted(MK[a]) == sorted(MK[b])
            out.append(dict(name='predicates %d and %d are %s' % (a, b, 'equal' if same else 'different'), fn='h_predeq', kind='const',
                            mode='none', extra=(a, b), want=int(same), rule='two predicates are equal exactly when they have the same conditions'))
            out.append(dict(name='predicates %d and %d: !=' % (a, b), fn='h_predne', kind='const', mode='none', extra=(a, b), want=int(not same)))
        out.append(dict(name='predicate %d equals itself' % a, fn='h_predself', kind='const', mode='none', extra=(a,), want=1))
    two = [(t1, p1, t2, p2) for t1 in range(5) for p1 in (1, 0) for t2 in range(5) for p2 in (1, 0) if t1 or p1]
    if tier != 'thorough':
        two = [x for x in two if x[2] or x[3]]
    out += eqtable(two, 2)
    out += eqtable([(t, p, u, q, v, r) for t in (1, 3) for p in (1, 0) for u in (1, 3, 4) for q in (1, 0) for v in (1, 4) for r in (1, 0)], 3)
    for ps in range(16):
        q = [(ps >> i) & 1 for i in range(4)]
        for order in ((1, 2, 3, 4), (4, 2, 1, 3)):
            ex = tuple(x for t in order for x in (t, q[t - 1]))
            out.append(setob('%s' % (ex,), 'h_pred32_4', 32, 16, sum([lit(t, q[t - 1]) for t in order], []), ex))
    return out


def eqtable(preds, k):
    out = []
    for x in preds:
        cases, neq = [], []
        sx = conds(x)
        for y in preds:
            sy = conds(y)
            if sx != sy and contrary(sx) and contrary(sy):
                continue
            cases.append((x + y, int(sx == sy)))
            neq.append((x + y, int(sx != sy)))
        rule = 'equal exactly when the conditions are the same, order and repetition aside'
        out.append(dict(name='%s against %d others' % (x, len(preds)), fn='h_predeq%d' % k, kind='table', mode='none', cases=cases, rule=rule))
        if k == 2:
            out.append(dict(name='%s against %d others, !=' % (x, len(preds)), fn='h_predne2', kind='table', mode='none', cases=neq, rule=rule))
    return out


def conds(x):
    return frozenset((x[i], bool(x[i + 1])) for i in range(0, len(x), 2) if x[i] in TYPES)


def contrary(s):
    return any((t, not p) in s for t, p in s)


def p12(tier):
    out = []
    ks = sorted(MK)
    for f in VALID:
        esz, spec, dflt = VALID[f]
        for k in ks:
            for r in RANGES:
                for form, mode, ty in (('p', 'nul', 'pointer'), ('s', 'str', 'basic_string')):
                    if form == 's' and r != dflt and tier == 'quick':
                        continue
                    out.append(ob('is%s(%s, %s, predicate %d)' % (f, ty, RNAME[r], k), 'h_is%s_%sp' % (f, form), spec, (r, MK[k]), esz=esz,
                                  mode=mode, extra=(r, k), cls=True))
            for form, mode, ty in (('p', 'nul', 'pointer'), ('s', 'str', 'basic_string')):
                out.append(ob('is%s(%s, predicate %d)' % (f, ty, k), 'h_is%s_%so' % (f, form), spec, (dflt, MK[k]), esz=esz, mode=mode,
                              extra=(k,), cls=True))
    for k in ks:
        out.append(ob('isUtf8 (pointer, length, predicate %d)' % k, 'h_isUtf8_lp', specs.is_utf8_len, (MK[k],), mode='len', extra=(k,), cls=True))
    return out


# ---------------------------------------------------------------- lower case
TURKIC = oracle.TURKIC


def lang(word):
    b = [ord(c) for c in word]
    return ('lang', [tuple(b)], [((c, c),) for c in b + [0]])


def lang_boxes():
    """a partition of all other language strings: (description, 'lang' argument)"""
    nodes = {w[:i] for w in TURKIC for i in range(len(w) + 1)}
    out = []
    for p in sorted(nodes):
        kids = {w[len(p)] for w in nodes if len(w) == len(p) + 1 and w.startswith(p)}
        s = diff(((0, 255),), norm([(ord(k), ord(k)) for k in kids]))
        if p in TURKIC:
            s = diff(s, ((0, 0),))
        b = [ord(c) for c in p]
        samples = []
        for c in sorted({s[0][0], s[-1][1], ord('x') if contains(s, ord('x')) else s[-1][0], ord('-') if contains(s, ord('-')) else s[0][1]}):
            samples += [tuple(b)] if c == 0 else [tuple(b) + (c,), tuple(b) + (c, 0x72), tuple(b) + (c, 0x54, 0x52)]
        out.append((p, ('lang', samples, [((c, c),) for c in b] + [s])))
    return out


def lower_ob(name, fn, n, turkic, extra):
    d = ob(name, fn, specs.to_lower, (oracle.lower(n, turkic),), n=n, mode='str', esz=4, out=4, extra=extra, weight=3,
           rule='the extracted transducer of toLower maps every character as the Unicode data says')
    if oracle.LOWER_KNOWN[n]:
        d['alts'] = [('lower%d' % n, specs.to_lower, (oracle.lower(n, turkic, True),))]
    return d


def p13(tier):
    out = []
    for n in build.versions():
        out.append(lower_ob('Unicode %d: toLower' % n, 'h_lower32d', n, False, ()))
        out.append(lower_ob('Unicode %d: toLower, Turkic' % n, 'h_lower32', n, True, (lang('tr'),)))
    return out


def p14(tier):
    out = [lower_ob('toLower, no language', 'h_lower32d', 16, False, ()), lower_ob('toLower, null language', 'h_lower32', 16, False, ('null',))]
    for w in TURKIC:
        out.append(lower_ob('toLower, language %s' % w, 'h_lower32', 16, True, (lang(w),)))
    for p, x in lang_boxes():
        out.append(lower_ob('toLower, other languages beginning "%s"' % p, 'h_lower32', 16, False, (x,)))
    for o in out:
        o['alts'] = [(None,) + o['alts'][0][1:]] if o.get('alts') else ()
        o['rule'] = 'I and dotted I are treated the Turkic way exactly for the ten Turkic language codes'
    return out


# ---------------------------------------------------------------- split, join, trim
def delims(w):
    top = (1 << w) - 1
    return sorted({0, 1, 0x2C, 0x7F, 0x80, 0xFF & top, top >> 1, (top >> 1) + 1, top})


def many(deep):
    """numbers of delimiters (or of strings) for which the parts are symbolic"""
    more = (24, 31, 32, 33, 40, 63, 64, 65, 100, 127, 128, 129)
    return tuple(range(0, 41 if deep else 21)) + tuple(x for x in more if not deep or x > 40)


def p17(tier):
    out = []
    deep = tier == 'thorough'
    for w, esz in ((8, 1), (16, 2), (32, 4)):
        for d in delims(w):
            al = diff(full(w), ((d, d),))
            for k in many(deep) if d == 0x2C else range(0, 41 if deep else 5):
                parts = [('run', al)]
                for _ in range(k):
                    parts += [('k', d), ('run', al)]
                out.append(dict(kind='split', fn='h_split%d' % w, esz=esz, delim=d, parts=parts, weight=1 + k / 10,
                                name='split at %X, %d-bit units, %d delimiters, fields of any length' % (d, w, k)))
            for k in (((254, 255, 256, 257, 258) if w == 8 or deep else (257,)) + (520,) * deep) if d == 0x2C else ():
                parts = [('run', al)]
                for _ in range(k):
                    parts += [('k', d), ('u', al)]
                out.append(dict(kind='split', fn='h_split%d' % w, esz=esz, delim=d, parts=parts, weight=20 + k / 10,
                                name='split at %X, %d-bit units, %d delimiters, fields of one unit' % (d, w, k)))
            for n in range(0, (7 if deep else 6) if d == 0x2C else 4):
                out.append(dict(kind='split', fn='h_split%d' % w, esz=esz, delim=d, parts=[('u', full(w))] * n, weight=1 + n / 2,
                                name='split at %X, any %d %d-bit units' % (d, n, w)))
    for o in out:
        o['rule'] = 'the parts returned are exactly the stretches between delimiters, in order'
    return out


def p18(tier):
    out = []
    deep = tier == 'thorough'
    for w, esz in ((8, 1), (16, 2), (32, 4)):
        for d in delims(w):
            for k in many(deep) + (511, 512, 513, 600) * (w == 8) if d == 0x2C else range(0, 33 if deep else 5):
                out.append(dict(kind='join', fn='h_join%d' % w, esz=esz, delim=d, parts=[[('run', full(w))]] * k, weight=1 + k / 10,
                                name='join with %X, %d strings of any length, %d-bit units' % (d, k, w)))
            if d == 0x2C:
                for ns in ((0,), (1,), (2, 0), (0, 1), (1, 1, 2), (0, 0, 0), (2, 1, 0, 2)):
                    out.append(dict(kind='join', fn='h_join%d' % w, esz=esz, delim=d, parts=[[('u', full(w))] * n for n in ns],
                                    name='join with %X, strings of %s %d-bit units' % (d, ns, w)))
    for o in out:
        o['rule'] = 'the result is the strings in order with one delimiter between neighbours'
    return out


def trim_obs(fn, w, inside, what, spaces=None, deep=False):
    esz = w // 8
    inside = inter(inside, full(w))
    x = dict(extra=(('str', spaces),)) if spaces is not None else {}
    out = [dict(kind='trim', fn=fn, esz=esz, mode='str', inplace=True, inside=inside, name='%s, %d-bit, any length' % (what, w), weight=2, **x)]
    y = dict(spaces=spaces) if spaces is not None else {}
    rest = diff(full(w), inside)
    runs = [[]]
    if inside:
        runs += [[('run', inside)]]
    if rest:
        runs += [[('run', inside)] * bool(inside) + [('u', rest)] + [('run', inside)] * bool(inside),
                 [('run', inside)] * bool(inside) + [('u', rest), ('run', full(w)), ('u', rest)] + [('run', inside)] * bool(inside)]
    out[0].update(runs=runs, **y)
    for n in range(0, 7 if deep else 6):
        out.append(dict(kind='trimshape', fn=fn, esz=esz, parts=[('u', full(w))] * n, inside=inside, name='%s, any %d %d-bit units' % (what, n, w), **y))
    for o in out:
        o['rule'] = 'what remains is the window between the outermost units that are not in the set'
    return out


ASCII7 = norm([(9, 10), (13, 13), (32, 32)])


def p19(tier):
    out = []
    deep = tier == 'thorough'
    for w in (8, 16, 32):
        top = (1 << w) - 1
        out += trim_obs('h_trim%d' % w, w, ((32, 32),), 'trim', deep=deep)
        for sp in ((), (0x41,), (0,), (top,), (0x20, 0x09), (top, 0x80, 0), (0x39, 0x30, 0x35, 0x30, 0x31), (0x7F, 0x80, 0xFF & top, 0x61)):
            out += trim_obs('h_trimset%d' % w, w, norm([(c, c) for c in sp]), 'trim with set %s' % '/'.join('%X' % c for c in sp), spaces=sp, deep=deep)
    out += trim_obs('h_trim7', 8, ASCII7, 'trimAscii7WhiteSpace', deep=deep)
    return out


def p20(tier):
    out = []
    for w in (16, 32):
        out += trim_obs('h_trimws%d' % w, w, oracle.WHITESPACE, 'trimWhiteSpace', deep=tier == 'thorough')
    out.append(dict(kind='term', fn='h_trimws8', mode='str', esz=1, inplace=True, parts=('toUcs4_8', 'trimWhiteSpace_32', 'toUtf8_32'),
                    want=('toUtf8_32', ('trimWhiteSpace_32', ('toUcs4_8', 'src'))), name='trimWhiteSpace, UTF-8',
                    rule='the UTF-8 form trims the decoded code points'))
    return out


def p15(tier):
    out = []
    for w, enc in ((8, 'toUtf8'), (16, 'toUtf16')):
        dec = 'toUcs4_%d' % w
        parts = (dec, 'toLower_32', enc + '_32')
        for fn, lg, x, tk in (('h_lower%dd' % w, 'null', (), False), ('h_lower%d' % w, 'null', ('null',), False),
                              ('h_lower%d' % w, 'lang', (lang('tr'),), True), ('h_lower%d' % w, 'lang', (('lang', ()),), True)):
            out.append(dict(kind='term', fn=fn, mode='str', esz=w // 8, out=w // 8, extra=x, parts=parts, turkic=tk,
                            want=(enc + '_32', ('toLower_32', (dec, 'src'), lg)),
                            name='toLower on %d-bit units, %s' % (w, {'null': 'no language', 'lang': 'language passed on'}[lg] + (' (default)' if not x else '')),
                            rule='the result is the lower-cased code points in the same form, with the same language'))
    return out


# ---------------------------------------------------------------- code pages
def p16(tier):
    out = [ob('toUtf8 from Unicode', 'h_toUtf8_cp', specs.same_any, (8,), out=1, extra=(0,), rule='UTF-8 is passed through unchanged')]
    for k, cp in ((1, 'cp1252'), (2, 'cp1250')):
        out.append(ob('toUtf8 from %s' % cp, 'h_toUtf8_cp', specs.code_page, (oracle.code_page(cp),), out=1, extra=(ENC[cp],),
                      rule='every byte becomes the UTF-8 of the character the code page assigns to it'))
    for lo, hi in ((3, 0x7FFFFFFF), (0x80000000, 0xFFFFFFFF)):
        out.append(ob('toUtf8 from an unknown encoding', 'h_toUtf8_cp', specs.nothing, ('toUtf8',), out=1, extra=(('set', ((lo, hi),)),)))
    for k in (3, 4, 255, 256, 257, 0xFFFFFFFF):
        out.append(ob('toUtf8 from unknown encoding %d' % k, 'h_toUtf8_cp', specs.nothing, ('toUtf8',), out=1, extra=(k,)))
    return out


ENC = {'cp1252': 1, 'cp1250': 2}


# ---------------------------------------------------------------- wchar_t, TCHAR
def wide_obs(bits):
    """the wchar_t part of the API for 32-bit and 16-bit wchar_t"""
    out = []
    w = bits // 8
    short = bits == 16
    kw = dict(harness=('wide.cxx',), flags=('-fshort-wchar',) if short else ())
    valid = specs.is_utf16 if short else specs.is_ucs4
    rng = {'Utf8': UTF8, 'Utf16': UTF8, 'Ucs2': UCS2, 'Ucs4': UCS4} if short else {'Utf8': UTF16, 'Utf16': UTF16, 'Ucs2': UCS2, 'Ucs4': UTF16}
    conv = {'Utf8': (1, specs.to8_from16, ()), 'Utf16': (2, specs.same_utf16, ('toUtf16',)), 'Ucs2': (2, same_ucs2, ()),
            'Ucs4': (4, specs.to4_from16, ())} if short else {
            'Utf8': (1, specs.to8_from32, ()), 'Utf16': (2, specs.to16_from32, ()), 'Ucs2': (2, specs.to2_from32, ()), 'Ucs4': (4, same_ucs4, ())}
    isw = {8: (specs.is_utf8, (UTF16,)), 16: (specs.is_utf16, (UTF16 if short else UCS4,)), 32: (specs.is_ucs4, (UTF16,))}
    tow = {8: (specs.to_from8, (UTF16,)), 16: (specs.same_utf16, ('toWstring',)), 32: (specs.to16_from32, ())} if short else {
           8: (specs.to_from8, (UCS4,)), 16: (specs.to4_from16, ()), 32: (same_ucs4, ())}
    for form, mode, ty in (('p', 'nul', 'pointer'), ('s', 'str', 'wstring')):
        for f in rng:
            out.append(ob('is%s (%d-bit wchar_t, %s)' % (f, bits, ty), 'w_is%s_%s' % (f, form), valid, (rng[f],), esz=w, mode=mode, **kw))
            o, s, a = conv[f]
            out.append(ob('to%s (%d-bit wchar_t, %s)' % (f, bits, ty), 'w_to%s_%s' % (f, form), s, a, esz=w, out=o, mode=mode, **kw))
        for b in (8, 16, 32):
            ty2 = 'pointer' if form == 'p' else 'basic_string'
            s, a = isw[b]
            out.append(ob('isWstring (%d-bit wchar_t, %d-bit %s)' % (bits, b, ty2), 'w_isW_%d%s' % (b, form), s, a, esz=b // 8, mode=mode, **kw))
            s, a = tow[b]
            out.append(ob('toWstring (%d-bit wchar_t, %d-bit %s)' % (bits, b, ty2), 'w_toW_%d%s' % (b, form), s, a, esz=b // 8, out=w, mode=mode, **kw))
    for f in rng:
        out.append(dict(name='is%s(null %d-bit wchar_t pointer)' % (f, bits), fn='w_is%s_p' % f, mode='null', want=1, kind='null', **kw))
        out.append(dict(name='to%s(null %d-bit wchar_t pointer)' % (f, bits), fn='w_to%s_p' % f, mode='null', out=conv[f][0], kind='null', **kw))
    for b in (8, 16, 32):
        out.append(dict(name='isWstring(null %d-bit pointer), %d-bit wchar_t' % (b, bits), fn='w_isW_%dp' % b, mode='null', want=1, kind='null', **kw))
        out.append(dict(name='toWstring(null %d-bit pointer), %d-bit wchar_t' % (b, bits), fn='w_toW_%dp' % b, mode='null', out=w, kind='null', **kw))
    return out


def same_ucs2():
    return specs.same('toUcs2', specs.is_ucs2(UCS2))


def same_ucs4():
    return specs.same('toUcs4', specs.is_ucs4(UTF16))


def tchar_obs(kind):
    out = []
    kw = dict(harness=('tchar.cxx',), flags=('-fshort-wchar', '-DWIN32', '-D' + kind))
    w = 1 if kind == '_MBCS' else 2
    tot = {8: same_ascii} if w == 1 else {8: lambda: specs.to_from8(UTF16), 16: lambda: specs.same_any(16), 32: specs.to16_from32}
    ist = {8: (specs.is_utf8, (UTF16,)), 16: (specs.is_utf16, (UTF16,)), 32: (specs.is_ucs4, (UTF16,))}
    for form, mode, ty in (('p', 'nul', 'pointer'), ('s', 'str', 'basic_string')):
        for f, r in (('Utf16', UTF16), ('Ucs2', UCS2), ('Ucs4', UCS4)):
            out.append(ob('is%s (%s char %s)' % (f, kind, ty), 't_is%s_%s' % (f, form), specs.is_utf8, (r,), esz=1, mode=mode, **kw))
        out.append(ob('toUtf8 (%s char %s)' % (kind, ty), 't_toUtf8_' + form, same_utf8, (), esz=1, out=1, mode=mode, **kw))
        for b in (8, 16, 32):
            s, a = ist[b]
            out.append(ob('isTstring (%s, %d-bit %s)' % (kind, b, ty), 't_isT_%d%s' % (b, form), s, a, esz=b // 8, mode=mode, **kw))
            if w == 1 and b > 8:
                continue
            out.append(ob('toTstring (%s, %d-bit %s)' % (kind, b, ty), 't_toT_%d%s' % (b, form), tot[b], (), esz=b // 8, out=w, mode=mode, **kw))
    for b in (8, 16, 32):
        out.append(dict(name='toTstring(null %d-bit pointer), %s' % (b, kind), fn='t_toT_%dp' % b, mode='null', out=w, kind='null', **kw))
    out.append(dict(name='toUtf8(null char pointer), %s' % kind, fn='t_toUtf8_p', mode='null', out=1, kind='null', **kw))
    return out


def same_ascii():
    return specs.same('toTstring', specs.is_utf8(U7))


def same_utf8():
    return specs.same('toUtf8', specs.is_utf8(UTF8))


def p21(tier):
    out = wide_obs(32) + wide_obs(16)
    for o in out:
        o.setdefault('rule', 'the wchar_t form behaves as the form of the same width')
    return out


def p22(tier):
    out = []
    for k in ('_MBCS', '_UNICODE'):
        out += tchar_obs(k)
    return out


# ---------------------------------------------------------------- basic_string forms, round trips
def p23(tier):
    out = []
    for f in VALID:
        out += validation(f, forms='s')
    out += conversion(forms='s')
    for o in out:
        o['rule'] = 'the basic_string form gives what the pointer form gives for the text up to its first zero unit'
    return out


BACK = {'toUtf16_8': 'toUtf8_16', 'toUcs4_8': 'toUtf8_32', 'toUcs2_8': 'toUtf8_16', 'toUtf8_16': 'toUtf16_8', 'toUcs4_16': 'toUtf16_32',
        'toUtf8_32': 'toUcs4_8', 'toUtf16_32': 'toUcs4_16', 'toUcs2_32': 'toUcs4_16'}


def p26(tier):
    out = []
    byname = {c[0]: c for c in CONV}
    for o in conversion(wrap=specs.round_trip):
        nm = o['fn'][2:-1]
        b = byname[BACK[nm]]
        o.update(kind='round', back='h_%sp' % b[0], bspec=b[3], bargs=b[4], name='%s and back by %s' % (nm, b[0]),
                 rule='each leg maps accepted text to the specified text, and the specified mappings are inverse to each other')
        out.append(o)
    return out


# ---------------------------------------------------------------- termination, shared state, version
def p24(tier):
    out = []
    for o in pointer_calls() + [x for x in more_safe(tier) if not x['fn'].startswith('h_pred')]:
        o.update(kind='halts', rule='every cycle advances a position that the input bounds; no unbounded recursion')
        out.append(o)
    return out


def p25(tier):
    out = []
    for n in build.versions():
        for k, t in (('shared', 'no writes to shared objects'), ('consts', 'no writes through const parameters')):
            out.append(dict(name='Unicode %d: %s' % (n, t), kind=k, n=n, fn='-', mode='none',
                            rule='effect analysis over the call graph from every public function'))
    for h, fl in (('wide.cxx', ()), ('wide.cxx', ('-fshort-wchar',)), ('tchar.cxx', ('-fshort-wchar', '-DWIN32', '-D_MBCS'))):
        for k in ('shared', 'consts'):
            out.append(dict(name='%s %s: %s' % (h, ' '.join(fl), k), kind=k, harness=(h,), flags=fl, fn='-', mode='none',
                            rule='effect analysis over the call graph from every public function'))
    for o in pointer_calls():
        o.update(kind='safe', watch=('input-write', 'global-write') if not o.get('inplace') else ('global-write',),
                 rule='no path writes to the input or to an object that outlives the call')
        out.append(o)
    return out


def p27(tier):
    return [dict(name='Unicode %d: getUnicodeVersionSupported' % n, kind='text', n=n, fn='h_version', mode='none', out=1, want='%d.0.0' % n,
                 rule='the version reported is that of the character data compiled in') for n in build.versions()]


PROPS = {'P23': p23, 'P24': p24, 'P25': p25, 'P26': p26, 'P27': p27, 'P16': p16, 'P21': p21, 'P22': p22, 'P01': p01, 'P02': p02, 'P03': p03, 'P04': p04, 'P05': p05, 'P06': p06, 'P07': p07, 'P08': p08, 'P09': p09, 'P10': p10, 'P11': p11, 'P12': p12, 'P13': p13, 'P14': p14, 'P17': p17, 'P18': p18, 'P19': p19, 'P20': p20, 'P15': p15}
