"""Compositions: an entry point whose result is an expression over other public functions.

The named functions are summarised as terms; the result of the entry point must be the expected term
(or empty where the expected term is empty for lack of input)."""
import re
import specs
import trans
import oracle
import shape
from dom import *
from dom import A
from state import *

SIZES = {'char': '8', 'char16_t': '16', 'char32_t': '32', 'wchar_t': 'w'}


def public(m, names):
    """opaque table for the named public functions: demangled name -> (canonical name, kind)"""
    out = {}
    for f in m.funcs.values():
        d = f.dem.replace('[abi:cxx11]', '')
        g = re.match(r'ansak::(\w+)\((.*)\)$', d)
        if not g:
            continue
        fn, a = g.groups()
        first = a.split(',')[0]
        k = re.search(r'\b(char16_t|char32_t|wchar_t|char)\b', first)
        if not k or 'SourceEncoding' in a:
            continue
        src = SIZES[k.group(1)]
        name = '%s_%s' % (fn, src)
        if name not in names:
            continue
        if fn.startswith('trim'):
            out[d] = (name, 'inpl%d' % (int(src) // 8))
        elif fn.startswith('is'):
            out[d] = (name, 'bool')
        else:
            sz = {'toUcs4': 4, 'toUcs2': 2, 'toUtf16': 2, 'toUtf8': 1}.get(fn) or int(src) // 8
            out[d] = (name, 'str%d' % sz)
    return out


def plain(x, R):
    """canonical form of a term: string values and buffers of the input are 'src'"""
    if isinstance(x, tuple) and x and x[0] in ('strval', 'cs'):
        return pieces(x[1], R)
    if isinstance(x, tuple) and x and x[0] == 'at':
        return 'src' if x[1] == R and x[2] == ZERO else 'lang' if x[1] != R and x[2] == ZERO else ('at', x[1:])
    if x == ('null',):
        return 'null'
    return x


def pieces(pc, R):
    if len(pc) == 1:
        p = pc[0]
        if p[0] == 'in' and p[1] == R and p[2] == ZERO:
            return 'src' if len(p[3][1]) == 1 and p[3][0] == 0 else ('part', p)
        if p[0] == 'cstr' and p[1] == R and p[2] == ZERO:
            return 'src'
        if p[0] == 'app':
            return (p[1][0],) + tuple(plain(y, R) for y in p[1][1:])
    if not pc:
        return 'empty'
    return ('pieces', pc)


def subterms(t):
    if isinstance(t, tuple):
        yield t
        for x in t[1:]:
            yield from subterms(x)


# ---------------------------------------------------------------- evaluation on one input
def conv(name, units):
    f = {'toUcs4_8': lambda: specs.to_from8(specs.UCS4), 'toUcs2_8': lambda: specs.to_from8(specs.UCS2),
         'toUtf16_8': lambda: specs.to_from8(specs.UTF16), 'toUtf8_16': specs.to8_from16, 'toUcs4_16': specs.to4_from16,
         'toUtf8_32': specs.to8_from32, 'toUcs2_32': specs.to2_from32, 'toUtf16_32': specs.to16_from32}[name]
    if name not in _conv:
        _conv[name] = f()
    u = list(units)
    if 0 in u:
        u = u[:u.index(0)]
    return list(trans.run_spec(_conv[name], tuple(u) + (0,), None, 'nul', {})[-1])


_conv = {}
_low = {}


def lower(units, turkic, n=16):
    if (n, turkic) not in _low:
        m = {}
        for s, d in oracle.lower(n, turkic, True):
            if d:
                for lo, hi in s:
                    for c in range(lo, hi + 1):
                        m[c] = c + d
        _low[(n, turkic)] = m
    m = _low[(n, turkic)]
    return [m.get(c, c) for c in units]


def ev(t, src, turkic):
    """value of a canonical term; None if unknown"""
    if t == 'src':
        return list(src)
    if t == 'empty':
        return []
    if not isinstance(t, tuple):
        return None
    if t[0] == 'part':
        return None
    a = ev(t[1], src, turkic) if len(t) > 1 else None
    if a is None:
        return None
    if len(t) > 2 and t[2] not in ('null', 'lang'):
        return None
    return value(t[0], a, turkic and t[2:] == ('lang',))


def value(name, a, turkic):
    if name.startswith('to') and name[:7] != 'toLower':
        return conv(name, a)
    if name == 'toLower_32':
        return lower(a, turkic)
    if name == 'trimWhiteSpace_32':
        return list(shape.ref_trim(a, oracle.WHITESPACE))
    return None


TURKIC = {tuple(map(ord, w)) for w in oracle.TURKIC}


def samples(bits, pads=()):
    """strings in 8- or 16-bit units"""
    cps = [[], [0x41], [0x49], [0x130, 0x49, 0x69, 0x131], [0xC4, 0x100, 0x391], [0x1E9E, 0x41], [0x10400, 0x41], [0x41, 0x1F600, 0x5A], [0x20, 0x41, 0x20],
           [0x2003, 0x41, 0x3000, 0x42, 0x85], [0x09, 0x20], [0x41] * 16, [0x41] * 17 + [0x10400], [0x42] * 300, [0x41, 0x2126, 0x212B] * 40, [0x10C80, 0x118A0, 0x1E900]]
    out = []
    for c in cps:
        out.append(c if bits == 32 else conv('toUtf8_32' if bits == 8 else 'toUtf16_32', c) if c else [])
    out += [[0x41, 0] + [0x42] * 9, [0, 0x41], [0, 0, 0, 0, 0x41]]
    if bits == 8:
        out += [[0x41, 0xFF], [0xFF], [0xC3], [0x41, 0xC3], [0x41, 0, 0x42], [0xC0, 0x80], [0xF8, 0x88, 0x80, 0x80, 0x80, 0x41], [0x20, 0xFD] + [0xBF] * 5,
                [0xF4, 0x90, 0x80, 0x80], [0xED, 0xA0, 0x81, 0xED, 0xB0, 0x80]]
    elif bits == 16:
        out += [[0x41, 0xDC00], [0xD800], [0x41, 0xD801], [0x41, 0, 0x42], [0xD801, 0x41], [0xD801, 0xDC00]]
    for n in sorted({x for x in pads if 0 < x <= 5000})[:40]:
        out += [[0x41] * n, [0x41] * (n - 1) + ([0xC3, 0x84] if bits == 8 else [0xC4]), [0x20] * n + [0x41]]
    return out
