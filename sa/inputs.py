"""Inputs on which an extracted transition graph is evaluated when the comparison with the specification is not decided.

They serve to find a disagreement, never to show that there is none."""
import random
import re
import effects
from dom import *
from dom import A

CPS = (0x41, 0x61, 0x20, 0x2C, 0x7F, 0x80, 0x85, 0xA0, 0xFF, 0x130, 0x131, 0x49, 0x7FF, 0x800, 0x2028, 0xD7FF, 0xE000, 0xFEFF, 0xFFFD, 0xFFFE, 0xFFFF,
       0x10000, 0x10400, 0x1F600, 0xE0001, 0xF0000, 0x10FFFE, 0x10FFFF)


def utf8(c):
    if c < 0x80:
        return (c,)
    n = 2 if c < 0x800 else 3 if c < 0x10000 else 4 if c < 0x200000 else 5 if c < 0x4000000 else 6
    t = tuple(0x80 | c >> 6 * i & 0x3F for i in reversed(range(n - 1)))
    return ((0xFF00 >> n & 0xFF) | c >> 6 * (n - 1),) + t


def utf16(c):
    return (c,) if c < 0x10000 else (0xD800 + (c - 0x10000 >> 10), 0xDC00 + (c & 0x3FF))


def encode(c, w):
    return utf8(c) if w == 8 and c < 1 << 31 else utf16(c) if w == 16 and c < 0x110000 else (c & (1 << w) - 1,)


def chunks(w):
    if w == 8:
        good = [utf8(c) for c in CPS] + [utf8(0xD801) + utf8(0xDC00)]
        odd = [(0x80,), (0xC3,), (0xC0, 0x80), (0xE2, 0x82), (0xF0, 0x9F), utf8(0xD800), utf8(0xDC00), utf8(0x110000), utf8(0x1FFFFF), utf8(0x200000),
               utf8(0x3FFFFFF), utf8(0x4000000), utf8(0x7FFFFFFF), (0xFF,), (0xFE,), (0xE0, 0x80, 0x80), (0xF0, 0x80, 0x80, 0x80)]
    elif w == 16:
        good = [utf16(c) for c in CPS]
        odd = [(0xD800,), (0xDBFF,), (0xDC00,), (0xDFFF,)]
    else:
        good = [(c,) for c in CPS]
        odd = [(0xD800,), (0xDBFF,), (0xDC00,), (0xDFFF,), (0x110000,), (0x1FFFFF,), (0x200000,), (0x7FFFFFFF,), (0x80000000,), (0xFFFFFFFF,)]
    return good, odd


def named(an, R, top):
    """units the guards of the graph tell apart"""
    out = set()
    for g in an.edges + an.terms:
        for a, d in g.box.items():
            if A.kind[a] == 'cell' and A.meta[a][0] == R:
                for lo, hi in d[:4]:
                    out.update((lo, hi))
    return sorted(x for x in out if 0 < x <= top)[:60]


def strings(an, R, w, pads, hints=(), seed=1):
    """tuples of units, 0 among them"""
    top = (1 << w) - 1
    good, odd = chunks(w)
    nul = [(0,)]
    extra = [(x,) for x in named(an, R, top)]
    good = good + list(hints)
    every = good + odd + nul + extra
    for h in hints:
        for x in every:
            yield h + x
            yield x + h
    yield ()
    for x in every:
        yield x
    a = (0x41,)
    for x in every:
        for u in (a + x, x + a, a + x + a, x + x, a + (0,) + x, x + (0,) + a):
            yield u
    for x in good[::3] + odd + extra[::3]:
        for y in good[::3] + odd + extra[::3]:
            yield x + y
            yield a + x + y + a
    for p in sorted({p for p in pads if 5000 < p <= 70000} | {65535, 65536, 65537})[:8]:
        yield a * p
        yield a * (p - 1) + good[12]
        yield (good[12] * p)[:p]
    ps = sorted({p for p in pads if 0 < p <= 5000} | {15, 16, 31, 32, 63, 64, 255, 256, 257})
    for p in ps[:80]:
        for x in (good[12], good[21], good[-1], odd[0], odd[-1], a):
            yield a * (p - 1) + x + a
            yield a * p + x + a
            yield x * (p // len(x)) + a
            if len(x) > 1:
                yield a * max(0, p - 2) + x + x + a
                yield a + x * (p // len(x)) + a
    rnd = random.Random(seed)
    for n in range(3000):
        k = rnd.randint(2, 9)
        pool = good if rnd.random() < .6 else every
        u = ()
        for _ in range(k):
            u += rnd.choice(pool) if rnd.random() < .93 else rnd.choice(nul + odd)
        yield u


CMP = re.compile(r'= icmp \w+ i\d+ [^,]+, (-?\d+)')
CASE = re.compile(r'^\s+i\d+ (\d+), label')


def constants(m, fn):
    """numbers that the code reachable from an entry point compares with, tables apart"""
    out = {}
    for f in sorted(effects.Effects(m).reach([fn])[0]):
        if m.dem.get(f, f).startswith(('std::', 'void std::', '__gnu', 'operator')):
            continue
        own = [int(x) for ln in m.funcs[f].lines for x in CMP.findall(ln) + CASE.findall(ln)]
        if len(own) <= 120:
            for x in own:
                if x > 8:
                    out[x] = out.get(x, 0) + 1
    return sorted(out, key=lambda x: (out[x], -x))[:40]


def forms(w, names=(), nul=False):
    """(kind, domains of the units) of texts of fixed length, nul: with a 0 among the units as well"""
    small, rest = [], []
    for f in forms1(w, nul):
        (small if len(f[0]) < 3 and len(f[1]) < (4 if w < 32 else 3) else rest).append(f)
    yield from small
    one = [((0x41, 0x41),)]
    for x in names:
        for u in dict.fromkeys(((x,) if x < 1 << w else (), encode(x, w) if x < 1 << 21 else ())):
            k = [((y, y),) for y in u]
            if k:
                for f in (k, one + k, k + one, one + k + one, k + k, k * 3, one + k * 3, k * 4):
                    yield 'named', f
        if 1 < x < 1 << w:
            b = [((y, y),) for y in (x & 0x55555555, x & 0xAAAAAAAA)]
            if all(d[0][0] for d in b):
                yield 'named', b
                yield 'named', b + one
    yield from rest


def forms1(w, nul=False):
    t = ((0x80, 0xBF),)
    a = [((1, 0x7F),)]
    if w == 8:
        cl = [a, [((0xC3, 0xDE),), t], [((0xE1, 0xEC),), t, t], [((0xF1, 0xF3),), t, t, t], [((0xF9, 0xFB),), t, t, t, t]]
    elif w == 16:
        cl = [a, [((0x80, 0x7FF),)], [((0x800, 0xD7FF),)], [((0xD800, 0xDBFF),), ((0xDC00, 0xDFFF),)]]
    else:
        cl = [a, [((0x80, 0x7FF),)], [((0x800, 0xD7FF),)], [((0x10000, 0x10FFFF),)], [((0x200000, 0x3FFFFFF),)]]
    one = [((0x41, 0x41),)]
    yield 'empty', []
    if nul:
        z = [((0, 0),)]
        for i, c in enumerate(cl):
            yield (i, 5), one + z + c
            yield (i, 5), c + z + one
            yield (i, 5), one + z + c * 5
        yield (0, 5), z
        yield (0, 5), z + one
        yield (0, 5), one + z
    for n in (1, 2, 3, 4, 5, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 258, 300, 511, 512, 513):
        for i, c in enumerate(cl):
            yield (i, 0), c * n
            yield (i, 1), c * n + one
            yield (i, 2), one * n + c
            if n < 6:
                for j, d in enumerate(cl):
                    if i != j:
                        yield (i, j, 3), c * n + d
                        yield (i, j, 4), c + d * n + c
