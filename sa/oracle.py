"""Frozen reference data (data/ucd.json, code pages) and the character classes of the contract."""
import json
import os
from dom import *

HERE = os.path.dirname(os.path.abspath(__file__))
_U = json.load(open(os.path.join(os.path.dirname(HERE), 'data', 'ucd.json')))
UCD = {int(n): {'assigned': tuple(map(tuple, d['assigned'])), 'lower': dict(map(tuple, d['lower']))} for n, d in _U.items()}

PRIVATE = norm([(0xE000, 0xF8FF), (0xF0000, 0xFFFFD), (0x100000, 0x10FFFD)])
CONTROL = norm([(0, 0x1F), (0x7F, 0x9F)])
WHITESPACE = norm([(9, 0xD), (0x20, 0x20), (0x85, 0x85), (0xA0, 0xA0), (0x1680, 0x1680), (0x2000, 0x200A), (0x2028, 0x2029),
                   (0x202F, 0x202F), (0x205F, 0x205F), (0x3000, 0x3000)])


def classes(n):
    return {'isUnicodeAssigned': UCD[n]['assigned'], 'isUnicodePrivate': PRIVATE, 'isControlChar': CONTROL,
            'isWhitespaceChar': WHITESPACE}


class Member:
    def __init__(self, s):
        self.truth = s

    def __call__(self, c):
        return contains(self.truth, c)


def class_fns(n):
    return {k: Member(s) for k, s in classes(n).items()}


# recorded deviations of toLower (known_findings.txt): version -> {character: what it becomes}
LOWER_KNOWN = {n: {} for n in UCD}
for _n in LOWER_KNOWN:
    if _n == 7:
        LOWER_KNOWN[_n].update({c: c + 0x40 for c in range(0x10C80, 0x10CB3)})
    if _n >= 11:
        LOWER_KNOWN[_n][0xA7B8] = 0xA7B8
    if _n in (14, 15):
        LOWER_KNOWN[_n].update({c: c for c in UCD[_n]['lower'] if 0x10570 <= c <= 0x10595})


def lower(n, turkic=False, known=False):
    """-> [(iset, delta)] covering all 32-bit values"""
    m = dict(UCD[n]['lower'])
    m[0x130] = 0x69
    if known:
        m.update(LOWER_KNOWN[n])
    if turkic:
        m[0x49] = 0x131
    by = {}
    for c, l in m.items():
        by.setdefault(l - c, []).append((c, c))
    out = []
    used = ()
    for d, prs in sorted(by.items()):
        s = norm(prs)
        out.append((s, d))
        used = union(used, s)
    out.append((diff(((0, (1 << 32) - 1),), used), 0))
    return out


# code pages: the published Windows tables; bytes without a character are None
def code_page(name):
    t = {}
    for b in range(256):
        try:
            t[b] = ord(bytes([b]).decode(name))
        except UnicodeDecodeError:
            t[b] = None
    return t


# languages with dotted and dotless i
TURKIC = ('az', 'azb', 'aze', 'azj', 'kk', 'kaz', 'tt', 'tat', 'tr', 'tur')
