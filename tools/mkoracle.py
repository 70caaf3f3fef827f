"""One-off: freeze the parts of the Unicode Character Database the properties refer to.

Reads source/bitsN/UnicodeData.txt of the pinned commit; the result (data/ucd.json) is committed and is
what the checks use, so editing the repository's copy cannot move the yardstick.  Cross-checks: version
15 against Python's unicodedata 15.0; every older version against version 16 by the Unicode stability
policy (assigned code points stay assigned, categories Cc/Co/Cs never change, lower-case mappings stay)."""
import json
import sys
import unicodedata

sys.path.insert(0, 'sa')
from dom import norm  # noqa: E402


def read(n):
    rows = {}
    first = None
    for line in open('/repo/source/bits%d/UnicodeData.txt' % n):
        f = line.rstrip('\n').split(';')
        c = int(f[0], 16)
        if f[1].endswith('First>'):
            first = c
        elif f[1].endswith('Last>'):
            for x in range(first, c + 1):
                rows[x] = (f[2], None)
        else:
            rows[c] = (f[2], int(f[13], 16) if f[13] else None)
    return rows


def main():
    out = {}
    data = {n: read(n) for n in range(7, 17)}
    for n, rows in data.items():
        asg = norm([(c, c) for c, (k, _) in rows.items() if k not in ('Cs', 'Co')])
        out[str(n)] = {'assigned': asg, 'lower': sorted([c, l] for c, (_, l) in rows.items() if l is not None and l != c)}
    r = data[15]
    for c in range(0x110000):
        cat = unicodedata.category(chr(c))
        assert (cat == 'Cn') == (c not in r), hex(c)
        if c in r:
            assert cat == r[c][0], hex(c)
            s = chr(c).lower()
            if c != 0x130:
                assert s == chr(r[c][1] if r[c][1] is not None else c), hex(c)
    for n in range(7, 16):
        a, b = data[n], data[n + 1]
        for c, (k, l) in a.items():
            assert c in b, (n, hex(c))
            assert (k in ('Cc', 'Co', 'Cs')) == (b[c][0] in ('Cc', 'Co', 'Cs'))
            if l is not None:
                assert b[c][1] == l, (n, hex(c))
    json.dump(out, open('data/ucd.json', 'w'), separators=(',', ':'))
    print('ok')


main()
