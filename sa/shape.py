"""Entry points applied to strings of a given shape: a sequence of single units and of runs of any
length, each unit from a given set.  The number of pieces is fixed, the units and the lengths of the
runs are not."""
import itertools
from dom import *
from dom import A
from state import *

RUNMAX = (1 << 31) - 1


class Shape:
    """one abstract string in an analysis state"""
    def __init__(self, ip, st, name, esz, parts):
        """parts: list of ('u', iset) | ('run', iset) | ('k', value)"""
        self.esz = esz
        self.pieces = []
        self.vars = []           # ('u', atom) | ('run', region, length atom) | ('k', value)
        for i, p in enumerate(parts):
            if p[0] == 'k':
                self.pieces.append(('u', const(p[1])))
                self.vars.append(p)
            elif p[0] == 'u':
                a = A.new(8 * esz, '%s[%d]' % (name, i), 'free', p[1])
                self.pieces.append(('u', atom_expr(a)))
                self.vars.append(('u', a))
            else:
                n = A.new(32, 'len(%s.%d)' % (name, i), 'len', ((0, RUNMAX >> 4),))
                r = ip.input_region(st, '%s.%d' % (name, i), esz, 'str', atom_expr(n))
                ip.regions[r]['alpha'] = p[1]
                self.pieces.append(('in', r, ZERO, atom_expr(n)))
                self.vars.append(('run', r, n, p[1]))
        self.pieces = tuple(self.pieces)

    def object(self, ip, st, name):
        rid = ip.new_region('a', name, size=32)
        st.mem = dict(st.mem)
        st.mem[rid] = {0: (32, ('str', self.esz, self.pieces))}
        return rid

    def instances(self, box, want=24):
        """concrete strings of this shape within box: (units, valuation)"""
        for t in range(want):
            units, val = [], {}
            for v in self.vars:
                if v[0] == 'k':
                    units.append(v[1])
                elif v[0] == 'u':
                    d = box.get(v[1], A.full[v[1]])
                    x = d[(t * 7) % len(d)][t % 2]
                    val[v[1]] = x
                    units.append(x)
                else:
                    d = box.get(v[2], A.full[v[2]])
                    n = min(max(d[0][0], (0, 1, 3, 17, 40)[t % 5] + (t // 5) % 3), d[-1][1])
                    if not contains(d, n):
                        n = d[0][0]
                    if n > 5000:
                        n = d[0][0]
                    val[v[2]] = n
                    al = v[3]
                    run = [al[(t + i) % len(al)][(t + i) % 2] for i in range(n)]
                    val[v[1]] = run
                    units += run
            yield units, val


def evalp(pieces, val):
    """units of a string value under a valuation; None if it mentions anything else"""
    out = []
    for p in pieces:
        if p[0] == 'u':
            if any(a not in val for a in atoms_of(p[1])):
                return None
            out.append(evaluate(p[1], val))
        elif p[0] == 'in':
            if p[1] not in val or any(a not in val for a in atoms_of(p[2]) | atoms_of(p[3])):
                return None
            s, n = evaluate(p[2], val), evaluate(p[3], val)
            out += val[p[1]][s:s + n]
        else:
            return None
    return out


def norm_pieces(pieces, box):
    """canonical form: empty runs dropped, units with one possible value folded, adjacent windows merged"""
    out = []
    for p in pieces:
        if p[0] == 'u':
            e = p[1]
            if not is_const(e) and len(e[1]) == 1:
                (a, lo, w), k = e[1][0]
                d = box.get(a, A.full[a])
                if len(d) == 1 and d[0][0] == d[0][1]:
                    e = const(e[0] + k * ((d[0][0] >> lo) & ((1 << w) - 1)))
            out.append(('u', e))
        elif p[0] == 'in':
            ln = p[3]
            if not is_const(ln) and len(ln[1]) == 1:
                (a, lo, w), k = ln[1][0]
                d = box.get(a, A.full[a])
                if len(d) == 1 and d[0][0] == d[0][1]:
                    ln = const(ln[0] + k * d[0][0])
            if ln == ZERO:
                continue
            if out and out[-1][0] == 'in' and out[-1][1] == p[1] and add(out[-1][2], out[-1][3]) == p[2]:
                out[-1] = ('in', p[1], out[-1][2], add(out[-1][3], ln))
                continue
            out.append(('in', p[1], p[2], ln))
        else:
            out.append(p)
    return tuple(out)


def vector(st, rid):
    """the strings in a std::vector<std::basic_string<C>> object; None if not understood"""
    m = st.mem.get(rid, {})
    if not all(o in m for o in (0, 8)):
        return None
    b, e = m[0][1], m[8][1]
    if b[0] != 'p' or e[0] != 'p':
        return None
    if b[1] is None and e[1] is None:
        return []
    if b[1] != e[1] or not is_const(b[2]) or not is_const(e[2]):
        return None
    out = []
    d = st.mem.get(b[1], {})
    for o in range(b[2][0], e[2][0], 32):
        v = d.get(o)
        if v is None or v[1][0] != 'str':
            return None
        out.append(v[1][2])
    return out


# ---------------------------------------------------------------- expected results
def classify(shape, box, inside):
    """-> list of (piece, True | False | None (not settled))  whether all units are in the set"""
    out = []
    for v, p in zip(shape.vars, shape.pieces):
        if v[0] == 'k':
            d = ((v[1], v[1]),)
        elif v[0] == 'u':
            d = box.get(v[1], A.full[v[1]])
        else:
            d = v[3]
        out.append((p, True if subset(d, inside) else False if not inter(d, inside) else None))
    return out


def refine_units(shape, box, inside):
    """split box until every single unit is settled"""
    for v in shape.vars:
        if v[0] == 'u':
            d = box.get(v[1], A.full[v[1]])
            a, b = inter(d, inside), diff(d, inside)
            if a and b:
                for x in (a, b):
                    nb = dict(box)
                    nb[v[1]] = x
                    yield from refine_units(shape, nb, inside)
                return
    yield box


def want_split(shape, box, delim):
    cl = classify(shape, box, ((delim, delim),))
    if norm_pieces(shape.pieces, box) == ():
        return []
    if any(c is None for _, c in cl):
        return None
    if len(cl) == 1 and cl[0][0][0] == 'in' and box.get(shape.vars[0][2], A.full[shape.vars[0][2]])[0][0] == 0:
        return None          # may or may not be empty
    out = [[]]
    for p, c in cl:
        if c:
            out.append([])
        else:
            out[-1].append(p)
    return [norm_pieces(x, box) for x in out]


def ref_split(u, delim):
    if not u:
        return []
    out = [[]]
    for x in u:
        if x == delim:
            out.append([])
        else:
            out[-1].append(x)
    return out


def want_trim(shape, box, inside):
    cl = classify(shape, box, inside)

    def strip(c):
        while c and c[0][1] is True:
            c = c[1:]
        return c
    cl = strip(list(strip(cl))[::-1])[::-1]
    if cl and (cl[0][1] is None or cl[-1][1] is None):
        return None
    return norm_pieces([p for p, _ in cl], box)


def ref_trim(u, inside):
    a, b = 0, len(u)
    while a < b and contains(inside, u[a]):
        a += 1
    while b > a and contains(inside, u[b - 1]):
        b -= 1
    return list(u[a:b])


def ref_join(vs, delim):
    out = []
    for i, v in enumerate(vs):
        if i:
            out.append(delim)
        out += v
    return out
