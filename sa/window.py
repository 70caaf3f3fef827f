"""Trimming: what remains is the window of the input between its outermost units that are not in a set.

On the extracted transition graph, per node, counts p and q are inferred such that the first p and the
last q units of the input are all in the set (greatest fixpoint over candidate counts built from the
node's counters).  Every return must then hand back a window whose removed ends are covered by such
facts and the guards of the path, and whose own ends are not in the set."""
import itertools
from dom import *
from dom import A
from state import *


def total(st, R):
    return st.inp[R]['len']


def cells_of(inp, box, R):
    out = {}
    for k, a in inp.get(R, {}).items():
        if isinstance(k, tuple) and k[0] == 'c':
            out[k[1]] = box.get(a, A.full[a])
    return out


def covered(cells, lo, n, inside):
    return all(addc(lo, i) in cells and subset(cells[addc(lo, i)], inside) for i in range(n))


class Windows:
    def __init__(self, an, R, ret, inside):
        self.an, self.R, self.ret, self.inside = an, R, ret, inside
        self.start = {}
        for i, n in an.nodes.items():
            self.start[i] = n.plan.start(n.rec)
        self.pre, self.suf = {0: {ZERO}}, {0: {ZERO}}
        for i in an.nodes:
            st = self.start[i]
            ats = set()
            for e in an.edges:
                if e.dst == i:
                    ats |= {a for a in e.assign if A.kind[a] in ('sigma', 'free', 'rho')}
            for a in atoms_of(total(st, R)):
                ats.add(a)
            base = [ZERO] + [atom_expr(a) for a in sorted(ats)]
            cand = set(base)
            for x, y in itertools.combinations(base[1:], 2):
                cand |= {add(x, y), sub(x, y), sub(y, x)}
            for a in ats:
                cand |= {sub(total(st, R), atom_expr(a)), addc(sub(total(st, R), atom_expr(a)), -1)}
            cand |= {addc(x, k) for x in list(cand) for k in (-1, 1)}
            self.pre[i], self.suf[i] = set(cand), set(cand)

    def edge_total(self, e):
        return e.cells[self.R]['len']

    def step_ok(self, src_facts, target, cells, suffix, tot, fs):
        """units up to count target are covered from some fact of the source"""
        for p in src_facts:
            d = sub(target, p)
            n, hi = rng(fs, d)
            if hi <= 0:
                return True
            if n != hi:
                continue
            if n <= 0:
                return True
            if n > 8:
                continue
            lo = sub(tot, addc(p, n)) if suffix else p
            if covered(cells, lo, n, self.inside):
                return True
        return False

    def infer(self):
        for _ in range(60):
            changed = False
            for e in self.an.edges:
                if e.dst not in self.pre:
                    continue
                cells = cells_of(e.cells, e.box, self.R)
                tot = self.edge_total(e)
                for facts, suffix in ((self.pre, False), (self.suf, True)):
                    drop = set()
                    for c in facts[e.dst]:
                        t = subst(c, e.assign)
                        lo, hi = rng(self.fake(e), t)
                        if hi <= 0:
                            continue
                        if not self.step_ok(facts.get(e.src, {ZERO}), t, cells, suffix, tot, self.fake(e)):
                            drop.add(c)
                    if drop:
                        facts[e.dst] -= drop
                        changed = True
            if not changed:
                return True
        return False

    def fake(self, e):
        st = empty_state()
        st.box, st.rel = e.box, e.rel
        return st

    def check(self):
        """-> None if every return is right, else the reason"""
        if not self.infer():
            return 'no fixpoint'
        for t in self.an.terms:
            if t.pend:
                return 'inexact return'
            v = t.st.mem.get(self.ret, {}).get(0)
            if not v or v[1][0] != 'str':
                return 'result not understood'
            pc = v[1][2]
            tot = t.st.inp[self.R]['len']
            cells = cells_of(t.st.inp, t.box, self.R)
            fs = self.fake(t)
            pre, suf = self.pre.get(t.src, {ZERO}), self.suf.get(t.src, {ZERO})
            if self.impossible(pre, suf, cells, tot, fs):
                continue
            if not pc:
                a, b = None, None
            elif len(pc) == 1 and pc[0][0] == 'in' and pc[0][1] == self.R:
                a, b = pc[0][2], add(pc[0][2], pc[0][3])
            else:
                return 'the result is not a window of the input'
            if a is None or rng(fs, pc[0][3])[1] <= 0:
                # empty: all units must be covered from the two sides together
                if not self.all_covered(t, pre, suf, cells, tot, fs):
                    return 'an empty result is not justified'
                continue
            if not self.step_ok(pre, a, cells, False, tot, fs):
                return 'units removed at the front are not known to be in the set'
            if not self.step_ok(suf, sub(tot, b), cells, True, tot, fs):
                return 'units removed at the end are not known to be in the set'
            if rng(fs, pc[0][3])[0] <= 0:
                return 'possibly empty window'
            for idx in (a, addc(b, -1)):
                if idx not in cells or inter(cells[idx], self.inside):
                    return 'an end of the result may be in the set'
        return None

    def impossible(self, pre, suf, cells, tot, fs):
        """a unit known not to be in the set lies where all units are in the set"""
        for idx, d in cells.items():
            if inter(d, self.inside):
                continue
            for p in pre:
                if rng(fs, sub(p, addc(idx, 1)))[0] >= 0 and rng(fs, idx)[0] >= 0:
                    return True
            for q in suf:
                if rng(fs, sub(add(idx, q), tot))[0] >= 0 and rng(fs, sub(addc(tot, -1), idx))[0] >= 0:
                    return True
        return False

    def all_covered(self, t, pre, suf, cells, tot, fs):
        for p in pre:
            for q in suf:
                # grow p over the cells known on this path
                for n in range(0, 4):
                    if not covered(cells, p, n, self.inside):
                        break
                    d = sub(add(addc(p, n), q), tot)
                    if rng(fs, d)[0] >= 0:
                        return True
                for n in range(1, 4):
                    if not covered(cells, sub(addc(tot, -n), q), n, self.inside):
                        break
                    d = sub(add(p, addc(q, n)), tot)
                    if rng(fs, d)[0] >= 0:
                        return True
        return False
