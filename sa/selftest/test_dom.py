"""Randomised self-check of the abstract arithmetic against concrete arithmetic."""
import random
import sys
import os
sys.path.insert(0, os.path.join(os.path.dirname(__file__), '..'))
from dom import *
from state import *
random.seed(int(sys.argv[1]) if len(sys.argv) > 1 else 1)
N = int(sys.argv[2]) if len(sys.argv) > 2 else 20000
stat = [0, 0, 0]
for it in range(N):
    w = random.choice([8, 16, 32])
    a = A.new(8, 'a'); b = A.new(16, 'b')
    st = empty_state()

    def riv(n):
        l = random.randrange(1 << n); h = random.randrange(l, min(1 << n, l + random.choice([1, 3, 20, 300, 70000])))
        return ((l, h),)
    st.box = {a: riv(8), b: riv(16)}

    def rexpr(d):
        if d == 0:
            r = random.random()
            if r < .4:
                return ('c', random.randrange(1 << random.choice([3, 8, min(16, w)])))
            return ('a', random.choice([a, b]))
        return (random.choice(['add', 'sub', 'and', 'or', 'xor', 'shl', 'lshr', 'mul', 'udiv', 'urem', 'ashr', 'sdiv']), rexpr(d - 1), rexpr(0))
    t = rexpr(random.randrange(1, 4))
    M = 1 << w
    sg = lambda q: q - M if q >> (w - 1) else q

    def ev(t, env):
        if t[0] == 'c': return t[1] % M
        if t[0] == 'a': return env[t[1]] % M
        x = ev(t[1], env); y = ev(t[2], env)
        o = t[0]
        if o in ('shl', 'lshr', 'ashr'): y %= w
        if o in ('udiv', 'urem', 'sdiv'):
            y |= 1
            y &= 63 if w > 8 else 63
        return {'add': lambda: x + y, 'sub': lambda: x - y, 'and': lambda: x & y, 'or': lambda: x | y, 'xor': lambda: x ^ y,
                'shl': lambda: x << y, 'lshr': lambda: x >> y, 'ashr': lambda: sg(x) >> y, 'mul': lambda: x * y,
                'udiv': lambda: x // y, 'urem': lambda: x % y,
                'sdiv': lambda: abs(sg(x)) // y * (1 if sg(x) >= 0 else -1)}[o]() % M

    def ab(st, t):
        if t[0] == 'c': return [(st, const(t[1] % M))]
        if t[0] == 'a': return [(st, modpow(atom_expr(t[1]), w))]
        out = []
        for s, x in ab(st, t[1]):
            for s2, y in ab(s, t[2]):
                if t[0] in ('shl', 'lshr', 'ashr'):
                    for s3, y3 in binop(s2, 'and', w, y, const(w - 1)): out += binop(s3, t[0], w, x, y3)
                elif t[0] in ('udiv', 'urem', 'sdiv'):
                    for s3, y3 in binop(s2, 'or', w, y, const(1)):
                        for s4, y4 in binop(s3, 'and', w, y3, const(63)):
                            out += binop(s4, t[0], w, x, y4)
                else: out += binop(s2, t[0], w, x, y)
        return out
    try:
        parts = ab(st, t)
    except Imprecise as e:
        stat[1] += 1
        continue
    loose = any(s.pend or s.rel for s, _ in parts)
    tot = sum(card(s.box[a]) * card(s.box[b]) for s, _ in parts)
    if not loose:
        assert tot == card(st.box[a]) * card(st.box[b]), (t, tot)
    for _ in range(5):
        env = {a: random.randint(*st.box[a][0]), b: random.randint(*st.box[b][0])}

        def inside(s):
            return contains(s.box[a], env[a]) and contains(s.box[b], env[b]) and \
                all(contains(wt, (env[sl[0]] >> sl[1]) & ((1 << sl[2]) - 1)) for sl, wt in s.pend) and \
                all(lo <= evaluate((0, k), env) <= hi for k, (lo, hi) in s.rel.items())
        hit = [(s, e) for s, e in parts if inside(s)]
        assert len(hit) == 1, (t, env, len(hit))
        assert evaluate(hit[0][1], env) % M == ev(t, env), (t, env)
        stat[0] += 1
        pr = random.choice(['eq', 'ne', 'ult', 'ule', 'sgt', 'sge', 'slt'])
        k = random.choice([ev(t, env), random.randrange(M)])
        try:
            tr, fa = cmp(hit[0][0], pr, w, hit[0][1], const(k))
        except Imprecise:
            continue
        v = ev(t, env)
        want = {'eq': v == k, 'ne': v != k, 'ult': v < k, 'ule': v <= k, 'sgt': sg(v) > sg(k), 'sge': sg(v) >= sg(k), 'slt': sg(v) < sg(k)}[pr]
        f = lambda L: sum(map(inside, L))
        assert f(tr) == (1 if want else 0) and f(fa) == (0 if want else 1), (t, env, pr, k)
        stat[2] += 1
print('ok', stat)
