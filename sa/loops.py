"""Inference of inductive loop invariants.

For a loop entered in state st0 the plan peels the first iteration (it belongs to the segment
that led to the loop) and then looks for a finite set of *nodes*, each an abstract header state,
closed under one iteration of the body.  A header value is, in order of preference,

  INV   unchanged,
  AFF   init + k * sigma_g, sigma_g a counter shared by all values that advance proportionally,
  DISC  one of a few constants (one node per constant),
  FREE  a fresh unknown with an interval set (its new value is recorded on every edge),
  PFX   a string: whatever it held on entry, as one symbol (appended text is recorded on edges).

A length atom L of an input is rewritten to rho + sigma_g, so "remaining length" is one atom.
"""
from math import gcd
from dom import *
from dom import A
from state import *
import state as S

SMAX = (1 << 31) - (1 << 16)
MAXNODES = 40


def decomp(v):
    if v[0] == 'i':
        return ('i', v[1]), (v[2],)
    if v[0] == 'p':
        return ('p', v[1]), (v[2],)
    if v[0] == 'str':
        if len(v[2]) == 1 and v[2][0][0] == 'in':
            _, R, s, n = v[2][0]
            return ('win', v[1], R), (s, n)
        return ('str', v[1], 'E' if not v[2] else 'P'), ()
    return ('const', v), ()


def recomp(tag, nums):
    if tag[0] == 'i':
        return ('i', tag[1], nums[0])
    if tag[0] == 'p':
        return ('p', tag[1], nums[0])
    if tag[0] == 'win':
        return ('str', tag[1], (('in', tag[2], nums[0], nums[1]),))
    if tag[0] == 'const':
        return tag[1]
    raise AssertionError(tag)


def split_text(v):
    """text whose first part is rewritten and whose rest is still the input's"""
    if v[0] == 'str' and v[2] and v[2][-1][0] == 'in':
        _, R, s, n = v[2][-1]
        return ('pw', v[1], R), (s, n)
    return decomp(v)


def sub_val(v, m):
    if v[0] in ('i', 'p'):
        e = subst(v[2], m)
        return v if e is v[2] else (v[0], v[1], e)
    if v[0] == 'str':
        return ('str', v[1], sub_pieces(v[2], m))
    if v[0] == 'agg':
        return ('agg', tuple(sub_val(x, m) for x in v[1]))
    return v


def sub_pieces(ps, m):
    out = []
    for p in ps:
        if p[0] == 'u':
            out.append(('u', subst(p[1], m)))
        elif p[0] == 'in':
            out.append(('in', p[1], subst(p[2], m), subst(p[3], m)))
        elif p[0] == 'cstr':
            out.append(('cstr', p[1], subst(p[2], m), p[3]))
        elif p[0] == 'q':
            out.append(('q', p[1], subst(p[2], m)))
        else:
            out.append(p)
    return tuple(out)


def subst_state(st, m):
    s = st.copy()
    s.env = {k: sub_val(v, m) for k, v in st.env.items()}
    s.outer = tuple((fn, {k: sub_val(v, m) for k, v in env.items()}) for fn, env in st.outer)
    s.mem = {r: {o: (z, sub_val(v, m)) for o, (z, v) in d.items()} for r, d in st.mem.items()}
    ni = {}
    for r, d in st.inp.items():
        nd = {}
        for k, v in d.items():
            if isinstance(k, tuple) and k[0] == 'c':
                nd[('c', subst(k[1], m))] = v
            else:
                nd[k] = subst(v, m)
        ni[r] = nd
    s.inp = ni
    nr = {}
    for key, (a, b) in st.rel.items():
        e = subst((0, key), m)
        if len(e[1]) > 1:
            k2, mm = S._norm_terms(e[1])
            lo, hi = a - e[0], b - e[0]
            if mm < 0:
                lo, hi = -hi, -lo
                mm = -mm
            if mm == 1:
                nr[k2] = (lo, hi)
    s.rel = nr
    return s


class Rec:
    __slots__ = ('id', 'sig', 'dom', 'front', 'ahead', 'joins', 'ran')


class LoopPlan:
    def __init__(self, ip, f, h, st0):
        self.ip, self.f, self.h = ip, f, h
        self.st0 = st0
        ip.plancount = getattr(ip, 'plancount', 0) + 1
        self.pid = ip.plancount
        self.live = f.live[h]
        self.pw = set()           # string slots rewritten in place
        self.init = self.slots(st0)
        self.kind = {}            # numeric subslot -> DISC | FREE   (default AFF)
        self.pfx = set()          # string slots that change
        self.obs = []
        self.discvals = {}
        self.badre = set()
        self.fresh = {}
        self.nodes = {}
        self.regroup()

    # ---------------------------------------------------------- slots
    def slots(self, st):
        out = {}
        for n in sorted(self.live):
            v = st.env.get(n)
            if v is not None:
                out[('e', n)] = decomp(v) + ((0, v),)
        for r in st.mem:
            if r[0] == 'h' and isinstance(r[1], tuple) and r[1][0] == 'buf':
                continue
            for o, (z, v) in st.mem[r].items():
                key = ('m', r, o)
                out[key] = (split_text(v) if key in self.pw else decomp(v)) + ((z, v),)
        for r, d in st.inp.items():
            if 'len' in d:
                out[('len', r)] = (('len',), (d['len'],), (0, None))
            if 'start' in d:
                out[('start', r)] = (('len',), (d['start'],), (0, None))
        return out

    def atom(self, key, width, name, kind, full):
        a = self.fresh.get(key)
        if a is None:
            a = self.fresh[key] = A.new(width, name, kind, full, (self.pid, key))
        return a

    # ---------------------------------------------------------- grouping
    def regroup(self):
        """assign every AFF numeric subslot a (group, k); k = 0 is invariant"""
        vec = {}
        n = len(self.obs)
        for slot, (tag, nums, _) in self.init.items():
            for i in range(len(nums)):
                key = (slot, i)
                if key in self.kind:
                    continue
                vec[key] = tuple(o.get(key, 0) for o in self.obs)
        groups = {}
        self.coef = {}
        for key, v in vec.items():
            g = 0
            for x in v:
                g = gcd(g, x)
            if g == 0:
                self.coef[key] = (None, 0)
                continue
            # direction: first non-zero positive
            for x in v:
                if x:
                    if x < 0:
                        g = -g
                    break
            u = tuple(x // g for x in v)
            groups.setdefault(u, []).append((key, g))
        again = False
        for u, lst in groups.items():
            if min(u) < 0 and max(u) > 0 and not any(self.init[k[0]][0][0] in ('p', 'win', 'pw') for k, _ in lst):
                for k, _ in lst:
                    self.kind[k] = 'DISC'
                again = True
        if again:
            return self.regroup()
        self.groups = []
        for u, lst in groups.items():
            gi = len(self.groups)
            lst.sort(key=lambda t: (abs(t[1]) != 1, abs(t[1])))
            self.groups.append((u, lst))
            for k, c in lst:
                self.coef[k] = (gi, c)
        # symbols are tied to the plan's grouping generation
        self.gen = getattr(self, 'gen', 0) + 1
        self.sig_atoms = [A.new(32, 's%d.%d' % (self.pid, gi), 'sigma', ((-SMAX, SMAX),), (self.pid, self.gen, gi))
                          for gi in range(len(self.groups))]
        self.choose_reparam()
        self.nodes = {}

    def choose_reparam(self):
        """length-like atoms to be written as rho + sigma"""
        self.re = {}
        cands = []
        for slot, (tag, nums, _) in self.init.items():
            if slot[0] == 'len' and (slot, 0) in self.coef and self.coef[(slot, 0)][1] == 0:
                R = slot[1]
                e = nums[0]
                la = [s for s, k in e[1] if k == 1 and A.kind[s[0]] in ('len', 'rho', 'plen') and s[1] == 0]
                if len(la) != 1:
                    continue
                esz = self.ip.regions[R]['esz']
                for s2, (t2, n2, _) in self.init.items():
                    if t2[0] == 'p' and t2[1] == R and self.coef.get((s2, 0), (None, 0))[1] == esz:
                        cands.append((0, la[0][0], self.coef[(s2, 0)][0]))
                for s2, (t2, n2, _) in self.init.items():
                    if t2[0] == 'i' and t2[1] >= 32 and self.coef.get((s2, 0), (None, 0))[1] == 1:
                        cands.append((1, la[0][0], self.coef[(s2, 0)][0]))
        for slot, (tag, nums, _) in self.init.items():
            for i, e in enumerate(nums):
                g, k = self.coef.get((slot, i), (None, 0))
                if k == -1:
                    la = [s for s, kk in e[1] if kk == 1 and A.kind[s[0]] in ('len', 'rho', 'plen') and s[1] == 0]
                    if len(la) == 1:
                        cands.append((0, la[0][0], g))
        cands.sort()
        for _, a, g in cands:
            if a in self.re or (a, g) in self.badre:
                continue
            full = dom_of(self.st0, a)
            rho = self.atom(('rho', a, g, self.gen), A.width[a], 'rho(%s)' % A.name[a], 'rho', ((0, full[-1][1]),))
            self.re[a] = (g, rho)

    def remap(self):
        return {a: add(atom_expr(rho), atom_expr(self.sig_atoms[g])) for a, (g, rho) in self.re.items()}

    # ---------------------------------------------------------- one closed sweep
    def attempt(self, body, ex, rt):
        from interp import merge_states, Restart
        ip, f, h = self.ip, self.f, self.h
        self.dirty = False
        for r in self.nodes.values():
            r.ran = False
        arr, e0, r0 = ip.run(f, [(h, self.st0)], body, h)
        ex += e0
        rt += r0
        queue = []
        if not self.obs:
            self.first_obs(arr)
        self.arrive(merge_states(arr, self.live), None, queue)
        while queue:
            rec = queue.pop(0)
            if rec.ran:
                continue
            rec.ran = True
            st = self.start(rec)
            arr, e1, r1 = ip.run(f, [(h, st)], body, h)
            ex += e1
            rt += r1
            self.arrive(merge_states(arr, self.live), st, queue)
            if len(self.nodes) > MAXNODES:
                many = sorted(((len(v), repr(k), k[0]) for k, v in self.discvals.items()
                               if len(v) > 3 and self.kind.get(k[0]) != 'FREE'), reverse=True)
                if not many:
                    raise Imprecise("too many loop nodes")
                self.kind[many[0][2]] = 'FREE'
                self.restart()
        return not self.dirty

    def deltas(self, start, a):
        """constant differences of numeric subslots between a header state and the next one"""
        o = {}
        bad = []
        for slot, (tag, nums, _) in a.items():
            s0 = start.get(slot)
            if s0 is None or s0[0] != tag or slot not in self.init or self.init[slot][0] != tag:
                continue
            for i, e in enumerate(nums):
                d = sub(e, s0[1][i])
                if is_const(d):
                    if d[0]:
                        o[(slot, i)] = self.wrap(tag, d[0])
                else:
                    bad.append((slot, i))
        return o, bad

    def wrap(self, tag, d):
        if tag[0] == 'i':
            M = 1 << tag[1]
            d %= M
            if d >= M // 2:
                d -= M
        return d

    def first_obs(self, arr):
        ch = False
        for a in arr:
            o, bad = self.deltas(self.init, self.slots(a))
            if o and o not in self.obs:
                self.obs.append(o)
                ch = True
            if self.demote(bad, a):
                ch = True
        if ch:
            self.small_disc(arr)
            self.regroup()
            from interp import Restart
            raise Restart()

    def small_disc(self, arr):
        for slot, (tag, nums, _) in self.init.items():
            if tag[0] == 'i' and tag[1] <= 8 and is_const(nums[0]) and (slot, 0) not in self.kind:
                if any((slot, 0) in o for o in self.obs):
                    self.kind[(slot, 0)] = 'DISC'

    def demote(self, keys, a):
        ch = False
        sl = self.slots(a)
        for key in keys:
            slot, i = key
            if self.kind.get(key) in ('FREE',):
                continue
            e = sl[slot][1][i]
            k = self.kind.get(key)
            if k is None:
                self.kind[key] = 'DISC' if is_const(e) and is_const(self.init[slot][1][i]) and sl[slot][0][0] == 'i' else 'FREE'
                ch = True
            elif k == 'DISC' and (not is_const(e) or len(self.discvals.get(key, ())) > 10):
                self.kind[key] = 'FREE'
                ch = True
        return ch

    def restart(self):
        from interp import Restart
        self.regroup()
        raise Restart()

    # ---------------------------------------------------------- arrivals
    def norm_arrival(self, a):
        """make FREE integers exact unsigned forms (partitioning)"""
        cur = [a]
        for (slot, i), k in list(self.kind.items()):
            nxt = []
            for s in cur:
                v = self.slot_val(s, slot)
                if v is None or v[0] != 'i':
                    nxt.append(s)
                    continue
                for s2, e in to_u(s, v[1], v[2]):
                    nxt.append(self.set_slot(s2, slot, ('i', v[1], e)) if e != v[2] else s2)
            cur = nxt
        return cur

    def slot_val(self, s, slot):
        if slot[0] == 'e':
            return s.env.get(slot[1])
        if slot[0] == 'm':
            x = s.mem.get(slot[1], {}).get(slot[2])
            return x[1] if x else None
        return None

    def set_slot(self, s, slot, v):
        s = s.copy()
        if slot[0] == 'e':
            s.env = dict(s.env)
            s.env[slot[1]] = v
        else:
            s.mem = dict(s.mem)
            d = dict(s.mem[slot[1]])
            d[slot[2]] = (d[slot[2]][0], v)
            s.mem[slot[1]] = d
        return s

    def advance_fronts(self, s):
        """must-information: cells known to be non-zero move the readable frontier"""
        s = s.copy()
        s.inp = dict(s.inp)
        for R, d in s.inp.items():
            if self.ip.regions[R].get('mode') != 'nul':
                continue
            fr = d['front']
            while True:
                at = d.get(('c', fr))
                if at is None or contains(dom_of(s, at), 0):
                    break
                fr = addc(fr, 1)
            if fr != d['front']:
                d = dict(d)
                d['front'] = fr
                s.inp[R] = d
        return s

    def arrive(self, arrivals, start, queue):
        for a0 in arrivals:
            for a in self.norm_arrival(a0):
                self.arrive1(self.advance_fronts(a), start, queue)

    def arrive1(self, a, start, queue):
        ip = self.ip
        sl = self.slots(a)
        st_slots = self.slots(start) if start is not None else self.init
        o, bad = self.deltas(st_slots, sl)
        # 1. solve for the counters
        t = [None] * len(self.groups)
        fail = False
        for gi, (u, lst) in enumerate(self.groups):
            for key, k in lst:
                slot, i = key
                x = sl.get(slot)
                if x is None or x[0] != self.init[slot][0]:
                    continue
                d = sub(x[1][i], self.cur_init(slot, i, a))
                if x[0][0] == 'i' and is_const(d):
                    d = const(self.wrap(x[0], d[0]))
                if d[0] % k or any(c % k for _, c in d[1]):
                    fail = True
                    continue
                te = (d[0] // k, tuple((s, c // k) for s, c in d[1]))
                if t[gi] is None:
                    t[gi] = te
                elif t[gi] != te:
                    fail = True
        # 2. verify the invariant slots
        if not fail:
            for key, (g, k) in self.coef.items():
                if k == 0:
                    slot, i = key
                    x = sl.get(slot)
                    if x is None or x[0] != self.init[slot][0]:
                        continue
                    d = sub(x[1][i], self.cur_init(slot, i, a))
                    if d != ZERO and rng(a, d) != (0, 0):
                        fail = True
        if fail:
            ch = False
            if o and o not in self.obs:
                self.obs.append(o)
                ch = True
            badk = [k for k in bad if k not in self.kind]
            if self.demote(badk, a):
                ch = True
            self.small_disc([a])
            if not ch:
                # values that fit no pattern: free them
                for key, (g, k) in list(self.coef.items()):
                    slot, i = key
                    x = sl.get(slot)
                    if x is None or x[0] != self.init[slot][0]:
                        continue
                    want = self.cur_init(slot, i, a)
                    if k:
                        if t[g] is None:
                            continue
                        want = add(want, scale(t[g], k))
                    if sub(x[1][i], want) != ZERO:
                        self.kind[key] = 'DISC' if is_const(x[1][i]) and x[0][0] == 'i' else 'FREE'
            self.restart()
        # a counter whose defining slots are absent keeps its value
        for gi in range(len(t)):
            if t[gi] is None:
                t[gi] = atom_expr(self.sig_atoms[gi]) if start is not None else ZERO
        # 3. signature, assignments
        sig = []
        assign = {}
        strs = {}
        domreq = {}
        for gi in range(len(t)):
            sa = self.sig_atoms[gi]
            assign[sa] = t[gi]
            lo, hi = rng(a, t[gi])
            domreq[sa] = (lo, hi)
        for slot in self.init:
            x = sl.get(slot)
            if slot[0] in ('len', 'start'):
                continue
            if x is None:
                sig.append((slot, 'gone'))
                continue
            tag, nums, (z, v) = x
            if tag[0] == 'str':
                v0 = self.init[slot][2][1]
                if ip.cow and self.init[slot][0][0] == 'win' and len(v[2]) > 1 and v[2][-1][0] == 'in' and slot not in self.pw:
                    self.pw.add(slot)
                    self.obs = []
                    self.init = self.slots(self.st0)
                    self.restart()
                if slot not in self.pfx:
                    if v == v0:
                        sig.append((slot, 'inv'))
                        continue
                    self.pfx.add(slot)
                    self.restart()
                if not v[2]:
                    sig.append((slot, tag))
                    continue
                sym = (self.pid, slot)
                la = self.atom(('plen', slot), 41, 'plen', 'plen', ((0, BIG),))
                strs[sym] = v[2]
                sz = ip.models.size(v[2])
                assign[la] = sz
                domreq[la] = rng(a, sz)
                sig.append((slot, tag))
                continue
            if tag[0] == 'const':
                if v[0] in ('top', 'undef'):
                    sig.append((slot, v))
                    continue
                sig.append((slot, tag))
                continue
            if tag[0] == 'p' and tag[1] is not None and tag[1][0] in ('h', 'in') and \
                    tag[1] not in self.st0.mem and tag[1] not in self.st0.inp:
                sig.append((slot, UNDEF))
                continue
            if tag[0] == 'pw':
                if self.init[slot][0] != tag or self.kind.get((slot, 0)) or self.kind.get((slot, 1)):
                    raise Imprecise("a string rewritten out of step")
                pre = v[2][:-1]
                if sub(ip.models.size(pre), sub(nums[0], self.cur_init(slot, 0, a))) != ZERO:
                    raise Imprecise("a string rewritten out of step")
                strs[(self.pid, slot)] = tuple(('p', p[1], None) if p[0] == 'q' else p for p in pre)
            s = [slot, tag]
            for i, e in enumerate(nums):
                key = (slot, i)
                same = self.init[slot][0] == tag
                kd = self.kind.get(key)
                if same and kd is None:
                    s.append(None)
                    continue
                if kd != 'FREE' and is_const(e):
                    dv = self.discvals.setdefault((key, tag), set())
                    dv.add(e[0])
                    if len(dv) > 10:
                        self.kind[key] = 'FREE'
                        self.restart()
                    s.append(e[0])
                    continue
                if kd == 'DISC':
                    self.kind[key] = 'FREE'
                    self.restart()
                fa = self.free_atom(slot, i, tag)
                if tag[0] == 'p':
                    esz = ip.regions[tag[1]].get('esz', 1) if tag[1] else 1
                    if e[0] % esz or any(c % esz for _, c in e[1]):
                        raise Imprecise("misaligned pointer at a loop header")
                    e = (e[0] // esz, tuple((q, c // esz) for q, c in e[1]))
                assign[fa] = e
                domreq[fa] = rng(a, e)
                s.append('free')
            sig.append(tuple(s))
        # remaining length
        ok = True
        for la, (g, rho) in self.re.items():
            cur = self.remap()[la] if start is not None else atom_expr(la)
            r = sub(cur, t[g])
            lo, hi = rng(a, r)
            if lo < 0:
                ge, lt = split_ge0(a, r)
                if lt:
                    self.badre.add((la, g))
                    ok = False
                    break
            assign[rho] = r
            domreq[rho] = (max(lo, 0), hi)
        if not ok:
            self.restart()
        sig = tuple(sig)
        rec = self.nodes.get(sig)
        fr, ah = self.frontier(a, t)
        new = rec is None
        if new:
            rec = Rec()
            ip.nodecount += 1
            rec.id = ip.nodecount
            rec.sig = sig
            rec.dom = {}
            rec.front = fr
            rec.ahead = ah
            rec.joins = 0
            rec.ran = False
            self.nodes[sig] = rec
        grew = False
        for at, (lo, hi) in domreq.items():
            full = A.full[at][0]
            kind = A.kind[at]
            if kind in ('sigma',):
                hi = SMAX
                if lo < -16:
                    lo = -SMAX
            elif kind in ('rho', 'plen'):
                hi = A.full[at][-1][1]
            old = rec.dom.get(at)
            d = ((lo, hi),)
            if kind == 'free':
                ex = assign[at]
                if len(ex[1]) == 1 and ex[1][0][1] == 1 and ex[0] == 0:
                    d = slice_set(a, ex[1][0][0])
            if old is None:
                rec.dom[at] = inter(d, A.full[at]) or A.full[at]
                continue
            if not subset(d, old):
                nd = union(d, old)
                rec.joins += 1
                if kind == 'free' and (len(nd) > 12 or rec.joins > 6):
                    nd = A.full[at] if rec.joins > 8 else ((nd[0][0], nd[-1][1]),)
                if rec.joins > 30:
                    nd = A.full[at]
                rec.dom[at] = nd
                grew = True
        if not new:
            for R in list(rec.front):
                c = fr.get(R)
                old = rec.front[R]
                if old is None:
                    continue
                if c is None or c[0] != old[0]:
                    rec.front[R] = None
                    grew = True
                elif c[1] < old[1]:
                    rec.front[R] = c
                    grew = True
            for k2 in list(rec.ahead):
                d = ah.get(k2)
                if d is None:
                    del rec.ahead[k2]
                    grew = True
                elif not subset(d, rec.ahead[k2]):
                    rec.ahead[k2] = union(d, rec.ahead[k2])
                    grew = True
        if grew and rec.ran:
            self.dirty = True
        self.record(a, rec, assign, strs, t)
        if not rec.ran:
            queue.append(rec)

    def cur_init(self, slot, i, a):
        """the initial value of a subslot, expressed in the atoms in force in arrival state a"""
        e = self.init[slot][1][i]
        if self.re and a.seg in self.node_ids():
            return subst(e, self.remap())
        return e

    def node_ids(self):
        return {r.id for r in self.nodes.values()}

    def free_atom(self, slot, i, tag):
        if tag[0] == 'i':
            return self.atom(('free', slot, i, tag), tag[1], 'v%d.%s' % (self.pid, slot[-1]), 'free', ((0, (1 << tag[1]) - 1),))
        return self.atom(('free', slot, i, tag), 41, 'v%d.%s' % (self.pid, slot[-1]), 'free', ((-16, BIG),))

    # where each pointer group stands, per region: frontier and look-ahead knowledge
    def cursors(self):
        out = {}
        for slot, (tag, nums, _) in self.init.items():
            if tag[0] == 'p' and tag[1] is not None and tag[1][0] == 'in':
                g, k = self.coef.get((slot, 0), (None, 0))
                esz = self.ip.regions[tag[1]]['esz']
                if k == esz:
                    out.setdefault(tag[1], []).append((slot, g))
        for slot, (tag, nums, _) in self.init.items():
            if tag[0] == 'i' and tag[1] >= 32:
                g, k = self.coef.get((slot, 0), (None, 0))
                if k == 1 and is_const(nums[0]):
                    for R in self.st0.inp:
                        out.setdefault(R, []).append((slot, g))
        return out

    def cpos(self, slot, g, a_in_node, tg):
        e = self.init[slot][1][0]
        tag = self.init[slot][0]
        if tag[0] == 'p':
            esz = self.ip.regions[tag[1]]['esz']
            e = (e[0] // esz, tuple((s, c // esz) for s, c in e[1]))
        if a_in_node and self.re:
            e = subst(e, self.remap())
        return add(e, tg)

    def frontier(self, a, t):
        fr, ah = {}, {}
        inn = a.seg in self.node_ids()
        for R, lst in self.cursors().items():
            d = a.inp.get(R)
            if d is None:
                continue
            best = None
            if self.ip.regions[R]['mode'] == 'nul':
                for slot, g in lst:
                    c = sub(d['front'], self.cpos(slot, g, inn, t[g]))
                    if is_const(c) and -4 <= c[0] <= 16:
                        best = ((slot, g), c[0])
                        break
                fr[R] = best
            slot, g = (best[0] if best else lst[0])
            pos = self.cpos(slot, g, inn, t[g])
            for j in range(-2, 8):
                at = d.get(('c', addc(pos, j)))
                if at is not None:
                    dm = a.box.get(at)
                    if dm is not None and dm != A.full[at]:
                        ah[(R, slot, g, j)] = dm
        return fr, ah

    # ---------------------------------------------------------- node states
    def start(self, rec):
        ip = self.ip
        st = self.st0.copy()
        st.seg = rec.id
        env = {}
        mem = {r: dict(d) for r, d in st.mem.items()
               if not (r[0] == 'h' and isinstance(r[1], tuple) and r[1][0] == 'buf')}
        box = dict(st.box)
        sg = dict((s[0], s[1:]) for s in rec.sig)
        for slot, (tag0, nums0, (z0, v0)) in self.init.items():
            if slot[0] in ('len', 'start'):
                continue
            info = sg[slot]
            if info[0] == 'gone':
                if slot[0] == 'm':
                    mem[slot[1]].pop(slot[2], None)
                continue
            if info[0] == 'inv':
                v = v0
            elif info[0] in (TOP, UNDEF):
                v = info[0]
            else:
                tag = info[0]
                if tag[0] == 'str':
                    if tag[2] == 'E':
                        v = ('str', tag[1], ())
                    else:
                        la = self.atom(('plen', slot), 41, 'plen', 'plen', ((0, BIG),))
                        v = ('str', tag[1], (('p', (self.pid, slot), la),))
                elif tag[0] == 'const':
                    v = tag[1]
                else:
                    nums = []
                    for i, x in enumerate(info[1:]):
                        if x is None:
                            g, k = self.coef[(slot, i)]
                            e = nums0[i]
                            if k:
                                e = add(e, scale(atom_expr(self.sig_atoms[g]), k))
                        elif x == 'free':
                            e = atom_expr(self.free_atom(slot, i, tag))
                            if tag[0] == 'p':
                                e = scale(e, ip.regions[tag[1]].get('esz', 1) if tag[1] else 1)
                        else:
                            e = const(x)
                        nums.append(e)
                    if tag[0] == 'pw':
                        v = ('str', tag[1], (('q', (self.pid, slot), sub(nums[0], nums0[0])), ('in', tag[2], nums[0], nums[1])))
                    else:
                        v = recomp(tag, nums)
            if slot[0] == 'e':
                env[slot[1]] = v
            else:
                mem[slot[1]][slot[2]] = (z0, v)
        st.env = env
        st.mem = mem
        inp = {}
        for R, d in st.inp.items():
            nd = dict(d)
            fr = rec.front.get(R)
            if fr:
                (slot, g), c = fr
                nd['front'] = addc(self.cpos(slot, g, False, atom_expr(self.sig_atoms[g])), c)
            for k in ('len', 'start'):
                if k in nd:
                    g, kk = self.coef.get(((k, R), 0), (None, 0))
                    if kk:
                        nd[k] = add(nd[k], scale(atom_expr(self.sig_atoms[g]), kk))
            inp[R] = nd
        st.inp = inp
        # reparametrise lengths
        m = self.remap()
        lmax = {a: dom_of(self.st0, a)[-1][1] for a in self.re}
        if m:
            st = subst_state(st, m)
            for a in self.re:
                box.pop(a, None)
        for at, d in rec.dom.items():
            if d != A.full[at]:
                box[at] = d
        st.box = box
        for (R, slot, g, j), dm in rec.ahead.items():
            pos = self.cpos(slot, g, True, atom_expr(self.sig_atoms[g]))
            st, at = ip.cell_atom(st, R, addc(pos, j))
            st.box = dict(st.box)
            st.box[at] = dm
        for a, e in m.items():
            s2 = add_rel(st, e[1], -SMAX, lmax[a])
            if s2 is not None:
                st = s2
        return st

    def record(self, a, rec, assign, strs, t):
        from interp import Edge
        ed = Edge()
        ed.src, ed.dst = a.seg, rec.id
        ed.box, ed.conds = a.box, a.conds
        ed.assign, ed.emit = assign, strs
        ed.approx, ed.pend, ed.rel = a.approx, a.pend, a.rel
        ed.delta = {}
        ed.cells = a.inp
        ed.lens = None
        ed.writes = None
        ed.last = a.last
        self.ip.an.edges.append(ed)
        if rec.id not in self.ip.an.nodes:
            from interp import Node
            n = Node(rec.id, self.pid, rec.sig)
            n.loc = self.ip.loopline(self.f, self.h)
            self.ip.an.nodes[rec.id] = n
        nd = self.ip.an.nodes[rec.id]
        nd.plan = self
        nd.rec = rec
