"""Comparison of an extracted transducer with a specification (simulation relation).

The specification reads the same input one character at a time; it is a decision tree

  ('cell', j, [(iset, sub), ...])     the unit j positions after the spec's cursor
  ('rem', [(iset, sub), ...])         units left (inputs with an explicit length)
  ('cond', name, fn, yes, no)         an uninterpreted predicate applied to fn(cell)
  ('char', k, [fn, ...], n[, mode])   consume k units, output the fn(cell) units, count n characters
  ('end',)  ('fail',)                 the input is finished / rejected

The product explores pairs (node of the code, position of the spec).  A pair is described by the
code's variables written in terms of the spec's cursor P, its count N and the units around P, and
by what the code has output beyond (or short of) the spec.  If finitely many pairs are closed
under all steps and every return agrees, the code computes the specified function on every input.
A disagreement is reported only together with an input on which a walk of the extracted graph and
a walk of the specification give different results.
"""
import time
import inputs
from collections import deque
from dom import *
from dom import A
from state import *
import state as S

MAXPROD = 4000


class Undecided(Exception):
    pass


class Mismatch:
    def __init__(self, what, units, length, got, want, loc=None):
        self.what, self.units, self.length, self.got, self.want, self.loc = what, units, length, got, want, loc

    def __repr__(self):
        return '%s: input %s%s: code gives %s, expected %s' % (
            self.what, '[' + ' '.join('%02X' % u for u in self.units) + ']',
            '' if self.length is None else ' length %d' % self.length, self.got, self.want)


class Shift(dict):
    """what the atoms become when the specification consumes k units"""
    def __init__(self, p, k, m):
        dict.__init__(self, m)
        self.p, self.k = p, k

    def get(self, a, d=None):
        r = dict.get(self, a)
        if r is None:
            j = self.p.pcr.get(a)
            if j is None:
                return d
            r = self[a] = atom_expr(self.p.cell(j - self.k))
        return r

    def __contains__(self, a):
        return dict.__contains__(self, a) or a in self.p.pcr


class Rope:
    """text under construction: an earlier text and what was added"""
    __slots__ = ('up', 'tail')

    def __init__(self, up, tail):
        self.up, self.tail = up, tail

    def flat(self):
        parts = []
        r = self
        while r is not None:
            parts.append(r.tail)
            r = r.up
        return tuple(u for x in reversed(parts) for u in x)

    def __eq__(self, o):
        return self.up is o.up and self.tail == o.tail or self.flat() == o.flat()

    def __hash__(self):
        return hash(self.tail)


class PS:
    """product state"""
    __slots__ = ('node', 'mode', 'env', 'st', 'diff', 'prefix', 'count', 'conds')


class Spec:
    """kind: bool | count | string"""
    def __init__(self, name, kind, tree, fail, modes=None, endval=None):
        self.name, self.kind, self.fail = name, kind, fail
        self.modes = {'S': tree}
        self.modes.update(modes or {})
        self.endval = endval      # None: True / N / OUT
        self.ident = False        # an accepted input is returned unchanged


def can_fail(spec):
    def f(t):
        if t[0] in ('cell',):
            return any(f(x) for _, x in t[2])
        if t[0] == 'rem':
            return any(f(x) for _, x in t[1])
        if t[0] == 'cond':
            return f(t[3]) or f(t[4])
        return t[0] in ('fail', 'kf')
    return any(f(t) for t in spec.modes.values())


def one_to_one(t):
    if t[0] == 'cell':
        return all(one_to_one(x) for _, x in t[2])
    if t[0] == 'rem':
        return all(one_to_one(x) for _, x in t[1])
    if t[0] == 'cond':
        return one_to_one(t[3]) and one_to_one(t[4])
    return t[0] != 'char' or t[1] == t[3]


class Product:
    def __init__(self, ip, an, R, spec, mode, esz, ret=None, oracle=None, L=None, role=None, endcell0=None, watch=()):
        self.ip, self.an, self.R, self.spec, self.mode, self.esz = ip, an, R, spec, mode, esz
        self.ret, self.oracle, self.L = ret, oracle or {}, L
        self.P = A.new(41, 'P', 'ppos', ((0, BIG),))
        self.N = A.new(41, 'N', 'ppos', ((0, BIG),))
        if all(one_to_one(x) for x in spec.modes.values()):
            self.N = self.P       # every character is one unit
        self.LR = A.new(41, 'LR', 'prem', ((0, (1 << 31) - 1),))
        self.pc = {}
        self.pcr = {}
        self.pcond = {}
        self.pcondr = {}
        self.alpha = ip.regions[R].get('alpha')
        self.smp = {}
        self.compiled = {}
        self.caps = None
        self.strs = {}
        self.apply = None          # values of summarised functions: (name, evaluated arguments) -> units or None
        self.spent = 0             # seconds spent on candidates
        self.patience = None
        self.use_truth = False     # decide class conditions from the reference sets
        self.mism = []
        self.undecided = []
        self.known = {}
        self.other = {}
        self.others = []
        self.bases = {}
        self.returns = 0
        self.steps = 0
        self.role = role
        self.pos = set()
        for idx in ip.regions[R].get('atoms', {}):
            for (a, lo, n), k in idx[1]:
                if A.kind[a] == 'sigma' and k == 1:
                    self.pos.add(a)
        self.bysrc = {}
        for e in an.edges:
            self.bysrc.setdefault(e.src, []).append(('E', e))
        for t in an.terms:
            self.bysrc.setdefault(t.src, []).append(('T', t))
        self.evsrc = {}
        self.hits = []            # confirmed events: (event, units, length)
        self.unhit = []           # events without an input that reaches them
        if watch:
            for e in an.events:
                if e.kind in watch:
                    self.evsrc.setdefault(e.src, []).append(e)

    # ------------------------------------------------------------ product atoms
    def cell(self, j):
        a = self.pc.get(j)
        if a is None:
            a = self.pc[j] = A.new(8 * self.esz, 'u[%d]' % j, 'cell', self.alpha)
            self.pcr[a] = j
        return a

    def condatom(self, name, args):
        k = (name, args)
        a = self.pcond.get(k)
        if a is None:
            a = self.pcond[k] = A.new(1, '%s%r' % (name, args), 'cond')
            self.pcondr[a] = k
        return a

    def find_cond(self, st, name, args):
        """the condition atom of st for name(args), equality of arguments being judged under st"""
        na = tuple(self.normal(st, x) for x in args)
        for a in st.box:
            k = self.pcondr.get(a)
            if k is not None and k[0] == name and len(k[1]) == len(na) and \
                    all(self.normal(st, x) == y for x, y in zip(k[1], na)):
                return a
        return self.condatom(name, na)

    def normal(self, st, e):
        """canonical form of a unit-valued expression under st: constant bits folded away"""
        c = e[0]
        out = []
        for (a, lo, n), k in e[1]:
            d = slice_set(st, (a, lo, n))
            lo_, hi_ = d[0][0], d[-1][1]
            x = lo_ ^ hi_
            b = x.bit_length()
            if b < n:
                c += k * ((lo_ >> b) << b)
                if b:
                    out.append(((a, lo, b), k))
            else:
                out.append(((a, lo, n), k))
        return canon(c, out)

    def differ(self, st, x, y):
        """None if the two unit values are equal in st, else a sub-state where they differ"""
        x, y = self.normal(st, x), self.normal(st, y)
        if x == y:
            return None
        d = sub(x, y)
        if is_const(d):
            return st if d[0] else None
        at = atoms_of(d)
        if len(at) == 1:
            a = next(iter(at))
            dm = dom_of(st, a)
            if card(dm) <= 300000:
                bad = [(v, v) for lo, hi in dm for v in range(lo, hi + 1) if evaluate(d, {a: v})]
                return refine_slice(st, (a, 0, A.width[a]), norm(bad)) if bad else None
        try:
            eq, ne = split_eq0(st, d)
        except Imprecise as e:
            raise Undecided(str(e))
        return ne[0] if ne else None

    # ------------------------------------------------------------ code -> product
    def env_of(self, env, a, st):
        """expression of code atom a"""
        e = env.get(a)
        if e is not None:
            return e
        kd = A.kind[a]
        if kd == 'cell' and a in self.pcr or kd in ('ppos', 'prem'):
            return atom_expr(a)
        if kd == 'cell':
            rid, idx = A.meta[a]
            if rid != self.R:
                raise Undecided('unit of another input')      # its guards are dropped
            pos = self.tr(env, idx, st)
            d = sub(pos, self.cur)
            if not is_const(d):
                raise Undecided('unit at %s relative to the character boundary' % show_expr(d))
            return atom_expr(self.cell(d[0]))
        if kd == 'cond':
            return None
        raise Undecided('unknown quantity %s (%s)' % (A.name[a], kd))

    def tr(self, env, e, st):
        m = {}
        for a in atoms_of(e):
            x = self.env_of(env, a, st)
            if x is None:
                raise Undecided('truth value used as a number')
            m[a] = x
        try:
            return subst(e, m)
        except Unsliceable:
            raise Undecided('bit slice of a sum')

    def restrict(self, sts, e, dom):
        """states where e in dom"""
        out = []
        for st in sts:
            if is_const(e):
                if contains(dom, e[0]):
                    out.append(st)
                continue
            if len(e[1]) == 1 and e[1][0][1] in (1, -1):
                s, k = e[1][0]
                w = shift(dom, -e[0])
                if k < 0:
                    w = tuple((-b, -a) for a, b in reversed(w))
                x = refine_slice(st, s, w)
                if x is not None:
                    out.append(x)
                continue
            for lo, hi in dom:
                ge, _ = split_ge0(st, addc(e, -lo))
                for x in ge:
                    le, _ = split_ge0(x, sub(const(hi), e))
                    out += le
        return out

    def floating(self, e):
        return any(A.kind[a] == 'ppos' for a in atoms_of(e))

    def base(self, nid):
        """what the loop invariant of a node already says"""
        if not nid:
            return {}
        b = self.bases.get(nid)
        if b is None:
            nd = self.an.nodes[nid]
            b = self.bases[nid] = nd.plan.start(nd.rec).box
        return b

    def enter(self, ps, g):
        """states in which edge/term g of the code is taken from ps"""
        st = ps.st
        sts = [st]
        env = ps.env
        base = self.base(g.src)
        # conditions first: they name their atoms
        cmap = {}
        for term, at in g.conds:
            d = g.box.get(at)
            cmap[at] = (term, d)
        items = sorted(g.box.items(), key=lambda t: A.kind[t[0]] != 'cell')
        for a, d in items:
            kd = A.kind[a]
            if kd in ('plen', 'glen') or kd == 'cond':
                continue
            if kd == 'cell' and A.meta[a] and A.meta[a][0] != self.R:
                continue      # another input: its guards are dropped, a walk decides
            if base.get(a) == d:
                continue
            if kd in ('sigma', 'free', 'rho', 'len') and a not in env:
                continue      # facts about variables that are no longer live
            try:
                e = self.env_of(env, a, st)
            except Undecided:
                self.note = 'guard on a fixed position'
                continue
            if self.floating(e):
                if kd != 'sigma' or a in base:
                    self.note = 'guard on an absolute position'
                continue
            sts = self.restrict(sts, e, d)
            if not sts:
                return []
        for key, (lo, hi) in g.rel.items():
            try:
                e = self.tr(env, (0, key), st)
            except Undecided:
                continue
            if self.floating(e):
                continue
            sts = self.restrict(sts, e, ((lo, hi),))
        out = []
        for s in sts:
            for at, (term, d) in cmap.items():
                if d is None or d == A.full[at] or base.get(at) == d:
                    continue
                name, args = self.condterm(term)
                args = tuple(self.tr(env, x, s) for x in args)
                if d[0] == (0, 1):
                    continue
                s = self.assume_cond(s, name, args, d[0][0])
                if s is None:
                    break
            if s is not None and s.pend:
                s = s.copy()
                s.pend = ()
            if s is not None and s.rel:
                s = self.equate(s)
            if s is not None:
                out.append(s)
        return out

    def equalities(self, st):
        for key, (lo, hi) in st.rel.items():
            if lo == hi == 0 and len(key) == 2 and key[0][1] == -key[1][1]:
                yield key[0][0], key[1][0]

    def equate(self, s):
        """what is known of a unit is known of the units equal to it"""
        for x, y in list(self.equalities(s)):
            i = inter(slice_set(s, x), slice_set(s, y))
            for z in (x, y):
                s = refine_slice(s, z, i, 4096) if i else None
                if s is None:
                    return None
            for x, y in ((x, y), (y, x)):
                for a, d in list(s.box.items()):
                    c = self.pcondr.get(a)
                    if c is None or d[0][0] != d[-1][1] or len(c[1]) != 1:
                        continue
                    e = self.normal(s, c[1][0])
                    if len(e[1]) != 1 or e[1][0][1] != 1 or e[1][0][0][:2] != x[:2] or e[1][0][0][2] > y[2]:
                        continue
                    t = (e[0], (((y[0], y[1], e[1][0][0][2]), 1),))
                    s = refine_slice(s, (self.find_cond(s, c[0], (t,)), 0, 1), d)
                    if s is None:
                        return None
        return s

    def truth_set(self, st, name, args):
        """(slice, truth set of the slice) if the condition is about one slice of a unit; or a constant"""
        f = self.oracle.get(name)
        t = getattr(f, 'truth', None) if self.use_truth else None
        if t is None or len(args) != 1:
            return None
        e = self.normal(st, args[0])
        lo, hi = rng(st, e)
        if lo > hi:
            return False
        if subset(((lo, hi),), t):
            return True
        if not inter(((lo, hi),), t):
            return False
        if len(e[1]) == 1 and e[1][0][1] == 1:
            return e[1][0][0], shift(t, -e[0])
        return None

    def assume_cond(self, st, name, args, v):
        t = self.truth_set(st, name, args)
        if t is True or t is False:
            return st if t == bool(v) else None
        if t is not None:
            sl, w = t
            full = ((0, (1 << sl[2]) - 1),)
            return refine_slice(st, sl, inter(full, w) if v else diff(full, w))
        return refine_slice(st, (self.find_cond(st, name, args), 0, 1), ((v, v),))

    def condterm(self, term):
        if term[0] in ('member', 'search', 'eqstr'):
            raise Undecided('condition %r' % (term,))
        for v in term[1:]:
            if not (isinstance(v, tuple) and len(v) == 2 and isinstance(v[0], int)):
                raise Undecided('condition argument')
        return term[0], list(term[1:])

    # ------------------------------------------------------------ spec steps
    def tree_cell(self, st, j):
        """-> list of (state, set, atom or None)"""
        a = self.cell(j)
        if self.mode == 'str':
            rem = dom_of(st, self.LR)
            if rem[0][0] > j:
                return [(st, a)]
            if rem[-1][1] <= j:
                return [(st, None)]
            x = refine_slice(st, (self.LR, 0, 41), ((j + 1, rem[-1][1]),))
            y = refine_slice(st, (self.LR, 0, 41), ((rem[0][0], j),))
            return [(x, a), (y, None)]
        return [(st, a)]

    def spec_step(self, st, mode, avail):
        """-> list of (state, leaf), or None to defer.  avail(j): unit j may be split freely"""
        tree = self.spec.modes[mode]
        out = []
        work = [(st, tree)]
        while work:
            s, t = work.pop()
            if t[0] == 'cell':
                cs = self.tree_cell(s, t[1])
                if len(cs) > 1 and not avail(t[1]):
                    return None
                for s2, a in cs:
                    d = dom_of(s2, a) if a is not None else ((0, 0),)
                    comp = [(inter(d, w), sub_) for w, sub_ in t[2]]
                    comp = [c for c in comp if c[0]]
                    if len(comp) > 1 and not avail(t[1]) and (a is None or a not in s2.box):
                        return None
                    for w, sub_ in comp:
                        s3 = refine_slice(s2, (a, 0, A.width[a]), w) if a is not None else s2
                        if s3 is not None:
                            work.append((s3, sub_))
            elif t[0] == 'rem':
                d = dom_of(s, self.LR)
                comp = [(inter(d, w), sub_) for w, sub_ in t[1]]
                comp = [c for c in comp if c[0]]
                if len(comp) > 1 and not avail(comp[0][0][-1][1]):
                    return None
                for w, sub_ in comp:
                    s3 = refine_slice(s, (self.LR, 0, 41), w)
                    if s3 is not None:
                        work.append((s3, sub_))
            elif t[0] == 'cond':
                e = self.normal(s, t[2](lambda j: atom_expr(self.cell(j))))
                both = [(self.assume_cond(s, t[1], (e,), v), t[3] if v else t[4]) for v in (0, 1)]
                both = [x for x in both if x[0] is not None]
                if len(both) > 1 and not avail(max([self.pcr[x] for x in atoms_of(e)] or [0])):
                    return None
                work.extend(both)
            else:
                out.append((s, t))
        return out

    def shiftmap(self, k, n):
        m = {self.P: addc(atom_expr(self.P), -k), self.LR: addc(atom_expr(self.LR), k)}
        if n and self.N != self.P:
            m[self.N] = addc(atom_expr(self.N), -n)
        return Shift(self, k, m)

    def shift_state(self, st, k, m):
        ns = st.copy()
        box = {}
        for a, d in st.box.items():
            if a in self.pcr:
                box[self.cell(self.pcr[a] - k)] = d
            elif a == self.LR:
                box[a] = shift(d, -k)
            elif a in self.pcondr:
                name, args = self.pcondr[a]
                box[self.condatom(name, tuple(subst(x, m) for x in args))] = d
            elif a in (self.P, self.N):
                continue
            else:
                box[a] = d
        rel = {}
        for key, (lo, hi) in st.rel.items():
            e = subst((0, key), m)
            if len(e[1]) > 1:
                rel[e[1]] = (lo - e[0], hi - e[0])
        ns.box, ns.rel = box, rel
        return ns

    # ------------------------------------------------------------ the exploration
    def run(self):
        try:
            self.explore()
        except (Undecided, Imprecise, MemoryError):
            if not self.mism and not self.hits:
                raise                  # otherwise there is a confirmed input already

    def explore(self):
        self.note = None
        self._back = None
        found = None
        ps = PS()
        ps.node, ps.mode = 0, 'S'
        ps.st = empty_state()
        ps.env = {}
        if self.L is not None:
            ps.st.box = {self.LR: A.full[self.L]}
            ps.env[self.L] = atom_expr(self.LR)
        ps.diff = {}
        ps.prefix = None
        ps.count = 0
        self.seen = {}
        self.like = {}
        self.queue = deque([ps])
        while self.queue:
            ps = self.queue.popleft()
            for kind, g in self.bysrc.get(ps.node, []):
                self.steps += 1
                if self.steps > 60000 or len(self.seen) > MAXPROD:
                    raise Undecided('the comparison does not converge (%d pairs)' % len(self.seen))
                self.cur = atom_expr(self.P) if ps.node else ZERO
                for st in self.enter(ps, g):
                    if kind == 'E':
                        self.take(ps, g, st)
                    else:
                        self.finish(ps, g, st)
                if self.mism:
                    found = found or time.time()
                    if len(self.mism) >= (8 if self.spent < 2 else 1) or time.time() - found > 5:
                        return
                if self.hits and self.hits[0][0].kind == 'stuck':
                    return
            for e in self.evsrc.get(ps.node, ()):
                if any(h[0] is e for h in self.hits):
                    continue
                self.cur = atom_expr(self.P) if ps.node else ZERO
                for st in self.enter(ps, e):
                    if self.candidate(ps, e, st, ps.mode, ps.prefix, event=e):
                        break
        return

    def take(self, ps, g, st):
        nodeP = atom_expr(self.P) if ps.node else ZERO
        if ps.node == 0:
            p0, n0 = ZERO, ZERO
        else:
            p0, n0 = atom_expr(self.P), atom_expr(self.N)
        env = dict(ps.env)
        new = {}
        for a, e in g.assign.items():
            if A.kind[a] in ('plen',):
                continue
            try:
                v = self.tr(ps.env, e, st)
            except Undecided:
                if a in self.pos or A.kind[a] != 'free' and all(x in ps.env or A.kind[x] == 'cell' for x in atoms_of(e)):
                    raise
                env.pop(a, None)        # a quantity that is not followed
                continue
            if not any(A.kind[x] in ('ppos', 'prem') for x in atoms_of(v)):
                v = self.normal(st, v)
            new[a] = v
        env.update(new)
        diff_ = {}
        for sym, ps_ in ps.diff.items():
            diff_[sym] = ps_
        if self.spec.kind != 'none':
            for sym, pieces in g.emit.items():
                diff_[sym] = self.pieces(ps, pieces, st)
        # the code's cursor, relative to the spec
        cpos = [sub(v, p0) for a, v in new.items() if a in self.pos]
        lim = [c[0] for c in cpos if is_const(c)]
        lim = max(lim) if lim else 0
        self.advance(g.dst, ps, st, ps.mode, env, diff_, lim, 0, 0, ps.prefix, bool(ps.node))

    def advance(self, node, ps, st, mode, env, diff_, lim, dp, dn, prefix, rel):
        """run the spec as far as the code went, then queue.  dp, dn: advance so far (when P is absolute)"""
        work = [(st, mode, env, diff_, lim, dp, dn, prefix)]
        while work:
            st, mode, env, diff_, lim, dp, dn, prefix = work.pop()
            if mode in ('fail', 'end') or mode[0] == 'kf':
                # the result is settled; follow the code's cursor
                if lim > 0:
                    k = lim
                    st2, env2, diff2, prefix2 = self.consume(st, env, diff_, k, 0, prefix, ())
                    work.append((st2, mode, env2, diff2, 0, dp + k, dn, prefix2))
                    continue
                self.push(node, st, mode, env, diff_, dp, dn, prefix, rel)
                continue
            res = self.spec_step(st, mode, lambda j: j < lim)
            if res is None:
                self.push(node, st, mode, env, diff_, dp, dn, prefix, rel)
                continue
            for s, leaf in res:
                if leaf[0] in ('end', 'fail', 'kf'):
                    work.append((s, leaf if leaf[0] == 'kf' else leaf[0], env,
                                 {k: ('any',) for k in diff_} if leaf[0] == 'fail' else diff_, lim, dp, dn, prefix))
                else:
                    k, outs, n = leaf[1], leaf[2], leaf[3]
                    units = [f(lambda j: atom_expr(self.cell(j))) for f in outs]
                    s2, env2, diff2, prefix2 = self.consume(s, env, diff_, k, n, prefix, units)
                    work.append((s2, leaf[4] if len(leaf) > 4 else mode, env2, diff2, lim - k, dp + k, dn + n, prefix2))

    def consume(self, st, env, diff_, k, n, prefix, units):
        m = self.shiftmap(k, n)
        nd = {}
        for sym, d in diff_.items():
            nd[sym], st = self.specout(st, d, units)
        nst = self.shift_state(st, k, m)
        nenv = {}
        for a, e in env.items():
            try:
                nenv[a] = subst(e, m)
            except Unsliceable:
                if a in self.pos:
                    raise
        nd = {s: self.sub_diff(d, m) for s, d in nd.items()}
        return nst, nenv, nd, (prefix, st, k)

    def sub_diff(self, d, m):
        if d[0] in ('+', '-'):
            return (d[0], tuple(subst(e, m) for e in d[1]))
        return d

    def specout(self, st, d, units):
        """the spec outputs units: cancel against what the code is ahead by -> (difference, state)"""
        if d[0] in ('any', 'bad', 'empty', 'abs', 'whole'):
            return (('abs', d[1]) if d[0] == 'abs' else d), st
        if d[0] == '+':
            code = list(d[1])
            spec = list(units)
        else:
            code = []
            spec = list(d[1]) + list(units)
        while code and spec:
            ne = self.differ(st, code[0], spec[0])
            if ne is not None:
                return ('bad',), ne
            code.pop(0)
            spec.pop(0)
        if spec:
            return ('-', tuple(spec)), st
        return ('+', tuple(code)), st

    def pieces(self, ps, pieces, st):
        """value of a string relative to the spec's output so far"""
        cur = ('-', None) if False else None
        if ps.node == 0:
            base = ('+', ())
            i = 0
        else:
            base = None
            i = 0
        if pieces and pieces[0][0] == 'p':
            base = ps.diff.get(pieces[0][1])
            if base is None:
                raise Undecided('string of unknown origin')
            i = 1
        elif base is None:
            base = ('abs',)
        if base[0] in ('any', 'bad'):
            return base
        units = []
        for p in pieces[i:]:
            if p[0] == 'u':
                units.append(self.tr(ps.env, p[1], st))
            elif p[0] == 'in' and is_const(p[3]) and p[3][0] <= 64:
                for q in range(p[3][0]):
                    pos = self.tr(ps.env, addc(p[2], q), st)
                    d = sub(pos, self.cur)
                    if not is_const(d) or p[1] != self.R:
                        raise Undecided('copied text')
                    units.append(atom_expr(self.cell(d[0])))
            else:
                raise Undecided('text piece %s' % p[0])
        units = [self.normal(st, u) for u in units]
        if base[0] == 'abs':
            return ('abs', tuple(units))
        if base[0] == 'abs' or (base[0] == 'abs' and len(base) > 1):
            return ('abs', base[1] + tuple(units))
        if base[0] == '+':
            return ('+', base[1] + tuple(units))
        lag = list(base[1])
        while lag and units:
            if self.differ(st, lag[0], units[0]) is not None:
                return ('bad',)
            lag.pop(0)
            units.pop(0)
        if units:
            return ('+', tuple(units))
        return ('-', tuple(lag)) if lag else ('+', ())

    def push(self, node, st, mode, env, diff_, dp, dn, prefix, rel):
        if mode[0] == 'kf' and mode[2:] == (('any',),):
            return        # any result will do
        nd = self.an.nodes[node]
        if not rel:
            # leaving the entry segment: P and N become symbols
            e2 = {}
            m = {}
            for a, e in env.items():
                if a in self.pos and is_const(e):
                    e = add(atom_expr(self.P), const(e[0] - dp))
                elif A.kind[a] == 'sigma' and is_const(e):
                    if self.role is None or self.role.get(a, 'N') == 'N':
                        e = add(atom_expr(self.N), const(e[0] - dn))
                    elif self.role.get(a) == 'P':
                        e = add(atom_expr(self.P), const(e[0] - dp))
                elif a == self.L:
                    e = addc(add(atom_expr(self.P), e), -dp)
                e2[a] = e
            env = e2
        # a variable that holds an earlier unit holds the later one equal to it
        for x, y in self.equalities(st) if st.rel else ():
            jx, jy = self.pcr.get(x[0]), self.pcr.get(y[0])
            if jx is None or jy is None or jx == jy:
                continue
            if jx < jy:
                x, y = y, x
            for a, e in list(env.items()):
                if any(q == y for q, _ in e[1]):
                    e = self.normal(st, canon(e[0], [(x if q == y else q, k) for q, k in e[1]]))
                    env = dict(env)
                    env[a] = e
        # forget what is behind and unreferenced
        used = set()
        for e in env.values():
            used |= atoms_of(e)
        for d in diff_.values():
            if d[0] in ('+', '-', 'abs') and len(d) > 1:
                for e in d[1]:
                    used |= atoms_of(e)
        # conditions over dropped units are dropped with them
        box = {}
        back = self.back()
        for a, dm in st.box.items():
            if dm == A.full[a]:
                continue
            if a in self.pcr and self.pcr[a] < 0 and a not in used:
                if self.pcr[a] >= -back[0]:
                    dm = self.coarse(dm, back[1], A.full[a])
                    if dm != A.full[a]:
                        box[a] = dm
                continue
            if a in self.pcondr and any(self.pcr.get(x, 0) < 0 and x not in used for t in self.pcondr[a][1] for x in atoms_of(t)):
                continue
            if a == self.LR and dm[-1][1] >= (1 << 31) - 4096:
                dm = dm[:-1] + ((dm[-1][0], (1 << 31) - 1),)      # no length is special near the top
                if dm == A.full[a]:
                    continue
            box[a] = dm
        st = st.copy()
        st.box = box
        st.rel = {k: v for k, v in st.rel.items() if all(s[0] in used or self.pcr.get(s[0], 0) >= 0 for s, _ in k)}
        key = (node, mode, frozenset(env.items()), frozenset(box.items()), frozenset(st.rel.items()), frozenset(diff_.items()))
        if key in self.seen:
            return
        like = self.like.setdefault((node, mode, key[2], key[5]), [])
        for obox, orel in like[:24]:
            if all(a in box and subset(box[a], d) for a, d in obox.items()) and \
                    all(k in st.rel and lo <= st.rel[k][0] and st.rel[k][1] <= hi for k, (lo, hi) in orel.items()):
                return        # a state that covers this one is there
        like.append((box, st.rel))
        n = PS()
        n.node, n.mode, n.env, n.st, n.diff, n.prefix, n.count = node, mode, env, st, diff_, prefix, 0
        self.seen[key] = n
        self.queue.append(n)

    def back(self):
        """how far behind its cursor the code looks, and the conditions it puts on what it finds there"""
        if self._back is None:
            n, sets = 0, set()
            for g in self.an.edges + self.an.terms + self.an.events:
                for a, d in g.box.items():
                    if A.kind[a] != 'cell' or A.meta[a][0] != self.R or d == A.full[a]:
                        continue
                    i = A.meta[a][1]
                    if i[0] < 0 and len(i[1]) == 1 and i[1][0][0][0] in self.pos and i[1][0][1] == 1:
                        n = max(n, -i[0])
                        sets.add(d)
            self._back = (min(n, 8), tuple(sorted(sets))[:40])
        return self._back

    def coarse(self, dm, sets, full):
        """what dm says about membership in these sets"""
        r = full
        for d in sets:
            if subset(dm, d):
                r = inter(r, d)
            elif not inter(dm, d):
                r = diff(r, d)
        return r

    # ------------------------------------------------------------ returns
    def finish(self, ps, t, st):
        """run the spec to its end over every continuation and compare"""
        if self.spec.kind == 'none':
            return
        val = self.result(ps, t, st)
        if val == ('s', ('whole',)) and self.spec.ident and not can_fail(self.spec):
            self.returns += 1
            return
        work = [(st, ps.mode, val, ps.prefix, 0, 0, ps.env, 0)]
        guard = 0
        while work:
            st, mode, val, prefix, dp, dn, env, depth = work.pop()
            guard += 1
            if guard > 3000 or depth > 9:
                self.undecided.append('a return before the end of the input could not be settled (%s)' % (t.loc,))
                return
            if mode in ('fail', 'end') or mode[0] == 'kf':
                self.compare(ps, t, st, mode, val, prefix, dn)
                continue
            res = self.spec_step(st, mode, lambda j: True)
            for s, leaf in res:
                if leaf[0] in ('end', 'fail', 'kf'):
                    work.append((s, leaf if leaf[0] == 'kf' else leaf[0], val, prefix, dp, dn, env, depth + 1))
                else:
                    k, outs, n = leaf[1], leaf[2], leaf[3]
                    m = self.shiftmap(k, n)
                    v2 = val
                    if val[0] == 's':
                        units = [f(lambda j: atom_expr(self.cell(j))) for f in outs]
                        d2, s = self.specout(s, val[1], units)
                        v2 = ('s', self.sub_diff(d2, m))
                    elif val[0] == 'i':
                        v2 = ('i', subst(val[1], m) if ps.node else val[1])
                    work.append((self.shift_state(s, k, m), leaf[4] if len(leaf) > 4 else mode, v2, (prefix, s, k), dp + k, dn + n, env, depth + 1))

    def result(self, ps, t, st):
        if self.spec.kind == 'string':
            v = t.st.mem.get(self.ret, {}).get(0)
            if v is None or v[1][0] != 'str':
                raise Undecided('the returned string is not known')
            pieces = self.unwrap(t, v[1][2])
            if not pieces:
                return ('s', ('empty',))
            if self.whole(pieces):
                return ('s', ('whole',))
            d = self.pieces(ps, pieces, st)
            return ('s', d)
        v = t.ret
        if v is None or v[0] != 'i':
            raise Undecided('no result')
        return ('i', self.tr(ps.env, v[2], st))

    def whole(self, pieces):
        """is this a copy of the input up to its first NUL?"""
        return len(pieces) == 1 and pieces[0][:3] == ('cstr', self.R, ZERO)

    def unwrap(self, t, pieces):
        """a C string read from a text without NUL is that text"""
        st = None
        if any(p[0] in ('q', 'in') for p in pieces):
            st = empty_state()
            st.box, st.rel = dict(t.box), dict(t.rel)
            pieces = tuple(('p', p[1], None) if p[0] == 'q' else p for p in pieces if p[0] != 'in' or rng(st, p[3]) != (0, 0))
        while len(pieces) == 1 and pieces[0][0] == 'cstr' and pieces[0][2] == ZERO:
            r = pieces[0][1]
            if not (r[0] == 'in' and isinstance(r[1], tuple) and r[1][0] == 'obuf'):
                break
            if not self.nul_free(t, r[1][1]):
                break
            pieces = tuple(('p', p[1]) if p[0] == 'p' else p for p in r[1][1])
        return pieces

    def nul_free(self, g, pieces, seen=()):
        for p in pieces:
            if p[0] == 'u':
                st = empty_state()
                st.box, st.rel = dict(g.box), dict(g.rel)
                if split_eq0(st, p[1])[0]:
                    return False
            elif p[0] == 'p':
                if p[1] in seen:
                    continue
                seen = seen + (p[1],)
                for e in self.an.edges:
                    if p[1] in e.emit and not self.nul_free(e, e.emit[p[1]], seen):
                        return False
            else:
                return False
        return True

    def compare(self, ps, t, st, mode, val, prefix, dn):
        self.returns += 1
        if mode[0] == 'kf':
            alts = mode[2] if len(mode) > 2 else ('fail', 'end')
            if self.agrees(ps, st, alts[0], val, prefix, dn) is None:
                return
            for alt in alts[1:]:
                if self.agrees(ps, st, alt, val, prefix, dn) is None:
                    self.known.setdefault(mode[1], []).append((prefix, st))
                    return
            self.candidate(ps, t, st, mode, prefix)
            return
        bad = self.agrees(ps, st, mode, val, prefix, dn)
        if bad is not None:
            self.candidate(ps, t, bad, mode, prefix)

    def agrees(self, ps, st, mode, val, prefix, dn):
        """None, or a state in which the result differs from the one for mode"""
        kind = self.spec.kind
        if mode == 'any':
            return None
        if kind == 'string':
            d = val[1]
            if d[0] == 'whole':
                return None if mode == 'end' and self.spec.ident else st
            if mode == 'fail':
                return None if d[0] == 'empty' or (ps.node == 0 and d == ('+', ())) else st
            if d[0] == 'empty':
                return None if ps.node == 0 and self.emptyout(prefix) else st
            return None if d in (('+', ()), ('-', ())) else st
        n = atom_expr(self.N) if ps.node else const(dn)
        if mode == 'fail':
            want = const(self.spec.fail)
        elif self.spec.endval is not None:
            want = const(self.spec.endval)
        elif kind == 'bool':
            want = const(1)
        elif mode == 'end-1':
            want = addc(n, -1)
        else:
            want = n
        df = sub(val[1], want)
        if df == ZERO:
            return None
        if not is_const(df) and not self.floating(df):
            eq, ne = split_eq0(st, df)
            return ne[0] if ne else None
        return st

    def emptyout(self, prefix):
        # the spec ended in the entry segment without output
        while prefix is not None:
            prefix, st, k = prefix
            if k:
                return False
        return True

    # ------------------------------------------------------------ concrete confirmation
    def candidate(self, ps, t, st, mode, prefix, event=None):
        import random
        rnd = random.Random(1)
        chain = []
        p = prefix
        while p is not None:
            p, s, k = p
            chain.append((s, k))
        chain.reverse()
        tried = set()
        if (self.mism or self.hits) and self.spent > 2:
            return True
        if self.patience is not None and self.spent > self.patience:
            raise Undecided('a possible disagreement (spec: %s) has no confirmed input' % (mode,))
        t0 = time.time()
        try:
            return self.candidate1(ps, t, st, mode, chain, rnd, tried, event)
        finally:
            self.spent += time.time() - t0

    def candidate1(self, ps, t, st, mode, chain, rnd, tried, event):
        lead = None
        # what later steps found out about units they look back at (or ahead to)
        know = {}
        at = 0
        for s, k in chain + [(st, 0)]:
            for a, d in s.box.items():
                j = self.pcr.get(a)
                if j is not None and at + j >= 0 and d != A.full[a]:
                    know[at + j] = (inter(know[at + j][0], d) or d, know[at + j][1] or not 0 <= j < k) if at + j in know else (d, not 0 <= j < k)
            at += k
        know = {i: d for i, (d, w) in know.items() if w}
        for attempt in range(80 if len(chain) < 24 else 16):
            units = []
            for s, k in chain:
                smp = self.samples(s, k)
                if smp:
                    units += smp[attempt % len(smp)]
                    if lead is None:
                        lead = list(smp[0])
                    continue
                for j in range(k):
                    units.append(self.pick(s, j, attempt, rnd))
            if lead is None and chain:
                lead = units[:chain[0][1]]
            end = self.samples(st, 0)
            end = end[attempt % len(end)] if end else None
            # what lies ahead of the spec's cursor
            js = [self.pcr[a] for a in st.box if a in self.pcr and self.pcr[a] >= 0]
            top = max(js) + 1 if js else 0
            length = None
            if self.L is not None:
                rem = dom_of(st, self.LR)
                r = rem[0][0] if rem[0][0] >= top or attempt % 2 == 0 else min(max(top, rem[0][0]), rem[-1][1])
                if attempt % 5 == 4:
                    r = min(rem[-1][1], r + 1)
                length = len(units) + r
                if length > 4096:
                    continue
                for j in range(r):
                    units.append(end[j] if end and j < len(end) else self.pick(st, j, attempt, rnd))
            else:
                for j in range(top):
                    units.append(end[j] if end and j < len(end) else self.pick(st, j, attempt, rnd))
                if 0 not in units:
                    units.append(0)
                units = units[:units.index(0) + 1]
            if attempt % 8 < 6:
                for i, d in know.items():
                    if i < len(units) and not contains(d, units[i]) and (self.L is not None or i < len(units) - 1):
                        iv = d[rnd.randrange(len(d))]
                        units[i] = iv[attempt % 2] if attempt < 4 else rnd.randint(*iv)
            at = 0
            for s, k in chain + [(st, 0)]:
                for x, y in self.equalities(s):
                    jx, jy = self.pcr.get(x[0]), self.pcr.get(y[0])
                    if jx is None or jy is None:
                        continue
                    if jx < jy:
                        x, y, jx, jy = y, x, jy, jx
                    if 0 <= at + jy and at + jx < len(units) and x[1] == 0:
                        # the later unit is what the earlier one says
                        units[at + jx] = (units[at + jy] >> y[1]) & ((1 << y[2]) - 1)
                at += k
            if self.L is None and 0 in units:
                units = units[:units.index(0) + 1]
            key = tuple(units)
            if key in tried:
                continue
            tried.add(key)
            if self.test(units, length, t, event):
                return True
        n = 0
        lead = lead if lead and 0 not in lead else [0x41]
        keys = sorted(tried, key=len)
        t0 = time.time()
        # conditions on the output so far: input that may have led to such output
        hints = self.hints()
        for key in keys[:8] if hints else ():
            at = {max(0, len(key) - i) for i in (1, 2, 3, 4)} | {0}
            for h in hints:
                for i in at:
                    n += 1
                    units = list(key[:i]) + list(h) + list(key[i:])
                    if n <= 500 and self.test(units, len(units) if self.L is not None else None, t, event):
                        return True
        n = 0
        for pad in self.pads():
            for key in keys[:6 if pad < 3000 else 2]:
                n += 1
                if n > 600 or time.time() - t0 > 40:
                    break
                units = lead * pad + list(key)
                if self.test(units, len(units) if self.L is not None else None, t, event):
                    return True
        if event is not None:
            self.unhit.append(event)
        else:
            self.undecided.append('a possible disagreement (spec: %s) has no confirmed input' % (mode,))
        return False

    def test(self, units, length, t, event):
        if event is not None:
            for o in self.others or [{}]:
                self.other = o
                if event.kind == 'stuck':
                    self.walk(units, length)
                    if self.looped:
                        self.hits.append((event, units, length))
                        return True
                elif self.walk(units, length, event) is event:
                    self.hits.append((event, units, length))
                    return True
            return False
        m = self.confirm(units, length)
        if m is None:
            return False
        if all(m.units != x.units for x in self.mism):
            m.loc = t.loc
            self.mism.append(m)
        return True

    def pads(self):
        """numbers of units that bring absolute positions named in guards within reach"""
        if getattr(self, '_pads', None) is None:
            c = set()
            count = set()       # variables that are stepped by a constant
            for e in self.an.edges:
                for a, x in e.assign.items():
                    if A.kind[a] == 'free' and len(x[1]) == 1 and x[1][0][0][0] == a and x[0]:
                        count.add(a)
            for e in self.an.edges + self.an.terms + self.an.events:
                for a, d in e.box.items():
                    if A.kind[a] in ('sigma', 'rho', 'len', 'glen', 'plen') or a in count:
                        for lo, hi in d:
                            for x in (lo, hi):
                                if 0 < x < 70000:
                                    c.add(x)
                for (a, lo, n), w in e.pend:
                    if A.kind[a] in ('len', 'rho', 'sigma', 'free', 'plen') and n < 17:
                        c.add(1 << (lo + n))
                for key, (lo, hi) in e.rel.items():
                    if any(A.kind[q[0]] in ('cell', 'free') and q[0] not in count for q, _ in key):
                        continue
                    for x in (abs(lo), abs(hi)):
                        if 0 < x < 70000:
                            c.add(x)
            out = set()
            for x in c:
                for k in range(-4, 4) if x < 3000 else (-1, 0, 1):
                    if x + k > 0:
                        out.add(x + k)
            out = sorted(out)
            self._pads = out[:80] + [x for x in out[80:] if x >= 3000][-12:] + [16, 17]
        return self._pads

    def hints(self):
        """texts whose output may be what guards on the output so far ask for"""
        if getattr(self, '_hints', None) is None:
            vals = {}
            for g in self.an.edges + self.an.terms:
                for a, d in g.box.items():
                    if A.kind[a] == 'cell' and A.meta[a][0] != self.R and A.meta[a][0] not in (self.other or {}) and d != A.full[a]:
                        for lo, hi in d[:6]:
                            if hi - lo < 64:
                                vals[lo] = vals[hi] = 1
            w = A.width[self.cell(0)]
            self._hints = [u for v in list(vals)[:12] if v for u in dict.fromkeys(((v,), inputs.encode(v, w))) if max(u) < 1 << w]
        return self._hints

    def samples(self, s, k):
        """units that satisfy the class conditions of s; None if it has none that are about them"""
        got = self.smp.get((id(s), k))
        if got is not None:
            return got[1]
        conds = []
        top = k
        for a, d in s.box.items():
            c = self.pcondr.get(a)
            if c is None or d[0][0] != d[-1][1] or self.oracle.get(c[0]) is None:
                continue
            js = [self.pcr.get(x) for e in c[1] for x in atoms_of(e)]
            if all(j is not None and j >= 0 for j in js):
                conds.append((c, d[0][0]))
                top = max([top] + [j + 1 for j in js])
        if not conds:
            self.smp[(id(s), k)] = (s, None)
            return None
        import random
        rnd = random.Random(2)
        out = []

        def good(us):
            env = {self.pc[j]: us[j] for j in range(top) if j in self.pc}
            return all(bool(self.oracle[n](*[evaluate(e, env) for e in args])) == bool(v) for (n, args), v in conds)
        tries = []
        for (n, args), v in conds:
            t = getattr(self.oracle[n], 'truth', None)
            if t is None or len(args) != 1:
                continue
            e = args[0]
            lo, hi = rng(s, e)
            t = inter(((lo, hi),), t) if v else diff(((lo, hi),), t)
            vals = []
            for iv in list(t[:12]) + list(t[-6:]):
                vals += [iv[0], iv[1], rnd.randint(*iv)]
            for val in vals:
                rem = val - e[0]
                want = {}
                for (a, lo_, n_), kk in sorted(e[1], key=lambda x: -x[1]):
                    x = min(rem // kk, (1 << n_) - 1) if kk > 0 else 0
                    rem -= x * kk
                    want.setdefault(a, []).append((lo_, n_, x))
                if rem:
                    continue
                us = [self.pick(s, j, 0, rnd) for j in range(top)]
                ok = True
                for a, ws in want.items():
                    d = s.box.get(a, A.full[a])
                    mask = sum(((1 << n_) - 1) << lo_ for lo_, n_, x in ws)
                    x = sum(x << lo_ for lo_, n_, x in ws)
                    c = [u for u in (x | (r & ~mask) for iv in d for r in (iv[0], iv[1])) if contains(d, u)]
                    if not c:
                        ok = False
                        break
                    us[self.pcr[a]] = c[0]
                if ok:
                    tries.append(us)
        for i in range(120):
            tries.append([self.pick(s, j, i, rnd) for j in range(top)])
        for us in tries:
            if good(us) and tuple(us) not in out:
                out.append(tuple(us))
                if len(out) >= 12:
                    break
        r = [x[:k] if k else x for x in out] or None
        self.smp[(id(s), k)] = (s, r)
        return r

    def pick(self, st, j, attempt, rnd):
        a = self.pc.get(j)
        d = dom_of(st, a) if a is not None and a in st.box else (self.alpha or ((0x41, 0x41),))
        if a is None or a not in st.box:
            return 0x41
        if attempt % 4 == 0:
            return d[0][0]
        if attempt % 4 == 1:
            return d[-1][1]
        lo, hi = d[rnd.randrange(len(d))]
        return rnd.randint(lo, hi)

    def confirm(self, units, length):
        if units and max(units) > A.full[self.cell(0)][-1][1]:
            return None
        want = self.walk_spec(units, length)
        for o in self.others or [{}]:
            self.other = o
            got = self.walk(units, length)
            if got is not None and got not in want:
                m = Mismatch(self.spec.name, units, length, got, want)
                m.other = o
                m.trail = self.trail
                return m
        return None

    def unit(self, units, length, i):
        if i < 0:
            return None
        if length is not None:
            if i < length:
                return units[i]
            return 0 if i == length and self.mode == 'str' else None
        return units[i] if i < len(units) else None

    def walk(self, units, length, event=None):
        """evaluate the extracted graph on one input"""
        node = 0
        env = {}
        if self.L is not None:
            env[self.L] = length
        strs = {}
        trail = []
        self.trail = trail
        self.looped = False
        been = set()
        caps = self.growing()
        for _ in range(len(units) * 3 + 16):
            self.strs = strs
            here = (node, tuple(sorted((a, min(v, caps.get(a, v))) for a, v in env.items())))
            if here in been:
                self.looped = True          # the same configuration again: this path never ends
                return None
            been.add(here)
            hits = []
            e = dict(env)
            if event is not None and event.src == node and not event.approx and \
                    self.sat(event, e, units, length):
                return event
            for kind, g in self.bysrc.get(node, []):
                if g.approx:
                    if self.sat(g, e, units, length) is not False:
                        return None
                    continue
                r = self.sat(g, e, units, length)
                if r is None:
                    return None
                if r:
                    hits.append((kind, g))
            if not hits:
                return None
            outs = []
            for kind, g in hits:
                e2 = self.celldict(g, env, units, length)
                if kind == 'T':
                    if self.spec.kind == 'none':
                        outs.append(('ret', None))
                    elif self.spec.kind == 'string':
                        v = g.st.mem.get(self.ret, {}).get(0)
                        x = self.eval_pieces(self.unwrap(g, v[1][2]), e2, strs, units, length)
                        if x is None:
                            return None
                        outs.append(('ret', tuple(x)))
                    else:
                        w = g.ret[1]
                        outs.append(('ret', evaluate(self.fill(g.ret[2], e2, units, length), e2) & ((1 << w) - 1)))
                else:
                    n2 = {}
                    for a, x in g.assign.items():
                        self.fill(x, e2, units, length)
                        if A.kind[a] != 'plen':
                            n2[a] = evaluate(x, e2)
                        elif all(b in e2 for b in atoms_of(x)):
                            n2[a] = evaluate(x, e2)
                        else:
                            env.pop(a, None)
                    s2 = {s: self.rope(p, e2, strs, units, length) for s, p in g.emit.items()}
                    if any(x is None for x in s2.values()):
                        return None
                    outs.append(('go', g.dst, tuple(sorted(n2.items())), tuple(sorted(s2.items(), key=lambda x: repr(x[0])))))
            if any(o != outs[0] for o in outs):
                return None
            o = outs[0]
            trail.append(hits[0][1].last)
            self.trail = trail
            if o[0] == 'ret':
                return o[1]
            node = o[1]
            env.update(o[2])
            strs = dict(strs)
            strs.update(o[3])
        return None

    def growing(self):
        """lengths that only grow and that no guard bounds from above: beyond the value given they make no difference"""
        if self.caps is None:
            caps = {}
            gs = self.an.edges + self.an.terms
            for g in gs:
                for a in g.assign if hasattr(g, 'assign') else ():
                    if A.kind[a] == 'plen':
                        caps[a] = 0
            for g in gs:
                for a in list(caps):
                    d = g.box.get(a)
                    x = getattr(g, 'assign', {}).get(a)
                    if d is not None and (len(d) > 1 or d[0][1] < BIG) or any(s[0] == a for key in g.rel for s, _ in key) or \
                            x is not None and not (is_const(sub(x, atom_expr(a))) and sub(x, atom_expr(a))[0] >= 0 or is_const(x)):
                        del caps[a]
                        continue
                    if d is not None:
                        caps[a] = max(caps[a], d[0][0])
                    if any(a in atoms_of(y) for b, y in getattr(g, 'assign', {}).items() if b != a) or \
                            any(A.kind[b] == 'cell' and a in atoms_of(A.meta[b][1]) for b in g.box):
                        caps.pop(a, None)
            self.caps = caps
        return self.caps

    def fill(self, e, env, units, length):
        for a in atoms_of(e):
            if a not in env:
                self.val(a, env, units, length)
        return e

    def val(self, a, env, units, length):
        if a in env:
            return env[a]
        if A.kind[a] == 'cell':
            rid, idx = A.meta[a]
            if rid != self.R:
                if rid in self.other and is_const(idx):
                    o = self.other[rid]
                    if idx[0] < len(o):
                        env[a] = o[idx[0]]
                        return env[a]
                elif all(b in env for b in atoms_of(idx)):
                    v = self.opaque_unit(rid, evaluate(idx, env), env, units, length)
                    if v is not None:
                        env[a] = v
                    return v
                return None
            for b in atoms_of(idx):
                if b not in env:
                    return None
            v = self.unit(units, length, evaluate(idx, env))
            if v is not None:
                env[a] = v
            return v
        if A.kind[a] == 'plen' and self.apply and isinstance(A.meta[a], tuple):
            x = self.applied(A.meta[a], env, {}, units, length)
            if x is not None:
                env[a] = len(x)
                return env[a]
        return None

    def applied(self, term, env, strs, units, length):
        """the string a summarised function returns"""
        vals = []
        for x in term[1:]:
            if x == ('null',):
                vals.append(None)
            elif isinstance(x, tuple) and x and x[0] in ('strval', 'cs'):
                v = self.eval_pieces(x[1], env, strs, units, length)
                if v is None:
                    return None
                vals.append(tuple(v[:v.index(0)] if x[0] == 'cs' and 0 in v else v))
            elif isinstance(x, tuple) and x and x[0] == 'at' and is_const(x[2]):
                v = self.other.get(x[1]) if x[1] != self.R else tuple(units) + (0,)
                if v is None:
                    return None
                v = v[x[2][0]:]
                vals.append(v[:v.index(0)] if 0 in v else v)
            else:
                return None
        return self.apply(term[0], vals)

    def opaque_unit(self, rid, i, env, units, length):
        ps = self.ip.regions.get(rid, {}).get('pieces')
        if ps is None or i < 0:
            return None
        x = self.eval_pieces(ps, env, self.strs, units, length)
        return None if x is None or i > len(x) else 0 if i == len(x) else x[i]

    def celldict(self, g, env, units, length):
        return dict(env)

    def tests(self, g):
        """the guard of g, without what the loop invariant says anyway, simple tests first"""
        t = self.compiled.get(id(g))
        if t is not None:
            return t[1]
        base = self.base(g.src)
        cond = {at: term for term, at in g.conds}
        own, cells, conds = [], [], []
        for a, d in g.box.items():
            kd = A.kind[a]
            if kd == 'glen' or d == A.full[a] and kd != 'cell' or base.get(a) == d:
                continue
            if kd == 'cond':
                conds.append(self.condterm(cond[a]) + (d,))
            elif kd == 'cell':
                cells.append((card(d), a, d))
            else:
                own.append((a, d, kd))
        cells.sort(key=lambda x: x[0])
        bits = [(q[0], q[1], (1 << q[2]) - 1, w) for q, w in dict.fromkeys(g.pend)]
        t = (own, [x[1:] for x in cells], conds, bits, [(k, lo, hi) for k, (lo, hi) in g.rel.items()])
        self.compiled[id(g)] = (g, t)
        return t

    def sat(self, g, e, units, length):
        """True / False / None (unknown); e: the values so far, units that are looked at are added"""
        own, cells, conds, bits, rel = self.tests(g)
        unknown = False
        for a, d, kd in own:
            v = e.get(a)
            if v is None and kd == 'plen' and self.apply:
                v = self.val(a, e, units, length)
            if v is None:
                if kd == 'plen' or kd not in ('sigma', 'free', 'rho', 'len'):
                    unknown = True      # facts about loops that are over were established before
                continue
            if not contains(d, v):
                return False
        for a, d in cells:
            v = e.get(a)
            if v is None:
                v = self.val(a, e, units, length)
                if v is None:
                    return False
            if not contains(d, v):
                return False
        for a, lo, mask, w in bits:
            v = self.val(a, e, units, length)
            if v is None:
                unknown = True
            elif not contains(w, v >> lo & mask):
                return False
        for key, lo, hi in rel:
            if all(self.val(s[0], e, units, length) is not None for s, _ in key):
                v = evaluate((0, key), e)
                if not lo <= v <= hi:
                    return False
        for name, args, d in conds:
            vals = []
            for x in args:
                self.fill(x, e, units, length)
                if any(b not in e for b in atoms_of(x)):
                    return False
                vals.append(evaluate(x, e))
            f = self.oracle.get(name)
            if f is None:
                unknown = True
                continue
            if not contains(d, 1 if f(*vals) else 0):
                return False
        return None if unknown else True

    def rope(self, ps, env, strs, units, length):
        if ps and ps[0][0] == 'p' and ps[0][1] in strs:
            x = self.eval_pieces(ps[1:], env, strs, units, length)
            return None if x is None else Rope(strs[ps[0][1]], tuple(x)) if x else strs[ps[0][1]]
        x = self.eval_pieces(ps, env, strs, units, length)
        return None if x is None else Rope(None, tuple(x))

    def eval_pieces(self, ps, env, strs, units, length):
        out = []
        for p in ps:
            if p[0] == 'u':
                self.fill(p[1], env, units, length)
                out.append(evaluate(p[1], env))
            elif p[0] == 'p':
                if p[1] not in strs:
                    return None
                out += strs[p[1]].flat()
            elif p[0] == 'in':
                s = evaluate(self.fill(p[2], env, units, length), env)
                n = evaluate(self.fill(p[3], env, units, length), env)
                for q in range(n):
                    v = self.unit(units, length, s + q) if p[1] == self.R else self.opaque_unit(p[1], s + q, env, units, length)
                    if v is None:
                        return None
                    out.append(v)
            elif p[0] == 'app' and self.apply:
                x = self.applied(p[1], env, strs, units, length)
                if x is None:
                    return None
                out += x
            elif p[0] == 'cstr' and p[1] == self.R:
                s = evaluate(self.fill(p[2], env, units, length), env)
                while True:
                    u = self.unit(units, length, s)
                    if u is None:
                        return None
                    if u == 0:
                        break
                    out.append(u)
                    s += 1
            else:
                return None
        return out

    def walk_spec(self, units, length):
        return run_spec(self.spec, units, length, self.mode, self.oracle)


class Anything(list):
    def __contains__(self, x):
        return True


def run_spec(spec, units, length, mode, oracle):
    pos, n, out = 0, 0, []
    md = 'S'
    fl = () if spec.kind == 'string' else spec.fail

    def cell(j):
        i = pos + j
        if length is not None:
            return units[i] if i < length else 0
        return units[i]
    while True:
        t = spec.modes[md]
        while t[0] in ('cell', 'rem', 'cond'):
            if t[0] == 'cell':
                v = cell(t[1])
                t = [s for w, s in t[2] if contains(w, v)][0]
            elif t[0] == 'rem':
                t = [s for w, s in t[1] if contains(w, length - pos)][0]
            else:
                v = evalfn(t[2], cell)
                t = t[3] if oracle[t[1]](v) else t[4]
        if spec.ident and t[0] in ('end', 'kf'):
            j = 0
            while (length is None or pos + j < length) and cell(j):
                out.append(cell(j))
                j += 1
        if t[0] == 'end':
            if spec.endval is not None:
                return [spec.endval]
            return [1 if spec.kind == 'bool' else n if spec.kind == 'count' else tuple(out)]
        if t[0] == 'fail':
            return [fl]
        if t[0] == 'kf':
            if t[2:] == (('any',),):
                return Anything()
            m = {'fail': fl, 'end': tuple(out) if spec.kind == 'string' else 1 if spec.kind == 'bool' else n, 'end-1': n - 1}
            return [m[a] for a in (t[2] if len(t) > 2 else ('fail', 'end'))]
        out += [evalfn(f, cell) for f in t[2]]
        pos += t[1]
        n += t[3]
        if len(t) > 4:
            md = t[4]


_T = {}


def evalfn(f, cell):
    """evaluate a unit builder on concrete units"""
    used = {}

    def c(j):
        a = _T.get(j)
        if a is None:
            a = _T[j] = A.new(32, 't%d' % j, 'tmp')
        used[a] = cell(j)
        return atom_expr(a)
    e = f(c)
    return evaluate(e, used)
